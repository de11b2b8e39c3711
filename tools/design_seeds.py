{'c06-array-bytes-as-is': ('C06', 'first missed: array.array types with other element sizes were added'),
 'c10-shift-of-second-record': ('C10', 'first missed: records of many samples were added'),
 'c19-frame-count-byte': ('C19, C18', ''),
 'c25-reused-output': ('C25, C24', 'first missed: second set of inputs of the same sizes was added'),
 'c20-whole-second-periods': ('C20, C16', ''),
 'c07-identifier-length-kept': ('C07', 'first missed: assigning the identifier between other operations was added'),
 'c09-absolute-position': ('C09', 'first missed: sources not at their start were added'),
 'c10-unknown-version': ('C10', 'first missed: publication versions 0 and 255 were added'),
 'c11-short-text': ('C11', 'first missed: text with blanks at its ends was added'),
 'c12-pointer-trailing-slash': ('C12', 'first missed: pointers with empty and trailing names were added'),
 'c16-codes-right-justified': ('C16', 'first missed: short channel codes were added, which also found the defect fixed in 7889f16'),
 'c18-identifier-cache': ('C18', 'first missed: channels whose codes put together are the same were added'),
 'c18-rate-of-period': ('C18, C28', ''),
 'c19-pad-unknown': ('C19', 'first missed: a blockette of odd length was added'),
 'c20-sorted-blockettes': ('C20, C25', 'C25 first missed: blockettes not in order were added to its inputs'),
 'c24-shared-head-buffer': ('C24', 'first missed: threads may now also be switched in reads of their sources'),
 'c25-shared-blockettes': ('C25', 'first missed: call that adds blockettes to a new record was added'),
 'c25-own-numpy-view': ('C25', 'first missed: compressed records were added to the inputs'),
 'c27-total-of-printed': ('C27', 'first missed: records of other encodings were added'),
 'c28-long-data': ('C28', 'first missed: records of up to 10,001 samples were added'),
 'c28-day-of-year': ('C28', 'first missed: day of year must have three digits'),
 'c20-leap-second-of-day': ('C20', 'LeapSecond was added to the property after a mutation survived, which also found the defect fixed in d8f0f4d'),
 'c29-larger-count-replaced': ('C29', ''),
 'c29-either-steim': ('C29', ''),
 'c30-data-inside-blockettes': ('C30', ''),
 'c30-short-data-accepted': ('C30, C05', 'C30 first missed: changed records are now decoded'),
 'c30-version-of-format': ('C30', 'first missed: bytes that are no record must now be refused'),
 'c30-indicator-either': ('C30', 'first missed: as before'),
 'c31-second-rate-by-describe': ('C31', ''),
 'c31-sources-upper': ('C31', ''),
 'c31-bands-once': ('C31', ''),
 'c25-merged-shares-extras': ('C25', 'first missed: merged and decompressed records are now among the results that are scribbled on'),
 'c12-fixed-temporary': ('C12', 'first missed: bystander files with names made from those given were added'),
 'c21-equal-ignoring-case': ('C21', 'first missed: spellings that differ in case only were added'),
 'c11-length-in-characters': ('C11', 'first missed: the size known right after a value is set was added'),
 'c09-skip-16-bits': ('C09', 'first missed: records of 64 KiB and more were added'),
 'c10-count-16-bits': ('C10', 'first missed: records of 65535 samples were added'),
 'c04-frame-limit-255': ('C04', 'first missed: frame limits to 512 were added'),
 'c20-signed-count': ('C20', 'first missed: records of up to 65535 samples were added'),
 'c04-count-16-bits': ('C04', 'first missed: blocks of more than 65535 samples were added'),
 'c07-undecodable-replaced': ('C07', 'first missed: records with a right CRC and text that is not UTF-8 were added'),
 'c09-identifier-stripped': ('C09', 'first missed: identifiers with blanks around them were added'),
 'c11-unstorable-keys-dropped': ('C11', 'first missed: values and keys JSON cannot hold were added'),
 'c14-stale-nanoseconds': ('C14', 'first missed: start times set over earlier ones were added'),
 'c16-blank-quality': ('C16', 'first missed: unusual codes and qualities were added'),
 'c16-location-of-dashes': ('C16', 'first missed: as before'),
 'c21-dashes-are-no-location': ('C21', ''),
 'c22-test-network-historical': ('C22', 'first missed: which form a temporary code has was added to the property'),
 'c23-whole-periods': ('C23', ''),
 'c25-clone-shares-blockettes': ('C25', 'first missed: blockettes of clones are now scribbled on'),
 'c27-file-given-twice': ('C27', 'first missed: files in any order and more than once were added'),
 'c27-verbose-extra-headers': ('C27', 'first missed: all lists of options were added'),
 'c28-files-sorted': ('C28', 'first missed: as for C27'),
 'c31-rate-zero-unasked': ('C31', ''),
 'c08-merge-unchecked': ('C08', 'first missed: damage read with merging was added'),
 'c10-other-stream-between': ('C10', 'first missed: two streams in turn, read with a pattern, were added'),
 'c16-separator-of-codes': ('C16', 'first missed: separators were added'),
 'c19-time-quality-limit': ('C19', 'first missed: all values of blockettes were added'),
 'c04-unused-frames': ('C04', 'first missed: size of limited blocks was added'),
 'c06-dwwssn': ('C06', 'first missed: encoding 32 was added'),
 'c01-padding-cut': ('C01', 'first missed: long runs at the end were added'),
 'c07-identifier-letters': ('C07', 'first missed: identifiers given as objects with other letters were added'),
    "c16-sourceid-dashes": ("C16", "first missed: the source id of every record read is now compared with its codes"),
}
