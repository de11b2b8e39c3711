{
    "C01": ("decoding gives the input; refused input must raise; a reference decoder (C03) reads the bytes.", "10 s", "4 min"),
    "C02": ("decoding gives the input; refused exactly if a difference needs more than 30 bits.", "20 s", "6 min"),
    "C03": ("lib/steimref.py: its decoder reads every encoding (first and last sample, zero filling, unused control codes included), its packings are read by the library.", "7 s", "3 min"),
    "C04": ("number of frames, samples reported and the reference decoding of each chunk; the chunks concatenate to the series.", "38 s", "4 min"),
    "C05": ("result has the declared length or a codec exception is raised; a model of the sample count says when it must raise.", "16 s", "3 min"),
    "C06": ("bit patterns packed by int.to_bytes and struct in the requested byte order.", "6 s", "1 min"),
    "C07": ("lib/ms3ref.py parses every packed record; every field is compared after unpacking, cloning and packing again.", "13 s", "3 min"),
    "C08": ("no damaged record is returned; CRC of packed records from an independent table.", "9 s", "6 min"),
    "C09": ("list of the records given, filtered by re.search on the identifier.", "11 s", "2 min"),
    "C10": ("a model of runs of records: joined exactly if the attributes agree and the exact time (fractions) is within half a period; every sample's time follows from it.", "12 s", "5 min"),
    "C11": ("a dictionary model of the record, compared with the unpacked packed bytes after the operations.", "21 s", "3 min"),
    "C12": ("lib/ehfiles.py: expected bytes of every file; JSON pointer evaluated on plain trees.", "8 s", "4 min"),
    "C13": ("each data file is its original or its complete expected bytes; exit status or exception for failures; a second run succeeds.", "8 s", "6 min"),
    "C14": ("integer microsecond calendar of its own.", "21 s", "9 min"),
    "C15": ("exact fractions.", "6 s", "3 min"),
    "C16": ("lib/ms2ref.py parses every packed record; rates as exact fractions.", "38 s", "6 min"),
    "C17": ("calendar of C14; header time plus signed microseconds.", "13 s", "10 min"),
    "C18": ("the list of record shapes; codes, header, blockettes and samples of each compared.", "5 s", "5 min"),
    "C19": ("lib/ms2ref.py parses every packed record: chain of offsets, sizes, alignment, values.", "22 s", "5 min"),
    "C20": ("both reference layouts: the miniSEED 3 bytes parsed are compared with the fields the miniSEED 2 bytes were built from.", "30 s", "8 min"),
    "C21": ("codes as tuples; text built by joining them.", "3 s", "3 min"),
    "C22": ("character class tests written without regular expressions.", "13 s", "4 min"),
    "C23": ("the published table as list of intervals with exact fractions.", "7 s", "5 min"),
    "C24": ("digest of the result of each call made alone in a process of its own. Threads are real; a controller lets one run to a chosen line or instruction of the library, runs the other (wholly, or to a point of its own) and resumes.", "42 s", "32 min"),
    "C25": ("digest of the result of each call made alone in a process of its own; all inputs and earlier results are compared after every sequence.", "27 s", "15 min"),
    "C26": ("python values of the container; encoding and range rules of the formats.", "2 s", "4 s"),
    "C27": ("lib/ehfiles.py: expected lines from reference parsed records; JSON compared as values.", "13 s", "2 min"),
    "C28": ("expected values from the fields the records were built from.", "8 s", "10 s"),
    "C29": ("python values of the container, lib/ms2ref.py for the packed bytes; encoding, count and range rules of the format.", "6 s", "5 s"),
    "C30": ("lib/ms2ref.py and lib/ms3ref.py parse the changed bytes; the result says which values must be read and whether refusing is allowed.", "57 s", "10 min"),
    "C31": ("the published FDSN tables written out in the check; C23's intervals for rates; the command line parsed by the check itself.", "3 s", "2 min"),
}
