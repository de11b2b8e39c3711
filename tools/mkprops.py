"""Writes properties.jsonl (run once by hand when the property list changes)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    S = "src/simplemseed/"
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[S + f for f in files],
            state=[dict(name=a, meaning=b, where=S + c) for a, b, c in state],
            mechanism=[dict(name=a, where=S + b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

p("C01", "Steim1 compression is lossless for every 32 bit integer series",
  "Decoding a Steim1 encoding of any non-empty series of 32 bit signed integers returns exactly that series, value for value and in order, whatever the step sizes, length, container (list, narrow, wide, unsigned or big endian numpy array) or carried-over previous value given to both sides. Series that are not integers, are not one dimensional, are empty, or hold values that do not fit 32 bits are refused with an exception, never altered.",
  ["inputs"], "all integer series, containers and previous values",
  "Tests encode a handful of smooth series; the word packing depends on the combination of sizes of up to four neighbouring differences, on how many samples remain and on where in a frame the word falls.",
  ["steim1.py", "steimframeblock.py"],
  [("encodeSteim1FrameBlock", "steim1.py"), ("decodeSteim1", "steim1.py")],
  [("current frame and word position", "where the next packed word goes", "steimframeblock.py")],
  ["encodeSteim1, decodeSteim1, encode/decode through EncodedDataSegment"])
p("C02", "Steim2 compression is lossless or refuses, for every integer series",
  "For any non-empty series of 32 bit signed integers, Steim2 encoding either yields bytes that decode to exactly that series, or raises an exception because a difference does not fit 30 bits; a series whose differences all fit is always accepted. Series that are not integers, are not one dimensional, are empty, or hold values that do not fit 32 bits are refused with an exception, never altered.",
  ["inputs"], "all integer series, containers and previous values",
  "There are seven packings selected by the sizes of up to seven neighbouring differences and the number of samples left; tests touch a few of the combinations.",
  ["steim2.py", "steimframeblock.py"],
  [("encodeSteim2FrameBlock", "steim2.py"), ("bitsForPack/minBitsNeeded", "steim2.py"), ("decodeSteim2", "steim2.py")],
  [("current frame and word position", "where the next packed word goes", "steimframeblock.py")],
  ["encodeSteim2, decodeSteim2"])
p("C03", "Steim bytes follow the published format in both directions",
  "Every encoding produced is a whole number of 64 byte big endian frames that an independent decoder of the published Steim format reads back to the same samples, with the first frame carrying the first and the last sample of the block and every unused word zero. Conversely the decoders return the exact samples for every valid packing permitted by the format, not only for packings this encoder chooses.",
  ["inputs"], "all encodings, and all valid sequences of control codes and packed words",
  "Round trip tests cannot see an encoder and decoder that agree with each other but not with the format, and never present a packing that this encoder would not choose.",
  ["steim1.py", "steim2.py", "steimframeblock.py"],
  [("extractSteim1Samples", "steim1.py"), ("extractSteim2Samples", "steim2.py"), ("SteimFrame.pack", "steimframeblock.py")])
p("C04", "Frame limited Steim encoding never drops or repeats samples",
  "When encoding is limited to N frames the result has at most N frames, reports exactly how many leading samples it holds, and decodes to exactly those samples with the block's stored last value equal to the last of them. Encoding resumes from that position (and previous value) so that the chunks concatenate to the whole series, and a limit large enough to hold everything holds everything. The encoded data of a block have as many frames as it reports.",
  ["inputs", "histories"], "all series, frame limits and sequences of resumed encodings",
  "Tests use one limit on one series; the fill boundary depends on how many samples the last word of the last frame carries.",
  ["steim1.py", "steim2.py", "steimframeblock.py"],
  [("SteimFrameBlock.addEncodedWord", "steimframeblock.py"), ("setXsubN", "steimframeblock.py"), ("offset/bias arguments", "steim1.py")])
p("C05", "Damaged or short payloads never give a wrong number of samples",
  "Decompressing any bytes for any encoding and declared sample count either returns exactly the declared number of samples or raises an exception, and always terminates. If fewer samples are encoded than declared, if Steim bytes are not whole frames, or if an encoding is unsupported, it raises a codec exception instead of making samples up.",
  ["inputs", "fault_sequences"], "all truncations, control code corruptions and declared counts",
  "Tests decode only intact payloads.",
  ["seedcodec.py", "steim1.py", "steim2.py"],
  [("decompress", "seedcodec.py"), ("sample count check", "steim1.py"), ("sample count check", "steim2.py")])
p("C06", "Primitive encodings keep values, width and byte order exactly",
  "Encoding 16 and 32 bit integers and 32 and 64 bit floats from any supported container and decompressing with the same encoding and byte order returns bit-identical values including extremes, quiet NaN and infinities, and the encoded bytes are the standard fixed width layout in the requested byte order. Encoding 32 (DWWSSN) reads as 16 bit integers. The encoding guessed from a container matches its element type, as does the element type given for an encoding, and types with no equivalent or values that do not fit are refused.",
  ["inputs"], "all values, types, byte orders and containers",
  "Tests use a few small values of some types in one byte order.",
  ["seedcodec.py"], [("encode", "seedcodec.py"), ("decompress", "seedcodec.py")])
p("C07", "miniSEED 3 records survive packing and unpacking unchanged",
  "For any header field values, identifier, extra headers and data, the packed record has the published fixed layout, declares its real section lengths, and unpacks (from bytes or a file) to a record with the same header fields, identifier, extra headers and samples. Packing again, or packing the unpacked or cloned record, gives the same bytes.",
  ["inputs"], "all header field combinations, identifier, extra header and payload sizes",
  "Tests compare a few records with small section sizes; layout errors show only for lengths and field values with distinct or large bytes.",
  ["mseed3.py"], [("MSeed3Record.pack", "mseed3.py"), ("unpackMSeed3Record", "mseed3.py"), ("MSeed3Header.pack", "mseed3.py")])
p("C08", "Corrupted miniSEED 3 records are detected by CRC",
  "With CRC checking on, which is the default, unpacking or stream reading, also with merging or a pattern, never returns a record any of whose bytes differ from what was packed: every bit flip, byte change, short burst and truncation anywhere in the record raises an exception. Every record packed carries the CRC-32C of its bytes with the CRC field zeroed, and with checking off intact records still read the same.",
  ["inputs", "fault_sequences"], "all single bit and byte corruptions, bursts and truncations at every position",
  "Tests check CRC values of good records and at most a single corruption.",
  ["mseed3.py"], [("unpackMSeed3Record crc", "mseed3.py"), ("readMSeed3Records crc", "mseed3.py")])
p("C09", "miniSEED 3 stream reading yields every matching record, in order",
  "Reading a stream of concatenated records yields each record whose identifier matches the optional pattern, unchanged, once and in order, independent of what precedes it, and nothing else. With CRC checking on, a stream cut at any byte yields the complete records before the cut and then raises or stops, never yielding an altered record.",
  ["histories", "inputs", "fault_sequences"], "all sequences of record shapes, patterns, cut points and short reads",
  "Tests read files of one or two records without a cut or non matching records between matching ones.",
  ["mseed3.py"], [("readMSeed3Records", "mseed3.py")])
p("C10", "Merging never loses, repeats, reorders or misdates samples",
  "Merging neighbouring records, directly, while reading a stream or on the command line, gives records whose samples in order are exactly those of the input, each still at its time to within half a sample period per joined record. Two records of uncompressed numeric encoding (reading a stream decompresses first) are joined exactly when identifier, sample rate, encoding and publication version are the same and the second starts within half a sample period of where the first predicts. A joined record keeps the first record's identifier, start time and extra headers, and records that cannot be joined pass through unchanged in content and in order. Reading with a pattern gives what merging the matching records alone gives.",
  ["histories", "inputs"], "all short sequences of records differing in identifier, rate, encoding, version, time, payload padding and extra headers",
  "Tests merge one compatible pair; wrong joins need near misses in each attribute and sequences of three or more records.",
  ["mseed3.py", "mseed3merge.py"], [("areCompatible", "mseed3.py"), ("mseed3merge", "mseed3.py"), ("readMSeed3Records merge", "mseed3.py")],
  [("pending record", "last record read, not yet yielded", "mseed3.py")])
p("C11", "Extra headers read back as last set, in any order of operations",
  "After any sequence of setting (object, JSON text or nothing), editing in place, deleting, reading, packing and cloning, a record's extra headers are the last value set, including non-ASCII text, and the packed record carries exactly them with a matching byte length and valid CRC. Extra headers that are not JSON or do not fit a record are refused when packed. A record knows whether it has extra headers, and none of these operations changes samples or other header fields.",
  ["histories"], "all operation sequences up to a depth",
  "Tests set extra headers once before packing; delete and re-set, or edit after a first pack, are not tried.",
  ["mseed3.py"], [("MSeed3Record.eh property", "mseed3.py"), ("MSeed3Record.pack", "mseed3.py")])
p("C12", "Setting extra headers in files changes only the selected records",
  "The command line set operations change the addressed extra header value in the first matching record, or in every matching record when asked for all, over all given files, and the whole extra headers for an empty or root pointer. Every other record, matching or not, stays byte-identical and in order, and the changed records keep samples, identifier, times and all other header fields with a valid CRC.",
  ["inputs", "histories"], "all combinations of files, records, patterns, pointers and first/all",
  "The command line tools have no tests at all.",
  ["mseed3details.py", "mseed3.py"], [("do_set_eh", "mseed3details.py")])
p("C13", "A failed or killed extra header update never damages the data file",
  "If setting extra headers is interrupted at any instant, by kill, write failure or a damaged input record, each data file holds either its complete original bytes or its complete updated bytes. A failure is reported as an error, and a later run still works.",
  ["crash_points", "fault_sequences"], "all crash points between executed statements, and a write failure or kill after every number of bytes written",
  "No test kills the tool or makes a write fail.",
  ["mseed3details.py"], [("temporary file then rename", "mseed3details.py")],
  [("temporary file", "complete new content before it replaces the original", "mseed3details.py")])
p("C14", "miniSEED 3 start times are kept exactly, in UTC",
  "A start time given as a datetime or ISO text, with any UTC offset or none (meaning UTC), reads back and survives packing as the same instant to the microsecond, for every date including leap days and year ends. Stored fields are the UTC year, day of year (1 to 366), hour, minute, second and nanosecond of that instant, and a header with second 60 reads as the instant one second after second 59. What is no time is refused and changes nothing.",
  ["inputs"], "all dates, times of day, sub-second values, offsets and input forms",
  "Tests set one or two times with a Z suffix.",
  ["mseed3.py", "util.py"], [("starttime getter and setter", "mseed3.py")])
p("C15", "Sample rate, period and end time of miniSEED 3 agree",
  "Setting a rate or a period gives a header whose rate and period are reciprocal and equal to what was set, before and after packing, with negative stored values meaning periods. The end time of a record is its start time plus (samples - 1) periods to within a microsecond of rounding, and a record without a sample rate can still be summarised.",
  ["inputs"], "all rates, periods and sample counts",
  "Tests check one or two rates.",
  ["mseed3.py"], [("sampleRate, samplePeriod, endtime", "mseed3.py")])
p("C16", "miniSEED 2 headers and data survive packing and unpacking",
  "Packing a miniSEED 2 record and reading it back preserves sequence number, quality, network, station, location and channel codes, alone, joined with any separator and as FDSN source id, all flag bytes, time correction, sample count, encoding, data byte order and the samples, for every supported encoding and both byte orders. The sample rate is preserved to within 4 parts in 100,000 for rates from 1e-6 to 1e6 per second (exactly for whole rates and periods up to 32766), and the fixed header follows the SEED layout.",
  ["inputs"], "all header field values, sample rates, encodings and byte orders",
  "Tests pack one record with a rate of 200 and default flags.",
  ["miniseed.py"], [("MiniseedHeader.pack", "miniseed.py"), ("unpackMiniseedHeader", "miniseed.py"), ("calcSeedMultipilerFactor", "miniseed.py")])
p("C17", "miniSEED 2 start and end times are kept",
  "A miniSEED 2 start time survives pack and read to a tenth of a millisecond, and exactly to the microsecond when the record has a blockette 1001, however often it is read and packed again. The start time read is the header time plus the signed microseconds of blockette 1001, and end time and next start time are the start plus (samples - 1) and samples periods to within rounding of a microsecond. What is no time is refused and changes nothing.",
  ["inputs", "histories"], "all times, blockette 1001 values, rates and numbers of read and pack rounds",
  "Tests read one file and compare one start time.",
  ["miniseed.py"], [("packBTime, setStartTime", "miniseed.py"), ("blockette 1001", "miniseed.py")])
p("C18", "miniSEED 2 stream reading yields every matching record, in order",
  "Reading concatenated miniSEED 2 records of any mix of record lengths, byte orders, encodings, blockettes and data-less records yields each record whose source id matches the optional pattern, once, in order, with its own header, blockettes and samples, independent of its neighbours. A stream cut at any byte yields the complete records before the cut and never a record with wrong samples.",
  ["histories", "inputs", "fault_sequences"], "all sequences of record shapes, patterns and cut points",
  "Test files hold records of one length and byte order.",
  ["miniseed.py"], [("readMiniseed2Records", "miniseed.py"), ("unpackFixedHeaderGuessByteOrder", "miniseed.py")])
p("C19", "Packed miniSEED 2 records have their declared size and intact blockettes",
  "A packed miniSEED 2 record is exactly its declared power of two length or packing raises because the content does not fit; all its blockettes, in any number and order, read back with their values, the chain of offsets is consistent and the data starts where declared, at a 64 byte multiple for Steim. Reading, decompressing, summarising and cloning, in any order, change neither what is packed nor what is read.",
  ["histories", "inputs"], "all blockette combinations, payload sizes and sequences of read-only operations",
  "Tests pack a record once with at most one blockette.",
  ["miniseed.py"], [("MiniseedRecord.pack", "miniseed.py"), ("packBlockette", "miniseed.py")])
p("C20", "Conversion from miniSEED 2 to 3 preserves the record's meaning",
  "Converting any miniSEED 2 record, by call or command line, gives a valid miniSEED 3 record with the same samples, start time, sample rate, sample count and the FDSN source id of its codes, one output record per input record and in order. Calibration, questionable time and clock locked flags map to their miniSEED 3 bits, a quality other than D, a non-zero timing quality and a start in a leap second appear in the FDSN extra headers and nothing else does, the publication version is unknown, and the input record is left unchanged.",
  ["inputs", "histories"], "all encodings, byte orders, flags, qualities, rates, times and blockettes",
  "Tests convert one file of Steim2 records and the command line tool has no test.",
  ["mseed2to3.py"], [("mseed2to3", "mseed2to3.py")])
p("C21", "Source ids and NSLC codes parse and format without loss",
  "Parsing the text of a network, station, location or channel source id gives the same kind of id with the same codes, formatting returns the same text, ids are equal exactly when kind and codes are, and text without the FDSN prefix or with another number of codes is refused. Channel ids with a band code convert to SEED style network, station, location, channel codes and back unchanged, with a start year (refused unless of four digits) appended only to temporary SEED network codes, and the ids of enclosing location, station and network carry the same codes.",
  ["inputs"], "all combinations of code lengths, empty parts and separators",
  "Tests parse a few ids with typical codes.",
  ["fdsnsourceid.py"], [("FDSNSourceId.parse", "fdsnsourceid.py"), ("fromNslc/asNslc", "fdsnsourceid.py")])
p("C22", "Source id validation accepts exactly the permitted codes",
  "Validation accepts exactly: network of 1 to 8 upper case letters or digits; station of 1 to 8 upper case letters, digits or dashes; location of 0 to 8 of the same but not two dashes alone; non-empty source and optional subsource of upper case letters or digits; otherwise it gives a reason. A network is temporary exactly when it is a two character code starting with a digit, X, Y or Z other than XX, or one to four upper case letters or digits followed by a four digit year; each of these forms, and the mapping of the first with a start year, is told apart.",
  ["inputs"], "all codes over a representative alphabet up to one beyond the length limits",
  "Tests check a few valid and invalid codes.",
  ["fdsnsourceid.py"], [("validate", "fdsnsourceid.py"), ("temporary network patterns", "fdsnsourceid.py")])
p("C23", "Band codes agree with the FDSN table for every rate",
  "The band code computed for any sample rate and response lower bound is the one whose rate range and response range in the published table contain them, with boundaries on the side the table states and short period when no response is given (long period L for about 1 per second, I for none). Giving a rate or the equivalent negative period gives the same code, and every code computed can be described. What is no number is refused.",
  ["inputs"], "all rates and response bounds, with boundary values and their neighbours",
  "Tests sample a few rates inside the ranges.",
  ["fdsnsourceid.py", "bandcode.json"], [("bandCodeForRate", "fdsnsourceid.py"), ("bandcode.json", "bandcode.json")])
p("C24", "Concurrent and interleaved use on separate data does not interfere",
  "Encoding, decoding, packing, unpacking, reading, merging, converting and parsing on separate objects by two threads, or by interleaving two stream readers, gives the same results as running each alone, under every interleaving. No call raises because another is in progress.",
  ["schedules"], "all thread interleavings up to a preemption bound, and all interleavings of generators",
  "Tests are single threaded.",
  ["steim1.py", "steim2.py", "steimframeblock.py", "mseed3.py", "miniseed.py", "mseed2to3.py", "fdsnsourceid.py", "seedcodec.py"],
  [("no module level mutable state", "mseed3.py")])
p("C25", "Results do not depend on earlier calls and inputs are not modified",
  "Each call's result depends only on its arguments: after any sequence of other calls, including failed ones, encoding, packing, unpacking, reading, merging, converting and parsing return the same as in a fresh process, and results handed out earlier do not change. Arrays, lists, byte buffers, dictionaries and records passed as arguments are not modified, except that packing a record updates that record's own derived header fields.",
  ["histories"], "all call sequences up to a depth",
  "Each test makes its calls in one order and looks only at the last result.",
  ["steim1.py", "steim2.py", "mseed3.py", "miniseed.py", "mseed2to3.py", "seedcodec.py", "fdsnsourceid.py"],
  [("no module level mutable state", "mseed3.py"), ("header and extra header copies", "mseed3.py")])
p("C26", "miniSEED 3 records accept data only with a true encoding and count",
  "A record created from an array, list, encoded segment, bytes or nothing has the encoding and sample count of that data and returns those samples, in either byte order and for 64 bit integers that fit 32 bits. Data whose encoding or count contradicts the header, whose values do not fit, that is not one dimensional or not numeric is refused with an exception, never stored altered.",
  ["inputs"], "all containers, element types, byte orders, header settings and extreme values",
  "Tests create records from a few array types with matching headers.",
  ["mseed3.py"], [("MSeed3Record data checks", "mseed3.py")])
p("C27", "miniSEED 3 details tool reports exactly what is in the files",
  "For any files, pattern and pointer, the miniSEED 3 details command prints one summary or details per matching record in order with its identifier, times and sample count and a correct total of samples and records, and get and getall output the addressed extra header value as JSON of the first or of every matching record across files. Data values printed are the record's samples, and input files are never changed. If its output cannot be written the command ends with a failure.",
  ["inputs", "histories"], "all combinations of files, records, patterns, pointers and output options",
  "The command line tools have no tests.",
  ["mseed3details.py", "mseed3.py"], [("do_details, do_get_eh", "mseed3details.py"), ("summary, details", "mseed3.py")])
p("C28", "miniSEED 2 details tool reports exactly what is in the files",
  "For any files and pattern, the miniSEED 2 details command prints one summary or details per matching record in order, with its codes, quality, record length, start and end times, sample count and rate, flag bytes, encoding and blockettes as stored in the record whatever its byte order and length, a correct total of samples and records, and data values that are the record's samples. Input files are never changed, and if its output cannot be written the command ends with a failure.",
  ["inputs"], "all combinations of files, record shapes, patterns, header field values and display options",
  "The command line tools have no tests.",
  ["mseed2details.py", "miniseed.py"], [("do_details", "mseed2details.py"), ("summary, details", "miniseed.py")])

p("C29", "miniSEED 2 records accept data only with a true encoding and count",
  "For any array, list, segment or bytes and any header, a miniSEED 2 record is either refused by an exception, at the latest when it is packed, or its encoding, byte order and sample count are those of the data, it fits the declared record length and the 16 bit count, and the data read back before and after packing are exactly those given. Wider integers, other element types, more dimensions, values that do not fit and contradicting headers are refused.",
  ["inputs"], "all containers, element types, byte orders, header settings, sizes and extreme values",
  "Tests create records from a few array types with matching headers.",
  ["miniseed.py", "seedcodec.py"], [("MiniseedRecord data checks and packData", "miniseed.py"), ("encode, numpyFromList", "seedcodec.py")])
p("C30", "A changed byte is read as it is or refused, and touches no other record",
  "For any change of bytes of one record in a stream, reading (miniSEED 2, and miniSEED 3 without CRC) always ends and returns the records before it unchanged, and the changed record is returned with exactly the values its bytes now have, or refused by an exception if its parts are not consistent; no record takes data from beyond its declared length. Records after it are returned unchanged unless its declared lengths changed. The display and conversion commands output the records before the damage and fail exactly if reading fails.",
  ["inputs", "fault_sequences"], "all changed values at all positions of all record layouts",
  "Tests read intact files.",
  ["miniseed.py", "mseed3.py", "mseed2details.py", "mseed2to3.py", "mseed3details.py"],
  [("readMiniseed2Records, unpackMiniseedHeader, unpackBlockette", "miniseed.py"), ("readMSeed3Records, unpackMSeed3FixedHeader", "mseed3.py")])
p("C31", "The source id command and descriptions give the published code meanings",
  "Every band and source code is described with the type, sampling rate range, response period and instrument of the FDSN source identifier tables, and any other code is refused. The source id command shows, for any combination of options and ids, exactly the band code or codes of each rate, the meaning of each band and source code asked for in order, all codes if asked, and the parts of each id, and exits with a failure if any of them is unknown or nothing is asked.",
  ["inputs"], "all codes, rates and option combinations to a depth",
  "Tests look at a few codes and never run the command.",
  ["fdsnsourceid.py", "bandcode.json", "sourcecode.json"], [("bandCodeDescribe, sourceCodeDescribe, main", "fdsnsourceid.py"), ("band codes", "bandcode.json"), ("source codes", "sourcecode.json")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
