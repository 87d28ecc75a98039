TXT = "pkg/scte35/scte35.go"
ENUM = "Exhaustive over the stated space, executed on the real library." + BOUND + TRUST

prop("C09", "Segmentation UPIDs keep their identity in every representation",
 "A segmentation_upid() of any type received on the wire is presented in the form its type calls for (EIDR in canonical text, 64-bit identifiers as decimal, ISAN and MPU payloads as base-64 with the MPU's format_identifier apart, all others as the characters the bytes stand for), and that presentation encodes back to exactly the same bytes, whether the UPID stands alone or in a MID(). The same presentation appears in the table, JSON and XML, and equivalent spellings of a canonical EIDR (such as lower case) encode to the same bytes.",
 ["inputs"], "all 256 types x lengths x byte patterns, every byte value at every position of short values, every EIDR registrant prefix, numeric boundaries, MIDs of several",
 "Tests hold one or two values for a few types; a lossy conversion shows only for particular bytes, digits or lengths.",
 ["pkg/scte35/segmentation_upid.go", "pkg/scte35/segmentation_descriptor.go"], [("NewSegmentationUPID, value bytes, canonical EIDR", "pkg/scte35/segmentation_upid.go")],
 "explicit-state enumeration of UPID type x bytes; presentation and bytes compared with reference conversions", ENUM)

prop("C10", "The text table shows every field of the section, correctly",
 "The text table of any section lists every field of its header, command, descriptors and UPIDs in the order of the syntax with the value the section encodes: numbers, flags, lengths, hexadecimal bytes, times in UTC, names next to the codes they belong to, and optional parts exactly when they are present. A prefix and an indent given by the caller only decorate the rows, and a section without a command can be printed too.",
 ["inputs"], "all sections of the space, decoded and built in memory, with several prefixes and indents",
 "Tests compare a few complete tables; a wrong length, flag or missing row shows only for shapes they lack.",
 ["pkg/scte35/table.go", SIS] + CMDS + DESC, [("writeTo of every command and descriptor", "pkg/scte35/*.go")],
 "explicit-state enumeration; rows compared with rows generated from the model", ENUM)

prop("C11", "Ticks and durations convert exactly; section durations are right",
 "Converting a number of 90 kHz ticks to a duration is accurate to less than a nanosecond-scale rounding step, strictly increasing, and converting back gives the same number of ticks, for every value a 33-bit or 40-bit field can hold. The duration of a section is the break duration of its splice_insert if there is one and otherwise the sum of its segmentation durations.",
 ["inputs"], "every 33-bit tick count, a dense grid of the 40-bit ones, durations, and sections with every combination of durations",
 "Tests convert three values; rounding errors hit isolated values among eight thousand million.",
 [TXT, SIS], [("TicksToDuration, DurationToTicks", TXT), ("Duration", SIS)],
 "exhaustive enumeration of tick counts on the real conversion; exact integer oracle", "All 2^33 tick counts are executed; 40-bit counts and durations on a grid.")

prop("C12", "utc_splice_time is the same instant in every representation",
 "Every 32-bit GPS second count denotes one UTC instant, the seconds since 6 January 1980 00:00:00 UTC, and converting it to an instant and back gives the same count whatever time zone the instant is expressed in, as does any instant within that second. Scheduled events keep that instant through binary, JSON, XML and the table, which shows it in UTC whatever the time zone of the machine.",
 ["inputs"], "every 32-bit second; 13 time zones (half hours, seconds, beyond a day) x fractions of a second; events in sections through all representations",
 "Tests hold a handful of dates; overflow and zone mistakes show only for particular ranges.",
 [TXT, "pkg/scte35/splice_schedule.go"], [("NewUTCSpliceTime, GPSSeconds", TXT)],
 "exhaustive enumeration of all 2^32 values on the real conversion", "All 2^32 second counts are executed; sections on the value alphabet.")

prop("C13", "Base64 and hexadecimal texts are faithful carriers",
 "The base64 and hexadecimal texts of a section are its binary encoding in standard base64 and in hexadecimal digits, and reading them back, hexadecimal with or without a leading 0x and in either case of digits, is the same as decoding the bytes. A text that is not valid base64 or hexadecimal is rejected with an error and never yields content, and in every case a non-nil section is returned.",
 ["inputs"], "texts over an alphabet up to a length, every single-character change, truncation and prefix of valid texts; every byte string of small sections",
 "Tests decode valid texts and one or two bad ones; the property is about every text.",
 [TXT, SIS], [("DecodeBase64, DecodeHex, Base64, Hex", TXT)],
 "exhaustive enumeration of texts on the real code; independent base64 and hexadecimal reader as oracle", ENUM)

prop("C14", "Reading a section never changes it; sections share no memory",
 "Encoding, printing, marshalling and querying a section, in any order and any number of times, give the same results each time and leave the section's contents as they were. A section does not change when the buffer or document it was decoded from is overwritten, nor when a buffer it returned, another section, or another part of the same section is modified.",
 ["histories", "inputs"], "all sections x every ordered pair of reading operations; every buffer overwritten; every part changed or appended to in place; the memory of every part of a section compared with every other",
 "Tests look at results only, once; aliasing and hidden state show in a second step that no test takes.",
 ALL, [("buffers handed from Decode to parts and from Encode to callers", SIS)],
 "explicit-state exploration of operation pairs and buffer modifications on the real code", ENUM)

prop("C15", "Decoding into a used section gives what a fresh one would",
 "Whatever a section held or was read from before, successfully or not, decoding binary, JSON or XML into it afterwards gives exactly the section, error and encoding that a new section would have given. Nothing of the earlier content, such as descriptors, alignment stuffing or optional fields, survives.",
 ["histories"], "all pairs and a grid of triples of loading operations (binary whole, cut, corrupted; JSON and XML with and without defaults, malformed) over 60 sections; every section over its neighbours and every shape over every third; every prefix over every section",
 "Tests use a fresh value each time; stale state needs a particular pair of inputs.",
 [SIS, "pkg/scte35/splice_descriptor.go"], [("Decode, UnmarshalJSON, UnmarshalXML resetting the receiver", SIS)],
 "explicit-state exploration of load histories on the real code, compared with a fresh value", ENUM)

prop("C16", "Edits and conversions in any order act as on an ideal section",
 "Any sequence of conversions (through binary, base64, hexadecimal, JSON, XML, in place or into a new section) and of edits of fields, lists and commands leaves the section holding exactly what the same sequence does to an ideal record of its fields, and it encodes accordingly at every step. Derived values such as lengths, counts, flags and CRCs always follow the current content.",
 ["histories"], "all sequences of 26 operations up to depth 4 (thorough: 5) from four start sections, of 8 up to depth 6, of 48 up to depth 2 from 758; edits in place from every shape to every other and back",
 "Tests convert once; cached or stale derived values need an edit between two conversions.",
 ALL, [("lengths and flags computed from content", "pkg/scte35/*.go")],
 "explicit-state exploration of all operation sequences to a depth; model and implementation run in lock-step", ENUM)

prop("C17", "Threads working on different sections do not disturb each other",
 "When several threads decode, encode, print, marshal, unmarshal or query sections of their own at the same time, each gets exactly the results it would get alone, under every interleaving. There are no data races, deadlocks or crashes, including on the first use of the library and when the threads read the same input.",
 ["schedules"], "all schedules of two threads with one preemption (and two for a subset; thorough: more, and three) at statement granularity, over 16 operations x 7 sections; first-use schedules in fresh processes",
 "The tests are sequential; shared state between calls shows only when a thread is interrupted at the wrong statement.",
 ALL, [("package-level state of the library", "pkg/scte35/*.go")],
 "stateless model checking: controlled scheduler over the instrumented library, preemption-bounded exhaustive; race detector on the same pairs",
 "Exhaustive within the preemption bound for two threads; the library is instrumented through a build overlay, its dependencies are not. Accesses within one statement rely on the race detector, which judges the pairs executed.")

prop("C18", "The command line tool shows and produces what the library does",
 "The tool's decode command accepts a base64 or 0x-prefixed hexadecimal signal and prints the section it carries, completely, as text, JSON or XML, and reports on standard error exactly when the signal is bad, still printing what could be decoded. Its encode command accepts a JSON or XML document as parameter or on standard input, of any size and line structure, and prints the base64 and hexadecimal encoding of the section it describes, or only an error; what decode prints can be given to encode to get the original signal.",
 ["inputs"], "sections of every shape x input form x output format; documents in every style, padded to several sizes; every cut and single-character fault of a signal and of a document; sections at and beyond their limits",
 "The command line is not tested at all.",
 ["main.go", "cmd/scte35.go", "cmd/encode.go", "cmd/decode.go"], [("decode and encode commands", "cmd/decode.go")],
 "exhaustive enumeration of invocations of the real binary; output compared with the model's documents, rows and bytes",
 "The binary is built from /repo and run once per case. Wording of messages and exit status of a bad signal are not judged." + TRUST)

prop("C19", "A section that does not fit its syntax is refused, never truncated",
 "If a count or a length of a section exceeds what its field can signal (components, events, channels, DTMF characters, UPID and descriptor lengths, section length, ISO codes that are not three bytes, or no command at all), encoding reports an error and the base64 and hexadecimal texts are empty. A section at the limit still encodes, correctly and completely.",
 ["inputs"], "every count and length from two below to three above its limit, multiples of 256 around it, and far beyond; sections grown step by step and cut back",
 "Tests encode small sections; overflow needs hundreds of elements or thousands of bytes.",
 ALL, [("limit checks in Encode and the descriptors", SIS)],
 "explicit-state enumeration around every limit; reference encoder decides what fits", ENUM)

prop("C20", "Unknown and private content is carried through untouched",
 "Descriptors with a foreign identifier or an unassigned tag, and private commands, keep their tag, identifier and every byte through decoding, encoding, JSON and XML in any order, even where their tag is that of a known descriptor. The order and number of the descriptors of a section, known and unknown, repeated or not, is always preserved.",
 ["inputs", "histories"], "all lists of up to three (thorough: four) from 15 descriptors, through every conversion; chains of two (three) conversions; every tag with identifiers near CUEI; every payload length",
 "Tests hold one private descriptor; mistakes need particular neighbours, tags or identifiers.",
 ["pkg/scte35/splice_descriptor.go", "pkg/scte35/private_descriptor.go", "pkg/scte35/private_command.go", SIS], [("choice of type by identifier and tag", "pkg/scte35/splice_descriptor.go")],
 "explicit-state exploration of descriptor lists x conversion chains on the real code", ENUM)

prop("C21", "Legacy signals without a command length decode like modern ones",
 "A section whose splice_command_length is the legacy value 0xFFF decodes to exactly the same section as the same section with its real length, for every command whose extent its own syntax determines, and is encoded again with the real length. Cut short or corrupted, it is reported like a modern one.",
 ["inputs"], "all sections of the space with a non-private command in legacy form; every cut; every single-byte change",
 "Tests hold one legacy signal; the skip over the command must be right for every command shape.",
 [SIS] + CMDS, [("0xFFF branch of Decode", SIS)],
 "explicit-state enumeration of legacy sections; compared with the model and the reference decoder", ENUM)

prop("C22", "Names and accessors agree with the content they describe",
 "For every value, the names of segmentation types, UPID types (EIDRs by their registrant prefix), SAP types and the derived flags and lengths that accessors report are those the standard assigns to the content, reserved and unknown values included. The constructors by type, tag and identifier give the command or descriptor that belongs to them, and a private one for anything else.",
 ["inputs"], "all type codes, all EIDR prefixes, all tags and types, accessors of all sections of the space",
 "Tests check a few names; each of the some hundred codes has its own.",
 ["pkg/scte35/segmentation_descriptor.go", "pkg/scte35/segmentation_upid.go", SIS, "pkg/scte35/splice_command.go", "pkg/scte35/splice_descriptor.go"],
 [("Name, flag and length accessors", "pkg/scte35/segmentation_descriptor.go")],
 "exhaustive enumeration of codes and sections on the real accessors; reference tables as oracle", ENUM)

prop("C23", "Encrypted sections and alignment stuffing are framed correctly",
 "A section with an encryption algorithm is encoded with encrypted_packet set, its control word index, and an E_CRC_32 over the encrypted portion just before the CRC_32; one without has neither. Alignment stuffing and encryption headers received are recovered exactly, do not disturb the rest of the section, and survive decoding, editing and encoding again, with both CRCs right.",
 ["inputs", "histories"], "all 64 algorithms x 256 control words x stuffing; every shape x stuffing lengths; stuffing up to the section limit; six edits each; every cut",
 "The tests contain no encrypted section that is encoded; framing depends on flag, algorithm and stuffing together.",
 [SIS, "pkg/scte35/encrypted_packet.go", "pkg/scte35/crc_32.go"], [("E_CRC_32 and alignment_stuffing in Decode and Encode", SIS)],
 "explicit-state enumeration of encrypted and stuffed sections; reference encoder and a receiver's CRC checks as oracle", ENUM)

prop("C24", "Malformed JSON and XML documents are rejected without harm",
 "A document that is not well-formed, is cut short, has a value of the wrong kind or beyond the range of its field, or names an unknown command or descriptor element is rejected with an error. No document whatsoever makes reading it, or printing, marshalling or encoding what was read, panic.",
 ["inputs", "fault_sequences"], "every truncation, every single-character change from an alphabet, every member or attribute replaced by values of every wrong kind, removed or repeated, over documents of every command and descriptor",
 "Tests contain two or three bad documents; acceptance of a bad one needs a particular member and value.",
 [SIS, "pkg/scte35/splice_descriptor.go", "pkg/scte35/segmentation_upid.go", TXT], [("UnmarshalJSON and UnmarshalXML", SIS)],
 "exhaustive enumeration of document mutations on the real code; standard library well-formedness as oracle", ENUM)

prop("C25", "XML follows the SCTE 35 XML Schema, and any valid document is read",
 "Every XML document the library writes for a section the SCTE 35 XML Schema (docs/) can describe is valid against that schema, apart from the listed findings on private bytes and their tag. Conversely, every schema-valid document is read, without error, into the section it describes and encodes to that section's bytes, whichever optional attributes, Ext elements, attributes of other namespaces, boolean and dateTime forms, segmentationUpidFormat (text, hexbinary, base-64), PrivateBytes or descriptorTag it uses.",
 ["inputs"], "all sections of the space the schema describes, written, and read back in every combination of up to two (thorough: three) deviations from the plain style in eight dimensions; namespaces one edit away",
 "The tests compare with the library's own form of a document; other systems write every other form the schema allows.",
 [SIS, "pkg/scte35/scte35.go", "pkg/scte35/splice_command.go"] + CMDS + DESC, [("UnmarshalXML and the xml struct tags", "pkg/scte35/*.go")],
 "explicit-state enumeration of sections x document styles; published schemas interpreted by a validator as oracle",
 "Exhaustive over the stated space. The validator interprets the two published schemas, copies of which the harness embeds." + BOUND + TRUST)

prop("C26", "Sections can be parts of larger JSON and XML documents and streams",
 "A section, held by value or by pointer, alone, in a list, map or struct of the caller's, or following others in a stream, is written to JSON and XML as it is on its own, and reading the larger document gives every section, and everything around it, as it was; a list of descriptors on its own keeps its kinds. Sections in a stream are read one by one, each exactly to its end, and an invalid one is reported without disturbing those read before.",
 ["inputs", "histories"], "every section of the space in every holder, in JSON, XML and XML of each style; every ordered pair and triple of a base set as neighbours in lists and streams; invalid documents among valid ones",
 "The tests marshal and read sections one at a time and on their own; what a custom reader leaves unread or takes too much of shows only beside something else.",
 [SIS, "pkg/scte35/splice_descriptor.go", "pkg/scte35/segmentation_upid.go", "pkg/scte35/splice_command.go"], [("MarshalJSON, UnmarshalJSON and UnmarshalXML used by encoding/json and encoding/xml", SIS)],
 "explicit-state enumeration of sections x holders x neighbours on the real code; the same section on its own and the model as oracle",
 "Exhaustive over the stated space. A section embedded anonymously in the caller's struct takes over that struct's marshalling, as Go has it, and is excluded." + BOUND + TRUST)

prop("C27", "Diagnostics go to Logger alone, and sound sections cause none",
 "Whatever the library is given, it writes nothing to the standard output or standard error of the process; what it has to report goes to Logger, whichever logger and output the caller has set there. A conforming section is decoded, printed, marshalled, queried and encoded without any message, while a wrong CRC_32 and a failing Base64 or Hex are reported to Logger.",
 ["inputs", "histories"], "every section of the space with every operation; every wrong bit of CRC_32, every section that cannot be encoded, every cut and byte mutation, malformed texts and documents; all sequences of up to 3 reported events with Logger replaced, redirected or silenced",
 "No test looks at the process's output; a stray print or a message under a rare condition pollutes the caller's output or log only in production.",
 [SIS, "pkg/scte35/scte35.go", "pkg/scte35/crc_32.go", "pkg/scte35/segmentation_upid.go"], [("Logger (README, Logging)", "pkg/scte35/scte35.go")],
 "explicit-state enumeration of sections, faults and Logger histories on the real code; the captured output of the process and of Logger as oracle",
 "Exhaustive over the stated space." + BOUND + TRUST)
