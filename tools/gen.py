#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIS = "pkg/scte35/splice_info_section.go"
CMDS = ["pkg/scte35/splice_insert.go", "pkg/scte35/splice_schedule.go", "pkg/scte35/time_signal.go", "pkg/scte35/splice_null.go",
        "pkg/scte35/bandwidth_reservation.go", "pkg/scte35/private_command.go"]
DESC = ["pkg/scte35/segmentation_descriptor.go", "pkg/scte35/segmentation_upid.go", "pkg/scte35/avail_descriptor.go", "pkg/scte35/dtmf_descriptor.go",
        "pkg/scte35/time_descriptor.go", "pkg/scte35/audio_descriptor.go", "pkg/scte35/private_descriptor.go"]
ALL = [SIS, "pkg/scte35/splice_command.go", "pkg/scte35/splice_descriptor.go", "pkg/scte35/scte35.go", "pkg/scte35/crc_32.go"] + CMDS + DESC
P = []
def prop(id, title, statement, over, text, why, files, mech, tech, note, observe=None):
    assert len(title) <= 80, title
    assert statement.count(". ") <= 2, id
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe or ["exported API of pkg/scte35"], hook_needed=None),
        tech=tech, note=note))
BOUND = " Bounded: structural shapes are multiplied out and field values vary by one full-range or two (thorough: three) small-range deviations from a base section; values outside that alphabet are not covered."
TRUST = " Trusts the reference model (written from ANSI/SCTE 35 2022b, not from the code), the Go toolchain and the harness."

prop("C01", "Encoding produces exactly the bit syntax of ANSI/SCTE 35",
 "Every section whose fields fit their wire widths encodes, without error, to exactly the bytes ANSI/SCTE 35 2022b prescribes: every field at its place and width, reserved bits set to one, flags, counts and length fields agreeing with the content, optional parts present exactly when their flags say so, and a correct CRC_32 (and, for encrypted sections, E_CRC_32) at the end. This holds for every command, every descriptor type, every combination and number of components, events, channels, descriptors and UPIDs, and every field value.",
 ["inputs"], "all sections: command shape x descriptor lists x field values x list lengths x UPID types and contents",
 "The tests encode about twenty fixed signals; the property is about every shape, every value of every field and every list length, where single bit-width, flag or length mistakes show only for particular values or combinations.",
 ALL, [("Encode and each command's and descriptor's encode/length pair", "pkg/scte35/*.go")],
 "explicit-state enumeration of the section space; real encoder compared with a bit-level reference encoder",
 "Exhaustive comparison of the real encoder with an independent reference encoder over the stated space of sections." + BOUND + TRUST)

prop("C02", "Decoding recovers exactly what a conforming section carries",
 "Every conforming section decodes without error into a section holding exactly the values the bits carry, with optional parts present exactly when signalled and lists of exactly the signalled length and order. Reserved bits have no influence on the result, cancelled events and segments carry nothing beyond their identifiers and flags, and anything a receiver may legitimately meet (a MID() of one entry, unknown command types and descriptors, encrypted_packet set without an algorithm, alignment stuffing) is decoded too.",
 ["inputs"], "all conforming wire sections of the space of C01, each with every reserved bit flipped, plus conforming forms the encoder itself never emits",
 "Tests decode about twenty signals; the property concerns every conforming bit string, including shapes, flags and reserved bits no sample has.",
 ALL, [("Decode and each command's and descriptor's decode", "pkg/scte35/*.go")],
 "explicit-state enumeration; bytes from the reference encoder decoded by the real code and compared with the model state",
 "Exhaustive over the stated space; the expected value is the model section itself." + BOUND + TRUST)

prop("C03", "Decode and re-encode returns the same bytes and the same section",
 "Decoding a conforming section and encoding the result gives back the original bytes. For any byte string the decoder accepts, encoding the result yields a section that decodes to the same result and encodes to the same bytes again; only the presentations ANSI/SCTE 35 does not define (such as an EIDR that is not 12 bytes, or a MID() of one entry) are excluded.",
 ["inputs"], "all conforming sections of the space, and every single-byte change of a base set of them (CRC made right) that is still accepted",
 "Tests round-trip a handful of signals; loss shows only for particular flags, lengths, characters or counts.",
 ALL, [("Decode then Encode", SIS)],
 "explicit-state enumeration; real decode and encode chained, compared with the original bytes",
 "Exhaustive over the stated space, plus all accepted single-byte mutants of 51 base sections." + BOUND + TRUST)

prop("C04", "No input makes decoding or using its result crash or hang",
 "Decoding any byte string whatsoever, in binary, base64 or hexadecimal form, terminates without a panic and yields a non-nil section, with an error unless the section is sound. Whatever was decoded, in error or not, can then be printed, marshalled to JSON and XML, encoded and queried for its duration without a panic.",
 ["inputs"], "all strings of length 0-2 and structured longer ones: every command body over an alphabet up to a length, every descriptor body, every UPID content, every truncation, every single-byte change, contradictory lengths",
 "Tests try one bad signal; a crash needs a particular contradiction between counts, lengths and the bytes available.",
 ALL, [("bounds behaviour of the bit reader; nil handling in every renderer", "pkg/scte35/*.go")],
 "exhaustive enumeration of short and systematically malformed inputs on the real code",
 "Every input of the stated spaces is executed on the real library; a panic or non-termination is a violation. Inputs outside the spaces are not covered.")

prop("C05", "CRC_32 is always right when written and always checked when read",
 "Every encoded section ends in the MPEG-2 CRC_32 of everything before it, so that a receiver's check over the whole section succeeds. A section whose CRC_32 does not match its bytes is rejected with the CRC error and its content is still returned, and in particular every change of one, two or three bits and every burst of up to 32 bits in a sound section is detected.",
 ["inputs", "fault_sequences"], "all sections of the space for writing; for reading, every 1-, 2- and (small sections) 3-bit corruption, every burst, and every single-byte CRC value",
 "Tests contain one CRC failure; detection must hold for every error pattern the code is designed for.",
 [SIS, "pkg/scte35/crc_32.go"], [("table-driven CRC and its verification in Decode", "pkg/scte35/crc_32.go")],
 "exhaustive enumeration of corruption patterns on the real decoder, reference CRC computed bit by bit",
 "All stated error patterns on base sections; corruption of the parsed structure may surface as a framing error instead of the CRC error, which is accepted as detection.")

prop("C06", "Malformed sections are classified and decoded as far as possible",
 "A section that is cut short, or whose counts and lengths ask for more bytes than there are, is reported as a buffer overflow; one whose parts leave bytes unread is reported as a buffer underflow; and a section with only a wrong CRC_32 as a CRC error. Whatever was decoded before the fault is returned, and a fault in one descriptor does not prevent the other descriptors from being decoded.",
 ["inputs", "fault_sequences"], "every truncation, every length-field contradiction, every single-byte change and all short bodies, compared with a reference decoder",
 "Tests hold one overflow sample; the error class must be right for each way a section can be malformed.",
 ALL, [("readerError and the error propagation of Decode", "pkg/scte35/scte35.go")],
 "exhaustive enumeration of malformed sections; reference decoder predicts the error class and the recovered content",
 "Every malformed input of the stated spaces; where two faults coexist either class is accepted.")

prop("C07", "JSON documents carry a section completely, both ways",
 "Marshalling any section to JSON gives a document with exactly the section's values under the documented keys (type codes, optional members present exactly when the value is), and unmarshalling that document gives a section equal to the original that encodes to the same bytes. Unmarshalling does not depend on member order, white space, string escapes or the presence of members holding defaults; a missing sapType means 3 (not specified).",
 ["inputs"], "all sections of the space with text content, each in six document styles",
 "Tests compare a few documents; loss or confusion of a member shows only for particular types, combinations and values.",
 ALL, [("MarshalJSON/UnmarshalJSON and struct tags", SIS)],
 "explicit-state enumeration; documents compared with trees generated from the model, and generated documents read by the real code",
 "Exhaustive over the stated space in both directions with an independent document generator." + BOUND + TRUST)

prop("C08", "XML documents carry a section completely, both ways",
 "Marshalling any section to XML gives a well-formed document in the SCTE 35 namespace with exactly the section's values under the documented element and attribute names and the descriptors in order, and unmarshalling that document, indented or not, gives a section equal to the original that encodes to the same bytes. Unmarshalling does not depend on attribute order, namespace prefixes, white space, comments, CDATA, character references, 1/0 booleans or attributes holding defaults; a missing sapType means 3 (not specified).",
 ["inputs"], "all sections of the space whose text XML can carry, each in six document styles",
 "Tests compare a few documents; loss or confusion shows only for particular types, combinations and values.",
 ALL, [("UnmarshalXML, struct tags, UPID and byte string text forms", SIS)],
 "explicit-state enumeration; documents compared with trees generated from the model, and generated documents read by the real code",
 "Exhaustive over the stated space in both directions with an independent document generator; control characters and white space around a UPID are excluded." + BOUND + TRUST)
exec(open(os.path.join(V, "tools", "props2.py")).read())

claimed = [p for p in P if p["tech"]]
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k not in ("tech", "note")}, ensure_ascii=False) + "\n")
man = dict(version=1, setup_cmd="./setup.sh",
    checks=[dict(property=p["id"], quick_cmd=f"./run.sh {p['id']}", thorough_cmd=f"VERIF_TIER=thorough ./run.sh {p['id']}", evidence_file=f"evidence/{p['id']}.json",
                 technique=p["tech"], level="model_checking", level_note=p["note"]) for p in claimed],
    not_applicable=[dict(property=p["id"], reason=p["note"]) for p in P if not p["tech"]],
    notes="run.sh builds /verif/harness against /repo's working tree, offline, into a temporary directory, and explores the property's spaces; VERIF_TIER selects the bounds. No hooks in /repo.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1, ensure_ascii=False); f.write("\n")
print(len(P), "properties,", len(claimed), "claimed")
