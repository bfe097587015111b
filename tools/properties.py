#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table."""
import json, os, re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LL = "src/parse/link_layer.rs"
CI = "src/parse/transport_layer/control_info.rs"
HD = "src/parse/transport_layer/header.rs"
MF = "src/parse/transport_layer/manufacturer.rs"
DI = "src/parse/application_layer/dib.rs"
VI = "src/parse/application_layer/vib.rs"
RE = "src/parse/application_layer/record.rs"
FR = "src/parse/application_layer/frame.rs"
AP = "src/parse/application_layer/application.rs"
NU = "src/parse/types/number.rs"
DA = "src/parse/types/date.rs"
ST = "src/parse/types/string.rs"
TY = "src/parse/types.rs"
ER = "src/parse/error.rs"
ALL = [LL, CI, HD, MF, DI, VI, RE, FR, AP, NU, DA, ST, TY, ER]
AI = "abstract interpretation of the compiler's MIR (bit-precise, joined at merge points), compared with a specification table"

P = []


def prop(id, title, statement, over, why, files, mech, technique, note, quantifier=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, why=why, files=files, mech=mech,
                  technique=technique, note=note, quantifier=quantifier))


BYTES = "every byte string offered to the parser, of every length within the bound given in the check's level note"

prop("P01", "Parsing never panics",
     "No byte string makes any of the library's parsers panic, overflow, index out of range or run into an unimplemented case: malformed, truncated or unsupported telegrams are always reported as an error value. "
     "This holds for whole telegrams and for each public parser (headers, records, data and value information blocks, numbers, dates, text, application messages) used on its own.",
     ["inputs"], "The tests parse some 70 well-formed captures and a few hundred literals; a panic needs one particular length, digit or code combination in 2^(8n) inputs.",
     ALL, [("checked arithmetic and take/verify in every parser", "src/parse")],
     "abstract interpretation of MIR: reachability of every panic, overflow check, bounds check and unreachable block",
     "Every panic site reachable from the parsers is shown unreachable for all inputs up to the lengths listed in the evidence (5 to 261 bytes per parser, whole telegrams with any message of up to 5 bytes or with up to 15 records,  sub-parsers replaced by arbitrary results where layers are cut); longer inputs repeat the same loops. Trusts rustc's MIR and the models of winnow/std listed in the evidence.")
prop("P02", "Long frames: delimiters, lengths, checksum and payload are enforced",
     "A telegram starting with 68h is accepted only if it is 68h L L 68h control address data checksum 16h with both length bytes equal to L (at least 2), exactly L bytes between the second 68h and the checksum, and a checksum equal to the sum of those L bytes modulo 256; every such telegram with a valid control byte and valid contents is accepted. "
     "The reported address is the byte after the control byte, the message is decoded from exactly the remaining L-2 bytes, and the whole telegram is consumed.",
     ["inputs"], "Tests use correct captures and a handful of corruptions; a wrong sum, an off-by-one length or an ignored second length byte only shows on particular lengths and byte values.",
     [LL], [("frame grammar and checksum verification", LL)], AI,
     "All telegrams up to 11 bytes (thorough: 13), and for every length byte telegrams one byte short, right and one too long, with one unknown bit per byte (with all bits unknown for selected lengths up to 64, thorough up to 255); message contents abstracted to an arbitrary accepting or rejecting parser.")
prop("P03", "Short frames and acknowledgements are recognised exactly",
     "A telegram 10h control address checksum 16h is accepted as a short frame exactly when the checksum is the sum of control and address modulo 256 and the control byte is valid, and reports that address. "
     "The single byte E5h is an acknowledgement, and a telegram starting with any byte other than 10h, 68h or E5h (or an empty one) is rejected.",
     ["inputs"], "Tests contain a few short frames; 2^32 byte combinations decide whether the checksum wraps and start bytes are exclusive.",
     [LL], [("dispatch on the start byte, short frame grammar", LL)], AI,
     "Complete for all short frames and acknowledgements and every start byte (inputs up to 6 bytes).")
prop("P04", "Control byte decoding is exact for all 256 values",
     "For every value of the control byte, in short and long frames alike, a value with the top bit set or with a reserved function code is rejected; otherwise the direction, the frame count or access-demand/flow-control bits and the primary or secondary function reported are those the M-Bus link layer assigns to it. "
     "Nothing else in the telegram influences the decoding of the control byte.",
     ["inputs"], "Tests sample a few control bytes; reserved codes and rarely used functions are never sent by the captured meters.",
     [LL], [("control byte bit layout and function tables", LL)], AI,
     "Complete: all 256 control bytes, in short frames and in long frames up to 9 bytes.")
prop("P05", "The CI field selects message kind, header kind and remaining data",
     "For every control information byte the message kind, the kind of header expected (none, short or long) and what happens with the bytes after the header (carried as raw data, decoded as records, as an application selection or as an application error) are those the M-Bus standard assigns; codes the library does not support are reported as an error. "
     "Data bytes carried through are exactly the bytes following the header, none lost and none added.",
     ["inputs"], "Captured telegrams only use CI 72h/78h/7Ah and a few error frames; the other of the 256 codes are untested.",
     [CI], [("CI dispatch", CI)], AI,
     "All 256 codes with messages up to 5 bytes (thorough: 7) and of exactly 6 to 255 bytes (all lengths up to 40, some of the others; thorough: all); headers and application decoders abstracted to arbitrary parsers consuming fixed lengths, which are covered by their own properties.")
prop("P06", "Transport header fields come from the right bytes",
     "A short header takes access number, status and configuration field from its four bytes in that order; a long header takes the identification number (four bytes BCD, least significant first), manufacturer, version and device type and then the same four bytes. "
     "The status byte is split into application state, low-power, permanent-error, temporary-error and manufacturer bits as the standard lays them out, and exactly 4 or 12 bytes are consumed.",
     ["inputs"], "Tests check two or three headers; swapped bytes or status bits show only on values that differ there.",
     [HD], [("header parsers and status byte", HD)], AI,
     "Complete for both header kinds (4 and 12 bytes). The extra security bytes are outside this statement (see the security property).")
prop("P07", "Device type codes decode per the standard table, all 256",
     "Every value of the device type byte in a long header decodes to the device type the EN 13757-7 table assigns to it, and codes without a type are classified as reserved (with the reserved range they belong to). "
     "No code makes the header fail.",
     ["inputs"], "Captured telegrams cover about a dozen of the 256 codes.",
     [HD], [("device type table", HD)], AI, "Complete: all 256 codes.")
prop("P08", "Manufacturer codes decode to their three letters or are rejected",
     "The 16-bit manufacturer code unpacks to three characters, five bits each, most significant first, offset by 64. "
     "A long header is accepted only if all three are capital letters A to Z, and it then carries exactly those letters.",
     ["inputs"], "Tests check a handful of the 65536 codes.",
     [MF, HD], [("five-bit unpacking", MF), ("letter check", HD)], AI, "Complete: all 65536 codes, alone and inside every 12-byte header.")
prop("P09", "Device names are looked up by manufacturer, version, type and id",
     "The product name reported for a device depends only on manufacturer code, version, device type and identification bytes, and is the entry of the known-devices table for that combination, including the entries that distinguish devices by type or by an identification byte. "
     "Combinations not in the table give no name, and a long header carries the name belonging to its own fields.",
     ["inputs"], "Tests check a few table rows; 2^56 combinations and the rows that must not match are out of reach.",
     [MF], [("device name table", MF)], AI, "Complete: all manufacturer codes, versions, device types and 4-byte identifications at once.")
prop("P10", "The configuration field's security mode is decoded or refused",
     "A header is reported as unencrypted exactly when its configuration field is zero; a field whose security mode (the low five bits of its second byte) is one the standard reserves (6, 11, 12, 14, 16 to 31) is reported as reserved together with its 16-bit value, low byte first. "
     "Every other field belongs to a security mode the library does not support and makes the header an error, so that encrypted data is never decoded as if it were plain and no field is a crash.",
     ["inputs"], "Captures only contain mode 0 (and one encrypted) configuration; 2^16 field values are not sampled.",
     [HD], [("configuration field parser", HD)], AI, "Complete: all 65536 configuration fields in short and long headers.")
prop("P11", "Data information blocks: function, size and combined fields",
     "The first byte of a data information block gives the function field, the data field and the least significant storage bit; every extension byte adds four storage bits, two tariff bits and one device bit above those already collected, and the block ends at the first byte without an extension bit. "
     "A block with more than ten extension bytes is an error.",
     ["inputs"], "Tests use at most a few extension bytes with small values; bit positions beyond the second extension and the limit are not exercised.",
     [DI], [("DIF/DIFE chain", DI)], AI, "Complete: all blocks (at most 11 bytes) and the twelve-byte ones that must be rejected.")
prop("P12", "The primary VIF table is exact",
     "Every primary value information code 00h to 7Ah decodes to the quantity, unit and decimal exponent the EN 13757-3 primary table gives it. "
     "Time units (seconds, minutes, hours, days) and the special codes (dates, date/time, addresses, on-time, reserved) are decoded as the table says, too.",
     ["inputs"], "Tests check some rows; an exponent off by one in any other row goes unnoticed.",
     [VI], [("primary table", VI)], AI, "Complete: all 123 codes.")
prop("P13", "The VIF extension tables FBh, FDh and FDh FDh are exact",
     "Every code of the first and second extension table and of the second-level table decodes to the quantity, unit, decimal exponent and register number the standard tables give it, and codes the tables reserve are reported as reserved. "
     "The extension prefix consumes exactly one byte per level.",
     ["inputs"], "Captures use about a dozen of the 384 extension codes.",
     [VI], [("extension tables", VI)], AI,
     "All 128 codes of each of the three tables. The exponent of the apparent power row, on which editions of the standard disagree, is not fixed.")
prop("P14", "Value information chains, plain-text units and wildcard codes",
     "A value information block ends at the first byte without an extension bit, and the bytes after the recognised code are kept in order as its extra qualifiers with the extension bit removed. "
     "A plain-text unit (7Ch/FCh) is length-prefixed text stored in reverse, and the any-, manufacturer-specific and unassigned codes are reported as such; truncated blocks are errors.",
     ["inputs"], "Tests hold a few chains; the interplay of chain end, text length and truncation is combinatorial.",
     [VI, ST], [("VIFE chain", VI), ("length-prefixed text", ST)], AI,
     "All blocks up to 11 bytes and all qualifier chains up to 16 bytes (thorough: 14 and 24), plain text of every length and chains of every length up to 64 and of up to 250 bytes, complete and cut short, with fixed shape and unknown contents.")
prop("P15", "The record's data is read with the size and type its header asks for",
     "The data of a record is read as the data field of its header demands (none, 8 to 64 bit integer, 32 bit real, 2 to 12 digit BCD or variable length; selection for readout and special functions are errors), with integers read as unsigned numbers and data read as date, date/time, time or daylight-saving data exactly where the value information calls for it, and integers read as signed numbers otherwise. "
     "BCD data with invalid digits is kept as text, the bytes consumed are exactly those of header and data, and truncated data is an error.",
     ["inputs"], "The product of 16 data fields, over 400 value codes and all contents is far beyond the sampled records.",
     [RE, DI, VI, NU, DA], [("data dispatch", RE), ("signedness of value types", VI)], AI,
     "All records up to 5 bytes (thorough: 7); all records with a plain header and any fixed data field (11 bytes), with any FBh/FDh extension code (12 bytes), and with up to two data and two value information extension bytes (thorough: three), or ten and none, nine and one, none and five, four and three, all their bits unknown. Signedness of access-code rows is not fixed.")
prop("P16", "Variable-length data (LVAR) has the length and meaning of its LVAR byte",
     "The LVAR byte alone decides kind and length of variable data: up to BFh that many bytes of Latin-1 text (stored last character first), C0h-C9h a BCD number greater than zero and D0h-D9h a negated BCD number of two digits per count, E0h-E8h a binary integer and E9h-EFh raw bytes of that count, F0h-F4h 16 to 32 raw bytes in steps of four, F5h 48 and F6h 64; all other values are errors. "
     "Exactly that many bytes are consumed, and binary integers are read as unsigned where the value information says so.",
     ["inputs"], "Captures contain only short text; most of the 256 LVAR values are untested.",
     [RE, NU, ST], [("LVAR dispatch", RE)], AI,
     "Every LVAR byte with exactly its data, with one byte less and with one more (the number formats as signed quantity, unsigned quantity and date); all records up to 8 bytes (thorough: 12), and all LVAR bytes behind headers with up to ten data and two value information extension bytes.")
prop("P17", "Binary integers of every width decode exactly",
     "Signed and unsigned integers of 0 to 8 bytes are read least significant byte first; signed values are two's complement of that width (sign-extended) and unsigned values are zero-extended. "
     "Exactly that many bytes are consumed and too little data is an error.",
     ["inputs"], "2^64 values per width; tests sample a dozen, sign extension of odd widths (3, 6 bytes) is easily wrong.",
     [NU, RE], [("integer parsers", NU)], AI, "Complete: all values of all widths 0 to 8.")
prop("P18", "BCD numbers of every size decode exactly, and bad digits are refused",
     "A BCD number of n bytes is 2n digits, least significant pair first; a top digit of F makes it negative, with the remaining digits as magnitude. "
     "Any other digit above 9 is an error, as is too little data.",
     ["inputs"], "Up to 10^18 values; tests sample a few per size and cannot cover every invalid digit position.",
     [NU], [("BCD parser", NU)], AI, "Complete: all contents of all sizes 0 to 9 bytes.")
prop("P19", "Invalid BCD is rendered digit by digit, including the special digits",
     "BCD data that is not a number is rendered as text with one character per digit, most significant first: digits 0 to 9, then A to F as in hexadecimal, with an F in the top position shown as a minus sign. "
     "The text has exactly two characters per byte (for the sizes up to 9 bytes), and the same bytes are consumed as for a number.",
     ["inputs"], "16^(2n) digit patterns; tests sample a few.",
     [NU], [("digit rendering", NU)], AI, "Complete: all contents of all sizes 0 to 9 bytes.")
prop("P20", "Real numbers are the four bytes' IEEE value, bit for bit",
     "A 32 bit real is the IEEE 754 single precision value whose bit pattern is the four bytes, least significant first, for every pattern. "
     "Too little data is an error and exactly four bytes are consumed.",
     ["inputs"], "2^32 patterns including NaNs and denormals.",
     [NU], [("real parser", NU)], AI, "Complete: all 2^32 patterns.")
prop("P21", "Dates (type G) and date/times (type F) decode field by field",
     "For every type G date and type F date/time, the reported day, month, year, hundred-year field, hour, minute and daylight-saving flag are the fields at the standard's bit positions, with hundred-year 0 read as 1 for years 0 to 80. "
     "Values the standard marks as invalid, and fields outside their range (minute 0-59 or 63, hour 0-23 or 31, month 0-12 or 15, year 0-99 or 127), are errors; everything else is accepted.",
     ["inputs"], "2^16 dates and 2^32 date/times, most of them with out-of-range fields tests never contain.",
     [DA], [("field layout of types F and G", DA)], AI, "Complete: all 2^16 and 2^32 values.")
prop("P22", "Date/times (type I) and times (type J) decode field by field",
     "For every type I date/time and type J time, the reported second, minute, hour, day, month, year, weekday, week, leap-year and daylight-saving fields and the signed daylight-saving offset are the fields at the standard's bit positions. "
     "Invalid-marked values, non-zero reserved bits and fields outside their range are errors, everything else is accepted, and exactly six and three bytes are consumed.",
     ["inputs"], "2^48 values; tests contain a few.",
     [DA], [("field layout of types I and J", DA)], AI, "Complete: all 2^48 and 2^24 values.")
prop("P23", "Daylight-saving data (type K) decodes field by field",
     "For every type K value, the reported start hour, start and end day and month, the local deviation, the signed daylight-saving deviation and the enable flag are the fields at the standard's bit positions. "
     "Exactly four bytes are consumed, and hours, days, months and deviations outside their range are errors.",
     ["inputs"], "2^32 values; tests contain almost none.",
     [DA], [("field layout of type K", DA)], AI, "Complete: all 2^32 values.")
prop("P24", "Text is decoded completely, in reading order",
     "Variable-length text is decoded byte for byte as Latin-1 with the Windows-1252 characters in 80h to 9Fh (every byte one character, no byte order marks or other encodings recognised) and reversed into reading order, for every length up to 191. "
     "Plain-text units are a length byte and that many bytes of text, reversed into reading order; text that is not valid UTF-8 and truncated text are errors, and no byte is lost.",
     ["inputs"], "Tests contain a few short ASCII strings; byte values 80h-FFh, order-mark look-alikes and long texts are not covered.",
     [ST], [("text parsers", ST)], AI,
     "Latin-1: all contents of all lengths up to 191. Prefixed text: all inputs up to 6 bytes (thorough: 8), plain ASCII text of every length.")
prop("P25", "Application data is a sequence of records, fillers and a tail",
     "Application data is decoded from left to right: 2Fh fillers are skipped, 0Fh ends the records and the rest is manufacturer data, 1Fh does the same and signals that more data follows, and every other byte starts a record; all records appear in order and none twice. "
     "Data that ends inside a record, or a record that fails, makes the whole frame an error.",
     ["inputs"], "Captures contain few fillers and markers; their interleavings with records are combinatorial.",
     [FR], [("record loop", FR)], AI,
     "All byte strings up to 6 bytes (thorough: 8) with the record parser replaced by one that accepts or rejects arbitrarily and consumes 1 to 3 bytes; frames of up to 246 bytes of a fixed shape; and all byte strings up to 5 bytes (thorough: 6), and sequences of 2 to 240 records of fixed headers and unknown data, with the records decoded for real.")
prop("P26", "Application error telegrams decode per the error code table",
     "The error code byte decodes to the standard's application error for every assigned code; F0h is followed by a data record giving the error, F1h to FFh carry manufacturer data, an empty message is an unspecified error. "
     "Unassigned codes are rejected.",
     ["inputs"], "Tests contain two error telegrams out of 256 codes.",
     [AP], [("error code table", AP)], AI, "All 256 codes with up to 3 data bytes (thorough: 5) and manufacturer specific ones of all lengths up to 253 bytes; the data record abstracted.")
prop("P27", "Application select telegrams: application and block number",
     "An empty application message is a reset; otherwise the high nibble of the first byte selects the message application, for all sixteen values, and the block number is composed of the low nibbles of the bytes, the first byte's nibble being most significant. "
     "Everything offered is consumed.",
     ["inputs"], "Tests contain one or two of the 2^80 messages.",
     [AP], [("application selection", AP)], AI,
     "All messages of up to ten bytes whose bytes after the first have a zero high nibble (others are not fixed by the statement).")
prop("P28", "Decoding is a pure function of the bytes",
     "Decoding the same bytes always gives the same result: no parser depends on or changes global or thread-local state, time, environment, files, randomness, hash iteration order or the identity of memory addresses, and none prints or starts threads. "
     "A library user can therefore parse from any thread, in any order, repeatedly.",
     ["histories", "schedules", "inputs"], "A hidden cache, counter or clock shows only in a particular history of calls or interleaving of threads; each test calls a parser once.",
     ALL, [("parsers take only their input and return values", "src/parse")],
     "whole-program call-graph effect analysis over monomorphised MIR with a denied-effects rule and positive controls",
     "Every function instance reachable from every public parser (libmbus, winnow, std with a body) is visited; functions without MIR are matched against the denied effects by name. Allocation and panicking machinery are exempt.")
prop("P29", "A whole telegram decodes to the composition of its layers",
     "A long frame is decoded to exactly the control and address byte, header, message and records its bytes describe under the rules for the single layers, all at once, with no layer consuming or altering bytes of another. "
     "A telegram is accepted only if every layer accepts, and the position of a record in the telegram does not change its decoding.",
     ["inputs"], "End-to-end tests only check that captures parse at all, not what they decode to.",
     [LL, CI, FR, RE], [("composition of the layers' parsers", LL)], AI,
     "Nothing abstracted: all telegrams with CI 78h and up to 3 bytes of application data (thorough: 4); telegrams of the right length and checksum with any control, address and message of up to 5 bytes, any short header and up to 4 bytes, any long header and 1 byte, any 5 bytes after a record, and 20 sequences of up to 38 records with unknown data and tail. Application codes continued over several bytes are not fixed.")
prop("P30", "Decoding always terminates, with bounded recursion",
     "Every parser finishes on every input: each loop makes progress through the input or counts towards a fixed bound. "
     "The nesting of calls does not grow with the input, so no telegram can exhaust the stack.",
     ["inputs"], "A loop that fails to make progress needs one particular marker or length at one particular place; a test that met it would hang rather than fail.",
     [FR, VI, DI, AP, NU, ST, LL], [("loops over the remaining input", "src/parse")],
     "abstract interpretation of MIR: every loop must leave within a bounded number of rounds; recursion depth compared between input sizes",
     "All inputs up to the sizes in the evidence; a loop is reported when it can exceed 2000 rounds on them, recursion when its depth grows between two sizes.")
prop("P31", "Value types are classified as unsigned, boolean or signed correctly",
     "Quantities the standard defines as unsigned (counts, identifiers, versions, states and similar) are classified as unsigned, digital inputs and outputs and flags as boolean bit fields, and physical quantities as signed numbers. "
     "The classification depends only on the kind of quantity, not on its exponent, unit or register.",
     ["inputs"], "Over a hundred kinds of quantity, each with several units; tests check a few.",
     [VI], [("classification functions", VI)], AI, "Complete: every value type with arbitrary payload. The signedness of the access-code rows is not fixed.")
prop("P32", "Rejected telegrams fail for good",
     "A telegram rejected by the link layer is reported as a final error, not as a recoverable one that lets alternative parsers reinterpret the same bytes. "
     "This holds for wrong start bytes, lengths, checksums, control bytes, stop bytes and contents alike.",
     ["inputs"], "Tests use the parser alone, where recoverable and final errors look alike.",
     [LL], [("committed parsing after the start byte", LL)], AI,
     "All inputs up to 9 bytes (thorough: 11) and frames of selected lengths up to 255 with message contents abstracted; whole telegrams with fixed shape and unknown contents.")
prop("P33", "Frames that arrive piece by piece are waited for, not rejected",
     "When the input is marked as possibly incomplete, the beginning of a frame (one byte or more) whose bytes so far are in order (start byte, lengths, control byte, and the checksum once it is there) is never rejected: the link layer asks for more input, and never for more bytes than the frame still lacks. "
     "Once the frame is whole it decodes to the same packet as on complete input, and a wrong start byte or a whole frame that is not acceptable is rejected instead of waited for.",
     ["inputs"], "No test uses partial input; every position at which a telegram can be cut, for every length, has to work.",
     [LL], [("generic input of the frame parsers", LL)],
     AI,
     "All inputs up to 9 bytes (thorough: 11), and every beginning of frames with selected length bytes from 3 to 255 (thorough: all) with one unknown bit per data byte; message contents abstracted to an arbitrary accepting or rejecting parser.",
     quantifier="every prefix of every byte string offered to the frame parser as partial input, within the bound given in the check's level note")

prop("P34", "Decoded telegrams and errors own their data and can cross threads",
     "Whatever the public parsers return, values and errors alike, owns its data: it stays usable after the buffer it was decoded from is gone. "
     "It may also be sent to another thread and shared between threads, for every telegram and every error the parsers can produce.",
     ["inputs", "schedules"], "A type that may not cross threads still passes every single-threaded test; whether a program using it builds is not something a test inside the crate can observe.",
     [LL, CI, HD, FR, RE, DI, VI, AP, DA, TY, ER], [("the fields of the decoded types and of the error type", "src/parse"), ("MBusContext and the boxed cause in MBusError", ER)],
     "type-level witnesses: a crate that builds only if every parser's result is Send, Sync and 'static after its buffer is dropped, decided by rustc's type and borrow checker",
     "Complete: holds for all values of the result types. Covers the result of every public parser on complete input and of the frame parser on partial input; trusts rustc, and the unsafe Send and Sync implementations of std and winnow. An `unsafe impl Send` or `Sync` in the library itself is listed as undecided.",
     quantifier="every value and every error of every public parser's result type, on every thread")

prop("P35", "Memory is never set aside on the word of a telegram",
     "No parser reserves memory according to a number it read (a length, storage, tariff or register number, an identifier) rather than according to the bytes actually present: whatever the input says, a single reservation stays below 128 KiB. "
     "A telegram of a few bytes therefore cannot make a program that decodes it run out of memory or abort.",
     ["inputs"], "Numbers such as storage (41 bits) or tariff (20 bits) are small in every captured telegram; the reservation only hurts for values no meter sends.",
     ALL, [("collections filled while parsing", "src/parse")],
     "abstract interpretation of MIR: the size of every reservation (with_capacity, reserve, resize, vec![x; n], repeat) compared with the bound for all inputs",
     "The same inputs as P01: every parser on its own and whole telegrams, up to the lengths listed in the evidence. Collections that are filled element by element are bounded by the number of loop rounds, which P30 decides.")

NA = [
]


def main():
    with open(f"{HERE}/properties.jsonl", "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            n = len(re.findall(r"[.](?=\s+[A-Z]|$)", p["statement"]))
            assert n <= 3, (p["id"], n)
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quantifier"] or "For " + BYTES + "."},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]},
            }) + "\n")
        for i, title, statement, over, why, files, reason in NA:
            f.write(json.dumps({
                "id": i, "title": title, "statement": statement,
                "quantifier": {"over": over, "text": "For " + BYTES + "."}, "why_tests_cant": why,
                "anchors": {"files": files, "mechanism": []},
            }) + "\n")
    m = {
        "version": 1,
        "setup_cmd": "cd /verif/analyzer && cargo +nightly build --release --offline",
        "checks": [{
            "property": p["id"],
            "quick_cmd": f"python3 /verif/check.py {p['id']} quick",
            "thorough_cmd": f"python3 /verif/check.py {p['id']} thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": p["technique"],
            "level": "other",
            "level_note": p["note"],
        } for p in P],
        "not_applicable": [{"property": n[0], "reason": n[6]} for n in NA],
        "notes": "No hooks in /repo: the analyzer reads the MIR of the unmodified crate through public entry points.",
    }
    with open(f"{HERE}/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
