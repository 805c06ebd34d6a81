#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording is easy to edit and diff)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in (state or [])],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": observe or ["return value of NmeaParser::parse_sentence"],
                          "hook_needed": hook}})
L = "src/lib.rs"; U = "src/util.rs"; A = "src/ais/mod.rs"; G = "src/gnss/mod.rs"
T = lambda n: "src/ais/vdm_t%s.rs" % n
FR = ("saved_fragments", "pending parts of multi-sentence AIS and GSV groups", "src/lib.rs NmeaParser")
VS = ("saved_vsds", "type 24 halves waiting for the other part, by MMSI", "src/lib.rs NmeaParser")

p("C01", "Parsing is total: any string yields a result or an error, never a panic",
  "For every string, given at any point of any history of earlier sentences, parsing returns a result or an error: it never panics, aborts, overflows arithmetic or runs forever, with or without overflow checks compiled in. The same holds for formatting whatever was returned and for calling its position and country accessors.",
  ["inputs", "histories"], "all strings (including empty, truncated, non-ASCII, huge and field-wise extreme ones) after all histories, in checked and unchecked builds",
  "The tests feed about thirty well-formed sentences; receivers deliver line noise, truncated and hostile text, and slicing, unchecked date construction and arithmetic on input bytes fail only on inputs nobody listed.",
  [L, U, T("4"), T("5"), "src/gnss/gga.rs", "src/gnss/gsv.rs"],
  [("header slicing and dispatch", "src/lib.rs parse_sentence"), ("payload de-armouring", "src/util.rs parse_payload"), ("time and date construction", "src/util.rs parse_hhmmss, parse_yymmdd_hhmmss, pick_eta; src/ais/vdm_t4.rs"), ("group counters", "src/gnss/gsv.rs handle")], [FR, VS])
p("C02", "A sentence whose checksum does not match is rejected as corrupted",
  "If text follows the last '*' of a sentence, the sentence is processed only when that text is exactly the two upper-case hexadecimal digits of the XOR of all bytes between the start character and that '*'; anything else yields the corrupted-sentence error. A matching checksum, an empty one and none at all lead to the same outcome.",
  ["inputs"], "all sentences of all kinds, all checksum texts, all single- and multi-byte corruptions",
  "Tests try one wrong and one missing checksum on one sentence.",
  [L], [("checksum comparison", "src/lib.rs parse_sentence")])
p("C03", "Rejected or unusable sentences leave no trace in later results",
  "A sentence that is answered with an error leaves every later result exactly as if it had never been presented, unless it was itself the last missing part of a pending multi-sentence message. The same holds for an AIS part the parser cannot use (part number outside its part count, missing message id, part count other than one or two).",
  ["histories", "inputs"], "all histories with any rejected or unusable sentences inserted anywhere, in particular damaged copies of parts that are pending",
  "No test presents a rejected sentence in the middle of a multi-sentence message.",
  [L, "src/gnss/gsv.rs", T("24")], [("validation before storing", "src/lib.rs parse_sentence; src/gnss/gsv.rs handle; src/ais/vdm_t24.rs handle")], [FR, VS])
p("C04", "A two-part AIS message decodes exactly like the unsplit message",
  "When an AIS payload is split at any character boundary into a two-part message, the first part to arrive is answered with 'incomplete' and the second with exactly the result the unsplit payload gives in one sentence. This holds for either arrival order, every message type, message id, channel, talker and split position, and whatever unrelated traffic is parsed in between.",
  ["inputs", "histories"], "all payloads, split points, arrival orders, ids, channels and interleaved traffic",
  "Tests reassemble two fixed messages, one in both orders, with nothing in between.",
  [L, U], [("fragment store and concatenation", "src/lib.rs parse_sentence VDM/VDO branch"), ("fragment key", "src/util.rs make_fragment_key")], [FR])
p("C05", "Parts of different messages are never mixed",
  "Parts are combined only when they belong together: AIS parts with the same talker, sentence kind (VDM or VDO), message id, channel and part count; GSV sentences with the same talker and sentence count; type 24 halves with the same MMSI. Any number of such groups in flight on one parser, interleaved in any order, yields for each group exactly the results it yields alone.",
  ["histories", "schedules"], "all interleavings of any number of independent groups whose identifying fields differ in at least one component",
  "No test has two groups in flight at once.",
  [L, U, "src/gnss/gsv.rs", T("24")], [("fragment key", "src/util.rs make_fragment_key"), ("GSV key", "src/gnss/gsv.rs make_gsv_key"), ("per-MMSI store", "src/ais/vdm_t24.rs handle")], [FR, VS])
p("C06", "A multi-sentence message is delivered exactly once, when its last part arrives",
  "Every part that leaves its message unfinished is answered with 'incomplete', and the part that completes it with the message itself; a repeated part replaces the earlier copy. A delivered message is forgotten: none of its parts can contribute to a second delivery.",
  ["histories"], "all sequences of parts with losses, repeats and reordering, for two-part AIS messages, GSV groups and type 24 pairs",
  "Tests deliver each group once in a clean order; nothing checks what is left over after delivery.",
  [L, "src/gnss/gsv.rs", T("24")], [("pull on completion", "src/lib.rs pull_string, pull_vsd"), ("found_count", "src/gnss/gsv.rs handle")], [FR, VS])
p("C07", "Self-contained sentences do not depend on history",
  "A sentence that is complete by itself (any GNSS sentence other than GSV, any single-part AIS message other than type 24) gives the result a newly created parser gives at the same time, whatever was parsed before. It also leaves every pending multi-sentence message untouched.",
  ["histories", "inputs"], "all self-contained sentences at any point of any history",
  "Every test starts from a new parser.",
  [L], [("stateless handlers", "src/ais/*.rs, src/gnss/*.rs handle")], [FR, VS])
p("C08", "A GSV group reports every satellite once, in sentence order",
  "When all sentences 1..n of a GSV group have arrived, in any order, the result lists exactly the satellites of sentence 1, then 2, and so on, each with the transmitted PRN, elevation, azimuth and signal strength, missing values absent, and the talker's navigation system as source. Slots without a satellite number are skipped, and a sentence number outside 1..n, or a missing count or number, is rejected as invalid.",
  ["inputs", "histories"], "all group sizes, arrival orders, satellite values, empty fields and talkers",
  "One test parses one complete three-sentence group in order.",
  ["src/gnss/gsv.rs"], [("group assembly", "src/gnss/gsv.rs handle")], [FR])
p("C09", "A type 24 report is delivered only when both halves are known, with all fields",
  "Part A and part B of a type 24 report with the same MMSI, in either order, produce one static data result holding the name from part A and type, vendor, call sign and dimensions from part B; the first half alone, and any repetition of it, is answered 'incomplete'. A part number other than A or B is rejected as invalid.",
  ["inputs", "histories"], "all field values of both halves, both orders, repeated and lost halves, many MMSIs in flight",
  "One test pairs one A with one B.",
  [T("24"), L], [("merge", "src/ais/vdm_t24.rs VesselStaticData::merge, choose_some")], [VS])
p("C10", "Retained memory does not grow with traffic that leaves nothing pending",
  "The heap memory a parser retains is bounded by the multi-sentence messages pending at once: it does not grow with the number of messages completed, of self-contained sentences, of rejected or unusable sentences, or of repetitions of the same pending part.",
  ["histories"], "arbitrarily long histories of completed, self-contained, rejected, unusable and repeated traffic with ever-changing ids, talkers and MMSIs",
  "Unit tests are a few sentences long; a leak of one entry per message only shows over a long run.",
  [L, "src/gnss/gsv.rs", T("24")], [("removal on completion", "src/lib.rs pull_string, pull_vsd")], [FR, VS],
  ["live heap bytes attributed by a counting allocator in the harness"])
p("C11", "AIS payload characters decode to exactly their six bits each",
  "Each payload character contributes its six bits, most significant first and in order, so every field is read from the bit positions of the message layout; fields wholly or partly beyond the end of a short payload read the missing bits as zero, and bits after the last field of the message do not change the result. A payload with a character outside '0'-'W' and '`'-'w' is rejected as invalid.",
  ["inputs"], "all payload strings of all lengths including empty, truncated, over-long and with illegal characters",
  "One test checks six characters; no test uses a short, long or illegal payload.",
  [U], [("de-armouring", "src/util.rs parse_payload"), ("bit extraction", "src/util.rs pick_u64, pick_i64, pick_string")])
p("C12", "Talker, sentence type and AIS message type are classified correctly",
  "Every supported sentence type yields its own result kind with the navigation system or AIS station kind named by the talker id ('other' for unknown talkers), for every two-letter talker; VDO marks own vessel and VDM does not; AIS types 1-3, 18 and 27 give dynamic data, 5 and 24 static data, 4, 6, 9, 10 and 21 their own kinds, with class A for 1-3, 5 and 27 and class B for 18 and 24. Any other sentence type or AIS message type is answered with the unsupported-type error, and text that is not a sentence at all with the invalid-sentence error.",
  ["inputs"], "all talkers, sentence types, AIS message types and both VDM and VDO",
  "Tests use a handful of talkers and no unsupported type; class and station are never asserted.",
  [L, A, G], [("dispatch", "src/lib.rs parse_sentence")])
p("C13", "AIS positions are reported exactly, and absent exactly when not available",
  "For every AIS message that carries a position (types 1-4, 9, 18, 21, 27), latitude and longitude equal the transmitted signed raw value divided by 600000 (600 for type 27), for every raw value except the not-available code (91 and 181 degrees), which yields no value. The position accessor returns the same values as the fields.",
  ["inputs"], "all 2^27 latitude and 2^28 longitude raw values (2^17 and 2^18 for type 27) in all message types, with all other bits arbitrary",
  "Each test checks one position, often to 0.1 degree; not-available codes and extreme values are untested.",
  [U, T("1t2t3"), T("4"), T("9"), T("18"), T("21"), T("27")], [("signed extraction and scaling", "src/util.rs pick_i64; handle functions")])
p("C14", "AIS speed, course, heading, turn rate and altitude follow the message layout",
  "For types 1-3, 9, 18 and 27, speed, course, true heading, rate of turn, turn direction, manoeuvre flag and altitude equal the transmitted raw value in the documented unit (0.1 knot, 0.1 degree, degree, signed (raw/4.733)^2 degrees per minute, metre; whole knots for types 9 and 27, whole degrees of course for 27) for every raw value, and are absent exactly for the not-available codes. Turn direction is -1, 0 or 1 for raw below -1, -1 to 1 and above 1; the manoeuvre flag is true only for 'engaged', false for 'not engaged', absent otherwise.",
  ["inputs"], "all raw values of every field with all other bits arbitrary",
  "Tests check a few values per message type and none of the special codes but a few.",
  [T("1t2t3"), T("9"), T("18"), T("27")], [("field decoding", "handle functions")])
p("C15", "AIS static and voyage data and texts are decoded completely",
  "For types 5, 21 and 24, names, call signs, destination and vendor id are the transmitted six-bit text cut at the first '@' with trailing blanks removed (absent when empty in types 5 and 24, except the vendor id), the type 21 name being the 20-character name followed by its extension; IMO number, dimensions, draught, position fix type, model, serial number and mothership MMSI equal the transmitted raw values. An IMO number of zero, and an undefined fix type in type 5, is absent.",
  ["inputs"], "all texts, lengths and raw values",
  "Tests decode one message of each type.",
  [U, T("5"), T("21"), T("24")], [("text extraction", "src/util.rs pick_string"), ("field decoding", "handle functions")])
p("C16", "AIS identities, flags and link-state fields are decoded per message layout",
  "For every supported AIS message type, MMSIs, sequence number, accuracy, RAIM, assigned-mode, off-position, virtual-aid, data-terminal, retransmit and class B capability flags, UTC second (with its positioning-system meaning in types 1-3), regional bits, DAC/FID, version indicator and radio status are taken from their own bits of the message layout and from no others.",
  ["inputs"], "all values of each field with all other bits arbitrary",
  "Tests assert a few flags, mostly false, so that a flag read from a neighbouring bit goes unnoticed.",
  [T("1t2t3"), T("4"), T("5"), T("6"), T("9"), T("10"), T("18"), T("21"), T("27")], [("field decoding", "handle functions")])
p("C17", "Timestamps equal the transmitted UTC time and are absent when it is invalid",
  "GGA and GLL timestamps are the transmitted hhmmss (fraction ignored) on the current UTC date, RMC timestamps the transmitted ddmmyy and hhmmss in the current century, and type 4 timestamps the transmitted date and time; on any date the parser runs. A missing, malformed or impossible date or time gives no timestamp, without affecting the other fields.",
  ["inputs", "configurations"], "all times and dates, valid or not, at all current dates including leap days, year and century ends",
  "Tests use a few fixed valid times; impossible and missing times and other current dates are never tried.",
  [U, "src/gnss/gga.rs", "src/gnss/gll.rs", "src/gnss/rmc.rs", T("4")], [("time parsing", "src/util.rs parse_hhmmss, parse_yymmdd_hhmmss"), ("type 4 timestamp", "src/ais/vdm_t4.rs handle")])
p("C18", "The reported ETA is the next occurrence of the transmitted month, day and time",
  "The ETA of a type 5 message is the transmitted month, day, hour and minute in the current year, or in the next year if that moment has already passed; it is never in the past. An ETA whose four components are all 'not available', or that names an impossible date or time, is absent; a single unavailable month or day stands for the current one, an unavailable hour for 23:59 and an unavailable minute for minute 59.",
  ["inputs", "configurations"], "all component values at all current times, including the turn of the year and leap days",
  "The only test accepts whatever year comes out and runs on the day it is run.",
  [U, T("5")], [("ETA construction", "src/util.rs pick_eta")])
p("C19", "GNSS positions equal the transmitted degrees and minutes, signed by hemisphere",
  "In GGA, RMC and GLL, latitude ddmm.m... and longitude dddmm.m... yield degrees plus minutes/60, negative for S and W; empty fields yield no value, and a field that does not have this form is rejected as invalid instead of yielding some number. The position accessor returns the same values as the fields.",
  ["inputs"], "all coordinates with any number of fraction digits, all hemispheres, all malformed fields",
  "Tests check a few coordinates to 0.1-0.001 degree.",
  [U, "src/gnss/gga.rs", "src/gnss/rmc.rs", "src/gnss/gll.rs"], [("coordinate parsing", "src/util.rs parse_latitude_ddmm_mmm, parse_longitude_dddmm_mmm")])
p("C20", "GNSS data fields report the transmitted values, absent when empty",
  "Every other field of GGA, RMC, GSA, VTG and GLL (quality, satellite counts and lists, dilution, altitude, geoid, DGPS age and station, status, speed, course, variation with sign, modes) equals the transmitted value of its own position in the sentence; empty or missing trailing fields are absent. Text that is not a value of the field's kind makes GGA, RMC and GSA sentences invalid and leaves the field absent in VTG.",
  ["inputs"], "all field values, all combinations of empty fields, shortened sentences and malformed fields",
  "Tests use one or two sentences of each type.",
  ["src/gnss/gga.rs", "src/gnss/rmc.rs", "src/gnss/gsa.rs", "src/gnss/vtg.rs", "src/gnss/gll.rs", U], [("field picking", "src/util.rs pick_number_field; handle functions")])
p("C21", "Every reported number is finite",
  "No sentence, however formed, makes any floating-point field of a result NaN or infinite.",
  ["inputs"], "all sentences, including numeric fields holding words, huge exponents or hundreds of digits",
  "No test puts anything but ordinary decimals in numeric fields.",
  [U], [("number parsing", "src/util.rs pick_number_field"), ("coordinate parsing", "src/util.rs parse_latitude_ddmm_mmm")])
p("C22", "The country of a vessel is the ITU assignment of its MMSI's country digits",
  "For every MMSI, the country is the ISO 3166 code of the administration to which the ITU has assigned the three leading digits of the nine-digit MMSI, and absent for unassigned digits, for numbers that do not begin with country digits and for numbers of more than nine digits.",
  ["inputs"], "all 2^32 MMSI values",
  "Tests sample fourteen MMSIs of almost three hundred assigned country codes.",
  [A, "mid-to-iso3166.py"], [("MID table", "src/ais/mod.rs VesselStaticData::country")],
  None, ["VesselStaticData::country"])
p("C23", "Parsers are deterministic and isolated from each other, also across threads",
  "The results of a history depend only on the sentences given to that parser and the current time: two parsers given the same history give equal results, no matter how many other parsers exist, what they are fed, in what order their calls interleave, or whether they run in other threads. Moving a parser to another thread between calls changes nothing, and no data race occurs.",
  ["schedules", "histories"], "all interleavings of calls to several parsers on one or several threads",
  "Every test uses one parser on one thread and one history.",
  [L, U], [("all state is in NmeaParser", "src/lib.rs NmeaParser")], [FR, VS])
p("C24", "No sentence causes undefined behaviour or a memory error",
  "No history of sentences makes the parser or the libraries it calls read or write outside a live object, use uninitialised or freed memory, leak memory once parser and results are dropped, race on shared memory when several parsers run in concurrent threads, or otherwise execute undefined behaviour.",
  ["inputs", "histories"], "all histories, including short, empty, huge and hostile payloads",
  "Ordinary test builds do not detect memory errors.",
  [L, U], [("bit vectors, regexes and string slicing", "src/util.rs")], [FR, VS],
  ["AddressSanitizer, LeakSanitizer and Miri reports"])
p("C25", "Every coded value maps to its documented meaning",
  "Ship type, cargo category, navigation status, position fix type, navigation aid type, GGA quality, GSA fix mode and FAA mode codes each map to the meaning the standard assigns (reserved or out-of-range codes to the documented default), for every code value, in every message that carries the code. The text such a value displays as, and those of station kinds, navigation systems and AIS classes, name that meaning.",
  ["inputs"], "all code values (8-bit ship types, 4-bit statuses and fix types, 5-bit aid types, all quality digits and mode letters)",
  "Tests see a handful of the code values.",
  [A, G, T("21"), "src/gnss/gga.rs", "src/gnss/gsa.rs"], [("code tables", "ShipType::new, CargoType::new, NavigationStatus::new, PositionFixType::new, NavAidType::new, GgaQualityIndicator::new, FaaMode::new")])
p("C26", "Work per sentence is bounded by its size and the group it completes",
  "The computation and memory spent on one call are bounded by a constant plus an amount proportional to the length of the sentence and of the pending message it completes, the growth of the parser's own tables averaged out. No number written inside a sentence, and no amount of unrelated pending or past traffic, takes a call beyond that bound.",
  ["inputs", "histories"], "all sentences (in particular all count and number fields) after all histories",
  "Tests use small counts and never measure work.",
  [L, "src/gnss/gsv.rs", U], [("group loop bounds", "src/gnss/gsv.rs handle"), ("hash-map lookups", "src/lib.rs NmeaParser")], [FR, VS],
  ["executed basic-block edges and allocated bytes per call"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
