#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below."""
import json
O = "runtime monitoring: "
T = {
 "C01": (O + "panic, overflow, abort and step-budget monitors over hostile histories, coverage-steered, in checked and unchecked builds", "every call and every use of its result is observed in both arithmetic modes"),
 "C02": (O + "online oracle recomputing each frame's checksum", "outcome compared with an independent XOR over bytes and with the unframed sentence"),
 "C03": (O + "differential trace monitor (history with and without the rejected sentences)", "later results of two real parsers compared"),
 "C04": (O + "differential trace monitor (split against unsplit message)", "the unsplit message on a new parser is the oracle"),
 "C05": (O + "trace monitor comparing interleaved groups with each group alone", "the group alone on a new parser is the oracle"),
 "C06": (O + "exactly-once trace monitor with a model of pending groups", "every answer is predicted as incomplete or delivery from the trace so far"),
 "C07": (O + "differential trace monitor (any history against a new parser)", "a new parser is the oracle; pending groups are completed afterwards"),
 "C08": (O + "oracle over generated satellite groups", "expected satellites are known from the generator"),
 "C09": (O + "oracle over generated type 24 halves", "expected fields come from an independent decoder"),
 "C10": (O + "allocator instrumentation: live bytes of the parser over long traffic waves", "live heap bytes after warm-up compared with after many more waves"),
 "C11": (O + "oracle decoding payload bits independently, with truncation and padding", "independent bit-level decoder"),
 "C12": (O + "oracle over exhaustive talkers, sentence types and message types", "classification tables; all talkers and types enumerated"),
 "C13": (O + "field oracle from an independent decoder", "boundary, compared-constant and random raw values with random other bits"),
 "C14": (O + "field oracle from an independent decoder", "all raw values of narrow fields, boundary and random values of wide ones"),
 "C15": (O + "field oracle from an independent decoder", "texts with every character and cut position, all narrow raw values"),
 "C16": (O + "field oracle from an independent decoder", "each flag with all other bits random"),
 "C17": (O + "oracle under an interposed virtual clock", "valid, impossible and malformed times at chosen current dates"),
 "C18": (O + "oracle under an interposed virtual clock", "all component values at chosen current times"),
 "C19": (O + "oracle over generated and damaged positions", "expected values known from the generator"),
 "C20": (O + "oracle over generated and damaged fields", "expected values known from the generator"),
 "C21": (O + "finiteness assertion on every number of every result", "hostile numerals in every field"),
 "C22": (O + "exhaustive comparison with the ITU table", "every 32-bit MMSI is evaluated in the real accessor"),
 "C23": (O + "ThreadSanitizer and differential trace monitor across threads and instances", "parallel parsers, hand-over between threads, replays; data races judged by ThreadSanitizer"),
 "C24": (O + "AddressSanitizer, LeakSanitizer, MemorySanitizer, ThreadSanitizer and Miri over hostile histories", "the sanitizers judge hostile and ordinary histories"),
 "C25": (O + "oracle over all code values", "all code values in every message that carries them"),
 "C26": (O + "executed-edge and allocation budgets per call", "cost of every call compared with a linear bound in its size"),
}
TR = " Observes the executions of this run only; trusts the harness oracle, rustc, and chrono/regex/bitvec where they are not instrumented."
ck = [{"property": k, "quick_cmd": f"bash check.sh {k} quick", "thorough_cmd": f"bash check.sh {k} thorough", "technique": t, "level": "exploration", "level_note": n[0].upper() + n[1:] + "." + TR} for k, (t, n) in T.items()]
json.dump({"version": 1, "setup_cmd": "bash check.sh setup", "checks": ck, "not_applicable": [],
  "notes": "No hooks in /repo: coverage, comparison and sanitizer instrumentation is added by the compiler when the harness builds the crate (harness/rustc-wrapper.sh, check.sh), and clock and allocator are interposed by the harness. KNOWN_FINDINGS.txt lists findings and fixes."}, open("/verif/MANIFEST.json", "w"), indent=1)
