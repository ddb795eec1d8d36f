#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
SEQ = ("Exhaustive enumeration of a bounded, indexed input domain on the real code, every result compared with an independent reference; "
       "nothing is said about inputs outside the domain named in the evidence.")
EXP = ("Every schedule, answer, fault, clock step and cancellation within the bounds named in the evidence, executed on the real code by a "
       "controlled scheduler (stateless exploration); trusts tokio's own synchronisation and reqwest above the transport seam.")
TS = "exhaustive bounded state-space sweep of the real code against a reference model"
TB = "stateless model checking of the real futures under a controlled scheduler with fault, clock and cancellation enumeration"
NOTES = {
 "C01": (TS, SEQ + " The reference is a V4 verifier written from Google's published rules; trusts ring's verification and that reading of the rules."),
 "C02": (TS, SEQ + " The reference decodes and splits URLs itself and also round-trips them through a WHATWG parser."),
 "C03": (TS, SEQ + " Every result is followed by the enumeration of all its single alterations, which the reference verifier must reject."),
 "C04": (TS, SEQ + " Calendar reference and virtual wall clock; the clock also steps between the crate's own reads."),
 "C05": (TS, SEQ + " All call sequences of the builder up to a length."),
 "C06": (TS, SEQ + " JSON and base64 readers of its own; trusts ring's verification."),
 "C07": (TS, SEQ + " A policy evaluator written from Google's rules judges the form and all its single alterations."),
 "C08": (TS, SEQ + " Calendar reference and virtual wall clock."),
 "C09": (TS, SEQ + " Includes all service answers of a bounded grammar; a call that does not return within 180 s counts as a hang."),
 "C10": (TS, SEQ + " All requests pass through the recording transport; direct network calls of the process are refused and counted." ),
 "C11": (TS, SEQ + " Documents of a bounded grammar plus all single-byte edits; duplicate members, nesting beyond serde_json's limit and lone surrogates are not judged."),
 "C12": (TS, SEQ + " All call histories up to a depth, each in a process of its own against the result in a fresh process."),
 "C13": (TB, EXP),
 "C14": (TB, EXP),
 "C15": (TB, EXP),
 "C16": (TB, EXP),
 "C17": (TB, EXP),
 "C18": (TS, SEQ + " The reference decides acceptance independently for every case."),
}
m = {
 "version": 1,
 "setup_cmd": "cd mc && cargo build --release --offline",
 "checks": [{
   "property": p, "quick_cmd": f"./check.sh {p}", "thorough_cmd": f"./check.sh {p} thorough",
   "technique": t, "level": "model_checking", "level_note": n} for p, (t, n) in NOTES.items()],
 "not_applicable": [],
}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
