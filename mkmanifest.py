#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
NOTE = ("Contract written in TLA+ (spec/Contract.tla). TLC checks the transcribed design against it over an exhaustive "
        "enumeration and over sampled sessions (bounds in DESIGN.md), replays every one of these behaviours on the real "
        "code and validates each recorded call against the same contract (spec/Trace.tla). Sound for what was run: "
        "real values are judged in conservative ball arithmetic, so undecided comparisons are accepted. "
        "Trusts TLC, java/Scalar.java (big rationals and balls) and the harness's reports. ")
EXTRA = {
 "C01": "Values are compared at 6 variable assignments (exact rationals; nonexact parts as balls).",
 "C02": "Node-local normal-form predicate on every node of every result; idempotence on results of folding.",
 "C03": "All operand pairs of a library that includes the 64-bit borders, exact comparison with big rationals.",
 "C04": "All pairs of a rational library that includes non-canonical and border values; exact comparison.",
 "C05": "Every number in every result of number arithmetic and folding.",
 "C06": "All primitive types over a border library plus sampled values; exact comparison of views.",
 "C07": "Oracle is forward-mode differentiation in TLA+ (dual numbers), independent of symbolic rules.",
 "C08": "Shape contract per result; exact and odd variable names.",
 "C09": "Structural and value contract, capture and similar-name cases, all three call forms.",
 "C10": "Oracle is an independent reader of the printed language in TLA+ (spec/Show.tla).",
 "C11": "Oracle is power-series arithmetic in TLA+, independent of repeated differentiation.",
 "C12": "Printed text is read back by the reader of spec/Show.tla; residual judged by series arithmetic; the example program's output too.",
 "C13": "Oracle is germ arithmetic (Laurent series, bounded and unbounded germs) in TLA+ (spec/Germ.tla).",
 "C14": "All class pairs, judged against sets of witness germs; value pairs sampled.",
 "C15": "Termination by a 25 s watchdog per call; obligation to answer decided by germ arithmetic.",
 "C16": "All call forms with all kinds of target over all small expressions.",
 "C17": "All constructors, by value and by reference, over all small expressions; exact structural comparison.",
 "C19": "Two histories of the same calls, in different orders and processes, must agree call by call; look-alike arguments are generated in adjacent blocks.",
 "C20": "Pairs of orders on one expression within a session; the normal-form predicate of C02 on answered values.",
 "C21": "Size, depth, operators and variable occurrences of every folded result; size of every derivative.",
 "C18": "Small expressions exhaustively, deep chains and values near the 64-bit limits sampled; panic, abort and hang are events.",
}
checks = [{"property": p, "quick_cmd": "python3 check.py %s" % p, "thorough_cmd": "python3 check.py %s --thorough" % p,
           "evidence_file": "evidence/%s.json" % p,
           "technique": "TLA+ specification checked with TLC; behaviours replayed on the code, recorded traces validated by TLC",
           "level": "model_checking", "level_note": NOTE + x} for p, x in EXTRA.items()]
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "hooks": {"guard": "verif_hooks",
               "enable": "RUSTFLAGS='--cfg verif_hooks' VERIF_HARNESS=/verif/harness/harness.rs cargo build --locked --offline (check.py does this in a scratch target directory)",
               "source_commits": ["5b73b14a7691fec918d03bb07bd42c1adde84c9d"]},
     "checks": checks, "not_applicable": [],
     "notes": "--thorough (or VERIF_TIER=thorough) selects the thorough tier; VERIF_SEED the sampled sessions. check.py Cxx --replay FILE re-runs one recorded violation."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
