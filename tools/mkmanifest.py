#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
TV = "TLA+ trace validation: "
C = {
 "C01": "recorded loads and reads of generated table files against a TLA+ tokenizer of the file text",
 "C02": "recorded histories over several names against the TLA+ store, all datasets observed after every step",
 "C03": "histories with failing calls of every kind against the TLA+ store, everything observed before and after",
 "C04": "recorded normalizations against exact rational arithmetic in TLA+",
 "C05": "distances on an integer grid projected to exact integers, against TLA+ dynamic programming that TLC checks against all warping paths",
 "C06": "recorded matchings against the TLA+ definition of warping paths, band and cost",
 "C07": "recorded bounds, envelopes and cut-off distances against exact TLA+ distances",
 "C08": "recorded groups against the TLA+ definition of all sub-sequences",
 "C09": "recorded groups against the TLA+ scan, which tracks every grouping that ties allow",
 "C10": "TLC explores the worker pool model; the real pool and grouping run under a controlled scheduler (exhaustive with bounded preemptions, random, priority) and every execution is validated",
 "C11": "recorded best matches against the TLA+ definition over the recorded groups",
 "C12": "recorded k best matches against the TLA+ definition over the recorded groups",
 "C13": "recorded exhaustive searches against the TLA+ definition over all sub-sequences",
 "C14": "recorded approximate searches against exact TLA+ block averages",
 "C15": "histories of saving and loading groups against files modelled in TLA+",
 "C16": "every cut and every failing byte of saved files enumerated on small cases, against the TLA+ file model",
 "C17": "recorded save and load of datasets against the TLA+ file model and bit digests",
 "C18": "the same queries asked after different histories, against the TLA+ store, everything observed around them",
 "C19": "recorded sessions of the real command line program against a TLA+ grammar of the command language and the TLA+ store",
 "C21": "recorded sessions of the real Python module, run by an embedded interpreter, against the TLA+ store",
 "C22": "recorded loads of damaged group files and calls with extreme arguments against the TLA+ store and file model",
 "C23": "recorded calls of the bundled search, its distance and its bounds against exact and fixed point TLA+ distances",
 "C24": "repeated histories that end without datasets against the TLA+ store, with memory, open files and threads recorded after each repetition",
 "C20": "recorded operations on series values against a TLA+ model of owned and borrowed storage",
}
NOTE = ("Every recorded call, on generated histories and inputs within the bounds named in DESIGN.md, is an allowed step of the "
        "specification. Trusts the driver's projection of doubles to grid integers, the compiler and TLC.")
NOTES = {
 "C24": "Growth counts when the last four of eight repetitions each hold more than the one before. Trusts the count of allocated bytes kept by the sanitizer's allocator.",
 "C10": "All schedules of small pools with bounded preemptions and many sampled schedules of real grouping runs. Trusts the scheduler's interposition of pthread and futex calls.",
 "C16": "All byte positions of the explored files for cuts and for write failures injected by a file size limit. Assumes files are lost as a suffix.",
}
checks = [{"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
           "technique": TV + t if not t.startswith("TLC") else "TLA+ model checking and trace validation: " + t,
           "level": "model_checking", "level_note": NOTES.get(i, NOTE)} for i, t in sorted(C.items())]
m = {"version": 1, "setup_cmd": "python3 check.py --build", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: the drivers in harness/ use the public interface; scheduling and faults are injected from outside."}
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
