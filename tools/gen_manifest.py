#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
T = {
 "C01": ("runtime monitor: recorded conversions judged by an f64 lattice oracle", "Each recorded conversion is judged against f64 lattice arithmetic with a stated rounding allowance."),
 "C02": ("runtime monitor: box results judged by an f64 set-algebra oracle", "Exact oracle (min/max select inputs); comparisons also judged at single-coordinate perturbations."),
 "C03": ("runtime monitor: containment/alignment/minimality oracle on recorded results", "f64 and exact integer oracles; inputs within rounding of a face are judged by the weaker of both readings."),
 "C04": ("runtime monitor: bit-exact recorder of cloud contents and hull", "Exact (bit) oracle."),
 "C05": ("runtime monitor: f64 reference transform and metamorphic oracles", "f64 reference with a single-precision error bound derived from operand sizes."),
 "C06": ("runtime monitor: register-history oracle over get/set/copy logs, panic monitor", "Sequential register model per cell and map; every rejected access must panic and leave both maps unchanged."),
 "C07": ("runtime monitor: growth-history oracle keyed by absolute cells", "Every cell is compared after every growth step against a sequential model keyed by integer world cell."),
 "C08": ("runtime monitor: extent invariants after every growth step", "Invariants on bounds, shape and readable border cells; a fragment of lattice ambiguity (0.01 cell) is allowed."),
 "C09": ("runtime monitor: ray-walk trace checker with an edge-count step budget", "Walk automaton over the recorded cells; non-termination is caught by a compiler-instrumented step budget."),
 "C10": ("runtime monitor: recorded ray cells judged by exact segment/box geometry in f64", "Geometric oracle with a tolerance of 0.02 cell (more for very long rays)."),
 "C11": ("runtime monitor: truncated ray vs full ray trace relation", "Prefix relation between two recorded executions; distances within rounding of the range are skipped."),
 "C12": ("runtime monitor: scan result vs recorded single rays (set oracle)", "Exact set equality against individually recorded rays."),
 "C13": ("runtime monitor: trace of set() events and every cell vs an independent f64 mapper", "Independent reference mapper; cells whose classification hangs on float rounding are judged leniently and counted."),
 "C14": ("runtime monitor: panic, step-budget and allocation monitors over integration histories", "Any panic, step-budget overrun or uncovered point/sensor cell is a violation."),
 "C15": ("runtime monitor: online checker on every evidence update", "Exact f32 recurrence on each observed update, saturation and threshold probes."),
 "C16": ("runtime monitor: changed-cell records vs observed set() events", "Multiset comparison per clear interval in absolute cells, across growth and copies."),
 "C17": ("runtime monitor: bit-level comparison of repeated, permuted and cross-process executions", "Bit equality of recorded outcomes over runs with differently seeded hash sets."),
 "C18": ("runtime monitor: lock-step differential trace of the two objects", "Every trait method compared on both objects after every operation."),
 "C19": ("runtime monitor: sweep of all 2^32 inputs against an f64 oracle", "Enumerates every f32 bit pattern for the scalar functions; f64 oracle with a few ulps of allowance."),
 "C20": ("runtime monitor with injected read faults: byte-exact decode oracle", "Fault-injecting readers (chunking, interruptions, hard errors); byte-exact oracle."),
 "C21": ("runtime monitor with injected read faults: WGS84 ENU oracle in f64", "Independent WGS84 oracle (1 percent + centimetres), rotation oracle in f64, malformed records and read faults."),
 "C22": ("runtime monitor with injected file faults: directory read vs per-file decode", "Real scratch directories, corrupt/missing/unreadable entries; compared with per-file decoding."),
 "C23": ("AddressSanitizer, LeakSanitizer, MemorySanitizer, ThreadSanitizer and Miri over all workloads", "Sees what the workloads execute; Miri runs without validity checks (nalgebra 0.22's own uninitialised floats)."),
 "C24": ("runtime monitor: offline checker over frame logs of the real visualiser under injected delays", "The visualiser's real source linked to a recording stand-in for kiss3d; frames judged offline against prefix replays."),
 "C25": ("ThreadSanitizer and injected delays: hand-over and progress checker over frame logs", "Schedules reached by random delays at instrumented edges and under ThreadSanitizer; bounded watchdog for progress."),
 "C26": ("runtime monitor: whole-pipeline executions judged against the scene the recording was made from", "Cells within a quarter of a cell of a beam's side are left open and counted; the others are judged exactly."),
 "C27": ("runtime monitor: cost ledger (compiler-inserted edge callbacks, counting allocator) vs linear bounds", "Bounds are about ten times the unchanged library's own maxima, so only a different order of growth or a large constant is seen; the maxima are in the evidence."),
 "C29": ("runtime monitor with injected recording faults: frame log, output and end of the visualiser's process", "The visualiser's real source on faulty and complete recordings; complete ones are judged frame by frame as in C24."),
 "C28": ("runtime monitor: inotify, descriptor and output recorders around reads, child processes with few descriptors", "Kernel events on the directory read and its parent; output and files of child processes with their own working directory."),
}
checks = [{"property": k, "quick_cmd": "python3 run.py check %s --tier quick" % k, "thorough_cmd": "python3 run.py check %s --tier thorough" % k,
           "evidence_file": "evidence/%s.json" % k, "technique": t, "level": "exploration",
           "level_note": n + " Assurance covers the executions generated (counts in the evidence), not all inputs."} for k, (t, n) in sorted(T.items())]
json.dump({"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": [],
           "notes": "No hooks in /repo: the whole API is public; maps are observed through the crate's own traits, steps through compiler-inserted edge callbacks. Genuine defects were repaired by fix: commits, listed in known_findings.txt."},
          open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "MANIFEST.json"), "w"), indent=1)
