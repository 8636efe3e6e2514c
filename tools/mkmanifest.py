#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
T = {
"C01": ("reference-model monitor over recorded write/read histories", "Every pair of thousands of generated histories compared with the model; trusts the generator's reach."),
"C02": ("conservation monitor (pairs in = pairs out) over SimpleWriter histories", "Multiset conservation, order within blocks, TotalItems and caller slices checked for each history."),
"C03": ("exact-prefix oracle computed by an independent size model", "Each split compared with the independently computed longest prefix; estimate compared with the bytes in the file."),
"C04": ("differential monitor: metadata, full scan and reference model", "Three computations compared per file."),
"C05": ("reference-model monitor of filtered aggregation", "Exact set semantics compared per query."),
"C06": ("race detector build, parallel vs sequential comparison under injected delays", "Schedules are sampled, not enumerated; evidence counts distinct read orders."),
"C07": ("exact-set monitor over cache histories", "Bitmap compared with the exact ID set at every call of the history."),
"C08": ("reference-model monitor (newest file wins)", "Exact set semantics compared per query."),
"C09": ("race detector plus answer-equivalence monitor on concurrent histories", "Every call is read-only, so each answer must equal the one given alone: that is the linearizability check for this interface."),
"C10": ("offline checker: independent strict parser over every written file", "The parser shares no code with the repository except the bitmap library."),
"C11": ("panic, allocation and answer monitors over damaged files, independent decoder as oracle", "All truncations of generated files; field damage by boundary values; random damage sampled."),
"C12": ("crash-image checker over recorded file operations", "Every prefix of the recorded operations and sampled subsets of unsynced sectors, against the real reader."),
"C13": ("crash-image checker over recorded file operations after acknowledgement", "Images that keep only what was synced, and sampled partial ones."),
"C14": ("fault injection at every intercepted file operation with history oracle", "Each operation of each history fails once in a sampled way; reads in all four ways."),
"C15": ("differential histories with and without invalid calls, byte comparison", "File bytes (creation time masked) and answers compared."),
"C16": ("aliasing and repeatability monitor over random call histories", "Answers compared with a fresh reader's; files and filters compared byte by byte."),
"C17": ("black-box output checker of the built commands", "Output and files compared with the given data and the independent parser."),
"C18": ("descriptor and goroutine census after every call", "Kernel descriptors below the case directory are counted, with the garbage collector off."),
"C19": ("set oracle for candidate blocks", "Upper and lower bound of the candidate set checked per filter."),
"C20": ("trace monitor over intercepted reads", "Every byte range read during a query compared with the block regions."),
"C21": ("differential monitor on independently encoded files", "Files from an independent encoder with random layout freedoms."),
"C22": ("differential runs of the same history under other circumstances, byte comparison", "Bytes compared apart from the creation time, which is bounded by the clock around the run."),
"C23": ("report checker: DebugInfo compared with an independent parse of the file", "Every fact of the report checked in order, for written and independently encoded files."),
"C24": ("live-heap and I/O volume monitor at intercepted operations", "Bounds have slack of several times what is needed but are far below the size of the files used."),
"C25": ("black-box output checker of the built example programs", "Output compared with a direct computation over generated files."),
}
LEVEL = {"C14": "fault_enumeration", "C12": "fault_enumeration", "C13": "fault_enumeration"}
m = {"version": 1,
 "setup_cmd": "bash setup.sh",
 "hooks": {"guard": "none in /repo", "enable": "go build -overlay: patched copies of three files of the standard library's os package (harness/mkoverlay.sh) intercept every file operation; /repo is built unchanged", "source_commits": []},
 "checks": [{"property": p, "quick_cmd": f"bash check.sh {p}", "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {p}",
   "technique": t, "level": LEVEL.get(p, "exploration"), "level_note": n} for p, (t, n) in T.items()],
 "not_applicable": [],
 "notes": "One Go binary (harness/) holds all monitors; see DESIGN.md. KNOWN_FINDINGS lists findings."}
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w"), indent=1)
