#!/usr/bin/env python3
# Writes MANIFEST.json. CLAIMED lists the properties with a working check.
import json
T = {
 "C01": ("randomized round-trip monitor over the real library", "exploration"),
 "C02": ("layout and round-trip monitor against an independent reader/writer of the documented format", "exploration"),
 "C03": ("prefix-code monitor (trie completeness, path walk) over generated trees", "exploration"),
 "C04": ("optimality and conservation monitor against a two-queue Huffman oracle; small weight vectors enumerated", "exploration"),
 "C05": ("bit-level monitor: compressed bits against concatenated codes", "exploration"),
 "C06": ("binary tree form monitored against an independent iterative parser/printer; malformed encodings", "exploration"),
 "C07": ("monitor of success/error verdicts and named letters on covered and uncovered slices", "exploration"),
 "C08": ("hostile-input runtime monitor: panics, crashes, CPU budget, allocation peak, independent decoder", "exploration"),
 "C09": ("counting monitor against plain counters; small byte sets enumerated", "exploration"),
 "C10": ("model-based history monitor after every operation", "exploration"),
 "C11": ("schedule-stress monitor against plain counts, many thread counts, loaded machine", "exploration"),
 "C12": ("history and concurrency monitor: repeated results compared, shared values re-checked", "exploration"),
 "C13": ("AddressSanitizer, ThreadSanitizer (instrumented std) and Miri on the library workload", "exploration"),
 "C14": ("black-box round-trip monitor of the huff binary over files and block-size pairs", "exploration"),
 "C15": ("archive conformance monitor: independent format reader, optimal cost, library cross-check, foreign archives", "exploration"),
 "C16": ("file-tree snapshot monitor over options, paths, aliases and answers", "exploration"),
 "C17": ("file-tree and prompt monitor with held and scripted answers", "exploration"),
 "C18": ("hostile invocation and archive monitor: exit status, stderr, signals, file tree", "exploration"),
 "C19": ("LD_PRELOAD fault injection at every file system call, state oracle", "fault_enumeration"),
 "C20": ("LD_PRELOAD short transfers and EINTR at every read and write, output oracle", "fault_enumeration"),
 "C21": ("LD_PRELOAD SIGKILL before, inside and after every file system call, state oracle and rerun", "fault_enumeration"),
 "C22": ("file-tree snapshot monitor over naming combinations", "exploration"),
 "C23": ("system-call trace monitor of read sizes and peak memory monitor", "exploration"),
 "C25": ("construction monitor: accepted parts compared with what is kept, impossible ones with the documented panics", "exploration"),
 "C26": ("conversion monitor against the harness's own big-endian arithmetic; one-byte types enumerated", "exploration"),
 "C27": ("schedule-controlled concurrent huff processes (stopped before chosen file system calls), file-tree monitor", "exploration"),
 "C24": ("model-based monitor of hand-built branches and trees", "exploration"),
}
CLAIMED = open("claimed.txt").read().split()
NOTE = "Holds on the executions observed (counts in the evidence); trusts the harness's oracles, written from the documentation, and the rustc/std used to build. "
EXTRA = {
 "C13": "Only sanitizer and interpreter reports count; reports of Miri's experimental aliasing model (Tree Borrows) count only when located in the code under test.",
 "C19": "Failing calls are injected at the libc boundary for files in the scratch directory; stat and close failures are not injected.",
}
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: the harness uses the public API and the huff binary only. Exit 2 of a check means no verdict (build failure, harness error, too little observed)."}
for i in ids:
    if i in CLAIMED:
        t, l = T[i]
        m["checks"].append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
            "evidence_file": f"evidence/{i}.json", "technique": "runtime monitoring: " + t, "level": l, "level_note": NOTE + EXTRA.get(i, "")})
    else:
        m["not_applicable"].append({"property": i, "reason": "runtime monitoring applies; its check is not built yet"})
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
