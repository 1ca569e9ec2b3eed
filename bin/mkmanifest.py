#!/usr/bin/env python3
"""Writes MANIFEST.json from harness/checks.json and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = json.load(open(V + "/harness/checks.json"))
P = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = json.load(open(V + "/harness/not_applicable.json")) if os.path.exists(V + "/harness/not_applicable.json") else {}
T = {
 "mc": ("stateless model checking of the real code: every interleaving up to a preemption bound under a controlled scheduler (switches at every lock, wait, atomic, system call and conflicting memory access, equivalent schedules merged), each execution judged for linearizability against an explicit reference model, data races, uses after free and deadlocks", "exploration"),
 "cli": ("bounded exhaustive enumeration on the real commands: every command with every combination of secrets, every single alteration of its configuration, and a kill or failing call at every system call it makes, each outcome judged against the states before and after it", "fault_enumeration"),
 "seq": ("bounded exhaustive enumeration of operation sequences on the real implementation (stateless model checking, every sequence up to the depth), each step compared with an explicit POSIX reference model", "exploration"),
 "fault": ("bounded exhaustive fault enumeration on the real implementation: a kill or failing call at every system call of every operation sequence up to the depth, each outcome judged against an explicit reference model", "fault_enumeration"),
 "names": ("bounded exhaustive enumeration of inputs and configurations on the real implementation: every name of a bounded space in every translator configuration, each translation, its inverse and every single alteration of it judged against independently derived Unicode tables", "exploration"),
 "priv": ("bounded exhaustive enumeration of operation sequences on the real implementation (every sequence up to the depth, every kill point of the commands, every damaged byte), with the complete storage or log of every state searched by a monitor", "exploration"),
 "tamper": ("bounded exhaustive fault enumeration on the real implementation: every single alteration (bit flip, cut, extension, moved, copied, zeroed or restored piece) of every stored file of bounded repositories, each mounted and observed completely, judged against every state the reference model ever had", "fault_enumeration"),
}
checks, na = [], []
for p in P:
    i = p["id"]
    c = C.get(i)
    if not c:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
        continue
    tech, lvl = T.get(c["target"], ("", ""))
    tech = c.get("technique", tech)
    lvl = c.get("level", lvl)
    checks.append({"property": i, "quick_cmd": f"bin/check.py {i} --tier quick", "thorough_cmd": f"bin/check.py {i} --tier thorough",
                   "technique": tech, "level": lvl, "level_note": c["note"], "evidence_file": f"evidence/{i}.json"})
m = {"version": 1, "setup_cmd": "bin/build.py --all", "checks": checks, "not_applicable": na,
     "notes": "Every check builds the harness with /repo's current sources (bin/build.py), explores in a scratch directory under /dev/shm and replays each violation before reporting it. See DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
