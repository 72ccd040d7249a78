#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist in lib/profiles.py."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
src = "".join(open(os.path.join(V, "lib", f)).read() for f in os.listdir(os.path.join(V, "lib")) if f.endswith(".py"))
have = set(re.findall(r"^def check_(C\d+)\(", src, re.M))
SEQ = "Every operation history over the stated alphabets up to the stated depth is executed on the real library (forked processes), and after every call the kernel's page map, all block contents, results and diagnostics are compared with a reference model. Trusts the kernel's /proc/self/maps, fork, and the reference model in src/seq.c; values outside the alphabets are not covered."
T = {
 "C10": ("stateless model checking of thread interleavings (preemption bound), race detection pass", "All interleavings of the small thread programs up to the preemption bound are executed on the real library under a cooperative scheduler; scheduling points are lock operations, system calls and every unsynchronised shared access. Weak memory behaviour is not modelled."),
 "C12": ("exhaustive fault enumeration over operation histories", SEQ + " mmap is refused at every call position (once and from then on)."),
 "C25": ("exhaustive fault enumeration over operation histories", SEQ + " mprotect and munmap are refused at every call position."),
}
LV = {}
NOTE = {}
try:
    sys.path.insert(0, V)
    sys.dont_write_bytecode = True
    from lib import notes
    T.update(notes.TECH); NOTE.update(notes.NOTE); LV.update(notes.LEVEL)
except ImportError:
    pass
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: system calls and pthread functions are intercepted at link time (--wrap), unsynchronised accesses by compiling the library with -fsanitize=thread against our own runtime. Commits in /repo are fix: commits only; see known_findings.txt."}
for i in ids:
    if i in have:
        t, n = T.get(i, ("bounded exhaustive exploration of operation histories on the real code", SEQ))
        m["checks"].append({"property": i, "quick_cmd": "python3 run.py %s" % i, "thorough_cmd": "VERIF_TIER=thorough python3 run.py %s" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": t, "level": LV.get(i, "model_checking"), "level_note": NOTE.get(i, n)})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
