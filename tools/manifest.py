#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from the list below (every property with a harness is claimed)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EXPLORE = ("stateless model checking of the real code: exhaustive exploration of all schedules within a "
           "deviation bound under a controlled scheduler, virtual clock and virtual network")
ENUM = "bounded exhaustive enumeration on the real code against a reference model"
CONC = ("Every execution of the listed closed scenarios with at most the reported number of deviations from "
        "the default schedule was run on the instrumented real code and judged. Trusts the source rewriter, the "
        "controlled runtime's model of Go channels/locks/timers/TCP, and the bound; says nothing about "
        "larger systems or more deviations.")
SEQ = ("Every case of the stated finite space was run on the real, unmodified code and compared with an independent "
       "reference. Says nothing beyond the stated bounds on sizes, depths and lengths.")
T = {
 "C01": ("exhaustive enumeration of bounded value trees and streams, encoded and decoded by the real codec against a reference equality", SEQ),
 "C02": ("exhaustive enumeration of byte strings over every code, truncations, fragmentations and I/O fault points on the real codec", SEQ),
 "C03": ("exhaustive enumeration of held values times accessors on the real code against a reference table", SEQ),
 "C16": ("exhaustive enumeration of bounded interface shapes: real generator run, output compiled and every proxy method executed", SEQ),
 "C19": ("explicit-state enumeration of all operation sequences to a depth over small universes, real set against a model set", SEQ),
}
checks = []
for i in range(1, 60):
    p = "C%02d" % i
    l = p.lower()
    if not any(os.path.exists(os.path.join(here, "mc", d, l, "main.go")) for d in ("h", "p")):
        continue
    tech, note = T.get(p, (EXPLORE, CONC))
    checks.append({"property": p, "quick_cmd": "./run.sh %s quick" % p, "thorough_cmd": "./run.sh %s thorough" % p,
                   "technique": tech, "level": "model_checking", "level_note": note})
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks: checks instrument a private copy of /repo's working tree", "source_commits": []},
     "checks": checks, "not_applicable": []}
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
have = {c["property"] for c in checks}
for i in ids:
    if i not in have:
        m["not_applicable"].append({"property": i, "reason": "machinery not built yet"})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
print(len(checks), "claimed,", len(m["not_applicable"]), "not")
