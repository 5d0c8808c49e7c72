#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props_text.py and vlib/registry.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, V + "/tools"]
import props_text
from vlib import registry
NA = getattr(props_text, "NA", {})
ids = sorted(props_text.P)
with open(V + "/properties.jsonl", "w") as f:
    for i in ids:
        f.write(json.dumps(props_text.P[i]) + "\n")
missing = [i for i in ids if i not in registry.PROPS and i not in NA]
extra = [i for i in registry.PROPS if i not in props_text.P]
assert not missing and not extra, (missing, extra)
NOTE = "Symbolic execution of clang-18 -O0-style IR of the real sources%s: every path within the stated bounds, each assertion decided by Z3 for all symbolic values on the path; counterexamples replayed natively (gcc, ASan) before being reported. Trusts the executor, its C and C++ library models, clang and Z3. %s"
man = {"version": 1, "setup_cmd": "python3 tools/setup.py",
       "checks": [{"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                   "technique": "symbolic execution of LLVM IR with Z3, bounded; native replay", "level": "model_checking",
                   "level_note": NOTE % (" and of the mocks EasyMockGenerate writes" if any(h.gen for h in registry.PROPS[i]["harnesses"]) else "", registry.PROPS[i]["note"])}
                  for i in ids if i in registry.PROPS],
       "not_applicable": [{"property": i, "reason": NA[i]} for i in ids if i in NA],
       "notes": "DESIGN.md describes the engine, the harnesses, the bounds and the findings."}
for c in man["checks"]:
    c["level_note"] = c["level_note"].strip()
json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
ORACLE = props_text.ORACLE
o = open(V + "/tools/design_head.md").read()
for i in ids:
    if i in NA:
        o += "### %s %s\n\nNot applicable: %s\n\n" % (i, props_text.P[i]["title"], NA[i])
        continue
    o += "### %s %s\n\n%s\n\n" % (i, props_text.P[i]["title"], ORACLE[i])
    for h in registry.PROPS[i]["harnesses"]:
        o += "* `%s` (%s): %s\n" % (h.name, h.src, h.bounds)
    o += "\n"
fs = json.load(open(V + "/known_findings.json"))
o += open(V + "/tools/design_tail.md").read()
o += "## Findings\n\nDefects the checks (or writing them) showed in the tree as it was; all repaired by a `fix:` commit unless said otherwise (`known_findings.json`).\n\n"
for f in fs:
    o += "* %s %s (harness %s)\n" % (f["id"], f["what"], f["harness"])
o += "\n" + open(V + "/tools/design_seeds.md").read()
open(V + "/DESIGN.md", "w").write(o)
print(len(man["checks"]), "checks,", len(man["not_applicable"]), "not applicable")
