#!/usr/bin/env python3
"""DESIGN.md = design_head.md + design_scope.md + defects (KNOWN_FINDINGS.txt) + planted bugs (seeded/*/meta.json, seeds.json)."""
import json, os, re
V = "/verif/"
T = V + "tools/"
out = open(T + "design_head.md").read().rstrip() + "\n\n" + open(T + "design_scope.md").read().rstrip() + "\n\n"
fixed, find = [], []
for l in open(V + "KNOWN_FINDINGS.txt"):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m: fixed.append(m.groups())
    m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
    if m: find.append(m.groups())
out += "## Genuine defects found and repaired (%d)\n\nEach is one `fix:` commit in /repo; the checks report it again when it returns.\n\n| property | commit | what failed |\n|---|---|---|\n" % len(fixed)
for p, c, w in fixed: out += "| %s | %s | %s |\n" % (p, c, w.replace("|", "\\|"))
out += "\nThe BoxQP defect 6a68805: H of condition 7e5, the solution on a bound which the iterates approach by ever shorter\nsteps (each backtracked by the free step's length), until the iteration limit ends the solve away from the minimizer.\n"
out += "\nRecorded, not repaired:\n\n"
for p, k, w in find: out += "* %s `%s`: %s\n" % (p, k, w)
out += "\n" + open(T + "design_false.md").read().rstrip() + "\n"
res = json.load(open(T + "seeds.json")) if os.path.exists(T + "seeds.json") else {}
out += "\n## Planted bugs\n\nEach was confirmed in a scratch copy (`tools/tryseed.py`): builds, stable tests pass, demo fails only with it.\n\n| bug | needs | breaks | caught by |\n|---|---|---|---|\n"
for i in sorted(os.listdir(V + "seeded")):
    m = json.load(open(V + "seeded/%s/meta.json" % i))
    out += "| %s | %s | %s | %s |\n" % (i, m["needs"].replace("|", "\\|"), m["what_it_breaks"].replace("|", "\\|"), res.get(i, "not yet run"))
out += "\n" + open(T + "design_mut.md").read().rstrip() + "\n"
open(V + "DESIGN.md", "w").write(out)
