#!/usr/bin/env python3
"""tryseed.py ID [--nocheck] [CHECK ...]: confirm a planted change in the scratch copy /tmp/seed/repo (builds, tests pass,
demo passes without it and fails with it) and run checks against it there."""
import json, os, subprocess, sys
S = "/verif/seeded/"
R = "/tmp/seed/repo"
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def build():
    r = sh("ninja -C _build", cwd=R)
    if r.returncode: print(r.stdout[-3000:])
    return r.returncode == 0
def tests():
    return all(sh("./%s" % t, cwd=R + "/_build").returncode == 0 for t in ("test_boxqp", "test_controls"))
def demo(i):
    r = sh("bash %s%s/demo.sh" % (S, i), cwd=R)
    print("   ", r.stdout.strip()[-300:])
    return r.returncode
i = sys.argv[1]
meta = json.load(open(S + i + "/meta.json"))
checks = [a for a in sys.argv[2:] if not a.startswith("-")] or [meta["property"]]
sh("git checkout -q . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", cwd=R)
clean_needed = "--full" in sys.argv
ok = build()
print("clean demo:", demo(i))
a = sh("git apply %s%s/patch.diff" % (S, i), cwd=R)
if a.returncode: print("patch does not apply", a.stdout); sys.exit(1)
if build():
    print("tests pass:", tests(), " patched demo:", demo(i))
    if "--nocheck" not in sys.argv:
        e = dict(os.environ, VERIF_REPO=R, VERIF_BUILD="/tmp/seed/vbuild", VERIF_SEED="1", VERIF_TIER="quick")
        got = []
        for c in checks:
            r = sh("python3 check.py %s" % c, cwd="/verif", env=e)
            print(c, "exit", r.returncode, [l[:300] for l in r.stdout.splitlines() if "VIOLATION" in l or l.startswith("  ")][:3], r.stdout.splitlines()[-1][:200] if r.stdout else "")
            if r.returncode not in (0, 1): print(r.stdout[-1500:])
            if r.returncode == 1 and "VIOLATION property=%s " % c in r.stdout: got.append(c)
        f = "/verif/tools/seeds.json"
        d = json.load(open(f)) if os.path.exists(f) else {}
        d[i] = ", ".join(got) or "missed"
        json.dump(d, open(f, "w"), indent=1, sort_keys=True)
sh("git checkout -q .", cwd=R)
