#!/usr/bin/env python3
"""seed.py ID: validates a planted bug (patch applies, tests pass, demo 0 / non-zero) and runs the check of its property."""
import json, os, subprocess, sys
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def one(i, props=None, tests=True):
    d = f"/verif/seeded/{i}"
    meta = json.load(open(d + "/meta.json"))
    assert sh("git -C /repo status --porcelain").stdout == "", "repo dirty"
    a = sh(f"bash {d}/demo.sh", cwd="/repo")
    p = sh(f"git -C /repo apply {d}/patch.diff")
    if p.returncode: return print(i, "PATCH DOES NOT APPLY", p.stderr)
    try:
        t = "skipped"
        if tests:
            sh("bash /opt/vp/test.sh /tmp/seed_out.json")
            base = json.load(open("/opt/vp/BASELINE.json")); o = json.load(open("/tmp/seed_out.json"))
            bl = base.get("passed", base.get("stable", base)); 
            ok = set(o["passed"]); bad = [x for x in bl if x not in ok]
            t = "ok" if not bad else f"FAIL {bad[:5]}"
        b = sh(f"bash {d}/demo.sh", cwd="/repo")
        res = []
        for q in props or [meta["property"]]:
            c = sh(f"python3 /verif/check.py {q}", cwd="/verif")
            v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
            res.append((q, c.returncode, v))
        print(i, "tests", t, "demo clean", a.returncode, a.stdout[-200:] if a.returncode else "", "demo patched", b.returncode, "check", res, flush=True)
    finally:
        sh("git -C /repo checkout -- .")
tests = "--notests" not in sys.argv
args = [a for a in sys.argv[1:] if not a.startswith("--")]
for i in (sorted(os.listdir("/verif/seeded")) if args == ["all"] else args): one(i, tests=tests)
