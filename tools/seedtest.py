#!/usr/bin/env python3
"""seedtest.py ID... [--nocheck] [--notest]: apply seeded/ID/patch.diff to /repo, run stable tests, demo, the property's check;
undo. Development tool only, used while strengthening the checks."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
base = json.load(open("/opt/vp/BASELINE.json"))
stable = base.get("stable") or base.get("passed") or base.get("tests") or base
ids = [a for a in sys.argv[1:] if not a.startswith("--")]
for i in ids:
    d = V + "/seeded/" + i
    prop = json.load(open(d + "/meta.json"))["property"]
    out = {}
    assert sh("git -C /repo status --porcelain").stdout == "", "dirty /repo"
    if "--notest" not in sys.argv:
        r = sh("cd /repo && bash %s/demo.sh" % d); out["demo_clean"] = r.returncode
        if r.returncode: print(r.stdout[-1500:])
    try:
        r = sh("git -C /repo apply %s/patch.diff" % d); assert r.returncode == 0, r.stdout
        if "--notest" not in sys.argv:
            r = sh("cd /repo && bash %s/demo.sh" % d); out["demo_bug"] = r.returncode; out["demo_out"] = r.stdout.strip()[-160:]
            r = sh("bash /opt/vp/build.sh"); out["build"] = r.returncode
            sh("rm -f /tmp/t.json; bash /opt/vp/test.sh /tmp/t.json")
            t = json.load(open("/tmp/t.json"))
            failed = t.get("failed")
            out["failed"] = failed if not failed or len(failed) < 4 else len(failed)
        if "--nocheck" not in sys.argv:
            t0 = time.time()
            props = [a[7:] for a in sys.argv if a.startswith("--prop=")] or [prop]
            for p in props:
                r = sh("cd %s && python3 check.py %s" % (V, p))
                out["check " + p] = (r.returncode, [l for l in r.stdout.splitlines() if "VIOLATION" in l or "ERROR" in l][:2] or r.stdout[-300:], "%.0fs" % (time.time() - t0))
    finally:
        sh("git -C /repo checkout -- .")
    print(i, prop, json.dumps(out), flush=True)
