#!/usr/bin/env python3
"""seedtest.py ID...: confirm seeds on /repo (apply, build, stable tests, demo, check, undo).  --fast: no stable tests."""
import json, os, subprocess, sys
base = json.load(open("/opt/vp/BASELINE.json"))
def stable():
    b = base
    for k in ("stable", "stable_tests", "passed", "tests"):
        if isinstance(b, dict) and k in b: return b[k]
    return b
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
fast = "--fast" in sys.argv; nocheck = "--nocheck" in sys.argv
for i in [a for a in sys.argv[1:] if not a.startswith("--")]:
    d = "/verif/seeded/" + i
    meta = json.load(open(d + "/meta.json"))
    assert not sh("git -C /repo status --porcelain").stdout
    sh("bash /opt/vp/build.sh")
    r0 = sh("bash %s/demo.sh" % d, cwd="/repo").returncode
    a = sh("git -C /repo apply %s/patch.diff" % d)
    res = {"id": i, "property": meta["property"], "demo_clean": r0, "apply": a.returncode}
    try:
        res["build"] = sh("bash /opt/vp/build.sh").returncode
        dm = sh("bash %s/demo.sh" % d, cwd="/repo"); res["demo_patched"] = dm.returncode
        res["demo_out"] = dm.stdout.decode()[-200:]
        if not nocheck:
            c = sh("python3-vt /verif/check.py %s" % meta["property"], cwd="/verif", env=dict(os.environ, VERIF_SEED="1"))
            res["check"] = c.returncode; res["line"] = [l[:200] for l in c.stdout.decode().splitlines() if l.startswith(("VIOL", "FAILED", meta["property"]))][-4:]
        if not fast:
            sh("bash /opt/vp/test.sh /tmp/seedtest.json")
            t = json.load(open("/tmp/seedtest.json"))
            fl = t.get("failed", []); ps = set(t.get("passed", []))
            res["stable_missing"] = [x for x in stable() if x not in ps][:5]
    finally:
        sh("git -C /repo checkout -- .")
    ok = r0 == 0 and res["demo_patched"] != 0 and res.get("check", 1) == 1 and not res.get("stable_missing")
    print("OK" if ok else "PROBLEM", json.dumps(res))
sh("bash /opt/vp/build.sh")
