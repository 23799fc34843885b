"""mkseed(id, prop, path, edits, demo, needs, breaks): write /verif/seeded/<id> from (old, new) edits of one file of /repo.

Development tool: the patch is made in a scratch git worktree of /repo.  seedtest.py confirms the seed."""
import json, os, shutil, subprocess, tempfile
DEMO_SH = """#!/bin/bash
# cwd: /repo after the build; exit 0 on the unchanged tree
here="$(cd "$(dirname "$0")" && pwd)"
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
cp -a /opt/harmonisation-build "$work/tree" 2>/dev/null
cd "$work" && DEMO_TREE="$work/tree" PYTHONDONTWRITEBYTECODE=1 timeout 280 /opt/venv/bin/python -W ignore "$here/demo.py"
"""
PRE = '''import os, sys, types
TREE = os.environ.get("DEMO_TREE", "/opt/harmonisation-build")
sys.path[:0] = [TREE + "/harmonisation_eiv", TREE + "/tools"]
_m = types.ModuleType("pyximport"); _m.install = lambda *a, **k: None; sys.modules["pyximport"] = _m
import numpy as np
np.seterr(all="ignore")
'''
LIB = '''sys.argv = ["demo"]; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import random, datetime
from demolib import boot, gen, gn_rt, rd
boot.TREE = TREE; boot.compile_pyx = lambda *a: None
'''


def mkseed(id, prop, edits, demo, needs, breaks, files=(), lib=False, more=()):
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="seedwt_")
    subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", w + "/r", "HEAD"])
    try:
        for path, old, new in edits:
            p = os.path.join(w, "r", path)
            s = open(p, encoding="utf-8", newline="").read()
            if "\r\n" in s: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            assert s.count(old) == 1, (id, path, s.count(old))
            open(p, "w", encoding="utf-8", newline="").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", w + "/r", "diff"])
    finally:
        subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", w + "/r"])
        shutil.rmtree(w, ignore_errors=True)
    assert diff
    open(d + "/patch.diff", "wb").write(diff)
    open(d + "/demo.sh", "w").write(DEMO_SH)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.py", "w").write(PRE + (LIB if lib else "") + demo)
    shutil.rmtree(d + "/lib", ignore_errors=True)
    if lib:
        os.makedirs(d + "/lib/demolib")
        for f in ("__init__", "boot", "gen", "gn_rt", "rd") + tuple(more):
            t = open("/verif/runtime/%s.py" % f).read().replace("from runtime", "from demolib")
            open(d + "/lib/demolib/%s.py" % f, "w").write(t)
    for f in files: shutil.copy(f, d)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
