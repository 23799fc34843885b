#!/usr/bin/env python3-vt
"""check.py <property id> [--replay FILE]: decide one property for /repo's current working tree.

1. /repo is mirrored (mechanical Python 2 -> 3 translation) into a scratch directory.
2. Deductive step (contracts/<id>.py): the real functions are executed symbolically under their preconditions and every
   obligation (postcondition, precondition of callee, index in range, no exception) is discharged by the provers.
3. Run-time step (runtime/<id>.py, real CPython + real numpy): the same contracts are evaluated on concrete inputs.  It
   cross-checks the trusted models, replays refuted obligations on the real code, and stands in (bounded, never
   counted as proved) for what the deductive step does not reach.
4. Known findings are filtered, the evidence file is written, the verdict printed.
"""
import hashlib, importlib, json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
PY = "/opt/venv/bin/python"


def load_json(p, default):
    try:
        with open(p) as f: return json.load(f)
    except (OSError, ValueError):
        return default


CRASH = {-4: "SIGILL", -6: "SIGABRT", -7: "SIGBUS", -8: "SIGFPE", -11: "SIGSEGV"}


def runtime_step(pid, tree, seed, tier, budget, replay=None, hints=None):
    if not os.path.exists(os.path.join(VERIF, "runtime", pid + ".py")): return None
    out = os.path.join(tree, "runtime_out.json")
    cmd = [PY, "-W", "ignore", os.path.join(VERIF, "runtime", "run.py"), pid, "--tree", tree, "--out", out, "--seed", str(seed),
           "--tier", tier, "--budget", str(budget)]
    if replay: cmd += ["--replay", replay]
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    env.pop("PYTHONPATH", None)
    log = open(os.path.join(tree, "runtime.log"), "wb")
    for attempt in (1, 2):
        try:
            p = subprocess.run(cmd, stdout=log, stderr=subprocess.STDOUT, env=env, timeout=budget * 2 + 200, cwd=tree)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = "timeout"
        if rc not in CRASH: break
    r = load_json(out, None)
    last = load_json(out + ".case", None)
    if r is None and rc in CRASH and last is not None:
        # twice in a row the process was ended by a fault of its own: the code under test damaged its memory
        r = last["res"]
        r["evaluations"] += 1
        r["failures"].append({"key": "%s:process ends with %s" % (pid, CRASH[rc]), "message": "the interpreter running the code under test was ended by %s while it evaluated this case" % CRASH[rc], "payload": last["payload"]})
    if r is None:
        with open(os.path.join(tree, "runtime.log"), "rb") as f: tail = f.read()[-3000:].decode("utf-8", "replace")
        r = {"evaluations": 0, "distinct_nontrivial": 0, "samples": [], "failures": [], "rule": "", "error": "runtime step ended with %s" % rc, "log": tail}
    return r


def main():
    pid = sys.argv[1]
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv: tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tree = tempfile.mkdtemp(prefix="verif_%s_" % pid)
    try:
        return decide(pid, tree, seed, tier, t0, replay)
    finally:
        shutil.rmtree(tree, ignore_errors=True)


def decide(pid, tree, seed, tier, t0, replay):
    from pyvc import loader
    meta = load_json(os.path.join(VERIF, "MANIFEST.json"), {})
    level = next((c["level"] for c in meta.get("checks", []) if c["property"] == pid), "proof")
    known = [k for k in load_json(os.path.join(VERIF, "known_findings.json"), {"findings": []})["findings"] if k["property"] == pid]
    errs = loader.mirror(tree)
    if replay:
        r = runtime_step(pid, tree, seed, tier, 60, replay=os.path.abspath(replay))
        print(json.dumps(r, indent=1))
        return 1 if r["failures"] else 0
    # --- deductive step -----------------------------------------------------------------------------------------------
    harnesses, ded, ded_err, mod = [], [], None, None
    if os.path.exists(os.path.join(VERIF, "contracts", pid + ".py")):
        from pyvc import run
        try:
            mod = importlib.import_module("contracts." + pid)
            harnesses = mod.harnesses(tree, tier)
            ded = run.run_all(harnesses, limit=420 if tier == "quick" else None)
        except Exception as e:
            import traceback
            ded_err = traceback.format_exc()[-3000:]
    obligations = [o for h in ded for o in h["obligations"] if o["status"] != "known"]
    ded_known = [o for h in ded for o in h["obligations"] if o["status"] == "known"]
    valid = [o for o in obligations if o["status"] == "valid"]
    refuted = [o for o in obligations if o["status"] == "refuted"]
    undecided = [o for o in obligations if o["status"] not in ("valid", "refuted")]
    unsupported = [{"harness": h["harness"], "reason": h["error"], "trace": h.get("trace", "")} for h in ded if h["error"]]
    # --- run-time contract step ------------------------------------------------------------------------------------------
    budget = float(os.environ.get("VERIF_BUDGET", 0)) or (40 if tier == "quick" else 400)
    rt = runtime_step(pid, tree, seed, tier, budget)
    # --- verdict ----------------------------------------------------------------------------------------------------------
    viol, kfs = [], {}
    keys = {k["key"]: k for k in known if k.get("status", "finding") == "finding"}
    for f in (rt["failures"] if rt else []):
        k = keys.get(f["key"])
        if k: kfs[k["key"]] = k
        else: viol.append(f)
    ref_new = []
    for o in ded_known:          # an obligation that equals a recorded finding exactly (decided by the contract, e.g. C15)
        k = next((keys[q] for q in keys if any(o["name"].endswith(x) for x in keys[q].get("obligations", []))), None)
        if k: kfs[k["key"]] = k
        else: ref_new.append(o)
    for o in refuted:
        k = keys.get(o["name"]) or next((keys[q] for q in keys if keys[q].get("obligations") and o["name"] in keys[q]["obligations"]), None)
        if k: kfs[k["key"]] = k
        else: ref_new.append(o)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "wall_s": 0, "violations": 0}
    backends, by_backend_t = {}, {}
    for o in valid:
        backends[o["backend"] or "trivial"] = backends.get(o["backend"] or "trivial", 0) + 1
    cov = {"checker_cmd": "python3-vt check.py %s  (provers: ring normal form, z3, cvc5; see DESIGN.md)" % pid}
    if ded or ded_err:
        fu = {}
        for h in ded:
            ok = h["obligations"] and not h["error"] and all(o["status"] == "valid" for o in h["obligations"])
            for f in h["functions"]: fu.setdefault(f, []).append(bool(ok))
        cov.update({
            "obligations": len(obligations), "discharged": len(valid),
            "functions_under_contract": {f: ("all obligations discharged" if all(v) else "not fully discharged") for f, v in sorted(fu.items())},
            "discharged_by_back_end": backends,
            "solver_time_s": {k: round(sum(h["stats"].get(k, 0) for h in ded), 2) for k in ("z3_time", "cvc5_time")},
            "solver_calls": {k: sum(h["stats"].get(k, 0) for h in ded) for k in ("z3_calls", "cvc5_calls")},
            "harnesses": [{"name": h["harness"], "paths": h["paths"], "obligations": len(h["obligations"]),
                           "discharged": sum(o["status"] == "valid" for o in h["obligations"]), "secs": h["secs"],
                           "structure_bound": h["structure"] or "none", "uses_contracts_of": h["uses"], "error": h["error"]} for h in ded],
            "undischarged": [o["name"] for o in undecided][:60], "refuted": [o["name"] for o in refuted][:60],
            "unsupported": [{k: u[k] for k in ("harness", "reason")} for u in unsupported], "engine_error": ded_err,
        })
        cov["explanation"] = ("%d of %d proof obligations of %d functions discharged for all lengths and contents, over %d structures (harnesses[].structure_bound)"
                              % (len(valid), len(obligations), len(fu), len(set(h["structure"] or "none" for h in ded))))
        cov["trusted_base"] = TRUSTED + list(getattr(mod, "TRUSTED", []))
    if rt:
        cov.update({"evaluations": rt["evaluations"], "distinct_nontrivial": rt["distinct_nontrivial"], "rule": rt["rule"],
                    "samples": rt["samples"][:4] or ["none"], "runtime_error": rt.get("error"), "cases_without_verdict": len(rt.get("harness_errors") or []),
                    "runtime_scope": "bounded run-time contract evaluation on the real code: cross-check of the models, replay, and stand-in for undischarged obligations; not counted as proved"})
    cov["known_findings_seen"] = sorted(kfs)
    if errs: cov["untranslatable_files"] = errs
    ev["coverage"] = cov
    ev["assumptions"] = ASSUMPTIONS + list(getattr(mod, "ASSUMPTIONS", []) if mod else []) + ((rt or {}).get("assumptions") or [])
    lines, code = [], 0
    for k in sorted(kfs): print("KNOWN-FINDING: property=%s %s" % (pid, kfs[k]["what"]))
    rdir = os.path.join(VERIF, "evidence")
    rp = os.path.join(rdir, "replay_%s.json" % pid)
    if os.path.exists(rp): os.remove(rp)
    if viol:
        f = viol[0]
        with open(rp, "w") as g:
            json.dump({"property": pid, "failures": viol[:20], "payload": f["payload"], "failed_obligations": ref_new[:10] + undecided[:10],
                       "how": "python3-vt %s/check.py %s --replay <this file>" % (VERIF, pid)}, g, indent=1, default=str)
        for f in viol[:10]: print("FAILED contract %s: %s" % (f["key"], str(f["message"])[:600]))
        for o in ref_new[:10]: print("FAILED obligation %s" % o["name"])
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        code = 1
    elif ref_new:
        with open(rp, "w") as g:
            json.dump({"property": pid, "failed_obligations": ref_new[:20], "solver_output": [o["detail"] for o in ref_new[:20]]}, g, indent=1, default=str)
        for o in ref_new[:10]: print("FAILED obligation %s: %s" % (o["name"], json.dumps(o["detail"], default=str)[:900]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rp))
        code = 1
    ev["violations"] = len(viol) or len(ref_new)
    ev["wall_s"] = round(time.time() - t0, 2)
    with open(os.path.join(rdir, pid + ".json"), "w") as g: json.dump(ev, g, indent=1, default=str)
    print("%s: %d obligations, %d discharged, %d refuted, %d undecided, %d harnesses unsupported; run-time: %s evaluations, %d failures; %.1f s"
          % (pid, len(obligations), len(valid), len(refuted), len(undecided), len(unsupported), rt and rt["evaluations"], len(rt["failures"]) if rt else 0, ev["wall_s"]))
    for u in unsupported: print("  bounded only: %s: %s" % (u["harness"], u["reason"][:300]))
    for o in undecided[:8]: print("  undecided: %s %s" % (o["name"], json.dumps(o["detail"], default=str)[:300]))
    if ded_err: print("  deductive step unavailable: " + ded_err[-800:])
    for e in sorted(set((rt or {}).get("harness_errors") or []))[:2]: print("  run-time case without verdict: " + e[-600:])
    if rt and rt.get("error"): print("  run-time step: %s\n%s" % (rt["error"], rt.get("log", "")[-1500:]))
    if "--debug" in sys.argv:
        for u in unsupported: print(u["harness"], u["trace"][-700:])
    # nothing explored at all is not a pass
    if code == 0 and not obligations and not (rt and rt["evaluations"]):
        print("ERROR: nothing was checked")
        return 3
    return code


TRUSTED = [
    "the verifier itself (/verif/pyvc): symbolic execution by re-execution under CPython, ring normal form, ite elimination",
    "z3 5.3 and cvc5 1.1.2",
    "lib2to3 translation (the translation the build itself applies)",
    "contract models of the numpy / container operations used (pyvc/npmodel.py, pyvc/arr.py), compared with real numpy by pyvc/selftest.py",
]
ASSUMPTIONS = [
    "machine floats are treated as reals and machine integers as unbounded integers",
    "exp, cos, sqrt are uninterpreted up to their derivative rules and sqrt(u)^2 = u",
    "divisions are considered on the domain where the denominators are non-zero",
]

if __name__ == "__main__":
    sys.exit(main())
