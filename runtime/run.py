"""Run-time contract step: evaluates the contracts of one property on concrete inputs against the real (mirrored) code."""
import argparse, importlib, json, os, random, signal, sys, time, traceback

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)


class TimeUp(BaseException):
    pass


def _alarm(*a):
    raise TimeUp()


def main():
    signal.signal(signal.SIGALRM, _alarm)
    a = argparse.ArgumentParser()
    a.add_argument("pid")
    for n in ("tree", "out", "replay"): a.add_argument("--" + n)
    a.add_argument("--seed", type=int, default=1)
    a.add_argument("--tier", default="quick")
    a.add_argument("--budget", type=float, default=40)
    o = a.parse_args()
    sys.argv = ["runtime"]   # some tools parse the command line when imported
    from runtime import boot
    boot.setup(o.tree)
    mod = importlib.import_module("runtime." + o.pid)
    t0 = time.time()
    res = {"evaluations": 0, "distinct_nontrivial": 0, "samples": [], "failures": [], "rule": mod.RULE, "assumptions": getattr(mod, "ASSUMPTIONS", [])}
    seen, keys = set(), {}
    if o.replay:
        with open(o.replay) as f: cases = [json.load(f)["payload"]]
    else:
        cases = mod.cases(random.Random(o.seed), o.tier)
    for p in cases:
        if time.time() - t0 > o.budget and res["evaluations"] >= getattr(mod, "MIN_CASES", 1): break
        signal.alarm(90)
        with open(o.out + ".case", "w") as f: json.dump({"payload": p, "res": res}, f, default=str)      # what was running, should the process die
        try:
            fails = mod.check(p)
        except boot.HarnessError as e:
            res.setdefault("harness_errors", []).append(str(e)[:300])
            continue
        except TimeUp:
            fails = [(o.pid + ":no answer", "no answer within 90 s on this input")]
        except (Exception, SystemExit) as e:
            # raised inside the code under test: a failure; raised in the harness itself: no verdict from this case
            tb = traceback.extract_tb(e.__traceback__)
            inside = [f for f in tb if f.filename.startswith(os.path.realpath(o.tree)) or f.filename.startswith(o.tree)]
            # a public attribute missing from an object the code under test made: its interface, not the harness
            own = isinstance(e, AttributeError) and not isinstance(e.obj, (type, type(sys))) and not str(e.name).startswith("_") and \
                str(getattr(sys.modules.get(type(e.obj).__module__), "__file__", "")).startswith((o.tree, os.path.realpath(o.tree)))
            if own and not inside: fails = [("%s:no attribute %s" % (o.pid, e.name), str(e))]
            elif not inside and (isinstance(e, (ValueError, IndexError, KeyError)) or isinstance(e, TypeError) and "argument" not in str(e)):
                # comparing the result with its definition failed: misshapen, unreadable or out-of-range output
                at = traceback.extract_tb(e.__traceback__)[-1]
                fails = [("%s:result cannot be compared (%s)" % (o.pid, type(e).__name__), "%s: %s (%s:%s)" % (type(e).__name__, e, os.path.basename(at.filename), at.lineno))]
            elif not inside:
                res.setdefault("harness_errors", []).append(traceback.format_exc()[-700:])
                continue
            if inside: f = inside[-1]
            if inside: fails = [("%s:raises %s in %s" % (o.pid, type(e).__name__, f.name), "%s: %s (%s:%s)" % (type(e).__name__, e, os.path.basename(f.filename), f.lineno))]
        finally:
            signal.alarm(0)
        res["evaluations"] += 1
        k = json.dumps(p, sort_keys=True, default=str)
        if k not in seen:
            seen.add(k)
            if mod.nontrivial(p) if hasattr(mod, "nontrivial") else True: res["distinct_nontrivial"] += 1
        if len(res["samples"]) < 4: res["samples"].append(p)
        for key, msg in fails:
            if keys.setdefault(key, 0) < 2:
                res["failures"].append({"key": key, "message": str(msg)[:1500], "payload": p})
            keys[key] += 1
        if len(keys) > 60: break
    res["failure_counts"] = keys
    res["wall_s"] = time.time() - t0
    with open(o.out, "w") as f: json.dump(res, f, default=str)


if __name__ == "__main__":
    main()
