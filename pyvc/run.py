"""Run the harnesses of one contracts module in parallel worker processes and collect obligations."""
import multiprocessing, os, signal, sys, time, traceback
from . import ctx, smt, terms as T


class TimeUp(T.Unsupported):
    pass


def _alarm(*a):
    raise TimeUp("time limit of the harness reached")


class Harness(object):
    """One function (or lemma) under contract.

    fn(c): builds symbolic inputs under the precondition, runs the real function, states the postcondition through
    c.oblige.  `functions`: the real functions whose bodies are executed; `uses`: contracts assumed at call sites.
    `structure`: textual bound on structure, '' when none."""

    def __init__(self, name, fn, functions=(), uses=(), structure="", timeout=200, max_paths=400, solver_timeout=4000):
        self.name, self.fn, self.functions, self.uses = name, fn, list(functions), list(uses)
        self.structure, self.timeout, self.max_paths, self.solver_timeout = structure, timeout, max_paths, solver_timeout


def run_one(h):
    signal.signal(signal.SIGALRM, _alarm)
    t0 = time.time()
    left = _END[0] - t0 if _END[0] else h.timeout
    signal.alarm(max(5, int(min(h.timeout, left))))
    sys.setrecursionlimit(20000)
    for k in smt.STATS: smt.STATS[k] = 0
    sink = []
    out = {"harness": h.name, "functions": h.functions, "uses": h.uses, "structure": h.structure, "obligations": [],
           "paths": 0, "error": None, "notes": []}
    try:
        if left < 2: raise TimeUp("time limit of the check reached")
        obs, out["paths"] = ctx.explore(h.name, h.fn, ctx.Prover(h.solver_timeout), h.max_paths, out["notes"], sink)
    except T.Unsupported as e:
        out["error"] = "unsupported: %s" % e
        out["trace"] = traceback.format_exc()[-1500:]
    except ctx.CodeError as e:
        out["error"] = "code-exception: %s" % e
        out["trace"] = e.trace[-1500:]
    except Exception as e:
        out["error"] = "engine: %s: %s" % (type(e).__name__, e)
        out["trace"] = traceback.format_exc()[-2500:]
    finally:
        signal.alarm(0)
    out["obligations"] = [{"name": o.name, "status": o.status, "backend": o.backend, "detail": o.detail, "secs": round(o.secs, 3)} for o in sink]
    out["secs"] = round(time.time() - t0, 2)
    out["stats"] = dict(smt.STATS)
    return out


_H = []
_END = [0]


def _go(i):
    return run_one(_H[i])


def run_all(hs, workers=8, limit=None):
    """limit: wall-clock seconds for all harnesses together; what is not reached is reported as unsupported."""
    global _H
    _H = hs
    _END[0] = time.time() + limit if limit else 0
    if not hs: return []
    if len(hs) == 1 or workers == 1: return [run_one(h) for h in hs]
    c = multiprocessing.get_context("fork")
    with c.Pool(min(workers, len(hs)), maxtasksperchild=4) as p:
        return p.map(_go, range(len(hs)), chunksize=1)
