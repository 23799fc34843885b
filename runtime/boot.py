"""Environment in which the mirrored real code runs (CPython, real numpy / netCDF4) for the run-time contract step."""
import os, random, sys, types, warnings

TREE = None


class HarnessError(Exception):
    """The harness itself could not set the case up."""


def setup(tree):
    global TREE
    TREE = tree
    warnings.simplefilter("ignore")
    sys.path[:0] = [os.path.join(tree, "harmonisation_eiv"), os.path.join(tree, "tools")]
    import numpy
    numpy.seterr(all="ignore")
    m = types.ModuleType("pyximport")
    m.install = lambda *a, **k: None
    sys.modules["pyximport"] = m


def inject():
    """The package's own __init__ has these imports commented out; the modules import them from the package."""
    import harmonisation as H
    P = "harmonisation.core.matchup."
    import importlib
    def get(mod, names):
        try: m = importlib.import_module(mod)
        except ImportError: return
        for n in names:
            if hasattr(m, n): setattr(H, n, getattr(m, n))
    get(P + "matchupToolbox.utils.matchup_maths", ["evaluate_measurand", "evaluate_adjusted_measurand", "evaluate_K"])
    get(P + "matchupProcessing.transform2normind.Transform2NormInd", ["Transform2NormInd"])
    get(P + "matchupProcessing.simulate_matchup.SimulateMatchUp", ["SimulateMatchUp"])
    get(P + "matchupToolbox.harmonisation.harmonisationIO.HarmonisationResult", ["HarmonisationResult"])
    return H


def compile_pyx(rel, name):
    """Build one Cython module of the mirrored tree in place (scratch), return it or None."""
    import subprocess
    path = os.path.join(TREE, rel)
    if not os.path.exists(path): return None
    d, f = os.path.split(path)
    setup = os.path.join(TREE, "setup_%s.py" % name)
    with open(setup, "w") as g:
        g.write("from setuptools import setup, Extension\nfrom Cython.Build import cythonize\nimport numpy\n"
                "setup(name='x', script_args=['build_ext','--inplace'], ext_modules=cythonize([Extension(%r,[%r],include_dirs=[numpy.get_include()])],"
                "language_level=2), zip_safe=False)\n" % (name, f))
    p = subprocess.run([sys.executable, "-W", "ignore", setup], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode: raise HarnessError("cython build of %s failed: %s" % (rel, p.stdout[-800:].decode("utf-8", "replace")))
    return path
