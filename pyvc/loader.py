"""Mirror /repo (mechanical Python 2 -> 3 translation, as /opt/vp does it) and load modules for verification.

`mirror()` translates with lib2to3; nothing is dropped.  `Program` executes the translated module source itself under
CPython with (a) third-party array/IO libraries replaced by contract models (pyvc.npmodel ...), (b) builtins that would
force concrete integers (len, int, range, ...) replaced by symbolic-aware versions, (c) loops and comprehensions over
symbolic-length sequences rewritten to the loop rule (pyvc.instrument).
"""
import ast, builtins, importlib, os, shutil, sys, types, warnings

warnings.simplefilter("ignore")
SKIP_DIRS = {"build", "__pycache__", ".pytest_cache", ".ipynb_checkpoints", ".git"}
SKIP_EXT = (".pyc", ".pyd", ".so", ".c", ".o")
REPO = os.environ.get("VERIF_REPO", "/repo")


def _translate(job):
    path, out = job
    from lib2to3 import refactor
    from lib2to3.fixes import fix_import

    def local_import(self, name):
        folder, name = os.path.dirname(self.filename), name.split(".", 1)[0]
        if not name or not os.path.exists(os.path.join(folder, "__init__.py")):
            return False
        return any(os.path.exists(os.path.join(folder, name + ext)) for ext in (".py", ".pyx", os.sep))

    fix_import.FixImport.probably_a_local_import = local_import
    global _tool
    if "_tool" not in globals():
        _tool = refactor.RefactoringTool(refactor.get_fixers_from_package("lib2to3.fixes"), {})
    with open(path, "rb") as f:
        text = f.read().decode("utf-8").replace("\r\n", "\n")
    err = None
    try:
        if text.strip():
            text = str(_tool.refactor_string(text if text.endswith("\n") else text + "\n", path))
        compile(text, path, "exec")
    except Exception as e:
        err = "%s: %s: %s" % (path, type(e).__name__, e)
        text = "raise SyntaxError(%r)\n" % err
    with open(out, "w", encoding="utf-8") as f:
        f.write(text)
    return err


def mirror(dst, names=("harmonisation_eiv/harmonisation", "tools"), src=None, data_ext=(".dat", ".pyx", ".h", ".txt")):
    src = src or REPO
    jobs = []
    for name in names:
        for folder, dirs, files in os.walk(os.path.join(src, name)):
            dirs[:] = sorted(d for d in dirs if d not in SKIP_DIRS)
            rel = os.path.relpath(folder, src)
            for f in sorted(files):
                if f.endswith(SKIP_EXT): continue
                out = os.path.join(dst, rel, f)
                if f.endswith(".py"):
                    os.makedirs(os.path.dirname(out), exist_ok=True)
                    jobs.append((os.path.join(folder, f), out))
                elif f.endswith(data_ext):
                    os.makedirs(os.path.dirname(out), exist_ok=True)
                    shutil.copyfile(os.path.join(folder, f), out)
    import multiprocessing
    with multiprocessing.Pool(min(8, os.cpu_count() or 1)) as p:
        errs = [e for e in p.map(_translate, jobs, chunksize=4) if e]
    return errs


# ---------------------------------------------------------------------------------------------------------------------
class _IntMeta(type):
    def __instancecheck__(cls, x):
        from .terms import Term
        return builtins.isinstance(x, builtins.int) or builtins.isinstance(x, Term) and x.sort == "I"

    def __eq__(cls, o): return o is cls or o is builtins.int
    def __hash__(cls): return hash(builtins.int)


class vint(builtins.int, metaclass=_IntMeta):
    """int(): truncation of a real, identity on symbolic integers."""
    def __new__(cls, x=0, *a):
        from .terms import Term, Unsupported, show
        from .arr import SArr
        from . import terms as T
        if isinstance(x, builtins.str) and hasattr(x, "__pyvc_number__"): x = x.__pyvc_number__()
        if isinstance(x, SArr):
            if x.ndim and all(isinstance(s, builtins.int) and s == 1 for s in x.shape): x = x.at(*[0] * x.ndim)
            elif x.ndim == 0: x = x.at()
            else: raise TypeError("only length-1 arrays can be converted to Python scalars")
        if isinstance(x, Term):
            if x.op == "const": return builtins.int(x.args[0])
            if x.sort == "I": return x
            if x.op == "toreal": return x.args[0]
            if T.is_integral(x): return T.to_int(x)
            return T.app("trunc", [x], "I")          # uninterpreted: a function of its argument
        return builtins.int(x, *a)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        from .terms import Term
        return builtins.isinstance(x, builtins.float) or builtins.isinstance(x, Term) and x.sort == "R"

    def __eq__(cls, o): return o is cls or o is builtins.float
    def __hash__(cls): return hash(builtins.float)


class vfloat(builtins.float, metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        from .terms import Term
        from . import terms as T
        from .arr import SArr
        if isinstance(x, builtins.str) and hasattr(x, "__pyvc_number__"): x = x.__pyvc_number__()
        if isinstance(x, SArr):
            if x.ndim == 0: x = x.at()
            elif all(isinstance(s, builtins.int) and s == 1 for s in x.shape): x = x.at(*[0] * x.ndim)
        if isinstance(x, Term): return T.toreal(x)
        return builtins.float(x)


def vlen(x):
    from .arr import SArr
    if isinstance(x, SArr): return x.shape[0]
    if hasattr(x, "__symlen__"): return x.__symlen__()
    return builtins.len(x)


def vrange(*a):
    from . import terms as T
    from .arr import dim
    b = [dim(x) for x in a]
    if all(isinstance(x, int) for x in b): return builtins.range(*b)
    lo, hi = (0, b[0]) if len(b) == 1 else b[:2]
    if len(b) == 3 and b[2] != 1: raise T.Unsupported("range with step")
    return SymRange(lo, hi)


class _ListMeta(type):
    def __instancecheck__(cls, x): return builtins.isinstance(x, builtins.list)
    def __eq__(cls, o): return o is cls or o is builtins.list
    def __hash__(cls): return hash(builtins.list)


class vlist(builtins.list, metaclass=_ListMeta):
    """list(): a copy; of a sequence of symbolic length, the sequence (which nothing can change)."""
    def __new__(cls, x=()):
        from . import instrument
        if isinstance(x, instrument.SymSeq) and instrument.sym_len(x) is not None: return x
        return builtins.list(x)


class SymRange(object):
    def __init__(self, lo, hi): self.lo, self.hi = lo, hi

    def __symlen__(self):
        from . import terms as T
        return T.lift(self.hi) - T.lift(self.lo)

    def __iter__(self):
        from . import terms as T, ctx
        n = T.lift(self.hi) - T.lift(self.lo)
        k = ctx.current().unique_int(n) if not T.is_const(n) else int(n.args[0])
        if k is None: raise T.Unsupported("loop over a symbolic range")
        for i in range(k): yield i + self.lo if not isinstance(self.lo, int) else i + self.lo

    def __pyvc_array__(self):
        from .npmodel import arange
        return arange(self.lo, self.hi)


def _zipseq(parts):
    from . import instrument, terms as T
    from .arr import same_dim
    ns = [instrument.sym_len(p) for p in parts]
    if not all(n is not None for n in ns): raise T.Unsupported("zip of symbolic and concrete sequences")
    if not all(same_dim(ns[0], n) for n in ns[1:]): raise T.Unsupported("zip of sequences of different symbolic lengths")
    return instrument.SymSeq(ns[0], lambda i: tuple(instrument.sym_elem(p, i) for p in parts))


def vzip(*a, **k):
    from . import instrument
    if any(instrument.sym_len(x) is not None for x in a): return _zipseq(a)
    return builtins.zip(*a, **k)


def venumerate(x, start=0):
    from . import instrument
    n = instrument.sym_len(x)
    if n is None: return builtins.enumerate(x, start)
    return instrument.SymSeq(n, lambda i: (i + start, instrument.sym_elem(x, i)))


def _seq(x):
    return list(x)


def vmin(*a, **k): return _vext(builtins.min, "min", *a, **k)
def vmax(*a, **k): return _vext(builtins.max, "max", *a, **k)


def _vext(real, name, *a, **k):
    from .arr import SArr
    from . import terms as T
    from . import npmodel
    if len(a) == 1:
        x = a[0]
        if isinstance(x, SArr) and (not isinstance(x.shape[0], int) or x.ndim != 1): return npmodel._extreme(name, x)
        xs = list(x)
        if k or not any(isinstance(v, T.Term) for v in xs): return real(xs, **k)
    else:
        xs = list(a)
        if k or not any(isinstance(v, T.Term) for v in xs): return real(*a, **k)
    if not xs: return real(xs)
    r = T.lift(xs[0])
    for v in xs[1:]:
        v = T.lift(v)
        r = T.ite(T.lt(v, r) if name == "min" else T.lt(r, v), v, r)
    return r


def vsum(x, start=0):
    from .arr import SArr
    from . import npmodel
    if isinstance(x, SArr): return npmodel.nsum(x) + start
    return builtins.sum(x, start)


def vabs(x): return abs(x)


def vround(x, *nd):
    from . import terms as T
    if not isinstance(x, T.Term): return builtins.round(x, *nd)
    if nd: raise T.Unsupported("round to digits")
    return x if x.sort == "I" else T.app("round", [x], "I")


def vbool(x=False):
    from .terms import Term, boolify
    return boolify(x) if isinstance(x, Term) else builtins.bool(x)


def vtype(*a):
    from .terms import Term
    if len(a) == 1:
        if isinstance(a[0], Term): return {"I": vint, "R": vfloat, "B": builtins.bool}[a[0].sort]
        t = builtins.type(a[0])
        return {builtins.int: vint, builtins.float: vfloat, builtins.list: vlist}.get(t, t)
    return builtins.type(*a)


class _Any(types.ModuleType):
    """Import stand-in for modules the verified functions do not call (plotting, pool, ...)."""
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        m = _Any(self.__name__ + "." + n)
        object.__setattr__(self, n, m)
        return m

    def __call__(self, *a, **k):
        from .terms import Unsupported
        raise Unsupported("call of unmodelled %s" % self.__name__)


REAL = {"sys", "os", "os.path", "math", "copy", "copyreg", "types", "datetime", "time", "itertools", "collections", "re", "random",
        "calendar", "io", "functools", "operator", "string", "glob", "csv", "json", "abc", "warnings", "imp", "argparse", "pickle",
        "shutil", "subprocess", "logging", "configparser", "enum", "struct", "bisect", "__future__"}


class Program(object):
    def __init__(self, tree, models=None, inject=None, transform=None):
        """tree: mirrored tree; models: {module name: model module}; inject: {repo module: {name: object}}."""
        from . import npmodel
        self.tree = tree
        self.roots = [os.path.join(tree, "harmonisation_eiv"), os.path.join(tree, "tools")]
        np = npmodel.module()
        self.np = np
        self.models = {"numpy": np, "numpy.linalg": np.linalg}
        self.models.update(models or {})
        self.inject = inject or {}
        self.mods = {}
        self.loops = {}             # declared loop invariants by loop name (instrument.Declared)
        self.loaded_files = []
        b = dict(vars(builtins))
        b.update(list=vlist, len=vlen, range=vrange, int=vint, float=vfloat, min=vmin, max=vmax, sum=vsum, round=vround, bool=vbool, type=vtype, zip=vzip, enumerate=venumerate,
                 __import__=self._import, print=lambda *a, **k: None)
        self.builtins = b
        from . import instrument
        b.update(__pyvc_listcomp__=instrument.listcomp, __pyvc_loop__=lambda *a: instrument.Loop(*a, specs=self.loops), __pyvc_while__=lambda key, carried: instrument.While(key, carried, self.loops),
                 __pyvc_locals__=lambda: dict(sys._getframe(1).f_locals), __pyvc_quant__=instrument.quantifier, __pyvc_is__=instrument.is_bool_const, __pyvc_append__=instrument.append, __pyvc_guard__=instrument.guard)
        self.transform = transform or instrument.transform

    def _file(self, name):
        rel = name.replace(".", "/")
        for r in self.roots:
            for p in (os.path.join(r, rel + ".py"), os.path.join(r, rel, "__init__.py"), os.path.join(r, rel + ".pyx")):
                if os.path.exists(p): return p
        return None

    def load(self, name):
        if name in self.mods: return self.mods[name]
        if name in self.models: return self.models[name]
        path = self._file(name)
        if path is None: raise ImportError("No module named " + name)
        m = types.ModuleType(name)
        m.__file__ = path
        if path.endswith("__init__.py"): m.__path__ = [os.path.dirname(path)]
        m.__package__ = name if path.endswith("__init__.py") else name.rpartition(".")[0]
        m.__dict__["__builtins__"] = self.builtins
        self.mods[name] = m
        m.__dict__.update(self.inject.get(name, {}))
        with open(path, encoding="utf-8") as f: src = f.read()
        if path.endswith(".pyx"):
            from . import cyx
            src = cyx.translate(src, path)
        tree = ast.parse(src, path)
        if self.transform: tree = self.transform(tree, name)
        self.loaded_files.append(path)
        try:
            exec(compile(tree, path, "exec"), m.__dict__)
        except Exception:
            del self.mods[name]
            raise
        m.__dict__.update(self.inject.get(name, {}))
        par, _, leaf = name.rpartition(".")
        if par and par in self.mods: setattr(self.mods[par], leaf, m)
        return m

    def load_path(self, path):
        """Load tools/x.py style scripts by path relative to the tree."""
        p = os.path.join(self.tree, path)
        d = os.path.dirname(p)
        if d not in self.roots: self.roots.append(d)
        argv, sys.argv = sys.argv, [p]            # some scripts parse the command line when they are imported
        try: return self.load(os.path.splitext(os.path.basename(p))[0])
        except SystemExit as e: raise ImportError("the script ends while it is imported: %s" % e)
        finally: sys.argv = argv

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"]
            for _ in range(level - 1): pkg = pkg.rpartition(".")[0]
            name = pkg + ("." + name if name else "")
        if name in self.models or name.split(".")[0] in self.models and name in self.models:
            return self.models[name] if fromlist or "." not in name else self.models[name.split(".")[0]]
        if self._file(name):
            m = None
            parts = name.split(".")
            for i in range(1, len(parts) + 1):
                if self._file(".".join(parts[:i])): m = self.load(".".join(parts[:i]))
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(m, f):
                        sub = name + "." + f
                        if sub in self.models: setattr(m, f, self.models[sub])
                        elif self._file(sub): setattr(m, f, self.load(sub))
                        elif f not in m.__dict__ : setattr(m, f, _Any(sub))
                return m
            return self.load(parts[0])
        if name in REAL or name.split(".")[0] in REAL:
            return builtins.__import__(name, {}, {}, fromlist, 0)
        if name not in self.models:
            m = _Any(name)
            self.models[name] = m
        return self.models[name] if fromlist or "." not in name else self.models.setdefault(name.split(".")[0], _Any(name.split(".")[0]))
