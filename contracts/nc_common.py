"""Contract model of the netCDF4 / scipy.sparse / os calls of the match-up reader and writers, and symbolic match-up files.

A file is its attributes, dimensions and variables; a variable holds what was assigned to it, converted to its type
(integers must be integers; reals are kept).  Lengths and contents are symbolic; the number of files, their sensors,
numbers of variables and correlation labels are the structure.
"""
import itertools, os, types
from pyvc import loader, terms as T, ctx
from pyvc.arr import SArr, memo_fn, same_dim, int_value
from pyvc.terms import lift
from contracts import mu_common as M

IO = M.PKG + "matchupIO."


class Dim(object):
    def __init__(self, name, size): self.name, self.size = name, size

    def __symlen__(self): return self.size


class Var(object):
    __pyvc_mutable__ = True

    def __init__(self, name, dtype, dims, ds):
        self.__dict__.update(name=name, dtype=dtype, dimensions=tuple(dims), ds=ds, written=False)
        shape = tuple(ds.dimensions[d].size for d in dims)
        self.__dict__["arr"] = SArr.of(shape, lambda *i: T.sym("fill"))

    shape = property(lambda self: self.arr.shape)
    ndim = property(lambda self: self.arr.ndim)
    size = property(lambda self: self.arr.size)

    def __symlen__(self): return self.arr.shape[0]

    def __getitem__(self, key):
        self.ds.check()
        if self.dtype == "S1":
            if key != slice(None) or not self.written: raise T.Unsupported("reading of characters")
            return self.chars
        r = self.arr[key]
        return r.copy() if isinstance(r, SArr) else r

    def __setitem__(self, key, v):
        self.ds.check(write=True)
        from pyvc.npmodel import asarray
        if self.dtype == "S1":
            if key != slice(None) or not hasattr(v, "rows"): raise T.Unsupported("assignment to characters")
            if len(self.arr.shape) != 2 or not all(isinstance(x, int) or lift(x).op == "const" for x in self.arr.shape) or tuple(int(lift(x).args[0]) for x in self.arr.shape) != v.shape: raise ValueError("cannot broadcast characters of shape %s" % (v.shape,))
            self.__dict__.update(written=True, chars=v)
            return
        v = asarray(v)
        if self.dtype[0] in "iu" or self.dtype in ("int", "int32"):
            f = v.frozen()
            v = SArr.of(v.shape, memo_fn(lambda *i: int_value(f(*i))))
        self.__dict__["written"] = True
        self.arr[key] = v

    def __pyvc_array__(self): return self[:]


class Dataset(object):
    __pyvc_mutable__ = True

    def __init__(self, fs, path):
        self.__dict__.update(_fs=fs, _path=path, dimensions={}, variables={}, _attrs={}, _state="w")

    def check(self, write=False):
        if self._state == "closed": raise RuntimeError("NetCDF: Not a valid ID")
        if write and self._state == "r": raise RuntimeError("NetCDF: Write to read only")

    def createDimension(self, name, size=None):
        self.check(True)
        if name in self.dimensions: raise RuntimeError("NetCDF: String match to name in use")
        from pyvc.arr import dim
        self.dimensions[name] = Dim(name, dim(size))
        return self.dimensions[name]

    def createVariable(self, name, dtype, dims=(), **k):
        self.check(True)
        for x in k:
            if x not in ("zlib", "complevel", "shuffle", "fletcher32"): raise T.Unsupported("createVariable keyword " + x)
        if name in self.variables: raise RuntimeError("NetCDF: String match to name in use")
        if isinstance(dims, str):
            if len(dims) != 1: raise T.Unsupported("dimensions given as a string")
            dims = (dims,)
        if not isinstance(dtype, str): dtype = {"int": "i8", "float": "f8", "vint": "i8", "vfloat": "f8"}.get(getattr(dtype, "__name__", None) or getattr(dtype, "name", ""), None) or "f8"
        for d in dims:
            if d not in self.dimensions: raise KeyError(d)
        self.variables[name] = Var(name, dtype, dims, self)
        return self.variables[name]

    def __getitem__(self, n): return self.variables[n]

    def __getattr__(self, n):
        if n.startswith("__") or n not in self.__dict__["_attrs"]: raise AttributeError(n)
        return self._attrs[n]

    def __setattr__(self, n, v):
        self.check(True)
        if v is None: raise TypeError("illegal data type for attribute")
        self._attrs[n] = v

    def ncattrs(self): return list(self._attrs)

    def getncattr(self, n):
        if n not in self._attrs: raise AttributeError("NetCDF: Attribute not found")
        return self._attrs[n]

    def setncatts(self, d):
        for k in d: setattr(self, k, d[k])

    def setncattr(self, k, v): setattr(self, k, v)

    def close(self): self.__dict__["_state"] = "closed"

    def __enter__(self): return self
    def __exit__(self, *a): self.close()


class Files(object):
    """The file system seen by the code: match-up files by path, directories as name lists."""

    def __init__(self): self.files, self.dirs, self.opened = {}, {}, []

    def Dataset(self, path, mode="r", **k):
        for x in k:
            if x not in ("format",): raise T.Unsupported("Dataset keyword " + x)
        if mode == "w": self.files[path] = Dataset(self, path)
        elif path not in self.files: raise IOError("No such file: %s" % path)
        d = self.files[path]
        d.__dict__["_state"] = mode if mode == "r" else "w"
        self.opened.append((path, mode))
        return d

    def makedirs(self, p, *a, **k):
        if p in self.dirs: raise OSError("File exists: %s" % p)
        self.dirs[p] = []

    def copyfile(self, a, b):
        """An independent file of the same contents."""
        if a not in self.files: raise IOError("No such file: %s" % a)
        old, new = self.files[a], Dataset(self, b)
        for nm, d in old.dimensions.items(): new.createDimension(nm, d.size)
        for nm, v in old.variables.items():
            x = new.createVariable(nm, v.dtype, v.dimensions)
            x.__dict__.update(arr=v.arr.copy(), written=v.written)
        new._attrs.update(old._attrs)
        new.close()
        self.files[b] = new
        return b

    def listdir(self, p): return list(self.dirs[p])
    def isdir(self, p): return p in self.dirs
    def isfile(self, p): return p in self.files


class Csr(object):
    """scipy.sparse.csr_matrix((data, indices, indptr), shape): the three arrays and the shape."""

    def __init__(self, arg, shape=None, dtype=None):
        if not (isinstance(arg, tuple) and len(arg) == 3): raise T.Unsupported("csr_matrix of something else than its three arrays")
        self.data, self.indices, self.indptr = arg
        self.shape = shape

    @property
    def nnz(self): return self.data.shape[0]

    def __deepcopy__(self, memo): return self


def _outside(*a, **k): raise T.Unsupported("operation on the file system")
def _characters(*a, **k): raise T.Unsupported("names stored as characters")


def program(tree):
    fs = Files()
    mods = {}
    nc = types.ModuleType("netCDF4"); nc.Dataset = fs.Dataset
    nc.stringtochar, nc.chartostring = [_characters] * 2
    ss = types.ModuleType("scipy.sparse"); ss.csr_matrix = Csr
    sp = types.ModuleType("scipy"); sp.sparse = ss
    o = types.ModuleType("os"); o.__dict__.update({k: v for k, v in vars(os).items() if not k.startswith("__")})
    op = types.ModuleType("os.path"); op.__dict__.update({k: v for k, v in vars(os.path).items() if not k.startswith("__")})
    o.listdir, o.path, op.isdir, op.isfile = fs.listdir, op, fs.isdir, fs.isfile
    o.makedirs = o.mkdir = fs.makedirs
    for nm in ("remove", "unlink", "rename", "replace", "rmdir", "removedirs", "system", "link", "symlink", "chmod", "chown", "truncate"):
        setattr(o, nm, _outside)
    op.exists = lambda p: fs.isdir(p) or fs.isfile(p)
    dt = types.ModuleType("datetime")

    class datetime(object):
        @staticmethod
        def fromtimestamp(s): return T.app("fromtimestamp", [s])

        @staticmethod
        def utcfromtimestamp(s): return T.app("utcfromtimestamp", [s])
    dt.datetime = datetime
    dt.__dict__.update(timedelta=None, date=None)
    cp = types.ModuleType("copyreg"); cp.pickle = lambda *a, **k: None
    px = types.ModuleType("pyximport"); px.install = lambda *a, **k: None
    sh = types.ModuleType("shutil"); sh.copyfile = sh.copy = sh.copy2 = fs.copyfile
    mods["shutil"] = sh
    mods.update({"copyreg": cp, "pyximport": px, "netCDF4": nc, "scipy.sparse": ss, "scipy": sp, "os": o, "os.path": op, "datetime": dt})
    P = loader.Program(tree, models=mods)
    P.fs = fs
    return P


class File(object):
    """One symbolic match-up file; contents are functions of (variable name, indices)."""
    pass


def sym_array(name, shape, sort="R"): return SArr.of(shape, lambda *i: T.app(name, i, sort))


def make_file(c, fs, path, q, names, m, types_, opt=(), add=(), use=None, nw=0, nu=0, n=None):
    """use: ((w number per variable of sensor 1, of sensor 2), (u numbers ...)) or None."""
    f = File()
    f.q, f.names, f.m, f.types, f.use, f.opt, f.add = q, names, m, types_, use, opt, add
    f.M = n if n is not None else T.sym("M%d" % q, "I")
    c.assume(T.le(T.const(1), f.M))
    d = fs.files[path] = Dataset(fs, path)
    d.sensor_1_name, d.sensor_2_name = names
    d.createDimension("M", f.M)
    for s in (1, 2): d.createDimension("m%d" % s, m[s - 1])
    f.v = {}

    def var(nm, dims, arr, dtype="f8"):
        v = d.createVariable(nm, dtype, dims)
        v[:] = arr
        f.v[nm] = arr

    S = lambda nm: "%s_%d" % (nm, q)
    for s in (1, 2):
        for nm in ("X", "Ur", "Us"): var(nm + str(s), ("M", "m%d" % s), sym_array(S(nm + str(s)), (f.M, m[s - 1])))
        var("uncertainty_type%d" % s, ("m%d" % s,), M_const(types_[s - 1]), "i4")
        var("time%d" % s, ("M",), sym_array(S("time%d" % s), (f.M,)))
    for nm in ("K", "Kr", "Ks"): var(nm, ("M",), sym_array(S(nm), (f.M,)))
    for nm in opt: var(nm, ("M",), sym_array(S(nm), (f.M,), "I"), "i4")
    for nm in add: var(nm, ("M",), sym_array(S(nm), (f.M,)))
    if use is not None:
        f.nnz = [T.app(S("nnz"), [k], "I") for k in range(nw)]
        f.cnt = [T.app(S("cnt"), [k], "I") for k in range(nu)]
        for x in f.nnz + f.cnt: c.assume(T.le(T.const(1), x))
        f.woff, f.uoff = [T.const(0)], [T.const(0)]
        for x in f.nnz: f.woff.append(f.woff[-1] + x)
        for x in f.cnt: f.uoff.append(f.uoff[-1] + x)
        f.R = f.M + 1
        for nm, n in (("w_matrix_count", nw), ("w_matrix_row_count", f.R), ("w_matrix_nnz_sum", f.woff[-1]), ("u_matrix_count", nu), ("u_matrix_row_count_sum", f.uoff[-1])):
            d.createDimension(nm, n)
        var("w_matrix_nnz", ("w_matrix_count",), SArr.of((nw,), lambda i: T.app(S("nnz"), [i], "I")), "i4")
        var("w_matrix_row", ("w_matrix_count", "w_matrix_row_count"), sym_array(S("wrow"), (nw, f.R), "I"), "i4")
        var("w_matrix_col", ("w_matrix_nnz_sum",), sym_array(S("wcol"), (f.woff[-1],), "I"), "i4")
        var("w_matrix_val", ("w_matrix_nnz_sum",), sym_array(S("wval"), (f.woff[-1],)))
        var("u_matrix_row_count", ("u_matrix_count",), SArr.of((nu,), lambda i: T.app(S("cnt"), [i], "I")), "i4")
        var("u_matrix_val", ("u_matrix_row_count_sum",), sym_array(S("uval"), (f.uoff[-1],)))
        for s in (1, 2):
            var("w_matrix_use%d" % s, ("m%d" % s,), M_const(use[0][s - 1]), "i4")
            var("u_matrix_use%d" % s, ("m%d" % s,), M_const(use[1][s - 1]), "i4")
    d.close()
    return f


def M_const(xs):
    from pyvc.npmodel import _from_seq
    return _from_seq(list(xs))


# -- structures ----------------------------------------------------------------------------------------------------------
def graphs(k, max_sensors=4):
    """All pairing graphs of k series, sensors numbered by first appearance."""
    def go(done, n):
        if len(done) == k:
            yield list(done)
            return
        for a in range(min(n, max_sensors - 1) + 1):
            for b in range(min(max(n, a + 1), max_sensors - 1) + 1):
                if a == b: continue
                yield from go(done + [(a, b)], max(n, a + 1, b + 1))
    yield from go([], 0)


def n_sensors(g): return 1 + max(max(p) for p in g)


class Layout(object):
    """Expected index structure of a list of files (specification)."""

    def __init__(self, files):
        self.sensors, self.ms = [], []
        for f in files:
            for nm, m in zip(f.names, f.m):
                if nm not in self.sensors:
                    self.sensors.append(nm)
                    self.ms.append(m)
        self.Im = [[self.sensors.index(nm) for nm in f.names] for f in files]
        self.blocks = [(v, s, pos) for v in range(max(self.ms)) for s in range(len(files)) for pos in (0, 1) if v < self.ms[self.Im[s][pos]]]
        self.Nm = [f.M for f in files]
        self.cNm, self.idx = [T.const(0)], [T.const(0)]
        for n in self.Nm: self.cNm.append(self.cNm[-1] + n)
        for v, s, pos in self.blocks: self.idx.append(self.idx[-1] + self.Nm[s])
        self.n_sensor = [self.Im[s][pos] for v, s, pos in self.blocks]
        self.n_mu = [s + 1 for v, s, pos in self.blocks]
        self.n_cov = [v + 1 for v, s, pos in self.blocks]
        self.N_var = [self.Nm[s] for v, s, pos in self.blocks]


def block_of(idx, L, b):
    """Position(s) of block b in the index structure of the code."""
    return [q for q, t in enumerate(zip(idx["n_sensor"], idx["n_mu"], idx["n_cov"])) if tuple(int(x) for x in t) == (L.n_sensor[b], L.n_mu[b], L.n_cov[b])]


TRUSTED = ["netCDF4 by its contract: a variable returns what was assigned to it, converted to its type; dimensions and attributes likewise",
           "scipy csr_matrix((data, indices, indptr), shape) by its contract: the matrix those arrays describe",
           "os.listdir / isdir / isfile: any set of names"]
