"""Module stand-ins handed to the code under test: numpy, math, numba, scipy,
sympy.  Anything not overridden is delegated to the real library."""
import math as _math
import types
import warnings
from fractions import Fraction as F

import numpy as _np
import z3

from . import arr, funcs
from .arr import SYM, SymArr, has_sym, kind_of, mapel, norm_out, obj, wrap
from .core import LogNum, Num, SBool, SInt, Unsupported, canon, eng, pi, rmul


class Shim(types.ModuleType):
    """Delegating module; attributes in `over` win."""

    def __init__(self, name, real, over, wrapfn=None):
        super().__init__(name)
        self.__dict__["_real"] = real
        self.__dict__["_over"] = over
        self.__dict__["_wrapfn"] = wrapfn
        self.__dict__["_cache"] = {}
        for a in ("__file__", "__path__", "__version__"):
            if hasattr(real, a):
                self.__dict__[a] = getattr(real, a)

    def __getattr__(self, name):
        over = self.__dict__["_over"]
        if name in over:
            v = over[name]
            return v() if isinstance(v, _Lazy) else v
        v = getattr(self.__dict__["_real"], name)
        w = self.__dict__["_wrapfn"]
        if w is not None and callable(v) and not isinstance(v, type) and not isinstance(v, _np.ufunc):
            c = self.__dict__["_cache"]
            if name not in c:
                c[name] = w(v)
            return c[name]
        return v

    def __reduce__(self):
        raise TypeError("cannot pickle 'module' object")

    def __deepcopy__(self, memo):
        raise TypeError("cannot pickle 'module' object")


class _Lazy:
    def __init__(self, f):
        self.f = f

    def __call__(self):
        return self.f()


def _sym_args(a, k):
    return has_sym(list(a), 4) or has_sym(dict(k), 4)


def np_wrap(f):
    """numpy callable: dispatch ourselves when a symbolic argument is present
    (list arguments do not trigger __array_function__)."""

    def g(*a, **k):
        if _sym_args(a, k):
            real = f
            return arr.function_dispatch(real, a, k)
        return f(*a, **k)

    g.__name__ = getattr(f, "__name__", "f")
    g._real = f
    return g


def _kind(dtype, default="f"):
    if dtype is None:
        return default
    if dtype is object:
        return "f"
    if arr.is_narrow(dtype):
        raise Unsupported("array of type %s" % dtype)
    k = _np.dtype(dtype).kind
    return {"u": "i"}.get(k, k)


def _creator(v, real):
    def g(shape, dtype=None, order="C", **kw):
        k = _kind(dtype)
        if k in "fc":
            return arr.full(shape, v, k)
        if isinstance(shape, SInt):
            shape = int(shape)
        elif isinstance(shape, (tuple, list)):
            shape = tuple(int(s) for s in shape)
        if k == "O":
            return arr.full(shape, v, "f")
        return real(shape, dtype=dtype)

    return g


def _full(shape, fill, dtype=None, order="C", **kw):
    k = _kind(dtype, kind_of(fill))
    r = arr.full(shape, 0, "c" if k == "c" else "f")
    r[...] = fill
    return r


def _eye(n, m=None, k=0, dtype=None, order="C", **kw):
    n = int(n)
    m = n if m is None else int(m)
    kd = _kind(dtype)
    if kd in "ib":
        return _np.eye(n, m, k, dtype=dtype)
    r = arr.full((n, m), 0, kd)
    b = r.base_arr()
    for i in range(n):
        if 0 <= i + k < m:
            b[i, i + k] = Num(F(1), F(0), kd == "c")
    return r


def _array(x, dtype=None, copy=True, **kw):
    nd = kw.get("ndmin", 0)
    if isinstance(x, SymArr):
        r = x.copy() if copy else x
    elif isinstance(x, (list, tuple)) and not has_sym(x, 6) and not _deep_arr(x):
        # concrete literal: exact rationals for floats, real ints stay ints
        real = _np.array(x, dtype=dtype)
        if real.dtype.kind in "fc":
            return wrap(obj(real), real.dtype.kind)
        return real.view(IArr) if real.dtype.kind in "iu" and real.ndim else real
    elif isinstance(x, _np.ndarray) and x.dtype != object:
        if x.dtype.kind in "fc":
            r = wrap(obj(x), x.dtype.kind)
        else:
            r = _np.array(x, copy=copy)
            if dtype is not None and _kind(dtype) in "fc":
                return wrap(obj(r), _kind(dtype))
            return r.astype(dtype) if dtype is not None else r
    else:
        if hasattr(x, "__iter__") and not isinstance(x, (list, tuple, _np.ndarray, str)):
            x = list(x)
        o = obj(x)
        r = wrap(o.copy() if o is x else o, None)
    if dtype is not None and dtype is not object:
        r = arr.cast(r, dtype, copy=False)
        if r.kind == "i" and all(isinstance(v, int) for v in r.base_arr().ravel()):
            r = _np.array(r.base_arr().tolist(), dtype=dtype).reshape(r.shape)
    while r.ndim < nd:
        r = r[None]
    return r


class IArr(_np.ndarray):
    """concrete integer array whose float/complex casts are symbolic arrays"""

    def astype(self, dtype, *a, **k):
        if _kind(dtype) in "fc":
            return wrap(obj(_np.asarray(self)), _kind(dtype))
        return super().astype(dtype, *a, **k)

    def __array_wrap__(self, out, context=None, return_scalar=False):
        if out.ndim == 0:
            return out[()]
        if out.dtype.kind not in "biu":
            return _np.asarray(out)
        return out.view(IArr)

    def __array_ufunc__(self, uf, method, *ins, **kw):
        if any(isinstance(x, SymArr) for x in ins):
            return NotImplemented
        ins = [x.view(_np.ndarray) if isinstance(x, IArr) else x for x in ins]
        if "out" in kw:
            kw["out"] = tuple(x.view(_np.ndarray) if isinstance(x, IArr) else x for x in kw["out"])
        r = getattr(uf, method)(*ins, **kw)
        if isinstance(r, _np.ndarray) and r.dtype.kind in "iu":
            return r.view(IArr)
        return r


def _like(v, real):
    def g(a, dtype=None, order="K", subok=True, shape=None):
        k = kind_of(a) if dtype is None else _kind(dtype)
        sh = shape if shape is not None else _shape(a)
        if k in "fc":
            return arr.full(sh, v, k)
        return real(_np.empty(sh, dtype=int), dtype=dtype)

    return g


def _full_like(a, v, dtype=None, order="K", subok=True, shape=None):
    return _full(shape if shape is not None else _shape(a), v,
                 dtype=dtype if dtype is not None else (
                     complex if kind_of(a) == "c" else float if kind_of(a) == "f" else None))


def _deep_arr(x):
    return any(
        (isinstance(v, _np.ndarray) and v.dtype.kind in "fcO")
        or (isinstance(v, (list, tuple)) and _deep_arr(v))
        or type(v).__module__.startswith("sympy")
        for v in x
    )


def _asarray(x, dtype=None, *a, **kw):
    if isinstance(x, SymArr) and (dtype is None or _kind(dtype) == x.kind):
        return x
    if isinstance(x, _np.ndarray) and not isinstance(x, SymArr) and dtype is None and x.dtype.kind in "biu":
        return x
    return _array(x, dtype=dtype, copy=False)


def _linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    n = int(num)
    start, stop = Num.of(start), Num.of(stop)
    div = n - 1 if endpoint else n
    out = _np.empty(n, dtype=object)
    for i in range(n):
        if div:
            out[i] = start * F(div - i, div) + stop * F(i, div)
        else:
            out[i] = start
    r = wrap(out, "f")
    if retstep:
        return r, (stop - start) * F(1, div)
    return r


def _arange(*a, dtype=None, **kw):
    if any(isinstance(x, (Num, LogNum)) for x in a):
        if len(a) == 1:
            s, e, st = Num(F(0)), Num.of(a[0]), Num(F(1))
        else:
            s, e = Num.of(a[0]), Num.of(a[1])
            st = Num.of(a[2]) if len(a) > 2 else Num(F(1))
        out = []
        v = s
        while bool(v < e):
            out.append(v)
            v = v + st
        return wrap(obj(out), "f")
    a = tuple(int(x) if isinstance(x, SInt) else x for x in a)
    r = _np.arange(*a, dtype=dtype)
    if r.dtype.kind in "fc":
        if any(isinstance(x, float) for x in a):
            s, e, st = (list(a) + [0, 0])[:3] if len(a) == 3 else ((0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1))
            return wrap(obj([Num.of(s) + Num.of(st) * i for i in range(len(r))]), "f")
        return wrap(obj(r), r.dtype.kind)
    return r


def _scalar_fn(name):
    f = arr._UN[name]

    def g(x, *a, **k):
        if isinstance(x, _np.ndarray) or isinstance(x, (list, tuple)):
            x2 = x if isinstance(x, SymArr) else wrap(obj(x))
            out = k.pop("out", None)
            return arr.ufunc_dispatch(getattr(_np, name), "__call__", (x2,),
                                      dict(out=out) if out is not None else {})
        return f(x)

    return g


def _diag(v, k=0):
    if isinstance(v, _np.ndarray) and v.dtype.kind in "biu":
        return _np.diag(v, k)
    return arr._diag(v if isinstance(v, _np.ndarray) else wrap(obj(v)), k)


def _meshgrid(*xi, indexing="xy", **kw):
    xs = [obj(x) for x in xi]
    r = _np.meshgrid(*xs, indexing=indexing, copy=True)
    return [wrap(x, kind_of(o)) for x, o in zip(r, xi)]


def _iscomplexobj(x):
    return kind_of(x) == "c" if has_sym(x) else _np.iscomplexobj(x)


def _ndim(x):
    if isinstance(x, SYM):
        return 0
    return _np.ndim(x) if not has_sym(x) else obj(x).ndim


def _shape(x):
    if isinstance(x, SYM):
        return ()
    if isinstance(x, _np.ndarray):
        return x.shape
    return _np.shape(x) if not has_sym(x) else obj(x).shape


def _vectorize(f, *a, **k):
    def g(*args):
        uf = _np.frompyfunc(f, len(args), 1)
        r = uf(*[obj(x) for x in args])
        return norm_out(r) if isinstance(r, _np.ndarray) else r

    return g


def _where(c, *a):
    from . import frame

    if isinstance(c, frame.Series):
        return frame.where(c, *a)
    return np_wrap(_np.where)(c, *a)


def _abs(x, *a, **k):
    from . import frame

    if isinstance(x, frame.Series):
        return abs(x)
    if isinstance(x, SYM):
        return abs(x)
    return _np.abs(x, *a, **k)


def _errstate(**k):
    return _np.errstate(**k)


# ---- eigensolver contract -------------------------------------------------
def _one_triangle(h, upper):
    """The matrix eigh works with: one triangle of h, mirrored."""
    out = h.copy()
    b = out.base_arr()
    for i in range(h.shape[0]):
        d = Num.of(b[i, i])
        if not d.isreal():
            b[i, i] = Num(d.re)
        for j in range(i):
            lo, up = Num.of(b[i, j]), Num.of(b[j, i])
            src, mirrored = (up, lo) if upper else (lo, up)
            want = src.conjugate()
            if not (_equal(want.re, mirrored.re) and _equal(want.im, mirrored.im)):
                if upper:
                    b[i, j] = want
                else:
                    b[j, i] = want
    return out


def _equal(p, q):
    from . import poly

    if isinstance(p, F) and isinstance(q, F):
        return p == q
    d = Num(p) - Num(q)
    if isinstance(d.re, F):
        return not d.re
    try:
        if not poly.Reducer(eng()).poly(d.re):
            return True
    except poly.TooBig:
        pass
    return eng().check(d.re != 0, branch=True) == z3.unsat


def eigh_stub(h, n_vec=None, upper=False):
    """Arbitrary (eps, V) satisfying the documented contract of eigh:
    h V = V diag(eps), V^H V = 1, eps ascending; one triangle of h counts."""
    h = h if isinstance(h, SymArr) else wrap(obj(h))
    n = h.shape[0]
    e = eng()
    if h.ndim != 2 or h.shape[1] != n:
        raise _np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    h = _one_triangle(h, upper)
    for g, r in e.eigh_memo:
        # a function of the matrix: equal matrices, equal results
        if g.shape == h.shape and _same(g, h):
            return r[0].copy(), r[1].copy()
    e.fresh += 1
    tag = "eigh%d" % e.fresh
    cplx = h.kind == "c" and not all(
        Num.of(x).isreal() for x in h.base_arr().ravel())
    eps = _np.empty(n, dtype=object)
    V = _np.empty((n, n), dtype=object)
    for i in range(n):
        eps[i] = Num(z3.Real("%s_w%d" % (tag, i)))
    for i in range(n):
        for j in range(n):
            im = z3.Real("%s_vi%d_%d" % (tag, i, j)) if cplx else F(0)
            V[i, j] = Num(z3.Real("%s_v%d_%d" % (tag, i, j)), im)
    H = h.base_arr()
    lhs = H.dot(V)
    Vh = _np.frompyfunc(lambda x: x.conjugate(), 1, 1)(V).T
    ov = Vh.dot(V)
    for i in range(n):
        for j in range(n):
            d = Num.of(lhs[i, j]) - V[i, j] * eps[j]
            for p in (d.re, d.im):
                if not isinstance(p, F):
                    e.assume(p == 0)
                    e.eqs.append(p)
            d = Num.of(ov[i, j]) - int(i == j)
            for p in (d.re, d.im):
                if not isinstance(p, F):
                    e.assume(p == 0)
                    e.eqs.append(p)
        if i:
            e.assume(eps[i - 1].re <= eps[i].re)
    kV = "c" if h.kind == "c" else "f"
    r = wrap(eps, "f"), wrap(V, kV)
    e.eigh_memo.append((h.copy(), (r[0].copy(), r[1].copy())))
    return r


def _same(g, h):
    from . import poly

    red = poly.Reducer(eng())
    for x, y in zip(g.base_arr().ravel(), h.base_arr().ravel()):
        d = Num.of(x) - Num.of(y)
        for p in (d.re, d.im):
            if isinstance(p, F):
                if p:
                    return False
                continue
            try:
                if not red.poly(p):
                    continue
            except poly.TooBig:
                pass
            if eng().check(p != 0, branch=True) != z3.unsat:
                return False
    return True


def _eigh(h, *a, **k):
    upper = k.get("UPLO", a[0] if a and isinstance(a[0], str) else "L") in ("U", "u") or k.get("lower") is False
    if k.get("eigvals_only"):
        return eigh_stub(h, upper=upper)[0]
    sel = k.get("subset_by_index")
    w, v = eigh_stub(h, upper=upper)
    if sel is not None:
        lo, hi = int(sel[0]), int(sel[1])
        return w[lo:hi + 1], v[:, lo:hi + 1]
    return w, v


def _eigh_tridiagonal(d, e, eigvals_only=False, select="a", select_range=None, **k):
    h = arr.full((len(d), len(d)), 0, "f")
    for i in range(len(d)):
        h[i, i] = d[i]
        if i + 1 < len(d):
            h[i, i + 1] = e[i]
            h[i + 1, i] = e[i]
    w, v = eigh_stub(h)
    if select == "i":
        lo, hi = int(select_range[0]), int(select_range[1])
        w, v = w[lo:hi + 1], v[:, lo:hi + 1]
    return w if eigvals_only else (w, v)


class RandomStub(types.ModuleType):
    """np.random: arbitrary values in [0, 1) (or any real for normal draws)."""

    def __init__(self):
        super().__init__("numpy.random")
        self.draws = 0

    def _draw(self, shape, lo=0, hi=1):
        if shape is None:
            shape = ()
        if isinstance(shape, (int, _np.integer)):
            shape = (shape,)
        shape = tuple(int(s) for s in shape)
        out = _np.empty(shape, dtype=object)
        for i in _np.ndindex(*shape):
            v = eng().real("rnd%d" % self.draws)
            self.draws += 1
            if lo is not None:
                eng().assume(z3.And(v >= lo, v < hi))
            out[i] = Num(v)
        return norm_out(out, "f") if shape else out.item()

    def random(self, size=None):
        return self._draw(size)

    random_sample = ranf = sample = random

    def rand(self, *shape):
        return self._draw(shape or None)

    def uniform(self, low=0.0, high=1.0, size=None):
        r = self._draw(size)
        return low + (high - low) * r

    def randn(self, *shape):
        return self._draw(shape or None, None)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self._draw(size, None)

    def default_rng(self, *a):
        return self

    def seed(self, *a):
        pass


class FileStore:
    """np.save / np.load: the array stays in memory, a placeholder goes to disk
    (so that existence checks, renames and removals see a file)."""

    def __init__(self):
        self.mem = {}

    def save(self, file, a, *x, **k):
        import os
        import uuid

        tag = uuid.uuid4().hex
        if hasattr(file, "write"):
            file.write(tag.encode())
        else:
            file = os.fspath(file)
            if not file.endswith(".npy"):
                file += ".npy"
            with open(file, "wb") as f:
                f.write(tag.encode())
        self.mem[tag] = a.copy() if isinstance(a, _np.ndarray) else _array(a)

    def load(self, file, *x, **k):
        import os

        if hasattr(file, "read"):
            tag = file.read(32)
        else:
            with open(os.fspath(file), "rb") as f:
                tag = f.read()
        if len(tag) < 32:
            raise ValueError("incomplete file")  # EOFError or ValueError in numpy
        tag = tag.decode("latin1")
        if tag not in self.mem:
            raise Unsupported("np.load of a file the run did not write")
        mode = k.get("mmap_mode", x[0] if x else None)
        if mode in ("r+", "w+"):
            return self.mem[tag]  # changes go to the file
        out = self.mem[tag].copy()
        if mode == "r":
            out.flags.writeable = False
        return out


def make_numpy(random=None):
    store = FileStore()
    over = {
        "save": store.save,
        "load": store.load,
        "zeros": _creator(0, _np.zeros),
        "empty": _creator(0, _np.empty),
        "ones": _creator(1, _np.ones),
        "full": _full,
        "zeros_like": _like(0, _np.zeros_like),
        "empty_like": _like(0, _np.zeros_like),
        "ones_like": _like(1, _np.ones_like),
        "full_like": _full_like,
        "eye": _eye,
        "identity": lambda n, dtype=None: _eye(n, dtype=dtype),
        "array": _array,
        "asarray": _asarray,
        "asanyarray": _asarray,
        "ascontiguousarray": _asarray,
        "linspace": _linspace,
        "arange": _arange,
        "meshgrid": _meshgrid,
        "pi": _Lazy(pi),
        "diag": _diag,
        "iscomplexobj": _iscomplexobj,
        "isrealobj": lambda x: not _iscomplexobj(x),
        "ndim": _ndim,
        "shape": _shape,
        "vectorize": _vectorize,
        "sinc": lambda x: arr._sinc(x) if isinstance(x, _np.ndarray) else funcs.sinc(x),
        "random": random if random is not None else RandomStub(),
        "float64": _np.float64,
        "sum": np_wrap(_np.sum),
        "where": _where,
        "abs": _abs,
        "absolute": _abs,
        "trapezoid": np_wrap(_np.trapz),
    }
    for n in ("sqrt", "exp", "log", "sin", "cos", "log2", "log1p", "exp2"):
        over[n] = _scalar_fn(n)
    lin_over = {
        "eigh": _eigh,
        "eigvalsh": lambda h, *a, **k: eigh_stub(h)[0],
    }
    over["linalg"] = Shim("numpy.linalg", _np.linalg, lin_over, np_wrap)
    sh = Shim("numpy", _np, over, np_wrap)
    return sh


# ---- math -----------------------------------------------------------------
def _mwrap(sym, real):
    def g(x, *a):
        if isinstance(x, SYM) or isinstance(x, SymArr):
            return sym(x, *a)
        return sym(x, *a)

    return g


def make_math():
    def comb(n, k):
        return _math.comb(int(n), int(k))

    over = {
        "sqrt": lambda x: Num.of(x).sqrt(),
        "exp": funcs.exp,
        "log": funcs.log,
        "sin": funcs.sin,
        "cos": funcs.cos,
        "lgamma": funcs.lgamma,
        "gamma": funcs.gamma,
        "factorial": lambda x: _math.factorial(int(x)) if not isinstance(x, (SInt, Num)) else _intfact(x),
        "floor": lambda x: x.__floor__() if isinstance(x, SYM) else _math.floor(x),
        "ceil": lambda x: x.__ceil__() if isinstance(x, SYM) else _math.ceil(x),
        "trunc": lambda x: x.__trunc__() if isinstance(x, SYM) else _math.trunc(x),
        "fabs": lambda x: abs(Num.of(x)),
        "isclose": lambda a, b, rel_tol=1e-9, abs_tol=0.0: abs(Num.of(a) - b) <= abs_tol,
        "pi": _Lazy(pi),
        "pow": lambda a, b: Num.of(a) ** b,
        "comb": comb,
        "isqrt": _isqrt,
    }
    return Shim("math", _math, over)


def _isqrt(x):
    if isinstance(x, SInt):
        # documented contract: floor of the exact square root
        e = eng()
        if bool(x < 0):
            raise ValueError("isqrt() argument must be nonnegative")
        e.fresh += 1
        r = z3.Int("isqrt%d" % e.fresh)
        e.assume(z3.And(r >= 0, r * r <= x.t, x.t < (r + 1) * (r + 1)))
        return SInt(r)
    return _math.isqrt(x)


def _intfact(x):
    n = eng().force_value(x.t) if isinstance(x, SInt) else int(x)
    return _math.factorial(n)


# ---- numba ----------------------------------------------------------------
def make_numba():
    import numba as real

    def jit(*a, **k):
        if len(a) == 1 and callable(a[0]) and not k:
            return a[0]
        return lambda f: f

    over = {
        "njit": jit,
        "jit": jit,
        "vectorize": lambda *a, **k: (lambda f: _vectorize(f)),
        "prange": sym_range,
        "generated_jit": jit,
    }
    return Shim("numba", real, over)


def sym_range(*a):
    if not any(isinstance(x, (SInt, SBool)) for x in a):
        if any(isinstance(x, Num) for x in a):
            raise TypeError("'float' object cannot be interpreted as an integer")
        return range(*a)
    return _SRange(*a)


class _SRange:
    def __init__(self, *a):
        if len(a) == 1:
            self.a, self.b, self.s = 0, a[0], 1
        else:
            self.a, self.b = a[0], a[1]
            self.s = a[2] if len(a) > 2 else 1
        if isinstance(self.s, SInt):
            self.s = int(self.s)
        if self.s == 0:
            raise ValueError("range() arg 3 must not be zero")

    def __iter__(self):
        i = self.a
        while bool(i < self.b) if self.s > 0 else bool(i > self.b):
            yield i
            i = i + self.s

    def __len__(self):
        return len(list(iter(self)))

    def __reversed__(self):
        return reversed(list(iter(self)))

    def __getitem__(self, k):
        return list(iter(self))[k]


# ---- scipy ----------------------------------------------------------------
def _elem(f):
    def g(x, *a, **k):
        if isinstance(x, (_np.ndarray, list, tuple)):
            if not has_sym(x) and isinstance(x, _np.ndarray) and x.dtype.kind in "biu":
                pass
            return norm_out(_np.ndarray.view(mapel(lambda v: f(v, *a, **k), x), _np.ndarray))
        return f(x, *a, **k)

    return g


def _poly(coeffs, x):
    # Horner on Num / SymArr / Jet
    r = None
    for c in reversed(coeffs):
        r = (r * x + Num(c)) if r is not None else Num(c)
    if r is None:
        r = Num(F(0))
    if isinstance(x, _np.ndarray) and not isinstance(r, _np.ndarray):
        r = arr.full(x.shape, 0, "f") + r
    return r


class _HermPoly:
    def __init__(self, n, monic=False):
        n = int(n)
        self.c = funcs.hermite_coeffs(n)
        if monic:
            self.c = [x / self.c[-1] for x in self.c]

    def __call__(self, x):
        return _poly(self.c, x)


def _assoc_laguerre(x, n, k=0.0):
    n = int(n)
    kk = int(k) if not isinstance(k, Num) else int(k._const().re)
    return _poly(funcs.assoc_laguerre_coeffs(n, kk), x)


def make_scipy_special():
    import scipy.special as real

    over = {
        "factorial": lambda n, exact=False: _elem(funcs.factorial)(n) if not exact else _math.factorial(int(n)),
        "hermite": lambda n, monic=False: _HermPoly(n, monic),
        "eval_hermite": lambda n, x: _HermPoly(n)(x),
        "assoc_laguerre": _assoc_laguerre,
        "genlaguerre": lambda n, k, monic=False: (lambda x: _assoc_laguerre(x, n, k)),
        "eval_genlaguerre": lambda n, k, x: _assoc_laguerre(x, n, k),
        "gamma": _elem(funcs.gamma),
        "gammaln": _elem(funcs.lgamma),
        "comb": lambda n, k, exact=False, **kw: Num(F(_math.comb(int(n), int(k)))),
    }
    return Shim("scipy.special", real, over)


def make_scipy(special):
    import scipy as real
    import scipy.linalg
    import scipy.integrate

    lin = Shim("scipy.linalg", scipy.linalg, {
        "eigh": _eigh, "eigh_tridiagonal": _eigh_tridiagonal,
        "eigvalsh": lambda h, *a, **k: eigh_stub(h)[0]}, np_wrap)
    integ = Shim("scipy.integrate", scipy.integrate, {
        "trapezoid": np_wrap(_np.trapz), "trapz": np_wrap(_np.trapz)}, np_wrap)
    return Shim("scipy", real, {"special": special, "linalg": lin, "integrate": integ}), lin, integ


# ---- sympy ----------------------------------------------------------------
class SympyBridge:
    """sympy.Float(<symbolic>) becomes a positive sympy symbol that stands for
    the term; results of sympy.integrate are mapped back to Num."""

    def __init__(self):
        import sympy

        self.sp = sympy
        self.sym = {}  # sympy symbol name -> Num
        self.memo = {}

    def lift(self, x):
        sp = self.sp
        if isinstance(x, (Num, LogNum, SInt)):
            n = Num.of(x)
            if not n.isreal():
                return self.lift(n.real) + sp.I * self.lift(n.imag)
            v = canon(n.re)
            if isinstance(v, F):
                return sp.Rational(v.numerator, v.denominator)
            key = v.get_id()
            for s, t in self.sym.values():
                if t.eq(v):
                    return s
            pos = eng().check(v <= 0, branch=True) == z3.unsat
            s = sp.Symbol("q%d" % len(self.sym), positive=True if pos else None, real=True)
            self.sym[s.name] = (s, v)
            return s
        if isinstance(x, float):
            f = F(x)
            return sp.Rational(f.numerator, f.denominator)
        return x

    def to_num(self, e):
        sp = self.sp
        e = sp.sympify(e)
        if e in self.memo:
            r = self.memo[e]
            if r[0] is eng() and r[1] == len(eng().trace) and r[2] is eng()._solver:
                return r[3]
        r = self._to_num(e)
        self.memo[e] = (eng(), len(eng().trace), eng()._solver, r)
        return r

    def _to_num(self, e):
        sp = self.sp
        if e.is_Integer:
            return Num(F(int(e)))
        if e.is_Rational:
            return Num(F(int(e.p), int(e.q)))
        if e.is_Float:
            return Num(F(float(e)))
        if e is sp.pi:
            return pi()
        if e is sp.I:
            return Num(F(0), F(1), True)
        if e.is_Symbol:
            if e.name in self.sym:
                return Num(self.sym[e.name][1])
            raise Unsupported("free sympy symbol %s" % e)
        if e.is_Add:
            r = Num(F(0))
            for a in e.args:
                r = r + self.to_num(a)
            return r
        if e.is_Mul:
            r = Num(F(1))
            for a in e.args:
                r = r * self.to_num(a)
            return r
        if e.is_Pow:
            b, x = e.args
            xv = x
            if x.is_Float:
                xv = sp.Rational(*F(float(x)).as_integer_ratio())
            if not xv.is_Rational:
                raise Unsupported("sympy power %s" % e)
            return self.to_num(b) ** Num(F(int(xv.p), int(xv.q)))
        if isinstance(e, sp.exp):
            return funcs.exp(self.to_num(e.args[0]))
        if isinstance(e, sp.gamma):
            return funcs.gamma(self.to_num(e.args[0]))
        if isinstance(e, sp.Abs):
            return abs(self.to_num(e.args[0]))
        if isinstance(e, sp.conjugate):
            return self.to_num(e.args[0]).conjugate()
        if isinstance(e, sp.Piecewise):
            for v, c in e.args:
                if c == True:  # noqa
                    return self.to_num(v)
            raise Unsupported("sympy piecewise")
        e2 = sp.simplify(e)
        if e2 != e:
            return self.to_num(e2)
        raise Unsupported("sympy expression %s" % type(e).__name__)


BRIDGE = None


def bridge():
    global BRIDGE
    if BRIDGE is None:
        BRIDGE = SympyBridge()
    return BRIDGE


def reset_bridge():
    global BRIDGE
    BRIDGE = None


def sympy_to_num(x):
    return bridge().to_num(x)


def make_sympy():
    import sympy as real

    def lift(x):
        return bridge().lift(x)

    def liftall(f):
        def g(*a, **k):
            return f(*[lift(x) if isinstance(x, SYM + (float,)) else x for x in a], **k)

        return g

    memo = {}

    def integrate(expr, *lims, **k):
        key = (expr, lims)
        if key not in memo:
            e2 = real.nsimplify(expr, rational=True) if expr.has(real.Float) else expr
            memo[key] = real.integrate(e2, *lims, **k)
        return memo[key]

    over = {
        "Float": lambda x, *a, **k: lift(x) if isinstance(x, SYM) else real.Rational(*F(float(x)).as_integer_ratio()),
        "sympify": liftall(real.sympify),
        "Rational": lambda *a: lift(a[0]) if isinstance(a[0], SYM) else real.Rational(*a),
        "S": lambda x: lift(x) if isinstance(x, SYM) else real.S(x),
        "assoc_laguerre": liftall(real.assoc_laguerre),
        "exp": liftall(real.exp),
        "sqrt": liftall(real.sqrt),
        "integrate": integrate,
    }
    return Shim("sympy", real, over)
