"""SymArr: an object-dtype ndarray that reports float64/complex128/int64/bool
as its dtype and mimics numpy's casting rules on assignment."""
import warnings
import numpy as np
from fractions import Fraction as F
import z3

from .core import (
    LogNum, Num, SBool, SInt, Unsupported, as_pyint, bterm, eng, mkbool, rv,
)
from . import funcs

SYM = (Num, SInt, SBool, LogNum)
_KINDS = {"f": np.dtype(np.float64), "c": np.dtype(np.complex128),
          "i": np.dtype(np.int64), "b": np.dtype(np.bool_)}
_ORDER = {"b": 0, "i": 1, "f": 2, "c": 3}


def kind_of(x):
    if isinstance(x, SymArr):
        return x.kind
    if isinstance(x, np.ndarray):
        k = x.dtype.kind
        if k == "O":
            return arr_kind(x)
        return {"u": "i"}.get(k, k) if k in "biufc" else "O"
    if isinstance(x, Num):
        return "c" if x.c else "f"
    if isinstance(x, LogNum):
        return "f"
    if isinstance(x, SInt):
        return "i"
    if isinstance(x, (SBool, bool, np.bool_)):
        return "b"
    if isinstance(x, (int, np.integer)):
        return "i"
    if isinstance(x, (float, F, np.floating)):
        return "f"
    if isinstance(x, (complex, np.complexfloating)):
        return "c"
    if type(x).__module__.startswith("sympy"):
        return "c" if not x.is_real else "f"
    if hasattr(x, "jet_kind"):
        return x.jet_kind()
    return "O"


def max_kind(ks):
    best = "b"
    for k in ks:
        if k == "O":
            return "O"
        if _ORDER[k] > _ORDER[best]:
            best = k
    return best


def arr_kind(a):
    return max_kind(kind_of(x) for x in a.ravel()) if a.size else "f"


class SymArr(np.ndarray):
    def __array_finalize__(self, obj):
        k = getattr(obj, "_kind", None)
        self._kind = k

    @property
    def kind(self):
        if self._kind is None:
            self._kind = arr_kind(self.view(np.ndarray))
        return self._kind

    @property
    def dtype(self):
        return _KINDS.get(self.kind, np.dtype(object))

    def base_arr(self):
        return self.view(np.ndarray)

    # -- conversions -------------------------------------------------------
    def astype(self, dtype, *a, **k):
        return cast(self, dtype, copy=True)

    def conj(self):
        return mapel(lambda x: x.conjugate(), self, self.kind)

    def conjugate(self):
        return self.conj()

    @property
    def real(self):
        return mapel(lambda x: Num.of(x).real if self.kind == "c" else x, self,
                     "f" if self.kind == "c" else self.kind)

    @real.setter
    def real(self, v):
        b = self.base_arr()
        vv = np.broadcast_to(obj(v), b.shape)
        for i in np.ndindex(b.shape):
            b[i] = Num(Num.of(vv[i]).re, Num.of(b[i]).im, self.kind == "c")

    @property
    def imag(self):
        return mapel(lambda x: Num.of(x).imag, self, "f")

    @imag.setter
    def imag(self, v):
        b = self.base_arr()
        vv = np.broadcast_to(obj(v), b.shape)
        for i in np.ndindex(b.shape):
            b[i] = Num(Num.of(b[i]).re, Num.of(vv[i]).re, True)

    def copy(self, order="C"):
        return wrap(self.base_arr().copy(), self.kind)

    def tolist(self):
        return self.base_arr().tolist()

    def __getitem__(self, idx):
        r = self.base_arr()[conv_index(idx)]
        if isinstance(r, np.ndarray):
            return wrap(r, self.kind)
        if self.kind == "c" and isinstance(r, Num) and not r.c:
            return Num(r.re, r.im, True)
        return r

    def __setitem__(self, idx, val):
        idx = conv_index(idx)
        b = self.base_arr()
        k = self.kind
        vk = kind_of(val) if not isinstance(val, (list, tuple)) else kind_of(
            obj(val))
        if vk == "O" and isinstance(val, np.ndarray):
            vk = arr_kind(val)
        if k != "O" and vk != "O" and _ORDER[vk] > _ORDER[k] and k in "fib":
            if vk == "c" and not isinstance(val, np.ndarray) and not isinstance(val, (list, tuple)):
                raise TypeError("can't convert complex to float")
            val = cast(wrap(obj(val), vk), _KINDS[k], copy=True)
            if val.shape == ():
                val = val.base_arr().item()
        if isinstance(val, np.ndarray):
            o = obj(val)
            if o.ndim and not isinstance(b[idx], np.ndarray):
                if o.size != 1:
                    raise ValueError("setting an array element with a sequence.")
                o = o.reshape(())
            if o.ndim == 0 and not isinstance(b[idx], np.ndarray):
                b[idx] = o.item()
            else:
                b[idx] = o
        elif isinstance(val, (list, tuple)):
            b[idx] = obj(val)
        else:
            el = val if k == "O" else to_el(val)
            tgt = b[idx]
            if isinstance(tgt, np.ndarray):
                tmp = np.empty((), dtype=object)
                tmp[()] = el
                b[idx] = tmp
            else:
                b[idx] = el

    def fill(self, v):
        self[...] = v

    def dot(self, o):
        return function_dispatch(np.dot, (self, o), {})

    def sum(self, axis=None, **k):
        return function_dispatch(np.sum, (self,), dict(axis=axis, **k))

    def prod(self, axis=None, **k):
        return function_dispatch(np.prod, (self,), dict(axis=axis, **k))

    def trace(self, *a, **k):
        return function_dispatch(np.trace, (self,) + a, k)

    def diagonal(self, *a, **k):
        return wrap(self.base_arr().diagonal(*a, **k), self.kind)

    def max(self, *a, **k):
        return function_dispatch(np.max, (self,) + a, k)

    def min(self, *a, **k):
        return function_dispatch(np.min, (self,) + a, k)

    def mean(self, *a, **k):
        return function_dispatch(np.mean, (self,) + a, k)

    def all(self, *a, **k):
        return function_dispatch(np.all, (self,) + a, k)

    def any(self, *a, **k):
        return function_dispatch(np.any, (self,) + a, k)

    def round(self, *a, **k):
        return self.copy()

    def item(self, *a):
        return self.base_arr().item(*a)

    def __deepcopy__(self, memo):
        return self.copy()

    def __copy__(self):
        return self.copy()

    def __reduce__(self):
        raise Unsupported("pickling a symbolic array")

    def view(self, *a, **k):
        if a and isinstance(a[0], type) and issubclass(a[0], np.ndarray):
            return np.ndarray.view(self, *a, **k)
        if not a and not k:
            return wrap(np.ndarray.view(self, np.ndarray), self._kind)
        raise Unsupported("view with dtype")

    def __bool__(self):
        if self.size != 1:
            raise ValueError("truth value of an array is ambiguous")
        return bool(self.base_arr().item())

    def __float__(self):
        return float(self.base_arr().item())

    def __complex__(self):
        return complex(self.base_arr().item())

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __repr__(self):
        return "SymArr<%s>%s" % (self.kind, self.shape)

    __str__ = __repr__

    def __matmul__(self, o):
        return function_dispatch(np.matmul, (self, o), {})

    def __rmatmul__(self, o):
        return function_dispatch(np.matmul, (o, self), {})

    # -- protocol ----------------------------------------------------------
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kw):
        return function_dispatch(func, args, kw)


def to_el(x):
    """element stored in an object array"""
    if isinstance(x, (SInt, SBool, Num, LogNum)) or hasattr(x, "jet_kind"):
        return x
    if isinstance(x, np.ndarray):
        if x.size != 1:
            raise ValueError("setting an array element with a sequence.")
        x = np.ndarray.view(x, np.ndarray).item()
        return to_el(x)
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    i = as_pyint(x)
    if i is not None:
        return i
    return Num.of(x)


def conv_index(idx):
    if isinstance(idx, tuple):
        return tuple(conv_index(i) for i in idx)
    if isinstance(idx, SymArr):
        k = idx.kind
        if k == "b":
            return np.array([bool(x) for x in idx.base_arr().ravel()]).reshape(idx.shape)
        if k == "i":
            return np.array([int(x) for x in idx.base_arr().ravel()], dtype=int).reshape(idx.shape)
        raise IndexError("arrays used as indices must be of integer (or boolean) type")
    if isinstance(idx, SInt):
        return int(idx)
    if isinstance(idx, SBool):
        return bool(idx)
    if isinstance(idx, slice):
        f = lambda v: int(v) if isinstance(v, SInt) else v
        return slice(f(idx.start), f(idx.stop), f(idx.step))
    if isinstance(idx, list):
        return [conv_index(i) for i in idx]
    return idx


def obj(x):
    """base object ndarray of elements"""
    if isinstance(x, SymArr):
        return x.base_arr()
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return x
        out = np.empty(x.shape, dtype=object)
        fo, fi = out.ravel(), x.ravel()
        for i in range(fi.size):
            fo[i] = to_el(fi[i])
        return fo.reshape(x.shape)
    if isinstance(x, (list, tuple)):
        subs = [obj(v) for v in x]
        if not subs:
            return np.empty((0,), dtype=object)
        shp = subs[0].shape
        if any(s.shape != shp for s in subs):
            raise ValueError("setting an array element with a sequence. "
                             "The requested array has an inhomogeneous shape")
        out = np.empty((len(subs),) + shp, dtype=object)
        for i, s in enumerate(subs):
            out[i] = s if shp else s.item()
        return out
    if isinstance(x, range):
        return obj(list(x))
    out = np.empty((), dtype=object)
    out[()] = to_el(x)
    return out


def wrap(a, kind=None):
    r = np.ndarray.view(a, SymArr)
    r._kind = kind if kind is not None else arr_kind(a)
    return r


def mapel(f, a, kind=None):
    b = obj(a)
    out = np.empty(b.shape, dtype=object)
    fo, fi = out.reshape(-1), b.reshape(-1)
    for i in range(fi.size):
        fo[i] = f(fi[i])
    return wrap(fo.reshape(b.shape), kind)


def is_narrow(dtype):
    d = np.dtype(dtype)
    return d.kind in "fc" and d.itemsize < (8 if d.kind == "f" else 16)


def narrow(x):
    """single precision keeps constants that fit and rounds everything else to
    an unknown value"""
    def one(v):
        if isinstance(v, F):
            return F(float(np.float32(float(v))))
        return eng().atom("single", [v], lambda c: [])

    return Num(one(x.re), one(x.im), x.c)


def cast(a, dtype, copy=True):
    if dtype is object:
        return a.copy() if copy else a
    k = np.dtype(dtype).kind
    k = {"u": "i"}.get(k, k)
    if k == "O":
        return a.copy() if copy else a
    src = a.kind
    if is_narrow(dtype):
        a = mapel(lambda x: x if hasattr(x, "jet_kind") else narrow(Num.of(x)), a, src)
    if k == src:
        return a.copy() if copy else a
    if k == "c":
        return mapel(lambda x: x if hasattr(x, "jet_kind") else
                     (lambda n: Num(n.re, n.im, True))(Num.of(x)), a, "c")
    if k == "f":
        if src == "c":
            warnings.warn("Casting complex values to real discards the imaginary part")
        return mapel(lambda x: x if hasattr(x, "jet_kind") else Num(Num.of(x).re), a, "f")
    if k == "i":
        return mapel(sym_int, a, "i")
    if k == "b":
        return mapel(lambda x: x != 0, a, "b")
    raise Unsupported("astype %s" % dtype)


def sym_int(x):
    """int(x) for symbolic x (truncation)."""
    if isinstance(x, SInt):
        return x
    if isinstance(x, SBool):
        return x._i()
    if isinstance(x, LogNum):
        x = x.to_num()
    if isinstance(x, Num):
        if x.c:
            raise TypeError("int() argument must not be complex")
        return x.__trunc__()
    return int(x)


def has_sym(x, depth=3):
    if isinstance(x, (SymArr,) + SYM) or hasattr(x, "jet_kind"):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if depth and isinstance(x, (list, tuple)):
        return any(has_sym(v, depth - 1) for v in x)
    if depth and isinstance(x, dict):
        return any(has_sym(v, depth - 1) for v in x.values())
    return False


def norm_out(a, kind=None):
    if isinstance(a, np.ndarray) and a.dtype == object:
        if a.shape == ():
            return a.item()
        return wrap(a, kind)
    if isinstance(a, (tuple, list)) and has_sym(a):
        return type(a)(norm_out(x, kind) for x in a)
    return a


# -- ufuncs ----------------------------------------------------------------
def _jetaware(name, f):
    def g(x):
        if hasattr(x, "jet_kind"):
            return getattr(x, name)()
        return f(x)

    return g


def _sqrt(x):
    return Num.of(x).sqrt()


def _absolute(x):
    return abs(x)


_UN = {
    "sqrt": _jetaware("sqrt", _sqrt),
    "exp": _jetaware("exp", funcs.exp),
    "log": _jetaware("log", funcs.log),
    "sin": _jetaware("sin", funcs.sin),
    "cos": _jetaware("cos", funcs.cos),
    "absolute": _absolute,
    "fabs": _absolute,
    "conjugate": lambda x: x.conjugate(),
    "floor": lambda x: Num.of(x).floor(),
    "ceil": lambda x: -((-Num.of(x)).floor()),
    "sign": funcs.sign,
    "square": lambda x: x * x,
    "isnan": lambda x: False,
    "isinf": lambda x: False,
    "isfinite": lambda x: True,
    "negative": lambda x: -x,
    "positive": lambda x: x,
    "reciprocal": lambda x: 1 / Num.of(x),
    "logical_not": lambda x: mkbool(z3.Not(bterm(x))),
    "rint": lambda x: x,
    "exp2": lambda x: 2 ** Num.of(x),
    "log2": lambda x: funcs.log(x) / funcs.log(2),
    "log1p": lambda x: funcs.log(1 + Num.of(x)),
}
_CMP = {"less", "less_equal", "greater", "greater_equal", "equal", "not_equal",
        "logical_not", "isnan", "isinf", "isfinite"}
_REALOUT = {"absolute", "fabs"}


def _pow(a, b):
    return a ** b


def _max(a, b):
    a, b = Num.of(a), Num.of(b)
    return Num(z3.simplify(z3.If(rv(a.re) >= rv(b.re), rv(a.re), rv(b.re))))


def _min(a, b):
    a, b = Num.of(a), Num.of(b)
    return Num(z3.simplify(z3.If(rv(a.re) <= rv(b.re), rv(a.re), rv(b.re))))


def _truediv(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return Num.of(a) / b
    return a / b


_BIN = {
    "power": _pow,
    "float_power": _pow,
    "true_divide": _truediv,
    "divide": _truediv,
    "floor_divide": lambda a, b: a // b,
    "remainder": lambda a, b: a % b,
    "mod": lambda a, b: a % b,
    "maximum": _max,
    "minimum": _min,
    "fmax": _max,
    "fmin": _min,
    "heaviside": funcs.heaviside,
    "logical_and": lambda a, b: mkbool(z3.And(bterm(a), bterm(b))),
    "logical_or": lambda a, b: mkbool(z3.Or(bterm(a), bterm(b))),
    "hypot": lambda a, b: (Num.of(a) * a + Num.of(b) * b).sqrt(),
    "less": lambda a, b: a < b,
    "less_equal": lambda a, b: a <= b,
    "greater": lambda a, b: a > b,
    "greater_equal": lambda a, b: a >= b,
    "equal": lambda a, b: a == b,
    "not_equal": lambda a, b: a != b,
    "bitwise_and": lambda a, b: a & b,
    "bitwise_or": lambda a, b: a | b,
    "bitwise_xor": lambda a, b: a ^ b,
}


def _fuf(f, nin):
    uf = np.frompyfunc(f, nin, 1)
    return uf


def ufunc_dispatch(ufunc, method, inputs, kw):
    name = ufunc.__name__
    out = kw.pop("out", None)
    kw.pop("dtype", None)
    kw.pop("casting", None)
    where = kw.pop("where", True)
    if where is not True:
        raise Unsupported("ufunc where=")
    objs = [obj(x) for x in inputs]
    if name == "matmul" and method == "__call__":
        res = norm_out(np.matmul(*objs), max_kind(map(kind_of, inputs)))
        return _store(res, out, name)
    ks = [kind_of(x) if not isinstance(x, (list, tuple)) else arr_kind(o)
          for x, o in zip(inputs, objs)]
    if name in _UN and len(objs) == 1:
        uf = _fuf(_UN[name], 1)
    elif name in _BIN and len(objs) == 2:
        uf = _fuf(_BIN[name], 2)
    else:
        uf = ufunc
    if name in _CMP or name.startswith("logical"):
        kind = "b"
    elif name in _REALOUT:
        kind = "f" if max_kind(ks) == "c" else max_kind(ks)
    else:
        kind = max_kind(ks)
        if kind in ("i", "b") and name in (
            "sqrt", "exp", "log", "sin", "cos", "true_divide", "divide"):
            kind = "f"
        if kind == "b" and name in ("add", "multiply", "subtract"):
            kind = None
    if method == "__call__":
        r = uf(*objs, **kw)
    elif method == "outer":
        r = uf.outer(*objs, **kw)
    elif method in ("reduce", "accumulate"):
        r = getattr(uf, method)(*objs, **kw)
    elif method == "at":
        raise Unsupported("ufunc.at")
    else:
        raise Unsupported("ufunc method " + method)
    if not isinstance(r, np.ndarray):
        t = np.empty((), dtype=object)
        t[()] = r
        r = t
    elif r.dtype != object:
        r = obj(r)
    if out is not None:
        return _store(wrap(r, kind), out, name)
    return norm_out(r, kind)


def _store(res, out, name):
    if out is None:
        return res
    o = out[0] if isinstance(out, tuple) else out
    rk = kind_of(res)
    if not isinstance(o, SymArr):
        # in-place update of a concrete array with symbolic values
        if o.dtype == object:
            o[...] = obj(res)
            return o
        raise Unsupported("in-place update of a concrete array")
    k = o.kind
    if k != "O" and rk != "O" and _ORDER[rk] > _ORDER[k]:
        raise TypeError(
            "Cannot cast ufunc '%s' output from %s to %s with casting rule "
            "'same_kind'" % (name, rk, k))
    o.base_arr()[...] = obj(res)
    return o


# -- array functions -------------------------------------------------------
FUNCS = {}


def implements(*fs):
    def deco(g):
        for f in fs:
            FUNCS[f] = g
        return g

    return deco


def strip(x):
    if isinstance(x, (SymArr,)):
        return x.base_arr()
    if isinstance(x, SYM):
        return obj(x)
    if isinstance(x, np.ndarray):
        return obj(x) if x.dtype.kind in "fc" else x
    if isinstance(x, (list, tuple)):
        if has_sym(x):
            if not any(isinstance(v, (np.ndarray, list, tuple)) for v in x):
                return obj(x)
            return type(x)(strip(v) for v in x)
        return x
    if isinstance(x, dict):
        return {k: strip(v) for k, v in x.items()}
    return x


def deep_kind(args):
    ks = []

    def rec(x):
        if isinstance(x, (list, tuple)):
            for v in x:
                rec(v)
        elif isinstance(x, (np.ndarray,) + SYM):
            ks.append(kind_of(x))
        elif isinstance(x, complex):
            ks.append("c")

    rec(args)
    return max_kind(ks) if ks else None


_GENERIC_DROP = ("dtype",)


def function_dispatch(func, args, kw):
    if func in FUNCS:
        return FUNCS[func](*args, **kw)
    kind = deep_kind(list(args) + list(kw.values()))
    kw = dict(kw)
    dt = kw.pop("dtype", None)
    kw2 = {k: strip(v) for k, v in kw.items()}
    if "out" in kw:
        raise Unsupported("out= for %s" % func.__name__)
    r = func(*[strip(a) for a in args], **kw2)
    r = norm_out(r, kind if kind not in ("b", "i") else None)
    if dt is not None and isinstance(r, SymArr):
        r = cast(r, dt, copy=False)
    return r


@implements(np.einsum)
def einsum(*operands, optimize=None, **kw):
    out = kw.pop("out", None)
    dt = kw.pop("dtype", None)
    kw.pop("order", None)
    kw.pop("casting", None)
    if not isinstance(operands[0], str):
        # interleaved format
        ops, subs = [], []
        rest = list(operands)
        letters = {}

        def let(i):
            return letters.setdefault(i, chr(ord("a") + len(letters)))

        while len(rest) >= 2:
            ops.append(rest.pop(0))
            subs.append("".join(let(i) for i in rest.pop(0)))
        expr = ",".join(subs)
        if rest:
            expr += "->" + "".join(let(i) for i in rest[0])
        operands = (expr,) + tuple(ops)
    expr = operands[0].replace(" ", "")
    ops = [obj(o) for o in operands[1:]]
    kind = max_kind([kind_of(o) if not isinstance(o, (list, tuple)) else arr_kind(obj(o))
                     for o in operands[1:]])
    if "->" in expr:
        ins, outs = expr.split("->")
    else:
        ins = expr
        outs = None
    ins = ins.split(",")
    if "..." in expr:
        # expand the ellipsis with capital letters
        nd = max(o.ndim - len(i.replace("...", "")) for i, o in zip(ins, ops))
        ell = "ABCDEFGHIJ"[:nd]
        new = []
        for i, o in zip(ins, ops):
            k = o.ndim - len(i.replace("...", ""))
            new.append(i.replace("...", ell[nd - k:] if k else ""))
        ins = new
        if outs is None:
            cnt = "".join(ins)
            outs = ell + "".join(sorted(c for c in set(cnt) if cnt.count(c) == 1 and c not in ell))
        else:
            outs = outs.replace("...", ell)
    if outs is None:
        cnt = "".join(ins)
        outs = "".join(sorted(c for c in set(cnt) if cnt.count(c) == 1))
    if len(ins) != len(ops):
        raise ValueError("einsum: number of operands does not match subscripts")
    dims = {}
    for i, o in zip(ins, ops):
        if len(i) != o.ndim:
            raise ValueError("einstein sum subscripts string has wrong number of subscripts")
        for c, n in zip(i, o.shape):
            if dims.setdefault(c, n) != n:
                if 1 in (dims[c], n):
                    raise Unsupported("einsum broadcasting")
                raise ValueError("operands could not be broadcast together")
    for c in outs:
        if c not in dims:
            raise ValueError("einsum: unknown output subscript")

    def diag(sub, a):
        # repeated letters within one operand
        while True:
            for c in sub:
                if sub.count(c) > 1:
                    i = sub.index(c)
                    j = sub.index(c, i + 1)
                    a = np.diagonal(a, axis1=i, axis2=j)
                    sub = sub[:i] + sub[i + 1:j] + sub[j + 1:] + c
                    break
            else:
                return sub, a

    cur_s, cur = diag(ins[0], ops[0])

    def reduce_unneeded(s, a, needed):
        for c in list(s):
            if c not in needed:
                ax = s.index(c)
                a = obj(np.add.reduce(a, axis=ax)) if a.shape[ax] else obj(np.zeros(a.shape[:ax] + a.shape[ax + 1:]))
                s = s[:ax] + s[ax + 1:]
        return s, a

    for k in range(1, len(ops)):
        needed = set("".join(ins[k:])) | set(outs)
        cur_s, cur = reduce_unneeded(cur_s, cur, needed)
        s2, a2 = diag(ins[k], ops[k])
        s2, a2 = reduce_unneeded(s2, a2, set(cur_s) | set("".join(ins[k + 1:])) | set(outs))
        alls = cur_s + "".join(c for c in s2 if c not in cur_s)
        A = cur.reshape(cur.shape + (1,) * (len(alls) - len(cur_s)))
        order = [s2.index(c) for c in alls if c in s2]
        B = a2.transpose(order).reshape([dims[c] if c in s2 else 1 for c in alls])
        cur = A * B
        cur_s = alls
    cur_s, cur = reduce_unneeded(cur_s, cur, set(outs))
    if not isinstance(cur, np.ndarray):
        cur = obj(cur)
    res = cur.transpose([cur_s.index(c) for c in outs]) if outs else cur
    res = norm_out(np.array(res, dtype=object, copy=True) if res.shape else res, kind)
    if dt is not None and isinstance(res, SymArr):
        res = cast(res, dt)
    return _store(res, out, "einsum")


@implements(np.dot)
def _dot(a, b, out=None):
    k = max_kind([kind_of(a), kind_of(b)])
    r = np.dot(obj(a), obj(b))
    return _store(norm_out(r, k), out, "dot")


@implements(np.vdot)
def _vdot(a, b):
    return norm_out(np.dot(obj(mapel(lambda x: x.conjugate(), a)).ravel(), obj(b).ravel()))


@implements(np.zeros_like, np.empty_like)
def _zeros_like(a, dtype=None, order=None, subok=True, shape=None):
    k = kind_of(a) if dtype is None else np.dtype(dtype).kind
    return full(shape if shape is not None else a.shape, 0, k)


@implements(np.ones_like)
def _ones_like(a, dtype=None, order=None, subok=True, shape=None):
    k = kind_of(a) if dtype is None else np.dtype(dtype).kind
    return full(shape if shape is not None else a.shape, 1, k)


@implements(np.full_like)
def _full_like(a, v, dtype=None, order=None, subok=True, shape=None):
    k = kind_of(a) if dtype is None else np.dtype(dtype).kind
    r = full(shape if shape is not None else a.shape, 0, k)
    r[...] = v
    return r


def full(shape, v, kind):
    if isinstance(shape, (int, np.integer, SInt)):
        shape = (int(shape),)
    shape = tuple(int(s) for s in shape)
    out = np.empty(shape, dtype=object)
    n = v if kind in "ib" else Num(F(v), F(0), kind == "c")
    out.fill(n)
    return wrap(out, kind)


@implements(np.iscomplexobj)
def _iscomplexobj(x):
    return kind_of(x) == "c"


@implements(np.isrealobj)
def _isrealobj(x):
    return kind_of(x) != "c"


@implements(np.real)
def _real(x):
    return x.real


@implements(np.imag)
def _imag(x):
    return x.imag


@implements(np.copy)
def _copy(a, order="K", subok=False):
    return a.copy()


@implements(np.result_type)
def _result_type(*a):
    return np.result_type(*[x if not isinstance(x, (SymArr,) + SYM) else _KINDS[kind_of(x)] for x in a])


@implements(np.can_cast)
def _can_cast(a, b, casting="safe"):
    return np.can_cast(_KINDS[kind_of(a)] if isinstance(a, (SymArr,) + SYM) else a, b, casting)


@implements(np.shares_memory)
def _shares(a, b, **k):
    return np.shares_memory(np.asarray(strip(a)), np.asarray(strip(b)))


@implements(np.may_share_memory)
def _mshares(a, b, **k):
    return np.may_share_memory(np.asarray(strip(a)), np.asarray(strip(b)))


@implements(np.where)
def _where(cond, x=None, y=None):
    c = obj(cond)
    if x is None:
        return np.where(np.array([bool(v) for v in c.ravel()]).reshape(c.shape))

    def ite(c, a, b):
        if isinstance(c, SBool):
            if isinstance(a, SInt) or isinstance(b, SInt) or (
                isinstance(a, int) and isinstance(b, int)):
                ta = a.t if isinstance(a, SInt) else z3.IntVal(int(a))
                tb = b.t if isinstance(b, SInt) else z3.IntVal(int(b))
                return SInt(z3.If(c.t, ta, tb))
            a, b = Num.of(a), Num.of(b)
            return Num(z3.If(c.t, rv(a.re), rv(b.re)),
                       z3.simplify(z3.If(c.t, rv(a.im), rv(b.im)))
                       if not (a.isreal() and b.isreal()) else F(0), a.c or b.c)
        return a if c else b

    r = np.frompyfunc(ite, 3, 1)(c, obj(x), obj(y))
    return norm_out(obj(r) if not isinstance(r, np.ndarray) else r, max_kind([kind_of(x), kind_of(y)]))


def _truth(x):
    return [bterm(v) for v in obj(x).ravel()]


@implements(np.all)
def _all(a, axis=None, **k):
    if axis is not None:
        raise Unsupported("np.all axis")
    return mkbool(z3.And(_truth(a) or [z3.BoolVal(True)]))


@implements(np.any)
def _any(a, axis=None, **k):
    if axis is not None:
        raise Unsupported("np.any axis")
    return mkbool(z3.Or(_truth(a) or [z3.BoolVal(False)]))


def _close_terms(a, b, rtol, atol):
    A, B = np.broadcast_arrays(obj(a), obj(b))
    ts = []
    for x, y in zip(A.ravel(), B.ravel()):
        d = abs(Num.of(x) - Num.of(y))
        t = Num.of(atol) + Num.of(rtol) * abs(Num.of(y))
        ts.append(bterm(d <= t))
    return ts, A.shape


@implements(np.allclose)
def _allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    ts, _ = _close_terms(a, b, rtol, atol)
    return mkbool(z3.And(ts or [z3.BoolVal(True)]))


@implements(np.isclose)
def _isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    ts, shp = _close_terms(a, b, rtol, atol)
    out = np.empty(len(ts), dtype=object)
    for i, t in enumerate(ts):
        out[i] = mkbool(t)
    return norm_out(out.reshape(shp), "b")


@implements(np.array_equal)
def _array_equal(a, b, equal_nan=False):
    A, B = obj(a), obj(b)
    if A.shape != B.shape:
        return False
    return mkbool(z3.And([bterm(x == y) for x, y in zip(A.ravel(), B.ravel())] or [z3.BoolVal(True)]))


@implements(np.trapz)
def _trapz(y, x=None, dx=1.0, axis=-1):
    y = wrap(obj(y), kind_of(y) if isinstance(y, np.ndarray) else None)
    n = y.shape[axis]
    y = np.moveaxis(y, axis, -1)
    if x is None:
        d = [Num.of(dx)] * (n - 1)
    else:
        x = obj(x)
        if x.ndim != 1:
            raise Unsupported("trapz nd x")
        d = [x[i + 1] - x[i] for i in range(n - 1)]
    tot = None
    for i in range(n - 1):
        v = (y[..., i] + y[..., i + 1]) * d[i] * Num(F(1, 2))
        tot = v if tot is None else tot + v
    return tot


@implements(np.sinc)
def _sinc(x):
    return norm_out(np.ndarray.view(mapel(funcs.sinc, x, "f"), np.ndarray), "f")


@implements(np.round, np.around)
def _round(a, decimals=0, out=None):
    return a.copy()


@implements(np.fill_diagonal)
def _fill_diag(a, val, wrap=False):
    for i in range(min(a.shape)):
        a[(i,) * a.ndim] = val if not isinstance(val, np.ndarray) else val[i]


@implements(np.copyto)
def _copyto(dst, src, casting="same_kind", where=True):
    if where is not True:
        raise Unsupported("copyto where")
    dst[...] = src


@implements(np.diagflat)
def _diagflat(v, k=0):
    return function_dispatch(np.diag, (wrap(obj(v).ravel()),), dict(k=k))


@implements(np.diag)
def _diag(v, k=0):
    a = obj(v)
    kd = kind_of(v)
    if a.ndim == 1:
        n = a.shape[0] + abs(k)
        r = full((n, n), 0, kd)
        b = r.base_arr()
        for i in range(a.shape[0]):
            b[(i, i + k) if k >= 0 else (i - k, i)] = a[i]
        return r
    return wrap(np.diagonal(a, k).copy(), kd)


@implements(np.kron)
def _kron(a, b):
    k = max_kind([kind_of(a), kind_of(b)])
    A, B = obj(a), obj(b)
    nd = max(A.ndim, B.ndim)
    A = A.reshape((1,) * (nd - A.ndim) + A.shape)
    B = B.reshape((1,) * (nd - B.ndim) + B.shape)
    A2 = A.reshape([s for n in A.shape for s in (n, 1)])
    B2 = B.reshape([s for n in B.shape for s in (1, n)])
    r = (A2 * B2).reshape([x * y for x, y in zip(A.shape, B.shape)])
    return norm_out(r, k)


@implements(np.sum)
def _sum(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    k = kind_of(a) if isinstance(a, np.ndarray) else arr_kind(obj(a))
    r = np.add.reduce(obj(a), axis=axis, keepdims=keepdims) if axis is not None else np.add.reduce(obj(a).ravel())
    if k == "b":
        k = "i"
    if isinstance(r, np.ndarray):
        return norm_out(r, k)
    return r


@implements(np.linalg.norm)
def _norm(x, ord=None, axis=None, keepdims=False):
    if ord is not None or axis is not None:
        raise Unsupported("norm options")
    t = Num(F(0))
    for v in obj(x).ravel():
        v = Num.of(v)
        t = t + (v * v.conjugate()).real
    return t.sqrt()


@implements(np.linalg.multi_dot)
def _multi_dot(arrays, *, out=None):
    r = arrays[0]
    for a in arrays[1:]:
        r = _dot(r, a)
    return r


@implements(np.asarray, np.array, np.asanyarray, np.ascontiguousarray)
def _asarray_(a, *r, **k):
    raise Unsupported("asarray dispatch")


def _sorted_guard(*a, **k):
    raise Unsupported("sorting symbolic data")


@implements(np.linalg.inv)
def _inv(a):
    A = obj(a)
    n = A.shape[0]
    M = [[Num.of(A[i, j]) for j in range(n)] + [Num(F(int(i == j))) for j in range(n)] for i in range(n)]
    for c in range(n):
        p = None
        for r in range(c, n):
            if bool(M[r][c] != 0):
                p = r
                break
        if p is None:
            raise np.linalg.LinAlgError("Singular matrix")
        M[c], M[p] = M[p], M[c]
        iv = Num(F(1)) / M[c][c]
        M[c] = [x * iv for x in M[c]]
        for r in range(n):
            if r != c:
                f = M[r][c]
                if f.isconst() and not f.re and not f.im:
                    continue
                M[r] = [x - f * y for x, y in zip(M[r], M[c])]
    return wrap(obj([row[n:] for row in M]), kind_of(a))


@implements(np.linalg.solve)
def _solve(a, b):
    return _dot(_inv(a), b)
