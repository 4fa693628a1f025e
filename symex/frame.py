"""Stand-in for the part of pandas the package uses: a table whose cells may be
symbolic.  Sorting and comparisons fork on the order of symbolic cells."""
import functools
import types

import numpy as np

from . import arr
from .core import LogNum, Num, SBool, SInt, Unsupported


def _lt(a, b):
    return bool(a < b)


def _cmp(a, b):
    if a is b:
        return 0
    if _lt(a, b):
        return -1
    if bool(a == b):
        return 0
    return 1


def _cell(v):
    if isinstance(v, np.generic):
        v = v.item()
    if isinstance(v, float):
        return Num.of(v)
    return v


def _int(v):
    if isinstance(v, (Num, SInt, LogNum)):
        return arr.sym_int(v)
    return int(v)


class Series:
    __array_priority__ = 1000

    def __init__(self, values, index=None, name=None):
        self.v = list(values)
        self.index = list(range(len(self.v))) if index is None else list(index)
        self.name = name

    def __len__(self):
        return len(self.v)

    def __iter__(self):
        return iter(self.v)

    @property
    def values(self):
        return _toarr(self.v)

    def to_numpy(self):
        return self.values

    def tolist(self):
        return list(self.v)

    to_list = tolist

    def __array_ufunc__(self, uf, method, *ins, **kw):
        if method != "__call__" or kw:
            raise Unsupported("pandas ufunc")
        if uf in (np.absolute,):
            return Series([abs(x) for x in self.v], self.index)
        raise Unsupported("pandas ufunc %s" % uf)

    def _bin(self, o, f):
        if isinstance(o, Series):
            return Series([f(a, b) for a, b in zip(self.v, o.v)], self.index)
        if isinstance(o, (list, tuple, np.ndarray)):
            return Series([f(a, b) for a, b in zip(self.v, o)], self.index)
        return Series([f(a, _cell(o)) for a in self.v], self.index)

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    def __abs__(self):
        return Series([abs(x) for x in self.v], self.index)

    def abs(self):
        return abs(self)

    def __lt__(self, o):
        return self._bin(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._bin(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._bin(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._bin(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._bin(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._bin(o, lambda a, b: a != b)

    __hash__ = None

    def __getitem__(self, k):
        if isinstance(k, str):
            return self.v[self.index.index(k)]
        return self.v[self.index.index(int(k))]

    @property
    def iloc(self):
        return _SIloc(self)

    def round(self, decimals=0):
        # exact arithmetic: energies that differ differ by more than the rounding
        return Series(self.v, self.index, self.name)

    def unique(self):
        out = []
        for x in self.v:
            if not any(bool(x == y) for y in reversed(out)):
                out.append(x)
        return _Values(out)

    def nunique(self):
        return len(self.unique())

    def astype(self, t):
        if t in (int, "int", np.int64, "int64"):
            return Series([_int(x) for x in self.v], self.index, self.name)
        if t in (float, "float", np.float64, "float64"):
            return Series([Num.of(x) for x in self.v], self.index, self.name)
        raise Unsupported("pandas astype %s" % t)

    def value_counts(self):
        c = {}
        for x in self.v:
            if isinstance(x, (Num, SInt, LogNum)):
                raise Unsupported("value_counts of symbolic cells")
            c[x] = c.get(x, 0) + 1
        return Series(list(c.values()), list(c.keys()))

    def to_dict(self):
        return dict(zip(self.index, self.v))

    def map(self, f):
        g = f.get if isinstance(f, dict) else f
        return Series([g(x) for x in self.v], self.index, self.name)

    apply = map

    def copy(self):
        return Series(self.v, self.index, self.name)


class _Values(list):
    pass


class _SIloc:
    def __init__(self, s):
        self.s = s

    def __getitem__(self, k):
        if isinstance(k, slice):
            return Series(self.s.v[k], self.s.index[k])
        return self.s.v[int(k)]


def _toarr(v):
    if any(isinstance(x, (Num, SInt, LogNum)) for x in v):
        return arr.wrap(arr.obj(list(v)))
    return np.array(v)


class DataFrame:
    def __init__(self, data=None, columns=None, index=None):
        self.c = {}
        self.index = []
        if data is None:
            if columns is not None:
                for k in columns:
                    self.c[k] = []
            return
        if isinstance(data, dict):
            for k, v in data.items():
                self.c[k] = [_cell(x) for x in v]
            n = {len(v) for v in self.c.values()}
            if len(n) > 1:
                raise ValueError("All arrays must be of the same length")
            self.index = list(range(n.pop() if n else 0))
            return
        rows = list(data)
        if rows and isinstance(rows[0], dict):
            for r in rows:
                for k in r:
                    self.c.setdefault(k, [])
            for k in self.c:
                self.c[k] = [_cell(r[k]) for r in rows]
        elif columns is not None:
            for j, k in enumerate(columns):
                self.c[k] = [_cell(r[j]) for r in rows]
        else:
            raise Unsupported("DataFrame constructor")
        self.index = list(range(len(rows)))

    def _new(self, cols, index):
        d = DataFrame()
        d.c, d.index = cols, list(index)
        return d

    def copy(self, deep=True):
        return self._new({k: list(v) for k, v in self.c.items()}, self.index)

    @property
    def columns(self):
        return list(self.c)

    @property
    def shape(self):
        return len(self.index), len(self.c)

    def __len__(self):
        return len(self.index)

    def __getitem__(self, k):
        if isinstance(k, str):
            return Series(self.c[k], self.index, k)
        if isinstance(k, list):
            return self._new({c: list(self.c[c]) for c in k}, self.index)
        if isinstance(k, Series):
            keep = [i for i, b in enumerate(k.v) if bool(b)]
            return self._rows(keep)
        if isinstance(k, slice):
            return self._rows(range(len(self.index))[k])
        raise Unsupported("DataFrame[%s]" % type(k).__name__)

    def __getattr__(self, k):
        c = self.__dict__.get("c", {})
        if k in c:
            return Series(c[k], self.index, k)
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported("DataFrame.%s" % k)

    def __setitem__(self, k, v):
        n = len(self.index)
        if isinstance(v, Series):
            self.c[k] = list(v.v)
        elif isinstance(v, (list, tuple, np.ndarray)):
            self.c[k] = [_cell(x) for x in v]
        else:
            self.c[k] = [_cell(v)] * n
        if not n:
            self.index = list(range(len(self.c[k])))

    def _rows(self, pos):
        pos = list(pos)
        return self._new({k: [v[i] for i in pos] for k, v in self.c.items()},
                         [self.index[i] for i in pos])

    @property
    def loc(self):
        return _Loc(self)

    @property
    def iloc(self):
        return _Iloc(self)

    @property
    def at(self):
        return _Loc(self)

    def sort_values(self, by, ascending=True, **k):
        if k.get("inplace") or ascending is not True:
            raise Unsupported("sort_values options")
        by = [by] if isinstance(by, str) else list(by)
        cols = [self.c[b] for b in by]

        def cmp(i, j):
            for c in cols:
                r = _cmp(c[i], c[j])
                if r:
                    return r
            return 0

        r = self._rows(sorted(range(len(self.index)), key=functools.cmp_to_key(cmp)))
        if k.get("ignore_index"):
            r.index = list(range(len(r.index)))
        return r

    def reset_index(self, drop=False):
        d = self.copy()
        if not drop:
            d.c = {"index": list(self.index), **d.c}
        d.index = list(range(len(d.index)))
        return d

    def drop(self, labels=None, axis=0, columns=None):
        names = columns if columns is not None else labels
        if columns is None and axis not in (1, "columns"):
            raise Unsupported("DataFrame.drop rows")
        names = [names] if isinstance(names, str) else list(names)
        return self._new({k: list(v) for k, v in self.c.items() if k not in names}, self.index)

    def head(self, n=5):
        return self._rows(range(min(n, len(self.index))))

    def iterrows(self):
        for i, ix in enumerate(self.index):
            yield ix, Series([v[i] for v in self.c.values()], list(self.c))

    def itertuples(self, index=True, name="Pandas"):
        for i, ix in enumerate(self.index):
            ns = types.SimpleNamespace(Index=ix, **{k: v[i] for k, v in self.c.items()})
            yield ns


class _Loc:
    def __init__(self, d):
        self.d = d

    def _pos(self, r):
        d = self.d
        if isinstance(r, slice):
            if r == slice(None):
                return list(range(len(d.index)))
            raise Unsupported("loc slice")
        if isinstance(r, Series):
            return [i for i, b in enumerate(r.v) if bool(b)]
        if isinstance(r, (list, tuple, np.ndarray)):
            return [d.index.index(int(x)) for x in r]
        try:
            return d.index.index(int(r))
        except ValueError:
            raise KeyError(r)

    def __getitem__(self, k):
        d = self.d
        if not isinstance(k, tuple):
            p = self._pos(k)
            if isinstance(p, list):
                return d._rows(p)
            return Series([v[p] for v in d.c.values()], list(d.c))
        r, c = k
        p = self._pos(r)
        if isinstance(p, list):
            q = d._rows(p)
            return q[c]
        if isinstance(c, str):
            return d.c[c][p]
        return Series([d.c[x][p] for x in c], list(c))

    def __setitem__(self, k, v):
        d = self.d
        r, c = k
        if isinstance(r, (int, np.integer)) and int(r) not in d.index:
            d.index.append(int(r))
            for col in d.c.values():
                col.append(None)
        cs = [c] if isinstance(c, str) else list(c)
        p = self._pos(r)
        ps = p if isinstance(p, list) else [p]
        for j, x in enumerate(cs):
            col = d.c.setdefault(x, [None] * len(d.index))
            vals = v if isinstance(c, str) else v[j]
            for i, q in enumerate(ps):
                if isinstance(vals, (list, tuple, np.ndarray, Series)) and isinstance(p, list):
                    col[q] = _cell(list(vals)[i])
                else:
                    col[q] = _cell(vals)


class _Iloc:
    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        d = self.d
        if isinstance(k, slice):
            return d._rows(range(len(d.index))[k])
        if isinstance(k, tuple):
            raise Unsupported("iloc with columns")
        if not -len(d.index) <= int(k) < len(d.index):
            raise IndexError("single positional indexer is out-of-bounds")
        k = int(k)
        return Series([v[k] for v in d.c.values()], list(d.c))


def where(cond, *a):
    """np.where(series) -> positions"""
    if a:
        raise Unsupported("np.where on pandas")
    return (np.array([i for i, b in enumerate(cond.v) if bool(b)], dtype=int),)


def make_pandas():
    m = types.ModuleType("pandas")
    m.DataFrame = DataFrame
    m.Series = Series

    def missing(name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("pandas.%s" % name)

    m.__getattr__ = missing
    return m
