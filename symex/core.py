"""Symbolic scalars, path engine and solver interface.

Numeric values met by the code under test are represented as

* ``Num``  - a (possibly complex) number whose real and imaginary parts are
             exact rationals or z3 real terms,
* ``SInt`` - a mathematical integer (z3 Int term),
* ``SBool``- a condition; asking for its truth value forks the execution.

Irrational functions (sqrt, exp, log, sin, cos, ...) become *atoms*: fresh z3
real constants, one per canonicalised argument, with their defining axioms
added to the assumptions of every query.
"""
import math
import time
from fractions import Fraction

import z3

F = Fraction
SOM = dict(som=True, som_blowup=10**7)


class Unsupported(Exception):
    """The engine cannot encode an operation the code performs."""


class PathLimit(Unsupported):
    pass


class Infeasible(BaseException):
    """Current path is infeasible (assumption contradicts path condition)."""


# --------------------------------------------------------------------------
# engine (one global, re-set per case)
# --------------------------------------------------------------------------
class Engine:
    def __init__(self, timeout_ms=60000, max_paths=4000):
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.stats = dict(
            queries=0, branch_queries=0, solver_s=0.0, paths=0, decisions=0,
            unknown=0, sat=0, unsat=0,
        )
        self.reset_case()

    # -- state -------------------------------------------------------------
    def reset_case(self):
        self.atoms = {}  # (fn, key) -> z3 const
        self.atom_def = {}  # name -> (fn, [z3 args])
        self.vars = {}  # name -> z3 const (user inputs)
        self.var_kind = {}
        self.counter = 0
        self.base_axioms = []
        self.base_seen = set()
        self.start_path([])

    def keep_axioms(self):
        """Axioms of atoms created so far (package import) hold on every path."""
        self.base_axioms = list(self.atom_axioms)
        self.base_seen = set(self.atoms_seen)

    def start_path(self, prefix):
        self.prefix = list(prefix)
        self.trace = []
        self.settled = {}  # condition id -> (value, condition) on this path
        self.pc = []
        self.assumptions = []
        self.atom_axioms = list(self.base_axioms)
        self.atoms_seen = set(self.base_seen)
        self.fresh = 0
        self.eigh_memo = []  # (matrix, result of the eigensolver contract)
        self.eqs = []  # terms assumed to be zero (eigensolver contract)
        self.sq_rules = {}  # variable name -> term equal to its square
        self._solver = None
        self._solver_n = 0

    # -- variables ---------------------------------------------------------
    def real(self, name):
        v = z3.Real(name)
        self.vars[name] = v
        return v

    def int(self, name):
        v = z3.Int(name)
        self.vars[name] = v
        return v

    def atom(self, fn, args, axioms):
        """Named atom for fn(args); axioms(const) -> list of z3 facts."""
        key = (fn,) + tuple(_key(a) for a in args)
        if key in self.atoms:
            c = self.atoms[key]
        else:
            name = "%s!%d" % (fn, len(self.atoms))
            c = z3.Real(name)
            self.atoms[key] = c
            self.atom_def[name] = (fn, list(args))
        if key not in self.atoms_seen:
            self.atoms_seen.add(key)
            for ax in axioms(c):
                self.add_axiom(ax)
        return c

    def add_axiom(self, ax):
        self.atom_axioms.append(ax)
        if self._solver is not None:
            self._solver.add(ax)

    def assume(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        self.assumptions.append(cond)
        if self._solver is not None:
            self._solver.add(cond)

    def solver(self):
        if self._solver is None:
            s = z3.Solver()
            s.set("timeout", self.timeout_ms)
            for x in self.atom_axioms + self.assumptions + self.pc:
                s.add(x)
            self._solver = s
        return self._solver

    def check(self, *extra, branch=False):
        s = self.solver()
        t = time.time()
        r = s.check(*extra)
        dt = time.time() - t
        self.stats["solver_s"] += dt
        self.stats["queries"] += 1
        if branch:
            self.stats["branch_queries"] += 1
        self.stats[str(r)] = self.stats.get(str(r), 0) + 1
        return r

    def prove_check(self, goal, timeout_ms=None):
        """Fresh, non-incremental query: path facts and `goal` satisfiable?"""
        s = z3.Solver()
        s.set("timeout", int(timeout_ms or self.timeout_ms))
        s.add(self.atom_axioms + self.assumptions + self.pc)
        s.add(goal)
        t = time.time()
        r = s.check()
        self.stats["solver_s"] += time.time() - t
        self.stats["queries"] += 1
        self.stats[str(r)] = self.stats.get(str(r), 0) + 1
        self.last_model = s.model() if r == z3.sat else None
        return r

    def linear_check(self, red, p):
        """Is the polynomial p zero as a linear consequence of the assumed
        equations?  Every monomial becomes a variable of a linear query (an
        abstraction: unsat carries over to the original query)."""
        s = z3.Solver()
        s.set("timeout", 5000)
        mv = {}

        def lin(q):
            ts = []
            for m, v in q.items():
                if m not in mv:
                    mv[m] = z3.RealVal(1) if not m else z3.Real("mono%d" % len(mv))
                ts.append(rv(v) * mv[m])
            return z3.Sum(ts) if ts else z3.RealVal(0)

        for t in self.eqs:
            s.add(lin(red.poly(t)) == 0)
        s.add(lin(p) != 0)
        t = time.time()
        r = s.check()
        self.stats["solver_s"] += time.time() - t
        self.stats["queries"] += 1
        return r == z3.unsat

    # -- branching ---------------------------------------------------------
    def branch(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        # a condition settled earlier on this path stays settled
        neg = z3.is_not(cond)
        key = cond.arg(0) if neg else cond
        seen = self.settled.get(key.get_id())
        if seen is not None:
            return seen[0] != neg
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.trace.append((d, False))
            self._push_pc(cond if d else z3.Not(cond))
            self.settled[key.get_id()] = (d != neg, key)
            return d
        self.stats["decisions"] += 1
        t = self.check(cond, branch=True) != z3.unsat
        f = self.check(z3.Not(cond), branch=True) != z3.unsat
        if not t and not f:
            raise Infeasible()
        d = t
        self.trace.append((d, t and f))
        if (t and f) or not (z3.is_le(key) or z3.is_ge(key) or z3.is_lt(key) or z3.is_gt(key)):
            self._push_pc(cond if d else z3.Not(cond))
        self.settled[key.get_id()] = (d != neg, key)
        return d

    def _push_pc(self, c):
        self.pc.append(c)
        if self._solver is not None:
            self._solver.add(c)

    def force_value(self, term):
        """Concretise an integer term by forking over its feasible values."""
        term = z3.simplify(term)
        if z3.is_int_value(term):
            return term.as_long()
        for _ in range(100000):
            if self.check(branch=True) == z3.unsat:
                raise Infeasible()
            i = len(self.trace)
            if i < len(self.prefix):
                # replay: value order must be deterministic -> smallest first
                pass
            v = self._min_value(term)
            if self.branch(term == v):
                return v
        raise PathLimit("value domain too large")

    def _min_value(self, term):
        m = self.solver().model()
        best = m.eval(term, model_completion=True).as_long()
        s = self.solver()
        lo = None
        # find the smallest feasible value deterministically
        step = 1
        while True:
            r = self.check(term < best, branch=True)
            if r != z3.sat:
                return best
            best = s.model().eval(term, model_completion=True).as_long()

    def constant_of(self, term):
        """If `term` has one value under the current assumptions, return it."""
        if self.check(branch=True) != z3.sat:
            return None
        v = self.solver().model().eval(term, model_completion=True)
        if not (z3.is_rational_value(v) or z3.is_int_value(v)):
            return None
        if self.check(term != v, branch=True) == z3.unsat:
            return F(v.as_fraction()) if z3.is_rational_value(v) else F(v.as_long())
        return None

    def floor_of(self, term):
        """The integer part of a term without free inputs (constants such as
        square roots), if the solver confirms it."""
        from . import poly

        try:
            v = float(poly.numeval(term, {}))
        except Exception:
            return None
        if v != v or abs(v) > 1e15:
            return None
        k = math.floor(v)
        for c in (k, k + 1, k - 1):
            if abs(v - c - 0.5) < 0.51 and self.check(
                    z3.Or(term < c, term >= c + 1), branch=True) == z3.unsat:
                return c
        return None

    def explore(self, fn, on_path):
        """Run fn once per feasible path; on_path(result) after each."""
        todo = [[]]
        n = 0
        while todo:
            prefix = todo.pop()
            n += 1
            if n > self.max_paths:
                raise PathLimit("more than %d paths" % self.max_paths)
            self.start_path(prefix)
            self.solver()
            feasible = True
            try:
                res = fn()
            except Infeasible:
                # an assumption ends this path; what branched off before it stays
                feasible = False
            dec = [d for d, _ in self.trace]
            for i in range(len(prefix), len(self.trace)):
                d, both = self.trace[i]
                if both:
                    todo.append(dec[:i] + [not d])
            if feasible:
                self.stats["paths"] += 1
                on_path(res)
        return n


ENGINE = Engine()


def eng():
    return ENGINE


def new_engine(**kw):
    global ENGINE
    ENGINE = Engine(**kw)
    return ENGINE


# --------------------------------------------------------------------------
# helpers on real parts: Fraction or z3 ArithRef (real sort)
# --------------------------------------------------------------------------
def rv(x):
    if isinstance(x, Fraction):
        return z3.Q(x.numerator, x.denominator)
    if isinstance(x, int):
        return z3.RealVal(x)
    return x


def canon(x):
    if isinstance(x, Fraction):
        return x
    y = z3.simplify(x, **SOM)
    if eng().sq_rules and not z3.is_rational_value(y):
        y = unit_reduce(y)
    if z3.is_rational_value(y):
        return F(y.numerator_as_long(), y.denominator_as_long())
    return y


def unit_reduce(y):
    """normal form modulo the declared sum-of-squares equations"""
    from . import poly

    r = poly.Reducer(eng())
    try:
        return z3.simplify(r.term(r.poly(y)), **SOM)
    except (poly.TooBig, RecursionError):
        return y


def _key(a):
    if isinstance(a, Fraction):
        return ("q", a)
    # the stored argument keeps the hash-consed node alive, so ids are stable
    return ("t", a.get_id())


def radd(a, b):
    if isinstance(a, Fraction):
        if isinstance(b, Fraction):
            return a + b
        if not a:
            return b
    elif isinstance(b, Fraction) and not b:
        return a
    return rv(a) + rv(b)


def rneg(a):
    return -a


def rsub(a, b):
    if isinstance(a, Fraction):
        if isinstance(b, Fraction):
            return a - b
        if not a:
            return -b
    elif isinstance(b, Fraction) and not b:
        return a
    return rv(a) - rv(b)


_ONE = F(1)
_ZERO = F(0)


def rmul(a, b):
    if isinstance(a, Fraction):
        if isinstance(b, Fraction):
            return a * b
        if not a:
            return _ZERO
        if a == 1:
            return b
    elif isinstance(b, Fraction):
        if not b:
            return _ZERO
        if b == 1:
            return a
    return rv(a) * rv(b)


def rdiv(a, b):
    if isinstance(b, Fraction):
        if not b:
            raise ZeroDivisionError("division by zero")
        return rmul(a, 1 / b)
    if isinstance(a, Fraction) and not a:
        return _ZERO
    return rmul(a, recip(b))


def recip(b):
    """1/b as an atom r with b != 0 -> b*r == 1 (b canonicalised)."""
    b = canon(b)
    if isinstance(b, Fraction):
        return 1 / b
    # pull a rational content out: recip(k*t) = recip(t)/k for single terms
    k, t = split_coeff(b)
    if k != 1:
        return rmul(1 / k, recip(t))
    ps = monomial_factors(b)
    if ps is not None and len(ps) > 1:
        out = _ONE
        for p in ps:
            out = rmul(out, recip(p))
        return out
    return eng().atom(
        "recip", [b], lambda c: [z3.Implies(b != 0, b * c == 1),
                                 z3.Implies(b > 0, c > 0)]
    )


def split_coeff(t):
    if z3.is_app_of(t, z3.Z3_OP_MUL) and z3.is_rational_value(t.arg(0)):
        k = t.arg(0)
        k = F(k.numerator_as_long(), k.denominator_as_long())
        rest = [t.arg(i) for i in range(1, t.num_args())]
        r = rest[0]
        for x in rest[1:]:
            r = r * x
        return k, z3.simplify(r, **SOM)
    if z3.is_app_of(t, z3.Z3_OP_UMINUS):
        return F(-1), t.arg(0)
    return F(1), t


def monomial_factors(t):
    if z3.is_app_of(t, z3.Z3_OP_MUL):
        out = []
        for i in range(t.num_args()):
            f = monomial_factors(t.arg(i))
            out.extend(f if f is not None else [t.arg(i)])
        return out
    if z3.is_app_of(t, z3.Z3_OP_POWER) and z3.is_rational_value(t.arg(1)):
        e = t.arg(1)
        if e.denominator_as_long() == 1 and 0 < e.numerator_as_long() < 20:
            f = monomial_factors(t.arg(0))
            f = f if f is not None else [t.arg(0)]
            return f * e.numerator_as_long()
    if z3.is_const(t) and not z3.is_rational_value(t):
        return [t]
    return None


def float_frac(x):
    """A double literal as the real number it stands for (0.1 -> 1/10)."""
    f = F(x)
    if f.denominator == 1:
        return f
    g = f.limit_denominator(10**6)
    if float(g) == x:
        return g
    return F(repr(x))


def to_frac(x):
    if isinstance(x, bool):
        return F(int(x))
    if isinstance(x, (int, Fraction)):
        return F(x)
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            raise Unsupported("non-finite float constant")
        return float_frac(x)
    raise TypeError("cannot convert %r" % (x,))


# --------------------------------------------------------------------------
class SBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return eng().branch(self.t)

    def __and__(self, o):
        return SBool(z3.And(self.t, bterm(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SBool(z3.Or(self.t, bterm(o)))

    __ror__ = __or__

    def __invert__(self):
        return SBool(z3.Not(self.t))

    def __eq__(self, o):
        return SBool(self.t == bterm(o))

    def __ne__(self, o):
        return SBool(self.t != bterm(o))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def _i(self):
        return SInt(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)))

    def __mul__(self, o):
        return self._i() * o

    __rmul__ = __mul__

    def __add__(self, o):
        return self._i() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._i() - o

    def __rsub__(self, o):
        return o - self._i()

    def __xor__(self, o):
        return SBool(z3.Xor(self.t, bterm(o)))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    __hash__ = None

    def all(self):
        return self

    any = all
    item = all


def bterm(o):
    if isinstance(o, SBool):
        return o.t
    if isinstance(o, (Num, SInt)):
        return (o != 0).t
    return z3.BoolVal(bool(o))


# --------------------------------------------------------------------------
class SInt:
    """Mathematical integer."""

    __slots__ = ("t",)
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t

    # arithmetic
    def _bin(self, o, f, rf):
        if isinstance(o, SBool):
            o = o._i()
        if isinstance(o, SInt):
            return mkint(f(self.t, o.t))
        i = as_pyint(o)
        if i is not None:
            return mkint(f(self.t, z3.IntVal(i)))
        return rf(self.to_num(), o)

    def to_num(self):
        return Num(z3.ToReal(self.t), _ZERO)

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: b + a, lambda a, b: b + a)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._bin(o, lambda a, b: b * a, lambda a, b: b * a)

    def __truediv__(self, o):
        return self.to_num() / o

    def __rtruediv__(self, o):
        return o / self.to_num()

    def __neg__(self):
        return mkint(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.t >= 0, self.t, -self.t))

    def __floordiv__(self, o):
        d = as_pyint(o)
        if d is not None and d > 0:
            return mkint(self.t / z3.IntVal(d))
        if d is not None and d < 0:
            return mkint((-self.t) / z3.IntVal(-d))
        if isinstance(o, SInt):
            if bool(o > 0):
                return mkint(self.t / o.t)
            if bool(o == 0):
                raise ZeroDivisionError()
            return mkint((-self.t) / (-o.t))
        if d == 0:
            raise ZeroDivisionError()
        return self.to_num() // o

    def __rfloordiv__(self, o):
        d = as_pyint(o)
        if d is not None:
            return SInt(z3.IntVal(d)).__floordiv__(self)
        return o // self.to_num()

    def __mod__(self, o):
        d = as_pyint(o)
        if d is not None and d > 0:
            return mkint(self.t % z3.IntVal(d))
        return self - (self // o) * o

    def __rmod__(self, o):
        d = as_pyint(o)
        return SInt(z3.IntVal(d)).__mod__(self)

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o):
        e = as_pyint(o)
        if e is None:
            if isinstance(o, SInt):
                e = eng().force_value(o.t)
            else:
                return self.to_num() ** o
        if e < 0:
            return self.to_num() ** e
        r = 1
        for _ in range(e):
            r = self * r
        return r

    def __rpow__(self, base):
        # base ** symbolic int ; parity form for -1, else concretise
        b = as_pyint(base)
        if b is None and isinstance(base, float) and base == int(base):
            b = int(base)
            if b in (1, -1):
                return Num.of(self.__rpow__(b))
        if b == 1:
            return 1
        if b == -1:
            return mkint(z3.If(self.t % 2 == 0, z3.IntVal(1), z3.IntVal(-1)))
        e = eng().force_value(self.t)
        return base ** e

    def __and__(self, o):
        m = as_pyint(o)
        if m is not None and m >= 0 and (m & (m + 1)) == 0:
            return mkint(self.t % z3.IntVal(m + 1))
        if m is not None:
            return eng().force_value(self.t) & m
        if isinstance(o, SInt):
            return eng().force_value(self.t) & eng().force_value(o.t)
        return NotImplemented

    __rand__ = __and__

    def _isbit(self):
        return eng().check(z3.Or(self.t < 0, self.t > 1), branch=True) == z3.unsat

    def __xor__(self, o):
        if isinstance(o, SBool):
            o = o._i()
        ot = o.t if isinstance(o, SInt) else z3.IntVal(as_pyint(o))
        if self._isbit() and SInt(ot)._isbit():
            return mkint(z3.If(self.t == ot, z3.IntVal(0), z3.IntVal(1)))
        return eng().force_value(self.t) ^ eng().force_value(ot)

    __rxor__ = __xor__

    def __or__(self, o):
        ot = o.t if isinstance(o, SInt) else z3.IntVal(as_pyint(o))
        return eng().force_value(self.t) | eng().force_value(ot)

    __ror__ = __or__

    def __lshift__(self, o):
        return self * (2 ** as_pyint(o))

    def __rshift__(self, o):
        return self // (2 ** as_pyint(o))

    def _cmp(self, o, f):
        if isinstance(o, SBool):
            o = o._i()
        if isinstance(o, SInt):
            return mkbool(f(self.t, o.t))
        i = as_pyint(o)
        if i is not None:
            return mkbool(f(self.t, z3.IntVal(i)))
        if isinstance(o, (float, Fraction, Num)) or _isnpnum(o):
            return mkbool(f(z3.ToReal(self.t), rv(Num.of(o).re)))
        return NotImplemented

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return self._cmp(o, lambda a, b: a != b)

    def __hash__(self):
        return hash(eng().force_value(self.t))

    def __bool__(self):
        return eng().branch(self.t != 0)

    def __index__(self):
        return eng().force_value(self.t)

    def __int__(self):
        return eng().force_value(self.t)

    def __float__(self):
        return float(eng().force_value(self.t))

    def __format__(self, spec):
        return format(eng().force_value(self.t), spec)

    def __str__(self):
        return str(eng().force_value(self.t))

    def __repr__(self):
        return "SInt(%s)" % (self.t,)

    def __floor__(self):
        return self

    __ceil__ = __trunc__ = __round__ = __floor__

    def conjugate(self):
        return self

    conj = conjugate

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def sqrt(self):
        return self.to_num().sqrt()

    def exp(self):
        return self.to_num().exp()

    def log(self):
        return self.to_num().log()

    def item(self):
        return self

    def astype(self, dt):
        return self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import arr

        return arr.ufunc_dispatch(ufunc, method, inputs, kw)


def mkint(t):
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return SInt(t)


def mkbool(t):
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SBool(t)


def _isnpnum(o):
    return type(o).__module__ == "numpy" and hasattr(o, "dtype") and getattr(o, "shape", 1) == ()


def as_pyint(o):
    if isinstance(o, bool):
        return int(o)
    if isinstance(o, int):
        return o
    if type(o).__module__ == "numpy" and getattr(o, "shape", None) == ():
        if o.dtype.kind in "iub":
            return int(o)
    return None


# --------------------------------------------------------------------------
class SNpInt(SInt):
    """An integer that arrives as a numpy scalar (not an instance of int)."""

    __slots__ = ()


class Num:
    """re + i*im ; `c` marks complex type (as opposed to value)."""

    __slots__ = ("re", "im", "c")
    __array_priority__ = 1000

    def __init__(self, re, im=_ZERO, c=False):
        self.re = re
        self.im = im
        self.c = c or not (isinstance(im, Fraction) and not im)

    @staticmethod
    def of(x):
        if isinstance(x, Num):
            return x
        if isinstance(x, LogNum):
            return x.to_num()
        if isinstance(x, SInt):
            return x.to_num()
        if isinstance(x, SBool):
            return x._i().to_num()
        if isinstance(x, complex):
            return Num(to_frac(x.real), to_frac(x.imag), True)
        if isinstance(x, (int, float, Fraction)):
            return Num(to_frac(x))
        if type(x).__module__ == "numpy" and getattr(x, "shape", None) == ():
            k = x.dtype.kind
            if k == "O":
                return Num.of(x.item())
            if k == "c":
                return Num(to_frac(float(x.real)), to_frac(float(x.imag)), True)
            if k == "f":
                return Num(to_frac(float(x)))
            return Num(to_frac(int(x)))
        if type(x).__module__.startswith("sympy"):
            from . import shims

            return shims.sympy_to_num(x)
        raise TypeError("not a number: %r" % (type(x),))

    def isconst(self):
        return isinstance(self.re, Fraction) and isinstance(self.im, Fraction)

    def isreal(self):
        return isinstance(self.im, Fraction) and not self.im

    # arithmetic ----------------------------------------------------------
    def _o(self, o):
        if isinstance(o, Num):
            return o
        try:
            import numpy as _np

            if isinstance(o, _np.ndarray) and o.shape != ():
                return None
            return Num.of(o)
        except TypeError:
            return None

    def __add__(self, o):
        o = self._o(o)
        if o is None:
            return NotImplemented
        return Num(radd(self.re, o.re), radd(self.im, o.im), self.c or o.c)

    __radd__ = __add__

    def __sub__(self, o):
        o = self._o(o)
        if o is None:
            return NotImplemented
        return Num(rsub(self.re, o.re), rsub(self.im, o.im), self.c or o.c)

    def __rsub__(self, o):
        o = self._o(o)
        if o is None:
            return NotImplemented
        return o - self

    def __mul__(self, o):
        o = self._o(o)
        if o is None:
            return NotImplemented
        if self.isreal() and o.isreal():
            return Num(rmul(self.re, o.re), _ZERO, self.c or o.c)
        if self.isreal():
            return Num(rmul(self.re, o.re), rmul(self.re, o.im), True)
        if o.isreal():
            return Num(rmul(self.re, o.re), rmul(self.im, o.re), True)
        return Num(
            rsub(rmul(self.re, o.re), rmul(self.im, o.im)),
            radd(rmul(self.re, o.im), rmul(self.im, o.re)),
            True,
        )

    __rmul__ = __mul__

    def __neg__(self):
        return Num(-self.re, -self.im, self.c)

    def __pos__(self):
        return self

    def __truediv__(self, o):
        o = self._o(o)
        if o is None:
            return NotImplemented
        if o.isreal():
            return Num(rdiv(self.re, o.re), rdiv(self.im, o.re), self.c or o.c)
        d = radd(rmul(o.re, o.re), rmul(o.im, o.im))
        n = self * o.conjugate()
        return Num(rdiv(n.re, d), rdiv(n.im, d), True)

    def __rtruediv__(self, o):
        o = self._o(o)
        if o is None:
            return NotImplemented
        return o / self

    def __floordiv__(self, o):
        return (self / o).floor().to_float()

    def __rfloordiv__(self, o):
        return (Num.of(o) / self).floor().to_float()

    def to_float(self):
        return self

    def __mod__(self, o):
        return self - Num.of((self / o).floor()) * o

    def __rmod__(self, o):
        return Num.of(o) % self

    def __pow__(self, o):
        if isinstance(o, SInt):
            o = eng().force_value(o.t)
        o = self._o(o)
        if o is None:
            return NotImplemented
        if not o.isconst() or not o.isreal():
            c = None
            if o.isreal() and not isinstance(o.re, Fraction):
                c = canon(o.re)
                if not isinstance(c, Fraction):
                    c = eng().constant_of(c)
            if c is None:
                raise Unsupported("symbolic exponent")
            e = c
        else:
            e = o.re
        if e.denominator == 1:
            n = int(e)
            if n < 0:
                return Num(_ONE) / (self ** (-n))
            r = Num(_ONE, _ZERO, self.c)
            for _ in range(n):
                r = r * self
            return r
        if e.denominator == 2:
            s = self.sqrt()
            return s ** Num(F(e.numerator))
        if e.denominator == 4:
            s = self.sqrt().sqrt()
            return s ** Num(F(e.numerator))
        if isinstance(self.re, Fraction) and self.isreal():
            pass
        raise Unsupported("power %s" % e)

    def __rpow__(self, o):
        e = self
        if not e.isreal():
            raise Unsupported("complex exponent")
        r = canon(e.re)
        if not isinstance(r, Fraction):
            b = Num.of(o)
            if b.isconst() and b.isreal() and b.re == 1:
                return Num(_ONE)
            # base ** ToReal(int)
            if z3.is_app_of(r, z3.Z3_OP_TO_REAL):
                return Num.of(SInt(r.arg(0)).__rpow__(o))
            c = eng().constant_of(r)
            if c is None:
                raise Unsupported("symbolic exponent")
            r = c
        return Num.of(o) ** Num(r)

    def __abs__(self):
        if eng().sq_rules and not self.isconst():
            self = Num(canon(self.re), canon(self.im), self.c)
        if self.isreal():
            if isinstance(self.re, Fraction):
                return Num(abs(self.re))
            return Num(z3.If(self.re >= 0, self.re, -self.re))
        return Num(radd(rmul(self.re, self.re), rmul(self.im, self.im))).sqrt()

    def conjugate(self):
        return Num(self.re, -self.im, self.c)

    conj = conjugate

    @property
    def real(self):
        return Num(self.re)

    @property
    def imag(self):
        return Num(self.im)

    @property
    def T(self):
        return self

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def dtype(self):
        import numpy as _np

        return _np.dtype(_np.complex128 if self.c else _np.float64)

    def item(self):
        return self

    def copy(self):
        return self

    def astype(self, dt, **kw):
        import numpy as _np

        if _np.dtype(dt).kind == "c":
            return Num(self.re, self.im, True)
        return Num(self.re)

    # functions -----------------------------------------------------------
    def sqrt(self):
        if not self.isreal():
            raise Unsupported("sqrt of complex")
        x = canon(self.re)
        return Num(rsqrt(x), _ZERO, self.c)

    def exp(self):
        from . import funcs

        return funcs.exp(self)

    def log(self):
        from . import funcs

        return funcs.log(self)

    def sin(self):
        from . import funcs

        return funcs.sin(self)

    def cos(self):
        from . import funcs

        return funcs.cos(self)

    def floor(self):
        x = canon(self.re)
        if isinstance(x, Fraction):
            return Num(F(math.floor(x)))
        k = eng().floor_of(x)
        if k is not None:
            return Num(F(k))
        return Num(z3.ToReal(z3.ToInt(x)))

    # comparison ----------------------------------------------------------
    def _cmp(self, o, f):
        o2 = self._o(o)
        if o2 is None:
            return NotImplemented
        if not (self.isreal() and o2.isreal()):
            raise TypeError("ordering of complex numbers")
        if self.isconst() and o2.isconst():
            return bool(f(self.re, o2.re))
        if eng().sq_rules:
            d = canon(rsub(self.re, o2.re))
            if isinstance(d, Fraction):
                return bool(f(d, F(0)))
        return mkbool(f(rv(self.re), rv(o2.re)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        o2 = self._o(o)
        if o2 is None:
            return NotImplemented
        if self.isconst() and o2.isconst():
            return self.re == o2.re and self.im == o2.im
        return mkbool(
            z3.And(rv(self.re) == rv(o2.re), rv(self.im) == rv(o2.im))
        )

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        if isinstance(r, bool):
            return not r
        return SBool(z3.Not(r.t))

    def __hash__(self):
        if self.isconst():
            return hash((self.re, self.im)) if self.im else hash(self.re)
        raise Unsupported("hash of symbolic number")

    def __bool__(self):
        r = self != 0
        return bool(r)

    def _const(self):
        if self.isconst():
            return self
        re, im = canon(self.re), canon(self.im)
        out = []
        for p in (re, im):
            if not isinstance(p, Fraction):
                c = eng().constant_of(p)
                if c is None:
                    raise Unsupported("concretisation of symbolic number")
                p = c
            out.append(p)
        return Num(*out)

    def __float__(self):
        n = self._const()
        if n.im:
            raise TypeError("can't convert complex to float")
        return float(n.re)

    def __complex__(self):
        n = self._const()
        return complex(float(n.re), float(n.im))

    def __int__(self):
        n = self._const()
        return int(n.re)

    def __index__(self):
        n = self._const()
        if n.re.denominator != 1:
            raise TypeError("float index")
        raise TypeError("'float' object cannot be interpreted as an integer")

    def __floor__(self):
        x = canon(self.re)
        if isinstance(x, Fraction):
            return math.floor(x)
        k = eng().floor_of(x)
        if k is not None:
            return k
        return SInt(z3.ToInt(x))

    def __ceil__(self):
        return -((-self).__floor__())

    def __trunc__(self):
        if isinstance(canon(self.re), Fraction):
            return math.trunc(canon(self.re))
        if bool(self >= 0):
            return self.__floor__()
        return self.__ceil__()

    def __round__(self, n=None):
        if n is None:
            n2 = self._const()
            return round(n2.re)
        return self

    def __format__(self, spec):
        return "<sym>"

    def __str__(self):
        return "<sym>"

    def __repr__(self):
        return "Num(%s, %s)" % (self.re, self.im)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import arr

        return arr.ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kw):
        from . import arr

        return arr.function_dispatch(func, args, kw)


def _squarefree(n):
    """n = s*s*f with f square-free; returns s, list of primes of f."""
    s, primes = 1, []
    p = 2
    while p * p <= n:
        e = 0
        while n % p == 0:
            n //= p
            e += 1
        s *= p ** (e // 2)
        if e % 2:
            primes.append(p)
        p += 1
        if p > 200000:
            raise Unsupported("factorisation too large")
    if n > 1:
        primes.append(n)
    return s, primes


def sqrt_prime(p):
    lo = math.isqrt(p * 10**12)
    return eng().atom(
        "sqrt",
        [F(p)],
        lambda c: [c > 0, c * c == p, c > z3.Q(lo, 10**6), c < z3.Q(lo + 1, 10**6)],
    )


def rsqrt(x):
    """sqrt of a canonical real part."""
    if isinstance(x, Fraction):
        if x < 0:
            raise Unsupported("sqrt of negative")
        if x == 0:
            return _ZERO
        try:
            s, pr = _squarefree(x.numerator * x.denominator)
        except Unsupported:
            lo = F(math.isqrt(x.numerator * 10**40 // x.denominator), 10**20)
            return eng().atom("sqrt", [x], lambda c: [c > 0, c * c == rv(x)])
        out = F(s, x.denominator)
        for p in pr:
            out = rmul(out, sqrt_prime(p))
        return out
    k, t = split_coeff(x)
    if k > 0 and k != 1:
        return rmul(rsqrt(k), rsqrt(canon(t)))
    fs = monomial_factors(x)
    if fs is not None and len(fs) > 1:
        # product of constants: pair equal factors (|f|), sqrt the rest if >0
        counts = {}
        for f in fs:
            counts.setdefault(f.get_id(), [f, 0])[1] += 1
        out = _ONE
        ok = True
        for f, n in counts.values():
            if n % 2 and eng().check(f < 0, branch=True) != z3.unsat:
                ok = False
        if ok:
            for f, n in counts.values():
                if n // 2:
                    if eng().check(f < 0, branch=True) == z3.unsat:
                        a = f
                    else:
                        a = z3.If(f >= 0, f, -f)
                    for _ in range(n // 2):
                        out = rmul(out, a)
                if n % 2:
                    out = rmul(out, rsqrt(f))
            return out
    if z3.is_const(x) and str(x) in eng().atom_def and eng().atom_def[str(x)][0] == "recip":
        b = eng().atom_def[str(x)][1][0]
        return recip(rsqrt(b))
    sq = perfect_square(x)
    if sq is not None:
        return z3.If(sq >= 0, sq, -sq)
    return eng().atom(
        "sqrt",
        [x],
        lambda c: [z3.Implies(x >= 0, z3.And(c >= 0, c * c == x)),
                   z3.Implies(x > 0, c > 0)],
    )


def perfect_square(x):
    return None


PI_LO = F(3141592653589793, 10**15)
PI_HI = F(3141592653589794, 10**15)


def pi():
    c = eng().atom("pi", [], lambda c: [c > rv(PI_LO), c < rv(PI_HI)])
    return Num(c)


class LogNum:
    """Exact logarithm of a product of rational powers of primes and pi."""

    __slots__ = ("e",)
    __array_priority__ = 1001

    def __init__(self, e):
        self.e = {k: v for k, v in e.items() if v}

    @staticmethod
    def of_fraction(x):
        if x <= 0:
            raise Unsupported("log of non-positive")
        d = {}
        for n, s in ((x.numerator, 1), (x.denominator, -1)):
            p = 2
            while p * p <= n:
                while n % p == 0:
                    n //= p
                    d[p] = d.get(p, 0) + s
                p += 1
            if n > 1:
                d[n] = d.get(n, 0) + s
        return LogNum({k: F(v) for k, v in d.items()})

    def to_num(self):
        out = Num(_ZERO)
        for p, v in self.e.items():
            if p == "pi":
                a = eng().atom("log", [pi().re], lambda c: [c > 1])
            else:
                a = eng().atom("log", [F(p)], lambda c: [c > 0])
            out = out + Num(rmul(v, a))
        return out

    def exp(self):
        out = _ONE
        for p, v in self.e.items():
            n, r = divmod(v.numerator, v.denominator)
            if p == "pi":
                base = pi().re
                for _ in range(abs(n)):
                    out = rmul(out, base if n > 0 else recip(base))
            else:
                out = rmul(out, F(p) ** n)
            f = F(r, v.denominator)
            if f == 0:
                continue
            if f == F(1, 2):
                out = rmul(out, rsqrt(canon(pi().re)) if p == "pi" else sqrt_prime(p))
            else:
                raise Unsupported("exp of fractional log")
        return Num(out)

    def _lin(self, o, sa, sb):
        d = {k: v * sa for k, v in self.e.items()}
        for k, v in o.e.items():
            d[k] = d.get(k, F(0)) + v * sb
        return LogNum(d)

    def __add__(self, o):
        if isinstance(o, LogNum):
            return self._lin(o, 1, 1)
        if isinstance(o, (int, float)) and o == 0:
            return self
        if isinstance(o, Num) and o.isconst() and not o.re and not o.im:
            return self
        return self.to_num() + o

    __radd__ = __add__

    def __neg__(self):
        return LogNum({k: -v for k, v in self.e.items()})

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, (int, float, Fraction)) or as_pyint(o) is not None:
            f = to_frac(o) if not as_pyint(o) else F(as_pyint(o))
            return LogNum({k: v * f for k, v in self.e.items()})
        if isinstance(o, Num) and o.isconst() and o.isreal():
            return LogNum({k: v * o.re for k, v in self.e.items()})
        if _isnpnum(o) and o.dtype.kind == "f":
            return self * float(o)
        return self.to_num() * o

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * (1 / Num.of(o))

    def __abs__(self):
        return abs(self.to_num())

    def __lt__(self, o):
        return self.to_num() < o

    def __gt__(self, o):
        return self.to_num() > o

    def __le__(self, o):
        return self.to_num() <= o

    def __ge__(self, o):
        return self.to_num() >= o

    def __eq__(self, o):
        return self.to_num() == o

    def __ne__(self, o):
        return self.to_num() != o

    __hash__ = None

    @property
    def c(self):
        return False

    @property
    def real(self):
        return self

    def conjugate(self):
        return self

    conj = conjugate

    def __deepcopy__(self, memo):
        return self

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import arr

        if method == "__call__" and not kw and len(inputs) == 2:
            import operator as op

            f = {"add": op.add, "subtract": op.sub, "multiply": op.mul,
                 "divide": op.truediv, "true_divide": op.truediv}.get(ufunc.__name__)
            x = [i.item() if _isnpnum(i) else i for i in inputs]
            if f and all(isinstance(i, (int, float, Num, LogNum)) for i in x):
                return f(*x)

        return arr.ufunc_dispatch(ufunc, method, inputs, kw)
