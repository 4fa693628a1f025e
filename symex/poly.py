"""Polynomial normal form of z3 real terms, reduced with the defining equations
of the algebraic atoms (sqrt, reciprocal, cos/sin).  Used to hand the solver
small goals; every rewrite uses an equation that is among the path's axioms."""
import math
from fractions import Fraction as F

import z3

from .core import eng, rv

LIMIT = 400000


class TooBig(Exception):
    pass


def _q(t):
    return F(t.numerator_as_long(), t.denominator_as_long())


class Reducer:
    def __init__(self, engine=None):
        self.e = engine or eng()
        self.memo = {}
        self.vars = {}
        self.rules = {}
        self.guard = {}

    # monomial: tuple of (id, exp) sorted by id
    def poly(self, t):
        k = t.get_id()
        if k in self.memo:
            return self.memo[k][1]
        p = self._poly(t)
        self.memo[k] = (t, p)
        return p

    def _var(self, t):
        i = t.get_id()
        self.vars[i] = t
        return {((i, 1),): F(1)}

    def _poly(self, t):
        if z3.is_rational_value(t):
            q = _q(t)
            return {(): q} if q else {}
        if z3.is_int_value(t):
            return {(): F(t.as_long())} if t.as_long() else {}
        d = t.decl().kind() if z3.is_app(t) else None
        if d == z3.Z3_OP_ADD:
            out = {}
            for c in t.children():
                for m, v in self.poly(c).items():
                    w = out.get(m, 0) + v
                    if w:
                        out[m] = w
                    else:
                        out.pop(m, None)
            return out
        if d == z3.Z3_OP_SUB:
            cs = t.children()
            out = dict(self.poly(cs[0]))
            for c in cs[1:]:
                for m, v in self.poly(c).items():
                    w = out.get(m, 0) - v
                    if w:
                        out[m] = w
                    else:
                        out.pop(m, None)
            return out
        if d == z3.Z3_OP_UMINUS:
            return {m: -v for m, v in self.poly(t.arg(0)).items()}
        if d == z3.Z3_OP_MUL:
            out = {(): F(1)}
            for c in t.children():
                out = self.mul(out, self.poly(c))
            return out
        if d == z3.Z3_OP_POWER and z3.is_rational_value(t.arg(1)):
            n = _q(t.arg(1))
            if n.denominator == 1 and 0 <= n <= 40:
                out = {(): F(1)}
                for _ in range(int(n)):
                    out = self.mul(out, self.poly(t.arg(0)))
                return out
        if d == z3.Z3_OP_TO_REAL:
            return self._toreal(t.arg(0))
        return self._var(t)

    def _toreal(self, a):
        d = a.decl().kind()
        if z3.is_int_value(a):
            return {(): F(a.as_long())} if a.as_long() else {}
        if d in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
            cs = [z3.ToReal(c) for c in a.children()]
            if d == z3.Z3_OP_UMINUS:
                return self.poly(-cs[0])
            r = cs[0]
            for c in cs[1:]:
                r = r + c if d == z3.Z3_OP_ADD else r - c if d == z3.Z3_OP_SUB else r * c
            return self.poly(r)
        return self._var(z3.ToReal(a))

    def mul(self, a, b):
        if len(a) * len(b) > LIMIT:
            raise TooBig()
        out = {}
        for m1, v1 in a.items():
            for m2, v2 in b.items():
                m, pending = self.mono(m1, m2)
                v = v1 * v2
                if pending is None:
                    w = out.get(m, 0) + v
                    if w:
                        out[m] = w
                    else:
                        out.pop(m, None)
                else:
                    for mm, vv in self.mul({m: v}, pending).items():
                        w = out.get(mm, 0) + vv
                        if w:
                            out[mm] = w
                        else:
                            out.pop(mm, None)
        return out

    def mono(self, m1, m2):
        """product monomial; returns (monomial, factor polynomial or None)."""
        if not m1:
            return m2, None
        if not m2:
            return m1, None
        d = dict(m1)
        for i, n in m2:
            d[i] = d.get(i, 0) + n
        fac = None
        for i in list(d):
            r = self.rule(i)
            if r is None:
                continue
            kind, x = r
            if kind == "sqrt":
                n = d.get(i, 0)
                if n >= 2:
                    d[i] = n % 2
                    if not d[i]:
                        del d[i]
                    for _ in range(n // 2):
                        fac = x if fac is None else self.mul(fac, x)
            elif kind == "sin":
                n = d.get(i, 0)
                if n >= 2:
                    d[i] = n % 2
                    if not d[i]:
                        del d[i]
                    for _ in range(n // 2):
                        fac = x if fac is None else self.mul(fac, x)
            elif kind == "inv":
                j = x
                n = min(d.get(i, 0), d.get(j, 0))
                if n:
                    for k in (i, j):
                        d[k] -= n
                        if not d[k]:
                            del d[k]
        return tuple(sorted(d.items())), fac

    def rule(self, i):
        if i in self.rules:
            return self.rules[i]
        self.rules[i] = None
        t = self.vars[i]
        r = None
        if z3.is_const(t):
            sq = self.e.sq_rules.get(t.decl().name())
            if sq is not None:
                self.rules[i] = ("sin", self.poly(sq))
                return self.rules[i]
            df = self.e.atom_def.get(t.decl().name())
            if df is not None:
                fn, args = df
                if fn == "sqrt":
                    a = args[0]
                    if isinstance(a, F):
                        r = ("sqrt", {(): a})
                    elif self.known(a >= 0):
                        r = ("sqrt", self.poly(a))
                elif fn == "recip":
                    a = args[0]
                    if not isinstance(a, F) and z3.is_const(a) and self.known(a != 0):
                        self._var(a)
                        r = ("inv", a.get_id())
                elif fn == "sin":
                    key = ("cos",) + self._key(args)
                    c = self.e.atoms.get(key)
                    if c is not None:
                        p = self.poly(c)
                        q = {m: -v for m, v in self.mul(p, p).items()}
                        q[()] = q.get((), 0) + 1
                        r = ("sin", q)
        self.rules[i] = r
        return r

    def _key(self, args):
        return tuple(("q", a) if isinstance(a, F) else ("t", a.get_id()) for a in args)

    def known(self, cond):
        return self.e.check(z3.Not(cond), branch=True) == z3.unsat

    # -- back to z3 --------------------------------------------------------
    def term(self, p):
        ts = []
        for m, v in p.items():
            f = [rv(v)] if v != 1 or not m else []
            for i, n in m:
                f += [self.vars[i]] * n
            t = f[0]
            for x in f[1:]:
                t = t * x
            ts.append(t)
        if not ts:
            return z3.RealVal(0)
        return z3.Sum(ts) if len(ts) > 1 else ts[0]


# -- numeric evaluation ------------------------------------------------------
FNS = {
    "exp": math.exp, "log": math.log, "sin": math.sin, "cos": math.cos,
    "sqrt": lambda x: math.sqrt(x) if x >= 0 else float("nan"),
    "recip": lambda x: 1.0 / x if x else float("nan"),
    "lgamma": math.lgamma,
    "sinc": lambda x: math.sin(math.pi * x) / (math.pi * x) if x else 1.0,
    "pi": lambda: math.pi,
}


def numeval(t, env, memo=None):
    """Value (float, or bool) of a z3 term; env: name -> number."""
    memo = {} if memo is None else memo
    e = eng()

    def ev(t):
        k = t.get_id()
        if k in memo:
            return memo[k]
        v = _ev(t)
        memo[k] = v
        return v

    def _ev(t):
        if z3.is_rational_value(t):
            return float(_q(t))
        if z3.is_int_value(t):
            return t.as_long()
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        d = t.decl().kind()
        c = t.children()
        if d == z3.Z3_OP_UNINTERPRETED and not c:
            n = t.decl().name()
            if n in env:
                return env[n]
            if n in e.atom_def:
                fn, args = e.atom_def[n]
                return FNS[fn](*[float(a) if isinstance(a, F) else ev(a) for a in args])
            raise KeyError(n)
        if d == z3.Z3_OP_ADD:
            return sum(ev(x) for x in c)
        if d == z3.Z3_OP_SUB:
            r = ev(c[0])
            for x in c[1:]:
                r = r - ev(x)
            return r
        if d == z3.Z3_OP_UMINUS:
            return -ev(c[0])
        if d == z3.Z3_OP_MUL:
            r = 1
            for x in c:
                r = r * ev(x)
            return r
        if d == z3.Z3_OP_POWER:
            return ev(c[0]) ** ev(c[1])
        if d == z3.Z3_OP_DIV:
            return ev(c[0]) / ev(c[1])
        if d == z3.Z3_OP_IDIV:
            return int(ev(c[0])) // int(ev(c[1]))
        if d == z3.Z3_OP_MOD:
            return int(ev(c[0])) % int(ev(c[1]))
        if d == z3.Z3_OP_TO_REAL:
            return ev(c[0])
        if d == z3.Z3_OP_TO_INT:
            return math.floor(ev(c[0]))
        if d == z3.Z3_OP_ITE:
            return ev(c[1]) if ev(c[0]) else ev(c[2])
        if d == z3.Z3_OP_LE:
            return ev(c[0]) <= ev(c[1])
        if d == z3.Z3_OP_LT:
            return ev(c[0]) < ev(c[1])
        if d == z3.Z3_OP_GE:
            return ev(c[0]) >= ev(c[1])
        if d == z3.Z3_OP_GT:
            return ev(c[0]) > ev(c[1])
        if d == z3.Z3_OP_EQ:
            return ev(c[0]) == ev(c[1])
        if d == z3.Z3_OP_AND:
            return all(ev(x) for x in c)
        if d == z3.Z3_OP_OR:
            return any(ev(x) for x in c)
        if d == z3.Z3_OP_NOT:
            return not ev(c[0])
        raise ValueError("numeval %s" % t.decl())

    return ev(t)
