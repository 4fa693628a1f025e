"""Transcendental functions on symbolic numbers (see core.Engine.atom)."""
import math
from fractions import Fraction as F

import z3

from .core import (
    LogNum, Num, SInt, Unsupported, canon, eng, pi, radd, recip, rmul, rsqrt,
    rv, split_coeff, unit_reduce, SOM, _ONE, _ZERO,
)


def has_alg(t, seen=None):
    """does the term mention a square root or reciprocal atom?"""
    seen = set() if seen is None else seen
    if t.get_id() in seen:
        return False
    seen.add(t.get_id())
    if z3.is_const(t):
        d = eng().atom_def.get(t.decl().name())
        return d is not None and d[0] in ("sqrt", "recip")
    return any(has_alg(c, seen) for c in t.children())


def summands(x):
    """canonical real part -> list of (coeff Fraction, term or None)."""
    x = canon(x)
    if not isinstance(x, F) and has_alg(x):
        x = canon(unit_reduce(x))
    if isinstance(x, F):
        return [(x, None)] if x else []
    args = (
        [x.arg(i) for i in range(x.num_args())]
        if z3.is_app_of(x, z3.Z3_OP_ADD)
        else [x]
    )
    out = []
    for a in args:
        if z3.is_rational_value(a):
            out.append((F(a.numerator_as_long(), a.denominator_as_long()), None))
        else:
            k, t = split_coeff(a)
            out.append((k, z3.simplify(t, **SOM)))
    return out


EXP_UNIT = 4


def exp(x):
    if isinstance(x, LogNum):
        return x.exp()
    x = Num.of(x)
    r = rexp(x.re)
    if x.isreal():
        return Num(r, _ZERO, x.c)
    c, s = cos_sin(x.im)
    return Num(rmul(r, c), rmul(r, s), True)


def _log_arg(t):
    if t is None or not z3.is_const(t):
        return None
    d = eng().atom_def.get(t.decl().name())
    return d[1][0] if d and d[0] == "log" else None


def rexp(x):
    out = _ONE
    for k, t in summands(x):
        v = _log_arg(t)
        if v is not None and (2 * k).denominator == 1:
            # exp(k log v) = v**k
            n2 = int(2 * k)
            b = v if n2 >= 0 else (1 / v if isinstance(v, F) else recip(v))
            for _ in range(abs(n2) // 2):
                out = rmul(out, b)
            if n2 % 2:
                out = rmul(out, rsqrt(canon(b)))
            continue
        n = k * EXP_UNIT
        unit = F(1, EXP_UNIT)
        if n.denominator != 1:
            unit = F(1, k.denominator)
            n = k / unit
        if abs(n) > 64:
            unit, n = abs(k), (1 if k > 0 else -1)
        n = int(n)
        sgn = 1 if n > 0 else -1
        arg = rmul(unit * sgn, t) if t is not None else unit * sgn
        if not isinstance(arg, F):
            arg = canon(arg)

        def ax(c, arg=arg):
            res = [c > 0]
            if isinstance(arg, F):
                res += [c > 1] if arg > 0 else [c < 1]
            else:
                res += [z3.Implies(arg > 0, c > 1), z3.Implies(arg < 0, c < 1),
                        z3.Implies(arg == 0, c == 1)]
            return res

        e = eng().atom("exp", [arg], ax)
        # exp(t) * exp(-t) == 1 when both occur
        other = canon(-arg) if not isinstance(arg, F) else -arg
        k2 = ("exp", ("q", other) if isinstance(other, F) else ("t", other.get_id()))
        if k2 in eng().atoms and k2 in eng().atoms_seen:
            eng().add_axiom(eng().atoms[k2] * e == 1)
        for _ in range(abs(n)):
            out = rmul(out, e)
    return out


def _cs_pow(c, s, n):
    rc, rs = _ONE, _ZERO
    if n < 0:
        n, s = -n, rmul(F(-1), s)
    for _ in range(n):
        rc, rs = (
            radd(rmul(rc, c), rmul(F(-1), rmul(rs, s))),
            radd(rmul(rc, s), rmul(rs, c)),
        )
    return rc, rs


def cos_sin(x):
    rc, rs = _ONE, _ZERO
    pc = canon(pi().re)
    for k, t in summands(x):
        ispi = t is not None and t.eq(pc)
        if ispi:
            num, den = k.numerator, k.denominator
            num %= 2 * den
            known = {
                1: (F(-1), F(0)),
                2: (F(0), F(1)),
                4: (rmul(F(1, 2), rsqrt(F(2))), rmul(F(1, 2), rsqrt(F(2)))),
                3: (F(1, 2), rmul(F(1, 2), rsqrt(F(3)))),
                6: (rmul(F(1, 2), rsqrt(F(3))), F(1, 2)),
            }
            if den in known:
                c, s = known[den]
                c, s = _cs_pow(c, s, num)
                rc, rs = (
                    radd(rmul(rc, c), rmul(F(-1), rmul(rs, s))),
                    radd(rmul(rc, s), rmul(rs, c)),
                )
                continue
        if t is None:
            arg, n = F(1, k.denominator), k.numerator
        else:
            arg, n = canon(rmul(F(1, k.denominator), t)), k.numerator
        if abs(n) > 64:
            arg, n = (k if t is None else canon(rmul(k, t))), 1
        c = eng().atom("cos", [arg], lambda c: [c >= -1, c <= 1])
        s = eng().atom("sin", [arg], lambda s: [s >= -1, s <= 1, c * c + s * s == 1])
        c, s = _cs_pow(c, s, n)
        rc, rs = (
            radd(rmul(rc, c), rmul(F(-1), rmul(rs, s))),
            radd(rmul(rc, s), rmul(rs, c)),
        )
    return rc, rs


def cos(x):
    x = Num.of(x)
    if not x.isreal():
        raise Unsupported("cos of complex")
    return Num(cos_sin(x.re)[0])


def sin(x):
    x = Num.of(x)
    if not x.isreal():
        raise Unsupported("sin of complex")
    return Num(cos_sin(x.re)[1])


def log(x):
    x = Num.of(x)
    if not x.isreal():
        raise Unsupported("log of complex")
    v = canon(x.re)
    if isinstance(v, F):
        return LogNum.of_fraction(v)
    if v.eq(canon(pi().re)):
        return LogNum({"pi": F(1)})
    return Num(eng().atom("log", [v], lambda c: [z3.Implies(v > 1, c > 0)]))


def gamma_half(x):
    """Gamma at a positive half integer -> (rational, has_sqrt_pi)."""
    if x.denominator == 1:
        return F(math.factorial(int(x) - 1)), False
    n = int(x - F(1, 2))
    return F(math.factorial(2 * n), 4**n * math.factorial(n)), True


def _const(x):
    v = canon(Num.of(x).re)
    if not isinstance(v, F):
        v2 = eng().constant_of(v)
        if v2 is None:
            return None, v
        v = v2
    return v, v


def lgamma(x):
    v, t = _const(x)
    if v is None:
        return Num(eng().atom("lgamma", [t], lambda c: []))
    if v <= 0 or v.denominator not in (1, 2):
        raise Unsupported("lgamma(%s)" % v)
    q, sp = gamma_half(v)
    r = LogNum.of_fraction(q)
    if sp:
        r = r + LogNum({"pi": F(1, 2)})
    return r


def gamma(x):
    return lgamma(x).exp()


def factorial(x):
    if isinstance(x, SInt):
        n = eng().force_value(x.t)
    else:
        v, _ = _const(x)
        if v is None or v.denominator != 1:
            raise Unsupported("factorial of symbolic")
        n = int(v)
    return Num(F(math.factorial(n) if n >= 0 else 0))


def sinc(x):
    x = Num.of(x)
    v = canon(x.re)
    if not isinstance(v, F):
        c = eng().constant_of(v)
        if c is None:
            return Num(eng().atom("sinc", [v], lambda c: [c <= 1, c >= -1]))
        v = c
    if v == 0:
        return Num(_ONE)
    if v.denominator == 1:
        return Num(_ZERO)
    y = Num(v) * pi()
    return sin(y) / y


def assoc_laguerre_coeffs(n, k):
    return [
        F((-1) ** i * math.comb(n + k, n - i), math.factorial(i))
        for i in range(n + 1)
    ]


def hermite_coeffs(n):
    """physicists' H_n, ascending powers."""
    a, b = [F(1)], [F(0), F(2)]
    if n == 0:
        return a
    for k in range(1, n):
        c = [F(0)] + [2 * x for x in b]
        for i, x in enumerate(a):
            c[i] -= 2 * k * x
        a, b = b, c
    return b


def heaviside(x, h0):
    x = Num.of(x)
    h0 = Num.of(h0)
    if isinstance(x.re, F):
        return Num(_ONE) if x.re > 0 else (Num(_ZERO) if x.re < 0 else h0)
    return Num(
        z3.If(x.re > 0, z3.RealVal(1), z3.If(x.re < 0, z3.RealVal(0), rv(h0.re)))
    )


def sign(x):
    x = Num.of(x)
    if isinstance(x.re, F):
        return Num(F((x.re > 0) - (x.re < 0)))
    return Num(z3.If(x.re > 0, z3.RealVal(1), z3.If(x.re < 0, z3.RealVal(-1), z3.RealVal(0))))


def diff(x, var):
    """derivative of a symbolic number with respect to a z3 variable; inside a
    branch of a piecewise term the derivative is taken branch by branch"""
    x = Num.of(x)
    memo = {}
    return Num(_d(x.re, var, memo), _d(x.im, var, memo), x.c)


def _d(t, var, memo):
    if isinstance(t, F) or z3.is_rational_value(t) or z3.is_int_value(t):
        return _ZERO
    key = t.get_id()
    if key in memo:
        return memo[key][1]
    if t.eq(var):
        r = _ONE
    elif z3.is_const(t):
        r = _d_atom(t, var, memo)
    else:
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_ADD:
            r = _ZERO
            for c in ch:
                r = radd(r, _d(c, var, memo))
        elif k == z3.Z3_OP_SUB:
            r = _d(ch[0], var, memo)
            for c in ch[1:]:
                r = radd(r, rmul(F(-1), _d(c, var, memo)))
        elif k == z3.Z3_OP_UMINUS:
            r = rmul(F(-1), _d(ch[0], var, memo))
        elif k == z3.Z3_OP_MUL:
            r = _ZERO
            for i, c in enumerate(ch):
                d = _d(c, var, memo)
                if isinstance(d, F) and not d:
                    continue
                p = d
                for j, e in enumerate(ch):
                    if j != i:
                        p = rmul(p, _fr(e))
                r = radd(r, p)
        elif k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].denominator_as_long() == 1:
            n = ch[1].numerator_as_long()
            r = rmul(F(n), _d(ch[0], var, memo))
            for _ in range(n - 1):
                r = rmul(r, ch[0])
        elif k == z3.Z3_OP_ITE:
            a, b = _d(ch[1], var, memo), _d(ch[2], var, memo)
            if isinstance(a, F) and isinstance(b, F) and a == b:
                r = a
            else:
                r = z3.If(ch[0], rv(a), rv(b))
        elif k == z3.Z3_OP_TO_REAL:
            r = _ZERO
        else:
            raise Unsupported("derivative of %s" % t.decl().name())
    memo[key] = (t, r)
    return r


def _fr(t):
    if z3.is_rational_value(t):
        return F(t.numerator_as_long(), t.denominator_as_long())
    return t


def _d_atom(t, var, memo):
    d = eng().atom_def.get(t.decl().name())
    if d is None:
        return _ZERO
    fn, args = d
    da = [_d(a, var, memo) for a in args]
    if all(isinstance(a, F) and not a for a in da):
        return _ZERO
    a = args[0]
    if fn == "exp":
        return rmul(t, da[0])
    if fn == "recip":
        return rmul(rmul(F(-1), da[0]), rmul(t, t))
    if fn == "sqrt":
        return rmul(F(1, 2), rmul(da[0], recip(t)))
    if fn == "log":
        return rmul(da[0], recip(a))
    if fn in ("cos", "sin"):
        c, s = cos_sin(a)
        return rmul(da[0], c) if fn == "sin" else rmul(F(-1), rmul(da[0], s))
    raise Unsupported("derivative of " + fn)
