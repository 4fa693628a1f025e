"""First-principles reference values for the 2D oscillator (exact, rational
arithmetic up to square roots).  Independent of the package's formulas: the
states are written as polynomials in z and conj(z) times a Gaussian and all
integrals are done monomial by monomial."""
import math
from fractions import Fraction as F
from functools import lru_cache


def states(l):
    """(n, m) in order: by shell, then by m"""
    out, s = [], 0
    while len(out) < l:
        for m in range(-s, s + 1, 2):
            out.append(((s - abs(m)) // 2, m))
        s += 1
    return out[:l]


def lag(n, k):
    """coefficients of the generalised Laguerre polynomial L_n^k"""
    return [F((-1) ** i * math.comb(n + k, n - i), math.factorial(i)) for i in range(n + 1)]


def norm2(n, m):
    """pi N^2 for N^2 = n!/(pi (n+|m|)!)"""
    return F(math.factorial(n), math.factorial(n + abs(m)))


def poly(n, m):
    """{(a, b): c}: sum of c z^a conj(z)^b"""
    k = abs(m)
    return {(i + (k if m > 0 else 0), i + (k if m < 0 else 0)): c
            for i, c in enumerate(lag(n, k))}


@lru_cache(None)
def fourier(a, b):
    """(1/pi) int z^a zb^b exp(-z zb) exp(i k.r) d2r = exp(-k kb/4) sum c k^e kb^f,
    as {(e, f): (c, power of i)}"""
    # (2/i d/dkb)^a (2/i d/dk)^b exp(-k kb/4)
    out = {}
    c = F(-1, 4)
    for j in range(min(a, b) + 1):
        co = F(2) ** (a + b) * c ** b * c ** (a - j) * math.comb(a, j) * F(
            math.factorial(b), math.factorial(b - j))
        out[(a - j, b - j)] = co
    return tuple(out.items()), (-(a + b)) % 4


@lru_cache(None)
def form(p, q):
    """<p|exp(ik.r)|q> / sqrt(norms) = exp(-k kb/4) sum c k^e kb^f,
    c complex rational as (re, im)"""
    out = {}
    for (a, b), c in poly(*p).items():
        for (a2, b2), c2 in poly(*q).items():
            items, ip = fourier(b + a2, a + b2)
            for ef, co in items:
                re, im = out.get(ef, (F(0), F(0)))
                v = c * c2 * co
                if ip == 0:
                    re += v
                elif ip == 1:
                    im += v
                elif ip == 2:
                    re -= v
                else:
                    im -= v
                out[ef] = (re, im)
    return tuple((k, v) for k, v in out.items() if v != (0, 0))


def dfact(n):
    r = 1
    while n > 1:
        r *= n
        n -= 2
    return r


@lru_cache(None)
def coulomb(p, q, r, s):
    """<pq|1/r12|rs> in units m = omega = 1 as (x, y): x*sqrt(y)*sqrt(pi/2).
    p.. are (n, m)."""
    tot = F(0)
    toti = F(0)
    for (e, f), (cr, ci) in form(p, r):
        for (e2, f2), (dr, di) in form(q, s):
            # angular integral over the direction of k
            if e + e2 != f + f2:
                continue
            sg = (-1) ** (e2 + f2)
            J = e + e2 + f + f2
            g = sg * dfact(J - 1)
            tot += g * (cr * dr - ci * di)
            toti += g * (cr * di + ci * dr)
    assert toti == 0
    y = norm2(*p) * norm2(*q) * norm2(*r) * norm2(*s)
    return tot, y


def moment(p, q, da, db):
    """<p| z^da conj(z)^db |q> / sqrt(norms) for m = omega = 1 (da, db >= 0)"""
    tot = F(0)
    for (a, b), c in poly(*p).items():
        for (a2, b2), c2 in poly(*q).items():
            if b + a2 + da == a + b2 + db:
                tot += c * c2 * math.factorial(b + a2 + da)
    return tot


def radial_half(p, q, order):
    """2 * int_0^oo r r^order R_p R_q dr for the unnormalised radial functions
    (m = omega = 1), as (x, half): x * sqrt(pi) if half else x"""
    k = abs(p[1]) + abs(q[1])
    lp, lq = lag(p[0], abs(p[1])), lag(q[0], abs(q[1]))
    tot = F(0)
    half = (k + order) % 2 == 1
    for i, c in enumerate(lp):
        for j, d in enumerate(lq):
            e = 2 * (i + j) + k + order  # 2 int r^(e+1) exp(-r^2) = Gamma(e/2+1)
            if half:
                # Gamma(t+1/2) = (2t)! / (4^t t!) sqrt(pi) with t = (e+1)/2
                t = (e + 1) // 2
                g = F(math.factorial(2 * t), 4 ** t * math.factorial(t))
            else:
                g = F(math.factorial(e // 2))
            tot += c * d * g
    return tot, half
