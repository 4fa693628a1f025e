"""C13: Coulomb elements of the 2D oscillator are the exact integrals."""
from fractions import Fraction as F
from .common import *
from . import twodim as td

H = "quantum_systems.quantum_dots.two_dim.two_dim_helper"
CE = "quantum_systems.quantum_dots.two_dim.coulomb_elements"
HO = "quantum_systems.quantum_dots.two_dim.two_dim_ho"
ASSUMPTIONS = [
    "log/exp/lgamma are their exact real functions (lgamma at integers and half-integers)",
    "reference: int d2k/(2 pi k) <p|e^ikr|r><q|e^-ikr|s> with the states as polynomials in z, conj(z)",
]


def val(env, t):
    x, y = t
    if env.symbolic:
        return env.np.sqrt(y) * env.np.sqrt(env.np.pi / 2) * x if x else 0
    return float(x) * float(y) ** 0.5 * (env.np.pi / 2) ** 0.5


def selection(env):
    """angular momentum conservation for all quantum numbers"""
    f = env.get(CE, "coulomb_ho")
    n = [env.int("n%d" % i, 0) for i in range(4)]
    m = [env.int("m%d" % i) for i in range(4)]
    env.assume(m[0] + m[1] != m[2] + m[3])
    env.eq("zero", f(n[0], m[0], n[1], m[1], n[2], m[2], n[3], m[3]), 0)


case("C13", "selection", bounds="all integers n >= 0 and m", samples=8)(selection)


def values(env):
    """exact elements for every index quadruple"""
    f = env.get(H, "get_coulomb_elements")
    l = env["l"]
    u = f(l)
    env.true("shape", tuple(u.shape) == (l,) * 4)
    st = td.states(l)
    ref = env.np.zeros((l,) * 4)
    for p in range(l):
        for q in range(l):
            for r in range(l):
                for s in range(l):
                    ref[p, q, r, s] = val(env, td.coulomb(st[p], st[q], st[r], st[s]))
    env.eq("u", u, ref)


case("C13", "values-l3", dict(l=3), bounds="l=3, all elements", samples=1, again=dict(l=2), big=[dict(l=8)])(values)
case("C13", "values-l6", dict(l=6), tier="thorough", bounds="l=6, all elements", samples=1, timeout=3000)(values)


def element(env):
    """single elements, quantum numbers chosen symbolically"""
    f = env.get(CE, "coulomb_ho")
    nmax, mmax = env["nmax"], env["mmax"]
    ns, ms = [], []
    for i in range(4):
        ns.append(env.int("n%d" % i, 0, nmax))
        ms.append(env.int("m%d" % i, -mmax, mmax))
    env.assume(ms[0] + ms[1] == ms[2] + ms[3])
    env.assume(sum(2 * a + abs(b) for a, b in zip(ns, ms)) <= env["total"])
    if env.symbolic:
        q = [(env.e.force_value(a.t) if hasattr(a, "t") else a,
              env.e.force_value(b.t) if hasattr(b, "t") else b) for a, b in zip(ns, ms)]
    else:
        q = list(zip(ns, ms))
    v = f(q[0][0], q[0][1], q[1][0], q[1][1], q[2][0], q[2][1], q[3][0], q[3][1])
    env.eq("<%s>" % (q,), v, val(env, td.coulomb(*q)))


case("C13", "element", dict(nmax=1, mmax=2, total=6), bounds="n <= 1, |m| <= 2, sum of 2n+|m| <= 6",
     samples=6, max_paths=8000, big=[dict(nmax=2, mmax=4, total=14)])(element)
case("C13", "element-deep", dict(nmax=2, mmax=3, total=8), tier="thorough",
     bounds="n <= 2, |m| <= 3, sum of 2n+|m| <= 8", timeout=3000, max_paths=40000)(element)


def scale(env):
    """basis objects: u = sqrt(mass*omega) times the reduced elements"""
    T = env.get(HO, env["cls"])
    w, mass = env.real("omega", pos=True), env.real("mass", pos=True)
    l = env["l"]
    t = T(l, 4, 2, omega=w, mass=mass)
    st = td.states(l)
    a = env.np.sqrt(mass * w)
    ref = env.np.zeros((l,) * 4)
    for p in range(l):
        for q in range(l):
            for r in range(l):
                for s in range(l):
                    ref[p, q, r, s] = a * val(env, td.coulomb(st[p], st[q], st[r], st[s]))
    env.eq("u", t.u, ref)
    env.true("not antisymmetrised", not t.anti_symmetrized_u)


case("C13", "scale", dict(l=2, cls="TwoDimensionalHarmonicOscillator"),
     bounds="l=2, every omega, mass > 0", big=[dict(l=4)], again={})(scale)
case("C13", "scale-dw", dict(l=2, cls="TwoDimensionalDoubleWell"),
     bounds="l=2, every omega, mass > 0", samples=1)(scale)


def far(env):
    """single elements with one or two states from high shells"""
    f = env.get(CE, "coulomb_ho")
    hi = env["hi"]
    kinds = env.p.get("kinds", (0, 1, 2, 3, 4, 5))
    kind = kinds[env.choice("kind", len(kinds))]
    k = env.int("k", env["lo"], hi)
    if env.symbolic:
        k = env.e.force_value(k.t) if hasattr(k, "t") else k
    sg = 1 if env.choice("sign", 2) else -1
    m = (0, sg * k)
    q = [
        (m, (0, 0), m, (0, 0)),
        (m, (0, 0), (0, 0), m),
        (m, (0, -sg), (0, sg * (k - 1)), (0, 0)),
        ((k // 3, 0), (0, sg), (k // 3, 0), (0, sg)),
        ((1, sg * (k - 2)), (0, 0), m, (0, -2 * sg)),
        ((k // 4, sg), (0, 0), (0, 0), (k // 4, sg)),
    ][kind]
    v = f(q[0][0], q[0][1], q[1][0], q[1][1], q[2][0], q[2][1], q[3][0], q[3][1])
    env.eq("<%s>" % (q,), v, val(env, td.coulomb(*q)))


case("C13", "far", dict(lo=7, hi=20), bounds="one or two states with up to 20 quanta (six kinds of elements)",
     samples=12, timeout=600)(far)
case("C13", "farther", dict(lo=21, hi=26), tier="thorough", bounds="one or two states with up to 26 quanta (six kinds of elements)",
     samples=4, timeout=2000)(far)
case("C13", "high", dict(lo=27, hi=36, kinds=(0, 2)), bounds="one or two states with up to 36 quanta (two kinds of elements)",
     samples=4, timeout=600)(far)


def tiny(env):
    """exchange elements with a high state are small but exact, relative to their size"""
    f = env.get(CE, "coulomb_ho")
    k = env.int("k", 2, env["hi"])
    if env.symbolic:
        k = env.e.force_value(k.t) if hasattr(k, "t") else k
    m = (0, k if env.choice("sign", 2) else -k)
    q = (m, (0, 0), (0, 0), m)
    v = f(q[0][0], q[0][1], q[1][0], q[1][1], q[2][0], q[2][1], q[3][0], q[3][1])
    env.eq("ratio <%s>" % (q,), v / val(env, td.coulomb(*q)), 1, tol=1e-5)


case("C13", "tiny", dict(hi=24), bounds="exchange of the lowest state with one of up to 24 quanta", samples=4, timeout=600)(tiny)
