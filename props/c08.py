"""C08: particle and orbital bookkeeping."""
from .common import *

ASSUMPTIONS = [
    "particle and orbital numbers are unbounded symbolic integers with n >= 0, l >= 1",
]


def number(env):
    """plain or numpy integers"""
    return env.npint if env.p.get("np") else env.int


def check(env, s, n, l):
    env.eq("n", s.n, n)
    env.eq("l", s.l, l)
    env.eq("m", s.m, l - n)
    env.eq("occupied start", s.o.start or 0, 0)
    env.eq("occupied stop", s.o.stop, n)
    env.eq("virtual start", s.v.start, n)
    env.eq("virtual stop", s.v.stop, l)
    env.true("unit steps", s.o.step in (None, 1) and s.v.step in (None, 1))


def general(env):
    """GeneralOrbitalSystem(n, basis): every n and l"""
    qs = env.mod()
    n, l = number(env)("n", 0), env.int("l", 1)
    bs = qs.BasisSet(l, 1, np=env.np, includes_spin=True, anti_symmetrized_u=True)
    if bool(n > l):
        env.raises("more particles than orbitals", REFUSED, lambda: qs.GeneralOrbitalSystem(n, bs))
        return
    s = qs.GeneralOrbitalSystem(n, bs)
    check(env, s, n, l)
    # resizing, as done after every change of basis
    k = number(env)("k", 1)
    if bool(n > k):
        env.raises("resizing below the particle number", REFUSED, lambda: s.set_system_size(n, k))
        return
    s.set_system_size(n, k)
    check(env, s, n, k)


case("C08", "general", {}, bounds="all integers", samples=12)(general)
case("C08", "general-numpy", dict(np=1), bounds="all integers, as numpy scalars", samples=12)(general)


def spatial(env):
    """SpatialOrbitalSystem(n, basis): every n and l"""
    qs = env.mod()
    n, l = number(env)("n", 0), env.int("l", 1)
    bs = qs.BasisSet(l, 1, np=env.np)
    if bool(n % 2 == 1):
        env.raises("odd particle number", REFUSED, lambda: qs.SpatialOrbitalSystem(n, bs))
        return
    if bool(n > 2 * l):
        env.raises("more particles than spin orbitals", REFUSED, lambda: qs.SpatialOrbitalSystem(n, bs))
        return
    s = qs.SpatialOrbitalSystem(n, bs)
    check(env, s, n // 2, l)


case("C08", "spatial", {}, bounds="all integers", samples=12)(spatial)
case("C08", "spatial-numpy", dict(np=1), bounds="all integers, as numpy scalars", samples=12)(spatial)


def mixing(env):
    """a closed-shell system refuses a basis with explicit spin"""
    qs = env.mod()
    n, l = env.int("n", 0), env.int("l", 1)
    bs = qs.BasisSet(l, 1, np=env.np, includes_spin=True)
    env.assume(n % 2 == 0)
    env.assume(n <= 2 * l)
    env.raises("spin basis", REFUSED, lambda: qs.SpatialOrbitalSystem(n, bs))


case("C08", "spin-basis-refused", {}, bounds="all integers")(mixing)


def resize(env):
    """a change of basis to k orbitals keeps the particle number and resizes"""
    qs = env.mod()
    l, k, n = env["l"], env["k"], env["n"]
    bs = make_basis(env, l, 1, cplx=False, spf=None, includes_spin=True)
    s = qs.GeneralOrbitalSystem(n, bs)
    C = env.real("C", (l, k))
    if n > k:
        env.raises("too few orbitals left", REFUSED, lambda: s.change_basis(C))
        return
    s.change_basis(C)
    check(env, s, n, k)
    env.eq("basis size", bs.l, k)
    env.true("array size", tuple(s.h.shape) == (k, k) and tuple(s.u.shape) == (k,) * 4)
    env.true("occupied block", tuple(s.h[s.o, s.o].shape) == (n, n))
    env.true("virtual block", tuple(s.h[s.v, s.v].shape) == (k - n, k - n))


for l, k, n in [(3, 2, 1), (2, 3, 1), (3, 2, 2), (3, 1, 1), (3, 1, 2), (2, 2, 0)]:
    case("C08", "resize-%d-%d-%d" % (l, k, n), dict(l=l, k=k, n=n), bounds="l=%d -> %d, n=%d" % (l, k, n),
         large=[dict(l=6, k=4, n=3)] if (l, k, n) == (3, 2, 1) else (), big=[dict(l=12, k=9, n=7)] if (l, k, n) == (3, 2, 1) else [])(resize)


def doubled(env):
    """spin doubling doubles orbitals, keeps the particle number"""
    qs = env.mod()
    l = env["l"]
    bs = make_basis(env, l, 1, cplx=False, spf=None, s="eye", dip=False)
    n = 2 * env.choice("pairs", l + 1)
    s = qs.SpatialOrbitalSystem(n, bs)
    check(env, s, n // 2, l)
    g = s.construct_general_orbital_system()
    check(env, g, n, 2 * l)
    check(env, s, n // 2, l)
    n2 = env.choice("n2", 2 * l + 1)
    g2 = qs.GeneralOrbitalSystem(n2, bs)
    check(env, g2, n2, 2 * l)
    env.raises("too many particles", REFUSED, lambda: qs.GeneralOrbitalSystem(2 * l + 1, bs))


case("C08", "doubled-l2", dict(l=2), bounds="2 spatial orbitals, every occupation", samples=4)(doubled)
case("C08", "doubled-l1", dict(l=1), bounds="1 spatial orbital, every occupation", samples=4)(doubled)
