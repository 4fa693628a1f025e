"""C03: spin doubling."""
from .common import *

ASSUMPTIONS = [
    "floating-point arithmetic is modelled as exact real/complex arithmetic",
    "bounds: 1 and 2 spatial orbitals (4 spin orbitals); all matrix elements symbolic",
]


def frame(env):
    """a few exact spin frames, real and complex"""
    fr = [None, ([1, 0], [0, 1]), ([1, 0], [0, 1j]), ([0.6, 0.8], [-0.8, 0.6]), ([0.6, 0.8j], [0.8j, 0.6]),
          ([0, 1], [1, 0])]
    k = env.choice("frame", len(fr))
    if fr[k] is None:
        return {}
    a, b = fr[k]
    return dict(a=a, b=b)


def _verify(env, bs, h, s, u, d, phi, bra, l, anti):
    for n in ("h", "s", "u", "dipole_moment", "spf", "bra_spf", "spin_x", "spin_y", "spin_z", "spin_2", "spin_2_tb"):
        v = getattr(bs, n)
        if v is not None:
            env.true(n + " is complex", bool(env.np.iscomplexobj(v)))
    env.eq("l", bs.l, 2 * l)
    env.true("includes_spin", bs.includes_spin)
    env.eq("h", bs.h, spin_double_one(env, h))
    env.eq("s", bs.s, spin_double_one(env, s))
    U = spin_double_two(env, u)
    env.eq("u", bs.u, antisym(U) if anti else U)
    if d is not None:
        env.eq("dipole length", len(bs.dipole_moment), len(d))
        for i in range(len(d)):
            env.eq("dipole%d" % i, bs.dipole_moment[i], spin_double_one(env, d[i]))
    if phi is not None:
        for p in range(l):
            for t in range(2):
                env.eq("orbital %d spin %d" % (p, t), bs.spf[2 * p + t], phi[p])
                env.eq("dual orbital %d spin %d" % (p, t), bs.bra_spf[2 * p + t], bra[p])


def double(env):
    """BasisSet.change_to_general_orbital_basis"""
    l = env["l"]
    bs = make_basis(env, l, env["dim"], cplx=env["cplx"], spf=env["grid"], bra=env["bra"],
                    dip=env["dip"])
    e0 = env.real("enuc")
    bs.nuclear_repulsion_energy = e0
    h, s, u, d, phi = [snap(x) for x in (bs.h, bs.s, bs.u, bs.dipole_moment, bs.spf)]
    bra = snap(bs.bra_spf) if env["bra"] else (phi.conj() if phi is not None else None)
    anti = bool(env.choice("anti", 2))
    # doubling may come before or after the dual orbitals were first used
    if phi is not None and not env["bra"] and env.choice("touch", 2):
        bs.bra_spf
    fr = frame(env) if env.p.get("frames") else {}
    r = bs.change_to_general_orbital_basis(anti_symmetrize=anti, **fr)
    env.true("returns the basis", r is bs)
    _verify(env, bs, h, s, u, d, phi, bra, l, anti)
    env.eq("nuclear repulsion", bs.nuclear_repulsion_energy, e0)
    env.true("anti-symmetry flag", bool(bs.anti_symmetrized_u) == anti)
    # doubling twice never happens
    names = ("h", "u", "s", "dipole_moment", "spf", "bra_spf", "spin_x", "spin_y", "spin_z", "spin_2", "spin_2_tb")
    old = {n: snap(getattr(bs, n)) for n in names}
    if env.choice("second", 2):
        bs.change_to_general_orbital_basis()
    else:
        bs.change_to_general_orbital_basis(a=[0, 1], b=[1, 0], anti_symmetrize=False)
    env.eq("second call leaves l", bs.l, 2 * l)
    env.true("second call leaves the flags", bool(bs.includes_spin) and bool(bs.anti_symmetrized_u) == anti)
    for n in names:
        if old[n] is None:
            env.true("second call leaves %s unset" % n, getattr(bs, n) is None)
        else:
            env.eq("second call leaves " + n, getattr(bs, n), old[n])


for nm, p, big in [
    ("double-l1", dict(l=1, dim=3, grid=None), []),
    ("double-l2", dict(l=2, dim=1, grid=(2,)), [dict(l=4), dict(l=9)]),
    ("double-l1-frames", dict(l=1, dim=1, grid=(1,), frames=True, cplx=False), [dict(l=3)]),
    ("double-l2-real", dict(l=2, dim=2, grid=(1, 2), cplx=False), [dict(l=4)]),
    ("double-l1-3d", dict(l=1, dim=3, grid=(1, 3, 2), bra=True), [dict(l=3, grid=(4, 2, 3))]),
    ("double-l2-bra", dict(l=2, dim=1, grid=(1,), bra=True), [dict(l=3)]),
    ("double-l2-nodipole", dict(l=2, dim=1, grid=None, dip=False, cplx=False), []),
]:
    q = dict(cplx=True, bra=False, dip=True)
    q.update(p)
    case("C03", nm, q, big=big, large=[dict(l=4)] if nm in ("double-l2", "double-l2-bra") else (), bounds="l=%(l)d, dim=%(dim)d" % q)(double)
case("C03", "double-l3", dict(l=3, dim=2, grid=(1, 2), cplx=True, bra=True, dip=True),
     tier="thorough", bounds="l=3", timeout=2000)(double)


def systems(env):
    """GeneralOrbitalSystem(n, spatial basis) and
    SpatialOrbitalSystem.construct_general_orbital_system agree with doubling"""
    qs = env.mod()
    l = env["l"]
    bs = make_basis(env, l, 1, cplx=True, spf=(1,))
    h, s, u, d, phi = [snap(x) for x in (bs.h, bs.s, bs.u, bs.dipole_moment, bs.spf)]
    anti = bool(env.choice("anti", 2))
    spas = qs.SpatialOrbitalSystem(2, bs)
    fr = frame(env) if env.p.get("frames") else {}
    gos = spas.construct_general_orbital_system(anti_symmetrize=anti, **fr)
    env.eq("n", gos.n, 2)
    env.eq("system l", gos.l, 2 * l)
    env.eq("m", gos.m, 2 * l - 2)
    env.eq("h", gos.h, spin_double_one(env, h))
    env.eq("s", gos.s, spin_double_one(env, s))
    U = spin_double_two(env, u)
    U = antisym(U) if anti else U
    env.eq("u", gos.u, U)
    env.eq("dipole", gos.dipole_moment[0], spin_double_one(env, d[0]))
    for p in range(l):
        for t in range(2):
            env.eq("orbital", gos.spf[2 * p + t], phi[p])
            env.eq("dual orbital", gos.bra_spf[2 * p + t], phi[p].conj())
    # the closed-shell system is untouched
    env.eq("spatial l", spas.l, l)
    env.eq("spatial n", spas.n, 1)
    env.eq("spatial h", spas.h, h)
    env.eq("spatial u", spas.u, u)
    env.eq("spatial s", spas.s, s)
    env.true("spatial basis has no spin", not bs.includes_spin)
    g2 = qs.GeneralOrbitalSystem(1, bs, anti_symmetrize=anti, **fr)
    env.eq("direct h", g2.h, spin_double_one(env, h))
    env.eq("direct u", g2.u, U)
    env.eq("direct s", g2.s, spin_double_one(env, s))
    env.eq("direct l", g2.l, 2 * l)


case("C03", "systems-l2", dict(l=2), big=[dict(l=4), dict(l=7)], large=[dict(l=4)], bounds="l=2", again={})(systems)
case("C03", "systems-l1", dict(l=1), bounds="l=1")(systems)
case("C03", "systems-l1-frames", dict(l=1, frames=True), bounds="l=1, six spin frames")(systems)


def conserve(env):
    """spin conservation: no element couples different spin projections"""
    l = env["l"]
    bs = make_basis(env, l, 1, cplx=True, spf=None)
    bs.change_to_general_orbital_basis(anti_symmetrize=False)
    L = 2 * l
    z = 0
    for p in range(L):
        for q in range(L):
            if (p - q) % 2:
                env.eq("h[%d,%d]" % (p, q), bs.h[p, q], z)
                env.eq("s[%d,%d]" % (p, q), bs.s[p, q], z)
            for r in range(L):
                for t in range(L):
                    if (p - r) % 2 or (q - t) % 2:
                        env.eq("u[%d,%d,%d,%d]" % (p, q, r, t), bs.u[p, q, r, t], z)


case("C03", "spin-conservation", dict(l=2), bounds="l=2")(conserve)
case("C03", "double-faint", dict(l=2, dim=1, grid=(2,), bra=True, cplx=True, dip=True, faint=("h", "s", "u", "d")),
     bounds="fixed integer elements times one symbolic factor between 1e-13 and 1e-9")(double)
case("C03", "double-integers", dict(l=2, dim=1, grid=(1,), bra=True, cplx=True, dip=True, mix=("h", "s", "u", "phi"), ints=1, few=2),
     bounds="l=2, arrays of whole numbers, real or complex")(double)
case("C03", "double-integers-2", dict(l=2, dim=1, grid=(2,), bra=True, cplx=True, dip=True, mix=("d", "phi", "bra"), ints=1, few=2),
     bounds="l=2, arrays of whole numbers, real or complex")(double)


def parity(env):
    """spin_delta and delta of two spin-orbital indices"""
    f = env.get("quantum_systems.system_helper", "spin_delta")
    g = env.get("quantum_systems.system_helper", "delta")
    p, q = env.int("p", 0), env.int("q", 0)
    same = (p % 2) == (q % 2)
    env.true("spin_delta", (f(p, q) == 1) == same)
    env.true("spin_delta is 0 or 1", (f(p, q) == 1) | (f(p, q) == 0))
    env.true("delta", (g(p, q) == 1) == (p == q))


case("C03", "parity", bounds="all indices", samples=12)(parity)
