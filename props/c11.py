"""C11: random basis sets have the symmetries of integrals for every draw."""
from .common import *

ASSUMPTIONS = [
    "floating-point arithmetic is modelled as exact real/complex arithmetic",
    "np.random returns arbitrary values in [0, 1): every draw is an independent symbolic variable",
    "bounds: l <= 3, dim <= 6",
]


def rnd(env):
    """every number the generator may return"""
    qs = env.mod()
    l, dim = env["l"], env["dim"]
    bs = qs.RandomBasisSet(l, dim, np=env.np)
    env.true("shapes", tuple(bs.h.shape) == (l, l) and tuple(bs.s.shape) == (l, l)
             and tuple(bs.u.shape) == (l,) * 4 and tuple(bs.dipole_moment.shape) == (dim, l, l))
    env.eq("l", bs.l, l)
    env.eq("dim", bs.dim, dim)
    env.eq("h is Hermitian", bs.h, dagger(bs.h))
    env.eq("s is Hermitian", bs.s, dagger(bs.s))
    for i in range(dim):
        env.eq("dipole %d is Hermitian" % i, bs.dipole_moment[i], dagger(bs.dipole_moment[i]))
    env.eq("particle exchange symmetry of u", bs.u, bs.u.transpose(1, 0, 3, 2))
    env.true("complex elements", all(env.np.iscomplexobj(x) for x in (bs.h, bs.s, bs.u, bs.dipole_moment)))
    env.true("no spin", not bs.includes_spin and not bs.anti_symmetrized_u)
    # symmetries survive doubling and a change of basis
    if env["more"]:
        g = qs.GeneralOrbitalSystem(1, bs)
        env.eq("doubled h", g.h, dagger(g.h))
        env.eq("anti-symmetric u", g.u, -g.u.transpose(0, 1, 3, 2))
        env.eq("anti-symmetric u, bra", g.u, -g.u.transpose(1, 0, 2, 3))
        env.eq("exchange symmetry", g.u, g.u.transpose(1, 0, 3, 2))


for nm, p in [("l1-dim3", dict(l=1, dim=3, more=True)), ("l2-dim1", dict(l=2, dim=1, more=True)),
              ("l2-dim2", dict(l=2, dim=2, more=False)), ("l3-dim2", dict(l=3, dim=2, more=False)),
              ("l2-dim4", dict(l=2, dim=4, more=False)), ("l2-dim6", dict(l=2, dim=6, more=False))]:
    case("C11", nm, p, big=[dict(l=6, dim=3), dict(l=11, dim=9)], bounds="l=%(l)d, dim=%(dim)d" % p, again=dict(l=1) if nm == "l2-dim1" else None)(rnd)
case("C11", "l4-dim3", dict(l=4, dim=3, more=False), tier="thorough", bounds="l=4, dim=3", timeout=2000)(rnd)
case("C11", "l3-dim3-doubled", dict(l=3, dim=3, more=True), tier="thorough", bounds="l=3, dim=3", timeout=2000)(rnd)


def helpers(env):
    """the symmetrising helpers keep what is already symmetric"""
    RB = env.get("quantum_systems", "RandomBasisSet")
    l = env["l"]
    H = env.herm("H", l)
    env.eq("Hermitian input is kept", RB.make_hermitian(H), H)
    A = env.cplx("A", (l, l))
    env.eq("Hermitian part", RB.make_hermitian(A), 0.5 * (A + dagger(A)))
    U = env.cplx("U", (l,) * 4)
    V = U + U.transpose(1, 0, 3, 2)
    env.eq("symmetric input is kept", RB.make_two_body_symmetry(V), V)


case("C11", "helpers", dict(l=2), bounds="l=2")(helpers)
