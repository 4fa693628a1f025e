"""C02: orbitals and particle densities follow a change of basis."""
from .common import *

ASSUMPTIONS = [
    "floating-point arithmetic is modelled as exact real/complex arithmetic",
    "bounds: l <= 3 orbitals on grids of 1-4 points in 1 and 2 dimensions, all values symbolic",
]


def ket(env, phi, C):
    return env.np.einsum("ap,ax->px", C, phi)


def flat(a):
    return a.reshape(a.shape[0], -1)


def dens(env, bra, rho, phi):
    return env.np.einsum("px,qp,qx->x", bra, rho, phi)


def orbitals(env):
    l, k, dim = env["l"], env["k"], env["dim"]
    bs = make_basis(env, l, dim, cplx=env["elc"], spf=env["grid"], dip=False, s="eye",
                    bra=env["bra"])
    phi0 = snap(bs.spf)
    if env["bra"]:
        bra0 = snap(bs.bra_spf)
    else:
        bra0 = phi0.conj()
        if env.choice("touch", 2):
            env.eq("dual orbitals", flat(bs.bra_spf), flat(bra0))
    C = tensor(env, "C", (l, k), True)
    if env["tilde"]:
        Ct = tensor(env, "Ct", (k, l), True)
        bs.change_basis(C, Ct)
    else:
        Ct = dagger(C)
        bs.change_basis(C)
    env.eq("ket orbitals", flat(bs.spf), ket(env, flat(phi0), C))
    env.eq("bra orbitals", flat(bs.bra_spf), env.np.einsum("pa,ax->px", Ct, flat(bra0)))
    env.true("grid shape is kept", tuple(bs.spf.shape[1:]) == tuple(phi0.shape[1:]))
    env.true("bra grid shape is kept", tuple(bs.bra_spf.shape[1:]) == tuple(phi0.shape[1:]))
    if not env["bra"] and not env["tilde"]:
        env.eq("dual stays the conjugate", flat(bs.bra_spf), flat(bs.spf).conj())


for nm, p in [
    ("orbitals-1d", dict(l=2, k=2, dim=1, grid=(3,))),
    ("orbitals-2d", dict(l=2, k=3, dim=2, grid=(2, 2), tilde=True)),
    ("orbitals-biorthogonal", dict(l=2, k=2, dim=1, grid=(2,), bra=True, tilde=True)),
    ("orbitals-bra-default", dict(l=3, k=2, dim=1, grid=(2,), bra=True)),
    ("orbitals-shrink", dict(l=3, k=1, dim=2, grid=(1, 2))),
    ("orbitals-real", dict(l=2, k=2, dim=1, grid=(2,), elc=False)),
]:
    q = dict(elc=True, bra=False, tilde=False)
    q.update(p)
    case("C02", nm, q, big=[dict(l=6, k=4)] + ([dict(l=3, k=2, grid=(1500,))] if q["dim"] == 1 else [dict(grid=(40, 37))]),
         large=[dict(l=6, k=5, grid=(9,) if q["dim"] == 1 else (3, 4))] if nm in ("orbitals-1d", "orbitals-2d") else (), bounds="l=%(l)d -> %(k)d, dim=%(dim)d, grid=%(grid)s" % q)(orbitals)


def density(env):
    """compute_particle_density, with and without a basis change"""
    qs = env.mod()
    l, k = env["l"], env["k"]
    bs = make_basis(env, l, env["dim"], cplx=True, spf=env["grid"], dip=False, s="eye",
                    bra=env["bra"])
    sys_ = qs.SpatialOrbitalSystem(2, bs) if env["system"] else bs
    phi, bra = snap(bs.spf), snap(bs.bra_spf)
    rho = tensor(env, "rho", (l, l), True)
    env.eq("density", sys_.compute_particle_density(rho).reshape(-1),
           dens(env, flat(bra), rho, flat(phi)))
    env.true("density has the shape of the grid",
             tuple(sys_.compute_particle_density(rho).shape) == tuple(phi.shape[1:]))
    C = tensor(env, "C", (l, k), True)
    # bra and ket orbitals of the same kind
    Ct = tensor(env, "Ct", (k, l), bool(env.np.iscomplexobj(C)))
    r2 = tensor(env, "rho2", (k, k), True)
    d1 = sys_.compute_particle_density(r2, C=C)
    d2 = sys_.compute_particle_density(r2, C=C, C_tilde=Ct)
    env.eq("orbitals are not modified", flat(bs.spf), flat(phi))
    env.eq("dual orbitals are not modified", flat(bs.bra_spf), flat(bra))
    env.eq("density in transformed basis", d1.reshape(-1),
           dens(env, env.np.einsum("pa,ax->px", dagger(C), flat(bra)), r2, ket(env, flat(phi), C)))
    env.eq("density in transformed biorthogonal basis", d2.reshape(-1),
           dens(env, env.np.einsum("pa,ax->px", Ct, flat(bra)), r2, ket(env, flat(phi), C)))
    sys_.change_basis(C, Ct)
    env.eq("density after change_basis", sys_.compute_particle_density(r2).reshape(-1), d2.reshape(-1))


case("C02", "density-system", dict(l=2, k=2, dim=1, grid=(2,), bra=False, system=True),
     big=[dict(l=5, k=4), dict(l=3, k=2, grid=(1500,)), dict(l=14, k=13)], large=[dict(l=5, k=4, grid=(7,))], bounds="l=2, 2 grid points", again={})(density)
case("C02", "density-kinds", dict(l=2, k=2, dim=1, grid=(2,), bra=False, system=True, mix=("phi", "rho", "rho2", "C")),
     bounds="orbitals, density matrix and coefficients real or complex, independently")(density)
case("C02", "orbitals-kinds", dict(l=2, k=2, dim=1, grid=(2,), bra=True, tilde=True, elc=True, mix=("phi", "bra", "C", "Ct")),
     bounds="orbitals, dual orbitals and coefficients real or complex, independently")(orbitals)
case("C02", "density-basis-2d", dict(l=2, k=1, dim=2, grid=(1, 2), bra=True, system=False),
     big=[dict(l=5, k=6), dict(grid=(40, 37))], large=[dict(l=4, k=5, grid=(2, 3))], bounds="l=2 -> 1, 1x2 grid, independent dual orbitals")(density)


def missing(env):
    """without orbitals the density is refused, not silently wrong"""
    bs = make_basis(env, 2, 1, spf=None, dip=False)
    rho = env.real("rho", (2, 2))
    env.raises("density without orbitals", REFUSED,
               lambda: bs.compute_particle_density(rho))
    C = env.real("C", (2, 2))
    bs.change_basis(C)
    env.true("no orbitals appear", bs.spf is None and bs.bra_spf is None)


case("C02", "no-orbitals", {}, bounds="l=2")(missing)


def invariance(env):
    """the density of a fixed state does not depend on the basis:
    rho transforms with the inverse of C"""
    l = 2
    bs = make_basis(env, l, 1, cplx=True, spf=(1,), dip=False, s="eye")
    C = env.real("C", (l, l))
    det = C[0, 0] * C[1, 1] - C[0, 1] * C[1, 0]
    env.assume(det == 1) if env.symbolic else None
    if not env.symbolic:
        env.assume(abs(det) > 0.1)
    inv = env.np.zeros((l, l))
    inv[0, 0], inv[1, 1] = C[1, 1] / det, C[0, 0] / det
    inv[0, 1], inv[1, 0] = -C[0, 1] / det, -C[1, 0] / det
    rho = env.cplx("rho", (l, l))
    d0 = bs.compute_particle_density(rho)
    r2 = env.np.einsum("pa,ab,bq->pq", inv, rho, dagger(inv))
    bs.change_basis(C)
    env.eq("density is basis independent", bs.compute_particle_density(r2), d0)


case("C02", "basis-independence", {}, samples=2, bounds="l=2, real C with determinant 1")(invariance)
case("C02", "density-integers", dict(l=2, k=2, dim=1, grid=(2,), bra=False, system=False, mix=("phi", "rho", "rho2"), ints=1),
     bounds="orbitals, density matrices: whole numbers of integer type, real or complex")(density)
case("C02", "orbitals-integers", dict(l=2, k=2, dim=1, grid=(2,), bra=True, tilde=True, elc=True, mix=("phi", "bra", "C"), ints=1),
     bounds="orbitals, dual orbitals, coefficients: whole numbers of integer type, real or complex")(orbitals)


def replaced(env):
    """orbitals that are replaced: without dual orbitals of its own the basis
    goes on with the conjugates of the current ones, whatever happened before"""
    qs = env.mod()
    l = 2
    bs = make_basis(env, l, 1, cplx=True, spf=(2,), dip=False, s="eye")
    sys_ = qs.SpatialOrbitalSystem(2, bs)
    first = snap(bs.spf)
    rho = env.cplx("rho", (l, l))
    op = env.choice("before", 7)
    if op == 1:
        env.eq("dual", flat(bs.bra_spf), flat(first).conj())
    elif op == 2:
        env.eq("first density", sys_.compute_particle_density(rho), dens(env, flat(first).conj(), rho, flat(first)))
    elif op == 3:
        c = bs.copy_basis()
        if env.choice("use the copy", 2):
            bs = c
            sys_ = bs
    elif op == 4:
        sys_.copy_system()
    elif op == 5:
        bs.cast_to_complex()
    elif op == 6:
        sys_.change_module(env.np)
    phi = tensor(env, "new", (l, 3), True)
    if env.choice("in place", 2):
        phi = tensor(env, "new2", (l, 2), True)
        bs.spf[...] = phi
    else:
        bs.spf = phi
    want = snap(phi)
    env.eq("dual of the new orbitals", flat(bs.bra_spf), flat(want).conj())
    env.eq("density of the new orbitals", sys_.compute_particle_density(rho), dens(env, flat(want).conj(), rho, flat(want)))
    own = tensor(env, "own", tuple(phi.shape), True)
    bs.bra_spf = own
    env.eq("density with own dual orbitals", sys_.compute_particle_density(rho), dens(env, flat(own), rho, flat(want)))


case("C02", "replaced", {}, bounds="l=2, orbitals set again (or in place) after any use", samples=6, big=[])(replaced)
