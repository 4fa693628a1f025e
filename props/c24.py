"""C24: casting and module changes preserve every value."""
from .common import *

ASSUMPTIONS = [
    "floating-point arithmetic is modelled as exact real/complex arithmetic",
    "bounds: l <= 2, dim <= 2; every stored array symbolic; every subset of optional arrays present or missing as listed",
]
NAMES = ("h", "s", "u", "dipole_moment", "spf", "bra_spf", "spin_x", "spin_y", "spin_z", "spin_2", "spin_2_tb")


def fill(env):
    l = env["l"]
    bs = make_basis(env, l, env["dim"], cplx=env["cplx"], spf=(2,) if env["spf"] else None,
                    bra=env["bra"], dip=env["dip"], includes_spin=env["spin"],
                    s=None if env["s"] else "none")
    if env["spin"]:
        for n in ("spin_x", "spin_y", "spin_z", "spin_2"):
            if not env.p.get("subset") or env.choice("has " + n, 2):
                setattr(bs, n, tensor(env, n, (l, l), env["cplx"]))
        if not env.p.get("subset") or env.choice("has tb", 2):
            bs.spin_2_tb = tensor(env, "tb", (l,) * 4, env["cplx"])
    return bs


def keep(env):
    bs = fill(env)
    # the dual orbitals come into being on first use; they are the conjugates
    bra = snap(bs.bra_spf) if env["bra"] else (bs.spf.conj() if env["spf"] else None)
    old = {n: snap(getattr(bs, n)) for n in NAMES if n != "bra_spf"}
    old["bra_spf"] = bra
    e0 = bs.nuclear_repulsion_energy
    op = env.choice("op", 3)
    if op == 0:
        bs.cast_to_complex()
    elif op == 1:
        bs.change_module(env.np)
        env.true("module", bs.np is env.np)
    else:
        qs = env.mod()
        s = qs.GeneralOrbitalSystem(1, bs, anti_symmetrize=False) if env["spin"] else qs.SpatialOrbitalSystem(2, bs)
        s.change_module(env.np)
        env.true("system module", s.np is env.np and bs.np is env.np)
    for n in NAMES:
        v = getattr(bs, n)
        if old[n] is None:
            env.true(n + " stays unset", v is None)
            continue
        env.true(n + " shape", tuple(v.shape) == tuple(old[n].shape))
        env.eq(n, v.reshape(-1), old[n].reshape(-1))
        if op == 0:
            env.true(n + " is complex", bool(env.np.iscomplexobj(v)))
        else:
            env.true(n + " keeps its type", bool(env.np.iscomplexobj(v)) == bool(env.np.iscomplexobj(old[n])))
    env.eq("l", bs.l, env["l"])
    env.eq("nuclear repulsion", bs.nuclear_repulsion_energy, e0)


base = dict(l=2, dim=1, spf=True, bra=False, dip=True, spin=False, cplx=False, s=True)
for nm, p in [("real", {}), ("complex", dict(cplx=True)), ("bra", dict(bra=True, cplx=True)),
              ("spin", dict(spin=True)), ("spin-complex", dict(spin=True, cplx=True, spf=False)),
              ("spin-subsets", dict(spin=True, subset=1, l=1, spf=False, dip=False)),
              ("spin-kinds", dict(spin=True, l=1, spf=False, dip=False, s=False, mix=("spin_x", "spin_y", "spin_z", "spin_2", "tb", "h"))),
              ("kinds", dict(l=1, bra=True, mix=("h", "s", "u", "d", "phi", "bra"))),
              ("integers", dict(ints=1, mix=("h", "s", "u", "d"), l=2)),
              ("spin-integers", dict(ints=1, spin=True, l=2, spf=False, dip=False, s=False, mix=("spin_x", "spin_z", "tb"))),
              ("bare", dict(spf=False, dip=False, s=False)), ("2d", dict(dim=2, l=1))]:
    q = dict(base)
    q.update(p)
    case("C24", nm, q, samples=4, big=[dict(l=4), dict(l=11)], large=[dict(l=5)] if nm in ("complex", "spin", "2d") else (), bounds="l=%(l)d, dim=%(dim)d" % q, again={} if nm == "2d" else None)(keep)


class Old:
    """an array module that works like the given one until it is retired"""

    def __init__(self, np):
        self.__dict__.update(mod=np, retired=False)

    def __getattr__(self, k):
        if self.retired:
            raise RuntimeError("the old array module is used: " + k)
        return getattr(self.mod, k)


def moved(env):
    """after change_module everything works with the new module alone"""
    qs = env.mod()
    l = 2
    old = Old(env.np)
    kind = env["kind"]
    bs = qs.BasisSet(l, 1, np=old)
    for n, sh in (("h", (l, l)), ("s", (l, l)), ("u", (l,) * 4), ("dipole_moment", (1, l, l)), ("spf", (l, 2))):
        setattr(bs, n, env.cplx(n, sh) if n != "s" else env.np.eye(l))
    h, u, d, phi = [snap(x) for x in (bs.h, bs.u, bs.dipole_moment, bs.spf)]
    s = None
    if kind == "general":
        s = qs.GeneralOrbitalSystem(1, bs, anti_symmetrize=False)
        bs = s._basis_set if hasattr(s, "_basis_set") else bs
    elif kind == "spatial":
        s = qs.SpatialOrbitalSystem(2, bs)
    x = bs if s is None else s
    x.change_module(env.np)
    old.__dict__["retired"] = True
    env.true("module", x.np is env.np)
    L = x.l
    if kind == "general":
        h, u = spin_double_one(env, h), spin_double_two(env, u)
        d = [spin_double_one(env, d[0])]
    env.eq("h", x.h, h)
    env.eq("u", x.u, u)
    C = env.real("C", (L, L))
    if s is not None:
        E = 0
        for i in range(1):
            E = E + (h[i, i] if kind == "general" else 2 * h[i, i])
            E = E + (0 if kind == "general" else u[i, i, i, i])
        if kind == "spatial":
            env.eq("reference energy", s.compute_reference_energy(), E)
        f = s.construct_fock_matrix(s.h, s.u)
        env.true("Fock matrix", tuple(f.shape) == (L, L))
        if kind == "spatial":
            env.eq("transformed elements", s.transform_one_body_elements(h, C), one_body(env, h, C, dagger(C)))
    x.change_basis(C)
    env.eq("transformed h", x.h, one_body(env, h, C, dagger(C)))
    env.eq("transformed dipole", x.dipole_moment[0], one_body(env, d[0], C, dagger(C)))
    rho = env.cplx("rho", (L, L))
    n = x.compute_particle_density(rho)
    env.true("density", tuple(n.shape) == (2,))
    c = x.copy_basis() if s is None else x.copy_system()
    env.true("module of the copy", c.np is env.np)
    env.eq("h of the copy", c.h, x.h)
    if kind == "basis":
        c.change_to_general_orbital_basis(anti_symmetrize=False)
        env.eq("doubled h", c.h, spin_double_one(env, x.h))
    elif kind == "spatial":
        g = c.construct_general_orbital_system(anti_symmetrize=False)
        env.eq("doubled h", g.h, spin_double_one(env, x.h))
        env.true("module of the doubled system", g.np is env.np)


for k in ("basis", "spatial", "general"):
    case("C24", "moved-" + k, dict(kind=k, few=3), bounds="l=2, every operation after the change")(moved)


def single(env):
    """single-precision and integer arrays among the others"""
    import numpy as rnp

    l, dim = 2, 1
    bs = make_basis(env, l, dim, cplx=True, spf=(2,), bra=True, includes_spin=True)
    for n in ("spin_x", "spin_y", "spin_z", "spin_2"):
        setattr(bs, n, env.cplx(n, (l, l)))
    bs.spin_2_tb = env.cplx("tb", (l,) * 4)
    n = NAMES[env.choice("which", len(NAMES))]
    t = ("float32", "complex64", "int32", "float16")[env.choice("type", 4)]
    sh = tuple(getattr(bs, n).shape)
    vals = (rnp.arange(rnp.prod(sh)).reshape(sh) - 3).astype(t)
    if t == "complex64":
        vals = vals + (2 * vals.real * 1j).astype(t)
    setattr(bs, n, vals)
    old = {m: snap(getattr(bs, m)) for m in NAMES}
    bs.cast_to_complex()
    for m in NAMES:
        v = getattr(bs, m)
        env.eq(m, v.reshape(-1), old[m].reshape(-1))
        env.true(m + " is complex", bool(env.np.iscomplexobj(v)))
    v = getattr(bs, n)
    dt = getattr(v, "dtype", None)
    env.true(n + " in double precision", dt is not None and dt.itemsize == 16)


case("C24", "single", {}, bounds="l=2, one array of fixed values in single or half precision or of integers, the others symbolic",
     samples=8)(single)
