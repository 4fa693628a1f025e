"""C10: copies are equal and independent."""
from .common import *

ASSUMPTIONS = [
    "floating-point arithmetic is modelled as exact real/complex arithmetic",
    "bounds: l <= 2; every stored array is symbolic; in-place updates of either object and basis changes, doubling and anti-symmetrisation of the copy are exercised",
]
NAMES = ("h", "s", "u", "dipole_moment", "spf", "bra_spf")
SPIN = ("spin_x", "spin_y", "spin_z", "spin_2", "spin_2_tb")
SIGMA = ("sigma_x", "sigma_y", "sigma_z")


def grab(o, names):
    return {n: snap(getattr(o, n)) for n in names}


def same(env, tag, o, old):
    for n, v in old.items():
        w = getattr(o, n)
        if v is None:
            env.true("%s: %s unset" % (tag, n), w is None)
        else:
            env.eq("%s: %s" % (tag, n), w.reshape(-1), v.reshape(-1))


def mutate(env, o, names, z):
    for n in names:
        v = getattr(o, n)
        if v is not None:
            v += z


def basis(env):
    """BasisSet.copy_basis"""
    l = env["l"]
    bs = make_basis(env, l, env["dim"], cplx=True, spf=(2,) if env["spf"] else None, bra=env["bra"])
    bs.grid = env.real("grid", (2,))
    e0 = env.real("enuc")
    bs.nuclear_repulsion_energy = e0
    names = NAMES
    if env["spin"]:
        bs.change_to_general_orbital_basis(anti_symmetrize=bool(env.choice("anti", 2)))
        names = NAMES + SPIN + SIGMA
    old = grab(bs, names)
    g0 = snap(bs.grid)
    c = bs.copy_basis()
    env.true("a new object", c is not bs)
    env.true("same class", type(c) is type(bs))
    env.eq("l", c.l, bs.l)
    env.eq("dim", c.dim, bs.dim)
    env.true("module", c.np is env.np and bs.np is env.np)
    env.true("spin flag", bool(c.includes_spin) == bool(bs.includes_spin) == env["spin"])
    env.true("anti-symmetry flag", bool(c.anti_symmetrized_u) == bool(bs.anti_symmetrized_u))
    env.eq("nuclear repulsion", c.nuclear_repulsion_energy, e0)
    env.eq("grid", c.grid, g0)
    same(env, "copy", c, old)
    same(env, "original", bs, old)
    z = env.real("z")
    what = env.choice("what", 4)
    if what == 0:
        mutate(env, c, names, z)
        c.grid += z
        same(env, "original after in-place update of the copy", bs, old)
        env.eq("grid of the original", bs.grid, g0)
    elif what == 1:
        mutate(env, bs, names, z)
        bs.grid += z
        same(env, "copy after in-place update of the original", c, old)
        env.eq("grid of the copy", c.grid, g0)
    elif what == 2:
        C = env.real("C", (bs.l, 1))
        c.change_basis(C)
        same(env, "original after a change of basis of the copy", bs, old)
        env.eq("l of the original", bs.l, len(old["h"]))
    else:
        if env["spin"]:
            c.anti_symmetrize_two_body_elements()
        else:
            c.change_to_general_orbital_basis()
        same(env, "original after doubling the copy", bs, old)
        env.true("flags of the original", bool(bs.includes_spin) == env["spin"])
        env.eq("l of the original", bs.l, len(old["h"]))


for nm, p in [
    ("basis", dict(l=2, dim=1, spf=True, bra=False, spin=False)),
    ("basis-bra", dict(l=2, dim=1, spf=True, bra=True, spin=False)),
    ("basis-2d", dict(l=1, dim=2, spf=True, bra=False, spin=False)),
    ("basis-spin", dict(l=1, dim=1, spf=True, bra=False, spin=True)),
    ("basis-bare", dict(l=2, dim=2, spf=False, bra=False, spin=False)),
]:
    case("C10", nm, p, samples=6, big=[dict(l=4), dict(l=9)] if p["l"] == 2 else [dict(l=6)], large=[dict(l=4)] if nm in ("basis", "basis-spin") else (), bounds="l=%(l)d" % p)(basis)


def system(env):
    """QuantumSystem.copy_system"""
    qs = env.mod()
    l = env["l"]
    bs = make_basis(env, l, 1, cplx=True, spf=(2,))
    if env["general"]:
        s = qs.GeneralOrbitalSystem(env["n"], bs, anti_symmetrize=bool(env.choice("anti", 2)))
        names = NAMES + SPIN
    else:
        s = qs.SpatialOrbitalSystem(env["n"], bs)
        names = NAMES
    old = grab(s, names)
    kind, ht, ut = drive(env, s) if env.p.get("drive") else drive(env, s, kind="none")
    tm = env.real("t")

    def now(what, x):
        if env.p.get("drive"):
            env.eq(what + ": h(t)", x.h_t(tm), ht(tm, old["h"], old["dipole_moment"]))
            env.eq(what + ": u(t)", x.u_t(tm), ut(tm, old["u"]))
            env.true(what + ": kinds", bool(x.has_one_body_time_evolution_operator) == (kind in ("laser", "custom"))
                     and bool(x.has_two_body_time_evolution_operator) == (kind == "switch"))

    if env.p.get("drive") and env.choice("first", 2):
        now("before copying", s)
    size = (s.n, s.l, s.m, s.o, s.v)
    c = s.copy_system()
    env.true("a new object", c is not s and type(c) is type(s))
    env.true("sizes of the copy", (c.n, c.l, c.m, c.o, c.v) == size)
    env.true("modules", c.np is env.np and s.np is env.np)
    same(env, "copy", c, old)
    same(env, "original", s, old)
    now("copy", c)
    now("original", s)
    z = env.real("z")
    what = env.choice("what", 6)
    if what == 0:
        mutate(env, c, names, z)
        same(env, "original after in-place update of the copy", s, old)
        now("original after in-place update of the copy", s)
    elif what == 1:
        mutate(env, s, names, z)
        same(env, "copy after in-place update of the original", c, old)
        now("copy after in-place update of the original", c)
    elif what == 2:
        C = env.real("C", (s.l, s.l + 1))
        c.change_basis(C)
        same(env, "original after a change of basis of the copy", s, old)
        now("original after a change of basis of the copy", s)
    elif what >= 4:
        a, b = (c, s) if what == 4 else (s, c)
        if kind == "none":
            drive(env, a, "other", kind="laser")
        else:
            a.set_time_evolution_operator(None)
        same(env, "other system after a change of operator", b, old)
        now("other system after a change of operator", b)
    else:
        C = env.real("C", (s.l, s.l + 1))
        s.change_basis(C)
        same(env, "copy after a change of basis of the original", c, old)
        now("copy after a change of basis of the original", c)
        env.true("sizes of the copy after a change of the original", (c.n, c.l, c.m, c.o, c.v) == size)
        return
    env.true("sizes of the original", (s.n, s.l, s.m, s.o, s.v) == size)


for nm, p in [("spatial-system", dict(l=2, n=2, general=False)), ("general-system", dict(l=1, n=1, general=True))]:
    case("C10", nm, p, samples=6, big=[dict(l=3), dict(l=7)], large=[dict(l=3)], bounds="l=%(l)d" % p)(system)
for nm, p in [("spatial-system-driven", dict(l=2, n=2, general=False, drive=1)), ("general-system-driven", dict(l=1, n=1, general=True, drive=1))]:
    case("C10", nm, p, samples=6, big=[dict(l=3)], bounds="l=%(l)d, every time-evolution operator" % p)(system)
case("C10", "general-system-l2", dict(l=2, n=2, general=True), tier="thorough", bounds="l=2", timeout=2000)(system)


def derived(env):
    """systems derived from a closed-shell system do not share state with it"""
    qs = env.mod()
    bs = make_basis(env, env["l"], 1, cplx=True, spf=(2,))
    s = qs.SpatialOrbitalSystem(2, bs)
    old = grab(s, NAMES)
    g = s.construct_general_orbital_system(anti_symmetrize=bool(env.choice("anti", 2)))
    mutate(env, g, NAMES + SPIN, env.real("z"))
    same(env, "closed-shell system", s, old)
    g2 = s.construct_general_orbital_system(anti_symmetrize=False)
    old2 = grab(g2, NAMES + SPIN)
    mutate(env, s, NAMES, env.real("y"))
    same(env, "general system", g2, old2)


case("C10", "derived-system", dict(l=1), samples=4, big=[dict(l=3), dict(l=7)], large=[dict(l=4)], bounds="l=1")(derived)


def potential(env):
    """a basis carrying a potential object can be copied and keeps working"""
    m = env.mod("quantum_systems.quantum_dots.one_dim.one_dim_potentials")
    k = env.choice("k", 4)
    w, a, x = env.real("w", pos=True), env.real("a"), env.real("x")
    if k == 0:
        pot = m.HOPotential(w)
    elif k == 1:
        pot = m.DWPotential(w, a)
    elif k == 2:
        pot = m.DWPotentialSmooth(env.real("b", pos=True))
    else:
        pot = m.GaussianPotential(w, a, env.real("sig", pos=True), env.np)
    bs = make_basis(env, 2, 1, cplx=False, spf=None)
    bs.potential = pot
    v = pot(x)
    c = bs.copy_basis()
    env.eq("potential of the copy", c.potential(x), v)
    env.eq("potential of the original", bs.potential(x), v)
    # changing the parameters of one potential does not change the other
    first, second = (c, bs) if env.choice("who", 2) else (bs, c)
    z = env.real("z")
    for n, y in list(vars(first.potential).items()):
        if n != "np":
            setattr(first.potential, n, y + 1 if k == 2 else z)
    env.eq("other potential", second.potential(x), v)


case("C10", "potential", {}, samples=6, bounds="every 1D potential, symbolic parameters")(potential)


def operator(env):
    """the matrix of a custom operator belongs to one system only"""
    qs = env.mod()
    l = env["l"]
    bs = make_basis(env, l, 1, cplx=True, spf=None, includes_spin=env["general"])
    s = qs.GeneralOrbitalSystem(1, bs, anti_symmetrize=False) if env["general"] else qs.SpatialOrbitalSystem(2, bs)
    A = tensor(env, "A", (l, l), True)
    A0, h = snap(A), snap(s.h)
    c0, c1 = env.real("w0"), env.real("w1")
    w = lambda t: c0 + c1 * t
    op = env.get("quantum_systems.time_evolution_operators", "CustomOneBodyOperator")(w, A)
    s.set_time_evolution_operator(op)
    t = env.real("t")
    want = h + w(t) * A0
    if env.choice("first", 2):
        env.eq("original before copying", s.h_t(t), want)
    c = s.copy_system()
    A += env.real("z")
    env.eq("copy after an in-place update of the operator of the original", c.h_t(t), want)
    c2 = c.copy_system()
    env.eq("copy of the copy", c2.h_t(t), want)
    c.set_time_evolution_operator(None)
    env.eq("copy of the copy, the copy without an operator", c2.h_t(t), want)


for g in (False, True):
    case("C10", "operator-" + ("general" if g else "spatial"), dict(l=2, general=g), samples=2, big=[dict(l=4)],
         bounds="l=2, a custom one-body operator")(operator)


OD = "quantum_systems.quantum_dots.one_dim.one_dim_qd"
TD = "quantum_systems.quantum_dots.two_dim.two_dim_ho"
DV = "quantum_systems.sinc_dvr.one_dim.sinc_dvr"


def _shipped(env):
    k = env["cls"]
    if k == "random":
        return env.mod().RandomBasisSet(2, 1)
    if k == "odho":
        return env.get(OD, "ODHO")(2, 2, 3, omega=env.real("w", lo=1, hi=2))
    if k == "odqd":
        return env.get(OD, "ODQD")(1, 2, 4, potential=env.get(OD, "HOPotential")(1))
    if k == "sinc":
        return env.get(DV, "ODSincDVR")(3, 2, potential=lambda x: x * x)
    w = env.real("w", lo=1, hi=2)
    if k == "tdho":
        return env.get(TD, "TwoDimensionalHarmonicOscillator")(2, 2, 2, omega=w)
    if k == "tddw":
        return env.get(TD, "TwoDimensionalDoubleWell")(2, 2, 2, omega=w, barrier_strength=env.real("b"))
    return env.get(TD, "TwoDimHarmonicOscB")(2, 2, 2, omega=1, omega_c=0)


def _arrays(bs):
    return {n: v for n, v in vars(bs).items() if type(v).__name__ != "DataFrame"
            and isinstance(getattr(v, "shape", None), tuple) and v.shape
            and hasattr(v, "dtype") and v.dtype.kind in "fciO"}


def shipped(env):
    """copies of every basis class: all their arrays are equal and independent"""
    qs = env.mod()
    bs = _shipped(env)
    if env.choice("dual", 2):
        bs.bra_spf
    s = None
    if env["system"]:
        s = qs.SpatialOrbitalSystem(2, bs)
        c = s.copy_system()
        cb = c._basis_set if hasattr(c, "_basis_set") else None
        if cb is None:
            return
    else:
        cb = bs.copy_basis()
    old = {n: snap(v) for n, v in _arrays(bs).items()}
    plain = {n: v for n, v in vars(bs).items() if isinstance(v, (bool, int, str))}
    mine = _arrays(cb)
    env.true("the same arrays", set(mine) == set(old))
    for n, v in old.items():
        env.eq("copy: " + n, mine[n].reshape(-1), v.reshape(-1))
    env.true("the same settings", all(getattr(cb, n) == v for n, v in plain.items()))
    env.true("class", type(cb) is type(bs))
    a, b = (cb, bs) if env.choice("who", 2) else (bs, cb)
    z = env.real("z")
    for n, v in _arrays(a).items():
        if v.dtype.kind == "i":
            v += 1
        else:
            v += z
    for n, v in _arrays(b).items():
        env.eq("other: " + n, v.reshape(-1), old[n].reshape(-1))
    # and the other one still works
    C = env.real("C", (b.l, 1))
    h = old.get("_h")
    b.change_basis(C)
    if h is not None:
        env.eq("h after a change of basis of the other", b.h, one_body(env, h, C, dagger(C)))
    for n, v in _arrays(a).items():
        env.true("size of %s" % n, tuple(v.shape) == tuple(old[n].shape))


for k in ("random", "odho", "odqd", "sinc", "tdho", "tddw", "tdb"):
    for y in (0, 1):
        case("C10", "shipped-%s%s" % (k, "-system" if y else ""), dict(cls=k, system=y), samples=4,
             bounds="%s basis, every array it holds" % k)(shipped)
