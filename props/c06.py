"""C06: reference energies."""
from .common import *

ASSUMPTIONS = [
    "floating-point arithmetic is modelled as exact real/complex arithmetic",
    "bounds: up to 3 spatial / 4 spin orbitals, every occupation n; all matrix elements are independent symbolic complex numbers (no symmetry assumed)",
]


def general_formula(h, u, occ, anti):
    """<Phi|H|Phi> for occupied spin orbitals"""
    e = 0
    for i in occ:
        e = e + h[i, i]
        for j in occ:
            e = e + 0.5 * u[i, j, i, j]
            if not anti:
                e = e - 0.5 * u[i, j, j, i]
    return e


def fits(env, h, u):
    """complex two-body with real one-body elements are outside the claim"""
    env.assume(bool(env.np.iscomplexobj(h)) or not env.np.iscomplexobj(u))


def closed(env):
    """closed-shell energy == energy of the doubly occupied determinant"""
    qs = env.mod()
    l, n = env["l"], env["n"]
    bs = make_basis(env, l, 1, cplx=env["cplx"], spf=None, dip=bool(env.p.get("drive")))
    e0 = env.real("enuc")
    bs.nuclear_repulsion_energy = e0
    h, u = snap(bs.h), snap(bs.u)
    fits(env, h, u)
    spas = qs.SpatialOrbitalSystem(n, bs)
    if env.p.get("drive"):
        drive(env, spas, kind=("laser", "switch")[env.choice("op", 2)])
    E = spas.compute_reference_energy()
    H, U = spin_double_one(env, h), spin_double_two(env, u)
    env.eq("closed-shell energy", E, general_formula(H, U, range(n), False))
    gos = spas.construct_general_orbital_system()
    env.eq("spin-orbital energy", gos.compute_reference_energy(), E)
    env.eq("nuclear repulsion is carried separately", gos.nuclear_repulsion_energy, e0)
    env.eq("nuclear repulsion", spas.nuclear_repulsion_energy, e0)
    env.eq("evaluating twice", spas.compute_reference_energy(), E)
    env.eq("h is not modified", spas.h, h)
    env.eq("u is not modified", spas.u, u)


for l, n in [(1, 2), (2, 2), (2, 4), (2, 0)]:
    case("C06", "closed-shell-l%d-n%d" % (l, n), dict(l=l, n=n, cplx=True),
         big=[dict(l=5, n=6), dict(l=12, n=14)] if n == 2 and l == 2 else [], large=[dict(l=5, n=6)] if n == 2 and l == 2 else (), bounds="l=%d, n=%d" % (l, n))(closed)
case("C06", "closed-shell-l3-n4", dict(l=3, n=4, cplx=False), bounds="l=3, n=4, real elements", again=dict(n=2))(closed)
case("C06", "closed-shell-l3-n6", dict(l=3, n=6, cplx=True), tier="thorough", bounds="l=3, n=6")(closed)
case("C06", "closed-shell-l4-n4", dict(l=4, n=4, cplx=False), tier="thorough", bounds="l=4, n=4", timeout=3000)(closed)

case("C06", "closed-shell-kinds", dict(l=1, n=2, cplx=True, mix=("h", "u")), samples=4, big=[dict(l=3, n=4)],
     bounds="l=1, n=2; real or complex u with complex h, real u with real h")(closed)
case("C06", "closed-shell-faint", dict(l=3, n=4, cplx=True, faint=("h", "u")), bounds="fixed integer elements times one symbolic factor between 1e-13 and 1e-9")(closed)
case("C06", "closed-shell-driven", dict(l=2, n=2, cplx=False, drive=1), samples=4, big=[dict(l=3, n=4)],
     bounds="l=2, n=2, a laser field or a switched interaction set")(closed)


def general(env):
    """energy of a general spin-orbital determinant"""
    qs = env.mod()
    l, n = env["l"], env["n"]
    bs = make_basis(env, l, 1, cplx=True, spf=None, dip=bool(env.p.get("drive")), includes_spin=True)
    h, u = snap(bs.h), snap(bs.u)
    fits(env, h, u)
    gos = qs.GeneralOrbitalSystem(n, bs, anti_symmetrize=True)
    want = general_formula(h, u, range(n), False)
    if env.p.get("drive"):
        drive(env, gos)
    env.eq("energy", gos.compute_reference_energy(), want)
    env.eq("evaluating twice", gos.compute_reference_energy(), want)
    env.eq("h is not modified", gos.h, h)


for l, n in [(2, 1), (2, 2), (3, 2), (4, 3)]:
    case("C06", "general-l%d-n%d" % (l, n), dict(l=l, n=n), big=[dict(l=6, n=4), dict(l=14, n=11)] if l == 2 else [], large=[dict(l=10, n=6 + n)] if l == 2 else (),
         bounds="%d spin orbitals, %d particles" % (l, n), again={} if l == 2 else None)(general)
case("C06", "general-kinds", dict(l=2, n=2, mix=("h", "u")), samples=4, big=[dict(l=5, n=3)],
     bounds="2 spin orbitals; real or complex u with complex h, real u with real h")(general)
case("C06", "general-faint", dict(l=3, n=2, faint=("h", "u")), bounds="fixed integer elements times one symbolic factor between 1e-13 and 1e-9")(general)
case("C06", "general-driven", dict(l=2, n=1, drive=1), samples=4, big=[dict(l=5, n=3)],
     bounds="2 spin orbitals, every time-evolution operator set")(general)


def invariance(env):
    """a rotation among the occupied orbitals leaves the energy unchanged"""
    qs = env.mod()
    l = 2
    bs = make_basis(env, l, 1, cplx=True, spf=None, dip=False, s="eye", includes_spin=env["spin"])
    sys_ = qs.GeneralOrbitalSystem(2, bs) if env["spin"] else qs.SpatialOrbitalSystem(4, bs)
    E = sys_.compute_reference_energy()
    a, b = spin_frame(env)
    C = env.np.zeros((2, 2), dtype=complex)
    for i in range(2):
        C[i, 0], C[i, 1] = a[i], b[i]
    sys_.change_basis(C)
    env.eq("energy after an occupied rotation", sys_.compute_reference_energy(), E)


case("C06", "occupied-rotation-general", dict(spin=True), bounds="2 occupied orbitals, every U(2)")(invariance)
case("C06", "occupied-rotation-closed", dict(spin=False), bounds="2 occupied orbitals, every U(2)")(invariance)


def later(env):
    """every evaluation looks at what the system holds now"""
    qs = env.mod()
    l, n, spin = env["l"], env["n"], env["spin"]
    bs = make_basis(env, l, 1, cplx=True, spf=None, dip=False, includes_spin=spin)
    s = qs.GeneralOrbitalSystem(n, bs, anti_symmetrize=False) if spin else qs.SpatialOrbitalSystem(2 * n, bs)

    def now():
        h, u = snap(s.h), snap(s.u)
        if not spin:
            h, u = spin_double_one(env, h), spin_double_two(env, u)
            return general_formula(h, u, range(2 * n), False)
        e = 0
        for i in range(n):
            e = e + h[i, i]
            for j in range(n):
                e = e + 0.5 * u[i, j, i, j]
        return e

    env.eq("first", s.compute_reference_energy(), now())
    for k in range(2):
        what = env.choice("what%d" % k, 3)
        z = env.cplx("z%d" % k)
        if what == 0:
            h = s.h
            h += z
        elif what == 1:
            u = s.u
            u *= 1 + z
        else:
            s.change_basis(tensor(env, "C%d" % k, (l, l), False))
        env.eq("after change %d" % k, s.compute_reference_energy(), now())


for spin in (False, True):
    case("C06", "later-" + ("general" if spin else "spatial"), dict(l=2, n=1, spin=spin), samples=6,
         big=[dict(l=4, n=2)], bounds="l=2, two updates of the elements between energies")(later)
