"""C04: anti-symmetrisation happens exactly once."""
from .common import *

ASSUMPTIONS = [
    "floating-point arithmetic is modelled as exact real/complex arithmetic",
    "bounds: call histories of length <= 3 (quick) / 4 (thorough) over every order of the public operations, 1-2 spatial orbitals",
]


def raw_first(env, l, cplx=True):
    bs = make_basis(env, l, 1, cplx=cplx, spf=None, s="eye", dip=False)
    return bs


def history(env):
    """any sequence of doubling / anti-symmetrising / system construction / copying"""
    qs = env.mod()
    l = env["l"]
    bs = raw_first(env, l, env["cplx"])
    u = snap(bs.u)
    spin, anti = False, False
    tb = None

    def doubled():
        S = [bs.spin_x, bs.spin_y, bs.spin_z]
        return sum(env.np.einsum("pr,qs->pqrs", x, x) for x in S)

    for step in range(env["steps"]):
        op = env.choice("op%d" % step, 7)
        if op == 0:
            bs.anti_symmetrize_two_body_elements()
            anti = True
        elif op in (1, 2):
            a = op == 1
            bs.change_to_general_orbital_basis(anti_symmetrize=a)
            if not spin:
                u = spin_double_two(env, u)
                spin = True
                tb = doubled()
                anti = anti or a
        elif op in (3, 4):
            a = op == 3
            g = qs.GeneralOrbitalSystem(1, bs, anti_symmetrize=a)
            bs = g._basis_set
            if not spin:
                u = spin_double_two(env, u)
                spin = True
                tb = doubled()
            anti = anti or a
        elif op == 5:
            bs = bs.copy_basis()
        else:
            # a new set of orbitals, larger or smaller than the old one
            n = u.shape[0]
            k = (n + 1 if n < 3 else n - 1) if env.choice("size%d" % step, 2) else n
            C = env.np.array([[float((2 * i + 3 * j) % 5 - 1) for j in range(k)] for i in range(n)])
            Ct = env.np.array([[float((i + 2 * j) % 4 - 1) for j in range(n)] for i in range(k)])
            bs.change_basis(C, Ct)
            u = two_body(env, u, C, Ct)
            if tb is not None:
                tb = two_body(env, tb, C, Ct)
            if not spin and anti:
                break
        env.true("flag after step", bool(bs.anti_symmetrized_u) == anti)
        if anti and not spin:
            # the doubling of anti-symmetrised spatial elements is not claimed
            # (the spatial elements have no exchange partner)
            break
    expected = antisym(u) if anti else u
    env.eq("u", bs.u, expected)
    env.true("flag", bool(bs.anti_symmetrized_u) == anti)
    if anti:
        env.eq("exchange symmetry", bs.u, -bs.u.transpose(0, 1, 3, 2))
    if spin:
        env.eq("two-body spin operator", bs.spin_2_tb, antisym(tb) if anti else tb)


case("C04", "histories", dict(l=1, steps=3, cplx=True), bounds="3 operations, 1 spatial orbital", samples=6)(history)
case("C04", "histories-l2", dict(l=2, steps=2, cplx=False), bounds="2 operations, 2 spatial orbitals", samples=6,
     big=[dict(l=3, steps=4), dict(l=5, steps=3)])(history)
case("C04", "histories-4", dict(l=1, steps=4, cplx=True), tier="thorough", bounds="4 operations", timeout=3000)(history)
case("C04", "histories-l2-3", dict(l=2, steps=3, cplx=True), tier="thorough", bounds="3 operations, 2 spatial orbitals", timeout=3000)(history)


def spin_basis(env):
    """a basis that already includes spin: flags given at construction"""
    qs = env.mod()
    l = env["l"]
    flag = bool(env.choice("flag", 2))
    bs = qs.BasisSet(l, 1, np=env.np, includes_spin=True, anti_symmetrized_u=flag)
    bs.h = env.cplx("h", (l, l))
    bs.s = env.np.eye(l)
    bs.u = env.cplx("u", (l,) * 4)
    u = snap(bs.u)
    h = snap(bs.h)
    want = bool(env.choice("want", 2))
    n = env.choice("again", 2)
    sys_ = qs.GeneralOrbitalSystem(1, bs, anti_symmetrize=want)
    for _ in range(n):
        sys_ = qs.GeneralOrbitalSystem(1, sys_._basis_set, anti_symmetrize=want)
    env.eq("u", sys_.u, antisym(u) if want and not flag else u)
    env.eq("h", sys_.h, h)
    env.eq("l", sys_.l, l)
    env.true("flag", bool(bs.anti_symmetrized_u) == (flag or want))


case("C04", "spin-including-basis", dict(l=2), big=[dict(l=4), dict(l=11)], large=[dict(l=6)], bounds="2 spin orbitals", again={})(spin_basis)
case("C04", "spin-including-faint", dict(l=3, faint=("h", "u")), bounds="fixed integer elements times one symbolic factor between 1e-13 and 1e-9")(spin_basis)
case("C04", "spin-including-basis-3", dict(l=3), tier="thorough", bounds="3 spin orbitals")(spin_basis)


def commute(env):
    """anti-symmetrising commutes with every change of basis"""
    l, k = env["l"], env["k"]
    bs = make_basis(env, l, 1, cplx=True, spf=None, s="eye", dip=False, includes_spin=True)
    b2 = bs.copy_basis()
    C = tensor(env, "C", (l, k), env["cplx"])
    Ct = tensor(env, "Ct", (k, l), env["cplx"])
    bs.anti_symmetrize_two_body_elements()
    bs.change_basis(C, Ct)
    env.true("still anti-symmetric", bool(bs.anti_symmetrized_u))
    env.eq("exchange", bs.u, -bs.u.transpose(0, 1, 3, 2))
    bs.anti_symmetrize_two_body_elements()
    b2.change_basis(C, Ct)
    b2.anti_symmetrize_two_body_elements()
    env.eq("u", bs.u, b2.u)


case("C04", "commutes-with-basis-change", dict(l=2, k=2, cplx=True), bounds="2 spin orbitals",
     big=[dict(l=5), dict(l=3, k=5), dict(l=12, k=10)], large=[dict(l=4, k=4), dict(l=3, k=5)])(commute)
case("C04", "commutes-with-growing", dict(l=2, k=3, cplx=False), bounds="2 to 3 spin orbitals")(commute)
case("C04", "commutes-with-truncation", dict(l=3, k=2, cplx=False), bounds="3 to 2 spin orbitals")(commute)
