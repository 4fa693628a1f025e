"""C01: a change of basis transforms every stored operator."""
from .common import *

ASSUMPTIONS = [
    "floating-point arithmetic is modelled as exact real/complex arithmetic",
    "numpy linear algebra (dot, tensordot, einsum, kron) is modelled by its mathematical definition",
    "bounds: basis sizes l -> k listed per case; every element of every operator and of C, C_tilde is an independent symbolic complex number",
]


def _check(env, bs, old, C, Ct, k, bra=True):
    env.eq("l", bs.l, k)
    env.eq("h", bs.h, one_body(env, old["h"], C, Ct))
    if old["s"] is not None:
        env.eq("s", bs.s, one_body(env, old["s"], C, Ct))
    env.eq("u", bs.u, two_body(env, old["u"], C, Ct))
    if old["d"] is not None:
        env.eq("dipole shape", len(bs.dipole_moment), len(old["d"]))
        for i in range(len(old["d"])):
            env.eq("dipole%d" % i, bs.dipole_moment[i], one_body(env, old["d"][i], C, Ct))
    for n in ("spin_x", "spin_y", "spin_z", "spin_2"):
        if old.get(n) is not None:
            env.eq(n, getattr(bs, n), one_body(env, old[n], C, Ct))
        else:
            env.true(n + " stays unset", getattr(bs, n) is None)
    if old.get("spin_2_tb") is not None:
        env.eq("spin_2_tb", bs.spin_2_tb, two_body(env, old["spin_2_tb"], C, Ct))
    else:
        env.true("spin_2_tb stays unset", bs.spin_2_tb is None)


def _old(bs):
    return dict(h=snap(bs.h), s=snap(bs.s), u=snap(bs.u), d=snap(bs.dipole_moment),
                **{n: snap(getattr(bs, n)) for n in
                   ("spin_x", "spin_y", "spin_z", "spin_2", "spin_2_tb")})


def change(env):
    """change_basis(C[, C_tilde]) on a basis with arbitrary elements"""
    l, k, cx = env["l"], env["k"], env["cplx"]
    bs = make_basis(env, l, env["dim"], cplx=env["elc"], spf=None, s=env["s"])
    C = tensor(env, "C", (l, k), cx)
    Ct = None
    if env["tilde"]:
        Ct = tensor(env, "Ct", (k, l), cx)
    old = _old(bs)
    C0 = C.copy()
    if Ct is not None:
        Ct0 = Ct.copy()
        bs.change_basis(C, Ct)
        env.eq("C_tilde is not modified", Ct, Ct0)
    else:
        bs.change_basis(C)
        Ct0 = dagger(C0)
    _check(env, bs, old, C0, Ct0, k)
    env.eq("C is not modified", C, C0)
    if env["s"] == "none":
        env.true("s stays unset", bs.s is None)


for nm, p, big in [
    ("elements-2to2", dict(l=2, k=2, tilde=False), [dict(l=5, k=5), dict(l=7, k=4), dict(l=13, k=11)]),
    ("elements-2to2-tilde", dict(l=2, k=2, tilde=True), [dict(l=5, k=5), dict(l=3, k=6), dict(l=12, k=14)]),
    ("elements-2to1", dict(l=2, k=1, tilde=False), [dict(l=9, k=1, tilde=True), dict(l=14, k=2)]),
    ("elements-2to3", dict(l=2, k=3, tilde=True, elc=False, cplx=False), []),
    ("elements-3to2", dict(l=3, k=2, tilde=True, cplx=False, elc=False), [dict(l=6, k=3)]),
    ("elements-1to1", dict(l=1, k=1, tilde=False, dim=3), []),
    ("elements-no-overlap", dict(l=2, k=2, tilde=False, s="none", cplx=False), []),
    ("elements-real-basis-complex-C", dict(l=2, k=2, tilde=False, elc=False), [dict(l=6, k=6)]),
]:
    q = dict(dim=2, cplx=True, elc=True, s=None)
    q.update(p)
    large = {"elements-2to2": [dict(l=5, k=5), dict(l=7, k=6, tier="thorough")],
             "elements-2to2-tilde": [dict(l=6, k=3), dict(l=4, k=6, tier="thorough")],
             "elements-no-overlap": [dict(l=6, k=4)],
             # strong truncation and strong enlargement
             "elements-2to1": [dict(l=6, k=1, tilde=True, few=1)],
             "elements-3to2": [dict(l=10, k=2, cplx=True, few=1), dict(l=1, k=6, few=1)]}
    case("C01", nm, q, big=big, bounds="l=%d -> k=%d" % (q["l"], q["k"]), large=large.get(nm, ()))(change)

case("C01", "elements-3to3", dict(l=3, k=3, tilde=False, dim=1, cplx=False, elc=True, s=None),
     tier="thorough", bounds="l=3 -> 3, real C, complex elements", timeout=3000)(change)
case("C01", "elements-3to2-c", dict(l=3, k=2, tilde=True, dim=1, cplx=True, elc=True, s=None),
     tier="thorough", bounds="l=3 -> 2, complex", timeout=3000)(change)
case("C01", "elements-4to2", dict(l=4, k=2, tilde=True, dim=1, cplx=False, elc=False, s=None),
     tier="thorough", bounds="l=4 -> 2, real", timeout=3000)(change)


def spinops(env):
    """every spin operator of a spin-including basis follows the change"""
    l, k = env["l"], env["k"]
    bs = make_basis(env, l, 1, cplx=False, spf=None, includes_spin=True)
    for n in ("spin_x", "spin_y", "spin_z", "spin_2"):
        if not env.p.get("subset") or env.choice("has " + n, 2):
            setattr(bs, n, tensor(env, n, (l, l), True))
    if not env.p.get("subset") or env.choice("has tb", 2):
        bs.spin_2_tb = tensor(env, "spin_2_tb", (l,) * 4, True)
    C = tensor(env, "C", (l, k), True)
    Ct = tensor(env, "Ct", (k, l), True) if env["tilde"] else None
    old = _old(bs)
    bs.change_basis(C, Ct) if Ct is not None else bs.change_basis(C)
    _check(env, bs, old, C, Ct if Ct is not None else dagger(C), k)


case("C01", "spin-operators", dict(l=2, k=2, tilde=True), big=[dict(l=6, k=6), dict(l=12, k=10)],
     large=[dict(l=4, k=4)],
     bounds="l=2 spin orbitals", again={})(spinops)
case("C01", "spin-operators-default-bra", dict(l=2, k=1, tilde=False), big=[dict(l=6, k=4)],
     bounds="l=2 -> 1 spin orbitals")(spinops)


def doubled(env):
    """spin doubling, then a spin-mixing change of basis, through the system API"""
    qs = env.mod()
    bs = make_basis(env, env["l"], 1, cplx=False, spf=None, s="eye")
    anti = bool(env.choice("anti", 2))
    gos = qs.GeneralOrbitalSystem(env["n"], bs, anti_symmetrize=anti)
    L = 2 * env["l"]
    k = env["k"]
    C = tensor(env, "C", (L, k), env["cplx"])
    old = dict(h=snap(gos.h), s=snap(gos.s), u=snap(gos.u), d=snap(gos.dipole_moment),
               **{n: snap(getattr(gos, n)) for n in
                  ("spin_x", "spin_y", "spin_z", "spin_2", "spin_2_tb")})
    if env["tilde"]:
        Ct = tensor(env, "Ct", (k, L), env["cplx"])
        gos.change_basis(C, Ct)
    else:
        Ct = dagger(C)
        gos.change_basis(C)
    gos.spin_x
    _check(env, gos, old, C, Ct, k)
    env.eq("n", gos.n, env["n"])
    env.eq("m", gos.m, k - env["n"])
    env.true("o", gos.o == slice(0, env["n"]))
    env.true("v", gos.v == slice(env["n"], k))


case("C01", "general-orbital-system", dict(l=1, n=1, k=2, tilde=True, cplx=True),
     big=[dict(l=3, n=2, k=5), dict(l=6, n=3, k=11)], bounds="2 spin orbitals, both anti-symmetrisation flags", again={})(doubled)
case("C01", "general-orbital-system-default", dict(l=1, n=1, k=1, tilde=False, cplx=True),
     big=[dict(l=3, n=2, k=6)], bounds="2 -> 1 spin orbitals")(doubled)
case("C01", "general-orbital-system-4", dict(l=2, n=1, k=2, tilde=False, cplx=False),
     tier="thorough", bounds="4 -> 2 spin orbitals", timeout=3000)(doubled)


def spatial(env):
    """SpatialOrbitalSystem.change_basis and the transform helpers"""
    qs = env.mod()
    l, k = env["l"], env["k"]
    bs = make_basis(env, l, 1, cplx=True, spf=None)
    sys_ = qs.SpatialOrbitalSystem(2, bs)
    C = tensor(env, "C", (l, k), True)
    Ct = tensor(env, "Ct", (k, l), True)
    old = dict(h=snap(sys_.h), s=snap(sys_.s), u=snap(sys_.u), d=snap(sys_.dipole_moment))
    A = tensor(env, "A", (l, l), True)
    B = tensor(env, "B", (l,) * 4, False)
    env.eq("transform_one_body_elements", sys_.transform_one_body_elements(A, C, Ct),
           one_body(env, A, C, Ct))
    env.eq("transform_one_body_elements default", sys_.transform_one_body_elements(A, C),
           one_body(env, A, C, dagger(C)))
    env.eq("transform_two_body_elements", sys_.transform_two_body_elements(B, C, Ct),
           two_body(env, B, C, Ct))
    env.eq("get_transformed_h", bs.get_transformed_h(C), one_body(env, old["h"], C, dagger(C)))
    env.eq("get_transformed_u", bs.get_transformed_u(C), two_body(env, old["u"], C, dagger(C)))
    env.eq("h untouched", sys_.h, old["h"])
    env.eq("u untouched", sys_.u, old["u"])
    sys_.change_basis(C, Ct)
    env.eq("system l", sys_.l, k)
    env.eq("h", sys_.h, one_body(env, old["h"], C, Ct))
    env.eq("s", sys_.s, one_body(env, old["s"], C, Ct))
    env.eq("u", sys_.u, two_body(env, old["u"], C, Ct))
    env.eq("dipole", sys_.dipole_moment[0], one_body(env, old["d"][0], C, Ct))
    env.true("virtual slice", sys_.v == slice(1, k))


case("C01", "spatial-system", dict(l=2, k=2), big=[dict(l=4, k=5), dict(l=11, k=12)], large=[dict(l=5, k=4)], bounds="l=2 -> 2", again={})(spatial)
case("C01", "spatial-system-2to1", dict(l=2, k=1), bounds="l=2 -> 1")(spatial)


def compose(env):
    """two successive changes equal the change with the product matrix"""
    l = 2
    bs = make_basis(env, l, 1, cplx=False, spf=None)
    b2 = bs.copy_basis()
    cx = env["cplx"]
    C1, C2 = tensor(env, "C1", (l, l), cx), tensor(env, "C2", (l, 1), cx)
    bs.change_basis(C1)
    bs.change_basis(C2)
    C = env.np.dot(C1, C2)
    b2.change_basis(C)
    for n in ("h", "s", "u", "dipole_moment"):
        env.eq(n, getattr(bs, n), getattr(b2, n))
    env.eq("l", bs.l, b2.l)


MIX = "every array real or complex, independently; symbolic in 2 places each"
case("C01", "elements-kinds", dict(l=2, k=2, tilde=False, dim=1, cplx=True, elc=True, s=None, mix=1, few=2), bounds=MIX)(change)
case("C01", "elements-kinds-tilde", dict(l=2, k=1, tilde=True, dim=1, cplx=True, elc=True, s=None, mix=1, few=2), bounds=MIX)(change)
case("C01", "spatial-system-kinds", dict(l=2, k=2, mix=("h", "u", "A", "B", "C"), few=1), bounds=MIX)(spatial)
case("C01", "composition", dict(cplx=True), bounds="l=2 -> 2 -> 1")(compose)
WH = "whole-number arrays of integer type next to real and complex ones; symbolic in 2 places each"
case("C01", "elements-integers", dict(l=2, k=2, tilde=False, dim=1, cplx=True, elc=True, s=None, mix=("h", "u", "d", "C"), ints=1, few=2), bounds=WH)(change)
case("C01", "elements-integers-tilde", dict(l=2, k=1, tilde=True, dim=1, cplx=True, elc=True, s=None, mix=("h", "s", "C", "Ct"), ints=1, few=2), bounds=WH)(change)
case("C01", "spin-operators-subsets", dict(l=2, k=1, tilde=True, subset=1, few=1), bounds="l=2, every subset of the spin operators")(spinops)


def reuse(env):
    """the coefficients are read at the time of the call: one array, overwritten
    between two changes of basis (as in a self-consistent loop)"""
    qs = env.mod()
    l = 2
    bs = make_basis(env, l, 1, cplx=True, spf=(1,), includes_spin=False)
    x = qs.SpatialOrbitalSystem(2, bs) if env["system"] else bs
    C, D = env.cplx("C", (l, l)), env.cplx("D", (l, l))
    tilde = env["tilde"]
    Ct = env.real("Ct", (l, l)) if tilde else None
    x.change_basis(C, Ct) if tilde else x.change_basis(C)
    old = dict(h=snap(x.h), s=snap(x.s), u=snap(x.u), d=snap(x.dipole_moment))
    phi, bra = snap(x.spf), snap(x.bra_spf)
    C[...] = D
    if tilde:
        Ct[...] = env.real("Dt", (l, l))
    for n, v in (("h", x.h), ("s", x.s), ("u", x.u), ("d", x.dipole_moment)):
        env.eq("overwriting the coefficients leaves " + n, v, old[n])
    T = Ct if tilde else dagger(D)
    A = env.cplx("A", (l, l))
    if env["system"]:
        env.eq("transformed one-body elements", x.transform_one_body_elements(A, C, Ct), one_body(env, A, D, T))
    x.change_basis(C, Ct) if tilde else x.change_basis(C)
    env.eq("h", x.h, one_body(env, old["h"], D, T))
    env.eq("s", x.s, one_body(env, old["s"], D, T))
    env.eq("u", x.u, two_body(env, old["u"], D, T))
    env.eq("dipole", x.dipole_moment[0], one_body(env, old["d"][0], D, T))
    env.eq("orbitals", x.spf, env.np.einsum("ap,ax->px", D, phi))
    env.eq("dual orbitals", x.bra_spf, env.np.einsum("pa,ax->px", T, bra))


for t in (False, True):
    for y in (False, True):
        case("C01", "reuse%s%s" % ("-tilde" if t else "", "-system" if y else ""), dict(tilde=t, system=y, few=2),
             bounds="l=2, two changes with one array")(reuse)


FA = "l=2; fixed small integers times one symbolic factor in [1e-13,1e-9]"
case("C01", "faint", dict(l=2, k=2, tilde=False, dim=1, cplx=True, elc=True, s=None, faint=("h", "s", "u", "d")), bounds=FA)(change)
case("C01", "faint-tilde", dict(l=2, k=3, tilde=True, dim=1, cplx=True, elc=True, s=None, faint=("h", "s", "u", "d")), bounds=FA)(change)
