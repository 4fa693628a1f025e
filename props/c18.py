"""C18: sinc-DVR basis and its two-index representation of the interaction."""
from fractions import Fraction as F
from .common import *
from .c16 import polynomial

M = "quantum_systems.sinc_dvr.one_dim.sinc_dvr"
ASSUMPTIONS = [
    "an arbitrary potential on the grid is a polynomial in x with symbolic coefficients",
]


def embed(env, u2):
    """<pq|u|rs> = u2[p,q] delta_pr delta_qs"""
    n = u2.shape[0]
    out = env.np.zeros((n,) * 4, dtype=complex)
    for p in range(n):
        for q in range(n):
            out[p, q, p, q] = u2[p, q]
    return out


def full(env, bs):
    return embed(env, bs.u) if len(bs.u.shape) == 2 else bs.u


def elements(env):
    """all matrix elements of a new basis"""
    l = env["l"]
    L = env.real("L", lo=F(1, 2), hi=1000)
    a = env.real("a", lo=F(1, 8), hi=100)
    al = env.real("alpha")
    beta = env.real("beta")
    cs = [(env.cplx if env.p.get("absorb") else env.real)("c%d" % k) for k in range(env["deg"])]
    kw = dict(potential=polynomial(cs)) if cs else {}
    if env["repr"]:
        kw["u_repr"] = env["repr"]
    V = polynomial(cs) if cs else (lambda x: x ** 2 / 32)
    bs = env.get(M, "ODSincDVR")(l, L, a=a, alpha=al, beta=beta, np=env.np, **kw)
    xs = [-L + 2 * L * F(k, l - 1) if env.symbolic else -L + 2 * L * k / (l - 1) for k in range(l)]
    dx = xs[1] - xs[0]
    h = env.np.zeros((l, l), dtype=complex)
    u = env.np.zeros((l, l), dtype=complex)
    spf = env.np.zeros((l, l), dtype=complex)
    d = env.np.zeros((1, l, l), dtype=complex)
    for i in range(l):
        for j in range(l):
            if i == j:
                h[i, i] = env.np.pi ** 2 / (6 * dx ** 2) + V(xs[i])
            else:
                h[i, j] = (-1) ** (i - j) / (dx ** 2 * (i - j) ** 2)
            u[i, j] = al / env.np.sqrt((xs[i] - xs[j]) ** 2 + a ** 2)
        spf[i, i] = 1 / env.np.sqrt(dx)
        d[0, i, i] = xs[i] + beta * xs[i] ** 2
    env.eq("grid", bs.grid, env.np.array(xs))
    env.eq("h", bs.h, h)
    env.eq("s", bs.s, env.np.eye(l))
    env.eq("spf", bs.spf, spf)
    env.eq("dipole", bs.dipole_moment, d)
    want = env["repr"] or "2d"
    env.true("representation", bs.u_repr == want)
    env.true("sparse flag", bs.sparse_repr == (want == "2d"))
    env.eq("u", bs.u, u if want == "2d" else embed(env, u))


def refused(env):
    """unknown representations are refused, nothing changes"""
    C = env.get(M, "ODSincDVR")
    L = env.real("L", lo=F(1, 2), hi=8)
    for bad in ("3d", "sparse", "", None, 2):
        env.raises("constructor %r" % (bad,), ValueError, lambda: C(2, L, u_repr=bad, np=env.np))
    for r in ("2d", "4d"):
        bs = C(2, L, u_repr=r, np=env.np)
        u = bs.u.copy()
        env.raises("set_u_repr", ValueError, lambda: bs.set_u_repr("5d"))
        env.true("kept", bs.u_repr == r)
        env.eq("u kept", bs.u, u)


def start(env, repr="2d", u=True):
    """basis with arbitrary elements"""
    l = env["l"]
    bs = env.get(M, "ODSincDVR")(l, 2, np=env.np, u_repr=repr)
    u2 = (env.real if env.p.get("real") else env.cplx)("u", (l, l)) if u else None
    if u:
        bs.u = u2 if repr == "2d" else embed(env, u2)
    bs.h = env.cplx("h", (l, l))
    if env.p.get("s"):
        bs.s = env.cplx("s", (l, l))
    return bs, l, u2


def switch(env):
    """any history of representation switches keeps the interaction"""
    bs, l, u2 = start(env, env["repr"])
    for k in range(env["steps"]):
        r = ("2d", "4d")[env.choice("step%d" % k, 2)]
        bs.set_u_repr(r)
        env.true("repr %d" % k, bs.u_repr == r)
        env.eq("u %d" % k, bs.u, u2 if r == "2d" else embed(env, u2))


def transform(env):
    """transformed elements from the 2d representation are those of the 4d one"""
    bs, l, u2 = start(env, env["repr"])
    k = env["k"]
    C = env.cplx("C", (l, k))
    Ct = env.cplx("Ct", (k, l)) if env["bra"] else None
    u = bs.u
    ref = two_body(env, embed(env, u2), C, dagger(C) if Ct is None else Ct)
    kw = {} if Ct is None else dict(C_tilde=Ct)
    env.eq("transformed", bs.transform_two_body_elements(u, C, env.np, **kw), ref)
    if env["repr"] == "2d":
        env.eq("transformed, anti-symmetric",
               bs.transform_two_body_elements(u, C, env.np, anti_symmetrize=True, **kw), antisym(ref))
    if Ct is None:
        env.eq("get_transformed_u", bs.get_transformed_u(C), ref)
    env.eq("u untouched", full(env, bs), embed(env, u2))


def change(env):
    """change of basis"""
    bs, l, u2 = start(env, env["repr"])
    k = env["k"]
    h, s, d, f = snap(bs.h), snap(bs.s), snap(bs.dipole_moment), snap(bs.spf)
    C = env.cplx("C", (l, k))
    Ct = env.cplx("Ct", (k, l)) if env["bra"] else None
    bs.change_basis(C, Ct) if Ct is not None else bs.change_basis(C)
    T = dagger(C) if Ct is None else Ct
    env.true("l", bs.l == k)
    env.true("4d", bs.u_repr == "4d")
    env.eq("h", bs.h, one_body(env, h, C, T))
    env.eq("s", bs.s, one_body(env, s, C, T))
    env.eq("u", bs.u, two_body(env, embed(env, u2), C, T))
    env.eq("dipole", bs.dipole_moment[0], one_body(env, d[0], C, T))
    env.eq("spf", bs.spf, env.np.einsum("pa,px->ax", C, f))


def general(env):
    """spin doubling, with and without anti-symmetrisation, then a basis change"""
    bs, l, u2 = start(env, env["repr"])
    h = snap(bs.h)
    ref = spin_double_two(env, embed(env, u2))
    anti = bool(env["anti"])
    out = bs.change_to_general_orbital_basis(anti_symmetrize=anti)
    env.true("returns itself", out is bs)
    env.true("l", bs.l == 2 * l)
    env.eq("h", bs.h, spin_double_one(env, h))
    env.eq("u", full(env, bs), antisym(ref) if anti else ref)
    if anti:
        env.true("4d", bs.u_repr == "4d" and len(bs.u.shape) == 4)
    if anti or env["repr"] == "4d":
        # a basis that keeps the 2d representation has no spin operators
        for n, m in zip("xyz", pauli_in(env, env.np.array([1, 0]), env.np.array([0, 1]))):
            env.eq("spin_" + n, getattr(bs, "spin_" + n), kron2(env, env.np.eye(l), m) / 2)
    if env["then"] == "anti":
        bs.anti_symmetrize_two_body_elements()
        env.eq("anti-symmetrised later", full(env, bs), antisym(ref))
        bs.anti_symmetrize_two_body_elements()
        env.eq("only once", full(env, bs), antisym(ref))
    elif env["then"] == "change":
        C = env.cplx("C", (2 * l, env["k"]))
        bs.change_basis(C)
        env.eq("changed", bs.u, two_body(env, antisym(ref) if anti else ref, C, dagger(C)))


def system(env):
    """GeneralOrbitalSystem built from a plain or a spin-doubled basis"""
    bs, l, u2 = start(env, env["repr"])
    ref = spin_double_two(env, embed(env, u2))
    anti = bool(env["anti"])
    if env["pre"]:
        bs.change_to_general_orbital_basis(anti_symmetrize=False)
    g = env.mod().GeneralOrbitalSystem(2, bs, anti_symmetrize=anti)
    want = antisym(ref) if anti else ref
    env.eq("u", embed(env, g.u) if len(g.u.shape) == 2 else g.u, want)
    C = env.cplx("C", (2 * l, env["k"]))
    env.eq("transform", g.transform_two_body_elements(g.u, C), two_body(env, want, C, dagger(C)))
    if anti:
        f = g.construct_fock_matrix(g.h, g.u)
        env.eq("fock", f, g.h + env.np.einsum("piqi->pq", want[:, :2, :, :2]))
    g.change_basis(C)
    env.eq("after change", g.u, two_body(env, want, C, dagger(C)))


def spinbasis(env):
    """the spin basis is honoured in the anti-symmetric conversion"""
    bs, l, u2 = start(env, "2d")
    a, b = spin_frame(env)
    bs.change_to_general_orbital_basis(a=a, b=b)
    pm = pauli_in(env, a, b)
    for n, m in zip("xyz", pm):
        env.eq("spin_" + n, getattr(bs, "spin_" + n), kron2(env, env.np.eye(l), m) / 2)


def copies(env):
    """a copy has the same elements and is independent"""
    bs, l, u2 = start(env, env["repr"])
    r = bs.u_repr
    c = bs.copy_basis()
    env.true("repr", c.u_repr == r and bs.u_repr == r)
    env.true("module", c.np is env.np and bs.np is env.np)
    env.eq("u", full(env, c), embed(env, u2))
    C = env.cplx("C", (l, l))
    c.change_basis(C)
    env.eq("original u", full(env, bs), embed(env, u2))
    env.eq("copy u", c.u, two_body(env, embed(env, u2), C, dagger(C)))


def casts(env):
    """casting keeps both representations"""
    bs, l, u2 = start(env, env["repr"])
    bs.cast_to_complex()
    env.eq("u", full(env, bs), embed(env, u2))
    bs.change_module(env.np)
    env.eq("u again", full(env, bs), embed(env, u2))
    env.true("module", bs.np is env.np)


A = "all grid lengths in [1/2,1000], screenings in [1/8,100], strengths, beta, potentials"
for l, deg, r in [(2, 0, None), (2, 2, "2d"), (2, 2, "4d"), (3, 3, "2d"), (3, 3, "4d"), (4, 2, "2d")]:
    case("C18", "elements_l%d_%s_deg%d" % (l, r, deg), dict(l=l, deg=deg, repr=r),
         bounds="%d functions; %s" % (l, A), big=[dict(l=7), dict(l=14)],
         again={} if (l, r) == (3, "2d") else dict(repr="2d") if (l, r) == (2, "4d") else None)(elements)
for r in ("2d", "4d"):
    case("C18", "elements_l3_absorbing_" + r, dict(l=3, deg=3, repr=r, absorb=1), bounds="3 functions, complex potential; " + A,
         big=[dict(l=7)])(elements)
case("C18", "elements_l7", dict(l=7, deg=4, repr="2d"), "thorough", "7 functions; " + A)(elements)
case("C18", "elements_l5_4d", dict(l=5, deg=4, repr="4d"), "thorough", "5 functions; " + A)(elements)
case("C18", "refused", {}, bounds="invalid representations")(refused)
case("C18", "sizes_l4", dict(l=4, deg=0, repr="4d"), "thorough", "4 functions")(elements)
for r in ("2d", "4d"):
    for l, n, t in ((2, 3, "quick"), (3, 2, "quick"), (3, 4, "thorough")):
        case("C18", "switch_%s_l%d_%d" % (r, l, n), dict(l=l, repr=r, steps=n), t,
             "all histories of %d switches, %d functions, arbitrary elements" % (n, l), again={} if l == 2 else None,
             large=[dict(l=7, few=6)] if l == 2 else (), big=[dict(l=13)] if l == 2 else [])(switch)
    for l, k, bra in ((2, 2, 0), (2, 2, 1), (2, 1, 1), (3, 2, 1)):
        case("C18", "transform_%s_l%d_k%d_b%d" % (r, l, k, bra), dict(l=l, k=k, repr=r, bra=bra),
             "quick" if l == 2 else "thorough",
             "%d functions to %d, arbitrary complex coefficients and elements" % (l, k), big=[dict(l=4, k=4), dict(l=11, k=9)],
             large=[dict(l=5, k=4)] if (l, k, bra) == (2, 2, 1) else ())(transform)
        case("C18", "change_%s_l%d_k%d_b%d" % (r, l, k, bra), dict(l=l, k=k, repr=r, bra=bra, s=1),
             "quick" if l == 2 else "thorough",
             "%d functions to %d, arbitrary complex coefficients and elements" % (l, k), big=[dict(l=4, k=3), dict(l=11, k=12)],
             large=[dict(l=4, k=5)] if (l, k, bra) == (2, 2, 0) else ())(change)
    for anti in (0, 1):
        for then in ("anti", "change"):
            case("C18", "general_%s_a%d_%s" % (r, anti, then), dict(l=2, repr=r, anti=anti, then=then, k=2),
                 bounds="2 functions, arbitrary elements", big=[dict(l=3), dict(l=6)], large=[dict(l=3, k=4)])(general)
            if then == "anti":
                case("C18", "general_%s_a%d_real" % (r, anti), dict(l=2, repr=r, anti=anti, then=then, real=1),
                     bounds="2 functions, arbitrary real elements", big=[dict(l=6), dict(l=18)], large=[dict(l=3)])(general)
        for pre in (0, 1):
            case("C18", "system_%s_a%d_p%d" % (r, anti, pre), dict(l=2, repr=r, anti=anti, pre=pre, k=2),
                 bounds="2 functions, arbitrary elements", big=[dict(l=3, k=6), dict(l=6, k=11)])(system)
    case("C18", "copies_" + r, dict(l=2, repr=r), bounds="2 functions, arbitrary elements", big=[dict(l=8)], large=[dict(l=4)])(copies)
    case("C18", "casts_" + r, dict(l=2, repr=r), bounds="2 functions, arbitrary elements", big=[dict(l=9)], large=[dict(l=6)])(casts)
case("C18", "spinbasis", dict(l=2), bounds="2 functions, every orthonormal spin basis")(spinbasis)
