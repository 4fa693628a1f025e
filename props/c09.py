"""C09: time-dependent Hamiltonians."""
from .common import *

ASSUMPTIONS = [
    "floating-point arithmetic is modelled as exact real/complex arithmetic",
    "the user's pulse / switching / weight functions are arbitrary quadratic polynomials of time with symbolic coefficients, or symbolic constants",
    "bounds: l <= 2 orbitals, 1-3 dimensions, up to 3 evaluations at symbolic times in any order",
    "CustomOneBodyOperator carried over to the spin-doubled system is a known finding",
]


def ops(env):
    return env.mod("quantum_systems.time_evolution_operators")


def curve(env, name):
    c0, c1, c2 = (env.real("%s%d" % (name, i)) for i in range(3))
    if env.p.get("phase"):
        c1 = c1 + 1j * env.real(name + "i")
    return lambda t: c0 + c1 * t + c2 * t * t


def system(env, spin=None):
    qs = env.mod()
    l, dim = env["l"], env["dim"]
    spin = env["spin"] if spin is None else spin
    bs = make_basis(env, l, dim, cplx=env["cplx"], spf=None, s="eye", includes_spin=spin)
    return qs.GeneralOrbitalSystem(1, bs, anti_symmetrize=False) if spin else qs.SpatialOrbitalSystem(2, bs)


def laser(env):
    """h(t) = h + E(t) * sum_i eps_i(t) d_i, u(t) = u"""
    s = system(env)
    dim = env["dim"]
    h, u, d = snap(s.h), snap(s.u), snap(s.dipole_moment)
    LF = ops(env).LaserField
    if env.choice("pulse", 2):
        E = curve(env, "E")
        pulse = E
    else:
        e0 = env.cplx("E") if env.p.get("phase") else env.real("E")
        E, pulse = (lambda t: e0), e0
    pk = env.choice("pol", 3)
    if pk == 0:
        pol = lambda t: [1] + [0] * (dim - 1)
        op = LF(pulse)
    elif pk == 1:
        p0 = tensor(env, "pol", (dim,), bool(env.p.get("phase")))
        keep = p0.copy()
        pol = lambda t: keep
        op = LF(pulse, polarization_vector=p0)
    else:
        p0, p1 = env.real("pol0", (dim,)), tensor(env, "pol1", (dim,), bool(env.p.get("phase")))
        pol = lambda t: p0 + t * p1
        op = LF(pulse, pol)
    s.set_time_evolution_operator(op)

    def want(t, h, d):
        r = h
        v = pol(t)
        for i in range(dim):
            r = r + E(t) * v[i] * d[i]
        return r

    t1, t2 = env.real("t1"), env.real("t2")
    env.eq("h(t1)", s.h_t(t1), want(t1, h, d))
    env.eq("h(t2)", s.h_t(t2), want(t2, h, d))
    env.eq("h(t1) again", s.h_t(t1), want(t1, h, d))
    env.eq("u(t)", s.u_t(t2), u)
    env.true("one-body operator", bool(s.has_one_body_time_evolution_operator))
    env.true("not a two-body operator", not s.has_two_body_time_evolution_operator)
    env.eq("h is not modified", s.h, h)
    env.eq("u is not modified", s.u, u)
    env.eq("dipole is not modified", s.dipole_moment, d)
    if env["change"]:
        C = tensor(env, "C", (env["l"], env["l"]), env["cplx"])
        s.change_basis(C)
        h2, d2 = snap(s.h), snap(s.dipole_moment)
        env.eq("h(t) follows a change of basis", s.h_t(t1), want(t1, h2, d2))
    s.set_time_evolution_operator(None)
    env.eq("h(t) without operator", s.h_t(t2), s.h)
    env.eq("u(t) without operator", s.u_t(t2), s.u)
    env.true("no operator", not s.has_one_body_time_evolution_operator
             and not s.has_two_body_time_evolution_operator)


for nm, p in [
    ("laser-1d", dict(l=2, dim=1, spin=False, cplx=True, change=False)),
    ("laser-1d-complex", dict(l=1, dim=1, spin=False, cplx=True, change=False, phase=True)),
    ("laser-2d-kinds", dict(l=1, dim=2, spin=False, cplx=True, change=False, mix=("h", "d", "pol", "pol1"))),
    ("laser-2d-complex", dict(l=1, dim=2, spin=True, cplx=True, change=False, phase=True)),
    ("laser-3d", dict(l=1, dim=3, spin=False, cplx=True, change=False)),
    ("laser-2d-general", dict(l=2, dim=2, spin=True, cplx=True, change=False)),
    ("laser-2d-basis-change", dict(l=2, dim=2, spin=False, cplx=False, change=True)),
]:
    case("C09", nm, p, big=[dict(l=5), dict(l=12)], large=[dict(l=5)] if nm in ("laser-3d", "laser-2d-general", "laser-2d-basis-change") else (), samples=6, bounds="l=%(l)d, dim=%(dim)d" % p, again={} if p["l"] == 1 else None)(laser)


def switching(env):
    """u(t) = g(t) u, h(t) = h"""
    s = system(env)
    h, u = snap(s.h), snap(s.u)
    if env.choice("kind", 2):
        g = curve(env, "g")
        op = ops(env).AdiabaticSwitching(g)
    else:
        g0 = env.cplx("g") if env.p.get("phase") else env.real("g")
        g = lambda t: g0
        op = ops(env).AdiabaticSwitching(g0)
    s.set_time_evolution_operator(op)
    t1, t2 = env.real("t1"), env.real("t2")
    env.eq("u(t1)", s.u_t(t1), g(t1) * u)
    env.eq("u(t2)", s.u_t(t2), g(t2) * u)
    env.eq("u(t1) again", s.u_t(t1), g(t1) * u)
    env.eq("h(t)", s.h_t(t1), h)
    env.true("two-body operator", bool(s.has_two_body_time_evolution_operator))
    env.true("not a one-body operator", not s.has_one_body_time_evolution_operator)
    env.eq("u is not modified", s.u, u)
    env.eq("h is not modified", s.h, h)


case("C09", "switching", dict(l=2, dim=1, spin=False, cplx=True), big=[dict(l=4), dict(l=11)], large=[dict(l=5)], samples=4, bounds="l=2", again={})(switching)
case("C09", "switching-kinds", dict(l=1, dim=1, spin=False, cplx=True, mix=("h", "u")), big=[dict(l=3)], samples=4, bounds="l=1, real and complex elements")(switching)
case("C09", "switching-complex", dict(l=1, dim=1, spin=False, cplx=True, phase=True), big=[dict(l=3)], samples=4, bounds="l=1, complex switching")(switching)
case("C09", "switching-general", dict(l=2, dim=1, spin=True, cplx=True), samples=4, bounds="l=2 spin orbitals")(switching)


def custom(env):
    """h(t) = h + w(t) A"""
    s = system(env)
    h, u = snap(s.h), snap(s.u)
    A = tensor(env, "A", (env["l"],) * 2, True)
    A0 = snap(A)
    if env.choice("kind", 2):
        w = curve(env, "w")
        op = ops(env).CustomOneBodyOperator(w, A)
    else:
        w0 = env.cplx("w") if env.p.get("phase") else env.real("w")
        w = lambda t: w0
        op = ops(env).CustomOneBodyOperator(w0, A)
    s.set_time_evolution_operator(op)
    t1, t2 = env.real("t1"), env.real("t2")
    env.eq("h(t1)", s.h_t(t1), h + w(t1) * A0)
    env.eq("h(t2)", s.h_t(t2), h + w(t2) * A0)
    env.eq("h(t1) again", s.h_t(t1), h + w(t1) * A0)
    env.eq("u(t)", s.u_t(t1), u)
    env.true("one-body operator", bool(s.has_one_body_time_evolution_operator))
    env.true("not a two-body operator", not s.has_two_body_time_evolution_operator)
    env.eq("operator is not modified", A, A0)
    env.eq("h is not modified", s.h, h)


case("C09", "custom", dict(l=2, dim=1, spin=False, cplx=True), big=[dict(l=4), dict(l=12)], large=[dict(l=8)], samples=4, bounds="l=2", again={})(custom)
case("C09", "custom-kinds", dict(l=1, dim=1, spin=False, cplx=True, mix=("h", "A")), big=[dict(l=3)], samples=4, bounds="l=1, real and complex elements and operator")(custom)
case("C09", "custom-complex", dict(l=2, dim=1, spin=False, cplx=True, phase=True), big=[dict(l=3)], samples=4, bounds="l=2, complex weight")(custom)
case("C09", "custom-general", dict(l=2, dim=1, spin=True, cplx=True), samples=4, bounds="l=2 spin orbitals")(custom)


def carried(env):
    """the general-orbital system built from a driven closed-shell system has
    the spin-doubled time-dependent Hamiltonian; the two stay independent"""
    s = system(env, False)
    kind = env["kind"]
    l = env["l"]
    if kind == "laser":
        E = curve(env, "E")
        p0 = env.real("pol", (env["dim"],))
        s.set_time_evolution_operator(ops(env).LaserField(E, p0))
    elif kind == "switch":
        s.set_time_evolution_operator(ops(env).AdiabaticSwitching(curve(env, "g")))
    elif kind == "custom":
        A = env.cplx("A", (l, l))
        s.set_time_evolution_operator(ops(env).CustomOneBodyOperator(curve(env, "w"), A))
    t = env.real("t")
    if env.choice("evaluate first", 2):
        s.h_t(t), s.u_t(t)
    h, u = snap(s.h_t(t)), snap(s.u_t(t))
    g = s.construct_general_orbital_system(anti_symmetrize=False)
    env.eq("closed-shell h(t) after the construction", s.h_t(t), h)
    if kind == "custom":
        try:
            got = g.h_t(t)
        except ValueError:
            env.finding("custom-operator-doubling", "h(t) of the doubled system")
            return
        env.eq("doubled h(t)", got, spin_double_one(env, h))
        return
    env.eq("doubled h(t)", g.h_t(t), spin_double_one(env, h))
    env.eq("doubled u(t)", g.u_t(t), spin_double_two(env, u))
    env.true("kind of operator", bool(g.has_one_body_time_evolution_operator) == (kind == "laser")
             and bool(g.has_two_body_time_evolution_operator) == (kind == "switch"))
    env.eq("h(t) of the closed-shell system", s.h_t(t), h)
    env.eq("u(t) of the closed-shell system", s.u_t(t), u)
    if kind != "none":
        g.set_time_evolution_operator(None)
        env.eq("h(t) is independent", s.h_t(t), h)
        env.eq("u(t) is independent", s.u_t(t), u)
        env.eq("static doubled h", g.h_t(t), spin_double_one(env, s.h))


for k in ("laser", "switch", "custom", "none"):
    case("C09", "carried-" + k, dict(l=2 if k == "custom" else 1, dim=2, kind=k, cplx=True), samples=4, big=[dict(l=3), dict(l=6)], large=[dict(l=3)],
         bounds="1 spatial orbital")(carried)
case("C09", "carried-laser-l2", dict(l=2, dim=1, kind="laser", cplx=False), samples=2,
     bounds="2 spatial orbitals")(carried)


def copies(env):
    """a copied system is driven by its own Hamiltonian, and so is the original"""
    s = system(env)
    kind, ht, ut = drive(env, s, kind=env["kind"])
    t = env.real("t")
    if env.choice("evaluate first", 2):
        s.h_t(t), s.u_t(t)
    c = s.copy_system()
    flags = (kind in ("laser", "custom"), kind == "switch")

    def look(what, x, h, u, d):
        env.eq(what + ": h(t)", x.h_t(t), ht(t, h, d))
        env.eq(what + ": u(t)", x.u_t(t), ut(t, u))
        env.true(what + ": kind of operator", (bool(x.has_one_body_time_evolution_operator),
                                               bool(x.has_two_body_time_evolution_operator)) == flags)

    h, u, d = snap(s.h), snap(s.u), snap(s.dipole_moment)
    if env.choice("copy first", 2):
        look("copy", c, h, u, d)
        look("original", s, h, u, d)
    else:
        look("original", s, h, u, d)
        look("copy", c, h, u, d)
    C = tensor(env, "C", (env["l"],) * 2, env["cplx"])
    a, b = (c, s) if env.choice("who", 2) else (s, c)
    a.change_basis(C)
    look("untouched system", b, h, u, d)
    look("changed system", a, one_body(env, h, C, dagger(C)), two_body(env, u, C, dagger(C)),
         [one_body(env, x, C, dagger(C)) for x in d])
    a.set_time_evolution_operator(None)
    look("other system without an operator", b, h, u, d)


for k in ("laser", "switch", "custom"):
    case("C09", "copied-system-" + k, dict(l=2 if k == "laser" else 1, dim=2, spin=False, cplx=k != "laser", kind=k), samples=4, big=[dict(l=3)],
         bounds="copies of a system with a %s operator" % k)(copies)


def kept(env):
    """Hamiltonians handed out for one time keep their values; every evaluation
    looks at what the system holds now"""
    s = system(env)
    kind, ht, ut = drive(env, s, kind=env["kind"])
    t1, t2 = env.real("t1"), env.real("t2")
    h, u, d = snap(s.h), snap(s.u), snap(s.dipole_moment)
    one, two = kind != "switch", kind == "switch"
    first = s.h_t(t1) if one else s.u_t(t1)
    want = ht(t1, h, d) if one else ut(t1, u)
    then = env.choice("then", 4)
    if then == 0:
        g = s.h_t(t2) if one else s.u_t(t2)
        env.eq("second time", g, ht(t2, h, d) if one else ut(t2, u))
        env.eq("first time afterwards", first, want)
        g += 1
        env.eq("first time after an update of the second", first, want)
        env.eq("second time again", s.h_t(t2) if one else s.u_t(t2), ht(t2, h, d) if one else ut(t2, u))
        env.eq("h", s.h, h)
        env.eq("u", s.u, u)
        return
    if then == 1:  # the elements are updated in place
        z = env.real("z")
        x = s.h
        x += z
        x = s.u
        x *= 1 + z
        x = s.dipole_moment
        x -= z
        h, u, d = h + z, u * (1 + z), d - z
    elif then == 2:  # a change of basis
        C = tensor(env, "C", (env["l"],) * 2, env["cplx"])
        s.change_basis(C)
        h, u, d = snap(s.h), snap(s.u), snap(s.dipole_moment)
    else:  # another operator of the same kind
        kind, ht, ut = drive(env, s, "other", kind=env["kind"])
    env.eq("h(t1) now", s.h_t(t1), ht(t1, h, d))
    env.eq("u(t1) now", s.u_t(t1), ut(t1, u))
    env.eq("h(t2) now", s.h_t(t2), ht(t2, h, d))
    env.eq("u(t2) now", s.u_t(t2), ut(t2, u))
    env.eq("what was handed out first", first, want)


for k in ("laser", "switch", "custom"):
    case("C09", "kept-" + k, dict(l=2, dim=1, spin=False, cplx=True, kind=k), samples=4, big=[dict(l=3)],
         bounds="l=2, two times, elements or operator changed in between")(kept)
