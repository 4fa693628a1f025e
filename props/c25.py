"""C25: the 2D oscillator orbitals on the grid are the orthonormal
eigenfunctions the matrix elements are computed from."""
from fractions import Fraction as F
from .common import *
from . import twodim as td

H = "quantum_systems.quantum_dots.two_dim.two_dim_helper"
HO = "quantum_systems.quantum_dots.two_dim.two_dim_ho"
ASSUMPTIONS = [
    "scipy's associated Laguerre polynomial and factorial are replaced by their exact definitions",
    "angles of the grid are multiples of pi/2 or pi (grids of 2, 3 or 5 points)",
]


def ref(env, n, m, r, t, w, mass):
    np = env.np
    a = np.sqrt(mass * w)
    lag = 0
    for i, c in enumerate(td.lag(n, abs(m))):
        lag = lag + (c if env.symbolic else float(c)) * (mass * w * r ** 2) ** i
    nn = td.norm2(n, m)
    nn = np.sqrt(nn) if env.symbolic else float(nn) ** 0.5
    return (a * nn / np.sqrt(np.pi) * np.exp(1j * m * t) * (a * r) ** abs(m) * lag
            * np.exp(-mass * w * r ** 2 / 2))


def values(env):
    """value at every point (r, theta)"""
    f = env.get(H, "spf_state")
    g = env.get(H, "get_indices_nm")
    w, mass = env.real("omega", pos=True), env.real("mass", pos=True)
    r, t = env.real("r", lo=0), env.real("theta")
    p = env.p.get("lo", 0) + env.choice("p", env["l"] - env.p.get("lo", 0))
    n, m = td.states(env["l"])[p]
    env.eq("phi", f(r, t, p, mass, w, g), ref(env, n, m, r, t, w, mass))


case("C25", "values", dict(l=10), bounds="first 10 orbitals, every r, theta, omega, mass", samples=4,
     big=[dict(l=21)], again={})(values)
case("C25", "values-high", dict(l=91, lo=45), bounds="orbitals 45 to 90 (up to twelve quanta), every r, theta, omega, mass", samples=4, timeout=600)(values)


def schrodinger(env):
    """eigenfunctions of the oscillator Hamiltonian with the shell energy"""
    f = env.get(H, "spf_state")
    g = env.get(H, "get_indices_nm")
    e = env.get(H, "get_shell_energy")
    w, mass = env.real("omega", pos=True), env.real("mass", pos=True)
    r, t = env.real("r", lo=F(1, 4), strict=True), env.real("theta")
    if not env.symbolic and r > 3:
        r = r / 4
    p = env.choice("p", env["l"])
    n, m = g(p)
    phi = f(r, t, p, mass, w, g)
    rr = env.diff(lambda x: f(x, t, p, mass, w, g), r, 2)
    r1 = env.diff(lambda x: f(x, t, p, mass, w, g), r, 1)
    tt = env.diff(lambda x: f(r, x, p, mass, w, g), t, 2)
    lap = rr + r1 / r + tt / r ** 2
    hphi = -lap / (2 * mass) + mass * w ** 2 * r ** 2 / 2 * phi
    env.eq("H phi = E phi", w * e(n, m) * phi, hphi, tol=1e-4)


case("C25", "schrodinger", dict(l=6), bounds="first 6 orbitals, every r, theta, omega, mass", samples=3, timeout=600)(schrodinger)
case("C25", "schrodinger-l15", dict(l=15), tier="thorough", bounds="first 15 orbitals", samples=3, timeout=3000)(schrodinger)


def orthonormal(env):
    """radial functions times the norm are orthonormal for equal m"""
    w, mass = env.real("omega", pos=True), env.real("mass", pos=True)
    rf, ri, nf = (env.get(H, x) for x in ("spf_radial_function", "radial_integral", "spf_norm"))
    st = td.states(env["l"])
    for i, (n, m) in enumerate(st):
        for j, (k, mm) in enumerate(st[: i + 1]):
            if m != mm:
                continue
            v = 2 * env.np.pi * nf(n, m, mass, w) * nf(k, mm, mass, w) * ri(
                rf(n, m, mass, w), rf(k, mm, mass, w), order=0)
            if not env.symbolic:
                v = complex(v)
            env.eq("<%d|%d>" % (i, j), v, 1 if i == j else 0)


case("C25", "orthonormal", dict(l=10), bounds="first 10 orbitals, every omega, mass", samples=1, timeout=600, again=dict(l=3))(orthonormal)


def grid(env):
    """the orbitals stored by the basis object on its (theta, r) grid"""
    T = env.get(HO, env["cls"])
    l, ng = env["l"], env["ng"]
    w, mass, R = env.real("omega", pos=True), env.real("mass", pos=True), env.real("R", pos=True)
    t = T(l, R, ng, omega=w, mass=mass)
    env.true("shape", tuple(t.spf.shape) == (l, ng, ng))
    st = td.states(l)
    for j in range(ng):
        env.eq("radius", t.radius[j], R * j / (ng - 1))
        env.eq("theta", t.theta[j], 2 * env.np.pi * j / (ng - 1))
    for p in range(l):
        for i in range(ng):
            for j in range(ng):
                r, th = R * j / (ng - 1), 2 * env.np.pi * i / (ng - 1)
                env.eq("spf[%d]" % p, t.spf[p, i, j], ref(env, st[p][0], st[p][1], r, th, w, mass))
                env.eq("bra[%d]" % p, t.bra_spf[p, i, j],
                       env.np.conj(ref(env, st[p][0], st[p][1], r, th, w, mass)))


case("C25", "grid", dict(cls="TwoDimensionalHarmonicOscillator", l=3, ng=3),
     bounds="l=3, 3x3 grid, every extent, omega, mass", samples=1, big=[dict(l=4, ng=6)], again={})(grid)
case("C25", "grid-dw", dict(cls="TwoDimensionalDoubleWell", l=2, ng=2),
     bounds="l=2, 2x2 grid, every extent, omega, mass", samples=1)(grid)
