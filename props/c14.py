"""C14: dipole and double-well elements of the 2D oscillator are the exact
integrals over its orbitals."""
from fractions import Fraction as F
import numpy
from .common import *
from . import twodim as td

H = "quantum_systems.quantum_dots.two_dim.two_dim_helper"
HO = "quantum_systems.quantum_dots.two_dim.two_dim_ho"
ASSUMPTIONS = [
    "sympy's symbolic integration over the radius is replaced by the Gamma-function value of the "
    "same integrand (polynomial times Gaussian), computed from the integrand the code builds",
    "reference: moments of z and conj(z) between the orbitals, monomial by monomial",
]


def _q(env, x):
    return x if env.symbolic else float(x)


def sq(env, x):
    return env.np.sqrt(x) if env.symbolic else float(x) ** 0.5


def theta(k, axis):
    """int |cos t| e^{ikt} dt (axis 0) or |sin t| (axis 1)"""
    if k % 2:
        return F(0)
    return F(4, 1 - k * k) * (1 if axis == 1 or k % 4 == 0 else -1)


def dipole_ref(env, st, a):
    l = len(st)
    d = env.np.zeros((2, l, l), dtype=complex)
    for p in range(l):
        for q in range(l):
            z = td.moment(st[p], st[q], 1, 0)
            zb = td.moment(st[p], st[q], 0, 1)
            if z or zb:
                n = sq(env, td.norm2(*st[p]) * td.norm2(*st[q])) / a
                d[0, p, q] = n * _q(env, (z + zb) / 2)
                d[1, p, q] = n * _q(env, (z - zb) / 2) * (-1j)
    return d


def dw_ref(env, st, w, mass, b, axis):
    l = len(st)
    a = env.np.sqrt(mass * w)
    h = env.np.zeros((l, l), dtype=complex)
    for p in range(l):
        for q in range(l):
            v = 0
            if p == q:
                v = w * (2 * st[p][0] + abs(st[p][1]) + 1) + mass * w ** 2 * b ** 2 / 8
            t = theta(st[q][1] - st[p][1], axis)
            if t:
                x, half = td.radial_half(st[p], st[q], 1)
                assert half
                ax = sq(env, td.norm2(*st[p]) * td.norm2(*st[q])) / env.np.sqrt(env.np.pi)
                ax = ax * _q(env, x * t / 2) / a
                v = v - mass * w ** 2 * b * ax / 2
            h[p, q] = v
    return h


def dipole(env):
    """dipole elements of the oscillator"""
    T = env.get(HO, env["cls"])
    l = env["l"]
    w, mass = env.real("omega", pos=True), env.real("mass", pos=True)
    t = T(l, 4, 2, omega=w, mass=mass)
    d = t.dipole_moment
    env.true("shape", tuple(d.shape) == (2, l, l))
    env.eq("dipole", d, dipole_ref(env, td.states(l), env.np.sqrt(mass * w)))


case("C14", "dipole", dict(l=4, cls="TwoDimensionalHarmonicOscillator"),
     bounds="l=4, every omega, mass > 0", samples=1, big=[dict(l=6)], timeout=600, again=dict(l=3))(dipole)
case("C14", "dipole-dw", dict(l=3, cls="TwoDimensionalDoubleWell"),
     bounds="l=3, every omega, mass > 0", samples=1)(dipole)
case("C14", "dipole-l6", dict(l=6, cls="TwoDimensionalHarmonicOscillator"), tier="thorough",
     bounds="l=6, every omega, mass > 0", samples=1, timeout=3000)(dipole)


def double_well(env):
    """one-body elements of the double well"""
    f = env.get(H, "get_double_well_one_body_elements")
    l = env["l"]
    w, mass, b = env.real("omega", pos=True), env.real("mass", pos=True), env.real("b")
    ax = env["axis"]
    if env.p.get("np"):
        ax = numpy.int64(ax)
    h = f(l, w, mass, b, dtype=env.np.complex128, axis=ax)
    env.eq("h", h, dw_ref(env, td.states(l), w, mass, b, env["axis"]))


for ax in (0, 1):
    case("C14", "double-well-axis%d" % ax, dict(l=6, axis=ax), samples=1,
         bounds="l=6, every omega, mass > 0 and barrier", big=[dict(l=10)], timeout=600, again=dict(l=3))(double_well)
    case("C14", "double-well-axis%d-numpy" % ax, dict(l=3, axis=ax, np=1), samples=1,
         bounds="l=3, axis given as a numpy integer, every omega, mass > 0 and barrier")(double_well)
    case("C14", "double-well-axis%d-l10" % ax, dict(l=10, axis=ax), samples=1, tier="thorough",
         bounds="l=10, every omega, mass > 0 and barrier", timeout=3000)(double_well)


def double_well_class(env):
    """the basis object: elements, defaults and overlap"""
    T = env.get(HO, "TwoDimensionalDoubleWell")
    l = env["l"]
    w, mass, b = env.real("omega", pos=True), env.real("mass", pos=True), env.real("b")
    ax = env.choice("axis", 2)
    t = T(l, 4, 2, omega=w, mass=mass, barrier_strength=b, axis=ax)
    st = td.states(l)
    env.eq("h", t.h, dw_ref(env, st, w, mass, b, ax))
    env.eq("hermitian", t.h, env.np.conj(t.h).T)
    env.eq("s", t.s, env.np.eye(l))
    env.eq("dipole", t.dipole_moment, dipole_ref(env, st, env.np.sqrt(mass * w)))


case("C14", "double-well-class", dict(l=3), bounds="l=3, both axes, every omega, mass > 0 and barrier",
     samples=1, timeout=600, again={})(double_well_class)


def theta_integrals(env):
    """angular integrals for all magnetic quantum numbers"""
    m_ = env.mod(H)
    p, q = env.int("mp"), env.int("mq")
    k = q - p
    f = env.get(H, "theta_1_integral")
    g = env.get(H, "theta_2_integral")
    if (k == 1) | (k == -1):
        env.eq("cos", f(p, q), env.np.pi)
        # int sin(t) e^{ikt} dt = i pi k for k = +-1
        env.eq("sin", g(p, q), 1j * env.np.pi * k)
    else:
        env.eq("cos", f(p, q), 0)
        env.eq("sin", g(p, q), 0)
    f = env.get(H, "theta_1_tilde_integral")
    g = env.get(H, "theta_2_tilde_integral")
    if k % 2 == 1:
        env.eq("abs cos", f(p, q), 0)
        env.eq("abs sin", g(p, q), 0)
    else:
        env.eq("abs sin", g(p, q) * (1 - k * k), 4)
        env.eq("abs cos", f(p, q) * (1 - k * k), 4 if k % 4 == 0 else -4)


case("C14", "theta", bounds="all integers m", samples=12)(theta_integrals)
