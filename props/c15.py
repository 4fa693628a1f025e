"""C15: one-dimensional potentials and their derivatives."""
from fractions import Fraction as F
from .common import *

P = "quantum_systems.quantum_dots.one_dim.one_dim_potentials"
ASSUMPTIONS = [
    "exp and sqrt are uninterpreted functions with their defining axioms; the derivative is the "
    "formal derivative of the value the code computes for symbolic x (finite differences in the replay)",
]


def ho(env):
    w = env.real("omega")
    return "HOPotential", (w,), lambda x: w ** 2 * x ** 2 / 2


def dw(env):
    w, l = env.real("omega"), env.real("l")
    return "DWPotential", (w, l), lambda x: w ** 2 * (abs(x) - l / 2) ** 2 / 2


def dws(env):
    a = env.real("a", pos=True)
    return "DWPotentialSmooth", (a,), lambda x: (x ** 2 - a ** 2 / 4) ** 2 / (2 * a ** 2)


def sdw(env):
    a, b, c = env.real("a"), env.real("b"), env.real("c")
    return "SymmetricDWPotential", (a, b, c), lambda x: a * x ** 6 + b * x ** 4 + c * x ** 2


def adw(env):
    a, b, c = env.real("a"), env.real("b"), env.real("c")
    return "AsymmetricDWPotential", (a, b, c), lambda x: a * x ** 4 + b * x ** 3 + c * x ** 2


def gauss(env):
    w, c, d = env.real("weight"), env.real("center"), env.real("dev", pos=True)
    return "GaussianPotential", (w, c, d, env.np), \
        lambda x: -w * env.np.exp(-(x - c) ** 2 / (2 * d ** 2))


def atom(env):
    z, c = env.real("Za"), env.real("c", pos=True)
    return "AtomicPotential", (z, c), lambda x: -z / env.np.sqrt(x ** 2 + c)


ALL = dict(ho=ho, dw=dw, dws=dws, sdw=sdw, adw=adw, gauss=gauss, atom=atom)


def pot(env):
    """value, derivative and elementwise action for every x and every parameter"""
    name, args, f = ALL[env["pot"]](env)
    V = env.get(P, name)(*args)
    x = env.real("x")
    if name == "DWPotential":
        if x == 0:
            # the mean of the one-sided derivatives
            env.eq("V(0)", V(x), f(x))
            env.eq("derivative at the kink", V.derivative(x), 0)
            return
        w, l = args
        env.eq("V", V(x), f(x))
        env.eq("derivative", V.derivative(x), w ** 2 * (x - l / 2) if x > 0 else w ** 2 * (x + l / 2))
        if not env.symbolic and abs(x) < 1 / 64:
            return  # finite differences across the kink
    env.eq("V", V(x), f(x))
    env.eq("derivative", V.derivative(x), env.diff(V, x), tol=1e-6)


def grid(env):
    """a potential acts pointwise on a grid"""
    name, args, f = ALL[env["pot"]](env)
    V = env.get(P, name)(*args)
    if env.p.get("ints"):
        xs = env.np.array([3 * i - 4 * (i % 3) - 2 for i in range(env["n"])])
        env.assume(xs.dtype.kind == "i")
    else:
        xs = env.real("x", (env["n"],))
    keep = xs.copy()
    v = V(xs)
    d = V.derivative(xs)
    env.eq("the grid is not modified", xs, keep)
    env.true("shape", tuple(v.shape) == tuple(xs.shape) == tuple(d.shape))
    for i in range(env["n"]):
        env.eq("V[%d]" % i, v[i], f(xs[i]))
        env.eq("dV[%d]" % i, d[i], V.derivative(xs[i]))


for k in ALL:
    case("C15", k, dict(pot=k), bounds="every x and parameter", samples=6, again={})(pot)
    case("C15", k + "-grid", dict(pot=k, n=2), bounds="grids of 2 points", samples=2, big=[dict(n=7)])(grid)
    case("C15", k + "-integers", dict(pot=k, n=4, ints=1), bounds="a grid of 4 whole numbers of integer type", samples=2, big=[dict(n=9)])(grid)


def wall(env):
    """hard wall: the Gaussian inside, at least 1e5 higher outside"""
    V = env.get(P, "GaussianPotentialHardWall")
    w, c, d, xw = env.real("weight"), env.real("center"), env.real("dev", pos=True), env.real("wall", pos=True)
    xs = env.real("x", (env["n"],))
    if env.p.get("ints"):
        xs = env.np.array([3 * i - 4 * (i % 3) - 2 for i in range(env["n"])])
    keep = xs.copy()
    v = V(w, c, d, xw)(xs)
    env.eq("the grid is not modified", xs, keep)
    env.true("shape", tuple(v.shape) == tuple(xs.shape))
    for i in range(env["n"]):
        g = -w * env.np.exp(-(xs[i] - c) ** 2 / (2 * d ** 2))
        env.eq("V[%d]" % i, v[i], g + 100000 if abs(xs[i]) > xw else g, tol=1e-12)


case("C15", "wall", dict(n=2), bounds="grids of 2 points", samples=6, big=[dict(n=9)])(wall)
case("C15", "wall-integers", dict(n=3, ints=1), bounds="a grid of 3 whole numbers", samples=6, big=[dict(n=9)])(wall)


def defaults(env):
    """the documented default parameters"""
    x = env.real("x")
    m = env.mod(P)
    env.eq("smooth double well", m.DWPotentialSmooth()(x), (x ** 2 - 4) ** 2 / 32)
    env.eq("symmetric double well", m.SymmetricDWPotential()(x), x ** 6 / 2 + x ** 4 - 7 * x ** 2)
    env.eq("asymmetric double well", m.AsymmetricDWPotential()(x), x ** 4 + x ** 3 - 5 * x ** 2 / 2)
    c = F("0.54878464") if env.symbolic else 0.54878464
    env.eq("atom", m.AtomicPotential()(x), -2 / env.np.sqrt(x ** 2 + c))


case("C15", "defaults", bounds="every x")(defaults)
