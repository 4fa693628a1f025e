"""C17: one-dimensional harmonic oscillator basis (ODHO)."""
import math
from fractions import Fraction as F
from .common import *

M = "quantum_systems.quantum_dots.one_dim.one_dim_qd"
ASSUMPTIONS = [
    "exp is an uninterpreted function with its defining axioms; derivatives are formal derivatives of the value "
    "the code computes at a symbolic position",
]


def herm(n):
    a, b = [F(1)], [F(0), F(2)]
    if n == 0:
        return a
    for k in range(1, n):
        c = [F(0)] + [2 * x for x in b]
        for i, x in enumerate(a):
            c[i] -= 2 * k * x
        a, b = b, c
    return b


def phi(env, w, n, x):
    """normalised oscillator eigenfunction"""
    y = env.np.sqrt(w) * x
    r = 0
    for c in reversed(herm(n)):
        r = r * y + (c if env.symbolic else float(c))
    z = (w / env.np.pi) ** F(1, 2) if env.symbolic else (w / math.pi) ** 0.5
    return r * env.np.exp(-w * x ** 2 / 2) * env.np.sqrt(z / (2 ** n * math.factorial(n)))


def build(env, **kw):
    n, l = env["n"], env["l"]
    L = env.real("L", lo=F(1, 100), hi=1000)
    w = env.real("omega", lo=F(1, 1000), hi=1000)
    a = env.real("a", lo=F(1, 1000), hi=1000)
    al = env.real("alpha")
    bs = env.get(M, "ODHO")(l, L, n, np=env.np, omega=w, a=a, alpha=al, **kw)
    xs = [-L + 2 * L * F(k, n - 1) if env.symbolic else -L + 2 * L * k / (n - 1) for k in range(n)]
    return bs, n, l, L, w, a, al, xs


def onebody(env):
    """energies, overlap and dipole elements"""
    beta = env.real("beta")
    bs, n, l, L, w, a, al, xs = build(env, beta=beta)
    half = F(1, 2) if env.symbolic else 0.5
    e = env.np.zeros((l, l), dtype=complex)
    x = env.np.zeros((l, l), dtype=complex)
    x2 = env.np.zeros((l, l), dtype=complex)
    for i in range(l):
        e[i, i] = w * (i + half)
        x2[i, i] = (i + half) / w
        if i + 1 < l:
            x[i, i + 1] = x[i + 1, i] = env.np.sqrt((i + 1) / (2 * w))
        if i + 2 < l:
            x2[i, i + 2] = x2[i + 2, i] = env.np.sqrt((i + 1) * (i + 2) + 0 * w) / (2 * w)
    env.eq("h", bs.h, e)
    env.eq("energies", bs.eigen_energies, env.np.array([w * (i + half) for i in range(l)]))
    env.eq("s", bs.s, env.np.eye(l))
    env.true("dipole shape", tuple(bs.dipole_moment.shape) == (1, l, l))
    env.eq("dipole", bs.dipole_moment[0], x + beta * x2)


def dipole0(env):
    """dipole elements with the default (dipole-only) coupling"""
    bs, n, l, L, w, a, al, xs = build(env)
    x = env.np.zeros((l, l), dtype=complex)
    for i in range(l - 1):
        x[i, i + 1] = x[i + 1, i] = env.np.sqrt((i + 1) / (2 * w))
    env.eq("dipole", bs.dipole_moment[0], x)


def orbitals(env):
    """orbitals on the grid are the normalised eigenfunctions"""
    bs, n, l, L, w, a, al, xs = build(env)
    env.eq("grid", bs.grid, env.np.array(xs))
    env.true("shape", tuple(bs.spf.shape) == (l, n))
    for p in range(l):
        for i in range(n):
            env.eq("orbital %d at %d" % (p, i), bs.spf[p, i], phi(env, w, p, xs[i]))


def twobody(env):
    """two-body elements: trapezoid quadrature of the shielded Coulomb interaction"""
    bs, n, l, L, w, a, al, xs = build(env)
    dx = xs[1] - xs[0]
    f = bs.spf
    W = [[al / env.np.sqrt((x - y) ** 2 + a ** 2) for y in xs] for x in xs]
    h = F(1, 2) if env.symbolic else 0.5
    wt = [h if i in (0, n - 1) else 1 for i in range(n)]
    for p in range(l):
        for q in range(l):
            for r in range(l):
                for s in range(l):
                    t = 0
                    for i in range(n):
                        for j in range(n):
                            t = t + wt[i] * wt[j] * W[i][j] * f[p, i].conjugate() \
                                * f[q, j].conjugate() * f[r, i] * f[s, j]
                    env.eq("u %d%d%d%d" % (p, q, r, s), bs.u[p, q, r, s], t * dx ** 2)


def schroedinger(env):
    """-1/2 phi'' + 1/2 omega^2 x^2 phi = omega (n + 1/2) phi at every position"""
    n, l = 3, env["l"]
    w = env.real("omega", lo=F(1, 16), hi=4)
    L = env.real("L", lo=F(1, 2), hi=6)
    C = env.get(M, "ODHO")

    def at(i):
        return lambda x: [C(l, x, n, np=env.np, omega=w, a=1, alpha=1).spf[p, i] for p in range(l)][env["p"]]

    p = env["p"]
    for i in (0, 2):
        f = at(i)
        lhs = -env.diff(f, L, 2) / 2 + w ** 2 * L ** 2 * f(L) / 2
        env.eq("eigenfunction, end %d" % i, w * (p + (F(1, 2) if env.symbolic else 0.5)) * f(L), lhs, tol=1e-5)


case("C17", "onebody_l1", dict(n=3, l=1), bounds="1 orbital")(onebody)
case("C17", "onebody_l4", dict(n=3, l=4), bounds="4 orbitals, all omega and beta", big=[dict(l=12)], again=dict(l=3))(onebody)
case("C17", "dipole_l5", dict(n=3, l=5), bounds="5 orbitals, all omega", big=[dict(l=20), dict(l=66)])(dipole0)
case("C17", "dipole_l9", dict(n=3, l=9), tier="thorough", bounds="9 orbitals, all omega", big=[dict(l=20)])(dipole0)
case("C17", "orbitals_l4", dict(n=5, l=4), bounds="4 orbitals on 5 points, all omega, lengths", big=[dict(l=14, n=9)], again=dict(l=2))(orbitals)
case("C17", "orbitals_l8", dict(n=4, l=8), tier="thorough", bounds="8 orbitals on 4 points")(orbitals)
case("C17", "twobody_l2_n3", dict(n=3, l=2), bounds="2 orbitals, 3 points", big=[dict(l=4, n=11), dict(l=3, n=61)], again={})(twobody)
case("C17", "twobody_l2_n4", dict(n=4, l=2), bounds="2 orbitals, 4 points")(twobody)
case("C17", "twobody_l3_n5", dict(n=5, l=3), tier="thorough", bounds="3 orbitals, 5 points")(twobody)
for p in range(4):
    case("C17", "schroedinger_%d" % p, dict(l=p + 1, p=p), tier="quick" if p < 3 else "thorough",
         bounds="state %d, all omega and positions" % p)(schroedinger)
