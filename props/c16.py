"""C16: one-dimensional quantum dot on a grid (ODQD)."""
from fractions import Fraction as F
from .common import *

M = "quantum_systems.quantum_dots.one_dim.one_dim_qd"
ASSUMPTIONS = [
    "the eigensolver (numpy/scipy eigh) is replaced by its contract: h V = V diag(w), V unitary, w ascending, "
    "a function of the matrix (the same matrix gives the same eigenvalues)",
    "an arbitrary potential on the grid is a polynomial in x with symbolic coefficients (degree up to 5)",
]


def polynomial(cs):
    def V(x):
        r = 0 * x
        for c in reversed(cs):
            r = r * x + c
        return r

    return V


def shipped(env):
    """one of the potential classes, as reached through ODQD; the value on the
    interior points is what the class gives there (its formula is C15)"""
    Q, kind = env.get(M, "ODQD"), env["shipped"]
    w = env.real("w", lo=F(1, 4), hi=4)
    if kind == "HOPotential":
        return Q.HOPotential(w)
    if kind == "DWPotential":
        return Q.DWPotential(w, env.real("sep", lo=0, hi=8))
    if kind == "DWPotentialSmooth":
        return Q.DWPotentialSmooth(a=env.real("width", lo=F(1, 4), hi=8))
    if kind == "SymmetricDWPotential":
        return Q.SymmetricDWPotential(a=w, b=env.real("pb", lo=-4, hi=4), c=env.real("pc", lo=-4, hi=4))
    if kind == "AsymmetricDWPotential":
        return Q.AsymmetricDWPotential(a=w, b=env.real("pb", lo=-4, hi=4), c=env.real("pc", lo=-4, hi=4))
    if kind == "GaussianPotential":
        return Q.GaussianPotential(w, env.real("mu", lo=-2, hi=2), 2, env.np)
    if kind == "AtomicPotential":
        return Q.AtomicPotential(Za=w, c=env.real("soft", lo=F(1, 4), hi=4))
    Wall = env.get("quantum_systems.quantum_dots.one_dim.one_dim_potentials", "GaussianPotentialHardWall")
    P = Wall(w, 0, 2, env.real("wall", lo=F(1, 4), hi=16))
    P.pointwise = False
    return P


def at(env, V, x):
    return V(env.np.array([x]))[0] if getattr(V, "pointwise", True) is False else V(x)


def build(env, **kw):
    n, l = env["n"], env["l"]
    L = env["L"] if env.p.get("L") else env.real("L", lo=F(1, 2), hi=1000)
    a = env.real("a", lo=F(1, 8), hi=100)
    al = env.real("alpha")
    beta = env.real("beta") if env.p.get("beta", True) else 0
    cs = [env.real("c%d" % k) for k in range(env.p.get("deg", 3))]
    V = polynomial(cs) if cs else None
    args = dict(a=a, alpha=al, beta=beta)
    if env.p.get("shipped"):
        V = args["potential"] = shipped(env)
    elif cs:
        args["potential"] = V
    bs = env.get(M, "ODQD")(l, L, n, np=env.np, **args)
    if not cs and not env.p.get("shipped"):
        V = lambda x: x ** 2 * F(1, 32) if env.symbolic else x ** 2 / 32
    xs = [-L + 2 * L * F(k, n - 1) if env.symbolic else -L + 2 * L * k / (n - 1) for k in range(n)]
    return bs, n, l, L, a, al, beta, V, xs


def fd(env, n, V, xs):
    dx = xs[1] - xs[0]
    H = env.np.zeros((n - 2, n - 2))
    for i in range(n - 2):
        H[i, i] = 1 / dx ** 2 + at(env, V, xs[i + 1])
        if i:
            H[i, i - 1] = H[i - 1, i] = -1 / (2 * dx ** 2)
    return H


def eigen(env):
    """energies and orbitals solve the finite-difference Schroedinger equation"""
    bs, n, l, L, a, al, beta, V, xs = build(env)
    dx = xs[1] - xs[0]
    env.eq("grid", bs.grid, env.np.array(xs))
    H = fd(env, n, V, xs)
    w, _ = env.np.linalg.eigh(H)
    # rounding errors of the eigensolver grow with the size of the matrix
    tol = None if env.symbolic else 1e-9 * max(1, abs(H).max())
    env.eq("lowest energies", bs.eigen_energies, w[:l], tol=tol)
    env.eq("h", bs.h, env.np.diag(w[:l]), tol=tol)
    env.eq("s", bs.s, env.np.eye(l))
    spf = bs.spf
    env.true("spf shape", tuple(spf.shape) == (l, n))
    env.eq("spf left end", spf[:, 0], env.np.zeros(l))
    env.eq("spf right end", spf[:, n - 1], env.np.zeros(l))
    rt = env.np.sqrt(dx)
    for p in range(l):
        for i in range(n - 2):
            r = 0
            for j in range(max(0, i - 1), min(n - 2, i + 2)):
                r = r + H[i, j] * (spf[p, j + 1] * rt)
            env.eq("residual %d,%d" % (p, i), r - w[p] * (spf[p, i + 1] * rt), 0, tol=tol)
        for q in range(l):
            o = 0
            for i in range(n):
                o = o + (spf[p, i] * rt).conjugate() * (spf[q, i] * rt)
            env.eq("norm %d,%d" % (p, q), o, int(p == q))


def elements(env):
    """two-body and dipole elements are the grid quadratures of the orbitals"""
    bs, n, l, L, a, al, beta, V, xs = build(env)
    dx = xs[1] - xs[0]
    spf = bs.spf
    W = [[al / env.np.sqrt((x - y) ** 2 + a ** 2) for y in xs] for x in xs]
    wt = [F(1, 2) if i in (0, n - 1) else 1 for i in range(n)]
    if not env.symbolic:
        wt = [float(x) for x in wt]
    tol = None if env.symbolic else 1e-9 * max(1, max(abs(x + beta * x ** 2) for x in xs))
    for p in range(l):
        for q in range(l):
            d = 0
            for i in range(n):
                d = d + wt[i] * spf[p, i].conjugate() * (xs[i] + beta * xs[i] ** 2) * spf[q, i]
            env.eq("dipole %d,%d" % (p, q), bs.dipole_moment[0, p, q], d * dx, tol=tol)
    env.true("dipole shape", tuple(bs.dipole_moment.shape) == (1, l, l))
    env.true("u shape", tuple(bs.u.shape) == (l,) * 4)
    for p in range(l):
        for q in range(l):
            for r in range(l):
                for s in range(l):
                    t = 0
                    for i in range(1, n - 1):
                        for j in range(1, n - 1):
                            t = t + wt[i] * wt[j] * W[i][j] * spf[p, i].conjugate() \
                                * spf[q, j].conjugate() * spf[r, i] * spf[s, j]
                    env.eq("u %d%d%d%d" % (p, q, r, s), bs.u[p, q, r, s], t * dx ** 2)


def toomany(env):
    """more states than interior grid points cannot be had"""
    n, l = env["n"], env["l"]
    L = env.real("L", lo=F(1, 2), hi=8)
    env.raises("refused", Exception, lambda: env.get(M, "ODQD")(l, L, n, np=env.np))


for n, l, deg, tier in [(4, 1, 2, "quick"), (4, 2, 4, "quick"), (5, 2, 4, "quick"), (5, 3, 0, "quick"),
                        (6, 2, 3, "quick"), (6, 4, 5, "thorough"), (7, 3, 5, "thorough"), (8, 3, 3, "thorough")]:
    t = "n%d_l%d_deg%d" % (n, l, deg)
    b = "%d grid points, %d states, polynomial potential with %d free coefficients%s; all grid lengths in [1/2,1000], " \
        "screenings in [1/8,100], strengths and beta" % (n, l, deg, " (0: the default potential)" if not deg else "")
    big = [dict(n=41, l=min(6, l + 3)), dict(n=301, l=12), dict(n=131, l=1 + l % 2)]
    case("C16", "eigen_" + t, dict(n=n, l=l, deg=deg), tier, b, big=big, again={} if (n, l) == (4, 1) else None)(eigen)
    case("C16", "elements_" + t, dict(n=n, l=l, deg=deg), tier, b, big=[dict(n=15, l=3), dict(n=81, l=3)], again={} if (n, l) == (4, 2) else None)(elements)
case("C16", "beta_default", dict(n=5, l=2, deg=2, beta=False), bounds="default beta")(elements)
for n, l in [(4, 3), (5, 4), (3, 2)]:
    case("C16", "toomany_n%d_l%d" % (n, l), dict(n=n, l=l), bounds="%d states on %d points" % (l, n))(toomany)
for nm in ("HOPotential", "DWPotential", "DWPotentialSmooth", "SymmetricDWPotential", "AsymmetricDWPotential",
           "GaussianPotential", "AtomicPotential", "hard wall"):
    case("C16", "shipped_" + nm.replace(" ", "_"), dict(n=5, l=2, deg=0, shipped=nm, L=3 if nm == "DWPotential" else None), bounds="5 grid points, 2 states, %s with any parameters" % nm,
         big=[dict(n=41, l=4), dict(n=101, l=1), dict(n=241, l=2)])(eigen)
