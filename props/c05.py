"""C05: spin operators in any orthonormal spin frame."""
from fractions import Fraction as F
from .common import *

ASSUMPTIONS = [
    "floating-point arithmetic is modelled as exact real/complex arithmetic",
    "the spin frame is an arbitrary U(2) matrix (unit quaternion times a phase on the second vector); the orbital overlap is arbitrary or the identity as stated per case",
    "bounds: 1 and 2 spatial orbitals (3 in the thorough tier)",
    "the one-body part of S^2 for a non-orthonormal orbital basis is a known finding (known_findings.txt)",
]


def comm(env, A, B):
    return env.np.dot(A, B) - env.np.dot(B, A)


def frame(env):
    """spin operators of a doubled basis, arbitrary overlap and spin frame"""
    l = env["l"]
    s = "eye" if env["s"] == "eye" else None
    bs = make_basis(env, l, 1, cplx=True, spf=None, s=s, dip=False)
    if env["s"] == "herm":
        bs.s = env.herm("s", l)
    S = snap(bs.s)
    a, b = spin_frame(env) if env["frame"] else ([1, 0], [0, 1])
    anti = bool(env.choice("anti", 2))
    bs.change_to_general_orbital_basis(a=a, b=b, anti_symmetrize=anti)
    if not env["frame"]:
        a, b = [1 + 0j, 0j], [0j, 1 + 0j]
    sig = pauli_in(env, a, b)
    ops = [bs.spin_x, bs.spin_y, bs.spin_z]
    for nm, m, g in zip("xyz", sig, (bs.sigma_x, bs.sigma_y, bs.sigma_z)):
        env.eq("sigma_" + nm, g, m)
    for nm, m, g in zip("xyz", sig, ops):
        env.eq("spin_" + nm, g, 0.5 * kron2(env, S, m))
    tb = None
    for x in ops:
        t = env.np.einsum("pr,qs->pqrs", x, x)
        tb = t if tb is None else tb + t
    env.eq("spin_2_tb", bs.spin_2_tb, antisym(tb) if anti else tb)
    one = env.np.eye(2)
    S3 = env.np.dot(S, env.np.dot(S, S))
    env.eq("spin_2", bs.spin_2, 0.75 * kron2(env, S, one),
           known=("spin2-overlap", 0.75 * kron2(env, S3, one)) if env["s"] != "eye" else None)


for nm, p in [
    ("frame-l1", dict(l=1, s="eye", frame=True)),
    ("frame-l2", dict(l=2, s="eye", frame=True)),
    ("frame-overlap-l1", dict(l=1, s="any", frame=True)),
    ("default-frame-overlap-l2", dict(l=2, s="herm", frame=False)),
    ("default-frame-l2", dict(l=2, s="eye", frame=False)),
]:
    case("C05", nm, p, big=[dict(l=3), dict(l=7)], large=[dict(l=4)] if nm == "default-frame-l2" else (), bounds="%(l)d spatial orbitals, overlap %(s)s" % p, again={} if nm in ("frame-l1", "default-frame-l2") else None)(frame)
case("C05", "frame-overlap-l2", dict(l=2, s="herm", frame=True), tier="thorough",
     bounds="2 spatial orbitals, Hermitian overlap, any frame", timeout=3000)(frame)
case("C05", "frame-l3", dict(l=3, s="eye", frame=True), tier="thorough",
     bounds="3 spatial orbitals, any frame", timeout=3000)(frame)


def algebra(env):
    """su(2) algebra, S^2 = 3/4, hermiticity, in every frame and after every
    rotation of the spatial orbitals"""
    l = env["l"]
    bs = make_basis(env, l, 1, cplx=False, spf=None, s="eye", dip=False)
    if env["rot"]:
        c, s = env.unit("rot", 2)
        C = env.np.zeros((2, 2))
        C[0, 0], C[0, 1], C[1, 0], C[1, 1] = c, s, -s, c
    a, b = spin_frame(env)
    qs = env.mod()
    sys_ = qs.GeneralOrbitalSystem(2, bs, a=a, b=b, anti_symmetrize=True)
    if env["rot"]:
        sys_.change_basis(env.np.kron(C, env.np.eye(2)))
    X, Y, Z = sys_.spin_x, sys_.spin_y, sys_.spin_z
    env.eq("[Sx,Sy]=iSz", comm(env, X, Y), 1j * Z)
    env.eq("[Sy,Sz]=iSx", comm(env, Y, Z), 1j * X)
    env.eq("[Sz,Sx]=iSy", comm(env, Z, X), 1j * Y)
    for n, M in (("x", X), ("y", Y), ("z", Z)):
        env.eq("S%s is Hermitian" % n, M, dagger(M))
        env.eq("S%s squared is 1/4" % n, env.np.dot(M, M), 0.25 * env.np.eye(2 * l))
    env.eq("S^2", sys_.spin_2, 0.75 * env.np.eye(2 * l))


case("C05", "algebra-l1", dict(l=1, rot=False), bounds="1 spatial orbital, every frame", big=[dict(l=4)], again={})(algebra)
case("C05", "algebra-l2-rotated", dict(l=2, rot=True), bounds="2 spatial orbitals, every frame and rotation")(algebra)


def expect(env):
    """<S^2> in determinants: 3/4 for one electron, 0 for a closed shell, 2 for
    two electrons of parallel spin"""
    qs = env.mod()
    l = 2
    bs = make_basis(env, l, 1, cplx=False, spf=None, s="eye", dip=False)
    anti = bool(env.choice("anti", 2))
    a, b = spin_frame(env)
    g = qs.GeneralOrbitalSystem(2, bs, a=a, b=b, anti_symmetrize=anti)

    def s2(occ):
        v = 0
        for i in occ:
            v = v + g.spin_2[i, i]
            for j in occ:
                v = v + g.spin_2_tb[i, j, i, j]
                if not anti:
                    v = v - g.spin_2_tb[i, j, j, i]
        return v

    env.eq("one electron", s2([0]), 0.75)
    env.eq("one electron, second spin", s2([3]), 0.75)
    env.eq("closed shell", s2([0, 1]), 0)
    env.eq("two closed shells", s2([0, 1, 2, 3]), 0)
    env.eq("parallel spins", s2([0, 2]), 2)
    env.eq("parallel spins, second spin", s2([1, 3]), 2)
    env.eq("open-shell mixed determinant", s2([0, 3]), 1)
    for n in ("spin_x", "spin_y", "spin_z"):
        M = getattr(g, n)
        env.eq("closed shell <%s>" % n, M[0, 0] + M[1, 1], 0)


case("C05", "expectation", {}, bounds="2 spatial orbitals, every frame, both storage conventions")(expect)


def reject(env):
    """a pair (a, b) that is not orthonormal is refused"""
    bs = make_basis(env, 1, 1, cplx=False, spf=None, s="eye", dip=False)
    k = env["k"]

    def free(n):
        return [env.real(n + "0"), env.real(n + "1"), env.real(n + "2")]

    # off by more than d, and (second half of the cases) by less than a hundredth
    d = F(1, 10 ** 12) if env.symbolic else 1e-12
    near = (lambda x: env.assume(x < F(1, 10000) if env.symbolic else x < 1e-4)) if env["near"] else (lambda x: None)
    if k == 0:
        x = free("a")
        a, b = [x[0] + 1j * x[1], x[2] + 0j], [0, 1]
        env.assume((sum(t * t for t in x) - 1) ** 2 > d)
        near((sum(t * t for t in x) - 1) ** 2)
    elif k == 1:
        y = free("b")
        a, b = [0.6, 0.8j], [y[0] + 1j * y[1], y[2] + 0j]
        env.assume((sum(t * t for t in y) - 1) ** 2 > d)
        near((sum(t * t for t in y) - 1) ** 2)
    else:
        c, s, = env.unit("b", 2)
        a, b = [1, 0], [c + 0j, 1j * s]
        if k == 3:
            a, b = [0, 1], [1j * c, s + 0j]
            c = s
        env.assume(c * c > d)
        near(c * c)
    env.raises("refused", REFUSED,
               lambda: bs.change_to_general_orbital_basis(a=a, b=b))


for k in range(4):
    case("C05", "not-orthonormal-%d" % k, dict(k=k, near=0), bounds="one vector fixed, the other symbolic, the condition violated by > 1e-6")(reject)
    case("C05", "barely-not-orthonormal-%d" % k, dict(k=k, near=1), bounds="one vector fixed, the other symbolic, the condition violated by 1e-6 to 1e-2")(reject)


def slight(env):
    """a spin frame off the default one by a tiny rotation"""
    l = 1
    bs = make_basis(env, l, 1, cplx=False, spf=None, s="eye", dip=False)
    t = env.real("t", lo=F(1, 10 ** 7), hi=F(1, 1000))
    if env.choice("other way", 2):
        t = -t
    c, s = (1 - t * t) / (1 + t * t), 2 * t / (1 + t * t)
    k = env.choice("plane", 3)
    if k == 0:
        a, b = [c, s], [-s, c]
    elif k == 1:
        a, b = [c, 1j * s], [1j * s, c]
    else:
        a, b = [1, 0], [0, c + 1j * s]
    if env.choice("swapped", 2):
        a, b = b, a
    bs.change_to_general_orbital_basis(a=a, b=b, anti_symmetrize=False)
    sig = pauli_in(env, a, b)
    # elements of the order of t count: no absolute tolerance
    tol = None if env.symbolic else 1e-14
    for n, m, g, x in zip("xyz", sig, (bs.sigma_x, bs.sigma_y, bs.sigma_z), (bs.spin_x, bs.spin_y, bs.spin_z)):
        env.eq("sigma_" + n, g, m, tol=tol)
        env.eq("spin_" + n, x, 0.5 * m, tol=tol)


case("C05", "slight", {}, bounds="1 spatial orbital, frames rotated by 2e-7 to 2e-3 in three planes", samples=6)(slight)
