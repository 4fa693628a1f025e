"""C07: Fock matrices."""
from .common import *

ASSUMPTIONS = [
    "floating-point arithmetic is modelled as exact real/complex arithmetic",
    "bounds: up to 3 spatial / 4 spin orbitals, every occupation; h, u and the buffer are independent symbolic arrays of one dtype",
]


def formula(env, h, u, n, spin):
    l = h.shape[0]
    f = env.np.zeros((l, l), dtype=complex)
    for p in range(l):
        for q in range(l):
            v = h[p, q]
            for i in range(n):
                if spin:
                    v = v + u[p, i, q, i]
                else:
                    v = v + 2 * u[p, i, q, i] - u[p, i, i, q]
            f[p, q] = v
    return f


def fock(env):
    """construct_fock_matrix for arbitrary h, u and buffer"""
    qs = env.mod()
    l, n, spin = env["l"], env["n"], env["spin"]
    bs = make_basis(env, l, 1, cplx=env["cplx"], spf=None, dip=bool(env.p.get("drive")), includes_spin=spin)
    sys_ = qs.GeneralOrbitalSystem(n, bs, anti_symmetrize=False) if spin else \
        qs.SpatialOrbitalSystem(2 * n, bs)
    if env.p.get("drive"):
        drive(env, sys_)
    h = tensor(env, "H", (l, l), env["cplx"])
    u = tensor(env, "U", (l,) * 4, env["cplx"])
    h0, u0, own_h, own_u = snap(h), snap(u), snap(bs.h), snap(bs.u)
    want = formula(env, h0, u0, n, spin)
    f = sys_.construct_fock_matrix(h, u)
    env.eq("fock matrix", f, want)
    env.true("a new matrix is returned", f is not h)
    env.eq("h is not modified", h, h0)
    env.eq("u is not modified", u, u0)
    buf = tensor(env, "buf", (l, l), env["cplx"])
    g = sys_.construct_fock_matrix(h, u, f=buf)
    env.eq("fock matrix in a used buffer", g, want)
    env.eq("the buffer is filled", buf, want)
    env.eq("h is not modified by the buffer call", h, h0)
    env.eq("u is not modified by the buffer call", u, u0)
    g2 = sys_.construct_fock_matrix(own_h, own_u, buf)
    env.eq("reused buffer", g2, formula(env, own_h, own_u, n, spin))
    env.eq("the first result is independent of the buffer", f, want)
    env.eq("the system is not modified", sys_.h, own_h)
    env.eq("the system's u is not modified", sys_.u, own_u)


for l, n, spin, cx in [(2, 1, False, True), (2, 2, False, True), (2, 0, False, True), (3, 1, False, False),
                       (2, 1, True, True), (2, 2, True, True), (3, 2, True, False), (1, 1, True, True)]:
    case("C07", "fock-%s-l%d-n%d" % ("general" if spin else "spatial", l, n),
         dict(l=l, n=n, spin=spin, cplx=cx), big=[dict(l=6, n=3), dict(l=13, n=7)] if l == 2 and n == 1 else [], large=[dict(l=9, n=6)] if l == 2 and n == 1 else (),
         bounds="l=%d, %d occupied" % (l, n), again={} if (l, n) == (2, 1) else None)(fock)
for spin in (False, True):
    case("C07", "fock-driven-" + ("general" if spin else "spatial"), dict(l=2, n=1, spin=spin, cplx=True, drive=1),
         samples=4, big=[dict(l=4, n=2)], bounds="l=2, every time-evolution operator set")(fock)
for spin in (False, True):
    case("C07", "fock-faint-" + ("general" if spin else "spatial"),
         dict(l=3, n=2, spin=spin, cplx=True, faint=("h", "u", "H", "U", "buf")),
         bounds="fixed integer elements times one symbolic factor between 1e-13 and 1e-9")(fock)
for l, n, spin in [(4, 2, True), (4, 2, False), (3, 2, False)]:
    case("C07", "fock-%s-l%d-n%d-c" % ("general" if spin else "spatial", l, n),
         dict(l=l, n=n, spin=spin, cplx=True), tier="thorough", bounds="l=%d, %d occupied" % (l, n),
         timeout=3000)(fock)


def kinds(env):
    """h, u and the buffer real or complex (a complex mean field in a real
    buffer is outside the claim)"""
    qs = env.mod()
    l, n, spin = env["l"], env["n"], env["spin"]
    bs = make_basis(env, l, 1, cplx=False, spf=None, dip=False, includes_spin=spin)
    sys_ = qs.GeneralOrbitalSystem(n, bs, anti_symmetrize=False) if spin else \
        qs.SpatialOrbitalSystem(2 * n, bs)
    h, u = tensor(env, "H", (l, l), True), tensor(env, "U", (l,) * 4, True)
    h0, u0 = snap(h), snap(u)
    want = formula(env, h0, u0, n, spin)
    cx = env.np.iscomplexobj
    wide = bool(cx(h)) or bool(cx(u))
    for buf in (None, tensor(env, "buf", (l, l), True)):
        if buf is not None and wide and not cx(buf):
            continue
        f = sys_.construct_fock_matrix(h, u) if buf is None else sys_.construct_fock_matrix(h, u, f=buf)
        env.eq("fock matrix", f, want)
        if buf is not None:
            env.eq("the buffer is filled", buf, want)
        env.eq("h is not modified", h, h0)
        env.eq("u is not modified", u, u0)


for spin in (False, True):
    case("C07", "fock-kinds-" + ("general" if spin else "spatial"), dict(l=2, n=1, spin=spin, mix=1),
         samples=6, big=[dict(l=4, n=2)], bounds="l=2, real and complex h, u and buffer (unless a complex matrix would go to a real buffer)")(kinds)


def consistent(env):
    """restricted and general Fock matrices and energies agree"""
    qs = env.mod()
    l, n = env["l"], env["n"]
    bs = make_basis(env, l, 1, cplx=env["cplx"], spf=None, dip=False, s="eye")
    spas = qs.SpatialOrbitalSystem(2 * n, bs)
    gos = spas.construct_general_orbital_system()
    f = spas.construct_fock_matrix(spas.h, spas.u)
    F_ = gos.construct_fock_matrix(gos.h, gos.u)
    env.eq("general Fock matrix is the doubled restricted one", F_, spin_double_one(env, f))
    e1, e2 = 0, 0
    for i in range(n):
        e1 = e1 + spas.h[i, i] + f[i, i]
    for i in range(2 * n):
        e2 = e2 + 0.5 * (gos.h[i, i] + F_[i, i])
    env.eq("restricted energy from the Fock matrix", spas.compute_reference_energy(), e1)
    env.eq("general energy from the Fock matrix", gos.compute_reference_energy(), e2)


for l, n in [(1, 1), (2, 1), (2, 2)]:
    case("C07", "consistency-l%d-n%d" % (l, n), dict(l=l, n=n, cplx=True), big=[dict(l=5, n=2), dict(l=8, n=5)] if n == 1 and l == 2 else [], large=[dict(l=4, n=2)] if n == 1 and l == 2 else (),
         bounds="l=%d, %d doubly occupied" % (l, n))(consistent)
case("C07", "consistency-l3-n2", dict(l=3, n=2, cplx=False), tier="thorough", bounds="l=3", timeout=3000)(consistent)


def hermitian(env):
    """Hermitian h and a Hermitian two-body operator give a Hermitian Fock matrix"""
    qs = env.mod()
    l, n, spin = 2, 1, env["spin"]
    bs = make_basis(env, l, 1, cplx=True, spf=None, dip=False, includes_spin=spin)
    bs.h = env.herm("hh", l)
    a = env.cplx("a", (l,) * 4)
    u = a + a.transpose(2, 3, 0, 1).conj()
    u = u + u.transpose(1, 0, 3, 2)
    bs.u = u
    sys_ = qs.GeneralOrbitalSystem(n, bs) if spin else qs.SpatialOrbitalSystem(2 * n, bs)
    f = sys_.construct_fock_matrix(sys_.h, sys_.u)
    env.eq("Hermitian", f, dagger(f))


case("C07", "hermitian-general", dict(spin=True), bounds="l=2, n=1")(hermitian)
case("C07", "hermitian-spatial", dict(spin=False), bounds="l=2, n=1")(hermitian)


def later(env):
    """matrices handed out earlier keep their values; every call looks at what
    its arguments hold now"""
    qs = env.mod()
    l, n, spin = env["l"], env["n"], env["spin"]
    bs = make_basis(env, l, 1, cplx=True, spf=None, dip=False, includes_spin=spin)
    sys_ = qs.GeneralOrbitalSystem(n, bs, anti_symmetrize=False) if spin else \
        qs.SpatialOrbitalSystem(2 * n, bs)
    h, u = tensor(env, "H", (l, l), True), tensor(env, "U", (l,) * 4, True)
    f = sys_.construct_fock_matrix(h, u)
    want = formula(env, snap(h), snap(u), n, spin)
    kind = env.choice("then", 4)
    if kind == 0:  # other arguments of the same size
        h2, u2 = tensor(env, "H2", (l, l), True), tensor(env, "U2", (l,) * 4, True)
    elif kind == 1:  # the same arrays, changed in place
        h2, u2 = h, u
        z = env.real("z")
        h2 += z
        u2 *= 1 + z
    elif kind == 2:  # the system's own elements, changed in place
        h2, u2 = sys_.h, sys_.u
        sys_.construct_fock_matrix(h2, u2)
        z = env.real("z")
        h2 += z
        u2 *= 1 + z
    else:  # a change of basis in between
        C = tensor(env, "C", (l, l), True)
        sys_.construct_fock_matrix(sys_.h, sys_.u)
        sys_.change_basis(C)
        h2, u2 = sys_.h, sys_.u
    want2 = formula(env, snap(h2), snap(u2), n, spin)
    g = sys_.construct_fock_matrix(h2, u2)
    env.eq("second matrix", g, want2)
    env.eq("first matrix afterwards", f, want)
    g += 1
    env.eq("first matrix after an update of the second", f, want)
    env.eq("third matrix", sys_.construct_fock_matrix(h2, u2), want2)


for spin in (False, True):
    case("C07", "fock-later-" + ("general" if spin else "spatial"), dict(l=2, n=1, spin=spin), samples=6,
         big=[dict(l=4, n=2)], bounds="l=2, two or three calls")(later)
