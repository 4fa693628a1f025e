"""Shared builders and reference formulas for the property harnesses."""
from symex.harness import case, Skip  # noqa: F401

REFUSED = (AssertionError, ValueError, TypeError)


def whole(env, shape):
    """an array of whole numbers with an integer dtype (fixed values)"""
    n = 1
    for x in shape:
        n *= x
    return env.np.array([(3 * i * i + 5 * i + 1) % 7 - 3 for i in range(n)]).reshape(shape)


def tensor(env, name, shape, cplx):
    mix = env.p.get("mix")  # arrays that are real or complex, independently
    if mix and (mix == 1 or name in mix):
        k = env.choice("kind " + name, 3 if env.p.get("ints") else 2)
        if k == 2:
            return whole(env, shape)
        cplx = bool(k)
    return env.cplx(name, shape) if cplx else env.real(name, shape)


def make_basis(env, l, dim=1, cplx=True, spf=(2,), dip=True, s=None, bra=False,
               includes_spin=False, pre="", u=True, cls="BasisSet", **kw):
    """BasisSet filled with arbitrary elements through the public setters."""
    BS = getattr(env.mod(), cls)
    bs = BS(l, dim, np=env.np, includes_spin=includes_spin, **kw)
    bs.h = tensor(env, pre + "h", (l, l), cplx)
    if s is None:
        bs.s = tensor(env, pre + "s", (l, l), cplx)
    elif s == "eye":
        bs.s = env.np.eye(l)
    elif s == "none":
        pass
    else:
        bs.s = s
    if u:
        bs.u = tensor(env, pre + "u", (l,) * 4, cplx)
    if dip:
        bs.dipole_moment = tensor(env, pre + "d", (dim, l, l), cplx)
    if spf:
        sh = (l,) + tuple(spf)[:dim] if len(spf) >= dim else (l,) + tuple(spf) * dim
        bs.spf = tensor(env, pre + "phi", sh, cplx)
        if bra:
            bs.bra_spf = tensor(env, pre + "bra", sh, cplx)
    return bs


def one_body(env, h, C, Ct):
    """sum_ab Ct[p,a] h[a,b] C[b,q]"""
    return env.np.einsum("pa,ab,bq->pq", Ct, h, C, optimize=True)


def two_body(env, u, C, Ct):
    return env.np.einsum("pa,qb,abcd,cr,ds->pqrs", Ct, Ct, u, C, C, optimize=True)


def dagger(C):
    return C.conj().T


def spin_double_one(env, h):
    """<p s|h|q t> = h_pq delta_st with spin-orbital index 2p+s"""
    l = h.shape[0]
    out = env.np.zeros((2 * l, 2 * l), dtype=complex)
    for p in range(l):
        for q in range(l):
            for s in range(2):
                out[2 * p + s, 2 * q + s] = h[p, q]
    return out


def spin_double_two(env, u):
    """<ps qt|u|ru sv> = u_pqrs delta_su delta_tv"""
    l = u.shape[0]
    out = env.np.zeros((2 * l,) * 4, dtype=complex)
    for p in range(l):
        for q in range(l):
            for r in range(l):
                for s in range(l):
                    for a in range(2):
                        for b in range(2):
                            out[2 * p + a, 2 * q + b, 2 * r + a, 2 * s + b] = u[p, q, r, s]
    return out


def antisym(u):
    return u - u.transpose(0, 1, 3, 2)


def snap(x):
    return None if x is None else x.copy()


def spin_frame(env, name="q"):
    """Arbitrary orthonormal pair (a, b): columns of a U(2) matrix built from a
    unit quaternion and a phase (cos, sin)."""
    w, x, y, z = env.unit(name, 4)
    c, s = env.unit(name + "ph", 2)
    a = [w + 1j * z, y + 1j * x]
    b0 = [-(y - 1j * x), w - 1j * z]
    ph = c + 1j * s
    b = [ph * b0[0], ph * b0[1]]
    return a, b


PAULI = (
    ((0, 1), (1, 0)),
    ((0, -1j), (1j, 0)),
    ((1, 0), (0, -1)),
)


def pauli_in(env, a, b):
    """<rho|sigma_i|gamma> for rho, gamma in (a, b)"""
    out = []
    for M in PAULI:
        m = env.np.zeros((2, 2), dtype=complex)
        for i, s in enumerate((a, b)):
            for j, t in enumerate((a, b)):
                v = 0
                for k in range(2):
                    for n in range(2):
                        if M[k][n] != 0:
                            v = v + s[k].conjugate() * M[k][n] * t[n]
                m[i, j] = v
        out.append(m)
    return out


def kron2(env, A, B):
    """A_pq B_st at (2p+s, 2q+t)"""
    l = A.shape[0]
    out = env.np.zeros((2 * l, 2 * l), dtype=complex)
    for p in range(l):
        for q in range(l):
            for s in range(2):
                for t in range(2):
                    out[2 * p + s, 2 * q + t] = A[p, q] * B[s, t]
    return out


def poly_of_time(env, name, cplx=False):
    """an arbitrary quadratic polynomial of time"""
    c0, c1, c2 = (env.real("%s%d" % (name, i)) for i in range(3))
    if cplx:
        c1 = c1 + 1j * env.real(name + "i")
    return lambda t: c0 + c1 * t + c2 * t * t


def drive(env, s, pre="", kind=None):
    """set one of the time-evolution operators on a system; returns its kind and
    the Hamiltonians it stands for: h(t) from (t, h, d) and u(t) from (t, u)"""
    m = env.mod("quantum_systems.time_evolution_operators")
    if kind is None:
        kind = ("none", "laser", "switch", "custom")[env.choice(pre + "operator", 4)]
    same_h, same_u = (lambda t, h, d: h), (lambda t, u: u)
    if kind == "none":
        return kind, same_h, same_u
    E = poly_of_time(env, pre + "E")
    if kind == "laser":
        s.set_time_evolution_operator(m.LaserField(E))
        return kind, (lambda t, h, d: h + E(t) * d[0]), same_u
    if kind == "switch":
        s.set_time_evolution_operator(m.AdiabaticSwitching(E))
        return kind, same_h, (lambda t, u: E(t) * u)
    A = tensor(env, pre + "A", tuple(s.h.shape), env.p.get("cplx", True))
    A0 = snap(A)
    s.set_time_evolution_operator(m.CustomOneBodyOperator(E, A))
    return kind, (lambda t, h, d: h + E(t) * A0), same_u
