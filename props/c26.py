"""C26: any history of operations on a basis or a system composes."""
from fractions import Fraction as F
from .common import *

ASSUMPTIONS = [
    "floating-point arithmetic is modelled as exact real/complex arithmetic",
    "histories of at most 3 (quick) or 4 (thorough) operations, chosen by symbolic variables",
]


class Model:
    """what every quantity has to be"""

    def __init__(self, env, bs, bra):
        self.env = env
        self.l = bs.h.shape[0]
        self.h, self.s, self.u = snap(bs.h), snap(bs.s), snap(bs.u)
        self.d = [snap(x) for x in bs.dipole_moment]
        self.f = snap(bs.spf)
        self.g = bra if bra is not None else self.f.conj()
        self.sp = None
        self.tb = None
        self.spin = self.anti = False

    def twin(self):
        m = object.__new__(Model)
        m.__dict__.update(self.__dict__)
        return m

    def change(self, C, T):
        e = self.env
        self.h, self.s, self.u = one_body(e, self.h, C, T), one_body(e, self.s, C, T), two_body(e, self.u, C, T)
        self.d = [one_body(e, x, C, T) for x in self.d]
        self.f = e.np.einsum("ap,ax->px", C, self.f)
        self.g = e.np.einsum("pa,ax->px", T, self.g)
        if self.spin:
            self.sp = [one_body(e, x, C, T) for x in self.sp]
            self.tb = two_body(e, self.tb, C, T)
        self.l = C.shape[1]

    def double(self, a, b):
        e = self.env
        pm = pauli_in(e, a, b)
        self.sp = [kron2(e, self.s, m) / 2 for m in pm]
        self.tb = sum(e.np.einsum("pr,qs->pqrs", x, x) for x in self.sp)
        self.h, self.s, self.u = spin_double_one(e, self.h), spin_double_one(e, self.s), spin_double_two(e, self.u)
        self.d = [spin_double_one(e, x) for x in self.d]
        for k in "fg":
            x = getattr(self, k)
            y = e.np.zeros((2 * self.l,) + tuple(x.shape[1:]), dtype=complex)
            for p in range(self.l):
                for q in range(2):
                    y[2 * p + q] = x[p]
            setattr(self, k, y)
        self.l *= 2
        self.spin = True

    def antisym(self):
        if not self.anti:
            self.u = antisym(self.u)
            if self.spin:
                self.tb = antisym(self.tb)
            self.anti = True

    def agree(self, what, x):
        e = self.env
        e.true(what + "l", x.l == self.l)
        e.eq(what + "h", x.h, self.h)
        e.eq(what + "s", x.s, self.s)
        e.eq(what + "u", x.u, self.u)
        e.true(what + "dipole components", len(x.dipole_moment) == len(self.d))
        for i, y in enumerate(self.d):
            e.eq(what + "dipole", x.dipole_moment[i], y)
        e.eq(what + "orbitals", x.spf, self.f)
        e.eq(what + "dual orbitals", x.bra_spf, self.g)
        if self.spin:
            for n, y in zip("xyz", self.sp):
                e.eq(what + "spin_" + n, getattr(x, "spin_" + n), y)
            e.eq(what + "spin_2_tb", x.spin_2_tb, self.tb)


def matrix(env, name, l, k):
    """one arbitrary entry, fixed others (arbitrary matrices: C01)"""
    C = env.np.zeros((l, k), dtype=complex)
    for i in range(l):
        for j in range(k):
            C[i, j] = (0, 1, 2, 0, -1, 1j, 0)[(3 * i + 5 * j + len(name) + ord(name[-1])) % 7]
    C[0, 0] = (env.cplx if env["cplx"] else env.real)(name)
    return C


def basis(env):
    """histories on a basis; copies made on the way keep the state they were made in"""
    l = env["l"]
    bra = env.p.get("bra")
    bs = make_basis(env, l, 1, cplx=env["cplx"], spf=(env.p.get("grid", 1),), bra=bool(bra))
    m = Model(env, bs, snap(bs.bra_spf) if bra else None)
    frame = spin_frame(env) if env.p.get("frame") else ([1, 0], [0, 1])
    left = []
    for k in range(env["steps"]):
        op = env.choice("op%d" % k, 7)
        if op == 0:
            C = matrix(env, "C%d" % k, m.l, m.l)
            T = dagger(C)
            bs.change_basis(C)
            m.change(C, T)
        elif op == 1:
            n = max(1, m.l - 1)
            C, T = matrix(env, "C%d" % k, m.l, n), dagger(matrix(env, "T%d" % k, m.l, n))
            bs.change_basis(C, C_tilde=T)
            m.change(C, T)
        elif op == 2:
            if m.spin or m.anti:
                # doubling again does nothing; doubling anti-symmetrised spatial elements is outside the claim
                env.assume(False)
            anti = bool(env.choice("anti%d" % k, 2))
            bs.change_to_general_orbital_basis(a=frame[0], b=frame[1], anti_symmetrize=anti)
            m.double(*frame)
            if anti:
                m.antisym()
        elif op == 3:
            bs.anti_symmetrize_two_body_elements()
            m.antisym()
        elif op == 4:
            c = bs.copy_basis()
            left.append((bs, m.twin()))
            bs = c
        elif op == 5:
            bs.cast_to_complex()
        elif op == 6:
            bs.change_module(env.np)
    m.agree("", bs)
    env.true("flag", bool(bs.anti_symmetrized_u) == m.anti and bool(bs.includes_spin) == m.spin)
    for i, (b, mm) in enumerate(left):
        mm.agree("left behind %d: " % i, b)


def fock(env, m, occ, general):
    o = slice(0, occ)
    if general:
        return m.h + env.np.einsum("piqi->pq", m.u[:, o, :, o])
    return m.h + 2 * env.np.einsum("piqi->pq", m.u[:, o, :, o]) - env.np.einsum("piiq->pq", m.u[:, o, o, :])


def energy(env, m, occ, general):
    e = 0
    for i in range(occ):
        e = e + (1 if general else 2) * m.h[i, i]
        for j in range(occ):
            if general:
                e = e + m.u[i, j, i, j] / 2
            else:
                e = e + 2 * m.u[i, j, i, j] - m.u[i, j, j, i]
    return e


def system(env):
    """histories on a system: every observable belongs to the current basis"""
    l, n = env["l"], env["n"]
    qs = env.mod()
    bs = make_basis(env, l, 1, cplx=env["cplx"], spf=(1,))
    m = Model(env, bs, None)
    sy = qs.SpatialOrbitalSystem(n, bs)
    general, occ = False, n // 2
    t = env.real("t")
    E = env.real("E")
    te = None
    left = []

    def look(what, x, mm, gen, oc, op, fast):
        if fast:
            # asked between the operations: answers must not go stale afterwards
            env.eq(what + "h_t", x.h_t(t), mm.h + E * t * mm.d[0] if op == "laser" else mm.h)
            env.eq(what + "u_t", x.u_t(t), E * t * mm.u if op == "switch" else mm.u)
            env.eq(what + "energy", x.compute_reference_energy(), energy(env, mm, oc, gen))
            env.eq(what + "fock", x.construct_fock_matrix(x.h, x.u), fock(env, mm, oc, gen))
            return
        mm.agree(what, x)
        env.true(what + "ranges", x.n == oc and x.o == slice(0, oc) and x.v == slice(oc, mm.l) and x.m == mm.l - oc)
        env.eq(what + "energy", x.compute_reference_energy(), energy(env, mm, oc, gen))
        F_ = fock(env, mm, oc, gen)
        env.eq(what + "fock", x.construct_fock_matrix(x.h, x.u), F_)
        env.eq(what + "h_t", x.h_t(t), mm.h + E * t * mm.d[0] if op == "laser" else mm.h)
        env.eq(what + "u_t", x.u_t(t), E * t * mm.u if op == "switch" else mm.u)
        env.eq(what + "h afterwards", x.h, mm.h)
        env.eq(what + "u afterwards", x.u, mm.u)

    for k in range(env["steps"]):
        op = env.choice("op%d" % k, 6)
        if op == 0:
            C = matrix(env, "C%d" % k, m.l, m.l)
            sy.change_basis(C)
            m.change(C, dagger(C))
        elif op == 1:
            w = m.l - 1
            env.assume(w >= occ)
            C, T = matrix(env, "C%d" % k, m.l, w), dagger(matrix(env, "T%d" % k, m.l, w))
            sy.change_basis(C, T)
            m.change(C, T)
        elif op == 2:
            if general:
                env.assume(False)
            g = sy.construct_general_orbital_system()
            left.append((sy, m.twin(), general, occ, te))
            sy = g
            m.double([1, 0], [0, 1])
            m.antisym()
            general, occ = True, 2 * occ
        elif op == 3:
            c = sy.copy_system()
            left.append((sy, m.twin(), general, occ, te))
            sy = c
        elif op == 4:
            te = "laser"
            sy.set_time_evolution_operator(env.get(
                "quantum_systems.time_evolution_operators", "LaserField")(lambda time: E * time))
        elif op == 5:
            te = "switch"
            sy.set_time_evolution_operator(env.get(
                "quantum_systems.time_evolution_operators", "AdiabaticSwitching")(lambda time: E * time))
        if env.p.get("ask"):
            look("step %d: " % k, sy, m, general, occ, te, True)
    for i, (x, mm, gen, oc, op) in enumerate(left + [(sy, m, general, occ, te)]):
        look("" if i == len(left) else "left behind %d: " % i, x, mm, gen, oc, op, False)


case("C26", "basis-l1", dict(l=1, steps=3, cplx=True, grid=2), bounds="3 operations, 1 spatial orbital, arbitrary elements",
     samples=8, big=[dict(l=3, steps=5), dict(l=5, steps=4)])(basis)
case("C26", "basis-l1-dual", dict(l=1, steps=3, cplx=True, bra=1), bounds="3 operations, independent dual orbitals",
     samples=4)(basis)
case("C26", "basis-l2", dict(l=2, steps=2, cplx=False), bounds="2 operations, 2 spatial orbitals, real elements",
     samples=8, big=[dict(l=3, steps=5)], timeout=400)(basis)
case("C26", "basis-frame", dict(l=1, steps=2, cplx=True, frame=1), bounds="2 operations, every spin frame", samples=4)(basis)
case("C26", "basis-l1-4", dict(l=1, steps=4, cplx=True), "thorough", "4 operations, 1 spatial orbital", samples=8,
     timeout=3000, max_paths=20000)(basis)
case("C26", "basis-l2-3", dict(l=2, steps=3, cplx=False), "thorough", "3 operations, 2 spatial orbitals", samples=8,
     timeout=3000, max_paths=20000)(basis)
case("C26", "system-l1", dict(l=1, n=2, steps=3, cplx=True), bounds="3 operations, 1 spatial orbital, arbitrary elements",
     samples=8, big=[dict(l=4, n=4, steps=5), dict(l=6, n=8, steps=3)])(system)
case("C26", "system-l1-asked", dict(l=1, n=2, steps=3, cplx=True, ask=1), bounds="3 operations, 1 spatial orbital, every observable evaluated after each operation",
     samples=8, big=[dict(l=4, n=4, steps=5), dict(l=6, n=8, steps=3)])(system)
case("C26", "system-l2-asked", dict(l=2, n=2, steps=2, cplx=False, ask=1), bounds="2 operations, 2 spatial orbitals, real elements, evaluated after each operation",
     samples=8, timeout=400)(system)
case("C26", "system-l2", dict(l=2, n=2, steps=2, cplx=False), bounds="2 operations, 2 spatial orbitals, real elements",
     samples=8, timeout=400)(system)
case("C26", "system-l1-4", dict(l=1, n=2, steps=4, cplx=True), "thorough", "4 operations, 1 spatial orbital", samples=8,
     timeout=3000, max_paths=20000)(system)
case("C26", "system-l2-3", dict(l=2, n=2, steps=3, cplx=False), "thorough", "3 operations, 2 spatial orbitals", samples=8,
     timeout=3000, max_paths=20000)(system)
