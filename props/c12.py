"""C12: the single index of the 2D oscillator enumerates its states."""
from .common import *

H = "quantum_systems.quantum_dots.two_dim.two_dim_helper"
ASSUMPTIONS = [
    "p, n and m are symbolic integers; loops over shells are unrolled up to the stated bound",
]


def tri(s):
    return s * (s + 1) // 2


def forward(env):
    """p -> (n, m): a valid state of the right shell, in order of m, inverted by
    the reverse map"""
    m_ = env.mod(H)
    p = env.int("p", 0, env["pmax"])
    n, m = m_.get_indices_nm(p)
    s = 2 * n + abs(m)
    env.true("n is not negative", n >= 0)
    env.true("shell starts at or before p", s * (s + 1) <= 2 * p)
    env.true("shell ends after p", 2 * p < (s + 1) * (s + 2))
    env.eq("position in the shell follows m", 2 * p, s * (s + 1) + m + s)
    env.eq("inverse", m_.get_index_p(n, m), p)
    env.eq("energy", m_.get_shell_energy(n, m), s + 1)


def backward(env):
    """(n, m) -> p, inverted by the forward map"""
    m_ = env.mod(H)
    s = env.choice("quanta", env["smax"] + 1)  # one path per shell
    n = env.int("n", 0, s // 2)
    m = s - 2 * n
    if env.choice("sign", 2):
        m = -m
    p = m_.get_index_p(n, m)
    env.eq("index", 2 * p, s * (s + 1) + m + s)
    n2, m2 = m_.get_indices_nm(p)
    env.eq("n", n2, n)
    env.eq("m", m2, m)


def distinct(env):
    """different states have different indices and vice versa"""
    m_ = env.mod(H)
    b = env["smax"]
    n, n2 = env.int("n", 0, b), env.int("n2", 0, b)
    m, m2 = env.int("m", -b, b), env.int("m2", -b, b)
    env.assume(2 * n + abs(m) <= b)
    env.assume(2 * n2 + abs(m2) <= b)
    p, q = m_.get_index_p(n, m), m_.get_index_p(n2, m2)
    same = (n == n2) & (m == m2)
    env.true("injective", (p == q) == same)


case("C12", "forward", dict(pmax=90), bounds="0 <= p <= 90 (13 shells)", samples=12, big=[dict(pmax=2000)])(forward)
case("C12", "backward", dict(smax=10), bounds="2n+|m| <= 10", samples=12, big=[dict(smax=60)])(backward)
case("C12", "distinct", dict(smax=3), bounds="2n+|m| <= 3", samples=12, big=[dict(smax=30)])(distinct)
case("C12", "forward-deep", dict(pmax=33929), bounds="0 <= p <= 33929 (260 shells)", timeout=600, max_paths=20000)(forward)
case("C12", "backward-deep", dict(smax=260), bounds="2n+|m| <= 260", timeout=600, max_paths=20000)(backward)
case("C12", "forward-deeper", dict(pmax=125249), tier="thorough", bounds="0 <= p <= 125249 (500 shells)", timeout=3000, max_paths=20000)(forward)
case("C12", "backward-deeper", dict(smax=400), tier="thorough", bounds="2n+|m| <= 400", timeout=3000, max_paths=20000)(backward)
case("C12", "distinct-deep", dict(smax=7), tier="thorough", bounds="2n+|m| <= 7", timeout=3000, max_paths=20000)(distinct)


def energies(env):
    """shell energy for every n and m; one-body elements are the sorted shell
    energies on the diagonal"""
    m_ = env.mod(H)
    n, m = env.int("n", 0), env.int("m")
    env.eq("shell energy", m_.get_shell_energy(n, m), 2 * n + abs(m) + 1)
    l = env["l"]
    h = m_.get_one_body_elements(l)
    env.true("shape", tuple(h.shape) == (l, l))
    k, s = 0, 0
    for p in range(l):
        while p >= tri(s + 1):
            s += 1
        for q in range(l):
            env.eq("h[%d,%d]" % (p, q), h[p, q], s + 1 if p == q else 0)


case("C12", "energies", dict(l=8), bounds="all n >= 0, m; l = 8", big=[dict(l=28)])(energies)


def oscillator(env):
    """the oscillator basis: h = omega * shell energies, orthonormal, sorted"""
    T = env.get("quantum_systems.quantum_dots.two_dim.two_dim_ho", "TwoDimensionalHarmonicOscillator")
    w, mass = env.real("omega", pos=True), env.real("mass", pos=True)
    l = env["l"]
    t = T(l, 4, 2, omega=w, mass=mass)
    s = 0
    for p in range(l):
        while p >= tri(s + 1):
            s += 1
        for q in range(l):
            env.eq("h[%d,%d]" % (p, q), t.h[p, q], w * (s + 1) if p == q else 0)
            env.eq("s[%d,%d]" % (p, q), t.s[p, q], 1 if p == q else 0)
    env.eq("l", t.l, l)
    env.eq("dim", t.dim, 2)
    env.true("no spin", not t.includes_spin and not t.anti_symmetrized_u)


case("C12", "oscillator", dict(l=3), bounds="l=3, every omega and mass > 0", big=[dict(l=6)], again=dict(l=2))(oscillator)
