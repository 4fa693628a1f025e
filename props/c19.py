"""C19: 2D oscillator in a magnetic field (Fock-Darwin states)."""
from fractions import Fraction as F
from .common import *
from . import twodim as td
from .c13 import val
from .c25 import ref as orbital

H = "quantum_systems.quantum_dots.two_dim.two_dim_helper"
HO = "quantum_systems.quantum_dots.two_dim.two_dim_ho"
ASSUMPTIONS = [
    "pandas is replaced by a small table with symbolic cells (sort_values is a stable sort by the given columns)",
    "energies that are not equal differ by at least 1/50000 (the code groups levels within 1e-6)",
    "class-level cases use field strengths omega_c/omega_0 for which the effective frequency is rational, at every scale",
]


GAP = F(1, 50000)


def energy(w, wc, n, m):
    return w * (2 * n + abs(m) + 1) - wc * m / 2


def gaps(env, w, wc, states):
    """degenerate or apart by more than the tolerance of the code"""
    seen = set()
    for i, (n, m) in enumerate(states):
        for k, mm in states[:i]:
            a, b = 2 * n + abs(m) - 2 * k - abs(mm), m - mm
            if a < 0 or (a == 0 and b < 0):
                a, b = -a, -b
            if (a, b) in seen or (a == 0 and b == 0):
                continue
            seen.add((a, b))
            d = w * a - wc * b / 2
            if env.symbolic:
                env.assume((d == 0) | (d >= GAP) | (d <= -GAP))
            else:
                if 1e-9 < abs(d) < float(GAP):
                    env.assume(False)


def shell(env):
    """energy of a state for all quantum numbers and frequencies"""
    f = env.get(H, "get_shell_energy_B")
    n, m = env.int("n", 0), env.int("m")
    w, wc = env.real("omega"), env.real("omega_c")
    env.eq("E", f(n, m, omega_c=wc, omega=w), energy(w, wc, n, m))
    env.eq("no field", f(n, m, omega=w), w * (2 * n + abs(m) + 1))


def table(env):
    """rows ascend in energy and no omitted state lies below them"""
    f = env.get(H, "construct_dataframe")
    ns = list(range(env["n"]))
    ms = list(range(env["m0"], env["m1"] + 1))
    w = env.real("omega", lo=F(1, 2), hi=2)
    wc = env.real("omega_c", lo=env["c0"], hi=env["c1"])
    env.assume(wc < 2 * w)
    env.assume(-wc < 2 * w)
    st = [(n, m) for n in ns for m in ms]
    gaps(env, w, wc, st)
    df = f(env.np.array(ns), env.np.array(ms), omega_c=wc, omega=w)
    rows = []
    last = None
    for p in range(len(df)):
        n, m = (int(x) for x in df.loc[p, ["n", "m"]].values)
        env.true("row %d is a state" % p, (n, m) in st)
        env.true("row %d is new" % p, (n, m) not in rows)
        rows.append((n, m))
        e = energy(w, wc, n, m)
        env.eq("E %d" % p, df.loc[p, "E"], e)
        if last is not None:
            env.le("ascending %d" % p, last, e)
        last = e
    env.true("enough rows", len(rows) > len(ns) * (len(ns) - 1) // 2)
    lv = [int(df.loc[p, "level"]) for p in range(len(rows))]
    env.true("levels start at zero", lv[0] == 0)
    for p, (n, m) in enumerate(rows):
        e = energy(w, wc, n, m)
        if p:
            d = e - energy(w, wc, *rows[p - 1])
            same = bool(d < GAP / 2) if env.symbolic else d < 1e-6
            env.true("level %d" % p, lv[p] == lv[p - 1] + (0 if same else 1))
        env.true("degeneracy %d" % p, int(df.loc[p, "degeneracy"]) == lv.count(lv[p]))
    for n, m in st:
        if (n, m) not in rows:
            env.le("omitted %d,%d" % (n, m), last, energy(w, wc, n, m))
            env.true("levels are complete", energy(w, wc, n, m) - last > (GAP / 2 if env.symbolic else 1e-6))


PYT = {"none": (1, 0, 1), "weak": (12, 10, 13), "mid": (4, 6, 5), "strong": (3, 8, 5),
       "neg": (4, -6, 5), "vstrong": (5, 24, 13), "huge": (20, 198, 101), "neghuge": (20, -198, 101),
       "faint": (2499, 200, 2501), "negfaint": (2499, -200, 2501)}


def basis(env):
    """the basis holds the l lowest states; all elements belong to them"""
    C = env.get(HO, "TwoDimHarmonicOscB")
    l = env["l"]
    a, b, c = PYT[env["field"]]
    s = env.real("scale", lo=F(1, 8), hi=2)
    mass = env.real("mass", lo=F(1, 4), hi=4) if env.p.get("mass", True) else 1
    R = env.real("R", lo=F(1, 2), hi=2)
    w0, wc, w = (s * x for x in ((F(a), F(b), F(c)) if env.symbolic else (a, b, c)))
    kw = dict(mass=mass) if env.p.get("mass", True) else {}
    if b:
        kw["omega_c"] = wc
    bs = C(l, R, env["ng"], omega=w0, np=env.np, **kw)
    env.eq("effective frequency", bs.omega, w)
    env.eq("s", bs.s, env.np.eye(l))
    q = [bs.get_indices_nm(p) for p in range(l)]
    env.true("distinct", len(set(q)) == l and all(n >= 0 for n, m in q))
    h = env.np.zeros((l, l), dtype=complex)
    last = None
    for p, (n, m) in enumerate(q):
        e = w * (2 * n + abs(m) + 1) - wc * m / 2
        h[p, p] = e
        if last is not None:
            env.le("ascending %d" % p, last, e)
        last = e
    env.eq("h", bs.h, h)
    # every other state is at least as high: only |m|, n up to l matter (see below)
    for n in range(l + 1):
        for m in range(-l - 1, l + 2):
            if (n, m) not in q:
                env.le("lowest", last, w * (2 * n + abs(m) + 1) - wc * m / 2)
    u = env.np.zeros((l,) * 4, dtype=complex)
    for i in range(l):
        for j in range(l):
            for r in range(l):
                for t in range(l):
                    u[i, j, r, t] = env.np.sqrt(mass * w) * val(env, td.coulomb(q[i], q[j], q[r], q[t]))
    env.eq("u", bs.u, u)
    ng = env["ng"]
    for p, (n, m) in enumerate(q):
        for i in range(ng):
            for j in range(ng):
                r, th = R * j / (ng - 1), 2 * env.np.pi * i / (ng - 1)
                env.eq("spf[%d]" % p, bs.spf[p, i, j], orbital(env, n, m, r, th, w, mass))
    d = env.np.zeros((2, l, l), dtype=complex)
    for i in range(l):
        for j in range(l):
            nn = td.norm2(*q[i]) * td.norm2(*q[j])
            z = td.moment(q[i], q[j], 1, 0)
            zb = td.moment(q[i], q[j], 0, 1)
            f = env.np.sqrt(nn) if env.symbolic else float(nn) ** 0.5
            f = f / env.np.sqrt(mass * w) / 2
            if not env.symbolic:
                z, zb = float(z), float(zb)
            d[0, i, j] = f * (z + zb)
            d[1, i, j] = f * (z - zb) * (-1j)
    env.eq("dipole", bs.dipole_moment, d)


case("C19", "shell", {}, bounds="all integers n >= 0, m and all frequencies", samples=6)(shell)
T = "all frequencies omega in [1/2,2] and fields within the window"
for n, m0, m1, c0, c1, t in ((1, -2, 3, -4, 4, "quick"), (1, -3, 3, 0, 4, "quick"), (2, -1, 2, -4, 0, "quick"),
                             (2, -1, 2, 0, 4, "quick"), (2, -3, 3, 0, 2, "quick"), (2, -3, 3, 2, 4, "quick"),
                             (2, -3, 3, -4, 0, "thorough"), (3, -2, 2, 0, 4, "quick"), (1, -6, 6, 0, 4, "thorough")):
    case("C19", "table_n%d_m%d_%d_c%d_%d" % (n, m0, m1, c0, c1), dict(n=n, m0=m0, m1=m1, c0=c0, c1=c1), t,
         "n < %d, m in [%d,%d], omega_c in [%d,%d]; %s" % (n, m0, m1, c0, c1, T), samples=4, timeout=800,
         max_paths=20000)(table)
for k in list(PYT)[:7]:
    case("C19", "basis_l2_" + k, dict(l=2, ng=2, field=k), "quick" if k in ("none", "mid", "strong", "neg") else "thorough",
         "2 orbitals, omega_c/omega_0 = %s, all scales and masses" % F(PYT[k][1], PYT[k][0]), samples=1,
         big=[dict(l=4)] if k in ("weak", "strong") else [], timeout=800,
         again=dict(field="strong", l=1) if k == "mid" else None)(basis)
    case("C19", "basis_l3_" + k, dict(l=3, ng=2, field=k), "quick" if k in ("weak", "neg", "huge") else "thorough",
         "3 orbitals, omega_c/omega_0 = %s, all scales and masses" % F(PYT[k][1], PYT[k][0]), samples=1, timeout=2000)(basis)

for l, k in ((4, "huge"), (4, "weak"), (5, "strong"), (6, "none"), (6, "huge")):
    case("C19", "basis_l%d_%s" % (l, k), dict(l=l, ng=2, field=k), "thorough",
         "%d orbitals, omega_c/omega_0 = %s, all scales and masses" % (l, F(PYT[k][1], PYT[k][0])), samples=1,
         timeout=2500)(basis)


def free(env):
    """every field strength: energies ascend, belong to the states, are the lowest"""
    C = env.get(HO, "TwoDimHarmonicOscB")
    l = env["l"]
    w0 = env.real("omega_0", lo=F(1, 2), hi=2)
    wc = env.real("omega_c", lo=env["c0"], hi=env["c1"])
    w = env.np.sqrt(w0 ** 2 + wc ** 2 / 4)
    gaps(env, w, wc, [(n, m) for n in range(l) for m in range(-l - 5, l + 6)])
    bs = C(l, 1, 2, omega=w0, omega_c=wc, np=env.np)
    q = [bs.get_indices_nm(p) for p in range(l)]
    env.true("distinct", len(set(q)) == l)
    last = None
    for p, (n, m) in enumerate(q):
        e = energy(w, wc, n, m)
        env.eq("h %d" % p, bs.h[p, p], e)
        if last is not None:
            env.le("ascending %d" % p, last, e)
        last = e
    for n in range(l + 1):
        for m in range(-l - 1, l + 2):
            if (n, m) not in q:
                env.le("lowest", last, energy(w, wc, n, m))


for c0, c1 in ((-4, 0), (0, 4)):
    case("C19", "free_l1_c%d_%d" % (c0, c1), dict(l=1, c0=c0, c1=c1), bounds="1 orbital, omega_0 in [1/2,2], omega_c in [%d,%d]" % (c0, c1), samples=3)(free)
for c0 in range(-4, 4):
    case("C19", "free_l2_c%d_%d" % (c0, c0 + 1), dict(l=2, c0=c0, c1=c0 + 1), "thorough", bounds="2 orbitals, omega_0 in [1/2,2], omega_c in [%d,%d]" % (c0, c0 + 1), samples=3, timeout=3000)(free)


def states(env):
    """more states: which ones are held (Coulomb elements, orbitals and dipole
    elements, decided above, are left out)"""
    mod = env.mod(HO)
    C0 = mod.TwoDimHarmonicOscB
    l = env["l"]
    a, b, c = PYT[env["field"]]
    s = env.real("scale", lo=F(1, 8), hi=2)
    w0, wc, w = (s * x for x in ((F(a), F(b), F(c)) if env.symbolic else (a, b, c)))

    class C(C0):
        def setup_spf(self):
            self._spf = env.np.zeros((self.l, 2, 2), dtype=env.np.complex128)

        def construct_dipole_moment(self):
            self._dipole_moment = env.np.zeros((2, self.l, self.l), dtype=env.np.complex128)

    old = getattr(mod, "get_coulomb_elements_B", None)
    if old is not None:
        mod.get_coulomb_elements_B = lambda n, *a, **k: env.np.zeros((2, 2, 2, 2))
    try:
        bs = C(l, 1, 2, omega=w0, omega_c=wc, np=env.np)
    finally:
        if old is not None:
            mod.get_coulomb_elements_B = old
    q = [tuple(int(x) for x in bs.get_indices_nm(p)) for p in range(l)]
    env.true("distinct", len(set(q)) == l and all(n >= 0 for n, m in q))
    last = None
    for p, (n, m) in enumerate(q):
        e = energy(w, wc, n, m)
        env.eq("h %d" % p, bs.h[p, p], e)
        if last is not None:
            env.le("ascending %d" % p, last, e)
        last = e
    for n in range(l + 1):
        for m in range(-2 * l - 1, 2 * l + 2):
            if (n, m) not in q:
                env.le("lowest", last, energy(w, wc, n, m))


for l, k, t in ((7, "neghuge", "quick"), (8, "huge", "quick"), (10, "vstrong", "thorough"), (12, "neghuge", "thorough"), (12, "huge", "thorough"),
                (5, "faint", "quick"), (5, "negfaint", "quick"), (10, "none", "quick"), (8, "faint", "thorough")):
    case("C19", "states_l%d_%s" % (l, k), dict(l=l, field=k), t,
         "%d states, omega_c/omega_0 = %s, all scales" % (l, F(PYT[k][1], PYT[k][0])), samples=1, big=[dict(l=13)] + ([dict(l=15), dict(l=22)] if "faint" in k else []), timeout=2000)(states)
