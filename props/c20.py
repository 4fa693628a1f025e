"""C20: the Coulomb element cache is transparent."""
import io
import os
import shutil
import sys
import tempfile
from fractions import Fraction as F
from .common import *
from . import twodim as td
from .c13 import val

H = "quantum_systems.quantum_dots.two_dim.two_dim_helper"
HO = "quantum_systems.quantum_dots.two_dim.two_dim_ho"
VAR = "QS_CACHE_TDHO"
ASSUMPTIONS = [
    "numpy.save followed by numpy.load of the same file returns the array (symbolic runs keep the array in memory "
    "and put a placeholder on disk); real files in the concrete runs",
    "the first entry of sys.path and the working directory are a scratch directory during a run",
]


class scratch:
    """sys.path[0] and the working directory are an empty directory"""

    def __init__(self, env):
        pass

    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="qs-cache-")
        self.cwd = os.getcwd()
        self.old = os.environ.pop(VAR, None)
        sys.path.insert(0, self.d)
        os.chdir(self.d)
        return self

    def __exit__(self, *a):
        os.chdir(self.cwd)
        if sys.path and sys.path[0] == self.d:
            del sys.path[0]
        os.environ.pop(VAR, None)
        if self.old is not None:
            os.environ[VAR] = self.old
        shutil.rmtree(self.d, ignore_errors=True)

    def files(self):
        return sorted(os.listdir(self.d))


def ref(env, l):
    st = td.states(l)
    out = env.np.zeros((l,) * 4)
    for p in range(l):
        for q in range(l):
            for r in range(l):
                for s in range(l):
                    out[p, q, r, s] = val(env, td.coulomb(st[p], st[q], st[r], st[s]))
    return out


def histories(env):
    """any sequence of requests, cache switched on or off before each"""
    f = env.get(H, "get_coulomb_elements")
    ls = env["ls"]
    with scratch(env):
        for k in range(env["steps"]):
            on = env.choice("cache%d" % k, 2)
            l = ls[env.choice("size%d" % k, len(ls))]
            os.environ.pop(VAR, None)
            if on:  # any value switches the cache on
                os.environ[VAR] = ("1", "0", "")[k % 3] if env.p.get("values") else "1"
            u = f(l, verbose=bool(k % 2)) if env.p.get("values") else f(l)
            env.eq("request %d" % k, u, ref(env, l))
            # what a caller does with its result must not leak into later ones
            u *= env.real("scale%d" % k)


class cheap:
    """symbolic runs: single elements are an arbitrary (cheap) function of the
    quantum numbers; C13 is about their values"""

    def __init__(self, env):
        self.m = env.mod(H) if env.symbolic else None

    def __enter__(self):
        if self.m is not None:
            self.old = getattr(self.m, "coulomb_ho", None)
            self.m.coulomb_ho = lambda *q: 0.25 + sum(int(x) * (i + 1) for i, x in enumerate(q))

    def __exit__(self, *a):
        if self.m is not None and self.old is not None:
            self.m.coulomb_ho = self.old


def sizes(env):
    """histories of two requests, over many sizes"""
    f = env.get(H, "get_coulomb_elements")
    ls = env["ls"]
    with scratch(env), cheap(env):
        os.environ[VAR] = "1"
        a, b = (ls[env.choice("size%d" % k, len(ls))] for k in range(2))
        first = f(a)
        u = f(b)
        env.true("shape", tuple(u.shape) == (b,) * 4)
        zero = env.np.zeros((b,) * 4)
        if a == b:
            env.eq("read back", u - first, zero)
        again = f(b)
        env.eq("read once more", again - u, zero)
        os.environ.pop(VAR)
        env.eq("without the cache", f(b) - u, zero)


def bases(env):
    """basis objects of different frequency and mass share the cache"""
    C = env.get(HO, env["cls"])
    with scratch(env):
        os.environ[VAR] = "1"
        for k in range(env["steps"]):
            l = (1, 2)[env.choice("size%d" % k, 2)]
            w = env.real("omega%d" % k, lo=F(1, 1000), hi=1000)
            m = env.real("mass%d" % k, lo=F(1, 1000), hi=1000)
            b = C(l, 2, 2, omega=w, mass=m)
            env.eq("u %d" % k, b.u, env.np.sqrt(m * w) * ref(env, l))


def off(env):
    """without the variable nothing is read or written"""
    f = env.get(H, "get_coulomb_elements")
    with scratch(env) as sc:
        l = env["l"]
        env.eq("fresh", f(l), ref(env, l))
        env.true("nothing written", sc.files() == [])
        os.environ[VAR] = "1"
        f(l)
        os.environ.pop(VAR)
        before = sc.files()
        for n in before:  # spoil whatever the cache holds
            env.np.save(os.path.join(sc.d, n), env.np.zeros((l,) * 4))
        env.eq("cache ignored when off", f(l), ref(env, l))
        env.true("still nothing written", sc.files() == before)


class Killed(BaseException):
    """the process ends here"""


class killing:
    """numpy.save does only part of its work; then `then()` runs"""

    def __init__(self, env, part, then):
        self.env, self.part, self.then, self.calls = env, part, then, 0

    def __enter__(self):
        np = self.env.np
        self.real = np.save

        def save(file, a, *x, **k):
            self.calls += 1
            if self.part == 0:
                self.then()
            b = io.BytesIO()
            self.real(b, a)
            b = b.getvalue()
            cut = (0, 1, len(b) // 2, len(b))[self.part] if self.part else 0
            own = not hasattr(file, "write")
            if own:
                file = os.fspath(file)
                file = open(file if file.endswith(".npy") else file + ".npy", "wb")
            try:
                file.write(b[:cut])
                file.flush()
                if self.part:
                    self.then()
                file.write(b[cut:])
            finally:
                if own:
                    file.close()

        np.save = save
        return self

    def __exit__(self, *a):
        self.env.np.save = self.real


def crash(env):
    """a process that dies while it fills the cache does no harm to later ones"""
    f = env.get(H, "get_coulomb_elements")
    l = env["l"]

    def die():
        raise Killed()

    with scratch(env):
        os.environ[VAR] = "1"
        if env.choice("another size first", 2):
            f(1)
        with killing(env, env.choice("where", 4), die):
            try:
                u = f(l)
            except Killed:
                pass
            else:
                env.eq("nothing was saved", u, ref(env, l))
        for k in range(2):
            if env.choice("on%d" % k, 2):
                os.environ[VAR] = "1"
            else:
                os.environ.pop(VAR, None)
            env.eq("request %d after the crash" % k, f(l), ref(env, l))


def meanwhile(env):
    """another process asks for the elements while the first one writes them"""
    f = env.get(H, "get_coulomb_elements")
    l = env["l"]
    pid = os.getpid
    with scratch(env):
        os.environ[VAR] = "1"
        seen = []

        def other():
            os.getpid = lambda: pid() + 1
            save, env.np.save = env.np.save, kill.real
            try:
                seen.append(f(l))
            finally:
                os.getpid = pid
                env.np.save = save

        kill = killing(env, env.choice("where", 4), other)
        with kill:
            u = f(l)
        env.eq("first process", u, ref(env, l))
        for v in seen:
            env.eq("second process", v, ref(env, l))
        env.eq("afterwards", f(l), ref(env, l))


for n, ls, t in ((2, (1, 2), "quick"), (3, (1, 2), "quick"), (2, (2, 3), "quick"), (3, (1, 2, 3), "thorough"), (4, (1, 2), "thorough")):
    case("C20", "histories_%d_%s" % (n, "".join(map(str, ls))), dict(steps=n, ls=ls), t,
         "all histories of %d requests of sizes %s, cache on or off at each" % (n, ls), samples=6)(histories)
for c in ("TwoDimensionalHarmonicOscillator", "TwoDimensionalDoubleWell"):
    case("C20", "bases_" + c, dict(cls=c, steps=2), bounds="all pairs of bases of 1 or 2 orbitals, all omega and mass",
         samples=3)(bases)
case("C20", "bases_3", dict(cls="TwoDimensionalHarmonicOscillator", steps=3), "thorough",
     "all triples of bases of 1 or 2 orbitals, all omega and mass", samples=3)(bases)
case("C20", "off", dict(l=2), bounds="2 orbitals", samples=1)(off)
case("C20", "histories_values", dict(steps=3, ls=(1, 2), values=1), bounds="histories of 3 requests, verbose or not, cache variable 1, 0 or empty", samples=6)(histories)
case("C20", "crash", dict(l=2), bounds="2 orbitals, 4 points of the write", samples=6, big=[dict(l=3)])(crash)
case("C20", "meanwhile", dict(l=2), bounds="2 orbitals, 4 points of the write", samples=6, big=[dict(l=3)])(meanwhile)
case("C20", "sizes", dict(ls=(1, 2, 3, 4)), bounds="all pairs of requests of 1 to 4 orbitals", samples=4,
     big=[dict(ls=(1, 10, 12)), dict(ls=(2, 20, 21))])(sizes)
case("C20", "sizes_large", dict(ls=(1, 10, 12)), bounds="all pairs of requests of 1, 10 or 12 orbitals", samples=1)(sizes)
