"""C22: sample collection."""
import os
import tempfile

from .common import *

ASSUMPTIONS = [
    "samplers record symbolic values; the array module's save is replaced by a recorder (what is written, and under which name, is checked; the file format is numpy's)",
    "bounds: up to 3 samplers and 3 steps at symbolic times, container kinds list/tuple/generator",
]


class Rec:
    def __init__(self):
        self.saved = []

    def save(self, name, data, *a, **k):
        self.saved.append((name, dict(data)))


def collect(env):
    """every sampler sees every step once, in order; dump merges all samples"""
    m = env.mod("quantum_systems.sampler")
    np_ = Rec()
    ns = env["ns"]
    log = []

    class S(m.Sampler):
        def __init__(self, i, w):
            class Solver:
                system = object()

            super().__init__(Solver(), 3, np_)
            self.i, self.w, self.got = i, w, []

        def sample(self, step):
            log.append((self.i, step))
            self.got.append(self.w * step)

        def dump(self, samples):
            if env.p.get("new"):
                samples = dict(samples)
            samples["s%d" % self.i] = list(self.got)
            samples["last"] = self.i
            return samples

    ss = [S(i, env.real("w%d" % i)) for i in range(ns)]
    kind = env.choice("kind", 3)
    cont = ss if kind == 0 else tuple(ss) if kind == 1 else (s for s in ss)
    cls = "SampleCollector"
    if env.p.get("derived"):
        class EnergyCollector(m.SampleCollector):
            def __init__(self, samplers):
                super().__init__(samplers, np_)

        c, cls = EnergyCollector(cont), "EnergyCollector"
    else:
        c = m.SampleCollector(cont, np_)
    steps = [env.real("t%d" % i) for i in range(env["steps"])]
    for t in steps:
        c.sample(t)
    env.eq("number of samples taken", len(log), ns * len(steps))
    for i in range(ns):
        mine = [t for j, t in log if j == i]
        env.eq("sampler %d saw every step once" % i, len(mine), len(steps))
        for t, g in zip(steps, mine):
            env.eq("step value", g, t)
    x = env.real("x")
    c.add_sample("extra", x)
    save = bool(env.choice("save", 2))
    name = env.choice("name", 2)
    kw = dict(filename="f.out") if name else {}
    there, ok = bool(env.choice("directory exists", 2)), env.choice("exist_ok", 3)
    path = os.path.join(tempfile.mkdtemp(dir="."), "out") if env.choice("deep", 2) else tempfile.mkdtemp(dir=".") + "_new"
    if there:
        os.makedirs(path)
    if ok:
        kw["exist_ok"] = ok == 1
    try:
        r = c.dump(path=path, save_samples=save, **kw)
    except FileExistsError:
        # the caller asked not to write into an existing directory
        env.true("refused only when asked to", save and there and ok == 2)
        env.true("nothing written", not np_.saved)
        return
    env.true("existing directories are refused when asked to", not (save and there and ok == 2) or bool(np_.saved))
    env.true("dump returns the samples", set(r) == {"s%d" % i for i in range(ns)} | {"extra"} | ({"last"} if ns else set()))
    env.true("get_samples", c.get_samples() is r or c.get_samples() == r)
    env.eq("added sample", r["extra"], x)
    for i in range(ns):
        env.eq("samples of %d" % i, len(r["s%d" % i]), len(steps))
        for t, v in zip(steps, r["s%d" % i]):
            env.eq("value of %d" % i, v, ss[i].w * t)
    if ns:
        env.true("samplers dump in order", r["last"] == ns - 1)
    env.true("written exactly when asked", len(np_.saved) == int(save))
    if save:
        f, d = np_.saved[0]
        want = "f.out" if name else "tmp_%s.samples" % cls
        env.true("file name", os.path.normpath(str(f)) == os.path.normpath(os.path.join(path, want)))
        env.true("directory exists", os.path.isdir(path))
        env.true("written data", set(d) == set(r))
        env.eq("written sample", d["extra"], x)


for ns, st in [(0, 1), (1, 2), (2, 2), (3, 1)]:
    case("C22", "collector-%d-%d" % (ns, st), dict(ns=ns, steps=st), samples=6,
         bounds="%d samplers, %d steps" % (ns, st))(collect)
case("C22", "collector-new-2-1", dict(ns=2, steps=1, new=1), samples=6, bounds="2 samplers that return a new dictionary")(collect)
case("C22", "collector-derived-1-1", dict(ns=1, steps=1, derived=1), samples=6, bounds="a class derived from SampleCollector")(collect)
case("C22", "collector-3-3", dict(ns=3, steps=3), tier="thorough", samples=6, bounds="3 samplers, 3 steps")(collect)


def history(env):
    """any order of sampling, adding, dumping: every dump holds everything"""
    m = env.mod("quantum_systems.sampler")
    np_ = Rec()
    ns = 2

    class S(m.Sampler):
        def __init__(self, i):
            class Solver:
                system = object()

            super().__init__(Solver(), 3, np_)
            self.i, self.got = i, []

        def sample(self, step):
            self.got.append((self.i + 2) * step)

        def dump(self, samples):
            samples["s%d" % self.i] = list(self.got)
            return samples

    ss = [S(i) for i in range(ns)]
    kind = env.choice("kind", 3)
    c = m.SampleCollector(ss if kind == 0 else set(ss) if kind == 1 else dict(enumerate(ss)).values(), np_)
    taken, extra, writes = [], {}, 0
    dumped = False

    def look(d, full):
        want = set(extra) | ({"s%d" % i for i in range(ns)} if full else set())
        env.true("keys", set(d) >= want if not full else set(d) == want)
        for k, v in extra.items():
            env.eq("added %s" % k, d[k], v)
        if full:
            for i in range(ns):
                env.true("number of samples", len(d["s%d" % i]) == len(taken))
                for t, v in zip(taken, d["s%d" % i]):
                    env.eq("sample", v, (i + 2) * t)

    for k in range(env["steps"]):
        op = env.choice("op%d" % k, 5)
        if op == 0:
            t = env.real("t%d" % k)
            c.sample(t)
            taken.append(t)
        elif op == 1:
            v = env.real("v%d" % k)
            key = "k%d" % (k % 2)
            c.add_sample(key, v)
            extra[key] = v
            look(c.get_samples(), False)
        elif op == 2:
            look(c.dump(save_samples=False), True)
            look(c.get_samples(), True)
        elif op == 3:
            writes += 1
            look(c.dump(path="out", filename="f%d" % k), True)
            env.true("one more file", len(np_.saved) == writes)
            f, d = np_.saved[-1]
            env.true("file name", os.path.normpath(str(f)) == os.path.join("out", "f%d" % k))
            look(d, True)
        else:
            look(c.get_samples(), False)
        env.true("files written", len(np_.saved) == writes)


case("C22", "histories-4", dict(steps=4), samples=12, big=[dict(steps=8)], bounds="2 samplers, every history of 4 operations")(history)
case("C22", "histories-5", dict(steps=5), "thorough", samples=6, bounds="2 samplers, every history of 5 operations", timeout=2000)(history)
