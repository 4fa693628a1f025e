"""Property harnesses: the same Python function is run

* symbolically (SymEnv): inputs are z3 variables, the code under test is the
  package's current source executed on symbolic values, every env.eq/env.true
  is an obligation for the solver;
* concretely (RealEnv): inputs are floats/ints, the code under test is the real
  package; used to replay solver counterexamples and to validate the encoding.
"""
import contextlib
import json
import math
import os
import random
import sys
import time
import traceback
from fractions import Fraction as F

import numpy as np
import z3

from . import arr, core, loader, poly, shims
from .core import Infeasible, LogNum, Num, PathLimit, SBool, SInt, SNpInt, Unsupported, rv

CASES = []


class Skip(Exception):
    """The harness does not apply (an optional entry point is not there)."""


class Rejected(Exception):
    """Concrete sample does not satisfy the assumptions."""


class Case:
    def __init__(self, prop, name, fn, params, tier, bounds, samples, big, timeout,
                 qtimeout, stubs, max_paths):
        self.__dict__.update(locals())
        self.id = "%s/%s" % (prop, name)


def case(prop, name=None, params=None, tier="quick", bounds="", samples=2, big=(),
         timeout=None, qtimeout=20, stubs=None, max_paths=4000, again=None, large=()):
    """`again`: also register the case in a process where the harness has run
    before with other inputs (and the parameters in `again` replaced).
    `large`: larger sizes, arrays symbolic in `few` places, fixed elsewhere."""
    def deco(fn):
        if again is not None:
            CASES.append(Case(prop, (name or fn.__name__) + "-again", _again(fn, again), params or {}, tier,
                              "after an earlier use with other inputs; " + (bounds or ""), 1, [],
                              timeout, qtimeout, stubs, max_paths))
        for j, q in enumerate(large):
            q = dict(q)
            t = q.pop("tier", tier)
            p = dict(params or {}, few=2)
            p.update(q)
            CASES.append(Case(prop, "%s-large%s" % (name or fn.__name__, j or ""), fn, p, t,
                              "arrays symbolic in %d places each, fixed elsewhere; %s" % (
                                  p["few"], ", ".join("%s=%s" % x for x in q.items() if x[0] != "few")),
                              1, [], timeout, qtimeout, stubs, max_paths))
        CASES.append(Case(prop, name or fn.__name__, fn, params or {}, tier,
                          bounds or (fn.__doc__ or "").strip(), samples, list(big),
                          timeout, qtimeout, stubs, max_paths))
        return fn

    return deco


def _again(fn, over):
    def run(env):
        with env.aside("earlier.", over):
            fn(env)
        fn(env)

    run.__name__ = fn.__name__
    run.__doc__ = fn.__doc__
    return run


# ---------------------------------------------------------------------------
def _idx(name, i):
    return name + "[" + ",".join(map(str, i)) + "]" if i else name


class BaseEnv:
    symbolic = False

    pre = ""  # prefix of the names of inputs

    def __init__(self, params):
        self.p = dict(params)

    @contextlib.contextmanager
    def aside(self, pre, over):
        """run something with inputs of its own and without obligations"""
        old = self.pre, self.p
        self.pre, self.p = pre, dict(self.p, **over)
        kept = [(x, len(x)) for x in (getattr(self, k, None) for k in ("obl", "inputs", "found", "fail"))
                if x is not None]
        try:
            yield
        finally:
            self.pre, self.p = old
        for x, n in kept:
            for i in range(n, len(x)):
                getattr(self, "pairs", {}).pop(i, None)
            del x[n:]

    def __getitem__(self, k):
        return self.p[k]

    def mod(self, name="quantum_systems"):
        return self.pkg.load(name)

    def get(self, modname, attr):
        """Optional entry point; a missing one skips the case."""
        try:
            m = self.pkg.load(modname)
        except ImportError:
            raise Skip("no module %s" % modname)
        for a in attr.split("."):
            if not hasattr(m, a):
                raise Skip("%s has no %s" % (modname, attr))
            m = getattr(m, a)
        return m

    def filled(self, name, shape):
        """Large arrays are symbolic in a few places only (parameter `few`):
        index -> small fixed number for the others."""
        few = self.p.get("few")
        if not few or shape == ():
            return {}
        n = 1
        for d in shape:
            n *= d
        r = random.Random("filled " + self.pre + name)
        free = set(r.sample(range(n), min(few, n)))
        out = {}
        for j, i in enumerate(np.ndindex(*shape)):
            v = r.choice((-2, -1, -1, 0, 1, 1, 2, 3))
            if j not in free:
                out[i] = v
        return out

    def faint(self, name, shape, bounded):
        """Parameter `faint`: the arrays named there are fixed small integers
        times one symbolic factor between 1e-13 and 1e-9, other arrays are fixed
        small integers."""
        names = self.p.get("faint")
        if names is None or shape == () or bounded:
            return None
        r = random.Random("faint " + self.pre + name)
        out = np.array([r.choice((-2, -1, 1, 1, 2, 3)) for _ in range(int(np.prod(shape)))], dtype=object)
        out = out.reshape(shape)
        if name in names or name.rsplit(".", 1)[0] in names:
            if getattr(self, "_faint", None) is None:
                self._faint = self.real("faint", lo=F(1, 10 ** 13), hi=F(1, 10 ** 9))
            e = self._faint
        else:
            e = Num(F(1)) if self.symbolic else 1.0
        for i in np.ndindex(*shape):
            out[i] = e * int(out[i])
        return arr.wrap(out, "f") if self.symbolic else out.astype(float)

    def cplx(self, name, shape=(), scalar=None, **k):
        a = self.real(name + ".re", shape, **k)
        b = self.real(name + ".im", shape, **k)
        return a + 1j * b

    def herm(self, name, n, real=False):
        out = self.np.zeros((n, n), dtype=float if real else complex)
        for i in range(n):
            for j in range(i, n):
                if i == j:
                    out[i, i] = self.real("%s[%d,%d]" % (name, i, i))
                else:
                    z = self.real("%s[%d,%d]" % (name, i, j))
                    if not real:
                        z = z + 1j * self.real("%s[%d,%d].im" % (name, i, j))
                    out[i, j] = z
                    out[j, i] = z.conjugate()
        return out

    def ten(self, name, shape, cplx=True):
        return self.cplx(name, shape) if cplx else self.real(name, shape)


class SymEnv(BaseEnv):
    symbolic = True

    def __init__(self, pkg, params, fixed=None):
        super().__init__(params)
        self.pkg = pkg
        self.np = pkg.np
        self.e = core.eng()
        self.fixed = fixed
        self.pairs = {}  # obligation -> the two sides
        self.obl = []  # (label, 'eq', [(idx, re, im)]) or (label,'true', term)
        self.inputs = []
        self.found = []

    def _one(self, n, lo, hi, strict):
        n = self.pre + n
        if self.fixed is not None:
            return Num(F(self.fixed[n]))
        v = self.e.real(n)
        if lo is not None:
            self.e.assume(v > lo if strict else v >= lo)
        if hi is not None:
            self.e.assume(v < hi if strict else v <= hi)
        return Num(v)

    def real(self, name, shape=(), lo=None, hi=None, strict=False, pos=False):
        if pos:
            lo, strict = 0, True
        if isinstance(shape, int):
            shape = (shape,)
        lo = rv(F(lo)) if lo is not None else None
        hi = rv(F(hi)) if hi is not None else None
        if shape == ():
            return self._one(name, lo, hi, strict)
        faint = self.faint(name, shape, lo is not None or hi is not None)
        if faint is not None:
            return faint
        out = np.empty(shape, dtype=object)
        fill = self.filled(name, shape) if lo is None and hi is None else {}
        for i in np.ndindex(*shape):
            out[i] = Num(F(fill[i])) if i in fill else self._one(_idx(name, i), lo, hi, strict)
        return arr.wrap(out, "f")

    def unit(self, name, n):
        """n reals with sum of squares one."""
        name = self.pre + name
        if self.fixed is not None:
            return [Num(F(self.fixed[_idx(name, (i,))])) for i in range(n)]
        vs = [self.e.real(_idx(name, (i,))) for i in range(n)]
        self.e.assume(z3.Sum([v * v for v in vs]) == 1)
        self.e.sq_rules[vs[0].decl().name()] = 1 - z3.Sum([v * v for v in vs[1:]])
        return [Num(v) for v in vs]

    def int(self, name, lo=None, hi=None):
        name = self.pre + name
        if self.fixed is not None:
            return int(self.fixed[name])
        v = self.e.int(name)
        if lo is not None:
            self.e.assume(v >= lo)
        if hi is not None:
            self.e.assume(v <= hi)
        return SInt(v)

    def npint(self, name, lo=None, hi=None):
        """an integer handed over as a numpy scalar"""
        v = self.int(name, lo, hi)
        return SNpInt(v.t) if isinstance(v, SInt) else np.int64(v)

    def choice(self, name, n):
        if n == 1:
            return 0
        v = self.int(name, 0, n - 1)
        if isinstance(v, int):
            return v
        lo, hi = 0, n - 1
        while lo < hi:
            mid = (lo + hi) // 2
            if self.e.branch(v.t <= mid):
                hi = mid
            else:
                lo = mid + 1
        return lo

    def assume(self, cond):
        if isinstance(cond, SBool):
            if self.obl and self.fixed is None:
                # would quietly weaken the obligations stated so far
                raise AssertionError("harness: an assumption after an obligation")
            if self.fixed is not None:
                return
            self.e.assume(cond.t)
            if self.e.check(branch=True) == z3.unsat:
                raise Infeasible()
        elif not cond:
            raise Infeasible()

    def known(self, cond):
        """Is cond implied by the path?  (no fork)"""
        if isinstance(cond, SBool):
            return self.e.check(z3.Not(cond.t), branch=True) == z3.unsat
        return bool(cond)

    def eq(self, label, a, b, tol=None, known=None):
        A, B = arr.obj(a), arr.obj(b)
        if A.shape != B.shape:
            try:
                if A.shape == () or B.shape == ():
                    A, B = np.broadcast_arrays(A, B)
                else:
                    raise ValueError
            except ValueError:
                self.obl.append((label, "true", z3.BoolVal(False), known))
                return
        ds = []
        for i in np.ndindex(*A.shape):
            ds.extend(_diff(A[i], B[i], i))
        alt = None
        if known is not None:
            K = np.broadcast_to(arr.obj(known[1]), A.shape)
            alt = []
            for i in np.ndindex(*A.shape):
                alt.extend(_diff(A[i], K[i], i))
        self.obl.append((label, "eq", ds, None if known is None else (known[0], alt)))
        self.pairs[len(self.obl) - 1] = (A.copy(), B.copy())
        self.inputs.append((label, [x for x in A.ravel()]))

    def true(self, label, cond, tol=None):
        t = core.bterm(cond)
        self.obl.append((label, "true", z3.simplify(t), None))

    def le(self, label, a, b, tol=None):
        A, B = np.broadcast_arrays(arr.obj(a), arr.obj(b))
        self.obl.append((label, "true", z3.simplify(z3.And(
            [core.bterm(x <= y) for x, y in zip(A.ravel(), B.ravel())] or [z3.BoolVal(True)])), None))

    def finding(self, kid, label):
        """the defect recorded as `kid` shows on this path"""
        self.found.append([kid, label])

    def diff(self, fn, x, order=1):
        """derivative of fn at the symbolic variable x"""
        if self.fixed is not None:
            return Num(F(0))
        from . import funcs

        v = fn(x)
        for _ in range(order):
            v = arr.mapel(lambda e: funcs.diff(e, x.re), v) if isinstance(v, np.ndarray) else funcs.diff(v, x.re)
        return v

    def raises(self, label, exc, fn):
        try:
            fn()
        except (Infeasible, Unsupported):
            raise
        except exc:
            self.obl.append((label, "true", z3.BoolVal(True), None))
            return True
        except Exception as e:
            self.obl.append((label, "true", z3.BoolVal(False), None))
            return True
        self.obl.append((label, "true", z3.BoolVal(False), None))
        return False


def _diff(x, y, i):
    if hasattr(x, "jet_kind") or hasattr(y, "jet_kind"):
        from . import jet

        x, y = jet.as_jet(x, y)
        out = []
        for k, (p, q) in enumerate(zip(x.coefs(), y.coefs())):
            out.extend(_diff(p, q, i + (("d", k),)))
        return out
    d = Num.of(x) - Num.of(y)
    return [(i, "re", d.re), (i, "im", d.im)]


def _frac(r):
    """a number in (0, 1), often not a binary fraction"""
    d = r.choice((7, 8, 11, 16, 27))
    return F(r.randint(1, d - 1), d)


class RealEnv(BaseEnv):
    """Concrete run on the real package."""

    def __init__(self, pkg, params, values=None, rng=None, tol=1e-8):
        super().__init__(params)
        self.pkg = pkg
        self.np = pkg.np
        self.values = dict(values or {})
        self.rng = rng or random.Random(0)
        self.tol = tol
        self.used = {}
        self.fail = []
        self.checked = 0
        self.inputs = []

    def _val(self, n, lo, hi, strict):
        n = self.pre + n
        if n in self.values:
            v = F(self.values[n])
        else:
            r = self.rng
            if lo is not None and hi is not None:
                v = F(lo) + (F(hi) - F(lo)) * _frac(r)
            elif lo is not None:
                v = F(lo) + 3 * _frac(r)
            elif hi is not None:
                v = F(hi) - 3 * _frac(r)
            else:
                v = 4 * _frac(r) - 2
            self.values[n] = v
        if lo is not None and (v < lo or (strict and v <= lo)):
            raise Rejected(n)
        if hi is not None and (v > hi or (strict and v >= hi)):
            raise Rejected(n)
        self.used[n] = v
        return float(v)

    def real(self, name, shape=(), lo=None, hi=None, strict=False, pos=False):
        if pos:
            lo, strict = 0, True
        if isinstance(shape, int):
            shape = (shape,)
        lo = F(lo) if lo is not None else None
        hi = F(hi) if hi is not None else None
        if shape == ():
            return self._val(name, lo, hi, strict)
        faint = self.faint(name, shape, lo is not None or hi is not None)
        if faint is not None:
            return faint
        out = np.empty(shape, dtype=float)
        fill = self.filled(name, shape) if lo is None and hi is None else {}
        for i in np.ndindex(*shape):
            out[i] = fill[i] if i in fill else self._val(_idx(name, i), lo, hi, strict)
        return out

    def unit(self, name, n):
        name = self.pre + name
        ns = [_idx(name, (i,)) for i in range(n)]
        if ns[0] in self.values:
            vs = [float(self.values.get(x, 0)) for x in ns]
        else:
            vs = [self.rng.gauss(0, 1) for _ in ns]
        r = math.sqrt(sum(v * v for v in vs))
        if not r:
            raise Rejected(name)
        vs = [v / r for v in vs]
        for x, v in zip(ns, vs):
            self.values[x] = self.used[x] = F(v)
        return vs

    def int(self, name, lo=None, hi=None):
        name = self.pre + name
        if name in self.values:
            v = int(self.values[name])
        else:
            a = lo if lo is not None else (hi - 8 if hi is not None else -8)
            b = hi if hi is not None else a + 16
            v = self.rng.randint(a, b)
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Rejected(name)
        self.values[name] = self.used[name] = v
        return v

    def npint(self, name, lo=None, hi=None):
        return np.int64(self.int(name, lo, hi))

    def choice(self, name, n):
        if n == 1:
            return 0
        return self.int(name, 0, n - 1)

    def assume(self, cond):
        if not bool(cond):
            raise Rejected("assumption")

    def known(self, cond):
        return bool(cond)

    def eq(self, label, a, b, tol=None, known=None):
        self.checked += 1
        a, b = np.asarray(_rnum(a)), np.asarray(_rnum(b))
        self.inputs.append((label, [x for x in a.ravel()]))
        # faint arrays are compared relative to their size
        floor = 1.0 if self.p.get("faint") is None else float(getattr(self, "_faint", None) or 1.0)
        ok, why = _close(a, b, tol or self.tol, floor)
        if not ok and known is not None:
            ok2, _ = _close(a, np.asarray(_rnum(known[1])), tol or self.tol, floor)
            if ok2:
                self.fail.append((label, why, known[0]))
                return
        if not ok:
            self.fail.append((label, why, None))

    def true(self, label, cond, tol=None):
        self.checked += 1
        if not bool(cond):
            self.fail.append((label, "condition is false", None))

    def le(self, label, a, b, tol=None):
        self.checked += 1
        t = tol or self.tol
        a, b = np.asarray(a, float), np.asarray(b, float)
        if not np.all(a <= b + t * (1 + abs(b))):
            self.fail.append((label, "%s > %s" % (a, b), None))

    def diff(self, fn, x, order=1):
        def d1(f, y, h):
            return (8 * (f(y + h) - f(y - h)) - (f(y + 2 * h) - f(y - 2 * h))) / (12 * h)

        if order == 1:
            h = 1e-3
            return (16 * d1(fn, x, h / 2) - d1(fn, x, h)) / 15
        h = 4e-3

        def d2(h):
            return (-fn(x + 2 * h) + 16 * fn(x + h) - 30 * fn(x) + 16 * fn(x - h) - fn(x - 2 * h)) / (12 * h * h)

        return (16 * d2(h / 2) - d2(h)) / 15

    def finding(self, kid, label):
        self.fail.append((label, "known finding", kid))

    def raises(self, label, exc, fn):
        self.checked += 1
        try:
            fn()
        except exc:
            return True
        except Exception as e:
            self.fail.append((label, "raised %s: %s instead of %s" % (
                type(e).__name__, e, exc), None))
            return True
        self.fail.append((label, "no exception", None))
        return False


def _rnum(x):
    if hasattr(x, "jet_kind"):
        return np.array([complex(c) for c in x.coefs()])
    if isinstance(x, np.ndarray) and x.dtype == object:
        if x.size and hasattr(x.ravel()[0], "jet_kind"):
            return np.array([[complex(c) for c in e.coefs()] for e in x.ravel()])
        return x.astype(complex)
    if isinstance(x, (list, tuple)):
        return np.array([_rnum(v) for v in x])
    return x


def _close(a, b, tol, floor=1.0):
    if a.shape != b.shape and a.shape != () and b.shape != ():
        return False, "shape %s instead of %s" % (a.shape, b.shape)
    if a.dtype.kind not in "biufc":
        a = a.astype(complex)
    if b.dtype.kind not in "biufc":
        b = b.astype(complex)
    with np.errstate(all="ignore"):
        d = np.abs(a - b)
        if not d.size:
            return True, ""
        sc = floor + max(np.max(np.abs(a)) if a.size else 0, np.max(np.abs(b)) if b.size else 0)
        bad = ~(d <= tol * sc)
    if np.any(bad):
        i = np.unravel_index(np.argmax(np.where(np.isfinite(d), d, np.inf)), d.shape) if d.shape else ()
        ab, bb = np.broadcast_arrays(a, b)
        return False, "at %s: got %s, expected %s" % (
            tuple(int(x) for x in i), ab[i], bb[i])
    return True, ""


# ---------------------------------------------------------------------------
class Result(dict):
    pass


def new_sym_package(case):
    stubs = case.stubs() if case.stubs else None
    core.eng().reset_case()
    shims.reset_bridge()
    pkg = loader.SymPackage(stubs=stubs)
    pkg.load("quantum_systems")
    core.eng().keep_axioms()
    return pkg


def run_real(case, params, values=None, rng=None, pkg=None, harden=False):
    """-> (status, env, info); status in ok/fail/exc/rejected/skip"""
    pkg = pkg or loader.RealPackage()
    env = RealEnv(pkg, params, values, rng)
    import warnings

    out = sys.stdout
    sys.stdout = open(os.devnull, "w")
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                if case.stubs and hasattr(case.stubs, "real"):
                    with case.stubs.real(env):
                        case.fn(env)
                else:
                    case.fn(env)
            except Skip as e:
                return "skip", env, str(e)
            except Rejected as e:
                return "rejected", env, str(e)
            except Unsupported as e:
                return "skip", env, "outside the contract of a stub: %s" % e
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)
                at = [f for f in tb if f.filename.startswith(loader.REPO)]
                where = "%s:%d" % (at[-1].filename, at[-1].lineno) if at else "harness"
                if signature_change(e):
                    return "skip", env, "entry point takes other arguments: %s" % e
                return "exc", env, "%s: %s (%s)" % (type(e).__name__, e, where)
    finally:
        sys.stdout.close()
        sys.stdout = out
    if [f for f in env.fail if f[2] is None]:
        return "fail", env, env.fail
    return "ok", env, env.fail


def signature_change(ex):
    """The harness calls a function that does not take these arguments (any
    more): raised by the call itself, not inside the package."""
    if not isinstance(ex, TypeError) or any(
            f.filename.startswith(loader.REPO) for f in traceback.extract_tb(ex.__traceback__)):
        return False
    m = str(ex)
    return any(x in m for x in ("positional argument", "keyword argument", "not enough arguments",
                                "too many arguments", "missing argument"))


UNDEFINED = {
    "recip": lambda x: x == 0,
    "sqrt": lambda x: x < 0,
    "log": lambda x: x <= 0,
}


class Runner:
    def __init__(self, case, seed, tier, report, deadline):
        self.c = case
        self.seed = seed
        self.tier = tier
        self.report = report
        self.deadline = deadline
        self.res = Result(
            case=case.id, bounds=case.bounds, params={k: repr(v) for k, v in case.params.items()},
            status="proved", paths=0, infeasible=0, obligations=0, discharged=0,
            undecided=[], violations=[], known=[], validated=0, witnesses=0,
            functions=[], files=[], notes=[], confirmed=0, by_normal_form=0, domain=0, queries=0, solver_s=0.0, decisions=0,
        )
        self.real = None
        self.asked = {}
        self.confirm_left = 4.0 if tier == "quick" else 30.0

    def left(self):
        return self.deadline - time.time()

    def realpkg(self):
        if self.real is None:
            self.real = loader.RealPackage()
        return self.real

    # -- symbolic phase ----------------------------------------------------
    def run(self):
        t0 = time.time()
        import warnings

        warnings.simplefilter("ignore")
        e = core.new_engine(timeout_ms=int(self.c.qtimeout * 1000), max_paths=self.c.max_paths)
        try:
            self.pkg = new_sym_package(self.c)
            funcs = set()
            first = [True]

            def go():
                env = SymEnv(self.pkg, self.c.params)
                self.env = env
                if self.left() < 0:
                    raise PathLimit("time limit")
                if first[0]:
                    first[0] = False
                    sys.setprofile(_profiler(funcs))
                try:
                    self.c.fn(env)
                except (Skip, Unsupported):
                    raise
                except Exception as ex:
                    if signature_change(ex):
                        raise Skip("entry point takes other arguments: %s" % ex)
                    return ("exc", env, ex)
                finally:
                    sys.setprofile(None)
                return ("ok", env, None)

            e.explore(go, self.on_path)
        except Skip as s:
            self.res["status"] = "skipped"
            self.res["notes"].append(str(s))
        except Unsupported as u:
            self.inconclusive("not encodable: %s: %s%s" % (type(u).__name__, u, _where(u)))
        except RecursionError:
            self.inconclusive("recursion limit")
        except Exception as ex:
            self.inconclusive("engine error %s: %s%s" % (type(ex).__name__, ex, _where(ex)))
        self.res["functions"] = sorted(funcs) if "funcs" in locals() else []
        st = e.stats
        self.res.update(queries=st["queries"], solver_s=round(st["solver_s"], 3),
                        decisions=st["decisions"], paths=st["paths"])
        if self.res["status"] == "proved" and not self.res["obligations"]:
            self.inconclusive("no obligation reached")
        if not self.res["violations"] and self.res["status"] != "skipped":
            self.validate()
        self.res["wall_s"] = round(time.time() - t0, 2)
        return self.res

    def run_concrete(self):
        self.res["status"] = "inconclusive"
        self.validate()
        return self.res

    def inconclusive(self, why):
        if self.res["status"] == "proved":
            self.res["status"] = "inconclusive"
        if len(self.res["undecided"]) < 20 and why not in self.res["undecided"]:
            self.res["undecided"].append(why)

    def on_path(self, r):
        kind, env, ex = r
        e = core.eng()
        if kind == "exc":
            w = e.check()
            if w == z3.unsat:
                return
            vals = self.model_values(e.solver().model()) if w == z3.sat else {}
            what = "unexpected exception %s: %s" % (type(ex).__name__, ex)
            if self.replay(vals, what):
                return
            self.inconclusive(what + " in the encoding only%s" % _where(ex))
            return
        if not env.obl and not env.found:
            return
        w = self.witness()
        if w == z3.unsat:
            self.res["infeasible"] += 1
            return
        self.res["known"] += env.found
        if w == z3.sat:
            self.res["witnesses"] += 1
        self.prove(env)
        if self.res["status"] == "proved":
            self.defined()

    def defined(self):
        """No input makes the code divide by zero or take the root or the
        logarithm of a negative number and give a wrong answer for it."""
        e = core.eng()
        for key in sorted(e.atoms_seen - e.base_seen, key=str):
            fn, args = e.atom_def[str(e.atoms[key])]
            x = args[0] if args else None
            if fn not in UNDEFINED or isinstance(x, F) or not z3.is_expr(x) or self.left() < 0:
                continue
            k = (str(e.atoms[key]), tuple(t.get_id() for t in e.pc + e.assumptions))
            if k in self.asked:
                continue
            self.asked[k] = list(e.pc + e.assumptions)
            if e.prove_check(UNDEFINED[fn](x), 500) != z3.sat:
                continue
            self.res["domain"] += 1
            if self.res["domain"] > 40:
                return
            if self.replay(self.model_values(e.last_model), "%s of an argument outside its domain" % fn):
                return

    def witness(self):
        e = core.eng()
        s = e.solver()
        if not (e.pc or e.assumptions):
            return z3.sat
        s.set("timeout", 5000)
        r = e.check()
        s.set("timeout", e.timeout_ms)
        return r

    def prove(self, env):
        e = core.eng()
        red = poly.Reducer(e)
        has_atoms = bool(e.atom_axioms or e.sq_rules or e.eqs)
        goals = []  # (label, idx, term that must be false)
        knowns = []
        for oid, (label, kind, data, known) in enumerate(env.obl):
            self.res["obligations"] += 1
            if kind == "true":
                if z3.is_true(data):
                    self.res["discharged"] += 1
                else:
                    goals.append((label, (), z3.Not(data), None, oid))
                continue
            g = self.eqgoals(label, data, red, has_atoms, oid)
            if not g:
                self.confirm(env.pairs.get(oid))
            if known is not None and g:
                knowns.append((label, known, g, red))
                continue
            goals.extend(g)
            if not g:
                self.res["discharged"] += 1
        for label, known, g, red in knowns:
            kid, alt = known
            if self.refuted(g):
                self.res["discharged"] += 1
                continue
            ga = self.eqgoals(label, alt, red, has_atoms, -1)
            if self.refuted(ga):
                self.res["known"].append([kid, label])
            else:
                goals.extend(g)
        # one query per chunk of goals; a chunk that is not refuted is split
        bad = set()
        n = 8
        work = [goals[i:i + n] for i in range(0, len(goals), n)]
        work.reverse()
        while work:
            ch = work.pop()
            if self.left() < 0:
                self.inconclusive("time limit")
                return
            r = e.prove_check(z3.Or([g[2] for g in ch]),
                              1500 if len(ch) > 1 else None)
            if r == z3.unsat:
                continue
            if r == z3.unknown and not has_atoms and ch[0][3] is not None:
                # too large as it stands: expand, keep what does not vanish
                ch = self.expand(ch, red)
                if not ch:
                    continue
                r = e.prove_check(z3.Or([g[2] for g in ch]), 1500 if len(ch) > 1 else None)
                if r == z3.unsat:
                    continue
            if r == z3.unknown and len(ch) > 1:
                work.extend([g] for g in reversed(ch))
                continue
            for g in ch:
                bad.add(g[4])
            if self.counterexample(ch, r):
                return
            self.inconclusive("%s: solver answered %s, no reproducible counterexample" % (
                ", ".join(sorted({g[0] for g in ch})[:3]), r))
            if len(bad) > 6:
                return
        self.res["discharged"] += len({g[4] for g in goals} - bad)

    def eqgoals(self, label, data, red, has_atoms, oid):
        out = []
        for i, part, d in data:
            if isinstance(d, F):
                if d:
                    out.append((label, i, z3.BoolVal(True), None, oid))
                continue
            if has_atoms:
                try:
                    p = red.poly(d)
                    if not p:
                        # trivially zero after rewriting with the axioms
                        continue
                    if core.eng().eqs and core.eng().linear_check(red, p):
                        continue
                    d = red.term(p)
                except (poly.TooBig, RecursionError):
                    pass
            out.append((label, i, d != 0, d, oid))
        return out

    def expand(self, goals, red):
        out = []
        for label, i, t, d, oid in goals:
            if d is not None:
                try:
                    p = red.poly(d)
                    if not p:
                        self.res["by_normal_form"] += 1
                        continue
                    d = red.term(p)
                    t = d != 0
                except (poly.TooBig, RecursionError):
                    pass
            out.append((label, i, t, d, oid))
        return out

    def confirm(self, pair):
        """An equality that vanished in normal form is put to the solver as it
        stands (the two sides the code and the oracle produced)."""
        if pair is None:
            return
        t = []
        for x, y in zip(pair[0].ravel(), pair[1].ravel()):
            x, y = Num.of(x), Num.of(y)
            for p, q in ((x.re, y.re), (x.im, y.im)):
                if isinstance(p, F) and isinstance(q, F):
                    continue
                t.append(core.rv(p) != core.rv(q))
        if not t:
            return
        left = self.confirm_left
        if left <= 0:
            self.res["by_normal_form"] += 1
            return
        t0 = time.time()
        r = core.eng().prove_check(z3.Or(t), max(200, min(1000, int(left * 1000))))
        self.confirm_left -= time.time() - t0
        if r == z3.unsat:
            self.res["confirmed"] += 1
        elif r == z3.sat:
            self.inconclusive("normal form and solver disagree")
        else:
            self.res["by_normal_form"] += 1

    def refuted(self, goals):
        if not goals:
            return True
        return all(core.eng().prove_check(g[2]) == z3.unsat for g in goals)

    # -- counterexamples ---------------------------------------------------
    def model_values(self, m):
        vals = {}
        for n, v in core.eng().vars.items():
            x = m.eval(v, model_completion=True)
            if z3.is_int_value(x):
                vals[n] = x.as_long()
            elif z3.is_rational_value(x):
                vals[n] = F(x.numerator_as_long(), x.denominator_as_long())
            elif z3.is_algebraic_value(x):
                a = x.approx(25)
                vals[n] = F(a.numerator_as_long(), a.denominator_as_long())
        return vals

    def counterexample(self, ch, r):
        e = core.eng()
        models = []
        what = ", ".join("%s%s" % (g[0], list(g[1]) if g[1] else "") for g in ch[:4])
        box = []
        for n, v in e.vars.items():
            if z3.is_real(v):
                box += [v <= 4, v >= -4]
        robust = [z3.Or(g[3] >= z3.Q(1, 16), g[3] <= z3.Q(-1, 16)) if g[3] is not None else g[2]
                  for g in ch]
        if r == z3.sat and e.last_model is not None:
            first = self.model_values(e.last_model)
        else:
            first = None
        for extra in (box + [z3.Or(robust)], [z3.Or(robust)]):
            if e.prove_check(extra, 5000) == z3.sat:
                models.append(self.model_values(e.last_model))
                break
        if first is not None:
            models.append(first)
        if not models:
            for k in range(6):
                fix = []
                rng = random.Random(k)
                for n, v in e.vars.items():
                    if rng.random() < 0.8:
                        fix.append(v == rng.randint(-2, 3))
                if e.prove_check(fix + [z3.Or([g[2] for g in ch])], 5000) == z3.sat:
                    models.append(self.model_values(e.last_model))
                    break
        for m in models:
            if self.replay(m, what):
                return True
        # the region is suspicious: look for a failing input near the model
        for k in range(12):
            rng = random.Random("%s-%d" % (self.seed, k))
            keep = {}
            if models:
                for n, v in models[0].items():
                    if isinstance(v, int):
                        keep[n] = v
            if self.replay(keep, what, rng):
                return True
        return False

    def replay(self, vals, what, rng=None):
        st, env, info = run_real(self.c, self.c.params, vals, rng, self.realpkg())
        if st == "exc" or st == "fail":
            self.violation(self.c.params, env, st, info, what)
            return True
        return False

    def violation(self, params, env, st, info, what):
        self.res["status"] = "violated"
        self.res["violations"].append(dict(
            case=self.c.id, found_by=what, kind=st,
            info=info if isinstance(info, str) else ["%s: %s" % (f[0], f[1]) for f in info][:10],
            params={k: v for k, v in params.items()},
            values={k: str(v) for k, v in env.used.items()}))

    # -- validation of the encoding against the real package ------------------
    def validate(self):
        n = self.c.samples
        undec = self.res["status"] == "inconclusive"
        if undec:
            n = max(n, 12)
        runs = [(self.c.params, k) for k in range(n)]
        for j, b in enumerate(self.c.big):
            p = dict(self.c.params)
            p.update(b)
            runs += [(p, 100 + 10 * j + k) for k in range(2)]
        core.new_engine(timeout_ms=10000)
        for params, k in runs:
            if self.left() < 0:
                break
            ok = False
            for attempt in range(8):
                rng = random.Random("%s-%s-%d-%d" % (self.c.id, self.seed, k, attempt))
                st, env, info = run_real(self.c, params, None, rng, self.realpkg())
                if st != "rejected":
                    ok = True
                    break
            if not ok or st == "skip":
                continue
            if st in ("exc", "fail"):
                self.violation(params, env, st, info, "concrete validation run")
                return
            if params is self.c.params and not undec:
                self.cross(params, env)
            self.res["validated"] += 1

    def cross(self, params, renv):
        """The encoding evaluated at the same inputs must give the values the
        real package computed."""
        try:
            pkg = new_sym_package(self.c)
            e = core.eng()
            obs = []

            def go():
                env = SymEnv(pkg, params, fixed=renv.used)
                self.c.fn(env)
                return env

            def on(env):
                obs.append([(l, [_float(x) for x in xs]) for l, xs in env.inputs])

            e.explore(go, on)
        except Exception as ex:
            self.res["notes"].append("cross-validation skipped: %s: %s%s" % (
                type(ex).__name__, ex, _where(ex)))
            return
        best = None
        for o in obs:
            m = _mismatch(o, renv.inputs)
            if m is None:
                return
            best = m
        if obs:
            self.inconclusive("encoding disagrees with the real code on a sample: %s" % best)


def _mismatch(a, b):
    if len(a) != len(b):
        return "different number of observations"
    for (l1, x), (l2, y) in zip(a, b):
        if l1 != l2 or len(x) != len(y):
            return "%s: different shape" % l1
        sc = 1 + max([abs(complex(v)) for v in y if not hasattr(v, "jet_kind")] or [0])
        for u, v in zip(x, y):
            if u is None or hasattr(v, "jet_kind"):
                continue
            if not abs(u - complex(v)) <= 1e-7 * sc:
                return "%s: encoding %s, real %s" % (l1, u, v)
    return None


def _float(x):
    if hasattr(x, "jet_kind"):
        return None
    n = Num.of(x)
    memo = {}

    def f(p):
        return float(p) if isinstance(p, F) else float(poly.numeval(p, {}, memo))

    try:
        return complex(f(n.re), f(n.im))
    except KeyError:
        return None


def _where(ex):
    tb = traceback.extract_tb(ex.__traceback__)
    at = [f for f in tb if f.filename.startswith(loader.REPO)]
    s = ""
    if at:
        s = " (%s:%d)" % (os.path.relpath(at[-1].filename, loader.REPO), at[-1].lineno)
    if os.environ.get("QS_DEBUG"):
        s += "\n" + "".join(traceback.format_exception(ex))
    return s


def _profiler(funcs):
    repo = loader.REPO

    def prof(frame, event, arg):
        if event == "call":
            co = frame.f_code
            if co.co_filename.startswith(repo) and not co.co_name.startswith("<"):
                funcs.add("%s:%s" % (os.path.relpath(co.co_filename, repo), co.co_qualname))

    return prof
