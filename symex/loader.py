"""Loads the package from /repo's current source with symbolic stand-ins for
the libraries it imports.  Every .py file is read from disk on every run; the
AST is passed through one rewriting pass (int/float/range/... calls) and
executed with private builtins whose __import__ resolves to the stand-ins."""
import ast
import builtins
import importlib
import os
import sys
import types

from . import arr, frame, shims
from .core import LogNum, Num, SBool, SInt, SNpInt, Unsupported

REPO = os.environ.get("QS_REPO", "/repo")
PKG = "quantum_systems"

_REWRITE = {"int": "__sym_int__", "float": "__sym_float__", "complex": "__sym_complex__",
            "range": "__sym_range__", "isinstance": "__sym_isinstance__",
            "round": "__sym_round__", "type": "__sym_type__"}


class _Rw(ast.NodeTransformer):
    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in _REWRITE:
            node.func = ast.copy_location(
                ast.Name(_REWRITE[node.func.id], ast.Load()), node.func)
        return node


def _sfloat(x=0.0):
    if isinstance(x, (Num, LogNum, SInt, SBool)):
        n = Num.of(x)
        if n.c:
            raise TypeError("float() argument must be a real number, not complex")
        return n
    if isinstance(x, arr.SymArr):
        return _sfloat(x.base_arr().item())
    if type(x).__module__.startswith("sympy"):
        return Num.of(x)
    return float(x)


def _scomplex(*a):
    if any(isinstance(x, (Num, LogNum, SInt, SBool)) for x in a):
        r = Num.of(a[0])
        if len(a) > 1:
            r = r + Num.of(a[1]) * 1j
        return Num(r.re, r.im, True)
    if a and isinstance(a[0], arr.SymArr):
        return _scomplex(a[0].base_arr().item())
    if a and type(a[0]).__module__.startswith("sympy"):
        return _scomplex(Num.of(a[0]))
    return complex(*a)


def _sint(*a):
    if len(a) == 1 and isinstance(a[0], (Num, LogNum, SInt, SBool)):
        return arr.sym_int(a[0])
    if len(a) == 1 and isinstance(a[0], arr.SymArr):
        return arr.sym_int(a[0].base_arr().item())
    return int(*a)


def _sround(x, *a):
    return round(x, *a)


def _sisinstance(x, t):
    if isinstance(x, t):
        return True
    ts = t if isinstance(t, tuple) else (t,)
    import numbers
    import numpy as np

    flat = []
    for u in ts:
        flat.extend(u if isinstance(u, tuple) else (u,))
    if isinstance(x, SNpInt):
        return any(u in (np.integer, np.signedinteger, np.int64, np.number, numbers.Integral, numbers.Number, numbers.Real)
                   for u in flat)
    if isinstance(x, SInt):
        return any(u in (int, numbers.Integral, numbers.Number, numbers.Real) for u in flat)
    if isinstance(x, (Num, LogNum)):
        c = getattr(x, "c", False)
        ok = (complex, np.complex128, np.complexfloating, numbers.Complex) if c else (
            float, np.float64, np.floating, numbers.Real)
        return any(u in ok + (numbers.Number, np.number) for u in flat)
    return False


def _stype(*a):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, SNpInt):
            import numpy as np

            return np.int64
        if isinstance(x, SInt):
            return int
        if isinstance(x, (Num, LogNum)):
            return complex if getattr(x, "c", False) else float
        if isinstance(x, arr.SymArr):
            import numpy as np

            return np.ndarray
    return type(*a)


class SymPackage:
    """One symbolic instance of the package (fresh modules)."""

    def __init__(self, stubs=None, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        self.random = shims.RandomStub()
        self.np = shims.make_numpy(self.random)
        self.math = shims.make_math()
        special = shims.make_scipy_special()
        scipy, slin, sint = shims.make_scipy(special)
        self.libs = {
            "numpy": self.np,
            "numpy.linalg": self.np.linalg,
            "numpy.random": self.random,
            "math": self.math,
            "numba": shims.make_numba(),
            "scipy": scipy,
            "scipy.special": special,
            "scipy.linalg": slin,
            "scipy.integrate": sint,
            "sympy": shims.make_sympy(),
            "pandas": frame.make_pandas(),
        }
        if stubs:
            self.libs.update(stubs)
        b = dict(builtins.__dict__)
        b["__import__"] = self._import
        b["__sym_int__"] = _sint
        b["__sym_float__"] = _sfloat
        b["__sym_complex__"] = _scomplex
        b["__sym_range__"] = shims.sym_range
        b["__sym_isinstance__"] = _sisinstance
        b["__sym_round__"] = _sround
        b["__sym_type__"] = _stype
        b["print"] = lambda *a, **k: None
        self.builtins = b
        self.files = set()

    # -- import machinery --------------------------------------------------
    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get("__package__") or globals["__name__"]
            base = pkg.split(".")
            if level > 1:
                base = base[: -(level - 1)]
            name = ".".join(base + ([name] if name else []))
        if name == PKG or name.startswith(PKG + "."):
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(m, f):
                        try:
                            self.load(name + "." + f)
                        except ImportError:
                            pass
                return m
            return self.load(PKG)
        if name in self.libs:
            if fromlist:
                return self.libs[name]
            return self.libs[name.split(".")[0]] if name.split(".")[0] in self.libs else self.libs[name]
        top = name.split(".")[0]
        if top in self.libs and not fromlist:
            importlib.import_module(name)
            return self.libs[top]
        m = importlib.import_module(name)
        if fromlist:
            for f in fromlist:
                if f != "*" and not hasattr(m, f):
                    try:
                        importlib.import_module(name + "." + f)
                    except ImportError:
                        pass
            return m
        return sys.modules[top]

    def path_of(self, name):
        p = os.path.join(self.repo, *name.split("."))
        if os.path.isdir(p):
            q = os.path.join(p, "__init__.py")
            return (q if os.path.exists(q) else None), True, p
        if os.path.exists(p + ".py"):
            return p + ".py", False, p
        return None, False, None

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        if "." in name:
            parent = self.load(name.rsplit(".", 1)[0])
        if name in self.modules:
            return self.modules[name]
        path, ispkg, d = self.path_of(name)
        if path is None and not ispkg:
            raise ModuleNotFoundError("No module named %r" % name, name=name)
        m = types.ModuleType(name)
        m.__dict__["__builtins__"] = self.builtins
        m.__file__ = path
        m.__package__ = name if ispkg else name.rsplit(".", 1)[0]
        if ispkg:
            m.__path__ = [d]
        self.modules[name] = m
        if path:
            self.files.add(path)
            src = open(path, encoding="utf-8").read()
            tree = _Rw().visit(ast.parse(src, path))
            ast.fix_missing_locations(tree)
            code = compile(tree, path, "exec", dont_inherit=True)
            try:
                exec(code, m.__dict__)
            except BaseException:
                self.modules.pop(name, None)
                raise
        if "." in name:
            setattr(parent, name.rsplit(".", 1)[1], m)
        return m


class RealPackage:
    """The package as users get it (real numpy, numba, ...)."""

    def __init__(self):
        import numpy

        self.np = numpy
        if sys.path[0] != REPO:
            sys.path.insert(0, REPO)
        self.mod = importlib.import_module(PKG)
        f = os.path.realpath(self.mod.__file__)
        if not f.startswith(os.path.realpath(REPO) + os.sep):
            raise RuntimeError("package imported from " + f)

    def load(self, name):
        return importlib.import_module(name)
