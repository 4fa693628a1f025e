"""C21: systems constructed from PySCF hold PySCF's integrals."""
import contextlib
import io
import sys
import types
from fractions import Fraction as F
from symex.core import Unsupported
from .common import *

CU = "quantum_systems.custom_system"
ASSUMPTIONS = [
    "PySCF is replaced by its contract: integrals are arbitrary functions of geometry, basis, unit, cart and build "
    "options with the symmetries of real orbitals; (ij|kl) in chemists' order; int1e_r relative to the common origin, "
    "D(R) = D(0) - R S; nelectron = nuclear charge - charge; RHF orbitals are an arbitrary matrix, available after kernel()",
    "the concrete runs also build small molecules with the real PySCF and compare with its integrals and RHF energy",
]
CUR = {}


class Mole:
    def __init__(self, **kw):
        self.unit = "angstrom"
        self.charge = 0
        self.spin = 0
        self.cart = False
        self.verbose = 0
        self.symmetry = False
        self.built = False
        self.orig = None
        self.atom = self.basis = None

    def build(self, dump_input=True, parse_arg=True, **kw):
        for k, v in kw.items():
            if v is not None:
                setattr(self, k, v)
        self.extra = tuple(sorted(k for k in kw if k not in (
            "atom", "basis", "unit", "charge", "spin", "cart", "verbose")))
        self.nelectron = sum(CUR["Z"]) - self.charge
        if (self.nelectron + self.spin) % 2:
            raise RuntimeError("Electron number %d and spin %d are not consistent" % (self.nelectron, self.spin))
        self.nao = CUR["env"].p["l"] + (1 if self.cart else 0)
        self.natm = len(CUR["Z"])
        self.built = True
        return self

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("Mole." + name)

    def tot_electrons(self, *a):
        return self.nelectron

    def copy(self, *a):
        m = Mole()
        m.__dict__.update(self.__dict__)
        return m

    def nao_nr(self, *a):
        return self.nao

    @property
    def nelec(self):
        return (self.nelectron + self.spin) // 2, (self.nelectron - self.spin) // 2

    def _key(self, what):
        assert self.built
        u = self.unit.lower() if isinstance(self.unit, str) else str(self.unit)
        u = "au" if u.startswith(("b", "au")) else u
        return "%s|%s|%s|%s|%s|%s|" % (what, self.atom, self.basis, u, bool(self.cart), ",".join(self.extra))

    def energy_nuc(self, *a):
        return CUR["env"].real(self._key("enuc"))

    def atom_charges(self):
        return CUR["env"].np.array(CUR["Z"])

    def atom_charge(self, i):
        return CUR["Z"][i]

    def atom_coords(self, unit="Bohr"):
        R = CUR["env"].real(self._key("R"), (self.natm, 3))
        if not unit.lower().startswith(("b", "au")):
            a = F("0.52917721092") if CUR["env"].symbolic else 0.52917721092
            R = R * a  # lengths are in Bohr inside PySCF
        return R

    def atom_coord(self, i, unit="Bohr"):
        return self.atom_coords(unit)[i]

    def set_common_orig_(self, r):
        self.orig = r
        return self

    set_common_orig = set_common_origin = set_common_origin_ = set_common_orig_

    @contextlib.contextmanager
    def with_common_orig(self, r):
        old, self.orig = self.orig, r
        yield self
        self.orig = old

    with_common_origin = with_common_orig

    def intor_symmetric(self, name, *a, **k):
        return self.intor(name, *a, **k)

    def intor(self, name, *a, **k):
        e = CUR["env"]
        if a or k:
            raise Unsupported("intor options")
        name = name.split("_sph")[0].split("_cart")[0]
        l = self.nao
        if name == "hcore":
            return self.intor("int1e_kin") + self.intor("int1e_nuc")
        if name in ("int1e_ovlp", "int1e_kin", "int1e_nuc"):
            return e.herm(self._key(name), l, real=True)
        if name == "int1e_r":
            d = e.np.zeros((3, l, l))
            s = self.intor("int1e_ovlp")
            for i in range(3):
                d[i] = e.herm(self._key("r%d" % i), l, real=True)
                if self.orig is not None:
                    d[i] = d[i] - self.orig[i] * s
            return d
        if name == "int2e":
            out = e.np.zeros((l,) * 4)
            for i in range(l):
                for j in range(i + 1):
                    for p in range(l):
                        for q in range(p + 1):
                            if (i, j) < (p, q):
                                continue
                            v = e.real(self._key("eri%d%d%d%d" % (i, j, p, q)))
                            for x in ((i, j, p, q), (j, i, p, q), (i, j, q, p), (j, i, q, p)):
                                out[x] = v
                                out[x[2], x[3], x[0], x[1]] = v
            return out
        raise Unsupported(name)


class RHF:
    def __init__(self, mol):
        self.mol = mol
        self.mo_coeff = None
        self.converged = False
        self.verbose = 0

    def kernel(self, *a, **k):
        e = CUR["env"]
        l = self.mol.nao
        self.mo_coeff = e.real(self.mol._key("C%s" % self.mol.nelectron), (l, l))
        self.e_tot = e.real(self.mol._key("ehf"))
        self.converged = bool(e.p.get("converged", True))
        return self.e_tot

    scf = kernel

    def run(self, *a, **k):
        self.kernel()
        return self

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("RHF." + name)

    def energy_tot(self, *a):
        return self.e_tot

    def get_hcore(self, mol=None):
        return (mol or self.mol).intor("hcore")

    def get_ovlp(self, mol=None):
        return (mol or self.mol).intor("int1e_ovlp")


class Module(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("%s.%s" % (self.__name__, name))


def modules():
    py = Module("pyscf")
    gto = Module("pyscf.gto")
    scf = Module("pyscf.scf")
    hf = Module("pyscf.scf.hf")
    gto.Mole = Mole
    gto.M = py.M = lambda **k: Mole().build(**k)
    hf.get_hcore = lambda mol: mol.intor("hcore")
    hf.get_ovlp = lambda mol: mol.intor("int1e_ovlp")
    hf.RHF = scf.RHF = RHF
    scf.hf = hf
    py.gto, py.scf = gto, scf
    return {"pyscf": py, "pyscf.gto": gto, "pyscf.scf": scf, "pyscf.scf.hf": hf}


def stubs():
    return modules()


@contextlib.contextmanager
def _real(env):
    CUR["env"] = env
    new = modules()
    old = {k: v for k, v in sys.modules.items() if k == "pyscf" or k.startswith("pyscf.")}
    for k in old:
        del sys.modules[k]
    sys.modules.update(new)
    CUR["old"] = old
    try:
        yield
    finally:
        _restore(old)


def _restore(old):
    for k in [k for k in sys.modules if k == "pyscf" or k.startswith("pyscf.")]:
        del sys.modules[k]
    sys.modules.update(old)


stubs.real = _real


def phys(env, eri):
    l = eri.shape[0]
    u = env.np.zeros((l,) * 4)
    for p in range(l):
        for q in range(l):
            for r in range(l):
                for s in range(l):
                    u[p, q, r, s] = eri[p, r, q, s]
    return u


def expect(env, kind, charge, cart, extra=()):
    """the integrals a correct construction uses"""
    m = Mole()
    m.unit, m.charge, m.cart = "bohr", charge, cart
    extra = dict(extra)
    m.build(atom="X 0 0 0; Y 0 0 1", basis="some-basis", **dict(extra))
    C = None
    if kind == "rhf":
        z, R = CUR["Z"], m.atom_coords()
        m.orig = [sum(c * R[k, i] for k, c in enumerate(z)) / sum(z) for i in range(3)]
        C = RHF(m)
        C.kernel()
        C = C.mo_coeff
    h, s, u, d = m.intor("hcore"), m.intor("int1e_ovlp"), phys(env, m.intor("int2e")), m.intor("int1e_r")
    d = [d[i] for i in range(3)]
    if C is not None:
        T = C.T
        h, s, u = one_body(env, h, C, T), one_body(env, s, C, T), two_body(env, u, C, T)
        d = [one_body(env, x, C, T) for x in d]
    return m, h, s, u, d


def start(env):
    CUR["env"] = env
    z = env["Z"]
    k = env.choice("nuclei", 3 if z < 3 else 5) if env.p.get("nuclei", True) else 1
    CUR["Z"] = ([z], [1, z - 1], [z - 1, 1], [1, 1, z - 2], [1, z - 2, 1])[k]


def construct(env):
    """every element of the constructed system"""
    start(env)
    kind = env["kind"]
    f = env.get(CU, "construct_pyscf_system_" + kind)
    charge = env["charge"]
    cart = bool(env.p.get("cart"))
    kw = {}
    if charge:
        kw["charge"] = charge
    if cart:
        kw["cart"] = True
    extra = {}
    if env.p.get("extra"):
        extra["nucmod"] = env["extra"]
    if env.p.get("unit"):
        extra["unit"] = env["unit"]
    if env.p.get("verbose"):
        kw["verbose"] = True
    spin, anti = env["spin"], env["anti"]
    if not env.symbolic and "e2e" in env.p:
        _restore(CUR["old"])
        seen = len(env.inputs)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                endtoend(env, kind, spin is None or spin, anti is None or anti)
        finally:
            del env.inputs[seen:]  # not part of the symbolic run
            sys.modules.update(modules())
    if spin is not None:
        kw["add_spin"] = spin
    if anti is not None:
        kw["anti_symmetrize"] = anti
    if env.p.get("np", True):
        kw["np"] = env.np
    sy = f("X 0 0 0; Y 0 0 1", basis="some-basis", **kw, **extra)
    m, h, s, u, d = expect(env, kind, charge, cart, extra)
    spin = True if spin is None else spin
    anti = True if anti is None else anti
    QS = env.mod()
    env.true("kind", type(sy) is (QS.GeneralOrbitalSystem if spin else QS.SpatialOrbitalSystem))
    env.true("module", sy.np is env.np)
    n, l = m.nelectron, m.nao
    if spin:
        h, s, d = spin_double_one(env, h), spin_double_one(env, s), [spin_double_one(env, x) for x in d]
        u = spin_double_two(env, u)
        if anti:
            u = antisym(u)
        l = 2 * l
    else:
        n = n // 2
    env.true("n", sy.n == n)
    env.true("l", sy.l == l)
    env.eq("h", sy.h, h)
    env.eq("s", sy.s, s)
    env.eq("u", sy.u, u)
    env.true("three components", len(sy.dipole_moment) == 3)
    for i in range(3):
        env.eq("dipole %d" % i, sy.dipole_moment[i], d[i])
    env.eq("nuclear repulsion", sy.nuclear_repulsion_energy, m.energy_nuc())
    if spin:
        env.true("anti-symmetrised flag", sy._basis_set.anti_symmetrized_u == anti)


MOLECULES = [
    ("he 0.1 0.2 0.3; h 0.0 0.5 1.9", "6-31g", dict(charge=1)),
    ("be 0 0.4 1", "sto-3g", {}),
    ("li 0 0.4 1; h 0.1 0.2 -1.6", "sto-3g", {}),
    ("ne 0.3 0 0", "cc-pvdz", dict(cart=True)),
    ("h 0 0 0.3; h 0 0.2 1.1", "6-31g", dict(unit="angstrom")),
    ("h 0 0 0.3", "6-31g", dict(charge=-1)),
]


def endtoend(env, kind, spin, anti):
    import numpy as np
    import pyscf

    f = env.get(CU, "construct_pyscf_system_" + kind)
    atom, basis, opt = MOLECULES[env["e2e"] % len(MOLECULES)]
    sy = f(atom, basis=basis, add_spin=spin, anti_symmetrize=anti, **opt)
    m = pyscf.gto.Mole()
    m.build(atom=atom, basis=basis, verbose=0, **dict(dict(unit="bohr"), **opt))
    hf = pyscf.scf.RHF(m)
    hf.kernel()
    k = 2 if spin else 1
    env.true("real PySCF: sizes", sy.l == k * m.nao and sy.n == k * m.nelectron // 2)
    env.eq("real PySCF: nuclear repulsion", sy.nuclear_repulsion_energy, m.energy_nuc())
    H = hf.get_hcore()
    if kind == "rhf":
        c = np.einsum("z,zx->x", m.atom_charges(), m.atom_coords()) / m.atom_charges().sum()
        m.set_common_orig_(c)
        e = sy.compute_reference_energy() + sy.nuclear_repulsion_energy
        if not spin or anti:
            env.eq("real PySCF: RHF energy", e, hf.e_tot, tol=1e-7)
        env.eq("real PySCF: overlap", sy.s, np.eye(k * m.nao), tol=1e-7)
        H = hf.mo_coeff.T @ H @ hf.mo_coeff
        D = [hf.mo_coeff.T @ x @ hf.mo_coeff for x in m.intor("int1e_r")]
    else:
        D = m.intor("int1e_r")
    env.eq("real PySCF: core Hamiltonian spectrum", np.linalg.eigvalsh(sy.h)[::k], np.linalg.eigvalsh(H), tol=1e-6)
    for i in range(3):
        env.eq("real PySCF: dipole %d" % i, np.linalg.eigvalsh(sy.dipole_moment[i])[::k],
               np.linalg.eigvalsh(D[i]), tol=1e-6)


def odd(env):
    """an open shell is refused"""
    start(env)
    f = env.get(CU, "construct_pyscf_system_" + env["kind"])
    for spin in (True, False):
        env.raises("odd number of electrons", Exception, lambda: f(
            "X 0 0 0; Y 0 0 1", basis="some-basis", charge=1, spin=1, add_spin=spin, np=env.np))


B = "arbitrary integrals, coordinates and orbital coefficients, several nuclear charges"
n = 0
for kind in ("ao", "rhf"):
    for spin, anti in ((None, None), (True, True), (True, False), (False, None), (False, True)):
        case("C21", "%s_spin%s_anti%s" % (kind, spin, anti),
             dict(kind=kind, spin=spin, anti=anti, charge=0, Z=2, l=2, e2e=n),
             bounds="2 basis functions, 1 to 3 nuclei; " + B, samples=1, stubs=stubs)(construct)
        n += 1
    for ch, Z in ((1, 3), (-2, 2), (2, 4), (3, 7), (-1, 3)):
        case("C21", "%s_charge%d" % (kind, ch), dict(kind=kind, spin=False, anti=None, charge=ch, Z=Z, l=2),
             bounds="charged molecule; " + B, samples=1, stubs=stubs)(construct)
    case("C21", "%s_cart" % kind, dict(kind=kind, spin=False, anti=None, charge=0, cart=1, Z=2, l=1),
         bounds="cartesian functions; " + B, samples=1, stubs=stubs)(construct)
    case("C21", "%s_options" % kind, dict(kind=kind, spin=False, anti=None, charge=0, extra="G", Z=2, l=2),
         bounds="extra options are handed on; " + B, samples=1, stubs=stubs)(construct)
    case("C21", "%s_unit" % kind, dict(kind=kind, spin=False, anti=None, charge=0, unit="angstrom", Z=2, l=1),
         bounds="another unit of length; " + B, samples=1, stubs=stubs)(construct)
    case("C21", "%s_unit2" % kind, dict(kind=kind, spin=False, anti=None, charge=0, unit="Ang", Z=2, l=2, e2e=4),
         bounds="another unit of length; " + B, samples=1, stubs=stubs)(construct)
    case("C21", "%s_all" % kind, dict(kind=kind, spin=True, anti=False, charge=-1, unit="angstrom", cart=1, extra="G", Z=3, l=1),
         bounds="all options together; " + B, samples=1, stubs=stubs)(construct)
    case("C21", "%s_module" % kind, dict(kind=kind, spin=True, anti=True, charge=0, np=False, Z=2, l=1),
         bounds="default array module; " + B, samples=1, stubs=stubs)(construct)
    case("C21", "%s_unconverged" % kind, dict(kind=kind, spin=False, anti=None, charge=0, Z=2, l=2, converged=False),
         bounds="RHF not converged (a warning only); " + B, samples=1, stubs=stubs)(construct)
    if kind == "rhf":
        case("C21", "rhf_verbose", dict(kind=kind, spin=False, anti=None, charge=0, verbose=1, Z=2, l=1),
             bounds="verbose; " + B, samples=1, stubs=stubs)(construct)
    case("C21", "%s_l3" % kind, dict(kind=kind, spin=False, anti=None, charge=0, Z=4, l=3), "thorough",
         "3 basis functions; " + B, samples=1, stubs=stubs, timeout=2000)(construct)
    case("C21", "%s_odd" % kind, dict(kind=kind, Z=4, l=2), bounds="odd electron number", samples=1,
         stubs=stubs)(odd)
