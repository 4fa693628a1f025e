"""C23: shapes are validated on assignment."""
from .common import *

ASSUMPTIONS = [
    "array shapes, the basis size and the dimension are unbounded symbolic integers >= 1; the number of axes is fixed per case (2 for one-body, 4 for two-body arrays)",
    "the arrays are stand-ins that carry only a shape in the symbolic run, real zero arrays in concrete runs",
]


class Fake:
    """an array of which only the shape is known"""

    def __init__(self, shape):
        self.shape = tuple(shape)
        self.ndim = len(self.shape)
        self.dtype = float

    def __len__(self):
        return int(self.shape[0])


def make(env, shape):
    return Fake(shape) if env.symbolic else env.np.zeros(shape)


def dims(env, name, n, hi=None):
    return [env.int("%s%d" % (name, i), 1, hi) for i in range(n)]


def equal(ds, l):
    for d in ds:
        if not bool(d == l):
            return False
    return True


def assign(env):
    """an array is accepted exactly when every axis has the basis size"""
    qs = env.mod()
    nm, rank = env["attr"], env["rank"]
    hi = None if env.symbolic else 6
    l = env.int("l", 1, hi)
    bs = qs.BasisSet(l, 1, np=env.np, includes_spin=env["spin"])
    ds = dims(env, "d", rank, hi)
    A = make(env, ds)
    needs_spin = nm.startswith("spin")
    ok = equal(ds, l) and (env["spin"] or not needs_spin)
    if ok:
        setattr(bs, nm, A)
        env.true("stored", getattr(bs, nm) is A)
    else:
        env.raises("refused", REFUSED, lambda: setattr(bs, nm, A))
        env.true("nothing stored", getattr(bs, nm) is None)


for nm, r in [("h", 2), ("s", 2), ("u", 4)]:
    case("C23", nm, dict(attr=nm, rank=r, spin=False), samples=12, bounds="all sizes, %d axes" % r)(assign)
for nm, r in [("spin_x", 2), ("spin_y", 2), ("spin_z", 2), ("spin_2", 2), ("spin_2_tb", 4)]:
    case("C23", nm, dict(attr=nm, rank=r, spin=True), samples=8, bounds="all sizes, %d axes" % r)(assign)
    case("C23", nm + "-without-spin", dict(attr=nm, rank=r, spin=False), samples=2,
         bounds="all sizes, %d axes" % r)(assign)


def dipole(env):
    """dipole moments: one (l, l) matrix per dimension"""
    qs = env.mod()
    hi = None if env.symbolic else 4
    l = env.int("l", 1, hi)
    dim, n = env["dim"], env["n"]
    bs = qs.BasisSet(l, dim, np=env.np)
    shapes = [dims(env, "c%d_" % i, 2, hi) for i in range(n)]
    D = [make(env, s) for s in shapes]
    ok = n == dim and all(equal(s, l) for s in shapes)
    if ok:
        bs.dipole_moment = D
        env.true("stored", bs.dipole_moment is D)
    else:
        env.raises("refused", REFUSED, lambda: setattr(bs, "dipole_moment", D))
        env.true("nothing stored", bs.dipole_moment is None)


for dim, n in [(1, 1), (2, 2), (2, 1), (1, 2), (3, 3)]:
    case("C23", "dipole-%d-%d" % (dim, n), dict(dim=dim, n=n), samples=6,
         bounds="dim=%d, %d matrices, all sizes" % (dim, n))(dipole)


def orbitals(env):
    """orbitals: first axis is the basis size, one further axis per dimension"""
    qs = env.mod()
    hi = None if env.symbolic else 4
    l = env.int("l", 1, hi)
    dim, rank, nm = env["dim"], env["rank"], env["attr"]
    bs = qs.BasisSet(l, dim, np=env.np)
    ds = dims(env, "d", rank, hi)
    A = make(env, ds)
    if bool(ds[0] == l) and rank == dim + 1:
        setattr(bs, nm, A)
        env.true("stored", getattr(bs, nm) is A)
    else:
        env.raises("refused", REFUSED, lambda: setattr(bs, nm, A))
        env.true("nothing stored", getattr(bs, nm) is None)
    setattr(bs, nm, None)
    env.true("cleared", getattr(bs, nm) is None)


for nm in ("spf", "bra_spf"):
    for dim, rank in [(1, 2), (2, 3), (2, 2), (1, 3), (3, 4), (1, 1)]:
        case("C23", "%s-%d-%d" % (nm, dim, rank), dict(attr=nm, dim=dim, rank=rank), samples=6,
             bounds="dim=%d, %d axes, all sizes" % (dim, rank))(orbitals)
