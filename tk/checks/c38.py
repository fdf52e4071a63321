"""C38: the stand-alone initialiser of CP factor matrices."""
from .common import IMPORTS, commas
from .. import expr as X
RULE = """Abstract interpretation of Base_CP.init_factors with symbolic mode lengths, rank and entries, for tensors of several
orders and every scheme: the factor matrices must be the leading left singular vectors of the tensor's unfoldings or
unit length columns of fresh normal draws, the weights ones, and other scheme names must be rejected."""
HEAD = IMPORTS + "from tenkit.base_tensor_decomposition import Base_CP\n"


def svd(n, by_position):
    def go(lab):
        R = lab.dims("R")
        ds = [X.add(R, lab.dims("e%d" % i, lb=0)) for i in range(n)]
        lab.tensor("X", *ds, origin="X")
        src = HEAD + "at('Base_CP.init_factors')\nfs, w = Base_CP(R, 'svd').init_factors(X, R, %s'svd')\n" % (
            "" if by_position else "init_scheme=")
        src += "check('number of factor matrices', len(fs), %d)\ncheck('weights', w, np.ones((%d, R)))\n" % (n, n)
        for m in range(n):
            src += """
W = np.linalg.svd(np.moveaxis(X, %d, 0).reshape(X.shape[%d], -1))[0][:, :R]
check_rounded('mode %d holds the leading singular vectors of the unfolding', np.abs(fs[%d]), np.abs(W))
""" % (m, m, m, m)
        lab.run(src)
    return go


def random(n, scheme):
    def go(lab):
        lab.dims("R")
        ds = [lab.dims("d%d" % i) for i in range(n)]
        lab.tensor("X", *ds, origin="X")
        src = HEAD + "at('Base_CP.init_factors')\nfs, w = Base_CP(R, 'random').init_factors(X, R%s)\n" % scheme
        src += "check('number of factor matrices', len(fs), %d)\ncheck('weights', w, np.ones((%d, R)))\n" % (n, n)
        for m in range(n):
            src += "check('shape of mode %d', fs[%d].shape, (d%d, R))\n" % (m, m, m)
            src += "check_rounded('unit columns of mode %d', np.sum(fs[%d]**2, axis=0), np.ones(R))\n" % (m, m)
        src += "kept = [f.copy() for f in fs]\nagain, v = Base_CP(R, 'random').init_factors(X, R%s)\n" % scheme
        src += "for f in again:\n    f[...] = 0\nv[...] = 0\ncheck('a second start leaves the first alone', fs, kept)\n"
        src += "check('and its weights', w, np.ones((%d, R)))\n" % n
        lab.run(src)
    return go


def rejected(name):
    def go(lab):
        lab.dims("R")
        lab.tensor("X", lab.dims("d0"), lab.dims("d1"), lab.dims("d2"))
        lab.run(HEAD + """
at('Base_CP.init_factors')
try:
    Base_CP(R, %r).init_factors(X, R, init_scheme=%r)
except ValueError:
    outcome = 'rejected'
else:
    outcome = 'accepted'
check('unknown scheme %%s' %% %r, outcome, 'rejected')
""" % (name, name, name))
    return go


def scenarios(tier):
    out = []
    for n in range(2, 6 if tier == "thorough" else 5):
        out.append(("svd, order %d" % n, svd(n, n == 3)))
        for scheme in ("", ", init_scheme='random'", ", 'random'"):
            out.append(("random, order %d%s" % (n, scheme), random(n, scheme)))
    for name in ("cp", "", "rand", "precomputed"):
        out.append(("unknown %r" % name, rejected(name)))
    return out
