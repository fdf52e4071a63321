"""C08: normalisation."""
from .common import IMPORTS, commas, factors, kruskal_value
RULE = """Abstract interpretation of KruskalTensor.normalize_components, KruskalTensor.random_init and the
normalisation helpers of utils with symbolic sizes and entries (columns not zero): the constructed tensor after
normalisation must have the same normal form, every column the unit norm and the reported norms restore the input."""


def comp(n, eps, update):
    def go(lab):
        R, ds = factors(lab, n)
        lab.tensor("w", R)
        call = ", ".join((["update_weights=%s" % update] if update is not None else []) +
                         (["eps=0"] if eps == 0 else []))
        chk = "check" if eps == 0 else "check_rounded"
        src = IMPORTS + "T = KruskalTensor([%s], w)\nbefore = %s\nw0 = w.copy()\n" % (
            commas("U%d", n), kruskal_value(n))
        src += "".join("V%d = U%d.copy()\n" % (i, i) for i in range(n))
        src += "at('KruskalTensor.normalize_components')\nT2 = T.normalize_components(%s)\n" % call
        src += "check('returns the tensor itself', T2, T)\n"
        for i in range(n):
            src += "%s('unit norm', np.sum(T.factor_matrices[%d]**2, axis=0), np.ones(R))\n" % (chk, i)
            src += "%s('direction', T.factor_matrices[%d]*np.sqrt(np.sum(V%d**2, axis=0)), V%d)\n" % (chk, i, i, i)
        if update is False:
            src += "check('weights kept', T.weights, w0)\n"
        else:
            src += "%s('same tensor', T.construct_tensor(), before)\n" % chk
        lab.run(src)
    return go


def twice(lab):
    R, ds = factors(lab, 3)
    lab.tensor("w", R)
    lab.run(IMPORTS + "T = KruskalTensor([U0, U1, U2], w)\nbefore = %s\n" % kruskal_value(3) +
            "T.normalize_components(eps=0)\nT.normalize_components(eps=0)\n"
            "at('KruskalTensor.normalize_components twice')\n"
            "check('same tensor', T.construct_tensor(), before)\n")


def shared(lab):
    """A factor matrix used for two modes (a symmetric tensor built from a copy is the normal case)."""
    R, ds = factors(lab, 2)
    lab.run(IMPORTS + "T = KruskalTensor([U0, U1, U0.copy()])\nw = np.ones(R)\nbefore = T.construct_tensor()\n"
            "T.normalize_components(eps=0)\nat('KruskalTensor.normalize_components default weights')\n"
            "check('same tensor', T.construct_tensor(), before)\n")


def integer_weights(lab):
    factors(lab, 3, rank=2)
    lab.run(IMPORTS + "T = KruskalTensor([U0, U1, U2], [1, 2])\nbefore = T.construct_tensor()\n"
            "at('KruskalTensor.normalize_components with integer weights')\nT.normalize_components(eps=0)\n"
            "check('same tensor', T.construct_tensor(), before)\n")


def helpers(n):
    def go(lab):
        factors(lab, n)
        src = IMPORTS + "fs = [%s]\nat('utils.normalize_factors')\nus, ns = utils.normalize_factors(fs)\n" % commas("U%d", n)
        src += "check('number of matrices', (len(us), len(ns)), (%d, %d))\n" % (n, n)
        for i in range(n):
            src += "check_rounded('unit norm', np.sum(us[%d]**2, axis=0), np.ones(R))\n" % i
            src += "check_rounded('norms restore the matrix', us[%d]*np.ravel(ns[%d]), U%d)\n" % (i, i, i)
        src += "at('utils.normalize_factor')\nu, s = utils.normalize_factor(U0, eps=0)\n"
        src += "check('unit norm', np.sum(u**2, axis=0), np.ones(R))\ncheck('norms restore the matrix', u*s, U0)\n"
        src += "check('norms', np.ravel(s), np.sqrt(np.sum(U0**2, axis=0)))\n"
        lab.run(src)
    return go


def random(n, method):
    def go(lab):
        lab.dims("R")
        for i in range(n):
            lab.dims("d%d" % i)
        m = "" if method is None else ", random_method=%r" % method
        src = IMPORTS + "at('KruskalTensor.random_init')\nT = KruskalTensor.random_init([%s], R%s)\n" % (commas("d%d", n), m)
        src += "check('weights', T.weights, np.ones(R))\ncheck('mode lengths', T.shape, [%s])\n" % commas("d%d", n)
        for i in range(n):
            src += "check_rounded('unit norm', np.sum(T.factor_matrices[%d]**2, axis=0), np.ones(R))\n" % i
        lab.run(src)
    return go


def random_helpers(n):
    def go(lab):
        lab.dims("R")
        for i in range(n):
            lab.dims("d%d" % i)
        src = IMPORTS
        for f in ("create_random_factors", "create_random_uniform_factors"):
            src += "at('utils.%s')\nfs, ns = utils.%s([%s], R)\ncheck('number of matrices', len(fs), %d)\n" % (
                f, f, commas("d%d", n), n)
            for i in range(n):
                src += "check('shape', fs[%d].shape, (d%d, R))\n" % (i, i)
                src += "check_rounded('unit norm', np.sum(fs[%d]**2, axis=0), np.ones(R))\n" % i
        lab.run(src)
    return go


def scenarios(tier):
    out = [("twice", twice), ("integer weights", integer_weights), ("default weights", shared)]
    for n in range(2, 6 if tier == "thorough" else 5):
        for eps in (0, None):
            for up in (None, True, False):
                out.append(("order %d, eps %s, update_weights %s" % (n, eps, up), comp(n, eps, up)))
        out.append(("helpers, order %d" % n, helpers(n)))
        for m in (None, "normal", "uniform", "Uniform"):
            out.append(("random_init %s, order %d" % (m, n), random(n, m)))
        out.append(("random helpers, order %d" % n, random_helpers(n)))
    return out
