"""C06: KruskalTensor.construct_tensor."""
from .common import IMPORTS, commas, factors, kruskal_value
RULE = """Abstract interpretation of KruskalTensor (constructor, shape, construct_tensor, indexing) with symbolic mode
lengths, rank and entries for each order; the derived entry formula must be the weighted sum of products."""


def one(n, weights):
    def go(lab):
        R, ds = factors(lab, n)
        lab.tensor("w", R)
        if weights == "none":
            lab.run("import numpy as np\nw = np.ones(R)")
        lab.run(IMPORTS + "at('KruskalTensor')\nfs = [%s]\nT = KruskalTensor(fs%s)\n" % (
            commas("U%d", n), {"none": "", "given": ", w", "keyword": ", weights=w"}[weights]) +
            "at('KruskalTensor.construct_tensor')\nX = T.construct_tensor()\n"
            "check('shape of the tensor', X.shape, (%s))\n" % commas("d%d", n) +
            "check('entries', X, %s)\n" % kruskal_value(n) +
            "at('KruskalTensor.shape')\ncheck('mode lengths', T.shape, [%s])\n" % commas("d%d", n) +
            "at('KruskalTensor')\ncheck('rank', T.rank, R)\ncheck('weights', T.weights, w)\n" +
            "".join("check('indexing', T[%d], U%d)\ncheck('factor matrices', T.factor_matrices[%d], U%d)\n" % (i, i, i, i)
                    for i in range(n)) +
            "T.reset_weights()\nw = np.ones(R)\nat('KruskalTensor.reset_weights')\n"
            "check('entries with unit weights', T.construct_tensor(), %s)\n" % kruskal_value(n))
    return go


def listed(lab):
    """Weights given as a list."""
    R, ds = factors(lab, 3, rank=2)
    lab.number("w0")
    lab.number("w1")
    lab.run(IMPORTS + "at('KruskalTensor')\nT = KruskalTensor([U0, U1, U2], [w0, w1])\nw = np.array([w0, w1])\n"
            "at('KruskalTensor.construct_tensor')\ncheck('entries', T.construct_tensor(), %s)" % kruskal_value(3))


def changed(n):
    """Construction uses the factor matrices and weights the object holds now."""
    def go(lab):
        R, ds = factors(lab, n)
        lab.tensor("w", R)
        for i in range(n):
            lab.tensor("V%d" % i, ds[i], R)
        lab.run(IMPORTS + "T = KruskalTensor([%s], w)\nX = T.construct_tensor()\n" % commas("U%d", n) +
                "".join("T.factor_matrices[%d][...] = V%d\n" % (i, i) for i in range(n)) +
                "T.weights[...] = 2*T.weights\n"
                "at('KruskalTensor.construct_tensor after a change')\n"
                "check('entries', T.construct_tensor(), %s)\n" % kruskal_value(n, "V"))
    return go


def shared(lab):
    """A symmetric tensor: one factor matrix in two modes."""
    R, ds = factors(lab, 3)
    lab.tensor("w", R)
    lab.run(IMPORTS + "at('KruskalTensor.construct_tensor')\nT = KruskalTensor([U0, U1, U0, U0], w)\n"
            "check('entries', T.construct_tensor(), np.einsum('r,ir,jr,kr,lr->ijkl', w, U0, U1, U0, U0))\n"
            "check('mode lengths', T.shape, [d0, d1, d0, d0])\n")


def scenarios(tier):
    out = [("weights as a list", listed), ("a factor matrix used three times", shared)]
    for n in range(2, 7 if tier == "thorough" else 6):
        for w in ("none", "given", "keyword"):
            out.append(("order %d, weights %s" % (n, w), one(n, w)))
        out.append(("order %d, changed" % n, changed(n)))
    return out
