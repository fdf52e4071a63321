"""C09: component extraction, conversion and permutation."""
from .common import IMPORTS, commas, evolving, factors, kruskal_value
RULE = """Abstract interpretation of get_single_component_decomposition, EvolvingTensor.from_kruskaltensor and the
permutation helpers with symbolic entries: sums of the extracted components, converted tensors and permuted factors
are compared with the originals, and the originals must be left as they were."""


def kruskal_single(n, rank):
    def go(lab):
        factors(lab, n, rank=rank)
        lab.tensor("w", rank)
        src = IMPORTS + "T = KruskalTensor([%s], w)\nat('KruskalTensor.get_single_component_decomposition')\n" % commas("U%d", n)
        src += "total = 0\n"
        for r in range(rank):
            src += "S = T.get_single_component_decomposition(%d)\ncheck('rank', S.rank, 1)\n" % r
            src += "check('weight', S.weights, w[%d:%d])\n" % (r, r + 1)
            src += "".join("check('column', S.factor_matrices[%d], U%d[:, %d:%d])\n" % (i, i, r, r + 1) for i in range(n))
            src += "check('rank-one term', S.construct_tensor(), w[%d]*np.einsum('%s', %s))\n" % (
                r, ",".join("ijklmn"[:n]) + "->" + "ijklmn"[:n], ", ".join("U%d[:, %d]" % (i, r) for i in range(n)))
            src += "total = total + S.construct_tensor()\n"
        src += "check('components add up', total, T.construct_tensor())\n"
        lab.run(src)
    return go


def kruskal_any(n):
    """A symbolic component number."""
    def go(lab):
        from tk import expr as X
        R, ds = factors(lab, n)
        lab.tensor("w", R)
        q = X.leaf_info("q", int=True)
        r = X.fresh(R, "r")
        lab.define("r", lab.it.val(X.from_atom(r), "i"))
        src = IMPORTS + "T = KruskalTensor([%s], w)\nat('KruskalTensor.get_single_component_decomposition')\n" % commas("U%d", n)
        src += "S = T.get_single_component_decomposition(r)\n"
        src += "check('rank-one term', S.construct_tensor(), w[r]*np.einsum('%s', %s))\n" % (
            ",".join("ijklmn"[:n]) + "->" + "ijklmn"[:n], ", ".join("U%d[:, r]" % i for i in range(n)))
        lab.run(src)
    return go


def parafac2_single(K, regular):
    def go(lab):
        rank = 2
        evolving(lab, K, regular, True, rank=rank)
        src = IMPORTS + "T = Parafac2Tensor(A, H, C, [%s])\n" % commas("P%d", K)
        src += "at('Parafac2Tensor.get_single_component_decomposition')\n"
        for r in range(rank):
            src += "S%d = T.get_single_component_decomposition(%d)\ncheck('rank', S%d.rank, 1)\n" % (r, r, r)
        for k in range(K):
            for r in range(rank):
                src += "check('rank-one slice', S%d.construct_slice(%d), np.einsum('i,j->ij', A[:, %d]*C[%d, %d], " \
                       "(P%d @ H)[:, %d]))\n" % (r, k, r, k, r, k, r)
            src += "check('components add up', S0.construct_slice(%d) + S1.construct_slice(%d), T.construct_slice(%d))\n" % (
                k, k, k)
        lab.run(src)
    return go


def convert(weights):
    def go(lab):
        R, ds = factors(lab, 3)
        lab.tensor("w", R)
        src = IMPORTS + ("w = np.ones(R)\n" if not weights else "")
        src += "T = KruskalTensor([U0, U1, U2]%s)\n" % (", w" if weights else "")
        src += "V0 = U0.copy(); V1 = U1.copy(); V2 = U2.copy(); w0 = w.copy()\n"
        src += "at('EvolvingTensor.from_kruskaltensor')\nE = EvolvingTensor.from_kruskaltensor(T)\n"
        src += "check('same tensor%s', E.construct_tensor(), %s)\n" % (
            "" if weights else " for unit weights", kruskal_value(3))
        src += "check('rank', E.rank, R)\ncheck('shape', E.shape, T.shape)\n"
        src += "check('original kept', [U0, U1, U2, T.weights], [V0, V1, V2, w0])\n"
        src += "check('same class', EvolvingTensor.from_kruskaltensor(E, allow_same_class=True), E)\n"
        lab.run(src)
    return go


def convert_wrong(lab):
    factors(lab, 4)
    lab.run(IMPORTS + "at('EvolvingTensor.from_kruskaltensor')\n"
            "for fs in ([U0, U1], [U0, U1, U2, U3]):\n"
            "    try:\n        EvolvingTensor.from_kruskaltensor(KruskalTensor(fs))\n        ok = False\n"
            "    except ValueError:\n        ok = True\n"
            "    check('other orders are rejected', ok, True)\n")


def permute(n, perm):
    def go(lab):
        rank = len(perm)
        factors(lab, n, rank=rank)
        lab.tensor("w", rank)
        src = IMPORTS + "fs = [%s]\nperm = %r\n" % (commas("U%d", n), tuple(perm))
        for p in ("perm", "list(perm)"):
            src += "at('utils.permute_factors')\n"
            # a tuple inside an index is a list of positions
            src += "gs = utils.permute_factors(%s, fs)\ncheck('number', len(gs), %d)\n" % (p, n)
            for i in range(n):
                for c, q in enumerate(perm):
                    src += "check('column', gs[%d][:, %d], U%d[:, %d])\n" % (i, c, i, q)
            src += "at('utils.permute_factors_and_weights')\ngs, v = utils.permute_factors_and_weights(%s, fs, w)\n" % p
            src += "check('number', len(gs), %d)\n" % n
            for c, q in enumerate(perm):
                src += "".join("check('column', gs[%d][:, %d], U%d[:, %d])\n" % (i, c, i, q) for i in range(n))
                src += "check('weight', v[%d], w[%d])\n" % (c, q)
            src += "check('same tensor', KruskalTensor(gs, v).construct_tensor(), KruskalTensor(fs, w).construct_tensor())\n"
        lab.run(src)
    return go


def scenarios(tier):
    out = [("conversion with weights", convert(True)), ("conversion, unit weights", convert(False)),
           ("conversion of other orders", convert_wrong)]
    for n in range(2, 6 if tier == "thorough" else 5):
        out.append(("Kruskal components, order %d" % n, kruskal_single(n, 2)))
        out.append(("Kruskal component r, order %d" % n, kruskal_any(n)))
    out.append(("Kruskal components, rank 1", kruskal_single(3, 1)))
    out.append(("Kruskal components, rank 3", kruskal_single(3, 3)))
    for K in (1, 2, 3):
        for reg in (True, False):
            out.append(("PARAFAC2 components, %d %s slices" % (K, "equal" if reg else "independent"),
                        parafac2_single(K, reg)))
    perms = [(0, 1), (1, 0), (2, 0, 1), (1, 2, 0), (2, 1, 0)]
    if tier == "thorough":
        perms += [(3, 0, 2, 1), (1, 3, 0, 2)]
    for p in perms:
        out.append(("permutation %s" % (p,), permute(3, p)))
    return out
