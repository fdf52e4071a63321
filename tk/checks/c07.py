"""C07: EvolvingTensor and Parafac2Tensor construction."""
from .common import IMPORTS, evolving, commas
RULE = """Abstract interpretation of EvolvingTensor, Parafac2Tensor and ProjectedFactor with K slices of symbolic,
independent widths (and equal widths), symbolic rank and entries; derived slices, the padded tensor, shape, iteration,
indexing, stacking and the irregularity warning are compared with the defining formulas."""


def setup(lab, K, regular, cls, warning, form="list"):
    evolving(lab, K, regular, cls == "Parafac2Tensor")
    pre = IMPORTS
    w = "" if warning is None else ", warning=%s" % warning
    if cls == "Parafac2Tensor":
        pre += "".join("B%d = P%d @ H\n" % (k, k) for k in range(K))
        pre += "at('Parafac2Tensor')\nT = Parafac2Tensor(A, H, C, %s%s)\n" % (
            ("[%s]" if form == "list" else "(%s,)") % commas("P%d", K), w)
    elif form == "array":
        pre += "at('EvolvingTensor')\nT = EvolvingTensor(A, np.stack([%s]), C%s)\n" % (commas("B%d", K), w)
    else:
        pre += "at('EvolvingTensor')\nT = EvolvingTensor(A, [%s], C%s)\n" % (commas("B%d", K), w)
    lab.run(pre)


def slices(K, regular, cls, form="list"):
    def go(lab):
        setup(lab, K, regular, cls, None, form)
        src = "at('%s.construct_slices')\nS = T.construct_slices()\ncheck('number of slices', len(S), %d)\n" % (cls, K)
        for k in range(K):
            src += "check('slice', S[%d], np.einsum('ir,r,jr->ij', A, C[%d], B%d))\n" % (k, k, k)
        src += "at('%s.construct_slice')\n" % cls
        for k in range(K):
            src += "check('slice', T.construct_slice(%d), np.einsum('ir,r,jr->ij', A, C[%d], B%d))\n" % (k, k, k)
        src += "at('%s.B')\ncheck('number of B_k', len(T.B), %d)\n" % (cls, K)
        for k in range(K):
            src += "check('B_k', T.B[%d], B%d)\n" % (k, k)
        src += "at('%s.B iterated')\nbs = list(T.B)\ncheck('number', len(bs), %d)\n" % (cls, K)
        for k in range(K):
            src += "check('B_k', bs[%d], B%d)\n" % (k, k)
        src += "at('%s.B_unfolded')\ncheck('stacked', T.B_unfolded, np.concatenate([%s], axis=0))\n" % (
            cls, commas("B%d", K))
        src += "at('%s indexing')\ncheck('mode 0', T[0], A)\ncheck('mode 2', T[2], C)\n" % cls
        src += "".join("check('mode 1', T[1][%d], B%d)\n" % (k, k) for k in range(K))
        src += "fm = T.factor_matrices\ncheck('A', fm[0], A)\ncheck('C', fm[2], C)\n"
        src += "".join("check('B_k', fm[1][%d], B%d)\n" % (k, k) for k in range(K))
        src += "check('A', T.A, A)\ncheck('C', T.C, C)\ncheck('rank', T.rank, R)\n"
        if cls == "Parafac2Tensor":
            src += "check('blueprint', T.blueprint_B, H)\n"
            src += "".join("check('projection', T.projection_matrices[%d], P%d)\n" % (k, k) for k in range(K))
            src += "at('ProjectedFactor')\nbl = T.B.as_list()\ncheck('as_list', len(bl), %d)\n" % K
            src += "".join("check('as_list entry', bl[%d], B%d)\n" % (k, k) for k in range(K))
            src += "check('indexing with several indices', T.B[%d, :, 0], B%d[:, 0])\n" % (K - 1, K - 1)
            src += "check('negative index', T.B[-1], B%d)\n" % (K - 1)
        lab.run(src)
    return go


def tensor(K, regular, cls, form="list"):
    def go(lab):
        setup(lab, K, regular, cls, "False" if not regular else None, form)
        src = "at('%s.construct_tensor')\nX = T.construct_tensor()\n" % cls
        width = "J" if regular else "max(%s)" % commas("J%d", K) if K > 1 else "J0"
        src += "check('shape', X.shape, (I, %s, %d))\n" % (width, K)
        src += "at('%s.shape')\ncheck('shape attribute', T.shape, [I, %s, %d])\n" % (cls, width, K)
        src += "at('%s.construct_tensor')\n" % cls
        for k in range(K):
            src += "Z = np.zeros((I, %s)); Z[:, :J%d] = np.einsum('ir,r,jr->ij', A, C[%d], B%d)\n" % (width, k, k, k)
            src += "check('slice padded with zeros', X[:, :, %d], Z)\n" % k
        lab.run(src)
    return go


def warn(K, cls, odd):
    """The odd-th slice is certainly wider than the others, which are equal."""
    def go(lab):
        from tk import expr as X
        R, I = lab.dims("R", "I")
        js = [lab.dims("J0")]
        js = [X.add(js[0], X.ONE_E) if k == odd else js[0] for k in range(K)]
        lab.tensor("A", I, R)
        lab.tensor("C", K, R)
        lab.tensor("H", R, R)
        for k in range(K):
            lab.tensor("P%d" % k, js[k], R)
        make = {"EvolvingTensor": "EvolvingTensor(A, Ps, C%s)", "Parafac2Tensor": "Parafac2Tensor(A, H, C, Ps%s)"}[cls]
        src = IMPORTS + "Ps = [%s]\nSame = [%s]\n" % (commas("P%d", K), ", ".join(["P%d" % odd] * K))
        src += """
def raised(T):
    try:
        T.construct_tensor()
        return False
    except Warning:
        return True
"""
        src += "at('%s.construct_tensor')\n" % cls
        for w, want in (("", True), (", warning=True", True), (", warning=False", False)):
            src += "check('warning for irregular slices%s', raised(%s), %s)\n" % (
                w.replace(",", " with"), make % w, want)
        for w in ("", ", warning=True", ", warning=False"):
            src += "check('no warning for equal slices%s', raised(%s), False)\n" % (
                w.replace(",", " with"), make.replace("Ps", "Same") % w)
        src += "for w in (True, False):\n    check('slices never warn', len(%s.construct_slices()), %d)\n" % (
            make % ", warning=w", K)
        lab.run(src)
    return go


def made(lab):
    """from_factor_matrices and live factor matrices."""
    evolving(lab, 2, False, False)
    lab.run(IMPORTS + "at('EvolvingTensor.from_factor_matrices')\n"
            "T = EvolvingTensor.from_factor_matrices([A, [B0, B1], C])\n"
            "for k, B in enumerate([B0, B1]):\n"
            "    check('slice', T.construct_slice(k), A @ np.diag(C[k]) @ B.T)\n"
            "A[...] = 2*A\n"
            "at('EvolvingTensor.construct_slice after a change')\n"
            "check('slice', T.construct_slice(1), A @ np.diag(C[1]) @ B1.T)\n")


def live(lab):
    """The B_k follow the blueprint matrix when it is updated in place."""
    R, I, js = evolving(lab, 2, False, True)
    lab.tensor("G", R, R)
    lab.run(IMPORTS + "T = Parafac2Tensor(A, H, C, [P0, P1])\nH[...] = G\nP1[...] = 3*P1\n"
            "at('Parafac2Tensor after in-place updates')\n"
            "check('slice 0', T.construct_slice(0), A @ np.diag(C[0]) @ (P0 @ G).T)\n"
            "check('slice 1', T.construct_slice(1), A @ np.diag(C[1]) @ (P1 @ G).T)\n"
            "check('stacked', T.B_unfolded, np.concatenate([P0 @ G, P1 @ G]))\n")


def scenarios(tier):
    out = [("from_factor_matrices", made), ("in-place updates", live)]
    Ks = (1, 2, 3, 4) if tier == "thorough" else (1, 2, 3)
    for cls in ("EvolvingTensor", "Parafac2Tensor"):
        for K in Ks:
            for reg in (False, True):
                if K == 1 and reg:
                    continue
                tag = "%s, %d %s slices" % (cls, K, "equal" if reg else "independent")
                out.append((tag, slices(K, reg, cls)))
                if K <= 3:
                    out.append((tag + ", tensor", tensor(K, reg, cls)))
            if K > 1:
                for odd in range(K):
                    out.append(("%s, warning with %d slices, slice %d wider" % (cls, K, odd), warn(K, cls, odd)))
    out.append(("EvolvingTensor, B as an array", slices(2, True, "EvolvingTensor", "array")))
    out.append(("EvolvingTensor, B as an array, tensor", tensor(2, True, "EvolvingTensor", "array")))
    out.append(("Parafac2Tensor, tuple of projections", slices(2, False, "Parafac2Tensor", "tuple")))
    return out
