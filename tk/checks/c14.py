"""C14: CP-ALS updates."""
from tk import expr as X
from .common import IMPORTS, commas
RULE = """Abstract interpretation of CP_ALS.fit for given numbers of iterations on symbolic data and starting factor
matrices; the derived factor matrices after each mode update must be the least squares solution (with the mode's ridge
penalty or constraint) against the most recent other factor matrices, in mode order."""
CP = IMPORTS + "from tenkit.decomposition.cp import CP_ALS\nfrom scipy.optimize import nnls\n"
SPEC = """
def kr(fs, mode):
    out = None
    for m in range(len(fs)):
        if m != mode:
            f = fs[m]
            out = f if out is None else np.einsum('ir,jr->ijr', out, f).reshape((out.shape[0]*f.shape[0], f.shape[1]))
    return out

def unf(X, mode):
    return np.moveaxis(X, mode, 0).reshape((X.shape[mode], -1))

def solution(X, fs, mode, kind, lam):
    K = kr(fs, mode)
    M = unf(X, mode)
    if kind == 'plain' and lam is None:
        V = np.ones((K.shape[1], K.shape[1]))
        for m in range(len(fs)):
            if m != mode:
                V = V*(fs[m].T @ fs[m])
        return (M @ K) @ np.linalg.pinv(V)
    if lam is not None:
        R = K.shape[1]
        K = np.concatenate([K, np.sqrt(lam)*np.identity(R)])
        M = np.concatenate([M, np.zeros((M.shape[0], R))], axis=1)
    if kind == 'nonneg':
        W = np.zeros((M.shape[0], K.shape[1]))
        for i in range(M.shape[0]):
            W[i] = nnls(K, M[i])[0]
        return W
    if kind == 'orth':
        U, s, Vt = np.linalg.svd(M @ K, full_matrices=False)
        return U @ Vt
    return M @ np.linalg.pinv(K.T)
"""


def iterate(n, its, kinds=None, ridge=None):
    """Whole iterations through fit()."""
    def go(lab):
        kinds_ = kinds or ["plain"]*n
        R = lab.dims("R")
        # an orthonormal factor matrix has no more columns than rows
        ds = [X.add(R, lab.dims("e%d" % i, lb=0)) if k == "orth" else lab.dims("d%d" % i)
              for i, k in enumerate(kinds_)]
        for i in range(n):
            lab.tensor("U%d" % i, ds[i], R)
        lab.tensor("X", *ds)
        opts = []
        if any(k == "nonneg" for k in kinds_):
            opts.append("non_negativity_constraints=%r" % [k == "nonneg" for k in kinds_])
        if any(k == "orth" for k in kinds_):
            opts.append("orthonormality_constraints=%r" % [k == "orth" for k in kinds_])
        lams = ["None"]*n
        if ridge:
            for i in range(n):
                if i in ridge:
                    lab.number("lam%d" % i, nonneg=True)
            opts.append("ridge_penalties=[%s]" % ", ".join("lam%d" % i if i in ridge else "0" for i in range(n)))
            lams = ["lam%d" % i if i in ridge else "0" for i in range(n)]
        # where the iterations start from, with the constraints imposed, is not the matter here
        src = CP + SPEC + ("model = CP_ALS(R, max_its=0, init='precomputed'%s)\nmodel.fit(X, initial_decomposition=KruskalTensor([%s]))\n"
                           "old = [named(f.copy()) for f in model.factor_matrices]\n" % (
                               "".join(", " + o for o in opts), ", ".join("U%d.copy()" % i for i in range(n))))
        src += ("at('CP_ALS.fit')\nmodel = CP_ALS(R, max_its=1, convergence_tol=-np.inf, rel_loss_tol=-np.inf, "
                "init='precomputed'%s)\nmodel.fit(X, initial_decomposition=KruskalTensor([%s]))\n" % (
                    "".join(", " + o for o in opts), commas("U%d", n)))
        for it in range(its):
            if it:
                src += "old = new\nat('CP_ALS.continue_fit')\nmodel.continue_fit(max_its=%d)\n" % (it + 1)
            src += "new = [named(f) for f in model.factor_matrices]\n"
            for m in range(n):
                # the modes before this one have been updated already, those after it have not
                src += "%s('factor matrix of mode %d', new[%d], solution(X, new[:%d] + old[%d:], %d, %r, %s))\n" % (
                    "check_nondegenerate" if kinds_[m] == "orth" else "check", m, m, m, m, m, kinds_[m], lams[m])
            src += "check('number of modes', len(model.factor_matrices), %d)\n" % n
            src += "check('weights', model.weights, np.ones(R))\n"
        lab.run(src)
    return go


def scenarios(tier):
    out = []
    for n in (2, 3, 4):
        out.append(("order %d, one iteration" % n, iterate(n, 1)))
    out.append(("order 3, two iterations", iterate(3, 2)))
    for m in range(3):
        for kind in ("nonneg", "orth"):
            out.append(("order 3, %s mode %d" % (kind, m), iterate(3, 1, [kind if i == m else "plain" for i in range(3)])))
            if kind == "nonneg" or m == 0:
                out.append(("order 3, %s mode %d with a ridge penalty" % (kind, m),
                            iterate(3, 1, [kind if i == m else "plain" for i in range(3)], [m])))
        out.append(("order 3, ridge on mode %d" % m, iterate(3, 1, None, [m])))
    out.append(("order 2, ridge on both modes", iterate(2, 1, None, [0, 1])))
    return out
