"""C16: coupled matrix-tensor fitting."""
from tk import expr as X
from .c14 import CP, SPEC
from .common import commas
RULE = """Abstract interpretation of CMTF_ALS.fit, fit_transform and continue_fit on symbolic tensors, coupled matrices and
starting points: each derived factor matrix must be the least squares solution of the tensor and all the matrices coupled
to its mode jointly, against the most recent other factors; each matrix's own factor the solution given the shared one;
and normalising (or going on after it) must leave the modelled tensor and matrices as they were."""

HEAD = CP + "from tenkit.decomposition.cmtf import CMTF_ALS\n" + SPEC + """
def coupled_solution(X, Ys, modes, fs, Vs, mode, kind, lam):
    extra = [i for i in range(len(modes)) if modes[i] == mode]
    if len(extra) == 0:
        return solution(X, fs, mode, kind, lam)
    K = np.concatenate([kr(fs, mode)] + [Vs[i] for i in extra], axis=0)
    M = np.concatenate([unf(X, mode)] + [Ys[i] for i in extra], axis=1)
    R = K.shape[1]
    if lam is not None:
        K = np.concatenate([K, np.sqrt(lam)*np.identity(R)])
        M = np.concatenate([M, np.zeros((M.shape[0], R))], axis=1)
    if kind == 'nonneg':
        W = np.zeros((M.shape[0], R))
        for i in range(M.shape[0]):
            W[i] = nnls(K, M[i])[0]
        return W
    if kind == 'orth':
        U, s, Vt = np.linalg.svd(M @ K, full_matrices=False)
        return U @ Vt
    return M @ np.linalg.pinv(K.T)

def own_factor(Y, A, kind):
    if kind == 'nonneg':
        W = np.zeros((Y.shape[1], A.shape[1]))
        for i in range(Y.shape[1]):
            W[i] = nnls(A, Y[:, i])[0]
        return W
    return Y.T @ np.linalg.pinv(A.T)

class Watched(CMTF_ALS):
    'Notes where an iteration starts from; the hook is the one the repository\\'s tests use.'
    started = None
    updates = []
    def _update_als_factor(self, mode):
        if mode == 0:
            self.started = [f.copy() for f in self.factor_matrices]
            self.own = [f.copy() for f in self.uncoupled_factor_matrices]
            self.old_weights = self.weights.copy()
        self.updates = self.updates + [mode]
        super()._update_als_factor(mode)

class Watch:
    'Notes where it leads to.'
    def log(self, model):
        self.factors = [f.copy() for f in model.factor_matrices]
        self.own = [f.copy() for f in model.uncoupled_factor_matrices]
        self.weights = model.weights.copy()
"""


def problem(lab, n, modes, kinds):
    R = lab.dims("R")
    ds = [X.add(R, lab.dims("e%d" % i, lb=0)) if k == "orth" else lab.dims("d%d" % i) for i, k in enumerate(kinds)]
    for i in range(n):
        lab.tensor("U%d" % i, ds[i], R)
    lab.tensor("X", *ds)
    for i, m in enumerate(modes):
        lab.tensor("Y%d" % i, ds[m], lab.dims("m%d" % i))


def options(kinds, lams):
    o = ""
    if "nonneg" in kinds:
        o += ", non_negativity_constraints=%r" % [k == "nonneg" for k in kinds]
    if "orth" in kinds:
        o += ", orthonormality_constraints=%r" % [k == "orth" for k in kinds]
    if any(l != "None" for l in lams):
        o += ", ridge_penalties=[%s]" % ", ".join(lams)
    return o


def products(v, n, modes):
    """The modelled tensor and matrices of a state."""
    t = "np.einsum('%s->%s', %s)" % (",".join("abcd"[i] + "r" for i in range(n)) + ",r", "abcd"[:n],
                                    ", ".join("%s[0][%d]" % (v, i) for i in range(n)) + ", %s[2]" % v)
    return t, ["%s[0][%d] @ %s[1][%d].T" % (v, m, v, i) for i, m in enumerate(modes)]


def fitted(modes, kinds=None, n=3, ridge=(), init="precomputed", transform=False):
    def go(lab):
        ks = kinds or ["plain"]*n
        problem(lab, n, modes, ks)
        for m in ridge:
            lab.number("lam%d" % m, nonneg=True)
        lams = ["lam%d" % m if m in ridge else "0" for m in range(n)] if ridge else ["None"]*n
        args = "X, [%s], %r" % (commas("Y%d", len(modes)), list(modes))
        call = "fit_transform" if transform else "fit"
        src = HEAD + """
Ys = [{ys}]
modes = {modes}
watch = Watch()
at('CMTF_ALS.{call}')
model = Watched(R, max_its=1, convergence_tol=-np.inf, rel_loss_tol=-np.inf, init={init!r}, loggers=[watch]{opts})
result = model.{call}({args}{start})
if model.started is None:
    note('the start of the iteration could not be observed')
else:
""".format(ys=commas("Y%d", len(modes)), modes=list(modes), init=init, opts=options(ks, lams), args=args, call=call,
           start=", initial_decomposition=KruskalTensor([%s])" % ", ".join("U%d.copy()" % i for i in range(n))
           if init == "precomputed" else "")
        body = "check('order of the updates', model.updates, %r)\n" % list(range(n))
        if init == "precomputed":
            body += "".join("check('start of mode %d', model.started[%d], U%d)\n" % (m, m, m)
                            for m in range(n) if ks[m] != "orth")
        body += look(n, modes, ks, lams)
        lab.run(src + "".join("    " + l + "\n" for l in body.split("\n")))
    return go


def after(modes, n=3, kinds=None, its=1):
    """The (normalised) result of a fit, and going on from it; the factor matrices at its end are given, so that their columns
    are not zero: a component without weight in the tensor cannot keep a contribution to the matrices."""
    def go(lab):
        ks = kinds or ["plain"]*n
        problem(lab, n, modes, ks)
        body = HEAD + """
class Placed(CMTF_ALS):
    started = None
    def _update_als_factor(self, mode):
        if mode == 0:
            self.started = [[f.copy() for f in self.factor_matrices], [f.copy() for f in self.uncoupled_factor_matrices], self.weights.copy()]
        self.factor_matrices[mode][...] = Us[mode]

Us = [{us}]
Ys = [{ys}]
modes = {modes}
at('CMTF_ALS.fit_transform')
model = Placed(R, max_its=1, convergence_tol=-np.inf, rel_loss_tol=-np.inf, init='random'{opts})
result = model.fit_transform(X, Ys, {modes})
if model.started is None:
    note('the start of the iteration could not be observed')
else:
    new = [Us, [{own}], np.ones(R)]
    NORMALISED
    check_true('returned decomposition', result[0] is model.decomposition)
    check('number of returned pairs', len(result[1]), {n})
    for i in range({n}):
        check('length of a pair', len(result[1][i]), 2)
        check_rounded('returned pair', result[1][i][0] @ result[1][i][1].T, new[0][modes[i]] @ new[1][i].T)
        check('returned shared factor', result[1][i][0], model.decomposition.factor_matrices[modes[i]])
    at('CMTF_ALS.continue_fit')
    model.continue_fit(max_its=2)
    now = model.started
""".format(n=len(modes), us=commas("U%d", n), ys=commas("Y%d", len(modes)), modes=list(modes), opts=options(ks, ["None"]*n),
           own=", ".join("own_factor(Ys[%d], Us[%d], %r)" % (i, m, "nonneg" if ks[m] == "nonneg" else "plain")
                         for i, m in enumerate(modes)))
        body = body.replace("    NORMALISED\n", "".join("    " + l + "\n" for l in normalised(n, modes).split("\n")))
        (t0, m0), (t1, m1) = products("new", n, modes), products("now", n, modes)
        body += "    check_generic('tensor when going on', %s, %s)\n" % (t1, t0)
        for i in range(len(modes)):
            body += "    check_generic('matrix %d when going on', %s, %s)\n" % (i, m1[i], m0[i])
        lab.run(body)
    return go


def look(n, modes, ks, lams):
    src = """
check('weights after the updates', watch.weights, np.ones(R))
old = [[named(f) for f in model.started], [named(f) for f in model.own]]
new = [[named(f) for f in watch.factors], [named(f) for f in watch.own], watch.weights]
"""
    for m in range(n):
        src += "%s('factor matrix of mode %d%s', new[0][%d], coupled_solution(X, Ys, modes, new[0][:%d] + old[0][%d:], old[1], %d, %r, %s))\n" % (
            "check_nondegenerate" if "orth" in ks else "check", m, ", coupled" if m in modes else "", m, m, m, m, ks[m], lams[m])
    for i, m in enumerate(modes):
        src += "check('own factor of matrix %d', new[1][%d], own_factor(Ys[%d], new[0][%d], %r))\n" % (
            i, i, i, m, "nonneg" if ks[m] == "nonneg" else "plain")
    return src


def normalised(n, modes):
    (t0, m0) = products("new", n, modes)
    src = "end = [model.decomposition.factor_matrices, model.uncoupled_factor_matrices, model.decomposition.weights]\n"
    (t1, m1) = products("end", n, modes)
    src += "check_rounded('tensor after normalising', %s, %s)\n" % (t1, t0)
    src += "check_rounded('reconstructed_X', model.reconstructed_X, %s)\n" % t0
    src += "check('number of modelled matrices', len(model.reconstructed_coupled_matrices), %d)\n" % len(modes)
    for i in range(len(modes)):
        src += "check_rounded('matrix %d after normalising', %s, %s)\n" % (i, m1[i], m0[i])
        src += "check_rounded('reconstructed_coupled_matrices[%d]', model.reconstructed_coupled_matrices[%d], %s)\n" % (i, i, m0[i])
    return src


def scenarios(tier):
    out = []
    for modes in ((0,), (1,), (2,), (0, 1), (2, 0), (1, 1), (0, 0), (1, 0, 1), (2, 2, 2), (0, 1, 2)):
        out.append(("modes %s" % (modes,), fitted(modes)))
    for m in range(3):
        for kind in ("nonneg", "orth"):
            kinds = [kind if i == m else "plain" for i in range(3)]
            out.append(("mode %d %s, coupled to it" % (m, kind), fitted((m,), kinds)))
            out.append(("mode %d %s, coupled to another" % (m, kind), fitted(((m + 1) % 3,), kinds)))
        out.append(("mode %d regularised, coupled to it" % m, fitted((m,), None, ridge=(m,))))
    out.append(("all non-negative, modes (0, 2, 2)", fitted((0, 2, 2), ["nonneg"]*3)))
    out.append(("all regularised, modes (1, 0)", fitted((1, 0), None, ridge=(0, 1, 2))))
    out.append(("random start, modes (1, 2)", fitted((1, 2), None, init="random")))
    for n, modes in ((2, (0, 1)), (2, (1, 1)), (4, (3, 1))):
        out.append(("order %d, modes %s" % (n, modes), fitted(modes, None, n)))
    for modes in ((0,), (1, 0), (2, 2)):
        out.append(("fit_transform, modes %s" % (modes,), fitted(modes, None, transform=True)))
    for modes in ((0,), (1,), (2,), (1, 0), (2, 2), (0, 0, 1)):
        out.append(("after the fit, modes %s" % (modes,), after(modes)))
    out.append(("after the fit, non-negative", after((0, 1), 3, ["nonneg"]*3)))
    for n, modes in ((2, (0, 1)), (4, (3, 0))):
        out.append(("after the fit, order %d, modes %s" % (n, modes), after(modes, n)))
    if tier == "thorough":
        for modes in ((0, 1, 0), (2, 1, 2), (0, 0, 0, 1)):
            out.append(("modes %s" % (modes,), fitted(modes)))
            out.append(("after the fit, modes %s" % (modes,), after(modes)))
    return out
