"""C13: fit statistics."""
from tk import expr as X
from .common import IMPORTS, L, commas, kruskal_einsum
RULE = """Abstract interpretation of the decomposers on symbolic data: after initialisation, inside loggers, after fitting,
after normalising the decomposition, after loading a checkpoint, after continuing and after fitting other data, the
values of SSE, loss, MSE, RMSE and explained_variance must equal their definitions for the data and decomposition at
that moment."""
HEAD = IMPORTS + """
from tenkit.decomposition.cp import CP_ALS
from tenkit.decomposition.parafac2 import Parafac2_ALS
from tenkit.decomposition.cmtf import CMTF_ALS

class Probe:
    def __init__(self, look):
        self.look = look
        self.logged = 0
    def log(self, decomposer):
        self.logged = self.logged + 1
        self.look(decomposer)
    def write_to_hdf5_group(self, group):
        pass

def compare(model, when, sse, penalty, total, size):
    check('SSE ' + when, model.SSE, sse)
    check('loss ' + when, model.loss, sse + penalty)
    check('MSE ' + when, model.MSE*size, sse)
    check('RMSE ' + when, model.RMSE**2*size, sse)
    check('explained variance ' + when, (1 - model.explained_variance)*total, sse)
"""
CPLOOK = """
def look(model, when, X, lams):
    d = model.decomposition
    rec = np.einsum('%s', d.weights, %s)
    sse = np.sum((X - rec)**2)
    penalty = 0
    for lam, f in zip(lams, d.factor_matrices):
        penalty = penalty + lam*np.sum(f**2)
    size = 1
    for s in X.shape:
        size = size*s
    compare(model, when, sse, penalty, np.sum(X**2), size)
"""


def cp(n, ridge, moments):
    def go(lab):
        R = lab.dims("R")
        ds = [lab.dims("d%d" % i) for i in range(n)]
        es = [lab.dims("e%d" % i) for i in range(n)] if "other data" in moments else ds
        for i in range(n):
            lab.tensor("U%d" % i, ds[i], R)
            lab.tensor("W%d" % i, es[i], R)
            if ridge:
                lab.number("lam%d" % i, nonneg=True)
        lab.tensor("X", *ds)
        lab.tensor("Y", *es)
        lams = "[%s]" % commas("lam%d" if ridge else "0*%d", n)
        src = HEAD + CPLOOK % (kruskal_einsum(n), commas("d.factor_matrices[%d]", n))
        opts = ", ridge_penalties=" + lams if ridge else ""
        src += """
lams = %s
probe = Probe(lambda m: look(m, 'inside a logger', X, lams))
at('CP_ALS.fit')
model = CP_ALS(R, max_its=%d, convergence_tol=-np.inf, rel_loss_tol=-np.inf, init='precomputed', loggers=[probe]%s)
model.fit(X, initial_decomposition=KruskalTensor([%s]))
""" % (lams, 0 if moments[0] == "initialised" else 1, opts, commas("U%d", n))
        src += "probe.look = lambda m: None\n"
        for m in moments:
            if m == "normalised":
                src += "at('SSE after normalize_components')\nmodel.decomposition.normalize_components()\n"
            elif m == "changed":
                src += ("at('SSE after in-place changes')\nmodel.decomposition.factor_matrices[0][...] = U0 * 2\n"
                        "model.decomposition.weights[...] = 3\n")
            elif m == "continued":
                src += "at('CP_ALS.continue_fit')\nmodel.continue_fit(max_its=2)\n"
            elif m == "other data":
                src += ("at('CP_ALS.fit again')\nmodel.fit(Y, max_its=0, initial_decomposition=KruskalTensor([%s]))\n"
                        "X = Y\n" % commas("W%d", n))
            elif m == "refitted":
                src += ("at('CP_ALS.fit again')\nmodel.fit(Y, max_its=1, initial_decomposition=KruskalTensor([%s]))\n"
                        "X = Y\n" % commas("W%d", n))
            elif m == "loaded":
                src += ("at('load_checkpoint')\nother = CP_ALS(R, max_its=1, init='precomputed', "
                        "checkpoint_path='f.h5', checkpoint_frequency=1, convergence_tol=-np.inf, rel_loss_tol=-np.inf)\n"
                        "other.fit(X, initial_decomposition=KruskalTensor([%s]))\nmodel.load_checkpoint('f.h5')\n"
                        % commas("W%d", n))
            src += "look(model, %r, X, lams)\n" % m
        lab.run(src)
    return go


P2LOOK = """
def look(model, when, slices, lams):
    d = model.decomposition
    sse = 0
    total = 0
    size = 0
    for k in range(len(slices)):
        rec = np.einsum('ir,r,jr->ij', d.A, d.C[k], d.projection_matrices[k] @ d.blueprint_B)
        sse = sse + np.sum((slices[k] - rec)**2)
        total = total + np.sum(slices[k]**2)
        size = size + slices[k].shape[0]*slices[k].shape[1]
    penalty = lams[0]*np.sum(d.A**2) + lams[1]*np.sum(d.blueprint_B**2) + lams[2]*np.sum(d.C**2)
    compare(model, when, sse, penalty, total, size)
"""


def parafac2(K, ridge, tensor, moments):
    def go(lab):
        R = lab.dims("R")
        I = lab.dims("I")
        js = []
        for k in range(K):
            j = X.add(R, lab.dims("j" if tensor else "j%d" % k, lb=0))
            js.append(j)
            lab.tensor("P%d" % k, j, R)
            lab.tensor("X%d" % k, I, j)
        lab.tensor("A", I, R)
        lab.tensor("H", R, R)
        lab.tensor("C", K, R)
        if tensor:
            lab.tensor("XT", I, js[0], K)
        for i in range(3):
            if ridge:
                lab.number("lam%d" % i, nonneg=True)
        lams = "[lam0, lam1, lam2]" if ridge else "[0, 0, 0]"
        src = HEAD + P2LOOK + "lams = %s\n" % lams
        src += "slices = [%s]\n" % (", ".join("XT[:, :, %d]" % k for k in range(K)) if tensor else commas("X%d", K))
        src += """
probe = Probe(lambda m: look(m, 'inside a logger', slices, lams))
at('Parafac2_ALS.fit')
model = Parafac2_ALS(R, max_its=%d, convergence_tol=-np.inf, init='precomputed', loggers=[probe], cp_updates_per_it=1, print_frequency=-1%s)
model.fit(%s, initial_decomposition=Parafac2Tensor(A, H, C, [%s]))
look(model, 'at the end', slices, lams)
""" % (0 if moments == "initialised" else 1, ", ridge_penalties=" + lams if ridge else "", "XT" if tensor else "slices",
       commas("P%d", K))
        if moments == "changed":
            src += ("at('SSE after in-place changes')\nmodel.decomposition.A[...] = A * 2\n"
                    "look(model, 'changed', slices, lams)\n")
        lab.run(src)
    return go


CMLOOK = """
def look(model, when, X, Ys, modes, lams):
    d = model.decomposition
    rec = np.einsum('r,ir,jr,kr->ijk', d.weights, d.factor_matrices[0], d.factor_matrices[1], d.factor_matrices[2])
    sse = np.sum((X - rec)**2)
    penalty = 0
    for lam, f in zip(lams, d.factor_matrices):
        penalty = penalty + lam*np.sum(f**2)
    size = X.shape[0]*X.shape[1]*X.shape[2]
    for i in range(len(Ys)):
        sse = sse + np.sum((Ys[i] - d.factor_matrices[modes[i]] @ model.uncoupled_factor_matrices[i].T)**2)
        size = size + Ys[i].shape[0]*Ys[i].shape[1]
    compare(model, when, sse, penalty, np.sum(X**2), size)
"""


def cmtf(modes, ridge, its):
    def go(lab):
        R = lab.dims("R")
        ds = [lab.dims("d%d" % i) for i in range(3)]
        for i in range(3):
            lab.tensor("U%d" % i, ds[i], R)
            if ridge:
                lab.number("lam%d" % i, nonneg=True)
        lab.tensor("X", *ds)
        for i, m in enumerate(modes):
            lab.tensor("Y%d" % i, ds[m], lab.dims("m%d" % i))
        lams = "[%s]" % commas("lam%d" if ridge else "0*%d", 3)
        src = HEAD + CMLOOK + """
lams = %s
Ys = [%s]
modes = %r
probe = Probe(lambda m: look(m, 'inside a logger', X, Ys, modes, lams))
at('CMTF_ALS.fit')
model = CMTF_ALS(R, max_its=%d, convergence_tol=-np.inf, rel_loss_tol=-np.inf, init='precomputed', loggers=[probe]%s)
model.fit(X, Ys, modes, initial_decomposition=KruskalTensor([U0, U1, U2]))
look(model, 'at the end', X, Ys, modes, lams)
""" % (lams, commas("Y%d", len(modes)), list(modes), its, ", ridge_penalties=" + lams if ridge else "")
        lab.run(src)
    return go


def scenarios(tier):
    out = []
    for n in (2, 3, 4):
        out.append(("CP order %d: initialised" % n, cp(n, False, ["initialised"])))
        out.append(("CP order %d: fitted, normalised" % n, cp(n, False, ["fitted", "normalised"])))
    out.append(("CP ridge: initialised", cp(3, True, ["initialised"])))
    out.append(("CP ridge: fitted", cp(2, True, ["fitted", "normalised"])))
    out.append(("CP: fitted, changed", cp(3, False, ["fitted", "changed"])))
    out.append(("CP: fitted, continued", cp(2, False, ["fitted", "normalised", "continued"])))
    out.append(("CP: fitted, other data", cp(3, False, ["fitted", "other data"])))
    out.append(("CP: fitted, refitted", cp(2, False, ["fitted", "refitted", "normalised"])))
    out.append(("CP: fitted, loaded", cp(2, False, ["fitted", "loaded"])))
    for K in (1, 2, 3):
        out.append(("PARAFAC2, %d slices: initialised" % K, parafac2(K, False, False, "initialised")))
    out.append(("PARAFAC2, tensor: initialised", parafac2(2, False, True, "initialised")))
    out.append(("PARAFAC2, ridge: initialised", parafac2(2, True, False, "initialised")))
    out.append(("PARAFAC2: fitted, changed", parafac2(2, False, False, "changed")))
    out.append(("PARAFAC2, ridge: fitted", parafac2(2, True, False, "fitted")))
    for modes in ((0,), (1,), (0, 0, 2), (2, 0)):
        out.append(("CMTF %s: initialised" % (modes,), cmtf(modes, False, 0)))
        out.append(("CMTF %s, ridge: initialised" % (modes,), cmtf(modes, True, 0)))
    out.append(("CMTF (0,): fitted", cmtf((0,), False, 1)))
    out.append(("CMTF (1, 1), ridge: fitted", cmtf((1, 1), True, 1)))
    return out
