"""C17: constraints hold in the fitted model."""
from tk import expr as X
from .common import IMPORTS, commas
RULE = """Abstract interpretation of fit for CP, PARAFAC2 and coupled models with constraints, from every kind of starting
point: the derived factor matrices of non-negative modes must equal their own positive part, those of orthonormal modes
must satisfy F^T F = I (where no singular value vanishes), and asking for both must raise an exception."""
NO_SIZES = True
HEAD = IMPORTS + """
from tenkit.decomposition.cp import CP_ALS
from tenkit.decomposition.parafac2 import Parafac2_ALS
from tenkit.decomposition.cmtf import CMTF_ALS

def held(name, F, kind, R):
    if kind == 'nonneg':
        F = named(F)
        check(name + ' non-negative', np.minimum(F, 0), np.zeros(F.shape))
    if kind == 'orth':
        check_nondegenerate(name + ' orthonormal', F.T @ F, np.identity(R))
"""


def options(kinds, ridge):
    o = ""
    if "nonneg" in kinds or "both" in kinds:
        o += ", non_negativity_constraints=%r" % ([k in ("nonneg", "both") for k in kinds],)
    if "orth" in kinds or "both" in kinds:
        o += ", orthonormality_constraints=%r" % ([k in ("orth", "both") for k in kinds],)
    if ridge:
        o += ", ridge_penalties=[%s]" % commas("lam%d", len(kinds))
    return o


def sizes(lab, kinds, rank):
    """An orthonormal factor matrix has no more columns than rows."""
    return [X.add(rank, lab.dims("e%d" % i, lb=0)) if k in ("orth", "tall") else lab.dims("d%d" % i)
            for i, k in enumerate(kinds)]


def start(n, init, lab, R):
    if init == "precomputed":
        lab.tensor("w", R)
        return ", initial_decomposition=KruskalTensor([%s], w)" % commas("U%d", n)
    if init == "from_checkpoint":
        return ", initial_decomposition='start.h5'"
    return ""


def cp(kinds, init="precomputed", ridge=False, its=1):
    n = len(kinds)

    def go(lab):
        R = lab.dims("R")
        ds = sizes(lab, ["tall"]*n if init == "svd" else kinds, R)
        for i in range(n):
            lab.tensor("U%d" % i, ds[i], R)
            if ridge:
                lab.number("lam%d" % i, nonneg=True)
        lab.tensor("X", *ds)
        src = HEAD
        if init == "from_checkpoint":
            src += ("o = CP_ALS(R, max_its=1, convergence_tol=-np.inf, rel_loss_tol=-np.inf, init='precomputed', "
                    "checkpoint_path='start.h5')\n"
                    "o._update_als_factors = lambda: None\n"
                    "o.fit(X, initial_decomposition=KruskalTensor([%s]))\n" % commas("U%d", n))
        src += """
at('CP_ALS.fit')
model = CP_ALS(R, max_its=%d, convergence_tol=-np.inf, rel_loss_tol=-np.inf, init=%r%s)
model.fit(X%s)
""" % (its + (init == "from_checkpoint"), init, options(kinds, ridge), start(n, init, lab, R))
        for m, k in enumerate(kinds):
            src += "held('mode %d', model.decomposition.factor_matrices[%d], %r, R)\n" % (m, m, k)
        lab.run(src)
    return go


def cp_again(kinds):
    """Continue after the user normalised the decomposition."""
    n = len(kinds)

    def go(lab):
        R = lab.dims("R")
        ds = sizes(lab, kinds, R)
        for i in range(n):
            lab.tensor("U%d" % i, ds[i], R)
        lab.tensor("X", *ds)
        src = HEAD + """
at('CP_ALS.continue_fit')
model = CP_ALS(R, max_its=0, convergence_tol=-np.inf, rel_loss_tol=-np.inf, init='precomputed'%s)
model.fit(X, initial_decomposition=KruskalTensor([%s]))
model.decomposition.normalize_components()
model.continue_fit(max_its=1)
""" % (options(kinds, False), commas("U%d", n))
        for m, k in enumerate(kinds):
            src += "held('mode %d', model.decomposition.factor_matrices[%d], %r, R)\n" % (m, m, k)
        lab.run(src)
    return go


def rejected(what, model, data):
    def go(lab):
        R = lab.dims("R")
        ds = sizes(lab, ["tall"]*3, R)
        for i in range(3):
            lab.tensor("U%d" % i, ds[i], R)
        lab.tensor("X", *ds)
        lab.tensor("S0", ds[0], ds[1])
        lab.tensor("S1", ds[0], ds[1])
        lab.tensor("Y", ds[0], lab.dims("m"))
        lab.run(HEAD + """
at('%s')
try:
    model = %s
    model.fit(%s)
    accepted = True
except ValueError:
    accepted = False
check('both constraints on one mode are rejected', accepted, False)
""" % (what, model, data))
    return go


def parafac2(kinds, init="precomputed", ridge=False, its=1, updates=1):
    def go(lab):
        K = 2
        R = lab.dims("R")
        I = X.add(R, lab.dims("i", lb=0))
        for k in range(K):
            j = X.add(R, lab.dims("j%d" % k, lb=0))
            lab.tensor("X%d" % k, I, j)
            lab.tensor("P%d" % k, j, R)
        lab.tensor("A", I, R)
        lab.tensor("H", R, R)
        lab.tensor("C", K, R)
        for i in range(3):
            if ridge:
                lab.number("lam%d" % i, nonneg=True)
        src = HEAD + """
at('Parafac2_ALS.fit')
model = Parafac2_ALS(R, max_its=%d, convergence_tol=-np.inf, init=%r, print_frequency=-1, cp_updates_per_it=%d%s)
model.fit([X0, X1]%s)
d = model.decomposition
""" % (its, init, updates, options(kinds, ridge),
       ", initial_decomposition=Parafac2Tensor(A, H, C, [P0, P1])" if init == "precomputed" else "")
        for m, nm in enumerate(("A", "blueprint_B", "C")):
            src += "held('%s', d.%s, %r, R)\n" % (nm, nm, kinds[m])
        lab.run(src)
    return go


def cmtf(kinds, modes, init="precomputed"):
    def go(lab):
        R = lab.dims("R")
        ds = sizes(lab, kinds, R)
        for i in range(3):
            lab.tensor("U%d" % i, ds[i], R)
        lab.tensor("X", *ds)
        for i, m in enumerate(modes):
            lab.tensor("Y%d" % i, ds[m], lab.dims("m%d" % i))
        src = HEAD + """
at('CMTF_ALS.fit')
model = CMTF_ALS(R, max_its=1, convergence_tol=-np.inf, rel_loss_tol=-np.inf, init=%r%s)
model.fit(X, [%s], %r%s)
""" % (init, options(kinds, False), commas("Y%d", len(modes)), list(modes), start(3, init, lab, R))
        for m, k in enumerate(kinds):
            # normalisation scales columns of non-zero length to length one
            src += "held('mode %d', model.decomposition.factor_matrices[%d], %r, R)\n" % (
                m, m, k if k == "nonneg" else "free")
        for i, m in enumerate(modes):
            if kinds[m] == "nonneg":
                src += "held('uncoupled matrix %d', model.uncoupled_factor_matrices[%d], 'nonneg', R)\n" % (i, i)
        lab.run(src)
    return go


def one(kind, m, n=3):
    return [kind if i == m else "free" for i in range(n)]


def scenarios(tier):
    out = []
    for kind in ("nonneg", "orth"):
        for m in range(3):
            out.append(("CP %s mode %d" % (kind, m), cp(one(kind, m))))
            out.append(("PARAFAC2 %s %s" % (kind, ("A", "blueprint", "C")[m]), parafac2(one(kind, m)) if
                        not (kind == "orth" and m == 2) else parafac2_c()))
        for init in ("random", "svd", "from_checkpoint"):
            out.append(("CP %s mode 1, init %s" % (kind, init), cp(one(kind, 1), init)))
        out.append(("CP %s mode 0, order 2" % kind, cp(one(kind, 0, 2))))
        out.append(("CP %s mode 3, order 4" % kind, cp(one(kind, 3, 4))))
        out.append(("CP %s mode 2, normalised and continued" % kind, cp_again(one(kind, 2))))
        out.append(("CP %s mode 2, ridge" % kind, cp(one(kind, 2), ridge=True)))
    out.append(("CP all non-negative", cp(["nonneg"]*3)))
    out.append(("CP all non-negative, random", cp(["nonneg"]*3, "random")))
    out.append(("CP all non-negative, ridge, two iterations", cp(["nonneg"]*3, ridge=True, its=2)))
    out.append(("CP non-negative and orthonormal modes", cp(["nonneg", "orth", "free"])))
    out.append(("CP two orthonormal modes", cp(["orth", "free", "orth"])))
    out.append(("CP orthonormal, two iterations", cp(["orth", "free"], its=2)))
    out.append(("PARAFAC2 all non-negative", parafac2(["nonneg"]*3)))
    out.append(("PARAFAC2 all non-negative, two updates", parafac2(["nonneg"]*3, updates=2)))
    out.append(("PARAFAC2 all non-negative, random", parafac2(["nonneg"]*3, "random")))
    out.append(("PARAFAC2 non-negative, svd", parafac2(["nonneg", "free", "nonneg"], "svd")))
    out.append(("PARAFAC2 non-negative and ridge", parafac2(["nonneg", "free", "nonneg"], ridge=True)))
    out.append(("PARAFAC2 orthonormal A, non-negative C", parafac2(["orth", "free", "nonneg"])))
    for m in range(3):
        out.append(("CMTF coupled mode %d non-negative" % m, cmtf(one("nonneg", m), (m,))))
    out.append(("CMTF all non-negative", cmtf(["nonneg"]*3, (0, 1))))
    out.append(("CMTF all non-negative, random", cmtf(["nonneg"]*3, (2,), "random")))
    out.append(("CMTF uncoupled mode non-negative", cmtf(one("nonneg", 1), (0, 0))))
    both = "convergence_tol=-np.inf, non_negativity_constraints=%s, orthonormality_constraints=%s, print_frequency=-1"
    for m in range(3):
        v = [i == m for i in range(3)]
        b = both % (v, v)
        out.append(("CP both on mode %d" % m, rejected("CP_ALS.fit", "CP_ALS(R, max_its=1, rel_loss_tol=-np.inf, %s)" % b, "X")))
        out.append(("PARAFAC2 both on mode %d" % m, rejected(
            "Parafac2_ALS.fit", "Parafac2_ALS(R, max_its=1, cp_updates_per_it=1, %s)" % b, "[S0, S1]")))
        out.append(("CMTF both on mode %d" % m, rejected("CMTF_ALS.fit", "CMTF_ALS(R, max_its=1, rel_loss_tol=-np.inf, %s)" % b, "X, [Y], [0]")))
    return out


def parafac2_c():
    """C orthonormal: as many slices as components."""
    def go(lab):
        R = 2
        I = lab.dims("I")
        for k in range(2):
            j = X.add(X.lift(R), lab.dims("j%d" % k, lb=0))
            lab.tensor("X%d" % k, I, j)
            lab.tensor("P%d" % k, j, R)
        lab.tensor("A", I, R)
        lab.tensor("H", R, R)
        lab.tensor("C", 2, R)
        lab.run(HEAD + """
at('Parafac2_ALS.fit')
model = Parafac2_ALS(2, max_its=1, convergence_tol=-np.inf, init='precomputed', print_frequency=-1, cp_updates_per_it=1, orthonormality_constraints=[False, False, True])
model.fit([X0, X1], initial_decomposition=Parafac2Tensor(A, H, C, [P0, P1]))
held('C', model.decomposition.C, 'orth', 2)
""")
    return go
