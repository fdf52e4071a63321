"""C21: the data a caller passes in is never modified."""
from tk import expr as X
from .common import IMPORTS, commas
from . import c18
RULE = """Abstract interpretation of every public function and method and of fits with every option on symbolic arguments
whose entries are recorded beforehand (per buffer, so that writes through views, reshapes and stored references count): after
the call each argument must hold the recorded entries, lists and dictionaries the recorded members."""
NO_SIZES = True
HEAD = IMPORTS + """
from tenkit.decomposition.cp import CP_ALS
from tenkit.decomposition.parafac2 import Parafac2_ALS
from tenkit.decomposition.cmtf import CMTF_ALS
from tenkit.decomposition.logging import logger as logging_module

def parts(x):
    if isinstance(x, KruskalTensor):
        return list(x.factor_matrices) + [x.weights]
    if isinstance(x, Parafac2Tensor):
        return [x.A, x.blueprint_B, x.C] + list(x.projection_matrices)
    if isinstance(x, EvolvingTensor):
        return [x.A, x.C] + list(x.B)
    return x

def recorded(x):
    x = parts(x)
    if isinstance(x, (list, tuple)):
        return [recorded(y) for y in x]
    if isinstance(x, np.ndarray):
        return x.copy()
    return x

def compare(name, x, before):
    x = parts(x)
    if isinstance(x, (list, tuple)):
        check('length of ' + name, len(x), len(before))
        for i in range(min(len(x), len(before))):
            compare(name, x[i], before[i])
    else:
        check(name, x, before)
"""


def call(lab, where, prep, args, stmt):
    """args: (label, expression) pairs; evaluated once, so that the comparison sees the objects passed."""
    src = HEAD + prep + "\n"
    src += "watched = [%s]\nbefore = [recorded(x) for x in watched]\nat(%r)\n" % (", ".join(e for _, e in args), where)
    src += stmt + "\n"
    for i, (label, _) in enumerate(args):
        src += "compare(%r, watched[%d], before[%d])\n" % (label, i, i)
    lab.run(src)


# ------------------------------------------------------------------ functions
def matrices(lab):
    a, b, c = lab.dims("a", "b", "c")
    lab.tensor("A", a, b)
    lab.tensor("B", c, b)
    lab.tensor("F", a, c)
    lab.tensor("G", b, c)
    lab.number("lam", nonneg=True)
    lab.tensor("u", a)
    lab.tensor("v", b)


def solving(stmt, label):
    def go(lab):
        matrices(lab)
        call(lab, label, "", [("left matrix", "G"), ("right matrix", "F")], stmt)
    return go


def vectors(lab):
    matrices(lab)
    call(lab, "base.kron_binary_vectors", "", [("first vector", "u"), ("second vector", "v")],
         "base.kron_binary_vectors(u, v)")


def tensor_call(label, stmt, n=3, extra=(), rank=None):
    """X, the factor list fs, weights w."""
    def go(lab):
        R = lab.dims("R") if rank is None else X.const(rank)
        ds = [lab.dims("d%d" % i) for i in range(n)]
        for i in range(n):
            lab.tensor("U%d" % i, ds[i], R)
            lab.tensor("V%d" % i, ds[i], R)
        lab.tensor("X", *ds)
        lab.tensor("Y", *ds)
        lab.tensor("W", *ds)
        lab.tensor("w", R)
        lab.tensor("M", ds[0], X.mul(ds[1], ds[2]) if n == 3 else ds[1])
        lab.tensor("flat", X.mul(R, X.add(*ds)) if n == 2 else X.mul(R, X.add(X.add(ds[0], ds[1]), ds[2])))
        args = [("data tensor", "X"), ("other tensor", "Y"), ("mask", "W"), ("factor matrices", "fs"),
                ("other factor matrices", "gs"), ("weights", "w"), ("matrix", "M"), ("vector", "flat"), ("sizes", "sizes"),
                ("permutation", "perm")]
        used = [a for a in args if a[1] in stmt.replace("(", " ").replace(")", " ").replace(",", " ").replace("*", " ")
                .replace("[", " ").replace("]", " ").replace(".", " ").split()]
        prep = "fs = [%s]\ngs = [%s]\nsizes = [%s]\nperm = [1, 0]\n" % (
            commas("U%d", n), commas("V%d", n), ", ".join("X.shape[%d]" % i for i in range(n)))
        call(lab, label.split(",")[0], prep, used, stmt)
    return go


FUNCTIONS = [
    ("base.khatri_rao", "base.khatri_rao(*fs)\nbase.khatri_rao(*fs, skip=1)"),
    ("base.khatri_rao_binary", "base.khatri_rao_binary(fs[0], fs[1])"),
    ("base.kron", "base.kron(*fs)"),
    ("base.kron_binary", "base.kron_binary(fs[0], fs[1])"),
    ("base.matrix_khatri_rao_product", "for mode in range(3):\n    base.matrix_khatri_rao_product(X, fs, mode)"),
    ("base.unfold", "for mode in range(-3, 3):\n    base.unfold(X, mode)"),
    ("base.fold", "base.fold(M, 0, sizes)"),
    ("base.fold, last mode", "base.fold(base.unfold(X, 2), 2, sizes)"),
    ("base.fold, counted from the end", "base.fold(base.unfold(X, -2), -2, sizes)"),
    ("base.flatten_factors", "base.flatten_factors(fs)"),
    ("base.unflatten_factors", "base.unflatten_factors(flat, w.shape[0], sizes)"),
    ("utils.normalize_factor", "utils.normalize_factor(U0)\nutils.normalize_factors(fs)"),
    ("utils.create_random_factors", "utils.create_random_factors(sizes, 2)\nutils.create_random_uniform_factors(sizes, 2)"),
    ("utils.get_signs", "utils.get_signs(fs[0], M)\nutils.get_signs(fs[0], None)"),
    ("metrics.tensor_completion_score", "metrics.tensor_completion_score(X, Y, W)"),
    ("metrics.percent_explained", "metrics.percent_explained(X, Y)"),
    ("metrics.leverage", "metrics.leverage(fs[0])"),
]
FMS = [
    ("metrics.factor_match_score", "for red in ('min', 'mean'):\n    for penalty in (True, False):\n"
     "        metrics.factor_match_score(fs, gs, weight_penalty=penalty, fms_reduction=red)"),
    ("metrics.separate_mode_factor_match_score", "metrics.separate_mode_factor_match_score(fs, gs)"),
    ("utils.permute_factors", "utils.permute_factors(perm, fs)"),
    ("utils.permute_factors_and_weights", "utils.permute_factors_and_weights(perm, fs, w)"),
    ("metrics.core_consistency", "metrics.core_consistency(X, fs[0], fs[1], fs[2])\nmetrics.core_consistency(X, *fs, normalized=True)"),
]


def pca(lab):
    matrices(lab)
    call(lab, "utils.get_pca_loadings", "", [("data matrix", "A")], "utils.get_pca_loadings(A, 2)")


def flipping(f, rows):
    """Small factor matrices: the signs are decided entry by entry."""
    def go(lab):
        lab.tensor("U0", rows, 1)
        lab.tensor("U1", 1, 1)
        call(lab, "utils." + f, "fs = [U0, U1]\n", [("factor matrices", "fs")], "utils.%s(fs)" % f)
    return go


# ------------------------------------------------------------------ decompositions
READS = {
    "KruskalTensor": [
        "d.construct_tensor()", "d.shape", "d[0]", "d.degeneracy()", "d.get_sign_scores(X)", "d.get_signs(X)",
        "d.get_single_component_decomposition(0)", "d.store('d.h5')", "KruskalTensor(d.factor_matrices, d.weights)",
        "EvolvingTensor.from_kruskaltensor(d)", "d.factor_match_score(e)", "d.factor_match_score(e, weight_penalty=False, fms_reduction='mean')",
        "d.core_consistency(X)", "d.core_consistency(X, normalized=True)"],
    "EvolvingTensor": [
        "d.construct_tensor()", "d.construct_slices()", "d.construct_slice(0)", "d.shape", "d[0], d[1], d[2]", "d.degeneracy()",
        "d.B_unfolded", "d.factor_matrices", "d.store('d.h5')", "EvolvingTensor(d.A, d.B, d.C)",
        "EvolvingTensor.from_factor_matrices(d.factor_matrices)",
        "d.factor_match_score(e)", "d.separate_mode_factor_match_score(e)"],
    "Parafac2Tensor": [
        "d.construct_tensor()", "d.construct_slices()", "d.construct_slice(1)", "d.shape", "d[0], d[1], d[2]", "d.degeneracy()",
        "d.B_unfolded", "d.factor_matrices", "d.D", "d.store('d.h5')", "d.B[0], len(d.B), d.B.as_list(), list(d.B)",
        "d.get_single_component_decomposition(0)", "d.factor_match_score(e)",
        "Parafac2Tensor(d.A, d.blueprint_B, d.C, d.projection_matrices)",
        "metrics.core_consistency_parafac2([X0, X1], d.projection_matrices, d.A, d.blueprint_B, d.C)"],
}


def decompositions(lab, cls, rank):
    R = X.const(rank) if rank else lab.dims("R")
    K = 2
    I = lab.dims("I")
    J = lab.dims("J")
    for s in ("", "2"):
        lab.tensor("A" + s, I, R)
        lab.tensor("C" + s, K, R)
        lab.tensor("H" + s, R, R)
        lab.tensor("Bf" + s, J, R)
        lab.tensor("w" + s, R)
        for k in range(K):
            lab.tensor("B%s_%d" % (s, k), J, R)
            lab.tensor("P%s_%d" % (s, k), J, R)
    for k in range(K):
        lab.tensor("X%d" % k, I, J)
    lab.tensor("X", I, J, K)
    make = {"KruskalTensor": "KruskalTensor([A{s}, Bf{s}, C{s}], w{s})",
            "EvolvingTensor": "EvolvingTensor(A{s}, [B{s}_0, B{s}_1], C{s})",
            "Parafac2Tensor": "Parafac2Tensor(A{s}, H{s}, C{s}, [P{s}_0, P{s}_1])"}[cls]
    return "d = %s\ne = %s\n" % (make.format(s=""), make.format(s="2"))


def read(cls, expr):
    def go(lab):
        rank = 2 if "score" in expr or "consistency" in expr or "signs" in expr else None
        prep = decompositions(lab, cls, rank)
        args = [("the decomposition", "d"), ("the arrays it was made from", "[A, C, %s]" % {
            "KruskalTensor": "Bf, w", "EvolvingTensor": "B_0, B_1", "Parafac2Tensor": "H, P_0, P_1"}[cls])]
        if "e" in expr.replace("(", " ").replace(")", " ").replace(",", " ").split():
            args.append(("the decomposition compared with", "e"))
        if "(X" in expr:
            args.append(("the data tensor", "X"))
        if "[X0" in expr:
            args.append(("the slices", "[X0, X1]"))
        call(lab, "%s: %s" % (cls, expr.split("(")[0].split(",")[0]), prep, args, "result = " + expr)
    return go


def stacked(expr):
    """Evolving factors given as one array."""
    def go(lab):
        R, I, J = lab.dims("R", "I", "J")
        lab.tensor("A", I, R)
        lab.tensor("B", 2, J, R)
        lab.tensor("C", 2, R)
        call(lab, "EvolvingTensor: %s" % expr.split("(")[0], "d = EvolvingTensor(A, B, C)\n",
             [("the decomposition", "[A, B, C]")], "result = " + expr)
    return go


# ------------------------------------------------------------------ fitting
def data(lab, cls, init, opts):
    """As in C18, with no fewer rows than columns where singular vectors are used, equal slices where a CP model is."""
    tall = init in ("svd", "cp") or "orthonormality_constraints" in opts
    if not tall:
        return c18.data(lab, cls)
    R = lab.dims("R")
    ds = [X.add(R, lab.dims("e%d" % i, lb=0)) for i in range(3)]
    if cls == "Parafac2_ALS":
        for k in range(2):
            j = ds[1] if init == "cp" else X.add(R, lab.dims("j%d" % k, lb=0))
            lab.tensor("X%d" % k, ds[0], j)
            lab.tensor("P%d" % k, j, R)
        lab.tensor("A", ds[0], R)
        lab.tensor("H", R, R)
        lab.tensor("C", 2, R)
        return "[X0, X1]", "Parafac2Tensor(A, H, C, [P0.copy(), P1.copy()])", "", "print_frequency=-1, convergence_tol=-np.inf", []
    for i in range(3):
        lab.tensor("U%d" % i, ds[i], R)
    lab.tensor("X", *ds)
    lab.tensor("Y", ds[1], lab.dims("m"))
    lab.tensor("Z", ds[1], lab.dims("n"))
    return ("X, [Y, Z], [1, 1]" if cls == "CMTF_ALS" else "X", "KruskalTensor([U0.copy(), U1.copy(), U2.copy()])", "",
            "convergence_tol=-np.inf, rel_loss_tol=-np.inf", [])


def fitting(cls, opts="", init="random", its=1, lists=(), method="fit", then="", stack=False):
    def go(lab):
        X_, start, same, base_opts, parts = data(lab, cls, init, [n for n, _ in lists])
        if stack:
            lab.tensor("Xs", X.add(lab.dims("R"), lab.dims("i", lb=0)), X.add(lab.dims("R"), lab.dims("j", lb=0)), 2)
            X_, start = "Xs", "None"
        for i in range(3):
            lab.number("lam%d" % i, nonneg=True)
        prep = "data = [%s]\n" % X_
        args = [({"Parafac2_ALS": "the slices", "CP_ALS": "the data tensor"}.get(cls, "the data"), "data")]
        for i, (name, value) in enumerate(lists):
            prep += "list%d = %s\n" % (i, value)
            args.append((name, "list%d" % i))
            base_opts += ", %s=list%d" % (name, i)
        if opts:
            base_opts += ", " + opts
        prep += "start = %s\n" % start
        if init == "cp":
            # twenty iterations of a CP model, which has scenarios of its own
            prep += "CP_ALS._update_als_factor = lambda self, mode: None\n"
        stmt = "model = %s(R, max_its=%d, init=%r, %s)\n" % (cls, its, init, base_opts)
        stmt += "model.%s(*data%s)\n" % (method, ", initial_decomposition=start" if init == "precomputed" else "")
        stmt += then
        call(lab, "%s.%s" % (cls, method), prep, args, stmt)
    return go


def observing(cls, opts=""):
    """Reading the diagnostics of a model, logging and checkpointing it."""
    def go(lab):
        X_, start, same, base_opts, parts = c18.data(lab, cls)
        for i in range(3):
            lab.number("lam%d" % i, nonneg=True)
        prep = "model = %s(R, max_its=0, init='precomputed', checkpoint_path='run.h5', %s%s)\n" % (cls, base_opts, opts)
        prep += "model.fit(%s, initial_decomposition=%s)\n" % (X_, start)
        args = [("the model's decomposition", "model.decomposition")]
        if cls == "CMTF_ALS":
            args.append(("the matrices' own factors", "model.uncoupled_factor_matrices"))
        stmt = "model.SSE, model.MSE, model.RMSE, model.loss, model.explained_variance, model.reconstructed_X\n"
        stmt += "model.store_checkpoint(0)\n"
        stmt += "for Log in (logging_module.LossLogger, logging_module.MSELogger, logging_module.SSELogger, " \
                "logging_module.RMSELogger, logging_module.ExplainedVarianceLogger):\n    Log().log(model)\n"
        call(lab, "%s: diagnostics" % cls, prep, args, stmt)
    return go


def refitted(cls):
    """The decomposition of an earlier fit stays as it was when the model is fitted again."""
    def go(lab):
        X_, start, same, base_opts, parts = c18.data(lab, cls)
        prep = "model = %s(R, max_its=1, init='random', %s)\nmodel.fit(%s)\nfirst = model.decomposition\n" % (
            cls, base_opts, X_)
        call(lab, "%s.fit" % cls, prep, [("the decomposition of the first fit", "first")], "model.fit(%s)" % X_)
    return go


def flags(k):
    return "[%s]" % ", ".join("True" if i in k else "False" for i in range(3))


def scenarios(tier):
    out = []
    for f in ("rightsolve", "non_negative_rightsolve", "orthogonal_rightsolve"):
        out.append(("base." + f, solving("base.%s(G, F)" % f, "base." + f)))
        out.append(("base.add_rightsolve_ridge(%s)" % f, solving(
            "base.add_rightsolve_ridge(base.%s, lam)(G, F)" % f, "base.add_rightsolve_ridge")))
    out.append(("base.orthogonal_solve", solving("base.orthogonal_solve(G.T, F.T)", "base.orthogonal_solve")))
    out.append(("base.kron_binary_vectors", vectors))
    out.append(("utils.get_pca_loadings", pca))
    for f in ("flip_factors", "prepare_for_comparison"):
        for rows in (1, 2):
            out.append(("utils.%s, %d rows" % (f, rows), flipping(f, rows)))
    for label, stmt in FUNCTIONS:
        out.append((label, tensor_call(label, stmt)))
    for label, stmt in FMS:
        out.append((label, tensor_call(label, stmt, rank=2)))
    out.append(("base.matrix_khatri_rao_product, order 4", tensor_call(
        "base.matrix_khatri_rao_product", "base.matrix_khatri_rao_product(X, fs, 1)", 2)))
    for cls, exprs in READS.items():
        for e in exprs:
            out.append(("%s: %s" % (cls, e), read(cls, e)))
    for e in ("d.construct_tensor()", "d.construct_slices()", "d.degeneracy()", "d.store('d.h5')", "d.B_unfolded"):
        out.append(("EvolvingTensor, one array: %s" % e, stacked(e)))
    for cls in ("CP_ALS", "Parafac2_ALS", "CMTF_ALS"):
        inits = ["random", "precomputed", "svd"] + (["cp"] if cls == "Parafac2_ALS" else [])
        for init in inits:
            out.append(("%s.fit, init=%s" % (cls, init), fitting(cls, init=init)))
        out.append(("%s.fit_transform" % cls, fitting(cls, init="precomputed", method="fit_transform")))
        for m in range(3):
            out.append(("%s, mode %d non-negative" % (cls, m), fitting(
                cls, init="precomputed", lists=[("non_negativity_constraints", flags([m]))])))
            if cls != "Parafac2_ALS" or m != 1:
                out.append(("%s, mode %d orthonormal" % (cls, m), fitting(
                    cls, init="random", lists=[("orthonormality_constraints", flags([m]))])))
        out.append(("%s, regularised" % cls, fitting(cls, init="precomputed", lists=[("ridge_penalties", "[lam0, lam1, lam2]")])))
        out.append(("%s, with checkpoints" % cls, fitting(
            cls, "checkpoint_path='run.h5', checkpoint_frequency=1", init="random",
            lists=[("ridge_penalties", "[lam0, lam1, lam2]"), ("non_negativity_constraints", flags([0])),
                   ("loggers", "[logging_module.LossLogger(), logging_module.SSELogger(), logging_module.ExplainedVarianceLogger()]")])))
        out.append(("%s, results and continuing" % cls, fitting(
            cls, init="precomputed", then="model.SSE, model.MSE, model.RMSE, model.loss, model.reconstructed_X, "
            "model.explained_variance\nmodel.continue_fit(max_its=2)\n")))
    for cls in ("CP_ALS", "Parafac2_ALS", "CMTF_ALS"):
        out.append(("%s: diagnostics" % cls, observing(cls)))
        out.append(("%s: diagnostics, regularised" % cls, observing(cls, ", ridge_penalties=[lam0, lam1, lam2]")))
        out.append(("%s.fit, again" % cls, refitted(cls)))
    for init in ("random", "svd", "cp"):
        out.append(("Parafac2_ALS.fit, slices in one array, init=%s" % init, fitting("Parafac2_ALS", init=init, its=1, stack=True)))
    return out
