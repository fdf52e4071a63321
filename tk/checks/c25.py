"""C25: names, attributes, parameters and locals that code refers to exist."""
import os
from tk import expr as X
from tk import lint
from tk.lab import REPO
from . import c18
RULE = """Reference analysis of every function of the package that a user can reach: each name resolves in its scope, each
import to a module or member that exists, each attribute of a module, of self (for every class whose objects run the
function) and of a value of inferred class to a member, each call of a function of the package to a signature that binds its
arguments, each read of a local to a path-sensitive definite assignment.  Attributes of values of unknown class must exist
somewhere in the package or its libraries.  Also abstract interpretation of every operation of the decomposers in all
configurations: no path may end in NameError, AttributeError, TypeError or UnboundLocalError."""
NO_SIZES = True
_cache = {}


def package(lab):
    if "p" not in _cache:
        p = lint.Package(os.path.join(REPO, "src"))
        p.run()
        _cache["p"] = p
    return _cache["p"]


def references(rules):
    def go(lab):
        p = package(lab)
        rep = lab.report
        bad = {}
        for rule, where, key, detail in p.problems:
            if rule in rules:
                bad.setdefault(where, []).append((rule, key, detail))
        for f in p.funcs:
            rep.functions[(os.path.relpath(f.mod.path, REPO), f.qual[len(f.mod.name) + 1:], f.node.lineno)] = 1
        rep.statements += sum(1 for m in p.mods.values() for _ in lint.ast.walk(m.tree))
        for w in sorted({f.qual for f in p.funcs if f in p.live_set} | set(p.mods) | {c.qual for c in p.classes} | set(bad)):
            if w not in bad:
                rep.record(lab.name, w, "ok")
            for rule, key, detail in bad.get(w, ()):
                rep.record(lab.name, w, "violated", "%s: %s" % (w, detail), rule="%s: %s" % (rule, key), construct=w)
        for k, n in sorted(p.counts.items()):
            rep.notes.append("%s: %d" % (k, n))
    return go


HEAD = c18.HEAD + """
from tenkit.decomposition.logging.logger import LossLogger, MSELogger, SSELogger, RMSELogger, ExplainedVarianceLogger
import h5py

def attempt(label, f):
    kind = 'no broken reference'
    fine = True
    try:
        f()
    except (NameError, AttributeError, TypeError) as e:
        kind = type(e).__name__
        fine = False
    except Exception as e:
        fine = False
    check(label, kind, 'no broken reference')
    return fine
"""
READ = {"CP_ALS": ("loss", "SSE", "MSE", "RMSE", "explained_variance", "reconstructed_X", "factor_matrices", "weights",
                   "sum_squared_error"),
        "Parafac2_ALS": ("loss", "SSE", "MSE", "RMSE", "explained_variance", "reconstructed_X", "factor_matrices",
                         "projection_matrices", "sum_squared_error", "regularisation_penalty")}
READ["CMTF_ALS"] = READ["CP_ALS"]
CON = {
    "": "",
    "ridge": "ridge_penalties=[1.0, 1.0, 1.0]",
    "non-negative": "non_negativity_constraints=[True, True, True]",
    "orthonormal": "orthonormality_constraints=[True, False, False]",
    "mixed": "ridge_penalties=[1.0, 0, 0], non_negativity_constraints=[False, False, True]",
}


def data(lab, cls):
    """As c18.data, with modes at least as long as the rank (so that SVD initialisation is possible)."""
    if cls != "Parafac2_ALS":
        R = lab.dims("R")
        for i in range(3):
            d = X.add(R, lab.dims("e%d" % i, lb=0))
            lab.tensor("U%d" % i, d, R)
        ds = [X.add(R, lab.dims("e%d" % i, lb=0)) for i in range(3)]
        lab.tensor("X", *ds)
        lab.tensor("Y", ds[1], lab.dims("m"))
        lab.tensor("Z", ds[1], lab.dims("n"))
        return ("X, [Y, Z], [1, 1]" if cls == "CMTF_ALS" else "X", "KruskalTensor([U0.copy(), U1.copy(), U2.copy()])",
                "convergence_tol=-np.inf, rel_loss_tol=-np.inf")
    R = lab.dims("R")
    I = X.add(R, lab.dims("e", lb=0))
    for k in range(2):
        j = X.add(R, lab.dims("j%d" % k, lb=0))
        lab.tensor("X%d" % k, I, j)
        lab.tensor("P%d" % k, j, R)
    lab.tensor("A", I, R)
    lab.tensor("H", R, R)
    lab.tensor("C", 2, R)
    return ("[X0, X1]", "Parafac2Tensor(A, H, C, [P0.copy(), P1.copy()])",
            "print_frequency=-1, convergence_tol=-np.inf, cp_updates_per_it=1")


def drive(cls, init, con, its, freq):
    def go(lab):
        arg, dec, opts = data(lab, cls)
        if CON[con]:
            opts += ", " + CON[con]
        lab.run(HEAD + """
at('%(cls)s (init=%(init)s%(con)s)')
loggers = [LossLogger(), MSELogger(), SSELogger(), RMSELogger(), ExplainedVarianceLogger()]
path = 'run.h5'
model = %(cls)s(R, init='%(init)s', max_its=%(its)d, loggers=loggers, checkpoint_frequency=%(freq)d, checkpoint_path=path, %(opts)s)
start = %(dec)s
if attempt('fit', lambda: model.fit(%(arg)s%(start)s)):
%(reads)s
    attempt('fit again', lambda: model.fit(%(arg)s%(start)s))
    other = %(cls)s(R, init='from_checkpoint', max_its=%(its)d, %(opts)s)
    attempt('resume', lambda: other.fit(%(arg)s, initial_decomposition=path))
attempt('fit_transform', lambda: %(cls)s(R, init='%(init)s', max_its=1, %(opts)s).fit_transform(%(arg)s%(start)s))
""" % dict(cls=cls, init=init, con=", " + con if con else "", its=its, freq=freq, opts=opts, dec=dec, arg=arg,
           start=", initial_decomposition=start" if init == "precomputed" else "",
           reads="\n".join("    if hasattr(model, '%s'):\n        attempt('%s', lambda: model.%s)" % (a, a, a)
                           for a in READ[cls] if a)))
    return go


def scenarios(tier):
    out = [("names and imports", references({"name", "import"})), ("attributes", references({"attribute", "abstract"})),
           ("calls", references({"call"})), ("local variables", references({"local"}))]
    for cls in c18.OPTS:
        for init in ("precomputed", "random", "svd") + (("cp",) if cls == "Parafac2_ALS" else ()):
            if init == "cp":
                continue                 # the inner CP fit is analysed with CP_ALS
            for con in CON:
                if cls == "Parafac2_ALS" and con == "orthonormal" and init != "precomputed":
                    continue
                for its, freq in ((2, 1), (0, -1)):
                    if its == 0 and con and tier == "quick":
                        continue
                    out.append(("%s, %s%s, %d iterations" % (cls, init, ", " + con if con else "", its),
                                drive(cls, init, con, its, freq)))
    return out
