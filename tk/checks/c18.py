"""C18: options reach the behaviour they name."""
from tk import expr as X
from .common import IMPORTS, commas
RULE = """Abstract interpretation of the constructors, fit and fit_transform of every decomposer with each option set to a
value of its own: the option's attribute must hold that value (or the documented default), the number of iterations,
starting decomposition, calls of loggers, output and checkpoints must be those asked for, and fit_transform must return
the decomposition that fit leaves in the model."""
NO_SIZES = True
HEAD = IMPORTS + """
from tenkit.decomposition.cp import CP_ALS
from tenkit.decomposition.parafac2 import Parafac2_ALS
from tenkit.decomposition.cmtf import CMTF_ALS
from tenkit.decomposition import cp as cp_module, parafac2 as parafac2_module

class Probe:
    def __init__(self):
        self.calls = 0
        self.seen = []
    def log(self, decomposer):
        self.calls = self.calls + 1
        self.seen.append(decomposer.current_iteration)
    def write_to_hdf5_group(self, group):
        pass
"""
OPTS = {
    "CP_ALS": ["rank", "max_its", "convergence_tol", "rel_loss_tol", "init", "loggers", "checkpoint_frequency", "checkpoint_path",
               "print_frequency", "non_negativity_constraints", "ridge_penalties", "orthonormality_constraints"],
    "Parafac2_ALS": ["rank", "max_its", "convergence_tol", "init", "loggers", "checkpoint_frequency", "checkpoint_path",
                     "print_frequency", "cp_updates_per_it", "non_negativity_constraints", "ridge_penalties",
                     "orthonormality_constraints"],
}
OPTS["CMTF_ALS"] = OPTS["CP_ALS"]
VALUE = {
    "rank": "R", "max_its": "its", "convergence_tol": "tol1", "rel_loss_tol": "tol2", "init": "'SVD'", "loggers": "[probe]",
    "checkpoint_frequency": "freq", "checkpoint_path": "'run.h5'", "print_frequency": "pfreq", "cp_updates_per_it": "updates",
    "non_negativity_constraints": "[False, False, True]", "ridge_penalties": "[lam0, lam1, lam2]",
    "orthonormality_constraints": "[True, False, False]",
}
DEFAULT = {"max_its": "1000", "convergence_tol": "1e-6", "rel_loss_tol": "1e-10", "init": "'random'", "cp_updates_per_it": "5",
           "loggers": "[]", "checkpoint_path": "None", "ridge_penalties": "None"}


def numbers(lab):
    lab.dims("R")
    for n in ("its", "freq", "pfreq", "updates"):
        lab.dims(n)
    for n in ("tol1", "tol2", "lam0", "lam1", "lam2"):
        lab.number(n, nonneg=True)


def constructed(cls, only=None):
    def go(lab):
        numbers(lab)
        opts = OPTS[cls] if only is None else ["rank", only]
        src = HEAD + "probe = Probe()\nat('%s(...)')\nmodel = %s(%s)\n" % (
            cls, cls, ", ".join("%s=%s" % (o, VALUE[o]) for o in opts))
        for o in OPTS[cls]:
            if o in opts:
                src += "check('option %s', model.%s, %s)\n" % (o, o, VALUE[o])
            elif o in DEFAULT:
                src += "check('default of %s', model.%s, %s)\n" % (o, o, DEFAULT[o])
        if "loggers" in opts:
            src += "check_true('loggers', model.loggers[0] is probe)\n"
        lab.run(src)
    return go


def separate(cls):
    """Defaults are not shared between models."""
    def go(lab):
        numbers(lab)
        lab.run(HEAD + """
at('%s(...)')
a = %s(R)
a.loggers.append(Probe())
b = %s(R)
check('default of loggers', b.loggers, [])
""" % (cls, cls, cls))
    return go


def data(lab, cls):
    """Data, a starting decomposition and the comparison with it."""
    R = lab.dims("R")
    if cls == "Parafac2_ALS":
        I = lab.dims("I")
        for k in range(2):
            j = X.add(R, lab.dims("j%d" % k, lb=0))
            lab.tensor("X%d" % k, I, j)
            lab.tensor("P%d" % k, j, R)
        lab.tensor("A", I, R)
        lab.tensor("H", R, R)
        lab.tensor("C", 2, R)
        return ("[X0, X1]", "Parafac2Tensor(A, H, C, [P0.copy(), P1.copy()])",
                "check('starting A', d.A, A)\ncheck('starting blueprint', d.blueprint_B, H)\ncheck('starting C', d.C, C)\n"
                "check('starting projections', d.projection_matrices, [P0, P1])\n", "print_frequency=-1, convergence_tol=-np.inf",
                ["A", "blueprint_B", "C"])
    ds = [lab.dims("d%d" % i) for i in range(3)]
    for i in range(3):
        lab.tensor("U%d" % i, ds[i], R)
    lab.tensor("X", *ds)
    if cls == "CMTF_ALS":
        lab.tensor("Y", ds[1], lab.dims("m"))
        lab.tensor("Z", ds[1], lab.dims("n"))
    return ("X, [Y, Z], [1, 1]" if cls == "CMTF_ALS" else "X", "KruskalTensor([U0.copy(), U1.copy(), U2.copy()])",
            # a coupled model is normalised at the end
            "check_rounded('starting tensor', d.construct_tensor(), np.einsum('ir,jr,kr->ijk', U0, U1, U2))\n"
            if cls == "CMTF_ALS" else "check('starting factor matrices', d.factor_matrices, [U0, U1, U2])\n",
            "convergence_tol=-np.inf, rel_loss_tol=-np.inf", ["factor_matrices[0]", "factor_matrices[1]", "factor_matrices[2]"])


def budgets(cls, method):
    """max_its of the constructor and of the call, and the numbering of the iterations."""
    def go(lab):
        X_, start, _, opts, _ = data(lab, cls)
        src = HEAD
        for c, f, n in ((1, None, 1), (0, 1, 1), (2, 1, 1), (1, 0, 0), (0, None, 0)):
            src += "probe = Probe()\nat('%s.%s')\n" % (cls, method)
            src += "model = %s(R, max_its=%d, init='precomputed', loggers=[probe], %s)\n" % (cls, c, opts)
            src += "model.%s(%s, initial_decomposition=%s%s)\n" % (method, X_, start, "" if f is None else ", max_its=%d" % f)
            src += "check('iterations', probe.calls, %d)\ncheck('iteration numbers', probe.seen, %r)\n" % (n, list(range(n)))
            src += "check('current_iteration', model.current_iteration, %d)\n" % n
        lab.run(src)
    return go


def started(cls, method, init="precomputed"):
    """The starting decomposition is the given one."""
    def go(lab):
        X_, start, same, opts, _ = data(lab, cls)
        src = HEAD
        src += "at('%s.%s')\nmodel = %s(R, max_its=1, init=%r, %s)\n" % (cls, method, cls, init, opts)
        src += "model.%s(%s, initial_decomposition=%s, max_its=0)\nd = model.decomposition\n" % (method, X_, start) + same
        lab.run(src)
    return go


def returned(cls):
    """What fit_transform returns."""
    def go(lab):
        X_, start, same, opts, parts = data(lab, cls)
        src = HEAD + "at('%s.fit_transform')\n" % cls
        for its in (0, 1):
            src += "model = %s(R, max_its=%d, init='precomputed', %s)\n" % (cls, its, opts)
            if cls == "CMTF_ALS":
                src += "d, pairs = model.fit_transform(%s, initial_decomposition=%s)\n" % (X_, start)
                src += """
check_true('returned decomposition', d is model.decomposition)
check('number of pairs', len(pairs), 2)
for i in range(2):
    check('returned shared factor', pairs[i][0], model.decomposition.factor_matrices[1])
    check('returned factor of the matrix', pairs[i][1], model.uncoupled_factor_matrices[i])
"""
                continue
            src += "d = model.fit_transform(%s, initial_decomposition=%s)\n" % (X_, start)
            src += "check_true('returned decomposition', d is model.decomposition)\n"
            src += "other = %s(R, max_its=%d, init='precomputed', %s)\n" % (cls, its, opts)
            src += "other.fit(%s, initial_decomposition=%s)\ne = other.decomposition\n" % (X_, start)
            for p in parts:
                src += "check('same as fit: %s', d.%s, e.%s)\n" % (p, p, p)
        lab.run(src)
    return go


def printed(cls, freq, its, want):
    def go(lab):
        X_, start, same, opts, parts = data(lab, cls)
        module = "parafac2_module" if cls == "Parafac2_ALS" else "cp_module"
        opts = opts.replace("print_frequency=-1, ", "") + ("" if freq == "default" else ", print_frequency=%s" % freq)
        lab.run(HEAD + """
lines = []
def record(*args, **options):
    lines.append(model.current_iteration)
%s.print = record
at('%s.fit')
model = %s(R, max_its=%d, init='precomputed', %s)
model.fit(%s, initial_decomposition=%s)
check('iterations printed', lines, %r)
""" % (module, cls, cls, its, opts, X_, start, want))
    return go


def logged(cls):
    """Every logger is called, and only those given."""
    def go(lab):
        X_, start, same, opts, parts = data(lab, cls)
        lab.run(HEAD + """
p, q = Probe(), Probe()
at('%s.fit')
model = %s(R, max_its=1, init='precomputed', loggers=[p, q], %s)
model.fit(%s, initial_decomposition=%s)
check('calls of the first logger', p.calls, 1)
check('calls of the second logger', q.calls, 1)
""" % (cls, cls, opts, X_, start))
    return go


def files(cls, freq, path, want):
    def go(lab):
        X_, start, same, opts, parts = data(lab, cls)
        lab.run(HEAD + """
import os
at('%s.fit')
model = %s(R, max_its=1, init='precomputed', checkpoint_frequency=%s, checkpoint_path=%s, %s)
model.fit(%s, initial_decomposition=%s)
check('file written', os.path.exists('run.h5'), %r)
""" % (cls, cls, freq, path, opts, X_, start, want))
    return go


def positional(lab):
    """Parafac2_ALS.fit takes y, max_its and initial_decomposition by position as well."""
    X_, start, same, opts, parts = data(lab, "Parafac2_ALS")
    src = HEAD
    for method in ("fit", "fit_transform"):
        src += """
at('Parafac2_ALS.%s')
model = Parafac2_ALS(R, max_its=3, init='precomputed', %s)
model.%s(%s, None, 0, %s)
d = model.decomposition
check('iterations', model.current_iteration, 0)
""" % (method, opts, method, X_, start) + same
    lab.run(src)


def scenarios(tier):
    out = []
    for cls in ("CP_ALS", "Parafac2_ALS", "CMTF_ALS"):
        out.append(("%s, all options" % cls, constructed(cls)))
        for o in OPTS[cls][1:]:
            out.append(("%s, only %s" % (cls, o), constructed(cls, o)))
        out.append(("%s, no shared defaults" % cls, separate(cls)))
        for method in ("fit", "fit_transform"):
            out.append(("%s.%s, budgets" % (cls, method), budgets(cls, method)))
            out.append(("%s.%s, start" % (cls, method), started(cls, method)))
        out.append(("%s.fit, start, other spelling" % cls, started(cls, "fit", "PreComputed")))
        out.append(("%s.fit_transform, returned" % cls, returned(cls)))
        out.append(("%s, two loggers" % cls, logged(cls)))
        for freq, its, want in (("None", 1, []), ("-1", 1, []), ("0", 1, []), ("1", 2, [0, 1]), ("2", 2, [0])):
            if its == 1 or cls == "CP_ALS":
                out.append(("%s, print_frequency=%s" % (cls, freq), printed(cls, freq, its, want)))
        out.append(("%s, print_frequency=1, once" % cls, printed(cls, "1", 1, [0])))
        for freq in ("None", "0", "1", "5"):
            out.append(("%s, checkpoint_frequency=%s, path" % (cls, freq), files(cls, freq, "'run.h5'", True)))
            out.append(("%s, checkpoint_frequency=%s, no path" % (cls, freq), files(cls, freq, "None", False)))
    out.append(("Parafac2_ALS, by position", positional))
    return out
