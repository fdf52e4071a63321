"""C22: runs are isolated and reproducible."""
from tk import expr as X
from .common import IMPORTS, commas
from . import c18
from .c21 import data
RULE = """Abstract interpretation of each operation twice in one process from the same seed, random draws being numbered by
seed and position in NumPy's global stream and every other source (clock, own generators, object identities) giving new
values: the results must coincide; the state outside of objects (module globals, class attributes, default arguments,
function attributes, library settings) must be as recorded before, and the global generator neither reseeded nor replaced."""
NO_SIZES = True
HEAD = IMPORTS + """
from tenkit.decomposition.cp import CP_ALS
from tenkit.decomposition.parafac2 import Parafac2_ALS
from tenkit.decomposition.cmtf import CMTF_ALS
from tenkit.decomposition.logging import logger as logging_module
import tenkit.log

def outcome(m):
    d = m.decomposition
    out = [m.SSE, m.loss, m.current_iteration]
    if isinstance(d, KruskalTensor):
        out = out + list(d.factor_matrices) + [d.weights]
    else:
        out = out + [d.A, d.blueprint_B, d.C] + list(d.projection_matrices)
    if isinstance(m, CMTF_ALS):
        out = out + list(m.uncoupled_factor_matrices)
    return [named(x) for x in out]
"""


def twice(where, prep, op, between="", nested=True):
    """op assigns `result`, a list."""
    src = HEAD + prep + "\ndef operation():\n" + "".join("    " + l + "\n" for l in op.split("\n")) + "    return result\n"
    src += """
at(%r)
np.random.seed(7)
before, seeds = world(), events('seed')
first = operation()
state = rng_state()
check('the generator is not reseeded', events('seed'), seeds)
check('the generator is the one seeded', state[0], '7')
check('no generator of its own', events('own_rng'), 0)
same_world('state outside of objects', before)
""" % where
    src += between + """
np.random.seed(7)
second = operation()
check('draws of the repeated run', rng_state(), state)
check('number of results', len(second), len(first))
for i in range(len(first)):
    check('result of the repeated run', second[i], first[i])
same_world('state outside of objects', before)
"""
    return src


def numbers(lab):
    for i in range(3):
        lab.number("lam%d" % i, nonneg=True)


def fitting(cls, init="random", opts="", its=1, others=False, path=False):
    def go(lab):
        X_, start, same, base_opts, parts = data(lab, cls, init, opts)
        numbers(lab)
        start = start.replace("(A, H, C,", "(A.copy(), H.copy(), C.copy(),")
        prep, between = "", ""
        if init == "cp":
            prep = "CP_ALS._update_als_factor = lambda self, mode: None\n"
        if path:
            base_opts += ", checkpoint_path='run.h5'"
        op = "loggers = [logging_module.LossLogger(), logging_module.MSELogger(), logging_module.SSELogger(), logging_module.RMSELogger(), logging_module.ExplainedVarianceLogger()]\nmodel = %s(R, max_its=%d, init=%r, loggers=loggers, %s%s)\n" % (
            cls, its, init, base_opts, opts and ", " + opts)
        op += "model.fit(%s%s)\n" % (X_, ", initial_decomposition=" + start if init == "precomputed" else "")
        op += "result = outcome(model) + [l.log_metrics[0] for l in loggers] + [len(l.log_metrics) for l in loggers]"
        if others:
            # other models, of another rank, with options of their own
            lab.tensor("Z3", 3, 2, 2)
            lab.tensor("Zm", 3, 2)
            between = """
for cls, args in ((CP_ALS, [Z3]), (Parafac2_ALS, [Z3]), (CMTF_ALS, [Z3, [Zm], [0]])):
    for opts in ({}, {'non_negativity_constraints': [True, False, True]}, {'ridge_penalties': [1, 2, 3]}):
        other = cls(1, max_its=0, init='random', loggers=[logging_module.SSELogger()], checkpoint_path='other.h5',
                    checkpoint_frequency=1, print_frequency=1, **opts)
        other.fit(*args)
np.random.randn(3)
same_world('state outside of objects', before)
"""
        lab.run(twice("%s.fit" % cls, prep, op, between))
    return go


def interleaved(cls):
    """Another model fitted in between, on data of its own."""
    def go(lab):
        X_, start, same, base_opts, parts = c18.data(lab, cls)
        lab.tensor("Z3", 3, 2, 2)
        lab.tensor("Zm", 3, 2)
        other = {"CP_ALS": "Z3", "Parafac2_ALS": "Z3", "CMTF_ALS": "Z3, [Zm], [0]"}[cls]
        new = "%s(R, max_its=0, init='precomputed', %s)" % (cls, base_opts)
        start = start.replace("(A, H, C,", "(A.copy(), H.copy(), C.copy(),")
        src = HEAD + """
at('%s.continue_fit')
np.random.seed(7)
alone = %s
alone.fit(%s, initial_decomposition=%s)
alone.continue_fit(max_its=1)
want = outcome(alone)
np.random.seed(7)
model = %s
model.fit(%s, initial_decomposition=%s)
drawn = rng_state()
other = %s(1, max_its=1, init='random', print_frequency=-1, non_negativity_constraints=[True, True, False])
other.fit(%s)
model.continue_fit(max_its=1)
got = outcome(model)
for i in range(len(want)):
    check('result of the interrupted run', got[i], want[i])
""" % (cls, new, X_, start, new, X_, start, cls, other)
        lab.run(src)
    return go


def refitted(cls, init="random", opts=""):
    """A model that has been used gives what a new one gives."""
    def go(lab):
        X_, start, same, base_opts, parts = c18.data(lab, cls)
        numbers(lab)
        R = lab.dims("R")
        # data of other sizes for the first fit
        lab.tensor("W", lab.dims("a"), X.add(R, lab.dims("b", lb=0)), 2 if cls == "Parafac2_ALS" else lab.dims("c"))
        lab.tensor("V", X.add(R, lab.dims("b", lb=0)), lab.dims("m"))
        first = {"CP_ALS": "W", "Parafac2_ALS": "W", "CMTF_ALS": "W, [V], [1]"}[cls]
        extra = opts and ", " + opts
        start = start.replace("(A, H, C,", "(A.copy(), H.copy(), C.copy(),")
        init_arg = ", initial_decomposition=" + start if init == "precomputed" else ""
        lab.run(HEAD + """
at('%s.fit')
used = %s(R, max_its=1, init='random', %s%s)
used.fit(%s)
used.init = %r
np.random.seed(7)
used.fit(%s%s)
got = outcome(used)
np.random.seed(7)
new = %s(R, max_its=1, init=%r, %s%s)
new.fit(%s%s)
want = outcome(new)
for i in range(len(want)):
    check('result of a model used before', got[i], want[i])
""" % (cls, cls, base_opts, extra, first, init, X_, init_arg, cls, init, base_opts, extra, X_, init_arg))
    return go


OPERATIONS = [
    ("KruskalTensor.random_init", "d = KruskalTensor.random_init([2, 3, 4], 2)\nresult = list(d.factor_matrices) + [d.weights]"),
    ("KruskalTensor.random_init, uniform", "d = KruskalTensor.random_init([2, 3], 2, 'uniform')\nresult = list(d.factor_matrices) + [d.weights]"),
    ("Parafac2Tensor.random_init", "d = Parafac2Tensor.random_init([3, [2, 4], 2], 2)\n"
     "result = [d.A, d.blueprint_B, d.C] + list(d.projection_matrices)"),
    ("utils.create_random_factors", "fs, norms = utils.create_random_factors([3, 2], 2)\nresult = list(fs) + list(norms)"),
    ("utils.create_random_uniform_factors", "fs, norms = utils.create_random_uniform_factors([3, 2], 2)\nresult = list(fs) + list(norms)"),
]
DETERMINISTIC = [
    ("base.khatri_rao", "result = [base.khatri_rao(A, B), base.khatri_rao(A, B, A, skip=1), base.kron(A, B)]"),
    ("base.matrix_khatri_rao_product", "result = [base.matrix_khatri_rao_product(X, [A, B, C], m) for m in range(3)]"),
    ("base.unfold", "result = [base.unfold(X, m) for m in range(3)] + [base.fold(base.unfold(X, 1), 1, X.shape)]"),
    ("base.flatten_factors", "f = base.flatten_factors([A, B])\nresult = [f] + list(base.unflatten_factors(f, 2, [3, 4]))"),
    ("base.add_rightsolve_ridge", "result = [base.add_rightsolve_ridge(base.rightsolve, 2)(A.T, np.ones((2, 3))), base.add_rightsolve_ridge("
     "base.non_negative_rightsolve, 3)(A.T, np.ones((2, 3)))]"),
    ("metrics.factor_match_score", "s = metrics.factor_match_score([A, B], [A + 1, B + 2])\nresult = [s[0]]"),
    ("metrics.percent_explained", "result = [metrics.percent_explained(X, X + 1), metrics.tensor_completion_score(X, X + 1, X)]"),
    ("utils.normalize_factors", "fs, ns = utils.normalize_factors([A, B])\nresult = fs + ns"),
    ("KruskalTensor", "d = KruskalTensor([A, B, C])\nresult = [d.construct_tensor(), d.degeneracy(), d.weights, KruskalTensor([A, B], [1, 2]).construct_tensor()]"),
    ("EvolvingTensor", "d = EvolvingTensor(A, [B, B + 1], C)\nresult = [d.construct_tensor(), d.degeneracy()] + d.construct_slices()"),
    ("Parafac2Tensor", "d = Parafac2Tensor(A, C, C, [B, B + 1])\nresult = [d.construct_tensor(), d.B[1]]"),
]


def operation(name, op, drawn):
    def go(lab):
        lab.tensor("A", 3, 2)
        lab.tensor("B", 4, 2)
        lab.tensor("C", 2, 2)
        lab.tensor("X", 3, 4, 2)
        lab.run(twice(name, "", op))
    return go


def scenarios(tier):
    out = []
    for name, op in OPERATIONS:
        out.append((name, operation(name, op, True)))
    for name, op in DETERMINISTIC:
        out.append((name, operation(name, op, False)))
    for cls in ("CP_ALS", "Parafac2_ALS", "CMTF_ALS"):
        for init in ["random", "svd", "precomputed"] + (["cp"] if cls == "Parafac2_ALS" else []):
            out.append(("%s.fit, init=%s" % (cls, init), fitting(cls, init)))
        out.append(("%s.fit, among others" % cls, fitting(cls, others=True)))
        out.append(("%s.fit, with checkpoints" % cls, fitting(cls, opts="checkpoint_frequency=1", path=True)))
        out.append(("%s.fit, regularised" % cls, fitting(cls, opts="ridge_penalties=[lam0, lam1, lam2]")))
        out.append(("%s.fit, non-negative" % cls, fitting(cls, opts="non_negativity_constraints=[True, False, True]")))
        out.append(("%s.fit, orthonormal" % cls, fitting(cls, opts="orthonormality_constraints=[True, False, False]")))
        out.append(("%s, interleaved" % cls, interleaved(cls)))
        out.append(("%s, used before" % cls, refitted(cls)))
        out.append(("%s, used before, precomputed" % cls, refitted(cls, "precomputed")))
        out.append(("%s, used before, constrained" % cls, refitted(
            cls, "random", "non_negativity_constraints=[False, False, True], ridge_penalties=[lam0, lam1, lam2]")))
    if tier == "thorough":
        for cls in ("CP_ALS", "Parafac2_ALS", "CMTF_ALS"):
            for init in ("random", "precomputed"):
                out.append(("%s.fit, init=%s, two iterations" % (cls, init), fitting(cls, init, its=2)))
    return out
