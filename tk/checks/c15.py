"""C15: one PARAFAC2-ALS iteration."""
from tk import expr as X
from .c14 import SPEC
from .common import IMPORTS, commas
RULE = """Abstract interpretation of Parafac2_ALS.fit and continue_fit on symbolic slices: starting from the decomposition
the model holds, the projection matrices after an iteration must be the Procrustes solutions for the previous A, C and
blueprint, and A, blueprint and C the results of cp_updates_per_it CP steps (with the penalties and constraints asked
for) on the data projected with the new projection matrices."""
NO_SIZES = True
HEAD = IMPORTS + "from tenkit.decomposition.parafac2 import Parafac2_ALS\nfrom scipy.optimize import nnls\n" + SPEC + """
def expected(slices, A, H, C, *rest):
    P = []
    for k in range(len(slices)):
        U, s, Vt = np.linalg.svd(slices[k].T @ (A*C[k]) @ H.T, full_matrices=False)
        P.append(named(U @ Vt))
    return P

def projected(slices, P):
    T = np.zeros((slices[0].shape[0], P[0].shape[1], len(slices)))
    for k in range(len(slices)):
        T[:, :, k] = slices[k] @ P[k]
    return named(T)

def cp_steps(slices, P, fs, new, updates, kinds, lams):
    T = projected(slices, P)
    if updates == 1:
        # each mode is solved for the factor matrices the model itself has found so far
        return [solution(T, new[:m] + fs[m:], m, kinds[m], lams[m]) for m in range(3)]
    fs = list(fs)
    for u in range(updates):
        for m in range(3):
            fs[m] = named(solution(T, fs, m, kinds[m], lams[m]))
    return fs
"""


def problem(lab, K, tensor, given=True):
    R = lab.dims("R")
    I = X.add(R, lab.dims("i", lb=0))
    js = []
    for k in range(K):
        j = X.add(R, lab.dims("j" if tensor else "j%d" % k, lb=0))
        js.append(j)
        if given:
            lab.tensor("P%d" % k, j, R)
        if not tensor:
            lab.tensor("X%d" % k, I, j)
    if tensor:
        lab.tensor("XT", I, js[0], K)
    if given:
        lab.tensor("A", I, R)
        lab.tensor("H", R, R)
        lab.tensor("C", K, R)
    src = "slices = [%s]\n" % (", ".join("XT[:, :, %d]" % k for k in range(K)) if tensor else commas("X%d", K))
    return R, src, "XT" if tensor else "slices"


def compare(K, kinds):
    src = "d = model.decomposition\n"
    src += "Pn = [named(p) for p in d.projection_matrices]\n"
    src += "check('number of slices', len(d.projection_matrices), %d)\n" % K
    src += "want = expected(slices, *old)\n"
    for k in range(K):
        src += "check_nondegenerate('projection matrix %d', Pn[%d], want[%d])\n" % (k, k, k)
    src += "new = [named(d.A), named(d.blueprint_B), named(d.C)]\n"
    src += "fs = cp_steps(slices, Pn, old[:3], new, old[3], old[4], old[5])\n"
    for m, nm in enumerate(("A", "blueprint_B", "C")):
        src += "%s('%s', new[%d], fs[%d])\n" % ("check_nondegenerate" if kinds[m] == "orth" else "check", nm, m, m)
    src += """
check('slice 0 of the model', d.construct_slice(0), np.einsum('ir,r,jr->ij', d.A, d.C[0], d.projection_matrices[0] @ d.blueprint_B))
before = [p.copy() for p in d.projection_matrices]
keep = [d.A.copy(), d.blueprint_B.copy(), d.C.copy()]
d.projection_matrices[0][...] = 0
"""
    for k in range(1, K):
        src += "check('storage of projection matrix %d', d.projection_matrices[%d], before[%d])\n" % (k, k, k)
    src += "check('storage of A', d.A, keep[0])\n"
    return src


def iterate(K, tensor=False, updates=1, kinds=("plain",)*3, ridge=(), again=False):
    def go(lab):
        R, src, data = problem(lab, K, tensor)
        for m in ridge:
            lab.number("lam%d" % m, nonneg=True)
        lams = ["lam%d" % m if m in ridge else "0" for m in range(3)] if ridge else ["None"]*3
        opts = ""
        if ridge:
            opts += ", ridge_penalties=[%s]" % ", ".join(lams)
        if "nonneg" in kinds:
            opts += ", non_negativity_constraints=%r" % [k == "nonneg" for k in kinds]
        if "orth" in kinds:
            opts += ", orthonormality_constraints=%r" % [k == "orth" for k in kinds]
        tail = ", %d, %r, [%s]]" % (updates, list(kinds), ", ".join(lams))
        src = HEAD + src
        # where the iterations start from, with the constraints imposed, is not the matter here
        src += """
start = Parafac2Tensor(A.copy(), H.copy(), C.copy(), [%s])
model = Parafac2_ALS(R, max_its=0, init='precomputed', print_frequency=-1%s)
model.fit(%s, initial_decomposition=start)
d = model.decomposition
old = [named(d.A.copy()), named(d.blueprint_B.copy()), named(d.C.copy())%s
start = Parafac2Tensor(A, H, C, [%s])
at('Parafac2_ALS.fit')
model = Parafac2_ALS(R, max_its=1, convergence_tol=-np.inf, init='precomputed', print_frequency=-1, cp_updates_per_it=%d%s)
model.fit(%s, initial_decomposition=start)
""" % (", ".join("P%d.copy()" % k for k in range(K)), opts, data, tail, commas("P%d", K), updates, opts, data)
        src += compare(K, kinds)
        if again:
            src = src.split("before = [p.copy")[0]
            src += """
old = [named(d.A), named(d.blueprint_B), named(d.C)%s
at('Parafac2_ALS.continue_fit')
model.continue_fit(max_its=2)
""" % tail + compare(K, kinds)
        lab.run(src)
    return go


def initialised(init, K=2, tensor=False):
    """Other initialisations: from whatever starting point, one iteration."""
    def go(lab):
        R, src, data = problem(lab, K, tensor, given=False)
        src = HEAD + src
        if init == "cp":
            # the result of the CP fit is arbitrary here
            lab.tensor("A", X.add(lab.dims("i", lb=0), R), R)
            lab.tensor("B", X.add(lab.dims("j", lb=0), R), R)
            lab.tensor("C", K, R)
            src += """
from tenkit.decomposition.cp import CP_ALS
def cp_fit(self, X, y=None, **options):
    self.decomposition = KruskalTensor([C, A, B])
CP_ALS.fit = cp_fit
"""
        src += """
at('Parafac2_ALS, init=%s')
model = Parafac2_ALS(R, max_its=0, convergence_tol=-np.inf, init=%r, print_frequency=-1, cp_updates_per_it=1)
model.fit(%s)
d = model.decomposition
old = [named(d.A), named(d.blueprint_B), named(d.C), 1, ['plain']*3, [None]*3]
model.continue_fit(max_its=1)
""" % (init, init, data) + compare(K, ["plain"]*3)
        lab.run(src)
    return go


def scenarios(tier):
    out = [("%d slices" % K, iterate(K)) for K in (1, 2, 3)]
    out.append(("tensor", iterate(2, tensor=True)))
    out.append(("2 CP updates", iterate(2, updates=2)))
    out.append(("two iterations", iterate(2, again=True)))
    for m in range(3):
        out.append(("ridge on mode %d" % m, iterate(2, ridge=(m,))))
        out.append(("nonneg mode %d" % m, iterate(2, kinds=["nonneg" if i == m else "plain" for i in range(3)])))
    out.append(("orth mode 0", iterate(2, kinds=["orth", "plain", "plain"])))
    out.append(("orth mode 1", iterate(2, kinds=["plain", "orth", "plain"])))
    for init in ("random", "svd"):
        out.append(("init " + init, initialised(init)))
    out.append(("init cp", initialised("cp", tensor=True)))
    return out
