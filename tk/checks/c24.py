"""C24: each initialisation scheme builds the documented starting point."""
from tk import expr as X
from .common import IMPORTS, commas
RULE = """Abstract interpretation of a fit with no iterations for every scheme and spelling of its name: the decomposition
left in the model is compared with the documented starting point (sizes, norms, signs, singular vectors of the
unfoldings, factors of the CP model, the given or stored decomposition)."""
NO_SIZES = True
HEAD = IMPORTS + """
from tenkit.decomposition.cp import CP_ALS
from tenkit.decomposition.parafac2 import Parafac2_ALS
from tenkit.decomposition.cmtf import CMTF_ALS
"""


def tall(lab, name="R"):
    return X.add(lab.dims("R"), lab.dims(name, lb=0))


def sizes(lab, order, big=False):
    return [tall(lab, "x%d" % m) if big else lab.dims("d%d" % m) for m in range(order)]


def data(lab, cls, order=3, big=False, slices=2, equal=False):
    """(arguments of fit, the sizes, whether the second mode's sizes are a list)"""
    if cls == "Parafac2_ALS":
        i = tall(lab, "i") if big else lab.dims("I")
        js = [tall(lab, "j" if equal else "j%d" % k) for k in range(slices)]
        for k in range(slices):
            lab.tensor("X%d" % k, i, js[k])
        if equal:
            lab.tensor("X", i, js[0], slices)
        return ("X" if equal else "[%s]" % commas("X%d", slices)), [i, js, X.const(slices)]
    ds = sizes(lab, order, big)
    lab.tensor("X", *ds)
    if cls == "CMTF_ALS":
        lab.tensor("Y0", ds[0], lab.dims("m0"))
        lab.tensor("Y1", ds[order - 1], lab.dims("m1"))
        return "X, [Y0, Y1], [0, %d]" % (order - 1), ds
    return "X", ds


def random(cls, order=3, spelling="random", nonneg=None, equal=False):
    def go(lab):
        R = lab.dims("R")
        args, ds = data(lab, cls, order, equal=equal)
        opts = "" if nonneg is None else ", non_negativity_constraints=%r" % (nonneg,)
        src = HEAD + """
at('%s, init=%s')
model = %s(R, init=%r, max_its=0, print_frequency=-1%s)
before = rng_state()[1]
model.fit(%s)
d = model.decomposition
check('rank', d.rank, R)
check_true('random numbers are drawn', rng_state()[1] > before)
check('iterations made', model.current_iteration, 0)
""" % (cls, spelling, cls, spelling, opts, args)
        if cls == "Parafac2_ALS":
            src += "sizes = [X%s.shape[0], %d]\n" % ("" if equal else "0", len(ds[1]))
            src += "widths = [%s]\n" % ", ".join("X.shape[1]" if equal else "X%d.shape[1]" % k for k in range(len(ds[1])))
            src += """
check('shape of A', d.A.shape, (sizes[0], R))
check('shape of C', d.C.shape, (sizes[1], R))
check('shape of the blueprint', d.blueprint_B.shape, (R, R))
check('number of slices', len(d.projection_matrices), len(widths))
check_true('A is non-negative', np.all(d.A >= 0))
check_true('C is non-negative', np.all(d.C >= 0))
check_possible('A is not zero', -d.A)
for k in range(len(widths)):
    P = d.projection_matrices[k]
    check('shape of a projection matrix', P.shape, (widths[k], R))
    check_nondegenerate('projection matrices are orthonormal', P.T @ P, np.eye(R))
    check_possible('projection matrices have both signs', P)
"""
        else:
            src += "sizes = X.shape\n"
            src += "check('number of factor matrices', len(d.factor_matrices), %d)\n" % order
            src += "check('weights', d.weights, np.ones(R))\n"
            for m in range(order):
                src += "U = d.factor_matrices[%d]\n" % m
                src += "check('shape of factor matrix %d', U.shape, (sizes[%d], R))\n" % (m, m)
                src += "check_rounded('components of mode %d have unit length', np.sum(U*U, axis=0), np.ones(R))\n" % m
                if nonneg is not None and nonneg[m]:
                    src += "check_true('mode %d is non-negative', np.all(U >= 0))\n" % m
                else:
                    src += "check_possible('mode %d has both signs', U)\n" % m
            if cls == "CMTF_ALS":
                src += "check('number of coupled factor matrices', len(model.uncoupled_factor_matrices), 2)\n"
                for i, m in enumerate((0, order - 1)):
                    src += "V = model.uncoupled_factor_matrices[%d]\n" % i
                    src += "check('shape of coupled factor matrix %d', V.shape, (Y%d.shape[1], R))\n" % (i, i)
                    if nonneg is not None and nonneg[m]:
                        src += "check_true('coupled factor matrix %d is non-negative', np.all(V >= 0))\n" % i
                    else:
                        src += "check_possible('coupled factor matrix %d has both signs', V)\n" % i
        lab.run(src)
    return go


def svd(cls, order=3, spelling="svd", slices=2):
    def go(lab):
        args, ds = data(lab, cls, order, big=True, slices=slices)
        src = HEAD + """
at('%s, init=%s')
model = %s(R, init=%r, max_its=0, print_frequency=-1)
model.fit(%s)
d = model.decomposition
check('rank', d.rank, R)
check('iterations made', model.current_iteration, 0)
""" % (cls, spelling, cls, spelling, args)
        if cls == "Parafac2_ALS":
            src += "Y = %s\n" % " + ".join("X%d @ X%d.T" % (k, k) for k in range(slices))
            src += """
V = np.linalg.svd(Y)[2].T[:, :R]
check('shape of A', d.A.shape, (X0.shape[0], R))
A = d.A/np.linalg.norm(d.A, axis=0)
check_nondegenerate('A holds the leading singular vectors of the slices', np.abs(A), np.abs(V))
check('blueprint', d.blueprint_B, np.eye(R))
check('C', d.C, np.ones((%d, R)))
check('number of slices', len(d.projection_matrices), %d)
A = named(d.A)
""" % (slices, slices)
            for k in range(slices):
                src += """
u, s, vh = np.linalg.svd(A.T @ X%d, full_matrices=False)
check_nondegenerate('projection matrix %d is the best for A', d.projection_matrices[%d], (u @ vh).T)
""" % (k, k, k)
        else:
            src += "check('number of factor matrices', len(d.factor_matrices), %d)\n" % order
            src += "check('weights', d.weights, np.ones(R))\n"
            for m in range(order):
                src += """
W = np.linalg.svd(np.moveaxis(X, %d, 0).reshape(X.shape[%d], -1))[0][:, :R]
check_rounded('mode %d holds the leading singular vectors of the unfolding', np.abs(d.factor_matrices[%d]), np.abs(W))
""" % (m, m, m, m)
        lab.run(src)
    return go


def given(cls, spelling="precomputed", order=3, weights=True, orth=()):
    """The given decomposition; with weights, the same tensor."""
    def go(lab):
        R = lab.dims("R")
        args, ds = data(lab, cls, order, slices=3 if order == 4 else 2)
        opts = ""
        if orth:
            opts = ", orthonormality_constraints=%r" % [m in orth for m in range(order)]
        if cls == "Parafac2_ALS":
            lab.tensor("A", ds[0], R)
            lab.tensor("H", R, R)
            lab.tensor("C", len(ds[1]), R)
            for k, j in enumerate(ds[1]):
                lab.tensor("P%d" % k, j, R)
            K = len(ds[1])
            copies = ", ".join("P%d.copy()" % k for k in range(K))
            lab.run(HEAD + """
start = Parafac2Tensor(A.copy(), H.copy(), C.copy(), [%s])
at('%s, init=%s')
model = %s(R, init=%r, max_its=0, print_frequency=-1%s)
model.fit(%s, initial_decomposition=start)
d = model.decomposition
check('A', d.A, A)
check('blueprint', d.blueprint_B, H)
check('C', d.C, C)
check('projection matrices', list(d.projection_matrices), [%s])
check('iterations made', model.current_iteration, 0)
""" % (copies, cls, spelling, cls, spelling, opts, args, commas("P%d", K)))
            return
        for m in range(order):
            lab.tensor("U%d" % m, ds[m], R)
        lab.tensor("w", R)
        lab.run(HEAD + """
start = KruskalTensor([%s]%s)
want = KruskalTensor([%s]%s).construct_tensor()
at('%s, init=%s')
model = %s(R, init=%r, max_its=0, print_frequency=-1%s)
model.fit(%s, initial_decomposition=start)
d = model.decomposition
check('the tensor of the given decomposition', d.construct_tensor(), want)
check('iterations made', model.current_iteration, 0)
""" % (", ".join("U%d.copy()" % m for m in range(order)), ", w.copy()" if weights else "", commas("U%d", order),
            ", w" if weights else "", cls, spelling, cls, spelling, opts, args) + (
            "" if weights or cls == "CMTF_ALS" else "check('factor matrices', d.factor_matrices, [%s])\ncheck('weights', d.weights, np.ones(R))\n" % commas(
                "U%d", order)))
    return go


def stored(cls, spelling, path="run.h5", by_path=False):
    """The decomposition of the last checkpoint."""
    def go(lab):
        R = lab.dims("R")
        args, ds = data(lab, cls)
        if cls == "Parafac2_ALS":
            names = {"A": (ds[0], R), "H": (R, R), "C": (2, R), "P0": (ds[1][0], R), "P1": (ds[1][1], R)}
            ctor = "Parafac2Tensor(A%(s)s, H%(s)s, C%(s)s, [P0%(s)s, P1%(s)s])"
            check = "check('A', d.A, An)\ncheck('blueprint', d.blueprint_B, Hn)\ncheck('C', d.C, Cn)\n" \
                    "check('projection matrices', list(d.projection_matrices), [P0n, P1n])\n"
        else:
            names = {"U%d" % m: (ds[m], R) for m in range(3)}
            names["w"] = (R,)
            ctor = "KruskalTensor([U0%(s)s, U1%(s)s, U2%(s)s], w%(s)s)"
            check = "check('the stored tensor', d.construct_tensor(), KruskalTensor([U0n, U1n, U2n], wn).construct_tensor())\n"
        for s in ("o", "n", "f"):
            for nm, sh in names.items():
                lab.tensor(nm + s, *sh)
        lab.run(HEAD + """
with h5py.File(%(path)r, 'w') as h5:
    %(old)s.store_in_hdf5_group(h5.create_group('checkpoint_00009'))
    %(first)s.store_in_hdf5_group(h5.create_group('checkpoint_00002'))
    %(new)s.store_in_hdf5_group(h5.create_group('checkpoint_00005'))
    h5.attrs['final_iteration'] = 5
at('%(cls)s, init=%(spelling)s')
model = %(cls)s(R, init=%(init)r, max_its=0, print_frequency=-1)
model.fit(%(args)s%(more)s)
d = model.decomposition
%(check)s
check('iterations made', model.current_iteration, 6)
""" % dict(path=path, old=ctor % {"s": "o"}, first=ctor % {"s": "f"}, new=ctor % {"s": "n"}, cls=cls,
           spelling=spelling, init=path if by_path else spelling, args=args,
           more="" if by_path else ", initial_decomposition=%r" % path, check=check))
    return go


def by_cp(spelling="cp", array=True, slices=2):
    def go(lab):
        R = lab.dims("R")
        # all modes of different lengths
        i = X.add(X.const(slices + 1), lab.dims("i", lb=0))
        ds = [i, [X.add(tall(lab, "j"), X.add(i, X.const(1)))]*slices]
        for k in range(slices):
            lab.tensor("X%d" % k, i, ds[1][k])
        lab.tensor("X", i, ds[1][0], slices)
        args = "X"
        if not array:
            args = "[%s]" % commas("X%d", slices)
            stack = "np.stack([%s], axis=2)" % commas("X%d", slices)
        else:
            stack = "X"
        lab.tensor("GA", ds[0], R)
        lab.tensor("GB", ds[1][0], R)
        lab.tensor("GC", slices, R)
        lab.run(HEAD + """
seen = {}
def fit(self, X, y=None, *, max_its=None, initial_decomposition=None):
    # leaves the same factor matrices whatever the order of the modes in the CP model
    seen['max_its'] = self.max_its if max_its is None else max_its
    seen['rank'] = self.rank
    seen['data'] = X
    seen['constraints'] = [self.non_negativity_constraints, self.orthonormality_constraints, self.ridge_penalties]
    seen['init'] = self.init
    self.X = X
    self.decomposition = KruskalTensor([{GA.shape[0]: GA, GB.shape[0]: GB, GC.shape[0]: GC}[n].copy() for n in X.shape])
    self.current_iteration = 1
CP_ALS.fit = fit
at('Parafac2_ALS, init=%s')
model = Parafac2_ALS(R, init=%r, max_its=0, print_frequency=-1)
model.fit(%s)
if not seen:
    note('the CP model is not fitted by its fit method')
else:
    d = model.decomposition
    check('iterations of the CP model', seen['max_its'], 20)
    check('rank of the CP model', seen['rank'], R)
    check('constraints of the CP model', seen['constraints'], [None, None, None])
    X_ = %s
    order = [[GA.shape[0], GB.shape[0], GC.shape[0]].index(n) for n in seen['data'].shape]
    check('data of the CP model', seen['data'], X_.transpose(order))
    check('A', d.A, GA)
    check('C', d.C, GC)
    check('shape of the blueprint', d.blueprint_B.shape, (R, R))
    check('number of slices', len(d.projection_matrices), %d)
    for k in range(%d):
        P = d.projection_matrices[k]
        check('shape of a projection matrix', P.shape, (GB.shape[0], R))
        check_nondegenerate('projection matrices are orthonormal', P.T @ P, np.eye(R))
        q, r = np.linalg.qr(GB)
        check_nondegenerate('evolving factor matrix', P @ d.blueprint_B, q @ r)      # which is GB
    check('iterations made', model.current_iteration, 0)
""" % (spelling, spelling, args, stack, slices, slices))
    return go


def scenarios(tier):
    out = []
    for cls in ("CP_ALS", "CMTF_ALS", "Parafac2_ALS"):
        for s in ("random", "Random", "RANDOM"):
            out.append(("%s, %s" % (cls, s), random(cls, spelling=s)))
        for s in ("svd", "SVD", "Svd"):
            out.append(("%s, %s" % (cls, s), svd(cls, spelling=s)))
        for s in ("precomputed", "Precomputed", "PRECOMPUTED"):
            out.append(("%s, %s" % (cls, s), given(cls, s, weights=False)))
        for s in ("from_checkpoint", "From_Checkpoint"):
            out.append(("%s, %s" % (cls, s), stored(cls, s)))
        out.append(("%s, from_checkpoint, capital path" % cls, stored(cls, "from_checkpoint", "Run/Model.H5")))
        out.append(("%s, path" % cls, stored(cls, "run.h5", "run.h5", True)))
        out.append(("%s, capital path" % cls, stored(cls, "Run.H5", "Run.H5", True)))
        out.append(("%s, a file named random.h5" % cls, stored(cls, "random.h5", "random.h5", True)))
    for cls in ("CP_ALS", "CMTF_ALS"):
        for pattern in ([True, False, False], [False, True, True], [True, True, True], [False, False, True]):
            out.append(("%s, random, non-negative %s" % (cls, pattern), random(cls, nonneg=pattern)))
        out.append(("%s, precomputed with weights" % cls, given(cls)))
    out.append(("Parafac2_ALS, random, equal slices", random("Parafac2_ALS", equal=True)))
    out.append(("Parafac2_ALS, random, non-negative", random("Parafac2_ALS", nonneg=[True, False, True])))
    out.append(("CP_ALS, precomputed with weights, first mode orthonormal", given("CP_ALS", orth=()) ))
    for order in (2, 4):
        out.append(("CP_ALS, random, order %d" % order, random("CP_ALS", order)))
        out.append(("CP_ALS, svd, order %d" % order, svd("CP_ALS", order)))
        out.append(("CP_ALS, precomputed, order %d" % order, given("CP_ALS", order=order)))
    out.append(("Parafac2_ALS, svd, three slices", svd("Parafac2_ALS", slices=3)))
    for s in ("cp", "CP", "Cp"):
        out.append(("Parafac2_ALS, " + s, by_cp(s)))
    out.append(("Parafac2_ALS, cp, list", by_cp(array=False)))
    out.append(("Parafac2_ALS, cp, three slices", by_cp(slices=3)))
    return out
