"""C28: scalar diagnostics."""
from tk import expr as X
from .common import IMPORTS, commas
RULE = """Abstract interpretation of the diagnostics on symbolic arrays of any size: the returned value must be the normal
form of its definition."""
NO_SIZES = True
HEAD = IMPORTS


def arrays(lab, n, *names, **kw):
    d = [lab.dims("d%d" % m) for m in range(n)]
    for a in names:
        lab.tensor(a, *d, **kw)


def explained(n):
    def go(lab):
        arrays(lab, n, "T", "Y")
        lab.run(HEAD + """
at('metrics.percent_explained')
a, b = T.copy(), Y.copy()
check('value', metrics.percent_explained(a, b), 1 - np.sum((T - Y)**2)/np.sum(T**2))
check('perfect', metrics.percent_explained(T, T.copy()), 1)
check('first argument unchanged', a, T)
check('second argument unchanged', b, Y)
""")
    return go


def completion(n, integers):
    def go(lab):
        arrays(lab, n, "T", "Y")
        arrays(lab, n, "M")
        lab.run(HEAD + """
at('metrics.tensor_completion_score')
W = (M > 0).astype(int)%s
missing = M <= 0
a, b, w = T.copy(), Y.copy(), W.copy()
want = np.sqrt(np.sum(missing*(T - Y)**2))/np.sqrt(np.sum(missing*T**2))
check('value', metrics.tensor_completion_score(a, b, w), want)
check('first argument unchanged', a, T)
check('second argument unchanged', b, Y)
check('mask unchanged', w, W)
""" % ("" if integers else "*1.0"))
    return go


def lever(R):
    def go(lab):
        if R:
            r, n = R, lab.dims("n", lb=R)
        else:
            r = lab.dims("R")
            n = X.add(r, lab.dims("e0", lb=0))
        lab.tensor("F", n, r)
        lab.run(HEAD + """
at('metrics.leverage')
f = F.copy()
got = metrics.leverage(f)
check('shape', got.shape, (F.shape[0],))
Q, _ = np.linalg.qr(F)
U, s, _ = np.linalg.svd(F, full_matrices=False)
check_any('diagonal of the projection', got, np.diagonal(F @ np.linalg.inv(F.T @ F) @ F.T), np.sum((F @ np.linalg.inv(F.T @ F))*F, axis=1),
          np.sum(Q**2, axis=1), np.diagonal(F @ np.linalg.pinv(F)), np.sum(U**2, axis=1),
          np.diagonal(F @ np.linalg.solve(F.T @ F, F.T)))
check('factor unchanged', f, F)
""")
    return go


COS = """
def cosines(factors):
    out = 1
    for f in factors:
        n = np.sqrt(np.sum(f**2, axis=0))
        out = out*(f.T @ f)/np.outer(n, n)
    return out
"""


def kruskal(n, R):
    def go(lab):
        r = R or lab.dims("R")
        for m in range(n):
            lab.tensor("A%d" % m, lab.dims("d%d" % m), r)
        lab.tensor("w", r, nonneg=True)
        lab.run(HEAD + COS + """
at('KruskalTensor.degeneracy')
factors = [%s]
model = KruskalTensor([f.copy() for f in factors], w.copy())
got = model.degeneracy()
check('shape', got.shape, (A0.shape[1],)*2)
check_rounded('cosines', got, cosines(factors))
for i in range(%d):
    check('factor matrix %%d unchanged' %% i, model.factor_matrices[i], factors[i])
check('the second call agrees', model.degeneracy(), got)
""" % (commas("A%d", n), n))
    return go


def evolving(parafac2, K, regular):
    def go(lab):
        R = 2 if parafac2 else lab.dims("R")
        I = lab.dims("I")
        lab.tensor("A", I, R)
        lab.tensor("C", K, R)
        if parafac2:
            lab.tensor("H", R, R)
        J = lab.dims("J", lb=2)
        for k in range(K):
            lab.tensor("B%d" % k, J if regular else lab.dims("J%d" % k, lb=2), R)
        make = "Parafac2Tensor(A.copy(), H.copy(), C.copy(), [%s])" if parafac2 else "EvolvingTensor(A.copy(), [%s], C.copy())"
        lab.run(HEAD + COS + """
at('%s.degeneracy')
slices = [%s]
model = %s
B = np.concatenate(%s)
got = model.degeneracy()
check('shape', got.shape, (A.shape[1],)*2)
check_rounded('cosines', got, cosines([A, B, C]))
check('A unchanged', model.A, A)
check('C unchanged', model.C, C)
""" % ("Parafac2Tensor" if parafac2 else "EvolvingTensor", commas("B%d", K), make % commas("B%d.copy()", K),
       "[P @ H for P in slices]" if parafac2 else "slices"))
    return go


def scenarios(tier):
    big = tier == "thorough"
    out = []
    for n in (1, 2, 3, 4) + ((5,) if big else ()):
        out.append(("explained, order %d" % n, explained(n)))
        for i in (False, True):
            out.append(("completion, order %d%s" % (n, ", integer mask" if i else ""), completion(n, i)))
        out.append(("degeneracy, order %d" % n, kruskal(n, 0)))
        out.append(("degeneracy, order %d, one component" % n, kruskal(n, 1)))
    for R in (0, 1, 2):
        out.append(("leverage, %s components" % (R or "any number of"), lever(R)))
    for K in (1, 2, 3):
        for reg in (True, False):
            out.append(("degeneracy of an evolving tensor, %d %s slices" % (K, "equal" if reg else "other"), evolving(False, K, reg)))
            out.append(("degeneracy of a PARAFAC2 tensor, %d %s slices" % (K, "equal" if reg else "other"), evolving(True, K, reg)))
    return out
