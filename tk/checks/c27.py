"""C27: core consistency."""
from tk import expr as X
from .common import IMPORTS
RULE = """Abstract interpretation of the core consistency functions and methods on symbolic data and factor matrices (any
mode lengths, one and two components, opaque orthogonal factorisations): the returned number must be the normal form of
100*(1 - ||G - T||^2/R), where G is the least squares core for the factor matrices with the component weights spread
evenly over the modes, written with any of the usual least squares formulas."""
NO_SIZES = True
HEAD = IMPORTS + """
from scipy.linalg import solve_triangular

def spread(factors, weights=None):
    norms = [np.sqrt(np.sum(f**2, axis=0, keepdims=True)) for f in factors]
    w = norms[0]*norms[1]*norms[2]
    if weights is not None:
        w = w*weights
    w = w**(1/3)
    return [f/n*w for f, n in zip(factors, norms)]

def cores(X, factors, weights=None):
    A, B, C = spread(factors, weights)
    R = A.shape[1]
    k = np.kron(np.kron(A, B), C)
    x = X.reshape(-1, 1)
    Q, U = np.linalg.qr(k)
    return [solve_triangular(U, Q.T @ x), np.linalg.lstsq(k, x, rcond=None)[0], np.linalg.solve(k.T @ k, k.T @ x),
            np.einsum('ijk,ai,bj,ck->abc', X, np.linalg.pinv(A), np.linalg.pinv(B), np.linalg.pinv(C)).reshape(-1, 1)]

def values(X, factors, normalized, weights=None):
    R = factors[0].shape[1]
    T = np.zeros((R, R, R))
    for r in range(R):
        T[r, r, r] = 1
    T = T.reshape(-1, 1)
    out = []
    for G in cores(X, factors, weights):
        d = np.sum(G**2) if normalized else R
        out.append(100*(1 - np.sum((G - T)**2)/d))
    return out
"""


def sizes(lab, R, names="IJK"):
    d = lab.dims(*names, lb=max(R, 1))
    for n, s in zip("ABC", d):
        lab.tensor(n, s, R)
    return d


def function(R, opts):
    def go(lab):
        lab.tensor("X", *sizes(lab, R))
        lab.run(HEAD + """
at('metrics.core_consistency')
got = metrics.core_consistency(X.copy(), A.copy(), B.copy(), C.copy()%s)
check('one number', np.ndim(got), 0)
check_any('value', got, *values(X, [A, B, C], %r))
""" % (opts, "True" in opts))
    return go


def unchanged(lab):
    lab.tensor("X", *sizes(lab, 2))
    lab.run(HEAD + """
at('metrics.core_consistency')
arrays = [X.copy(), A.copy(), B.copy(), C.copy()]
metrics.core_consistency(*arrays)
for name, a, b in zip('XABC', arrays, [X, A, B, C]):
    check(name + ' is not changed', a, b)
""")


def parafac2(R):
    """The data projected slice by slice."""
    def go(lab):
        K = 2
        I = lab.dims("I", lb=R)
        lab.tensor("A", I, R)
        lab.tensor("F", R, R)
        lab.tensor("C", K, R)
        for k in range(K):
            J = lab.dims("J%d" % k, lb=R)
            lab.tensor("P%d" % k, J, R)
            lab.tensor("X%d" % k, I, J)
        lab.run(HEAD + """
at('metrics.core_consistency_parafac2')
got = metrics.core_consistency_parafac2([X0, X1], [P0, P1], A.copy(), F.copy(), C.copy())
Y = np.stack([X0 @ P0, X1 @ P1], axis=-1)
check_any('value', got, *values(Y, [A, F, C], False))
""")
    return go


def kruskal(R, opts):
    def go(lab):
        lab.tensor("X", *sizes(lab, R))
        lab.tensor("w", R, nonneg=True)
        lab.run(HEAD + """
at('KruskalTensor.core_consistency')
model = KruskalTensor([A.copy(), B.copy(), C.copy()], w.copy())
got = model.core_consistency(X.copy()%s)
check_any('value', got, *values(X, [A, B, C], %r, w))
check('the weights are kept', model.weights, w)
for n, f, g in zip('ABC', model.factor_matrices, [A, B, C]):
    check(n + ' is kept', f, g)
""" % (opts, "True" in opts))
    return go


def rejected(lab):
    I, J = lab.dims("I", "J")
    lab.tensor("A", I, 2)
    lab.tensor("B", J, 2)
    lab.tensor("X", I, J)
    lab.run(HEAD + """
at('KruskalTensor.core_consistency')
model = KruskalTensor([A, B])
kind = 'accepted'
try:
    model.core_consistency(X)
except ValueError:
    kind = 'ValueError'
check('other orders are rejected', kind, 'ValueError')
""")


def scenarios(tier):
    out = [("other orders", rejected), ("arguments unchanged", unchanged)]
    for R in (1, 2) + ((3,) if tier == "thorough" else ()):
        for opts in ("", ", normalized=True"):
            d = "%d components%s" % (R, opts)
            out.append(("function, " + d, function(R, opts)))
            out.append(("Kruskal tensor, " + d, kruskal(R, opts)))
        out.append(("PARAFAC2, %d components" % R, parafac2(R)))
    return out
