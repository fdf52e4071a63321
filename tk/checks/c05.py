"""C05: linear solvers."""
ZEROS = True
RULE = """Abstract interpretation of base.rightsolve, non_negative_rightsolve, orthogonal_(right)solve and
add_rightsolve_ridge with symbolic matrices: the derived solution formula is compared with the pseudo-inverse,
row-wise NNLS and Procrustes formulas; the ridge variants with the augmented problem's."""
HEAD = "import numpy as np\nfrom scipy.optimize import nnls\nfrom tenkit import base\nA0 = A.copy(); B0 = B.copy()\n"
TAIL = "check('first argument unchanged', A, A0)\ncheck('second argument unchanged', B, B0)\n"


def mats(lab, n, m, p):
    N = lab.dims("n")
    M = lab.dims("m") if m else N
    lab.tensor("A", N, M)
    if p:
        lab.tensor("B", lab.dims("p"), M)
    else:
        lab.tensor("B", M)


def right(m):
    def go(lab):
        mats(lab, 1, m, 1)
        lab.run(HEAD + "at('base.rightsolve')\nX = base.rightsolve(A, B)\n"
                "check('shape', X.shape, (p, n))\n"
                "check('minimum-norm least squares', X, B0 @ np.linalg.pinv(A0))\n" + TAIL)
    return go


def right_vec(lab):
    mats(lab, 1, 1, 0)
    lab.run(HEAD + "at('base.rightsolve')\nX = base.rightsolve(A, B)\n"
            "check('minimum-norm least squares', X, B0 @ np.linalg.pinv(A0))\n" + TAIL)


NN = "def nn(A, B):\n    return np.array([nnls(A.T, B[i])[0] for i in range(B.shape[0])])\n"


def nonneg(m):
    def go(lab):
        mats(lab, 1, m, 1)
        lab.run(HEAD + "at('base.non_negative_rightsolve')\nX = base.non_negative_rightsolve(A, B)\n"
                "check('shape', X.shape, (p, n))\n"
                "W = np.zeros((p, n))\nfor i in range(p):\n    W[i] = nnls(A0.T, B0[i])[0]\n"
                "check('row-wise non-negative least squares', X, W)\n" + TAIL)
    return go


def nonneg_vec(lab):
    mats(lab, 1, 1, 0)
    lab.run(HEAD + "at('base.non_negative_rightsolve with a vector')\nX = base.non_negative_rightsolve(A, B)\n"
            "check('non-negative least squares', np.ravel(X), nnls(A0.T, B0)[0])\n" + TAIL)


def orth(m):
    def go(lab):
        N = lab.dims("n")
        M, P = lab.dims("m", "p")
        lab.tensor("A", M, N)
        lab.tensor("B", M, P)
        lab.run(HEAD + "at('base.orthogonal_solve')\nX = base.orthogonal_solve(A, B)\n"
                "check('shape', X.shape, (n, p))\n"
                "U, s, Vt = np.linalg.svd(A0.T @ B0, full_matrices=False)\n"
                "check_nondegenerate('Procrustes solution', X, U @ Vt)\n" + TAIL)
        lab.tensor("C", N, M)
        lab.tensor("D", P, M)
        lab.run("C0 = C.copy(); D0 = D.copy()\n"
                "at('base.orthogonal_rightsolve')\nX = base.orthogonal_rightsolve(C, D)\n"
                "check('shape', X.shape, (p, n))\n"
                "U, s, Vt = np.linalg.svd(D0 @ C0.T, full_matrices=False)\n"
                "check_nondegenerate('Procrustes solution', X, U @ Vt)\n"
                "check('first argument unchanged', C, C0)\ncheck('second argument unchanged', D, D0)\n")
    return go


def ridge(solver, m):
    def go(lab):
        mats(lab, 1, m, 1)
        lab.number("lam", nonneg=True)
        cols = "m" if m else "n"
        want = {
            "rightsolve": "check('ridge solution', X, B1 @ np.linalg.pinv(A1))\n",
            "non_negative_rightsolve": "W = np.zeros((p, n))\nfor i in range(p):\n    W[i] = nnls(A1.T, B1[i])[0]\n"
                                       "check('ridge solution', X, W)\n",
            "orthogonal_rightsolve": "U, s, Vt = np.linalg.svd(B1 @ A1.T, full_matrices=False)\n"
                                     "check_nondegenerate('ridge solution', X, U @ Vt)\n"}[solver]
        lab.run(HEAD + "at('base.add_rightsolve_ridge of %s')\n"
                "X = base.add_rightsolve_ridge(base.%s, lam)(A, B)\n"
                "check('shape', X.shape, (p, n))\n"
                "A1 = np.concatenate([A0, np.sqrt(lam)*np.eye(n)], axis=1)\n"
                "B1 = np.concatenate([B0, np.zeros((p, n))], axis=1)\n" % (solver, solver) + want + TAIL)
    return go


def custom(lab):
    """The wrapper hands the augmented problem to whichever solver it was given, once."""
    mats(lab, 1, 1, 1)
    lab.number("lam", nonneg=True)
    lab.run(HEAD + """
calls = []
def probe(P, Q):
    calls.append((P, Q))
    return P.sum()
at('base.add_rightsolve_ridge')
f = base.add_rightsolve_ridge(probe, lam)
check('lazy', len(calls), 0)
r = f(A, B)
check('the wrapped solver is called once', len(calls), 1)
P, Q = calls[0]
check('augmented gram matrix', P @ P.T, A0 @ A0.T + lam*np.eye(n))
check('augmented right-hand side', Q @ P.T, B0 @ A0.T)
check('result', r, P.sum())
""" + TAIL)


def scenarios(tier):
    out = []
    for m in (1, 0):
        tag = "" if m else " square"
        out += [("rightsolve" + tag, right(m)), ("non_negative_rightsolve" + tag, nonneg(m))]
        for s in ("rightsolve", "non_negative_rightsolve", "orthogonal_rightsolve"):
            out.append(("ridge %s%s" % (s, tag), ridge(s, m)))
    out += [("rightsolve vector", right_vec), ("non_negative_rightsolve vector", nonneg_vec),
            ("orthogonal solvers", orth(1)), ("ridge wrapper", custom)]
    return out
