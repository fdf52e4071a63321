"""C29: sign correction."""
from tk import expr as X
from .common import IMPORTS, commas
RULE = """Abstract interpretation of the sign helpers on symbolic factor matrices and data: scores must be the normal form of
the signed sums of squared coefficients, the returned signs those of the scores with the weakest mode reversed exactly
when they would change the tensor, and flipped copies must be the originals times the returned signs."""
NO_SIZES = True
ZEROS = True
HEAD = IMPORTS + """
def coefficients(F, Y):
    return np.linalg.lstsq(F, Y, rcond=None)[0]

def score(F, Y):
    if Y is None:
        s = np.sum(F, axis=0)
        return np.where(s == 0, 1, s)
    c = np.linalg.lstsq(F, Y, rcond=None)[0]
    return np.sum(np.sign(c)*c**2, axis=1)
"""


def rows(lab, name, R):
    """A mode length that is at least the rank."""
    return lab.dims(name, lb=R) if isinstance(R, int) else X.add(R, lab.dims("e" + name, lb=0))


def helper(R, data):
    def go(lab):
        r = R or lab.dims("R")
        n = rows(lab, "n", r)
        lab.tensor("F", n, r)
        if data:
            lab.tensor("Y", n, lab.dims("m"))
        lab.run(HEAD + """
at('utils.get_signs')
f = F.copy()
y = %s
signs, scores = utils.get_signs(f, y)
want = score(F, %s)
check('scores', scores, want)
check('signs', signs, np.sign(want))
check('factor matrix unchanged', f, F)
%s""" % ("Y.copy()" if data else "None", "Y" if data else "None", "check('data unchanged', y, Y)\n" if data else ""))
    return go


def scores(n):
    """The scores of every mode."""
    def go(lab):
        r = lab.dims("R")
        d = [rows(lab, "d%d" % m, r) for m in range(n)]
        for m in range(n):
            lab.tensor("A%d" % m, d[m], r)
        lab.tensor("Y", *d)
        lab.tensor("w", r, nonneg=True)
        lab.run(HEAD + """
at('KruskalTensor.get_sign_scores')
factors = [%s]
model = KruskalTensor([f.copy() for f in factors], w.copy())
got = model.get_sign_scores(Y.copy())
check('number of modes', len(got), %d)
for m in range(%d):
    check('scores of mode %%d' %% m, got[m], score(factors[m], np.moveaxis(Y, m, 0).reshape(Y.shape[m], -1)))
    check('factor matrix %%d unchanged' %% m, model.factor_matrices[m], factors[m])
""" % (commas("A%d", n), n, n))
    return go


def signs(n, R):
    """The weakest mode is reversed where the signs would change the tensor."""
    def go(lab):
        d = [lab.dims("d%d" % m, lb=R) for m in range(n)]
        for m in range(n):
            lab.tensor("A%d" % m, d[m], R)
        lab.tensor("Y", *d)
        lab.run(HEAD + """
at('KruskalTensor.get_signs')
factors = [%s]
model = KruskalTensor([f.copy() for f in factors])
s = [score(factors[m], np.moveaxis(Y, m, 0).reshape(Y.shape[m], -1)) for m in range(%d)]
got = model.get_signs(Y.copy())
check('number of modes', len(got), %d)
for r in range(%d):
    product = 1
    for m in range(%d):
        product = product*np.sign(s[m][r])
    weakest = np.argmin(np.abs([x[r] for x in s]))
    for m in range(%d):
        sign = np.sign(s[m][r])
        if product == -1 and weakest == m:
            sign = -sign
        check('sign of a component in a mode', got[m][r], sign)
for m in range(%d):
    check('signs of a mode', got[m].shape, (%d,))
    check('factor matrix %%d unchanged' %% m, model.factor_matrices[m], factors[m])
""" % (commas("A%d", n), n, n, R, n, n, n, R))
    return go


def compared(n, R, entries, normalised):
    """Columns are flipped so that most entries are positive; then the first nonzero one."""
    def go(lab):
        for m in range(n):
            lab.tensor("A%d" % m, entries or lab.dims("d%d" % m), R)
        if normalised:
            call = """
at('utils.prepare_for_comparison')
flipped, signs, norms = utils.prepare_for_comparison(given)
check('number of norms', len(norms), len(given))
for m in range(len(given)):
    norm = np.sqrt(np.sum(factors[m]**2, axis=0))
    check('norms', np.ravel(norms[m]), norm)
    flipped[m] = flipped[m]*norm
"""
        else:
            call = """
at('utils.flip_factors')
flipped, signs = utils.flip_factors(given)
"""
        lab.run(HEAD + """
factors = [%s]
given = [f.copy() for f in factors]
""" % commas("A%d", n) + call + """
check('number of factor matrices', len(flipped), %d)
check('number of signs', len(signs), %d)
for m in range(%d):
    f = factors[m]
    check('factor matrix unchanged', given[m], f)
    majority = np.sum(np.sign(f), axis=0)
    for r in range(%d):
        s = np.ravel(signs[m])[r]
""" % (n, n, n, R) + ("""
        first = 0
        for i in range(%d):
            first = first + (first == 0)*np.sign(f[i, r])
        check_rounded('majority, or the first nonzero sign', s, np.sign(majority[r]) + (majority[r] == 0)*first)
        check_rounded('flipped columns', flipped[m][:, r], f[:, r]*s)
""" % entries if entries and entries < 3 else """
        if majority[r] == 0:
            for i in range(%d):
                if f[i, r] != 0:
                    check('a tie is decided by the first nonzero entry', s, np.sign(f[i, r]))
                    check_rounded('columns with a tie', flipped[m][:, r], f[:, r]*np.sign(f[i, r]))
                    break
""" % entries if entries else """
        if majority[r] > 0:
            check_rounded('mostly positive', s, np.sign(majority[r]))
            check_rounded('mostly positive columns are kept', flipped[m][:, r], f[:, r]*np.sign(majority[r]))
        elif majority[r] < 0:
            check_rounded('mostly negative', s, np.sign(majority[r]))
            check_rounded('mostly negative columns are flipped', flipped[m][:, r], f[:, r]*np.sign(majority[r]))
"""))
    return go


def evolving(K, how, data=True):
    def go(lab):
        R = lab.dims("R")
        I = lab.dims("I")
        for k in range(K):
            J = rows(lab, "J%d" % k, R)
            lab.tensor("B%d" % k, J, R)
            lab.tensor("X%d" % k, I, J)
        lab.tensor("C", K, R)
        lab.tensor("A", I, R)
        src = HEAD + """
B = [%s]
Y = [%s]
b = [x.copy() for x in B]
y = [x.copy() for x in Y]
c = C.copy()
s = [np.sign(score(x, %s)) for x, z in zip(B, Y)]
""" % (commas("B%d", K), commas("X%d", K), "z.T" if data else "None")
        if how == "factors":
            src += """
at('utils.signfix_evolving_factors')
fixed, over = utils.signfix_evolving_factors(y, b, c%s)
""" % ("" if data else ", data_driven=False")
        else:
            src += """
at('utils.fix_signs_evolving_tensor')
model = EvolvingTensor(A.copy(), b, c)
new = utils.fix_signs_evolving_tensor(model, y)
fixed, over = new.B, new.C
check('A is kept', new.A, A)
check('A unchanged', model.A, A)
check('C of the model unchanged', model.C, C)
for k in range(%d):
    check('slice %%d of the model unchanged' %% k, model.B[k], B[k])
""" % K
        src += """
check('number of slices', len(fixed), %d)
for k in range(%d):
    check('slice %%d' %% k, fixed[k], B[k]*s[k])
    check('row %%d of C' %% k, over[k], C[k]*s[k])
    check('slice %%d unchanged' %% k, b[k], B[k])
    check('data slice %%d unchanged' %% k, y[k], Y[k])
check('C unchanged', c, C)
""" % (K, K)
        lab.run(src)
    return go


def normal(n, data):
    def go(lab):
        R = lab.dims("R")
        d = [rows(lab, "d0", R)] + [lab.dims("d%d" % m) for m in range(1, n)]
        lab.tensor("Y", *d)
        lab.tensor("F", d[0], R)
        lab.tensor("G", lab.dims("g"), R)
        lab.run(HEAD + """
at('utils.signfix_normal_factors')
y, f, g = Y.copy(), F.copy(), G.copy()
fixed, flipped = utils.signfix_normal_factors(y, f, g%s)
s = np.sign(score(F, %s))
check('fixed factor matrix', fixed, F*s)
check('flipped factor matrix', flipped, G*s)
check('data unchanged', y, Y)
check('factor matrix unchanged', f, F)
check('other factor matrix unchanged', g, G)
""" % ("" if data else ", data_driven=False", "Y.reshape(Y.shape[0], -1)" if data else "None"))
    return go


def scenarios(tier):
    big = tier == "thorough"
    out = []
    for R in (0, 1, 2):
        for data in (True, False):
            out.append(("helper, %s components, %s data" % (R or "any number of", "with" if data else "no"), helper(R, data)))
    for n in (1, 2, 3, 4):
        out.append(("scores of %d modes" % n, scores(n)))
    for n, R in ((1, 1), (2, 1), (2, 2), (3, 1), (3, 2)) + (((4, 1), (4, 2)) if big else ()):
        out.append(("signs of %d modes and %d components" % (n, R), signs(n, R)))
    for norm in (True, False):
        d = "prepared for comparison" if norm else "flipped"
        for n, R in ((1, 1), (2, 1), (3, 1)):
            out.append(("%s, %d modes, %d components" % (d, n, R), compared(n, R, None, norm)))
        for e in (1, 2, 3) + ((4,) if big else ()):
            out.append(("%s, %d entries" % (d, e), compared(1, 1, e, norm)))
        out.append(("%s, 2 modes, 2 components of 2 entries" % d, compared(2, 2, 2, norm)))
    for K in (1, 2, 3):
        out.append(("evolving factors, %d slices" % K, evolving(K, "factors")))
        out.append(("evolving factors, %d slices, no data" % K, evolving(K, "factors", False)))
        out.append(("evolving tensor, %d slices" % K, evolving(K, "tensor")))
    for n in (2, 3):
        for data in (True, False):
            out.append(("normal factors, order %d, %s data" % (n, "with" if data else "no"), normal(n, data)))
    return out
