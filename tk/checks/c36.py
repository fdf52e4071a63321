"""C36: generated data."""
from .common import IMPORTS, commas, kruskal_value
RULE = """Abstract interpretation of utils.create_data and utils.create_non_negative_data with symbolic mode lengths, rank,
noise level and draws (every number NumPy's generator returns is a fresh symbol): the returned tensor minus the noise level
times the returned noise must have the normal form of the sum of the rank-one terms of the returned factor matrices, these
have unit norm columns (and no negative entry where promised), and the noise the norm of the noiseless tensor."""


def generated(fn, n, noise, as_list=False):
    def go(lab):
        lab.dims("R")
        for i in range(n):
            lab.dims("d%d" % i)
        lab.number("eta")
        opts = {None: "", "0": ", noise_factor=0", "eta": ", noise_factor=eta", "position": ", eta"}[noise]
        level = "eta" if noise in ("eta", "position") else "0"
        sizes = ("[%s]" if as_list else "(%s,)") % commas("d%d", n)
        src = IMPORTS + "sizes = %s\nat('utils.%s')\nX, fs, norms, noise = utils.%s(sizes, R%s)\n" % (sizes, fn, fn, opts)
        src += "check('sizes are left alone', tuple(sizes), (%s,))\n" % commas("d%d", n)
        src += "check('number of factor matrices', (len(fs), len(norms)), (%d, %d))\n" % (n, n)
        for i in range(n):
            src += "U%d = fs[%d]\ncheck('shape', U%d.shape, (d%d, R))\n" % (i, i, i, i)
            src += "check_rounded('unit norm', np.sum(U%d**2, axis=0), np.ones(R))\n" % i
            src += "check('one norm for every component', norms[%d].size, R)\n" % i
            if "non_negative" in fn:
                src += "check_true('no negative entry', np.all(U%d >= 0))\n" % i
        src += "model = %s\n" % kruskal_value(n, w="np.ones(R)")
        src += "check('shape of the tensor', X.shape, (%s,))\n" % commas("d%d", n)
        src += "check('shape of the noise', noise.shape, (%s,))\n" % commas("d%d", n)
        src += "check('tensor without the noise', X - %s*noise, model)\n" % level
        src += "check('size of the noise', np.sum(noise**2), np.sum(model**2))\n"
        lab.run(src)
    return go


def repeated(fn):
    """Two calls do not share arrays."""
    def go(lab):
        lab.dims("R")
        lab.dims("d0", "d1", "d2")
        lab.number("eta")
        lab.run(IMPORTS + """
at('utils.{f}')
X, fs, norms, noise = utils.{f}((d0, d1, d2), R, eta)
kept = [X.copy(), noise.copy()] + [U.copy() for U in fs]
Y, gs, _, other = utils.{f}((d0, d1, d2), R, eta)
Y[...] = 0
other[...] = 0
for V in gs:
    V[...] = 0
for label, a, b in zip(['tensor', 'noise', 'factor 0', 'factor 1', 'factor 2'], [X, noise] + fs, kept):
    check('%s of the first call' % label, a, b)
X[...] = 0
check('the noise is an array of its own', noise, kept[1])
for m in range(3):
    check('factor matrix %d is an array of its own' % m, fs[m], kept[2 + m])
""".format(f=fn))
    return go


def scenarios(tier):
    out = []
    for fn in ("create_data", "create_non_negative_data"):
        for n in range(2, 6 if tier == "thorough" else 5):
            for noise in (None, "0", "eta", "position"):
                out.append(("%s, order %d, noise %s" % (fn, n, noise), generated(fn, n, noise, as_list=n == 3)))
        out.append(("%s, repeated" % fn, repeated(fn)))
    return out
