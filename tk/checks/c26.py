"""C26: factor match scores."""
import itertools
from tk import expr as X
from .common import IMPORTS, commas
RULE = """Abstract interpretation of the factor match score functions and methods on symbolic factor matrices (any mode
lengths, two and three components): on every path through the search over matchings the returned score must be the
normal form of the documented score of the returned permutation, and the path must imply that no other matching scores
more."""
NO_SIZES = True
HEAD = IMPORTS + """
import itertools

def cosine(a, b):
    return np.abs(np.sum(a*b))/(np.sqrt(np.sum(a**2))*np.sqrt(np.sum(b**2)))

def weight(factors, r):
    w = 1
    for f in factors:
        w = w*np.sqrt(np.sum(f[:, r]**2))
    return w

def component_score(true, estimated, r, s, penalty):
    score = 1
    if penalty:
        w = weight(true, r)
        v = weight(estimated, s)
        score = 1 - np.abs(w - v)/np.maximum(w, v)
    for t, e in zip(true, estimated):
        score = score*cosine(t[:, r], e[:, s])
    return score

def score(true, estimated, permutation, penalty, reduction):
    scores = [component_score(true, estimated, r, s, penalty) for r, s in enumerate(permutation)]
    if reduction == 'min':
        return np.min(scores)
    return np.mean(scores)
"""


def factor_lists(lab, n, rank, other=None):
    for m in range(n):
        d = lab.dims("d%d" % m)
        lab.tensor("A%d" % m, d, rank)
        lab.tensor("B%d" % m, d, other or rank)
    return "[%s]" % commas("A%d", n), "[%s]" % commas("B%d", n)


COMPARE = """
def compare(label, value, best, true, estimated, rank, other, penalty, reduction):
    check_true(label + 'some matching is returned', best is not None)
    check(label + 'length of the permutation', len(best), rank)
    best = tuple(best)
    found = 0
    for p in itertools.permutations(range(other), rank):
        s = score(true, estimated, p, penalty, reduction)
        if p == best:
            found = found + 1
            check_rounded(label + 'score of the returned permutation', value, s)
        else:
            check_at_least(label + 'no better matching', value, s)
    check(label + 'the permutation is a matching', found, 1)
"""


def joint(n, rank, other, penalty, reduction):
    def go(lab):
        t, e = factor_lists(lab, n, rank, other)
        lab.run(HEAD + COMPARE + """
at('metrics.factor_match_score')
true = %s
estimated = %s
value, best = metrics.factor_match_score([f.copy() for f in true], [f.copy() for f in estimated]%s)
compare('', value, best, true, estimated, %d, %d, %r, %r)
""" % (t, e, args(penalty, reduction), rank, other, penalty, reduction))
    return go


def args(penalty, reduction, default=True):
    """Defaults are used where they are what is wanted."""
    out = ""
    if not penalty or not default:
        out += ", weight_penalty=%r" % penalty
    if reduction != "min":
        out += ", fms_reduction=%r" % reduction
    return out


def apart(n, rank, other, reduction):
    def go(lab):
        t, e = factor_lists(lab, n, rank, other)
        lab.run(HEAD + COMPARE + """
at('metrics.separate_mode_factor_match_score')
true = %s
estimated = %s
values, bests = metrics.separate_mode_factor_match_score([f.copy() for f in true], [f.copy() for f in estimated]%s)
check('number of scores', len(values), %d)
check('number of permutations', len(bests), %d)
for m in range(%d):
    compare('mode %%d: ' %% m, values[m], bests[m], [true[m]], [estimated[m]], %d, %d, False, %r)
""" % (t, e, args(True, reduction), n, n, n, rank, other, reduction))
    return go


def parafac2_function(rank, penalty, reduction):
    """The score of the modes that do not evolve."""
    def go(lab):
        t, e = factor_lists(lab, 3, rank)
        lab.run(HEAD + COMPARE + """
at('metrics.factor_match_score_parafac2')
true = %s
estimated = %s
value, best = metrics.factor_match_score_parafac2([f.copy() for f in true], [f.copy() for f in estimated]%s)
compare('', value, best, [true[0], true[2]], [estimated[0], estimated[2]], %d, %d, %r, %r)
""" % (t, e, args(penalty, reduction), rank, rank, penalty, reduction))
    return go


def rejected(lab):
    t, e = factor_lists(lab, 2, 2)
    src = HEAD
    for f, a in (("factor_match_score", "true, estimated"), ("separate_mode_factor_match_score", "true, estimated"),
                 ("factor_match_score_parafac2", "true + true[:1], estimated + estimated[:1]")):
        src += """
at('metrics.%s')
true = %s
estimated = %s
kind = 'accepted'
try:
    metrics.%s(%s, fms_reduction='median')
except ValueError:
    kind = 'ValueError'
check('unknown reduction', kind, 'ValueError')
""" % (f, t, e, f, a)
    lab.run(src)


def kruskal(n, penalty, reduction, separate=False):
    def go(lab):
        t, e = factor_lists(lab, n, 2)
        lab.tensor("w", 2, nonneg=True)
        lab.tensor("v", 2, nonneg=True)
        if separate:
            call = """
values, bests = first.seperate_mode_factor_match_score(second%s)
check('number of scores', len(values), %d)
for m in range(%d):
    compare('mode %%d: ' %% m, values[m], bests[m], [true[m]], [estimated[m]], 2, 2, False, %r)
""" % (args(True, reduction), n, n, reduction)
        else:
            call = """
value, best = first.factor_match_score(second%s)
compare('', value, best, [true[0]*w] + true[1:], [estimated[0]*v] + estimated[1:], 2, 2, %r, %r)
""" % (args(penalty, reduction), penalty, reduction)
        lab.run(HEAD + COMPARE + """
at('KruskalTensor.%s')
true = %s
estimated = %s
first = KruskalTensor([f.copy() for f in true], w.copy())
second = KruskalTensor([f.copy() for f in estimated], v.copy())
""" % ("seperate_mode_factor_match_score" if separate else "factor_match_score", t, e) + call)
    return go


def evolve(parafac2, regular, penalty, reduction, separate=False, other="evolving"):
    def go(lab):
        K = 1 if parafac2 and penalty else 2
        I = lab.dims("I")
        js = [lab.dims("J", lb=2)]*K if regular else [lab.dims("J%d" % k, lb=2) for k in range(K)]
        src = HEAD + COMPARE
        for s in "ab":
            lab.tensor("A" + s, I, 2)
            lab.tensor("C" + s, K, 2)
            if parafac2:
                lab.tensor("H" + s, 2, 2)
            ps = commas(("P" if parafac2 else "B") + s + "%d", K)
            for k in range(K):
                lab.tensor(("P" if parafac2 else "B") + s + str(k), js[k], 2, orthonormal=parafac2)
            if parafac2:
                src += "first_%s = Parafac2Tensor(A%s, H%s, C%s, [%s])\nB%s = np.concatenate([P@H%s for P in [%s]])\n" % (
                    s, s, s, s, ps, s, s, ps)
            else:
                src += "first_%s = EvolvingTensor(A%s, [B%s0, B%s1], C%s)\nB%s = np.concatenate([B%s0, B%s1])\n" % ((s,)*8)
        if other == "kruskal":
            lab.tensor("D", js[0], 2)
            src += "first_b = KruskalTensor([Ab, D, Cb], [2.0, 3.0])\nBb = np.concatenate([D, D])\n"
        cls = "Parafac2Tensor" if parafac2 else "EvolvingTensor"
        if separate:
            src += """
at('%s.separate_mode_factor_match_score')
values, bests = first_a.separate_mode_factor_match_score(first_b%s)
check('number of scores', len(values), 3)
for m in range(3):
    compare('mode %%d: ' %% m, values[m], bests[m], [[Aa, Ba, Ca][m]], [[Ab, Bb, Cb][m]], 2, 2, False, %r)
""" % (cls, args(True, reduction), reduction)
        else:
            src += """
at('%s.factor_match_score')
value, best = first_a.factor_match_score(first_b%s)
compare('', value, best, [Aa, Ba, Ca], [Ab, Bb, Cb], 2, 2, %r, %r)
""" % (cls, args(penalty, reduction), penalty, reduction)
        lab.run(src)
    return go


def scenarios(tier):
    out = [("unknown reductions", rejected)]
    for red in ("min", "mean"):
        for pen in (True, False):
            d = "%s, %s" % (red, "weights" if pen else "no weights")
            for n in (1, 2, 3) + ((4,) if tier == "thorough" else ()):
                out.append(("%d modes, %s" % (n, d), joint(n, 2, 2, pen, red)))
            if tier == "thorough" or red == "min" and not pen:
                out.append(("2 of 3 components, %s" % d, joint(2, 2, 3, pen, red)))
            out.append(("1 of 2 components, %s" % d, joint(2, 1, 2, pen, red)))
            if tier == "thorough" or red == "min" and not pen:
                out.append(("3 components, %s" % d, joint(2, 3, 3, pen, red)))
            out.append(("factor_match_score_parafac2, %s" % d, parafac2_function(2, pen, red)))
            for n in (2, 3):
                out.append(("Kruskal tensors of %d modes, %s" % (n, d), kruskal(n, pen, red)))
            for p in (False, True):
                for reg in (True, False):
                    out.append(("%s, %s, %s" % ("PARAFAC2 tensors" if p else "evolving tensors",
                                                "equal slices" if reg else "other slices", d), evolve(p, reg, pen, red)))
                    if p and pen:
                        break
        for n in (2, 3):
            out.append(("each of %d modes, %s" % (n, red), apart(n, 2, 2, red)))
        out.append(("each mode, 1 of 2 components, %s" % red, apart(2, 1, 2, red)))
        if red == "min":
            out.append(("each mode, 2 of 3 components, %s" % red, apart(2, 2, 3, red)))
        out.append(("Kruskal tensors, each mode, %s" % red, kruskal(3, True, red, True)))
        for p in (False, True):
            out.append(("%s, each mode, %s" % ("PARAFAC2 tensors" if p else "evolving tensors", red), evolve(p, False, False, red, True)))
        out.append(("evolving and Kruskal tensor, each mode, %s" % red, evolve(False, True, False, red, True, "kruskal")))
    return out
