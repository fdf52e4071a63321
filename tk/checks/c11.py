"""C11: checkpoints and resuming."""
from .c18 import HEAD, data
from .c19 import CLASSES, tols
from .common import commas
RULE = """Abstract interpretation of fit, continue_fit, store_checkpoint and load_checkpoint over a model of h5py files, for
given checkpoint frequencies, budgets and histories of runs; the updates of an iteration are replaced by symbolic
iterates (through the hooks the repository's tests use).  Which iterations can be loaded, what is loaded, the iteration
a loaded model continues with and what the latest checkpoint holds are compared with the iterates and the fitted model."""
NO_SIZES = True

PARTS = {"CP_ALS": 3, "CMTF_ALS": 3, "Parafac2_ALS": 5}


def iterates(lab, cls, n):
    """Symbolic decompositions, one for each iteration, and the class that goes through them."""
    from tk import expr as X
    R = lab.dims("R")
    src = ""
    for k in range(n):
        if cls == "Parafac2_ALS":
            lab.tensor("S%d_0" % k, lab.dims("I"), R)
            lab.tensor("S%d_1" % k, R, R)
            lab.tensor("S%d_2" % k, 2, R)
            for s in range(2):
                lab.tensor("S%d_%d" % (k, 3 + s), X.add(R, lab.dims("j%d" % s, lb=0)), R)
        else:
            for m in range(3):
                lab.tensor("S%d_%d" % (k, m), lab.dims("d%d" % m), R)
        lab.number("loss%d" % k, nonneg=True)
    src += "iterates = [%s]\n" % ", ".join("[%s]" % commas("S%d_%%d" % k, PARTS[cls]) for k in range(n))
    if cls == "Parafac2_ALS":
        src += """
class Scripted(Parafac2_ALS):
    losses = None
    performed = 0
    def _update_parafac2_factors(self):
        now = iterates[self.current_iteration]
        d = self.decomposition
        d.A[...] = now[0]
        d.blueprint_B[...] = now[1]
        d.C[...] = now[2]
        d.projection_matrices[0][...] = now[3]
        d.projection_matrices[1][...] = now[4]
        self.performed = self.performed + 1
"""
    else:
        src += """
class Scripted(%s):
    losses = None
    performed = 0
    def _update_als_factor(self, mode):
        self.decomposition.factor_matrices[mode][...] = iterates[self.current_iteration][mode]
        if mode == 2:
            self.performed = self.performed + 1
""" % cls
    src += """
    @property
    def SSE(self):
        return 1.0 if self.losses is None else self.losses[min(self.performed, len(self.losses) - 1)]

"""
    return src


def same(cls):
    """def held(label, d, now): the decomposition d is the iterate."""
    if cls == "Parafac2_ALS":
        return """
def held(label, d, now):
    check(label + ', A', d.A, now[0])
    check(label + ', blueprint', d.blueprint_B, now[1])
    check(label + ', C', d.C, now[2])
    check(label + ', projection matrices', d.projection_matrices, now[3:])
def equal(label, d, e):
    held(label, d, [e.A, e.blueprint_B, e.C, e.projection_matrices[0], e.projection_matrices[1]])
held_at_last = held
"""
    out = """
def held(label, d, now):
    check(label + ', factor matrices', d.factor_matrices, now)
    check(label + ', weights', d.weights, np.ones(R))
def equal(label, d, e):
    check(label + ', factor matrices', d.factor_matrices, e.factor_matrices)
    check(label + ', weights', d.weights, e.weights)
"""
    if cls == "CMTF_ALS":
        # a coupled model is normalised when fitting is over
        return out + """
def held_at_last(label, d, now):
    check_rounded(label + ', tensor', d.construct_tensor(), np.einsum('ir,jr,kr->ijk', now[0], now[1], now[2]))
"""
    return out + "held_at_last = held\n"


def target(cls):
    return ("fresh.set_target(X)\n" if cls != "Parafac2_ALS" else "fresh.set_target([X0, X1])\n")


def inspect(cls, n, kept, last, path="run.h5", when=""):
    """What can be loaded from the file, out of n iterations."""
    src = "fresh = %s(R)\n" % cls + target(cls)
    for k in range(n):
        if k in kept:
            src += """at('{c}.load_checkpoint')
fresh.load_checkpoint('{p}', load_it={k})
{f}('checkpoint {k}{w}', fresh.decomposition, iterates[{k}])
check('iteration after loading checkpoint {k}{w}', fresh.current_iteration, {m})
""".format(c=cls, p=path, k=k, m=k + 1, w=when, f="held_at_last" if k == last else "held")
        else:
            src += """at('{c}.load_checkpoint')
try:
    fresh.load_checkpoint('{p}', load_it={k})
    there = True
except ValueError:
    there = False
check('checkpoint {k}{w} exists', there, False)
""".format(c=cls, p=path, k=k, w=when)
    src += """
fresh.load_checkpoint('{p}')
check('iteration of the latest checkpoint{w}', fresh.current_iteration, {m})
equal('latest checkpoint{w}', fresh.decomposition, model.decomposition)
""".format(p=path, m=last + 1, w=when)
    return src


def skip(body, *models):
    return "if " + " or ".join("not concrete({0}.performed) or {0}.performed == 0".format(m) for m in models) + ":\n    note('updates could not be replaced')\nelse:\n" + \
        "".join("    " + l + "\n" for l in body.split("\n"))


def kept(freq, its):
    return {i for i in range(its) if freq and freq > 0 and (i + 1) % freq == 0} | {its - 1}


def one(cls, freq, budget, losses=None):
    def go(lab):
        X_, start, _, _, _ = data(lab, cls)
        its = budget if losses is None else len(losses) - 1
        src = HEAD + iterates(lab, cls, budget) + same(cls) + """
model = Scripted(R, max_its=%d, init='precomputed', checkpoint_frequency=%s, checkpoint_path='run.h5', %s)
model.losses = %r
at('%s.fit')
model.fit(%s, initial_decomposition=%s)
""" % (budget, freq, tols(cls, "-np.inf" if losses is None else "0.1", "-np.inf"), losses, cls, X_, start)
        src += skip("check('iterations', model.current_iteration, %d)\n" % its +
                    inspect(cls, budget, kept(freq, its), its - 1), "model")
        lab.run(src)
    return go


def continued(cls, freq, budgets):
    """fit, then continue_fit, into one file."""
    def go(lab):
        X_, start, _, _, _ = data(lab, cls)
        n = budgets[-1]
        src = HEAD + iterates(lab, cls, n) + same(cls) + """
model = Scripted(R, max_its=%d, init='precomputed', checkpoint_frequency=%s, checkpoint_path='run.h5', %s)
at('%s.fit')
model.fit(%s, initial_decomposition=%s)
""" % (budgets[0], freq, tols(cls, "-np.inf", "-np.inf"), cls, X_, start)
        have, done, body = set(), 0, ""
        for i, b in enumerate(budgets):
            if i:
                body += "at('%s.continue_fit')\nmodel.continue_fit(max_its=%d)\n" % (cls, b)
            b = max(b, done)
            have |= {k for k in kept(freq, b) if k >= done} | {b - 1}
            done = b
            # the final checkpoint of a coupled model is normalised
            body += inspect_mixed(cls, n, have, budgets[:i + 1])
        lab.run(src + skip(body, "model"))
    return go


def inspect_mixed(cls, n, have, ends):
    src = inspect(cls, n, have, max(ends) - 1, when=" after %d runs" % len(ends))
    if cls == "CMTF_ALS":
        for e in ends[:-1]:
            src = src.replace("held('checkpoint %d " % (e - 1), "held_at_last('checkpoint %d " % (e - 1))
    return src


def resumed(cls, freq, first, second, path="run.h5", named=False):
    """A second model resumes from the file of the first, into the same or another file."""
    def go(lab):
        X_, start, _, _, _ = data(lab, cls)
        n = max(first, second)
        opts = tols(cls, "-np.inf", "-np.inf")
        init = "init='run.h5'" if named else "init='from_checkpoint'"
        src = HEAD + iterates(lab, cls, n) + same(cls) + """
old = Scripted(R, max_its=%d, init='precomputed', checkpoint_frequency=%s, checkpoint_path='run.h5', %s)
at('%s.fit')
old.fit(%s, initial_decomposition=%s)
model = Scripted(R, max_its=%d, %s, checkpoint_frequency=%s, checkpoint_path=%r, %s)
at('%s.fit, resumed')
model.fit(%s%s)
""" % (first, freq, opts, cls, X_, start, second, init, freq, path, opts, cls, X_,
            "" if named else ", initial_decomposition='run.h5'")
        body = "check('iterations', model.current_iteration, %d)\n" % n
        have = {k for k in kept(freq, n) if k >= first} | {n - 1}
        if path == "run.h5":
            have |= kept(freq, first)
        body += inspect_mixed(cls, n, have, [first, n]).replace("after 2 runs", "of the resumed run") \
            .replace("run.h5", path or "run.h5")
        lab.run(src + skip(body, "old"))
    return go


def restarted(cls, freq, first, second):
    """The same model is fitted again from the start, into the same file."""
    def go(lab):
        X_, start, _, _, _ = data(lab, cls)
        n = max(first, second)
        src = HEAD + iterates(lab, cls, n) + same(cls) + """
model = Scripted(R, init='precomputed', checkpoint_frequency=%s, checkpoint_path='run.h5', %s)
at('%s.fit')
model.fit(%s, initial_decomposition=%s, max_its=%d)
at('%s.fit, again')
model.fit(%s, initial_decomposition=%s, max_its=%d)
""" % (freq, tols(cls, "-np.inf", "-np.inf"), cls, X_, start, first, cls, X_, start, second)
        body = "fresh = %s(R)\n" % cls + target(cls) + """
fresh.load_checkpoint('run.h5')
check('iteration of the latest checkpoint', fresh.current_iteration, %d)
equal('latest checkpoint', fresh.decomposition, model.decomposition)
held_at_last('latest checkpoint', fresh.decomposition, iterates[%d])
""" % (second, second - 1)
        for k in sorted(kept(freq, second) - {second - 1}):
            body += "fresh.load_checkpoint('run.h5', load_it=%d)\n" % k
            body += "held('checkpoint %d', fresh.decomposition, iterates[%d])\n" % (k, k)
        lab.run(src + skip(body, "model"))
    return go


def by_hand(cls):
    """store_checkpoint called by the user."""
    def go(lab):
        X_, start, _, _, _ = data(lab, cls)
        src = HEAD + iterates(lab, cls, 1) + same(cls) + """
model = Scripted(R, max_its=0, init='precomputed', checkpoint_path='run.h5', %s)
model.fit(%s, initial_decomposition=%s)
at('%s.store_checkpoint')
model.store_checkpoint()
""" % (tols(cls, "-np.inf", "-np.inf"), X_, start, cls)
        src += "fresh = %s(R)\n" % cls + target(cls) + """
fresh.load_checkpoint('run.h5')
equal('stored decomposition', fresh.decomposition, model.decomposition)
check('iteration', fresh.current_iteration, 1)
"""
        lab.run(src)
    return go


def real(cls):
    """One iteration, stored, then resumed for another one: as if the run had gone on."""
    def go(lab):
        X_, start, _, _, parts = data(lab, cls)
        opts = tols(cls, "-np.inf", "-np.inf")
        src = HEAD + """
model = {c}(R, max_its=1, init='precomputed', checkpoint_path='run.h5', {o})
at('{c}.fit')
model.fit({x}, initial_decomposition={s})
other = {c}(R, max_its=2, init='from_checkpoint', {o})
at('{c}.fit, resumed')
other.fit({x}, initial_decomposition='run.h5')
at('{c}.continue_fit')
model.continue_fit(max_its=2)
d, e = other.decomposition, model.decomposition
""".format(c=cls, o=opts, x=X_, s=start)
        for p in parts:
            src += "check('resumed as continued: %s', d.%s, e.%s)\n" % (p, p, p)
        lab.run(src)
    return go


def constrained(cls, mode):
    """A stored orthonormal factor matrix is not changed by resuming."""
    def go(lab):
        from tk import expr as X
        R = lab.dims("R")
        for i in range(3):
            lab.tensor("U%d" % i, X.add(R, lab.dims("e%d" % i, lb=0)) if i == mode else lab.dims("d%d" % i), R)
        lab.tensor("X", *[X.add(R, lab.dims("e%d" % i, lb=0)) if i == mode else lab.dims("d%d" % i) for i in range(3)])
        X_, start, parts = "X", "KruskalTensor([U0.copy(), U1.copy(), U2.copy()])", ["factor_matrices[%d]" % i for i in range(3)]
        kinds = [m == mode for m in range(3)]
        src = HEAD + """
U{m} = np.linalg.svd(U{m}, full_matrices=False)[0]
model = {c}(R, max_its=0, init='precomputed', checkpoint_path='run.h5', orthonormality_constraints={k}, {o})
at('{c}.fit')
model.fit({x}, initial_decomposition={s})
check("starting factor matrix", model.decomposition.factor_matrices[{m}], U{m})
model.store_checkpoint()
other = {c}(R, max_its=1, init='from_checkpoint', orthonormality_constraints={k}, {o})
at('{c}.fit, resumed')
other.fit({x}, initial_decomposition='run.h5')
d, e = other.decomposition, model.decomposition
""".format(c=cls, o=tols(cls, "-np.inf", "-np.inf"), x=X_, s=start, k=kinds, m=mode)
        for p in parts:
            src += "check('as stored: %s', d.%s, e.%s)\n" % (p, p, p)
        lab.run(src)
    return go


def scenarios(tier):
    out = []
    for cls in CLASSES:
        top = 5 if tier == "thorough" else 4
        for its in range(1, top + 1):
            for freq in (None, -1, 0, 1, 2, 3, 5) if its in (3, top) else (1, 2):
                out.append(("%s: frequency %s, %d iterations" % (cls, freq, its), one(cls, freq, its)))
        for freq in (None, 1, 2):
            out.append(("%s: frequency %s, converged" % (cls, freq), one(cls, freq, 4, [10., 5., 5.])))
            out.append(("%s: frequency %s, converged later" % (cls, freq), one(cls, freq, 5, [10., 5., 2., 2.])))
            out.append(("%s: frequency %s, continued" % (cls, freq), continued(cls, freq, [1, 2, 4])))
            out.append(("%s: frequency %s, continued by nothing" % (cls, freq), continued(cls, freq, [2, 2, 3])))
            for a, b in ((1, 3), (2, 3), (2, 2), (3, 1)):
                out.append(("%s: frequency %s, resumed after %d of %d" % (cls, freq, a, b), resumed(cls, freq, a, b)))
            out.append(("%s: frequency %s, resumed into another file" % (cls, freq), resumed(cls, freq, 1, 3, "new.h5")))
            out.append(("%s: frequency %s, resumed by name" % (cls, freq), resumed(cls, freq, 2, 3, "run.h5", True)))
            for a, b in ((1, 3), (3, 1), (2, 2), (3, 2)):
                out.append(("%s: frequency %s, fitted again, %d and %d" % (cls, freq, a, b), restarted(cls, freq, a, b)))
        out.append(("%s: stored by hand" % cls, by_hand(cls)))
        if cls != "CMTF_ALS":
            # the matrices of coupled models are not stored
            out.append(("%s: resumed and continued" % cls, real(cls)))
    for m in range(3):
        out.append(("CP_ALS: resumed with orthonormal mode %d" % m, constrained("CP_ALS", m)))
    return out
