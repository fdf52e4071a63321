"""C19: iteration budget and stopping rule."""
from .c18 import HEAD, data
from .common import commas
RULE = """Abstract interpretation of fit and continue_fit with given budgets and symbolic tolerances: the number of logger
calls and current_iteration must equal the number of iterations the budget and the stopping rule allow on every path,
the rule being evaluated on the losses the model itself reports before and after each iteration."""
NO_SIZES = True
TOLS = {"CP_ALS": "convergence_tol=%s, rel_loss_tol=%s", "CMTF_ALS": "convergence_tol=%s, rel_loss_tol=%s",
        "Parafac2_ALS": "print_frequency=-1, cp_updates_per_it=1, convergence_tol=%s"}
CLASSES = ("CP_ALS", "Parafac2_ALS", "CMTF_ALS")


def tols(cls, a, b):
    return TOLS[cls] % ((a, b) if cls != "Parafac2_ALS" else (a,))


def history(cls, calls, **opts):
    """calls: (python call, iterations in total afterwards)."""
    def go(lab):
        X_, start, _, _, _ = data(lab, cls)
        src = HEAD + "probe = Probe()\nmodel = %s(R, max_its=%d, init='precomputed', loggers=[probe], %s)\n" % (
            cls, opts.get("budget", 1), tols(cls, opts.get("tol", "-np.inf"), opts.get("rel", "-np.inf")))
        seen = []
        total = 0
        for call, now, fresh in calls:
            src += "at('%s.%s')\n" % (cls, call.split("(")[0])
            if call.startswith("fit("):
                src += "model.fit(%s, initial_decomposition=%s%s)\n" % (X_, start, call[4:])
                total = 0
            else:
                src += "model.%s\n" % call
            seen += range(0 if fresh else total, now)
            total = now
            src += "check('iterations', len(probe.seen), %d)\ncheck('iteration numbers', probe.seen, %r)\n" % (len(seen), seen)
            src += "check('current_iteration', model.current_iteration, %d)\n" % now
        lab.run(src)
    return go


def fitted(more=""):
    return "fit(" + (", " + more if more else "")


def stopping(cls, later):
    def go(lab):
        X_, start, _, _, _ = data(lab, cls)
        lab.number("tol", nonneg=True)
        lab.number("rel", nonneg=True)
        norm = "(np.sum(X0**2) + np.sum(X1**2))" if cls == "Parafac2_ALS" else "np.sum(X**2)"
        src = HEAD + """
class Watch(Probe):
    def log(self, decomposer):
        self.calls = self.calls + 1
        self.loss = decomposer.loss
probe = Watch()
model = %s(R, max_its=0, init='precomputed', loggers=[probe], %s)
at('%s.fit')
model.fit(%s, initial_decomposition=%s)
loss0 = model.loss
at('%s.continue_fit')
model.continue_fit(max_its=1)
""" % (cls, tols(cls, "tol", "rel"), cls, X_, start, cls)
        if cls == "Parafac2_ALS":
            src += "check('iterations with a budget of one', probe.calls, 1)\n"
        else:
            src += "if loss0/%s < rel:\n    expected = 0\nelse:\n    expected = 1\n" % norm
            src += "check('iterations with a budget of one', probe.calls, expected)\n"
        relative = "" if cls == "Parafac2_ALS" else " or now/%s < rel" % norm
        ind = ""
        for it, word in list(enumerate(("first", "second", "third")))[:later]:
            src += "".join(ind + l + "\n" for l in """
if probe.calls == {n}:
    loss{n} = probe.loss
    now = model.loss
    model.continue_fit(max_its={m})
    if abs((loss{o} - loss{n})/loss{o}) < tol{rel}:
        check('stopped after the {w} iteration', probe.calls, {n})
    else:
        check('went on after the {w} iteration', probe.calls, {m})
""".format(n=it + 1, m=it + 2, o=it, rel=relative, w=word).split("\n"))
        lab.run(src)
    return go


HOOK = {"CP_ALS": "    def _update_als_factor(self, mode):\n        if mode == 0:\n            self.performed = self.performed + 1\n",
        "CMTF_ALS": "    def _update_als_factor(self, mode):\n        if mode == 0:\n            self.performed = self.performed + 1\n",
        "Parafac2_ALS": "    def _update_parafac2_factors(self):\n        self.performed = self.performed + 1\n"}


def scripted(cls, budgets):
    """Arbitrary losses instead of computed ones: the model's updates are replaced by a counter (the hooks its own
    tests use) and its SSE by a table, so that the whole rule can be followed over several iterations."""
    def go(lab):
        X_, start, _, _, _ = data(lab, cls)
        lab.number("tol", nonneg=True)
        lab.number("rel", nonneg=True)
        n = sum(budgets)
        for i in range(n + 1):
            lab.number("s%d" % i, nonneg=True)
        src = HEAD + """
class Scripted(%s):
    performed = 0
%s
    @property
    def SSE(self):
        return values[self.performed]

# losses that stay the same, rise or fall tell whether the losses are those of the table
performed = []
for values in %s:
    model = Scripted(R, init='precomputed', %s)
    at('%s.fit')
    model.fit(%s, initial_decomposition=%s, max_its=%d)
    performed.append(model.performed)
replaced = concrete(performed[0]) and concrete(performed[1]) and concrete(performed[2]) and (
    performed[0] != performed[1] or performed[0] != performed[2])

values = [%s]
probe = Probe()
model = Scripted(R, init='precomputed', loggers=[probe], %s)
model.fit(%s, initial_decomposition=%s, max_its=%d)
""" % (cls, HOOK[cls], [[1.0] * 5, [1.0, 10.0, 100.0, 1000.0, 1e4], [1e4, 1000.0, 100.0, 10.0, 1.0]], tols(cls, "0.1", "-np.inf"), cls, X_, start, 4,
       commas("s%d", n + 1), tols(cls, "tol", "rel"), X_, start, budgets[0])
        norm = "np.sum(X**2)"
        src += "expected = 0\nstopped = False\n"
        done = 0
        for i, b in enumerate(budgets):
            if i:
                src += "at('%s.continue_fit')\nmodel.continue_fit(max_its=%d)\n" % (cls, sum(budgets[:i + 1]))
            for k in range(done, done + b):
                cond = []
                if k:
                    cond.append("abs((s%d - s%d)/s%d) < tol" % (k - 1, k, k - 1))
                if cls != "Parafac2_ALS":
                    cond.append("s%d/np.sum(X**2) < rel" % k)
                src += "if not stopped and (%s):\n    stopped = True\n" % (" or ".join(cond) or "False")
                src += "if not stopped:\n    expected = expected + 1\n"
            done += b
            src += "if not replaced or (model.performed == 0 and probe.calls > 0):\n    note('updates could not be replaced')\nelse:\n"
            src += "    check('iterations', probe.calls, expected)\n    check('current_iteration', model.current_iteration, expected)\n"
        lab.run(src)
    return go


def large(cls):
    """Infinite tolerances: the first change of the loss is unknown, so one iteration is needed to stop on it."""
    def go(lab):
        X_, start, _, _, _ = data(lab, cls)
        src = HEAD
        cases = [("np.inf", "-np.inf", 1)]
        if cls != "Parafac2_ALS":
            cases += [("-np.inf", "np.inf", 0), ("np.inf", "np.inf", 0)]
        for a, b, n in cases:
            src += """
probe = Probe()
at('%s.fit')
model = %s(R, max_its=5, init='precomputed', loggers=[probe], %s)
model.fit(%s, initial_decomposition=%s)
check('iterations', probe.seen, %r)
check('current_iteration', model.current_iteration, %d)
""" % (cls, cls, tols(cls, a, b), X_, start, list(range(n)), n)
            if n == 1:
                src += """
model.convergence_tol = -np.inf
at('%s.continue_fit')
model.continue_fit(max_its=2)
check('iterations of a smaller budget', probe.seen, [0, 1])
model.continue_fit()
check('iterations of the same budget', probe.seen, [0, 1])
check('current_iteration', model.current_iteration, 2)
""" % cls
        lab.run(src)
    return go


def loaded(cls):
    """Resuming counts the iterations before the checkpoint."""
    def go(lab):
        X_, start, _, _, _ = data(lab, cls)
        t = tols(cls, "-np.inf", "-np.inf")
        src = HEAD + """
first = %s(R, max_its=1, init='precomputed', checkpoint_path='run.h5', %s)
first.fit(%s, initial_decomposition=%s)
""" % (cls, t, X_, start)
        for budget, n in ((1, 0), (2, 1), (0, 0)):
            src += """
probe = Probe()
at('%s.fit')
model = %s(R, max_its=%d, init='from_checkpoint', loggers=[probe], %s)
model.fit(%s, initial_decomposition='run.h5')
check('iterations', probe.seen, %r)
check('current_iteration', model.current_iteration, %d)
""" % (cls, cls, budget, t, X_, list(range(1, 1 + n)), 1 + n)
        lab.run(src)
    return go


def scenarios(tier):
    out = []
    for cls in CLASSES:
        out.append(("%s: budgets one by one" % cls, history(cls, [
            (fitted("max_its=0"), 0, True), ("continue_fit(max_its=0)", 0, False), ("continue_fit(max_its=1)", 1, False),
            ("continue_fit()", 1, False), ("continue_fit(max_its=0)", 1, False), ("continue_fit(max_its=2)", 2, False)])))
        out.append(("%s: default budget" % cls, history(cls, [
            (fitted(), 1, True), ("continue_fit()", 1, False), ("continue_fit(max_its=2)", 2, False)])))
        out.append(("%s: two at once" % cls, history(cls, [
            (fitted("max_its=2"), 2, True), ("continue_fit()", 2, False), ("continue_fit(max_its=1)", 2, False)])))
        out.append(("%s: fitted again" % cls, history(cls, [(fitted(), 1, True), (fitted(), 1, True)])))
        out.append(("%s: infinite tolerances" % cls, large(cls)))
        out.append(("%s: stopping, first iteration" % cls, stopping(cls, 0)))
        out.append(("%s: stopping, later" % cls, stopping(cls, 1)))
        for b in ((1,), (2,), (3,)) + (((4,),) if tier == "thorough" else ()):
            out.append(("%s: scripted losses, budgets %s" % (cls, b), scripted(cls, b)))
        out.append(("%s: resumed" % cls, loaded(cls)))
    if tier == "thorough":
        for cls in CLASSES:
            out.append(("%s: three iterations" % cls, history(cls, [(fitted("max_its=3"), 3, True), ("continue_fit()", 3, False)])))
    return out
