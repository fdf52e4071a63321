"""C20: loggers."""
from .c11 import iterates, same
from .c18 import HEAD, data
from .c19 import CLASSES, tols
RULE = """Abstract interpretation of fit and continue_fit with loggers of every class, for given budgets, checkpoint
frequencies and histories of runs; the updates of an iteration are replaced by symbolic iterates.  The entries must be
the metrics another logger reads from the model at the same moment and the numbers of the iterations; the data sets in
the checkpoint file (over a model of h5py files) must hold the entries made until the last checkpoint, once and in order."""
NO_SIZES = True
LOGGERS = {"LossLogger": "loss", "MSELogger": "MSE", "SSELogger": "SSE", "RMSELogger": "RMSE",
           "ExplainedVarianceLogger": "explained_variance"}
WATCH = "from tenkit.decomposition.logging import %s\n" % ", ".join(sorted(LOGGERS)) + """
class Watch(Probe):
    def __init__(self):
        self.its = []
        self.metrics = {%s}
    def log(self, decomposer):
        self.its.append(decomposer.current_iteration)
%s
""" % (", ".join("'%s': []" % l for l in sorted(LOGGERS)),
       "\n".join("        self.metrics['%s'].append(decomposer.%s)" % l for l in sorted(LOGGERS.items())))


def loggers(names=None):
    return "{%s}" % ", ".join("'%s': %s()" % (l, l) for l in sorted(names or LOGGERS))


def filed(its, values, names=None, path="run.h5", when=""):
    """What the file holds: its and values(name) are driver expressions."""
    src = "with h5py.File('%s', 'r') as h5:\n" % path
    for l in sorted(names or LOGGERS):
        src += "    check('%s: iterations in the file%s', h5['%s']['iterations'][...], np.array(%s))\n" % (l, when, l, its)
        src += "    check('%s: values in the file%s', h5['%s']['values'][...], np.array(%s))\n" % (l, when, l, values % l)
    return src


def skip(body, model="model"):
    return "if not concrete({0}.performed) or {0}.performed == 0:\n    note('updates could not be replaced')\nelse:\n".format(model) + \
        "".join("    " + l + "\n" for l in body.split("\n"))


def setup(lab, cls, n, body):
    X_, start, _, _, _ = data(lab, cls)
    src = HEAD + WATCH + iterates(lab, cls, n) + body
    return src.replace("$X", X_).replace("$S", start).replace("$C", cls)


def entries(cls, budgets, losses=None):
    """The entries themselves."""
    def go(lab):
        n = max(budgets)
        body = """
watch, loggers = Watch(), %s
model = Scripted(R, max_its=%d, init='precomputed', loggers=[watch] + list(loggers.values()), %s)
model.losses = %r
at('$C.fit')
model.fit($X, initial_decomposition=$S)
""" % (loggers(), budgets[0], tols(cls, "-np.inf" if losses is None else "0.1", "-np.inf"), losses)
        checks = ""
        for i, b in enumerate(budgets):
            if i:
                checks += "at('$C.continue_fit')\nmodel.continue_fit(max_its=%d)\n" % b
            its = b if losses is None else len(losses) - 1
            for l in sorted(LOGGERS):
                checks += "check('%s: iterations', loggers['%s'].log_iterations, %r)\n" % (l, l, list(range(its)))
                checks += "check('%s: entries', loggers['%s'].log_metrics, watch.metrics['%s'])\n" % (l, l, l)
        lab.run(setup(lab, cls, n, body + skip(checks)))
    return go


def real(cls):
    """The entry of a real iteration is what the fitted model says."""
    def go(lab):
        X_, start, _, _, _ = data(lab, cls)
        src = HEAD + WATCH + """
loggers = %s
model = %s(R, max_its=1, init='precomputed', loggers=list(loggers.values()), %s)
at('%s.fit')
model.fit(%s, initial_decomposition=%s)
""" % (loggers(), cls, tols(cls, "-np.inf", "-np.inf"), cls, X_, start)
        for l, m in sorted(LOGGERS.items()):
            src += "check('%s: iterations', loggers['%s'].log_iterations, [0])\n" % (l, l)
            src += "check('%s: entry', loggers['%s'].log_metrics[0], model.%s)\n" % (l, l, m)
        lab.run(src)
    return go


def stored(cls, freq, budgets, losses=None):
    """fit, then continue_fit, into one file."""
    def go(lab):
        n = max(budgets)
        body = """
watch, loggers = Watch(), %s
model = Scripted(R, max_its=%d, init='precomputed', checkpoint_frequency=%s, checkpoint_path='run.h5', loggers=[watch] + list(loggers.values()), %s)
model.losses = %r
at('$C.fit')
model.fit($X, initial_decomposition=$S)
""" % (loggers(), budgets[0], freq, tols(cls, "-np.inf" if losses is None else "0.1", "-np.inf"), losses)
        checks = ""
        for i, b in enumerate(budgets):
            if i:
                checks += "at('$C.continue_fit')\nmodel.continue_fit(max_its=%d)\n" % b
            its = max(budgets[:i + 1]) if losses is None else len(losses) - 1
            checks += filed("%r" % list(range(its)), "watch.metrics['%s']", when=" after %d runs" % (i + 1))
        lab.run(setup(lab, cls, n, body + skip(checks)))
    return go


def midway(cls, freq, its):
    """The file when a run is broken off between two checkpoints."""
    def go(lab):
        done = its // freq * freq
        body = """
class Stop(Exception):
    pass
class Breaker(Watch):
    def log(self, decomposer):
        if decomposer.current_iteration == %d:
            raise Stop()
breaker = Breaker()
watch, loggers = Watch(), %s
model = Scripted(R, max_its=%d, init='precomputed', checkpoint_frequency=%d, checkpoint_path='run.h5', loggers=[watch] + list(loggers.values()) + [breaker], %s)
at('$C.fit, broken off')
try:
    model.fit($X, initial_decomposition=$S)
    ended = True
except Stop:
    ended = False
""" % (its, loggers(), its + 1, freq, tols(cls, "-np.inf", "-np.inf"))
        checks = filed("%r" % list(range(done)), "watch.metrics['%%s'][:%d]" % done)
        lab.run(setup(lab, cls, its + 1, body + skip(checks)))
    return go


def resumed(cls, freq, first, second, names2=None):
    """Another model with its own loggers goes on in the same file."""
    def go(lab):
        n = max(first, second)
        opts = tols(cls, "-np.inf", "-np.inf")
        body = """
watch1, loggers1 = Watch(), %s
watch2, loggers2 = Watch(), %s
old = Scripted(R, max_its=%d, init='precomputed', checkpoint_frequency=%s, checkpoint_path='run.h5', loggers=[watch1] + list(loggers1.values()), %s)
at('$C.fit')
old.fit($X, initial_decomposition=$S)
model = Scripted(R, max_its=%d, init='from_checkpoint', checkpoint_frequency=%s, checkpoint_path='run.h5', loggers=[watch2] + list(loggers2.values()), %s)
at('$C.fit, resumed')
model.fit($X, initial_decomposition='run.h5')
""" % (loggers(), loggers(names2), first, freq, opts, second, freq, opts)
        both = sorted(names2 or LOGGERS)
        checks = filed("%r" % list(range(n)), "watch1.metrics['%s'] + watch2.metrics['%%s']" if 0 else "both['%s']", both)
        checks = "both = {%s}\n" % ", ".join("'%s': watch1.metrics['%s'] + watch2.metrics['%s']" % (l, l, l) for l in both) + checks
        rest = [l for l in sorted(LOGGERS) if l not in both]
        if rest:
            checks += filed("%r" % list(range(first)), "watch1.metrics['%s']", rest, when=", not logged any more")
        lab.run(setup(lab, cls, n, body + skip(checks, "old")))
    return go


def nothing_new(cls):
    """Stores with no entries since the last one, or none at all."""
    def go(lab):
        body = """
watch, loggers = Watch(), %s
model = Scripted(R, max_its=0, init='precomputed', checkpoint_path='run.h5', loggers=[watch] + list(loggers.values()), %s)
model.fit($X, initial_decomposition=$S)
at('$C.store_checkpoint before any iteration')
model.store_checkpoint()
at('$C.continue_fit')
model.continue_fit(max_its=1)
""" % (loggers(), tols(cls, "-np.inf", "-np.inf"))
        checks = filed("[0]", "watch.metrics['%s']") + "at('$C.store_checkpoint again')\nmodel.store_checkpoint(0)\nmodel.store_checkpoint(0)\n"
        checks += filed("[0]", "watch.metrics['%s']", when=", stored three times")
        checks += "at('$C.continue_fit')\nmodel.continue_fit(max_its=3)\n" + filed("[0, 1, 2]", "watch.metrics['%s']", when=", continued")
        lab.run(setup(lab, cls, 3, body + skip(checks)))
    return go


def by_itself(lab):
    """write_to_hdf5_group of a logger, over several groups of entries."""
    src = HEAD + WATCH + """
class Model(CP_ALS):
    @property
    def SSE(self):
        return self.error
    @property
    def loss(self):
        return 3*self.error + 1
model = Model(R, max_its=0, init='random')
model.error = 1
model.fit(X)
"""
    lab.dims("R")
    lab.tensor("X", lab.dims("d0"), lab.dims("d1"), lab.dims("d2"))
    values = {"loss": "3*v%d + 1", "SSE": "v%d", "MSE": "v%d/(d0*d1*d2)", "RMSE": "np.sqrt(v%d/(d0*d1*d2))",
              "explained_variance": "1 - v%d/np.sum(X**2)"}
    for i in range(7):
        lab.number("v%d" % i, nonneg=True)
    for l, m in sorted(LOGGERS.items()):
        for sizes in ((1, 1, 1), (2, 3, 1), (0, 2, 2), (3, 0, 2)):
            f = "%s_%s.h5" % (l, "_".join(map(str, sizes)))
            src += "logger = %s()\nat('%s.write_to_hdf5_group')\n" % (l, l)
            done = 0
            for s in sizes:
                for k in range(done, done + s):
                    src += "model.error = v%d\nmodel.current_iteration = %d\nlogger.log(model)\n" % (k, 3 * k + 1)
                done += s
                src += "check('entries not yet written', logger.latest_log_metrics, [%s])\n" % ", ".join(values[m] % k for k in range(done - s, done))
                src += "check('iterations not yet written', logger.latest_log_iterations, %r)\n" % [3 * k + 1 for k in range(done - s, done)]
                src += "with h5py.File('%s', 'a') as h5:\n    logger.write_to_hdf5_group(h5)\n" % f
                if done:
                    src += "with h5py.File('%s', 'r') as h5:\n" % f
                    src += "    check('iterations', h5['%s/iterations'][...], np.array(%r))\n" % (l, [3 * k + 1 for k in range(done)])
                    src += "    check('values', h5['%s/values'][...], np.array([%s]))\n" % (l, ", ".join(values[m] % k for k in range(done)))
                src += "check('nothing left to write', len(logger.latest_log_metrics), 0)\n"
                src += "check('all entries', logger.log_metrics, [%s])\n" % ", ".join(values[m] % k for k in range(done))
    lab.run(src)


def scenarios(tier):
    out = [("loggers by themselves", by_itself)]
    for cls in CLASSES:
        out.append(("%s: entries, a real iteration" % cls, real(cls)))
        for b in ((1,), (3,), (1, 3), (2, 2, 4)):
            out.append(("%s: entries, budgets %s" % (cls, b), entries(cls, b)))
        out.append(("%s: entries, converged" % cls, entries(cls, (5,), [10., 5., 2., 2.])))
        for freq in (None, 1, 2, 3):
            for b in ((1,), (4,), (1, 2, 4)) + (((5,), (2, 5), (3, 3, 6)) if tier == "thorough" else ()):
                out.append(("%s: frequency %s, budgets %s" % (cls, freq, b), stored(cls, freq, b)))
            out.append(("%s: frequency %s, converged" % (cls, freq), stored(cls, freq, (5,), [10., 5., 2., 2.])))
            for a, b in ((1, 3), (2, 3), (3, 3)):
                out.append(("%s: frequency %s, resumed after %d of %d" % (cls, freq, a, b), resumed(cls, freq, a, b)))
        out.append(("%s: resumed with fewer loggers" % cls, resumed(cls, 2, 2, 4, ["MSELogger"])))
        for freq, its in ((1, 2), (2, 3), (2, 4), (3, 4)):
            out.append(("%s: frequency %d, broken off in iteration %d" % (cls, freq, its), midway(cls, freq, its)))
        out.append(("%s: nothing new" % cls, nothing_new(cls)))
    return out
