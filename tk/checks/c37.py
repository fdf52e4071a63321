"""C37: going through the checkpoints of a file."""
from .common import IMPORTS
RULE = """Abstract interpretation of utils.iter_checkpoints over a model of h5py files: for files written by fits with
different checkpoint frequencies, budgets, loggers, interruptions and resumed runs, and for iteration numbers of any number
of digits, the groups it yields must be those of the stored checkpoints, each once, by increasing iteration."""
NO_SIZES = True


def written(freq, budget, resumed=None, logger=None):
    def go(lab):
        lab.dims("R")
        lab.dims("d0", "d1", "d2")
        src = IMPORTS + """
from tenkit.decomposition.cp import CP_ALS
from tenkit.decomposition.logging import logger as loggers
class Scripted(CP_ALS):
    def _update_als_factors(self):
        self.factor_matrices[0][...] = self.factor_matrices[0] + 1
    @property
    def SSE(self):
        return 1.0
X = np.random.randn(d0, d1, d2)
stored = {}
def run(budget, init, start):
    model = Scripted(R, max_its=budget, convergence_tol=-1, rel_loss_tol=-1, init=init, checkpoint_frequency=%d,
                     checkpoint_path='run.h5', loggers=%s)
    first = KruskalTensor([np.random.randn(d0, R), np.random.randn(d1, R), np.random.randn(d2, R)])
    model.fit(X, initial_decomposition=first if init == 'precomputed' else 'run.h5')
    return model
""" % (freq, "[loggers.%s()]" % logger if logger else "None")
        its = []
        done = 0
        for i, b in enumerate([budget] + ([resumed] if resumed else [])):
            src += "model = run(%d, %r, %d)\n" % (b, "from_checkpoint" if i else "precomputed", done)
            its += [k for k in range(done, b) if (k + 1) % freq == 0]
            if b > done:
                its.append(b - 1)
            done = b
        its = sorted(set(its))
        src += """
with h5py.File('run.h5', 'r') as h5:
    at('utils.iter_checkpoints')
    groups = list(utils.iter_checkpoints(h5))
    names = [g.name for g in groups]
    check('checkpoints', names, %r)
    for g, name in zip(groups, %r):
        d = KruskalTensor.load_from_hdf5_group(g)
        other = KruskalTensor.load_from_hdf5_group(h5[name])
        check('content of ' + name, d.factor_matrices[0], other.factor_matrices[0])
""" % (["/checkpoint_%05d" % k for k in its], ["checkpoint_%05d" % k for k in its])
        lab.run(src)
    return go


def by_hand(its, others=()):
    def go(lab):
        names = ["checkpoint_%05d" % k for k in its]
        src = IMPORTS + """
with h5py.File('run.h5', 'a') as h5:
    for name in %r:
        h5.create_group(name)
    for name in %r:
        h5.create_group(name)
with h5py.File('run.h5', 'r') as h5:
    at('utils.iter_checkpoints')
    check('checkpoints', [g.name for g in utils.iter_checkpoints(h5)], %r)
""" % (list(others), names, ["/checkpoint_%05d" % k for k in sorted(its)])
        lab.run(src)
    return go


def scenarios(tier):
    out = [
        ("no checkpoint", by_hand([])),
        ("one checkpoint", by_hand([0])),
        ("stored out of order", by_hand([5, 3, 10, 0])),
        ("other groups", by_hand([9, 2], ["LossLogger", "unfinished_checkpoint_00003", "a", "zz", "metadata"])),
        ("more digits", by_hand([99999, 100000, 7, 123456, 1000000])),
        ("many", by_hand(list(range(0, 120, 7)))),
    ]
    for freq in (1, 2, 3):
        for budget in (1, 2, 4):
            out.append(("every %d of %d" % (freq, budget), written(freq, budget)))
    out.append(("resumed", written(2, 3, 6)))
    out.append(("resumed, logged", written(2, 3, 6, "LossLogger")))
    out.append(("logged", written(1, 3, None, "SSELogger")))
    return out
