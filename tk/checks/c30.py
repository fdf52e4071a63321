"""C30: experiment files."""
from .common import IMPORTS
RULE = """Abstract interpretation of Logger, HDF5Logger and Experiment over a model of h5py files: for histories of log and
save calls, store frequencies (some symbolic) and continuations, the data sets must hold the symbolic values of the target
functions of all calls in order whenever a save is due; an experiment run must leave every parameter, output and metric
under its own name and call the given functions with the documented arguments."""
ASSUMPTIONS = ["single precision numbers in the data sets count as the numbers that were stored"]
NO_SIZES = True
IGNORE_SINGLE = True
HEAD = IMPORTS + """
from tenkit import log
import h5py
calls = []
def values(k):
    'What the two targets are for the k-th parameters.'
    return P[k]*q + u, P[k]**2 - q*u
def first(p, a, b):
    calls.append(('first', p, a, b))
    return p*a + b
def second(p, a, b):
    calls.append(('second', p, a, b))
    return p**2 - a*b
def stored(name):
    with h5py.File('run.h5', 'r') as h5:
        return [h5[name]['first'][...], h5[name]['second'][...]]
def holds(label, name, ks):
    now = stored(name)
    for i in range(2):
        target = ['first', 'second'][i]
        check('%s: number of entries of %s' % (label, target), now[i].shape, (len(ks),))
        check('%s: %s' % (label, target), now[i], np.array([values(k)[i] for k in ks]))
"""


def inputs(lab, n):
    lab.tensor("P", max(n, 1))
    lab.number("q")
    lab.number("u")


def history(freq, n, saves, more=()):
    """n log calls with saves after some of them; then further loggers that continue: (freq, n, saves)."""
    def go(lab):
        inputs(lab, n + sum(m[1] for m in more))
        f = freq
        if freq is None:
            from ..interp import Sym
            lab.define("freq", Sym(lab.dims("freq", lb=n + 1), "i"))
            f = "freq"
        src = HEAD + "made = 0\n"
        for i, (f, c, s) in enumerate([(f, n, saves)] + list(more)):
            src += """
at('log.HDF5Logger')
made_before = made
logger = log.HDF5Logger('run.h5', 'ex', {f}, (q, u), {old}first=first, second=second)
{fresh}
for step in range({n}):
    for again in range({s}.count(step)):
        at('log.HDF5Logger.save_logs')
        logger.save_logs()
        holds('after a save', 'ex', list(range(made)))
    at('log.HDF5Logger.log')
    logger.log(P[made])
    made += 1
    {due}
for again in range(max(1, {s}.count({n}))):
    at('log.HDF5Logger.save_logs')
    logger.save_logs()
    holds('after a save', 'ex', list(range(made)))
check('values kept in memory', np.array(logger.target_values['first'] + [u]), np.array([values(k)[0] for k in range(made_before, made)] + [u]))
check('values of the second target kept in memory', np.array(logger.target_values['second'] + [u]), np.array([values(k)[1] for k in range(made_before, made)] + [u]))
""".format(f=f, n=c, s=list(s), old="continue_old=True, " if i else "",
           fresh="" if i else "holds('a new file', 'ex', [])",
           due="if made %% %s == 0:\n        holds('after the store frequency', 'ex', list(range(made)))" % f
           if not i and freq is not None else "pass")
        lab.run(src)
    return go


def two_experiments(f):
    """Two loggers with different names in one file, used in turns; other contents stay."""
    def go(lab):
        inputs(lab, 6)
        lab.tensor("Z", lab.dims("z"))
        lab.run(HEAD + """
with h5py.File('run.h5', 'w') as h5:
    h5.create_group('a').attrs['note'] = 3
    h5['a']['other'] = Z
    h5['z'] = Z
at('log.HDF5Logger')
a = log.HDF5Logger('run.h5', 'a', %d, (q, u), first=first, second=second)
b = log.HDF5Logger('run.h5', 'b', 2, (q, u), first=first, second=second)
a.log(P[0])
b.log(P[1])
b.log(P[2])
a.log(P[3])
a.save_logs()
b.log(P[4])
a.log(P[5])
a.save_logs()
b.save_logs()
holds('the first', 'a', [0, 3, 5])
holds('the second', 'b', [1, 2, 4])
with h5py.File('run.h5', 'r') as h5:
    check('other data sets of the group', h5['a']['other'][...], Z)
    check('other data sets of the file', h5['z'][...], Z)
    check('attributes of the group', h5['a'].attrs['note'], 3)
    check('names in the file', sorted(h5.keys()), ['a', 'b', 'z'])
    check('names in the group', sorted(h5['a'].keys()), ['first', 'other', 'second'])
""" % f)
    return go


def memory(n):
    """The plain logger."""
    def go(lab):
        inputs(lab, n)
        lab.run(HEAD + """
at('log.Logger')
logger = log.Logger((q, u), first=first, second=second)
other = log.Logger((u, q), first=first)
for k in range(%d):
    logger.log(P[k])
    check('entries of the first target', len(logger.target_values['first']), k + 1)
    check('entries of the second target', len(logger.target_values['second']), k + 1)
    check('entries of another logger', len(other.target_values['first']), 0)
for k in range(%d):
    check('value of the first target', logger.target_values['first'][k], values(k)[0])
    check('value of the second target', logger.target_values['second'][k], values(k)[1])
check('target calls', len(calls), %d)
""" % (n, n, 2*n))
    return go


PARTS = """
def outcome(X, rank, scale, h5_group=None, logger=None, load_old=None, init=None):
    seen.append(('run', X, rank, scale, logger, load_old, init, h5_group.name))
    h5_group['from inside'] = 7
    return {'factors': X*scale, 'loss': scale - 1, 'scale': X + 1}
def again(X, rank, scale, h5_group=None, logger=None, load_old=None, init=None):
    seen.append(('run', X, rank, scale, logger, load_old, init, h5_group.name))
    return {'factors': X*scale - 2, 'loss': scale + 5, 'scale': X + 9}
def metrics(X, params, outputs):
    seen.append(('final', X, params, outputs))
    return {'fit': np.sum(X), 'best loss': outputs['loss']*2 + params['scale']}
"""


def experiment(init, attributes, metadata, more):
    """One run; `more` runs it again as a continuation."""
    def go(lab):
        X_ = lab.tensor("Y", lab.dims("I"), lab.dims("J"))
        lab.number("c")
        lab.number("d")
        lab.tensor("meta", lab.dims("m"))
        src = IMPORTS + """
from tenkit import log
import h5py
seen = []
""" + PARTS + """
at('log.Experiment')
experiment = log.Experiment('run.h5', 'ex', %s, %s)
with h5py.File('run.h5', 'r') as h5:
    check('group', 'ex' in h5, True)
%s%s
params = {'rank': 3, 'scale': c%s}
y = Y.copy()
marker = [1]
at('log.Experiment.run_experiment')
experiment.run_experiment(y, outcome, params, metrics, logger=marker)
check('calls', [s[0] for s in seen], ['run', 'final'])
check('data of the experiment function', seen[0][1], Y)
check('parameters of the experiment function', [seen[0][2], seen[0][3]], [3, c])
check_true('logger of the experiment function', seen[0][4] is marker)
check_true('a new run does not load', not seen[0][5])
check('group of the experiment function', seen[0][7], '/ex')
check('starting point of the experiment function', seen[0][6], %s)
check('data of the final evaluation', seen[1][1], Y)
check('parameters of the final evaluation', [seen[1][2]['rank'], seen[1][2]['scale']], [3, c])
check('outputs of the final evaluation', seen[1][3]['factors'], Y*c)
with h5py.File('run.h5', 'r') as h5:
    g = h5['ex']
    check('parameter rank', g.attrs['rank'], 3)
    check('parameter scale', g.attrs['scale'], c)
    check('output factors', g['factors'][...], Y*c)
    check('output loss', g['loss'][()], c - 1)
    check('output scale', g['scale'][...], Y + 1)
    check('metric fit', g['fit'][()], np.sum(Y))
    check('metric best loss', g['best loss'][()], (c - 1)*2 + c)
    check('what the function stored', g['from inside'][()], 7)
    check('names', sorted(g.keys()), ['best loss', 'factors', 'fit', 'from inside', 'loss', 'scale'])
check('data unchanged', y, Y)
check('parameters unchanged', [params['rank'], params['scale'], len(params)], [3, c, %d])
""" % ("{'author': 'me', 'number': d}" if attributes else "None", "{'labels': meta, 'rate': d}" if metadata else "None",
       "    check('attribute author', h5['ex'].attrs['author'], 'me')\n    check('attribute number', h5['ex'].attrs['number'], d)\n"
       if attributes else "",
       "    check('metadata labels', h5['metadata']['labels'][...], meta)\n    check('metadata rate', h5['metadata']['rate'][()], d)\n"
       if metadata else "",
       ", 'init': 'svd'" if init else "", "'svd'" if init else "None", 3 if init else 2)
        if more:
            src += """
later = log.Experiment('run.h5', 'ex')
del seen[:]
later.run_experiment(Y.copy(), again, {'rank': 4, 'scale': d%s}, metrics, continue_old=True)
check('calls of the continued run', [s[0] for s in seen], ['run', 'final'])
check_true('a continued run loads', seen[0][5])
with h5py.File('run.h5', 'r') as h5:
    g = h5['ex']
    check('parameter rank of the continued run', g.attrs['rank'], 4)
    check('parameter scale of the continued run', g.attrs['scale'], d)
    check('output factors of the continued run', g['factors'][...], Y*d - 2)
    check('output loss of the continued run', g['loss'][()], d + 5)
    check('output scale of the continued run', g['scale'][...], Y + 9)
    check('metric fit of the continued run', g['fit'][()], np.sum(Y))
    check('metric best loss of the continued run', g['best loss'][()], (d + 5)*2 + d)
""" % (", 'init': 'svd'" if init else "")
        lab.run(src)
    return go


def two_runs(lab):
    """Two experiments in one file keep apart."""
    lab.tensor("Y", lab.dims("I"), lab.dims("J"))
    lab.number("c")
    lab.number("d")
    lab.run(IMPORTS + """
from tenkit import log
import h5py
seen = []
""" + PARTS + """
at('log.Experiment')
a = log.Experiment('run.h5', 'a', {'who': 1})
b = log.Experiment('run.h5', 'b', {'who': 2})
at('log.Experiment.run_experiment')
b.run_experiment(Y.copy(), outcome, {'rank': 2, 'scale': c}, metrics)
a.run_experiment(Y.copy(), again, {'rank': 3, 'scale': d}, metrics)
with h5py.File('run.h5', 'r') as h5:
    for name, who, rank, scale, factors in [('a', 1, 3, d, Y*d - 2), ('b', 2, 2, c, Y*c)]:
        check(name + ': attribute', h5[name].attrs['who'], who)
        check(name + ': rank', h5[name].attrs['rank'], rank)
        check(name + ': scale', h5[name].attrs['scale'], scale)
        check(name + ': factors', h5[name]['factors'][...], factors)
""")


def scenarios(tier):
    big = tier == "thorough"
    out = []
    for n in (0, 1, 2, 3):
        out.append(("memory, %d calls" % n, memory(n)))
    for freq in (1, 2, 3, 4, 5, 6) + ((7, 8) if big else ()):
        for n in range(0, 11 if big else 7):
            out.append(("every %d, %d calls" % (freq, n), history(freq, n, [])))
    for n in range(0, 7):
        out.append(("every more than %d, %d calls" % (n, n), history(None, n, [])))
        out.append(("every more than %d, %d calls, saves" % (n, n), history(None, n, [0, 1, 1, 4])))
    for freq in (1, 2, 3):
        for saves in ([0], [1], [2, 2], [1, 2, 3], [0, 2, 4], [3, 5, 5, 5]) + (([0, 1, 2, 3, 4, 5],) if big else ()):
            out.append(("every %d, 5 calls, saves at %s" % (freq, saves), history(freq, 5, saves)))
    for freq, n in ((1, 2), (2, 3), (3, 2), (4, 5), (2, 0)):
        for f2, n2 in ((1, 3), (2, 3), (3, 4), (5, 1), (2, 0)):
            out.append(("every %d, %d calls, continued every %d, %d calls" % (freq, n, f2, n2),
                        history(freq, n, [1], [(f2, n2, [2])])))
    out.append(("continued twice", history(2, 3, [], [(3, 4, [1]), (2, 5, [])])))
    out.append(("continued three times", history(3, 1, [], [(3, 1, []), (3, 1, []), (3, 1, [])])))
    for f in (1, 2, 5):
        out.append(("two experiments in one file, every %d" % f, two_experiments(f)))
    for init in (True, False):
        for a, m in ((False, False), (True, True), (True, False), (False, True)):
            out.append(("experiment, %s init, %s attributes, %s metadata" % tuple("with" if x else "no" for x in (init, a, m)),
                        experiment(init, a, m, a == m)))
    out.append(("two experiments", two_runs))
    return out
