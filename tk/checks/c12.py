"""C12: commit order of checkpoints."""
from .c11 import iterates, same, target
from .c18 import HEAD, data
from .c19 import CLASSES, tols
RULE = """Abstract interpretation of store_checkpoint (by hand, through fit, over an existing checkpoint, with loggers) over
a model of h5py files in which the n-th write operation raises, for every n the storing performs: after the failure
load_checkpoint must give the decomposition and iteration of one complete checkpoint, the one advertised before the
store or the new one, and the next store must succeed.  Unlinking and renaming a group are taken as single steps that do
not fail, and interruptions between such steps are not considered."""
ASSUMPTIONS = ["HDF5 link operations (delete, move) neither fail nor are interrupted between two of them",
               "a file whose writer raised an exception is closed properly"]
NO_SIZES = True
POINTS = 40


def start_model(cls, X_, start, loggers="", more=""):
    """A model that has done no iteration, with its file named by the variable path."""
    return """
def make(path):
    model = Scripted(R, max_its=0, init='precomputed', checkpoint_path=path, {l}{m}{o})
    model.fit({x}, initial_decomposition={s})
    return model
def become(model, k):
    now = iterates[k]
    d = model.decomposition
{b}
def whole(d, k):
    now = iterates[k]
{w}
def state(label, path, ks):
    'The latest checkpoint is one of those stored.'
    fresh = {c}(R)
    {t}
    try:
        fresh.load_checkpoint(path)
        loaded = True
    except Exception:
        loaded = False
    check(label + ': a checkpoint can be loaded', loaded, True)
    if loaded:
        its = fresh.current_iteration
        check_true(label + ': iteration', its in [i + 1 for i, k in ks])
        found = [k for i, k in ks if i + 1 == its]
        return fresh, found
    return fresh, []
""".format(l="loggers=%s, " % loggers if loggers else "", m=more, o=tols(cls, "-np.inf", "-np.inf"), x=X_, s=start, c=cls,
           t=target(cls).strip(),
           w="    return is_same(d.A, now[0]) and is_same(d.blueprint_B, now[1]) and is_same(d.C, now[2]) and "
             "is_same(d.projection_matrices, now[3:])" if cls == "Parafac2_ALS" else
             "    return is_same(d.factor_matrices, now) and is_same(d.weights, np.ones(R))",
           b="\n".join("    d.%s[...] = now[%d]" % (a, i) for i, a in enumerate(
               ["A", "blueprint_B", "C", "projection_matrices[0]", "projection_matrices[1]"] if cls == "Parafac2_ALS"
               else ["factor_matrices[%d]" % m for m in range(3)])) + ("" if cls == "Parafac2_ALS" else "\n    d.reset_weights()"))


LOGGERS = "[LossLogger(), MSELogger()]"
IMPORT_LOGGERS = "from tenkit.decomposition.logging import LossLogger, MSELogger\n"


def logged(model, n):
    """Entries for the loggers to write."""
    return "for logger in %s.loggers:\n        logger.log_metrics.append(%s)\n        logger.log_iterations.append(%d)\n" % (
        model, float(n), n)


def second(cls, again=False, loggers=False):
    """The second store fails; it replaces the first checkpoint, or adds one."""
    def go(lab):
        X_, start, _, _, _ = data(lab, cls)
        it = 0 if again else 1
        src = HEAD + IMPORT_LOGGERS + iterates(lab, cls, 2) + same(cls) + \
            start_model(cls, X_, start, LOGGERS if loggers else "") + """
done = False
for n in range({points}):
    if done:
        break
    path = 'run%d.h5' % n
    model = make(path)
    become(model, 0)
    {log0}
    model.store_checkpoint(0)
    become(model, 1)
    {log1}
    at('{c}.store_checkpoint')
    fail_after(n)
    try:
        model.store_checkpoint({it})
        failed = False
    except OSError:
        failed = True
    if fault_pending():
        done = True
        fail_after(None)
        check('store {it} reports success', failed, False)
    at('{c}.load_checkpoint after write %d of store_checkpoint failed' % n)
""".format(points=POINTS, c=cls, it=it, log0=logged("model", 0) if loggers else "", log1=logged("model", 1) if loggers else "")
        if not again:
            src += """
    fresh, found = state('second checkpoint interrupted', path, [(0, 0), (1, 1)])
    for k in found:
        held('second checkpoint interrupted', fresh.decomposition, iterates[k])
    if done:
        check('iteration when nothing failed', fresh.current_iteration, 2)
    at('{c}.store_checkpoint after a failure')
    model.store_checkpoint(1)
    fresh, found = state('stored again', path, [(1, 1)])
    for k in found:
        held('stored again', fresh.decomposition, iterates[k])
check('the storing was followed to its end', done, True)
""".format(c=cls)
        else:
            src += """
    fresh, found = state('checkpoint replaced, interrupted', path, [(0, 0)])
    if found:
        old, new = whole(fresh.decomposition, 0), whole(fresh.decomposition, 1)
        check_true('checkpoint replaced, interrupted: one of the two', old or new)
    at('{c}.store_checkpoint after a failure')
    model.store_checkpoint(0)
    fresh, found = state('stored again', path, [(0, 1)])
    for k in found:
        held('stored again', fresh.decomposition, iterates[k])
check('the storing was followed to its end', done, True)
""".format(c=cls)
        lab.run(src)
    return go


def first(cls):
    """The first store fails: nothing is advertised, or all of it."""
    def go(lab):
        X_, start, _, _, _ = data(lab, cls)
        src = HEAD + iterates(lab, cls, 1) + same(cls) + start_model(cls, X_, start) + """
done = False
for n in range({points}):
    if done:
        break
    path = 'run%d.h5' % n
    model = make(path)
    become(model, 0)
    at('{c}.store_checkpoint')
    fail_after(n)
    try:
        model.store_checkpoint(0)
    except OSError:
        pass
    if fault_pending():
        done = True
        fail_after(None)
    at('{c}.load_checkpoint after write %d of store_checkpoint failed' % n)
    fresh = {c}(R)
    {t}
    try:
        fresh.load_checkpoint(path)
        loaded = True
    except Exception:
        loaded = False
    if loaded:
        held('first checkpoint interrupted', fresh.decomposition, iterates[0])
    if done:
        check('loaded when nothing failed', loaded, True)
    at('{c}.store_checkpoint after a failure')
    model.store_checkpoint(0)
    fresh, found = state('stored again', path, [(0, 0)])
    for k in found:
        held('stored again', fresh.decomposition, iterates[k])
check('the storing was followed to its end', done, True)
""".format(points=POINTS, c=cls, t=target(cls).strip())
        lab.run(src)
    return go


def running(cls, its, freq):
    """A whole run with an error somewhere."""
    def go(lab):
        X_, start, _, _, _ = data(lab, cls)
        stores = sorted({i for i in range(its) if (i + 1) % freq == 0} | {its - 1})
        src = HEAD + iterates(lab, cls, its) + same(cls) + start_model(cls, X_, start) + """
done = False
for n in range({points}):
    if done:
        break
    path = 'run%d.h5' % n
    model = Scripted(R, max_its={its}, init='precomputed', checkpoint_path=path, checkpoint_frequency={freq}, {o})
    at('{c}.fit')
    fail_after(n)
    try:
        model.fit({x}, initial_decomposition={s})
    except OSError:
        pass
    if fault_pending():
        done = True
        fail_after(None)
    reached = model.current_iteration
    at('{c}.load_checkpoint after write %d of fit failed' % n)
    fresh = {c}(R)
    {t}
    try:
        fresh.load_checkpoint(path)
        loaded = True
    except Exception:
        loaded = False
    complete = [k for k in {stores} if k < reached and (k + 1) % {freq} == 0]
    if done or complete:
        check('a checkpoint can be loaded', loaded, True)
    if loaded:
        k = fresh.current_iteration - 1
        check_true('iteration loaded', k in {stores})
        if complete:
            check_true('no older than the last complete checkpoint', k >= complete[-1])
        if done:
            check('last iteration', k, {its} - 1)
        if k in {stores}:
            {held}('loaded', fresh.decomposition, iterates[k])
check('the run was followed to its end', done, True)
""".format(points=POINTS * 3, its=its, freq=freq, o=tols(cls, "-np.inf", "-np.inf"), c=cls, x=X_, s=start,
           t=target(cls).strip(), stores=stores, held="held_at_last" if cls == "CMTF_ALS" else "held")
        lab.run(src)
    return go


def broken_logger(cls):
    """A logger that cannot write."""
    def go(lab):
        X_, start, _, _, _ = data(lab, cls)
        src = HEAD + iterates(lab, cls, 2) + same(cls) + """
class Broken(Probe):
    broken = False
    def write_to_hdf5_group(self, group):
        if self.broken:
            raise RuntimeError('no room')
""" + start_model(cls, X_, start, "[probe]") + """
for replaced in (False, True):
    probe = Broken()
    path = 'replaced.h5' if replaced else 'added.h5'
    model = make(path)
    become(model, 0)
    model.store_checkpoint(0)
    become(model, 1)
    probe.broken = True
    at('{c}.store_checkpoint')
    try:
        model.store_checkpoint(0 if replaced else 1)
    except RuntimeError:
        pass
    at('{c}.load_checkpoint after a logger failed')
    fresh, found = state('logger failed', path, [(0, 0)] if replaced else [(0, 0), (1, 1)])
    if found:
        check_true('logger failed: a whole checkpoint', whole(fresh.decomposition, 0) or whole(fresh.decomposition, 1))
""".format(c=cls)
        lab.run(src)
    return go


def scenarios(tier):
    out = []
    for cls in CLASSES:
        out.append(("%s: first checkpoint" % cls, first(cls)))
        out.append(("%s: second checkpoint" % cls, second(cls)))
        out.append(("%s: checkpoint replaced" % cls, second(cls, True)))
        out.append(("%s: second checkpoint, loggers" % cls, second(cls, False, True)))
        out.append(("%s: checkpoint replaced, loggers" % cls, second(cls, True, True)))
        out.append(("%s: broken logger" % cls, broken_logger(cls)))
        for its, freq in ((2, 1), (3, 2)) + (((4, 1), (5, 2)) if tier == "thorough" else ()):
            out.append(("%s: %d iterations, frequency %d" % (cls, its, freq), running(cls, its, freq)))
    return out
