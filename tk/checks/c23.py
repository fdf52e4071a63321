"""C23: unfit initial decompositions and bad arguments are rejected."""
from tk import expr as X
from .common import IMPORTS, commas
RULE = """Abstract interpretation of the constructors, fits, loads and scores with arguments that are wrong in one respect (by
any amount: the sizes are symbolic): every path must end in ValueError before the argument becomes the model's
decomposition; with matching arguments no path may raise."""
NO_SIZES = True
HEAD = IMPORTS + """
import tempfile
from tenkit.decomposition.cp import CP_ALS
from tenkit.decomposition.parafac2 import Parafac2_ALS
from tenkit.decomposition.cmtf import CMTF_ALS

def rejected(label, f):
    kind = 'accepted'
    try:
        f()
    except ValueError:
        kind = 'ValueError'
    except Exception as e:
        kind = type(e).__name__
    check(label, kind, 'ValueError')

def kept(label, model, old):
    now = model.decomposition if hasattr(model, 'decomposition') else None
    check(label, now is old, True)
"""
CLASSES = ("CP_ALS", "CMTF_ALS", "Parafac2_ALS")


def rank_of(lab):
    return lab.dims("R", lb=2)


def problem(lab, cls, order=3, slices=2):
    """Data and the parts of a matching decomposition: (fit arguments, list of parts, constructor)."""
    R = rank_of(lab)
    if cls == "Parafac2_ALS":
        I = lab.dims("I")
        lab.tensor("A", I, R)
        lab.tensor("H", R, R)
        lab.tensor("C", slices, R)
        for k in range(slices):
            j = X.add(R, lab.dims("j%d" % k, lb=0))
            lab.tensor("X%d" % k, I, j)
            lab.tensor("P%d" % k, j, R)
        return ("[%s]" % commas("X%d", slices), ["A", "H", "C"] + ["P%d" % k for k in range(slices)],
                "Parafac2Tensor(%s, %s, %s, [%s])")
    ds = [lab.dims("d%d" % m) for m in range(order)]
    lab.tensor("X", *ds)
    for m in range(order):
        lab.tensor("U%d" % m, ds[m], R)
    arg = "X"
    if cls == "CMTF_ALS":
        lab.tensor("Y", ds[1], lab.dims("m"))
        arg = "X, [Y], [1]"
    return arg, ["U%d" % m for m in range(order)], "KruskalTensor([%s])"


def build(cls, ctor, parts):
    if cls == "Parafac2_ALS":
        return ctor % (parts[0], parts[1], parts[2], ", ".join(parts[3:]))
    return ctor % ", ".join(parts)


def wrong_parts(lab, cls, parts, order=3):
    """[(what is wrong, parts, rank the model is given)]"""
    R = rank_of(lab)
    e = lab.dims("e")                        # by any amount
    out = []

    def variant(what, repl, rank="R"):
        out.append((what, [repl.get(p, p) for p in parts], rank))
    if cls == "Parafac2_ALS":
        sizes = {"A": lab.dims("I"), "C": X.const(2)}
        for k in range(2):
            sizes["P%d" % k] = X.add(R, lab.dims("j%d" % k, lb=0))
    else:
        sizes = {"U%d" % m: lab.dims("d%d" % m) for m in range(order)}
    for p, s in sizes.items():
        lab.tensor(p + "long", X.add(s, e), R)
        lab.tensor(p + "one", 1, R)
        variant("mode of %s longer than the data's" % p, {p: p + "long"})
        if cls == "Parafac2_ALS" and p == "C":
            variant("mode of C of length one", {p: "Cone"})
    # the model's rank differs from the decomposition's
    for rank, what in (("R + e", "smaller"), ("R - 1", "larger")):
        out.append(("rank %s than the model's" % what, list(parts), rank))
    if cls == "Parafac2_ALS":
        lab.tensor("Hlong", X.add(R, e), R)
        lab.tensor("Hone", 1, R)
        lab.tensor("Awide", lab.dims("I"), X.add(R, e))
        lab.tensor("Cwide", 2, X.add(R, e))
        lab.tensor("Hwide", R, X.add(R, e))
        for k in range(2):
            lab.tensor("P%dthin" % k, sizes["P%d" % k], 1)
            lab.tensor("P%dwide" % k, sizes["P%d" % k], X.add(R, e))
        variant("rank of A larger than the others", {"A": "Awide"})
        variant("rank of C larger than the others", {"C": "Cwide"})
        variant("rank of the blueprint larger than the others", {"H": "Hwide"})
        variant("projection and blueprint with too many components in between", {"H": "Hlong", "P0": "P0wide", "P1": "P1wide"})
        variant("projection and blueprint with one component in between", {"H": "Hone", "P0": "P0thin", "P1": "P1thin"})
        out.append(("too few slices", parts[:-1], "R"))
        out.append(("too many slices", parts + [parts[-1]], "R"))
    else:
        out.append(("too few modes", parts[:-1], "R"))
        lab.tensor("Umore", lab.dims("dmore"), R)
        lab.tensor("Uone", 1, R)
        out.append(("too many modes", parts + ["Umore"], "R"))
        out.append(("too many modes, the last of length one", parts + ["Uone"], "R"))
    return out


def precomputed(cls, order=3):
    def go(lab):
        args, parts, ctor = problem(lab, cls, order)
        for i, (what, ps, rank) in enumerate(wrong_parts(lab, cls, parts, order)):
            lab.run(HEAD + """
at('%s.fit')
def construct():
    return %s
def run():
    d = construct()
    built.append(d)
    model.fit(%s, initial_decomposition=d)
built = []
model = %s(%s, init='Precomputed', max_its=1, print_frequency=-1)
rejected(%r, run)
kept('model after a rejected decomposition', model, None)
""" % (cls, build(cls, ctor, ps), args, cls, rank, what))
    return go


def data_longer(cls):
    """The data's modes are longer than the decomposition's."""
    def go(lab):
        R, e = rank_of(lab), lab.dims("e")
        args, parts, ctor = problem(lab, cls)
        start = build(cls, ctor, parts)
        if cls == "Parafac2_ALS":
            I, js = lab.dims("I"), [X.add(R, lab.dims("j%d" % k, lb=0)) for k in range(2)]
            lab.tensor("W0", X.add(I, e), js[0])
            lab.tensor("W1", X.add(I, e), js[1])
            lab.tensor("V0", I, X.add(js[0], e))
            lab.tensor("V1", I, X.add(js[1], e))
            data = [("rows", "[W0, W1]"), ("columns of the first slice", "[V0, X1]"), ("columns of the last slice", "[X0, V1]"),
                    ("slices", "[X0, X1, X1]")]
        else:
            ds = [lab.dims("d%d" % m) for m in range(3)]
            data = []
            for m in range(3):
                lab.tensor("W%d" % m, *[X.add(d, e) if i == m else d for i, d in enumerate(ds)])
                lab.tensor("Y%d" % m, X.add(ds[m], e) if m == 1 else ds[1], lab.dims("m"))
                data.append(("mode %d" % m, "W%d" % m + (", [Y%d], [1]" % m if cls == "CMTF_ALS" else "")))
        for what, d in data:
            lab.run(HEAD + """
at('%s.fit')
model = %s(R, init='precomputed', max_its=1, print_frequency=-1)
rejected(%r, lambda: model.fit(%s, initial_decomposition=%s))
kept('model after a rejected decomposition', model, None)
""" % (cls, cls, "data longer: " + what, d, start))
    return go


def loaded(cls, how):
    def go(lab):
        R, e = rank_of(lab), lab.dims("e")
        args, parts, ctor = problem(lab, cls)
        start = build(cls, ctor, [p + ".copy()" for p in parts])
        for what, ps, rank in wrong_parts(lab, cls, parts):
            if what.startswith("rank of") or "in between" in what:
                # such a decomposition cannot come from a run
                continue
            src = HEAD + """
import h5py
with h5py.File('run.h5', 'w') as h5:
    bad = %s
    bad.store_in_hdf5_group(h5.create_group('checkpoint_00003'))
    h5.attrs['final_iteration'] = 3
at('%s, %s')
""" % (build(cls, ctor, ps), cls, how)
            if how == "from_checkpoint":
                src += "model = %s(%s, init='from_checkpoint', max_its=5, print_frequency=-1)\n" % (cls, rank)
                src += "rejected(%r, lambda: model.fit(%s, initial_decomposition='run.h5'))\n" % (what, args)
                src += "kept('model after a rejected checkpoint', model, None)\n"
            elif how == "path":
                src += "model = %s(%s, init='run.h5', max_its=5, print_frequency=-1)\n" % (cls, rank)
                src += "rejected(%r, lambda: model.fit(%s))\n" % (what, args)
                src += "kept('model after a rejected checkpoint', model, None)\n"
            else:
                src += "model = %s(%s, init='random', max_its=0, print_frequency=-1)\n" % (cls, rank)
                src += "model.fit(%s)\nold, it = model.decomposition, model.current_iteration\n" % args
                src += "rejected(%r, lambda: model.load_checkpoint('run.h5'))\n" % what
                src += "kept('model after a rejected checkpoint', model, old)\n"
                src += "check('current_iteration after a rejected checkpoint', model.current_iteration, it)\n"
            lab.run(src)
    return go


def accepted(cls, order=3):
    """Nothing that matches is rejected."""
    def go(lab):
        args, parts, ctor = problem(lab, cls, order)
        start = build(cls, ctor, [p + ".copy()" for p in parts])
        for opts in ("", ", non_negativity_constraints=[True, False, True][:%d] + [False]*%d" % (order, max(0, order - 3)),
                     ", ridge_penalties=[1, 0, 2][:%d] + [0]*%d" % (order, max(0, order - 3))):
            lab.run(HEAD + """
at('%(cls)s.fit')
model = %(cls)s(R, init='precomputed', max_its=0, print_frequency=-1, checkpoint_path='run.h5'%(opts)s)
start = %(start)s
model.fit(%(args)s, initial_decomposition=start)
check('a matching decomposition is used', model.decomposition.rank, R)
model.store_checkpoint(0)
model.store_checkpoint(4)
for init, more in (('from_checkpoint', {'initial_decomposition': 'run.h5'}), ('run.h5', {})):
    again = %(cls)s(R, init=init, max_its=0, print_frequency=-1%(opts)s)
    again.fit(%(args)s, **more)
    check('a matching checkpoint is used', again.decomposition.rank, R)
again.load_checkpoint('run.h5')
again.load_checkpoint('run.h5', 0)
again.load_checkpoint('run.h5', load_it=4)
again.init = 'random'
again.fit(%(args)s)
again.init = 'RANDOM'
again.fit(%(args)s)
""" % dict(cls=cls, opts=opts, start=start, args=args))
    return go


def missing(cls):
    """Checkpoints and schemes that do not exist."""
    def go(lab):
        args, parts, ctor = problem(lab, cls)
        start = build(cls, ctor, [p + ".copy()" for p in parts])
        lab.run(HEAD + """
at('%(cls)s.load_checkpoint')
model = %(cls)s(R, init='precomputed', max_its=0, print_frequency=-1, checkpoint_path='run.h5')
start = %(start)s
model.fit(%(args)s, initial_decomposition=start)
model.store_checkpoint(2)
it = model.current_iteration
rejected('no checkpoint of that iteration', lambda: model.load_checkpoint('run.h5', 1))
rejected('no checkpoint of that iteration', lambda: model.load_checkpoint('run.h5', load_it=0))
with h5py.File('empty.h5', 'w') as h5:
    pass
rejected('a file without checkpoints', lambda: model.load_checkpoint('empty.h5'))
rejected('a file without checkpoints', lambda: model.load_checkpoint('empty.h5', 0))
with h5py.File('tensor.h5', 'w') as h5:
    start.store_in_hdf5_group(h5.create_group('other'))
rejected('a file with something else', lambda: model.load_checkpoint('tensor.h5', 2))
kept('model after a rejected checkpoint', model, start)
check('current_iteration after a rejected checkpoint', model.current_iteration, it)

at('%(cls)s.init_components')
for name in ('rand', 'svd2', '', 'Precomputed ', 'cp_als', 'missing.h5', 'random_init', 'empty'):
    other = %(cls)s(R, init=name, max_its=0, print_frequency=-1)
    rejected('unknown initialisation ' + name, lambda: other.fit(%(args)s))
    kept('model after an unknown initialisation', other, None)
other = %(cls)s(R, init='empty.h5', max_its=0, print_frequency=-1)
rejected('initialisation by a file without checkpoints', lambda: other.fit(%(args)s))
other = %(cls)s(R, init='from_checkpoint', max_its=0, print_frequency=-1)
rejected('initialisation by a file without checkpoints', lambda: other.fit(%(args)s, initial_decomposition='empty.h5'))
kept('model after a rejected checkpoint', other, None)
""" % dict(cls=cls, start=start, args=args))
    return go


def svd_rank(cls, order=3):
    def go(lab):
        R, e = rank_of(lab), lab.dims("e")
        more = "" if cls != "CMTF_ALS" else ", [Y], [1]"
        for m in range(order if cls != "Parafac2_ALS" else 1):
            # one mode shorter than the rank, the others long enough
            ds = [X.add(R, lab.dims("x%d" % i, lb=0)) for i in range(order)]
            rank = "R"
            if cls == "Parafac2_ALS":
                lab.tensor("S0", R, ds[1])
                lab.tensor("S1", R, ds[2])
                args = "[S0, S1]"
            else:
                ds[m] = R
                ds = [d if i == m else X.add(d, e) for i, d in enumerate(ds)]
                lab.tensor("S%d" % m, *ds)
                if order == 3:
                    lab.tensor("Y", ds[1], lab.dims("m"))
                args = "S%d" % m + more
            lab.run(HEAD + """
at('%(cls)s.init_svd')
model = %(cls)s(R + e, init='svd', max_its=0, print_frequency=-1)
rejected('rank larger than mode %(m)d', lambda: model.fit(%(args)s))
kept('model after a rejected rank', model, None)
model = %(cls)s(R + 1, init='svd', max_its=0, print_frequency=-1)
rejected('rank larger than mode %(m)d by one', lambda: model.fit(%(args)s))
model = %(cls)s(R, init='SVD', max_its=0, print_frequency=-1)
model.fit(%(args)s)
check('rank as large as mode %(m)d', model.decomposition.rank, R)
""" % dict(cls=cls, args=args, m=m))
        if cls != "Parafac2_ALS":
            lab.tensor("S", *[R]*order)
            if order == 3:
                lab.tensor("Y", R, lab.dims("m"))
            lab.run(HEAD + """
at('%(cls)s.init_svd')
model = %(cls)s(R + e, init='svd', max_its=0, print_frequency=-1)
rejected('rank larger than all modes', lambda: model.fit(S%(more)s))
kept('model after a rejected rank', model, None)
""" % dict(cls=cls, more=more))
        if cls == "Parafac2_ALS":
            lab.tensor("T0", 1, ds[1])
            lab.tensor("T1", 1, ds[2])
            lab.run(HEAD + """
at('Parafac2_ALS.init_svd')
model = Parafac2_ALS(2, init='svd', max_its=0, print_frequency=-1)
rejected('rank larger than a single row', lambda: model.fit([T0, T1]))
kept('model after a rejected rank', model, None)
""")
    return go


def kruskal(n):
    """Column counts and weights."""
    def go(lab):
        R, e = rank_of(lab), lab.dims("e")
        for m in range(n):
            d = lab.dims("d%d" % m)
            lab.tensor("U%d" % m, d, R)
            lab.tensor("V%d" % m, d, X.add(R, e))
            lab.tensor("O%d" % m, d, 1)
        lab.tensor("w", R)
        lab.tensor("wlong", X.add(R, e))
        lab.tensor("wone", 1)
        us = ["U%d" % m for m in range(n)]
        src = HEAD + "at('KruskalTensor')\n"
        if n > 1:
            for m in range(n):
                src += "rejected('factor matrix %d with more columns', lambda: KruskalTensor([%s]))\n" % (
                    m, ", ".join("V%d" % i if i == m else u for i, u in enumerate(us)))
                src += "rejected('factor matrix %d with fewer columns', lambda: KruskalTensor([%s]))\n" % (
                    m, ", ".join(u if i == m else "V%d" % i for i, u in enumerate(us)))
                src += "rejected('factor matrix %d with fewer columns, weights of the others', lambda: KruskalTensor([%s], wlong))\n" % (
                    m, ", ".join(u if i == m else "V%d" % i for i, u in enumerate(us)))
                src += "rejected('factor matrix %d with one column', lambda: KruskalTensor([%s]))\n" % (
                    m, ", ".join("O%d" % i if i == m else "V%d" % i for i, u in enumerate(us)))
        src += """
fs = [%s]
rejected('too many weights', lambda: KruskalTensor(fs, wlong))
rejected('too few weights', lambda: KruskalTensor([%s], w))
rejected('too few weights', lambda: KruskalTensor([%s], wone))
rejected('no weights', lambda: KruskalTensor(fs, []))
check('as many weights as components', KruskalTensor(fs, w).weights, w)
check('no weights given', KruskalTensor(fs).weights, np.ones(R))
""" % (", ".join(us), commas("V%d", n), commas("V%d", n))
        lab.run(src)
    return go


def names(lab):
    lab.tensor("A", 3, 2)
    lab.tensor("B", 4, 2)
    lab.tensor("A2", 3, 2)
    lab.tensor("B2", 4, 2)
    lab.run(HEAD + """
for name in ('max', '', 'Minimum', 'median', 'sum'):
    at('metrics.factor_match_score')
    rejected('unknown reduction ' + name, lambda: metrics.factor_match_score([A, B], [A2, B2], fms_reduction=name))
    at('metrics.separate_mode_factor_match_score')
    rejected('unknown reduction ' + name, lambda: metrics.separate_mode_factor_match_score([A, B], [A2, B2], fms_reduction=name))
    at('KruskalTensor.factor_match_score')
    rejected('unknown reduction ' + name, lambda: KruskalTensor([A, B]).factor_match_score(KruskalTensor([A2, B2]), fms_reduction=name))
for name in ('gaussian', '', 'norm', 'uniforms', 'exponential'):
    at('KruskalTensor.random_init')
    rejected('unknown distribution ' + name, lambda: KruskalTensor.random_init([3, 4], 2, name))
    rejected('unknown distribution ' + name, lambda: KruskalTensor.random_init([3, 4], rank=2, random_method=name))
at('KruskalTensor.random_init')
for name in ('normal', 'uniform', 'Normal', 'UNIFORM'):
    check('known distribution', KruskalTensor.random_init([3, 4], 2, name).rank, 2)
at('metrics.factor_match_score')
for name in ('min', 'mean'):
    metrics.factor_match_score([A, B], [A2, B2], fms_reduction=name)
    metrics.separate_mode_factor_match_score([A, B], [A2, B2], fms_reduction=name)
""")


def scenarios(tier):
    out = [("names", names)]
    for n in (1, 2, 3, 4):
        out.append(("KruskalTensor, %d modes" % n, kruskal(n)))
    for cls in CLASSES:
        out.append(("%s, precomputed" % cls, precomputed(cls)))
        out.append(("%s, data longer" % cls, data_longer(cls)))
        for how in ("from_checkpoint", "path", "load_checkpoint"):
            out.append(("%s, loaded, %s" % (cls, how), loaded(cls, how)))
        out.append(("%s, matching" % cls, accepted(cls)))
        out.append(("%s, missing" % cls, missing(cls)))
        out.append(("%s, svd" % cls, svd_rank(cls)))
    for order in (2, 4):
        out.append(("CP_ALS, precomputed, order %d" % order, precomputed("CP_ALS", order)))
        out.append(("CP_ALS, matching, order %d" % order, accepted("CP_ALS", order)))
        out.append(("CP_ALS, svd, order %d" % order, svd_rank("CP_ALS", order)))
    return out
