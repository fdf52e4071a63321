"""C10: storing and loading."""
from .common import IMPORTS, commas, evolving, factors
RULE = """Abstract interpretation of store / store_in_hdf5_group / from_file / load_from_hdf5_group over a model of
h5py files (groups, attributes, datasets): what is loaded must be the stored arrays, attributes and class."""


def same_kruskal(v, n):
    return ("check('class', type(%s) is KruskalTensor, True)\ncheck('number of modes', len(%s.factor_matrices), %d)\n"
            "check('weights', %s.weights, w)\ncheck('rank', %s.rank, R)\n" % (v, v, n, v, v) +
            "".join("check('factor matrix', %s.factor_matrices[%d], U%d)\n" % (v, i, i) for i in range(n)))


def kruskal(n):
    def go(lab):
        R, ds = factors(lab, n)
        lab.tensor("w", R)
        lab.run(IMPORTS + "T = KruskalTensor([%s], w)\nT.store('a.h5')\n" % commas("U%d", n) +
                "at('KruskalTensor.from_file')\nL = KruskalTensor.from_file('a.h5')\n" + same_kruskal("L", n) +
                "with h5py.File('b.h5', 'w') as h5:\n    T.store_in_hdf5_group(h5.create_group('x/y'))\n"
                "with h5py.File('b.h5', 'r') as h5:\n"
                "    at('KruskalTensor.load_from_hdf5_group')\n    G = KruskalTensor.load_from_hdf5_group(h5['x/y'])\n" +
                same_kruskal("G", n) +
                "at('stored decomposition unchanged')\n" + same_kruskal("T", n))
    return go


def evolve(cls, K, warning, regular, form="list"):
    pf = cls == "Parafac2Tensor"

    def same(v):
        s = "check('class', type(%s) is %s, True)\ncheck('warning flag', %s.warning, %s)\n" % (v, cls, v, warning)
        s += "check('A', %s.A, A)\ncheck('C', %s.C, C)\ncheck('rank', %s.rank, R)\n" % (v, v, v)
        if pf:
            s += "check('blueprint', %s.blueprint_B, H)\ncheck('number of slices', len(%s.projection_matrices), %d)\n" % (v, v, K)
            s += "".join("check('projection matrix', %s.projection_matrices[%d], P%d)\n" % (v, k, k) for k in range(K))
        else:
            s += "check('number of slices', len(%s.B), %d)\n" % (v, K)
            s += "".join("check('B_k', %s.B[%d], B%d)\n" % (v, k, k) for k in range(K))
        s += "check('equal slices', bool(%s.all_same_size), bool(T.all_same_size))\n" % v
        s += "check('shape', %s.shape, T.shape)\n" % v if K <= 3 else ""
        return s

    def go(lab):
        evolving(lab, K, regular, pf)
        make = "Parafac2Tensor(A, H, C, [%s], warning=%s)" % (commas("P%d", K), warning) if pf else \
            "EvolvingTensor(A, %s, C, warning=%s)" % (
                ("np.stack([%s])" if form == "array" else "[%s]") % commas("B%d", K), warning)
        lab.run(IMPORTS + "T = %s\nT.store('a.h5')\n" % make +
                "at('%s.from_file')\nL = %s.from_file('a.h5')\n" % (cls, cls) + same("L") +
                "with h5py.File('b.h5', 'w') as h5:\n    T.store_in_hdf5_group(h5.create_group('g'))\n"
                "with h5py.File('b.h5', 'r') as h5:\n"
                "    at('%s.load_from_hdf5_group')\n    G = %s.load_from_hdf5_group(h5['g'])\n" % (cls, cls) + same("G") +
                "at('stored decomposition unchanged')\n" + same("T"))
    return go


def two(lab):
    """Two decompositions in one file, and a file written over."""
    R, ds = factors(lab, 3)
    lab.tensor("w", R)
    factors(lab, 2, "V", "e", rank="Q")
    lab.run(IMPORTS + """
S = KruskalTensor([U0, U1, U2], w)
T = KruskalTensor([V0, V1])
with h5py.File('a.h5', 'w') as h5:
    S.store_in_hdf5_group(h5.create_group('one'))
    T.store_in_hdf5_group(h5.create_group('two'))
at('KruskalTensor.load_from_hdf5_group, two groups')
with h5py.File('a.h5', 'r') as h5:
    s = KruskalTensor.load_from_hdf5_group(h5['one'])
    t = KruskalTensor.load_from_hdf5_group(h5['two'])
check('first', s.factor_matrices, [U0, U1, U2])
check('second', t.factor_matrices, [V0, V1])
check('second weights', t.weights, np.ones(Q))
S.store('b.h5')
T.store('b.h5')
at('KruskalTensor.store over an existing file')
t = KruskalTensor.from_file('b.h5')
check('factor matrices', t.factor_matrices, [V0, V1])
W = V0.copy()
t.factor_matrices[0][...] = 0
at('loaded arrays are separate')
check('stored tensor', T.factor_matrices[0], W)
check('file', KruskalTensor.from_file('b.h5').factor_matrices[0], W)
""")


def many(cls, K):
    """More slices than the padding of the names has digits for."""
    pf = cls == "Parafac2Tensor"

    def go(lab):
        R = lab.dims("R")
        lab.tensor("A", lab.dims("I"), R)
        lab.tensor("H", R, R)
        lab.tensor("C", K, R)
        lab.tensor("P", lab.dims("J"), R)
        lab.tensor("Q", lab.dims("J"), R)
        lab.tensor("S", lab.dims("J"), R)
        at = [1, 99, 100, 101, 102, 110, K - 2, K - 1]
        lab.run(IMPORTS + """
matrices = [P]*{K}
for k in {at}:
    matrices[k] = Q
matrices[{K} - 1] = S
T = {make}
T.store('a.h5')
at('{cls}.from_file')
L = {cls}.from_file('a.h5')
check('number of slices', len(L.{member}), {K})
for k in [0, 2, 98, 103, 200, {K} - 3]:
    check('slice %d' % k, L.{member}[k], P)
for k in {at}[:-1]:
    check('slice %d' % k, L.{member}[k], Q)
check('last slice', L.{member}[{K} - 1], S)
""".format(K=K, at=at, cls=cls, member="projection_matrices" if pf else "B",
           make="Parafac2Tensor(A, H, C, matrices)" if pf else "EvolvingTensor(A, matrices, C)"))
    return go


CLASSES = ("KruskalTensor", "EvolvingTensor", "Parafac2Tensor")


def wrong(stored, loaded):
    def go(lab):
        evolving(lab, 2, False, True)
        lab.run(IMPORTS + "D = {'KruskalTensor': KruskalTensor([A, C]), 'EvolvingTensor': EvolvingTensor(A, [P0, P1], C),\n"
                "     'Parafac2Tensor': Parafac2Tensor(A, H, C, [P0, P1])}\n"
                "at('%s.from_file')\nD['%s'].store('a.h5')\n"
                "try:\n    %s.from_file('a.h5')\n    reported = False\nexcept Exception:\n    reported = True\n"
                "check('a stored %s is reported', reported, True)\n" % (loaded, stored, loaded, stored))
    return go


def wrong_kind(lab):
    evolving(lab, 2, False, True)
    lab.run(IMPORTS + "KruskalTensor([A, C]).store('a.h5')\nat('EvolvingTensor.from_file')\n"
            "try:\n    EvolvingTensor.from_file('a.h5')\n    kind = 'none'\n"
            "except Warning:\n    kind = 'warning'\nexcept Exception:\n    kind = 'other'\n"
            "check('reported as the documented warning', kind, 'warning')\n")


def scenarios(tier):
    out = [("several in one file", two), ("kind of report", wrong_kind)]
    for n in [2, 3, 4, 12] + ([1, 5] if tier == "thorough" else []):
        out.append(("Kruskal, %d modes" % n, kruskal(n)))
    for cls in CLASSES[1:]:
        for w in (True, False):
            for K in [1, 2, 3, 12] if w else [2]:
                out.append(("%s, %d slices, warning=%s" % (cls, K, w), evolve(cls, K, w, K > 3)))
            out.append(("%s, 2 equal slices, warning=%s" % (cls, w), evolve(cls, 2, w, True)))
    out.append(("EvolvingTensor, B as an array", evolve("EvolvingTensor", 2, True, True, "array")))
    for cls in CLASSES[1:]:
        out.append(("%s, many slices" % cls, many(cls, 1003)))
    for a in CLASSES:
        for b in CLASSES:
            if a != b:
                out.append(("a stored %s loaded as %s" % (a, b), wrong(a, b)))
    return out
