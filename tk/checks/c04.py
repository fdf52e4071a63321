"""C04: flatten_factors / unflatten_factors."""
RULE = """Abstract interpretation of both functions with symbolic mode lengths and rank: the flat vector's entry
formula is compared with the concatenation of the row-major factor matrices, and the composition with the identity."""


def one(n, conv, views=False):
    def go(lab):
        R = lab.dims("R")
        ds = [lab.dims("d%d" % i) for i in range(n)]
        for i in range(n):
            if views:     # columns or rows of other matrices, in another memory layout
                lab.tensor("V%d" % i, R, ds[i]) if i % 2 == 0 else lab.tensor("V%d" % i, ds[i], 3, R)
                lab.run("U%d = V%d%s" % (i, i, ".T" if i % 2 == 0 else "[:, 1]"))
            else:
                lab.tensor("U%d" % i, ds[i], R)
        fs = ("[%s]" if conv == "list" else "(%s,)") % ", ".join("U%d" % i for i in range(n))
        sz = ("(%s,)" if conv == "list" else "[%s]") % ", ".join("d%d" % i for i in range(n))
        tot = "+".join("d%d" % i for i in range(n))
        lab.run("import numpy as np\nfrom tenkit import base\nfs = %s\nat('base.flatten_factors')\n"
                "v = base.flatten_factors(fs)\n"
                "check('length', v.shape, (R*(%s),))\n"
                "check('row by row, in order', v, np.concatenate([f.copy().reshape(-1) for f in fs]))\n"
                "at('base.unflatten_factors')\n"
                "gs = base.unflatten_factors(v, R, %s)\n"
                "check('number of modes', len(gs), %d)\n"
                "for g, f in zip(gs, fs):\n    check('round trip', g, f)\n" % (fs, tot, sz, n))
    return go


def back(n):
    def go(lab):
        from tk import expr as X
        R = lab.dims("R")
        ds = [lab.dims("d%d" % i) for i in range(n)]
        tot = X.ZERO
        for d in ds:
            tot = X.add(tot, X.mul(d, R))
        lab.tensor("v", tot)
        lab.run("import numpy as np\nfrom tenkit import base\nat('base.unflatten_factors')\n"
                "gs = base.unflatten_factors(v, R, [%s])\n" % ", ".join("d%d" % i for i in range(n)) +
                "off = 0\n" +
                "".join("check('entries', gs[%d], v[off:off + d%d*R].reshape(d%d, R)); off = off + d%d*R\n" % (i, i, i, i)
                        for i in range(n)) +
                "check('flattening inverts unflattening', base.flatten_factors(gs), v)")
    return go


def scenarios(tier):
    out = []
    for n in range(1, 6 if tier == "thorough" else 5):
        out.append(("%d modes, list" % n, one(n, "list")))
        out.append(("%d modes, views" % n, one(n, "list", True)))
        if n <= 3 or tier == "thorough":
            out.append(("%d modes, tuple" % n, one(n, "tuple")))
            out.append(("%d modes, from the vector" % n, back(n)))
    return out
