"""C02: Khatri-Rao and Kronecker products."""
RULE = """Abstract interpretation of base.khatri_rao, base.kron and the binary helpers with symbolic sizes: the
derived entry formula must be the mixed-radix product formula, for every number of factors and every skipped index."""
LET = "abcdefgh"


def kr(n, skip, same=()):
    def go(lab):
        R = lab.dims("R")
        ds = [lab.dims("d0") if i in same else lab.dims("d%d" % i) for i in range(n)]
        one = lab.tensor("U", ds[0], R)
        for i in range(n):
            if i in same:         # one array passed several times
                lab.define("U%d" % i, one)
                lab.define("d%d" % i, lab.it.val(ds[0], "i"))
            else:
                lab.tensor("U%d" % i, ds[i], R)
        keep = [i for i in range(n) if skip is None or i != skip % n]
        ein = ",".join(LET[i] + "r" for i in keep) + "->" + "".join(LET[i] for i in keep) + "r"
        want = "np.einsum('%s', %s).reshape((%s, R))" % (
            ein, ", ".join("U%d" % i for i in keep), "*".join("d%d" % i for i in keep))
        lab.run("import numpy as np\nfrom tenkit import base\nat('base.khatri_rao')\n"
                "check('entries', base.khatri_rao(%s%s), %s)" % (
                    ", ".join("U%d" % i for i in range(n)), "" if skip is None else ", skip=%d" % skip, want))
    return go


def kron(n):
    def go(lab):
        rs = [lab.dims("m%d" % i) for i in range(n)]
        cs = [lab.dims("n%d" % i) for i in range(n)]
        for i in range(n):
            lab.tensor("U%d" % i, rs[i], cs[i])
        up = "uvwxyzst"
        ein = ",".join(LET[i] + up[i] for i in range(n)) + "->" + LET[:n] + up[:n]
        lab.run("import numpy as np\nfrom tenkit import base\nat('base.kron')\n"
                "check('entries', base.kron(%s), np.einsum('%s', %s).reshape((%s, %s)))" % (
                    ", ".join("U%d" % i for i in range(n)), ein, ", ".join("U%d" % i for i in range(n)),
                    "*".join("m%d" % i for i in range(n)), "*".join("n%d" % i for i in range(n))))
    return go


def vec(lab):
    n, m = lab.dims("n", "m")
    lab.tensor("u", n)
    lab.tensor("v", m)
    lab.run("import numpy as np\nfrom tenkit import base\nat('base.kron_binary_vectors')\n"
            "check('entries', base.kron_binary_vectors(u, v), np.einsum('a,b->ab', u, v).reshape(n*m))")


def scenarios(tier):
    out = [("kron_binary_vectors", vec)]
    for n in range(1, 6 if tier == "thorough" else 5):
        out.append(("kron of %d" % n, kron(n)))
        out.append(("khatri_rao of %d" % n, kr(n, None)))
        if n > 1:
            for s in range(-n if tier == "thorough" else 0, n):
                out.append(("khatri_rao of %d skip %d" % (n, s), kr(n, s)))
    for n, s in ((5, 0), (5, 2), (5, 4), (6, 0), (6, 3), (6, None), (7, 0)):
        out.append(("khatri_rao of %d factors, skip %s" % (n, s), kr(n, s)))
    out.append(("kron of 5 factors", kron(5)))
    for s in (None, 0, 1, 2):
        out.append(("khatri_rao of 3 skip %s, an argument repeated" % s, kr(3, s, (0, 2))))
    return out
