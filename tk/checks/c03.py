"""C03: matricised tensor times Khatri-Rao product."""
RULE = """Abstract interpretation of base.matrix_khatri_rao_product with symbolic sizes, tensor and factor matrices,
for each order and mode; the derived sum must have the normal form of the defining sum."""


def one(n, mode, conv, same=()):
    def go(lab):
        R = lab.dims("R")
        ds = [lab.dims("d0") if i in same else lab.dims("d%d" % i) for i in range(n)]
        lab.tensor("X", *ds)
        one = lab.tensor("U", ds[0], R)
        for i in range(n):
            if i in same:         # these modes share one factor matrix object
                lab.define("U%d" % i, one)
            else:
                lab.tensor("U%d" % i, ds[i], R)
        L = "ijklmn"[:n]
        keep = [i for i in range(n) if i != mode]
        ein = L + "," + ",".join(L[i] + "r" for i in keep) + "->" + L[mode] + "r"
        lab.run("import numpy as np\nfrom tenkit import base\nat('base.matrix_khatri_rao_product')\n"
                "check('entries', base.matrix_khatri_rao_product(X, %s, %d), np.einsum('%s', X, %s))" % (
                    ("[%s]" if conv == "list" else "(%s,)") % ", ".join("U%d" % i for i in range(n)), mode, ein,
                    ", ".join("U%d" % i for i in keep)))
    return go


def bad(lab):
    I, J, R = lab.dims("I", "J", "R")
    lab.tensor("X", I, J)
    lab.tensor("U0", I, R)
    lab.run("from tenkit import base\nat('base.matrix_khatri_rao_product')\n"
            "try:\n    base.matrix_khatri_rao_product(X, [U0], 0)\n    ok = False\nexcept Exception:\n    ok = True\n"
            "check_true('a wrong number of factor matrices is rejected', ok)")


def scenarios(tier):
    out = [("wrong number of factor matrices", bad)]
    for n in range(2, 7 if tier == "thorough" else 6):
        for mode in range(n):
            out.append(("order %d mode %d" % (n, mode), one(n, mode, "list")))
            if tier == "thorough":
                out.append(("order %d mode %d, tuple" % (n, mode), one(n, mode, "tuple")))
            if n in (3, 4):
                same = (0, 2) if n == 3 else (0, 1, 3)
                out.append(("order %d mode %d, shared factor matrix" % (n, mode), one(n, mode, "list", same)))
    return out
