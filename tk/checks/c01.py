"""C01: unfold and fold."""
RULE = """Abstract interpretation of base.unfold / base.fold with symbolic mode lengths and a symbolic tensor, for each
order and each mode number (negative ones included): the derived index formula must be the documented one and the
two compositions must be the identity."""


def one(n, mode, via_list=False):
    def go(lab):
        dims = lab.dims(*["d%d" % i for i in range(n)]) if n > 1 else [lab.dims("d0")]
        lab.tensor("A", *dims)
        m = mode % n
        rest = [k for k in range(n) if k != m]
        lets = "ijklmn"[:n]
        prod = "*".join("d%d" % k for k in rest) or "1"
        lab.run("import numpy as np\nfrom tenkit import base\n")
        lab.run("at('base.unfold'); U = base.unfold(A, %d)\n"
                "check('rows are the mode', U, np.reshape(np.transpose(A, %r), (d%d, %s)))\n"
                "at('base.fold'); check('fold inverts unfold', base.fold(U, %d, A.shape), A)" % (
                    mode, tuple([m] + rest), m, prod, mode))
        # a matrix of the right size, folded
        from tk import expr as X
        cols = X.ONE_E
        for k in rest:
            cols = X.mul(cols, dims[k])
        lab.tensor("M", dims[m], cols)
        lab.run("at('base.fold'); T = base.fold(M, %d, %s)\n"
                "check('shape', T.shape, (%s,))\n"
                "check('unfold inverts fold', base.unfold(T, %d), M)" % (
                    mode, ("[%s]" if via_list else "(%s,)") % ", ".join("d%d" % i for i in range(n)),
                    ", ".join("d%d" % i for i in range(n)), mode))
    return go


def scenarios(tier):
    out = []
    for n in range(1 if tier == "thorough" else 2, 8 if tier == "thorough" else 6):
        for mode in range(-n, n):
            out.append(("order %d mode %d" % (n, mode), one(n, mode, via_list=mode % 2 == 1)))
    return out
