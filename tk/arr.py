"""Abstract arrays: symbolic shape and one canonical term for the generic entry."""
from fractions import Fraction as Fr
from . import expr as X
from .expr import (E, ZERO, ONE_E, const, add, mul, scale, subst, from_atom, axis_var,
                   eq0, ge0, gt0, esum, int_of, const_of, lift)


class ShapeError(Exception):
    pass


class Undecided(Exception):
    """The domain cannot express this operation."""


class Arr:
    __slots__ = ("shape", "body", "dtype")

    def __init__(self, shape, body, dtype="f"):
        self.shape = tuple(lift(s) for s in shape)
        self.body = lift(body)
        self.dtype = dtype

    @property
    def ndim(self):
        return len(self.shape)

    def vars(self):
        return [axis_var(k, s) for k, s in enumerate(self.shape)]

    def idx(self):
        return [ZERO if s is ONE_E else from_atom(axis_var(k, s)) for k, s in enumerate(self.shape)]

    def at(self, idx):
        mp = {}
        for k, s in enumerate(self.shape):
            v = axis_var(k, s)
            t = lift(idx[k])
            if from_atom(v) is not t:
                mp[v] = t
        return subst(self.body, mp) if mp else self.body

    def same(self, o):
        return self.shape == o.shape and self.body is o.body

    def size(self):
        n = ONE_E
        for s in self.shape:
            n = mul(n, s)
        return n

    def map(self, f, dtype=None):
        return Arr(self.shape, f(self.body), dtype or self.dtype)

    def __repr__(self):
        return "Arr%s %s: %s" % (list(self.shape), self.dtype, X.show(self.body, 400))


def make(shape, f, dtype="f"):
    shape = tuple(lift(s) for s in shape)
    idx = [ZERO if s is ONE_E else from_atom(axis_var(k, s)) for k, s in enumerate(shape)]
    return Arr(shape, f(*idx), dtype)


def scalar(e, dtype="f"):
    return Arr((), lift(e), dtype)


def same_dim(a, b):
    """True/False when decided; raises Undecided otherwise."""
    if a is b:
        return True
    d = add(a, scale(b, Fr(-1)))
    if not d.t:
        return True
    # a difference that is a nonzero polynomial of plain dimensions: distinct
    for m, _ in d.t:
        for at, _x in m:
            if at.kind not in ("dim", "fn"):
                raise Undecided("cannot compare sizes %s and %s" % (a, b))
    if any(at.kind == "fn" for m, _ in d.t for at, _x in m):
        if X.int_nonneg(add(d, const(-1))) or X.int_nonneg(add(scale(d, Fr(-1)), const(-1))):
            return False
        raise Undecided("cannot compare sizes %s and %s" % (a, b))
    return False


_RANK = {"b": 0, "i": 1, "f4": 2, "f": 3, "c": 4, "O": 9}


def promote(*ds):
    return max(ds, key=lambda d: _RANK.get(d, 5))


def broadcast_shapes(*shapes):
    n = max((len(s) for s in shapes), default=0)
    out = []
    for k in range(n):
        cur = ONE_E
        for s in shapes:
            j = k - (n - len(s))
            if j < 0:
                continue
            d = s[j]
            if d is ONE_E:
                continue
            if cur is ONE_E:
                cur = d
            elif not same_dim(cur, d):
                raise ShapeError("operands could not be broadcast together: %s" % (
                    " ".join(str(list(map(repr, t))) for t in shapes)))
        out.append(cur)
    return tuple(out)


def bcast_body(a, shape):
    """a's body in the axis variables of the broadcast result."""
    off = len(shape) - a.ndim
    if off == 0 and a.shape == shape:
        return a.body
    mp = {}
    for k, s in enumerate(a.shape):
        v = axis_var(k, s)
        if s is ONE_E:
            t = ZERO
        else:
            t = from_atom(axis_var(k + off, shape[k + off]))
        if from_atom(v) is not t:
            mp[v] = t
    return subst(a.body, mp)


def broadcast_to(a, shape):
    shape = tuple(lift(s) for s in shape)
    if len(shape) < a.ndim:
        raise ShapeError("cannot broadcast to fewer dimensions")
    off = len(shape) - a.ndim
    for k, s in enumerate(a.shape):
        if s is not ONE_E and not same_dim(s, shape[k + off]):
            raise ShapeError("could not broadcast input array from shape %s into shape %s" % (
                list(a.shape), list(shape)))
    return Arr(shape, bcast_body(a, shape), a.dtype)


def elementwise(f, *arrs, dtype=None):
    shape = broadcast_shapes(*[a.shape for a in arrs])
    body = f(*[bcast_body(a, shape) for a in arrs])
    return Arr(shape, body, dtype or promote(*[a.dtype for a in arrs]))


def linear_index(idx, shape):
    e = ZERO
    for i, s in zip(idx, shape):
        e = add(mul(e, s), lift(i))
    return e


def unravel(e, shape):
    """C-order multi-index of the linear index e."""
    out = []
    for k in range(len(shape)):
        inner = ONE_E
        for s in shape[k + 1:]:
            inner = mul(inner, s)
        q = X.floordiv(e, inner)
        if k > 0:
            q = X.modulo(q, shape[k])
        out.append(q)
    return out


def resolve_shape(a, shape):
    shape = [lift(s) for s in shape]
    holes = [k for k, s in enumerate(shape) if const_of(s) == -1]
    if len(holes) > 1:
        raise ShapeError("can only specify one unknown dimension")
    if holes:
        known = ONE_E
        for k, s in enumerate(shape):
            if k != holes[0]:
                known = mul(known, s)
        q = X.exact_div(a.size(), known)
        if q is None:
            ms = [at for m, _ in add(a.size(), known).t for at, _x in m]
            if any(at.kind != "dim" for at in ms):
                raise Undecided("reshape of %s into %s" % (list(a.shape), shape))
            raise ShapeError("cannot reshape array of size %s into shape %s" % (a.size(), shape))
        shape[holes[0]] = q
    tot = ONE_E
    for s in shape:
        tot = mul(tot, s)
    if not same_dim(tot, a.size()):
        raise ShapeError("cannot reshape array of size %s into shape %s" % (a.size(), shape))
    return tuple(shape)


def reshape(a, shape, order="C"):
    shape = resolve_shape(a, shape)
    if shape == a.shape:
        return a
    if order == "F":
        t = transpose(a, list(range(a.ndim))[::-1])
        r = reshape(t, shape[::-1])
        return transpose(r, list(range(len(shape)))[::-1])

    def f(*idx):
        # only the axes that changed take part in the linear index
        return a.at(_reshape_index(idx, shape, a.shape))
    return make(shape, f, a.dtype)


def _reshape_index(idx, new, old):
    """Old multi-index of a new one, working block by block so that unaffected
    axes keep their variable."""
    out = []
    i = j = 0
    while i < len(new) or j < len(old):
        ii, jj = i, j
        pn = new[ii] if ii < len(new) else ONE_E
        po = old[jj] if jj < len(old) else ONE_E
        ii, jj = ii + 1, jj + 1
        guard = 0
        while pn is not po:
            guard += 1
            if guard > 40:
                break
            grow_new = None
            if X.exact_div(po, pn) is not None and ii < len(new):
                grow_new = True
            elif X.exact_div(pn, po) is not None and jj < len(old):
                grow_new = False
            elif ii < len(new):
                grow_new = True
            elif jj < len(old):
                grow_new = False
            else:
                break
            if grow_new:
                pn = mul(pn, new[ii])
                ii += 1
            else:
                po = mul(po, old[jj])
                jj += 1
        lin = linear_index(idx[i:ii], new[i:ii])
        out.extend(unravel(lin, old[j:jj]))
        i, j = ii, jj
    return out


def transpose(a, perm):
    shape = tuple(a.shape[p] for p in perm)

    def f(*idx):
        src = [None] * a.ndim
        for k, p in enumerate(perm):
            src[p] = idx[k]
        return a.at(src)
    return make(shape, f, a.dtype)


def norm_axis(ax, n):
    if not isinstance(ax, int):
        raise Undecided("axis")
    if ax < -n or ax >= n:
        raise ShapeError("axis %d is out of bounds for array of dimension %d" % (ax, n))
    return ax % n


def moveaxis(a, src, dst):
    n = a.ndim
    src = [norm_axis(s, n) for s in (src if isinstance(src, (list, tuple)) else [src])]
    dst = [norm_axis(s, n) for s in (dst if isinstance(dst, (list, tuple)) else [dst])]
    order = [k for k in range(n) if k not in src]
    for d, s in sorted(zip(dst, src)):
        order.insert(d, s)
    return order


# --------------------------------------------------------------- indexing
# an index spec item: ("i", E) | ("s", start E, length E, step int) | ("n",)

def slice_bounds(sl, n):
    """(start, length, step) of a slice object of E/None over an axis of length n."""
    start, stop, step = sl
    st = 1
    if step is not None:
        st = int_of(lift(step))
        if st is None or st == 0:
            raise Undecided("slice step")

    def clip(e, lo, hi):
        e = lift(e)
        c = int_of(e)
        if X.int_nonneg(scale(e, Fr(-1)) - ONE_E if False else add(scale(e, Fr(-1)), const(-1))):
            e = add(e, n)
        elif not X.int_nonneg(e):
            raise Undecided("slice bound %s" % e)
        if X.int_nonneg(add(e, scale(hi, Fr(-1)))):
            return hi
        if not X.int_nonneg(add(hi, scale(e, Fr(-1)))):
            return X.imin(e, hi)
        if not X.int_nonneg(e):
            return X.imax(e, lo)
        return e
    if st > 0:
        a = ZERO if start is None else clip(start, ZERO, n)
        b = n if stop is None else clip(stop, ZERO, n)
        d = add(b, scale(a, Fr(-1)))
        if X.int_nonneg(scale(d, Fr(-1))):
            d = ZERO
        elif not X.int_nonneg(d):
            d = X.imax(d, ZERO)
        if st != 1:
            d = X.floordiv(add(d, const(st - 1)), const(st))
        return a, d, st
    if start is None and stop is None and st == -1:
        return add(n, const(-1)), n, -1
    if st == -1 and stop is None:
        a = clip(start, ZERO, n)
        return a, add(a, ONE_E), -1
    raise Undecided("negative slice step")


def basic_spec(items, shape):
    """Normalises a tuple of index items (E, slice triples, None, Ellipsis)."""
    n_used = sum(1 for it in items if it is not None and it is not Ellipsis)
    if n_used > len(shape):
        raise IndexError("too many indices for array: array is %d-dimensional, but %d were indexed"
                         % (len(shape), n_used))
    if not any(it is Ellipsis for it in items):
        items = list(items) + [Ellipsis]
    spec = []
    ax = 0
    for it in items:
        if it is Ellipsis:
            for _ in range(len(shape) - n_used):
                spec.append(("s", ZERO, shape[ax], 1))
                ax += 1
        elif it is None:
            spec.append(("n",))
        elif isinstance(it, tuple):
            a, d, st = slice_bounds(it, shape[ax])
            spec.append(("s", a, d, st))
            ax += 1
        else:
            e = lift(it)
            n = shape[ax]
            c = int_of(e)
            if c is not None and c < 0:
                e = add(e, n)
            elif X.int_nonneg(add(scale(e, Fr(-1)), const(-1))):
                e = add(e, n)
            if X.int_nonneg(add(e, scale(n, Fr(-1)))) or X.int_nonneg(add(scale(e, Fr(-1)), const(-1))):
                raise IndexError("index %s is out of bounds for axis %d with size %s" % (it, ax, n))
            spec.append(("i", e))
            ax += 1
    return tuple(spec)


def spec_get(a, spec):
    shape = []
    for s in spec:
        if s[0] == "s":
            shape.append(s[2])
        elif s[0] == "n":
            shape.append(ONE_E)

    def f(*idx):
        src = []
        k = 0
        for s in spec:
            if s[0] == "i":
                src.append(s[1])
            elif s[0] == "s":
                src.append(add(s[1], scale(idx[k], Fr(s[3]))))
                k += 1
            else:
                k += 1
        return a.at(src)
    return make(shape, f, a.dtype)


def not_all(conds):
    """1 - prod(conds) as a sum of disjoint positive products."""
    out = ZERO
    pre = ONE_E
    for c in conds:
        out = add(out, mul(pre, X.bnot(c)))
        pre = mul(pre, c)
    return out


def spec_put(a, spec, new):
    """a with the region of `spec` replaced by `new` (already of the region's shape)."""
    idx = a.idx()
    conds = []
    src = []
    ax = 0
    for s in spec:
        if s[0] == "n":
            src.append(ZERO)
            continue
        p = idx[ax]
        n = a.shape[ax]
        if s[0] == "i":
            conds.append(eq0(add(p, scale(s[1], Fr(-1)))))
        else:
            _, st, d, step = s
            if step == 1:
                if not (st is ZERO and d is n):
                    conds.append(ge0(add(p, scale(st, Fr(-1)))))
                    conds.append(ge0(add(add(add(st, d), scale(p, Fr(-1))), const(-1))))
                src.append(add(p, scale(st, Fr(-1))))
            elif step == -1:
                if d is not n:
                    conds.append(ge0(add(st, scale(p, Fr(-1)))))
                src.append(add(st, scale(p, Fr(-1))))
            else:
                q = add(p, scale(st, Fr(-1)))
                conds.append(ge0(q))
                conds.append(eq0(X.modulo(q, const(step))))
                src.append(X.floordiv(q, const(step)))
        ax += 1
    conds = [c for c in conds if c is not ONE_E]
    if any(c is ZERO for c in conds):
        return a
    # size-one result axes are indexed by zero
    k = 0
    src2 = []
    for e, s in zip(src, new.shape):
        src2.append(ZERO if s is ONE_E else e)
    val = new.at(src2)
    if not conds:
        body = val
    else:
        c = ONE_E
        for q in conds:
            c = mul(c, q)
        body = add(mul(c, val), mul(not_all(conds), a.body))
    return Arr(a.shape, body, a.dtype)


def concatenate(arrs, axis):
    n = arrs[0].ndim
    axis = norm_axis(axis, n)
    for a in arrs[1:]:
        if a.ndim != n:
            raise ShapeError("all the input array dimensions must match")
        for k in range(n):
            if k != axis and not same_dim(a.shape[k], arrs[0].shape[k]):
                raise ShapeError("all the input array dimensions except for the concatenation "
                                 "axis must match exactly: %s vs %s" % (list(arrs[0].shape), list(a.shape)))
    tot = ZERO
    for a in arrs:
        tot = add(tot, a.shape[axis])
    shape = list(arrs[0].shape)
    shape[axis] = tot
    dtype = promote(*[a.dtype for a in arrs])

    def f(*idx):
        p = idx[axis]
        out = ZERO
        off = ZERO
        for q, a in enumerate(arrs):
            c = ONE_E
            if q > 0:
                c = mul(c, ge0(add(p, scale(off, Fr(-1)))))
            off2 = add(off, a.shape[axis])
            if q < len(arrs) - 1:
                c = mul(c, ge0(add(add(off2, scale(p, Fr(-1))), const(-1))))
            src = list(idx)
            src[axis] = ZERO if a.shape[axis] is ONE_E else add(p, scale(off, Fr(-1)))
            out = add(out, mul(c, a.at(src)))
            off = off2
        return out
    if len(arrs) == 1:
        return arrs[0]
    return make(shape, f, dtype)


def stack(arrs, axis=0):
    n = arrs[0].ndim + 1
    axis = norm_axis(axis, n)
    parts = []
    for a in arrs:
        spec = [("s", ZERO, s, 1) for s in a.shape]
        spec.insert(axis, ("n",))
        parts.append(spec_get(a, tuple(spec)))
    return concatenate(parts, axis)


def reduce_sum(a, axes):
    body = a.body
    mp = {}
    for k in axes:
        v = X.fresh(a.shape[k])
        mp[axis_var(k, a.shape[k])] = from_atom(v) if a.shape[k] is not ONE_E else ZERO
    body = subst(body, mp)
    for k in axes:
        t = mp[axis_var(k, a.shape[k])]
        if t is ZERO:
            continue
        body = esum(t.t[0][0][0][0], body)
    # renumber the remaining axes
    rest = [k for k in range(a.ndim) if k not in axes]
    mp = {}
    for j, k in enumerate(rest):
        if j != k:
            mp[axis_var(k, a.shape[k])] = from_atom(axis_var(j, a.shape[k]))
    body = subst(body, mp)
    return Arr([a.shape[k] for k in rest], body, "i" if a.dtype == "b" else a.dtype)


def einsum(spec, *arrs):
    ins, out = spec.replace(" ", "").split("->") if "->" in spec else (spec.replace(" ", ""), None)
    ins = ins.split(",")
    if out is None:
        letters = "".join(ins)
        out = "".join(sorted(c for c in set(letters) if letters.count(c) == 1))
    if len(ins) != len(arrs):
        raise ShapeError("einsum operand count")
    dims = {}
    for s, a in zip(ins, arrs):
        if len(s) != a.ndim:
            raise ShapeError("einsum: operand %s has %d dimensions" % (s, a.ndim))
        for c, d in zip(s, a.shape):
            if c not in dims or dims[c] is ONE_E:
                dims[c] = d
            elif d is not ONE_E and not same_dim(dims[c], d):
                raise ShapeError("einsum: size mismatch for index %s: %s vs %s" % (c, dims[c], d))
    var = {}
    for c, d in dims.items():
        if c in out:
            var[c] = ZERO if d is ONE_E else from_atom(axis_var(out.index(c), d))
        else:
            var[c] = ZERO if d is ONE_E else from_atom(X.fresh(d))
    # bodies one by one, summing a contracted index as soon as no later operand has it
    body = ONE_E
    pend = [c for c in dims if c not in out and var[c] is not ZERO]
    for n, (s, a) in enumerate(zip(ins, arrs)):
        b = a.at([ZERO if a.shape[k] is ONE_E else var[c] for k, c in enumerate(s)])
        body = mul(body, b)
        for c in list(pend):
            if not any(c in t for t in ins[n + 1:]):
                if any(c in t for t in ins[:n + 1]):
                    body = esum(var[c].t[0][0][0][0], body)
                    pend.remove(c)
    return Arr([dims[c] for c in out], body, promote(*[a.dtype for a in arrs]))


def matmul(a, b):
    if a.ndim == 0 or b.ndim == 0:
        raise ShapeError("matmul: input operand does not have enough dimensions")
    if a.ndim == 1 and b.ndim == 1:
        return contract(a, b, "i", "i", "")
    if a.ndim == 2 and b.ndim == 2:
        return contract(a, b, "ij", "jk", "ik")
    if a.ndim == 1 and b.ndim == 2:
        return contract(a, b, "j", "jk", "k")
    if a.ndim == 2 and b.ndim == 1:
        return contract(a, b, "ij", "j", "i")
    # batched
    pa, pb = a, b
    if a.ndim == 1:
        r = contract_nd(a, b)
        return r
    if b.ndim == 1:
        letters = "abcdefgh"[: a.ndim - 1]
        return contract(a, b, letters + "z", "z", letters)
    n = max(a.ndim, b.ndim) - 2
    ba = a.shape[:-2]
    bb = b.shape[:-2]
    bs = broadcast_shapes(ba, bb)
    a2 = broadcast_to(a, tuple(bs) + a.shape[-2:])
    b2 = broadcast_to(b, tuple(bs) + b.shape[-2:])
    let = "abcdefgh"[:len(bs)]
    return contract(a2, b2, let + "xy", let + "yz", let + "xz")


def contract_nd(a, b):
    let = "abcdefgh"[: b.ndim - 2]
    return contract(a, b, "y", let + "yz", let + "z")


def contract(a, b, sa, sb, so):
    for c in set(sa) & set(sb):
        da, db = a.shape[sa.index(c)], b.shape[sb.index(c)]
        if not same_dim(da, db):
            raise ShapeError("matmul: shapes %s and %s not aligned" % (list(a.shape), list(b.shape)))
    return einsum("%s,%s->%s" % (sa, sb, so), a, b)


def reduce_mul(a, axis):
    n = int_of(a.shape[axis])
    if n is None:
        # product over a symbolic range: uninterpreted, value-numbered
        return None
    out = None
    spec0 = [("s", ZERO, s, 1) for s in a.shape]
    for i in range(n):
        spec = list(spec0)
        spec[axis] = ("i", const(i))
        s = spec_get(a, tuple(spec))
        out = s if out is None else Arr(s.shape, mul(out.body, s.body), s.dtype)
    if out is None:
        spec = [s for k, s in enumerate(a.shape) if k != axis]
        return Arr(spec, ONE_E, a.dtype)
    return out


# ------------------------------------------------ opaque (value-numbered) results

OPAQUE = {}
_opaque_n = [0]


def opaque_name(kind, *args):
    """A leaf name identifying `kind` applied to the given arrays/terms, plus the
    free variables those depend on (which become extra slots of the leaf)."""
    bound = set()
    frees = []
    key = [kind]
    bodies = []
    for a in args:
        if isinstance(a, Arr):
            bodies.append((a.shape, a.body, set(a.vars())))
        elif isinstance(a, E):
            bodies.append(((), a, set()))
        else:
            bodies.append((("const", a), None, set()))
    fv = []
    for sh, b, own in bodies:
        if b is None:
            continue
        for v in sorted(b.fv - own, key=lambda v: v.id):
            if v not in fv:
                fv.append(v)
    # order the free variables by a name-independent criterion where possible
    fv.sort(key=lambda v: (v.args[1].id, v.args[0].startswith("@"), v.id))
    mp = {v: from_atom(X.var_atom("f%d" % i, v.args[1])) for i, v in enumerate(fv)}
    for sh, b, own in bodies:
        key.append(tuple(s.id for s in sh) if b is not None else sh)
        if b is not None:
            key.append(X._rename_e(b, mp).id)
    key = tuple(key)
    nm = OPAQUE.get(key)
    if nm is None:
        nm = equal_opaque(kind, args, key, mp)
    if nm is None:
        _opaque_n[0] += 1
        nm = "%s#%d" % (kind, _opaque_n[0])
        OPAQUE[key] = nm
        OPAQUE[nm] = (kind, args)
        OPAQUE.setdefault(("of", kind), []).append((nm, key, args, mp))
    return nm, [from_atom(v) for v in fv]


ROOTS = {}


def root_leaves(e):
    """The input leaves a term depends on, through named arrays and opaque results."""
    out = set()
    for n in X.leaves_of(e):
        r = ROOTS.get(n)
        if r is None:
            d = LETS.get(n)
            if d is not None:
                r = root_leaves(d[1])
            else:
                o = None
                if "#" in n:
                    head, num = n.lstrip("?").split("#", 1)
                    base = {"svdU": "svd", "svdS": "svd", "svdV": "svd", "qrQ": "qr", "qrR": "qr"}.get(head, head)
                    o = OPAQUE.get("%s#%s" % (base, num.rstrip("r")))
                r = frozenset([n])
                if o is not None:
                    r = frozenset([base]).union(*[root_leaves(a.body if isinstance(a, Arr) else a)
                                                  for a in o[1] if isinstance(a, (Arr, E))])
            ROOTS[n] = r
        out |= r
    return frozenset(out)


def vanishes(diff, simplify=lambda e: e, limit=60, size=20000):
    """Whether a difference is zero, expanding named sub-arrays from the newest
    definition to the oldest and only as far as needed: (bool, what is left)."""
    for _ in range(limit):
        if diff is ZERO:
            return True, diff
        if diff.size > size:
            return False, diff
        names = [n for n in X.leaves_of(diff) if n in LETS]
        if not names:
            break
        names.sort(key=lambda n: -int(n.lstrip("?t")))
        diff = simplify(expand_one(diff, names[0]))
    if diff is not ZERO and X.staircase(diff) is ZERO:
        return True, ZERO
    return diff is ZERO, diff


EQUAL_FUEL = 20000
_VALUATION = []


def unlike(d):
    """Whether a difference is certainly not zero (it has a non-zero sample value)."""
    from . import sample
    if not _VALUATION:
        _VALUATION.append(sample.Valuation(5))
    v = _VALUATION[0]
    v.steps = 200000
    try:
        axes = sorted(d.fv, key=lambda x: x.id)
        env = {x: 0 for x in axes}
        for k in (0, 1):
            e = dict(env)
            for x in axes:
                e[x] = min(k, v.int_(x.args[1], env) - 1)
            if abs(v.ev(d, e)) > 1e-6:
                return True
    except (sample.NoValue, OverflowError, RecursionError, ZeroDivisionError):
        pass
    return False


def equal_opaque(kind, args, key, mp):
    """The name of an earlier result of the same operation on equal arguments that
    were merely built up differently."""
    def sig(a):
        return a.body if isinstance(a, Arr) else a if isinstance(a, E) else None
    mine = [sig(a) for a in args]
    if any(b is not None and b.unk for b in mine):
        return None
    roots = None
    for nm, key2, args2, mp2 in OPAQUE.get(("of", kind), ()):
        if len(args2) != len(args) or len(mp2) != len(mp):
            continue
        if any(isinstance(a, Arr) != isinstance(b, Arr) or
               isinstance(a, Arr) and (a.ndim != b.ndim or not all(map(same_dim, a.shape, b.shape)))
               for a, b in zip(args, args2)):
            continue
        if [v.args[1] for v in mp] != [v.args[1] for v in mp2]:
            continue
        if any(sig(b) is None and a != b for a, b in zip(args, args2)):
            continue
        if roots is None:
            roots = [b is not None and root_leaves(b) for b in mine]
        theirs = [sig(b) for b in args2]
        if [b is not None and root_leaves(b) for b in theirs] != roots:
            continue
        try:
            for a, b in zip(args, args2):
                if sig(a) is None or sig(a) is sig(b):
                    continue
                other = sig(b)
                if isinstance(b, Arr):
                    other = b.at(a.idx())
                d = X.add(X._rename_e(sig(a), mp), X.scale(X._rename_e(other, mp2), -1))
                if unlike(d):
                    break
                with X.fuel(EQUAL_FUEL):
                    if not vanishes(d, limit=25, size=4000)[0]:
                        break
            else:
                OPAQUE[key] = nm
                return nm
        except X.TooBig:
            continue
    return None


# ---------------------------------------------------------------- let-binding

LETS = {}
_let_n = [0]


def let_bind(a, hint="t"):
    """Names an array's content; equal contents get equal names."""
    own = a.vars()
    fv = sorted(a.body.fv - set(own), key=lambda v: v.id)
    key = ("let", tuple(s.id for s in a.shape), a.body.id)
    nm = LETS.get(key)
    if nm is None:
        nm = equal_let(a, fv, key)
    if nm is None:
        _let_n[0] += 1
        nm = "%s%d" % (hint, _let_n[0])
        LETS[key] = nm
        params = list(own) + list(fv)
        LETS[nm] = (params, a.body)
        if a.body.unk:
            nm2 = "?" + nm
            LETS[nm2] = LETS[nm]
            LETS[key] = nm2
            nm = nm2
        if X.nonneg(a.body):
            X.leaf_info(nm, nonneg=True)
        if not a.body.unk and not fv:
            LETS.setdefault(("shape",) + key[1], []).append((nm, a))
    return Arr(a.shape, X.leaf(nm, *(a.idx() + [from_atom(v) for v in fv])), a.dtype)


BLANK = {}


def blank(e):
    """Does the term mention memory that was allocated without values?"""
    for n in X.leaves_of(e):
        if n.startswith("!uninit"):
            return True
        if n in LETS:
            r = BLANK.get(n)
            if r is None:
                r = BLANK[n] = blank(LETS[n][1])
            if r:
                return True
    return False


def filled(a):
    """An array allocated without values, all of whose entries have been written along an axis of known length,
    by its entries."""
    if not any(1 <= (const_of(s) or 0) <= 6 for s in a.shape) or not blank(a.body):
        return a
    seen = set()

    def names(e):
        for n in X.leaves_of(e):
            if n not in seen:
                seen.add(n)
                if n in LETS:
                    names(LETS[n][1])
    names(a.body)
    try:
        with X.fuel(EQUAL_FUEL):
            body = expand_touching(a.body, {n for n in seen if n.startswith("!uninit")})
    except X.TooBig:
        return a
    for v, s in zip(a.vars(), a.shape):
        n = const_of(s)
        if n is None or not 1 <= n <= 6:
            continue
        parts = [subst(body, {v: const(i)}) for i in range(int(n))]
        if any(m.startswith("!uninit") for p in parts for m in X.leaves_of(p)):
            continue
        tot = ZERO
        for i, p in enumerate(parts):
            tot = X.add(tot, mul(eq0(add(from_atom(v), const(-i))), p) if n > 1 else p)
        return Arr(a.shape, tot, a.dtype)
    return a


def equal_let(a, fv, key):
    """The name of an array of equal content that was merely built up differently."""
    if fv or a.body.unk:
        return None
    mine = None
    for nm, b in LETS.get(("shape",) + key[1], ()):
        if mine is None:
            mine = root_leaves(a.body)
        if root_leaves(b.body) != mine:
            continue
        try:
            d = X.add(a.body, X.scale(b.at(a.idx()), -1))
            if unlike(d):
                continue
            with X.fuel(EQUAL_FUEL):
                if vanishes(d, limit=6, size=2500)[0]:
                    LETS[key] = nm
                    return nm
        except X.TooBig:
            continue
    return None


def expand_lets(e, depth=50):
    def f(nm, slots):
        d = LETS.get(nm)
        if d is None:
            return None
        params, body = d
        return expand_lets(subst(body, {p: s for p, s in zip(params, slots)}), depth - 1)
    if not any(n in LETS for n in X.leaves_of(e)):
        return e
    return X.replace_leaves(e, f)


def expand_one(e, name):
    """Replaces one named array by its definition."""
    params, body = LETS[name]

    def f(nm, slots):
        if nm != name:
            return None
        return subst(body, {p: s for p, s in zip(params, slots)})
    return X.replace_leaves(e, f)


def expand_touching(e, names):
    """Expands only the named arrays whose definitions mention one of `names`."""
    memo = {}

    def touches(nm):
        r = memo.get(nm)
        if r is None:
            memo[nm] = False
            r = memo[nm] = any(x in names or x in LETS and touches(x) for x in X.leaves_of(LETS[nm][1]))
        return r

    def go(e):
        if not any(n in LETS and touches(n) for n in X.leaves_of(e)):
            return e

        def f(nm, slots):
            if nm not in LETS or not touches(nm):
                return None
            params, body = LETS[nm]
            return go(subst(body, {p: s for p, s in zip(params, slots)}))
        return X.replace_leaves(e, f)
    return go(e)
