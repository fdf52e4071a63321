"""Canonical terms: the value domain of the abstract interpreter.

An `E` is a polynomial with rational coefficients and rational exponents over
*atoms*: array entries (leaves), dimensions, index variables, indicators of
conditions, uninterpreted functions, sums over index ranges and powers of
multi-term bases.  Terms are interned, and the constructors keep them in a
normal form, so that two equal terms are (nearly always) the same object.
Nothing here looks at, or runs, the analysed program.
"""
from fractions import Fraction as Fr
from functools import lru_cache
import itertools
import math

ONE = Fr(1)


class TooBig(Exception):
    """A term outgrew the analysis' budget; the value becomes unknown."""


LIMIT_TERMS = 3000


class Atom:
    __slots__ = ("id", "kind", "args", "fv", "depth", "unk", "size")
    table = {}
    count = itertools.count()

    def __repr__(self):
        return show_atom(self)

    def __lt__(self, other):
        return self.id < other.id


def _atom(kind, args, fv=frozenset(), depth=0, unk=False, size=1):
    k = (kind, args)
    a = Atom.table.get(k)
    if a is None:
        a = Atom()
        a.id = next(Atom.count)
        a.kind, a.args, a.fv, a.depth, a.unk, a.size = kind, args, fv, depth, unk, size
        Atom.table[k] = a
    return a


class E:
    """Interned sum of monomials.  `t` is a tuple of (mono, coef); a mono is a
    tuple of (atom, exponent) sorted by atom id."""
    __slots__ = ("t", "fv", "depth", "unk", "size", "id", "_sub")
    table = {}
    count = itertools.count()

    def __repr__(self):
        return show(self)

    def __add__(self, o):
        return add(self, lift(o))

    __radd__ = __add__

    def __neg__(self):
        return scale(self, Fr(-1))

    def __sub__(self, o):
        return add(self, scale(lift(o), Fr(-1)))

    def __rsub__(self, o):
        return add(lift(o), scale(self, Fr(-1)))

    def __mul__(self, o):
        return mul(self, lift(o))

    __rmul__ = __mul__

    def __truediv__(self, o):
        return mul(self, power(lift(o), Fr(-1)))

    def __rtruediv__(self, o):
        return mul(lift(o), power(self, Fr(-1)))

    def __pow__(self, p):
        return power(self, Fr(p))


FUEL = [None]


class fuel:
    """Bounds the work done inside a with-block (TooBig when it runs out)."""

    def __init__(self, n):
        self.n = n

    def __enter__(self):
        self.outer = FUEL[0]
        self.start = self.n if self.outer is None else min(self.n, self.outer)
        FUEL[0] = self.start

    def __exit__(self, *_):
        FUEL[0] = None if self.outer is None else self.outer - (self.start - FUEL[0])
        return False


def _mk(d):
    """d: dict mono -> coef.  Interns."""
    if FUEL[0] is not None:
        FUEL[0] -= 1
        if FUEL[0] < 0:
            raise TooBig("out of fuel")
    items = tuple(sorted(((m, c) for m, c in d.items() if c != 0),
                         key=_term_key))
    e = E.table.get(items)
    if e is None:
        if len(items) > LIMIT_TERMS:
            raise TooBig("%d terms" % len(items))
        e = E()
        e.t = items
        fv = frozenset()
        depth = 0
        unk = False
        size = 0
        for m, _ in items:
            for a, _x in m:
                fv |= a.fv
                if a.depth > depth:
                    depth = a.depth
                unk = unk or a.unk
                size += a.size
        e.fv, e.depth, e.unk, e.size = fv, depth, unk, size
        e.id = next(E.count)
        e._sub = {}
        E.table[items] = e
    return e


def _term_key(mc):
    return tuple((a.id, x) for a, x in mc[0])


def const(c):
    if isinstance(c, bool):
        c = int(c)
    if isinstance(c, float):
        c = frac(c)
    c = Fr(c)
    return _mk({(): c} if c else {})


def frac(x):
    """The rational a float literal stands for."""
    if isinstance(x, int):
        return Fr(x)
    f = Fr(x).limit_denominator(1000)
    if f != 0 and abs(float(f) - x) <= 4e-16 * abs(x):
        return f
    return Fr(repr(x)) if math.isfinite(x) else None


def lift(x):
    if isinstance(x, E):
        return x
    return const(x)


ZERO = _mk({})
ONE_E = const(1)


def from_atom(a, x=ONE):
    return _mk({((a, x),): ONE})


def is_const(e):
    return len(e.t) == 0 or (len(e.t) == 1 and e.t[0][0] == ())


def const_of(e):
    """The rational value of a constant term, else None."""
    if len(e.t) == 0:
        return Fr(0)
    if len(e.t) == 1 and e.t[0][0] == ():
        return e.t[0][1]
    return None


def int_of(e):
    c = const_of(e)
    if c is not None and c.denominator == 1:
        return int(c)
    return None


# ---------------------------------------------------------------- atoms

def dim(name, lb=1):
    return from_atom(_atom("dim", (name, lb)))


_var_count = itertools.count()


def var_atom(name, rng):
    a = Atom.table.get(("var", (name, rng)))
    if a is None:
        a = _atom("var", (name, rng), frozenset(), 0, False)
        a.fv = frozenset([a]) | rng.fv
        a.fv = frozenset([a])
    return a


def fresh(rng, hint="v"):
    return var_atom("%s%d" % (hint, next(_var_count)), rng)


def axis_var(k, rng):
    return var_atom("@%d" % k, rng)


# attributes of leaf names
LEAF = {}


def leaf_info(name, **kw):
    LEAF.setdefault(name, {}).update(kw)


def leaf(name, *slots):
    slots = tuple(lift(s) for s in slots)
    fv = frozenset()
    depth = 0
    unk = name.startswith("?")
    size = 1
    for s in slots:
        fv |= s.fv
        depth = max(depth, s.depth)
        unk = unk or s.unk
        if s.size > 1:
            size += s.size
    return from_atom(_atom("leaf", (name, slots), fv, depth, unk, size))


_unk = itertools.count()


def unknown(reason="", *slots):
    return leaf("?%d:%s" % (next(_unk), reason), *slots)


def _fn_atom(name, args):
    fv = frozenset()
    depth = 0
    unk = False
    size = 1
    for s in args:
        fv |= s.fv
        depth = max(depth, s.depth)
        unk = unk or s.unk
        size += s.size
    return _atom("fn", (name, args), fv, depth, unk, size)


def raw_fn(name, *args):
    return from_atom(_fn_atom(name, tuple(lift(a) for a in args)))


def _ind_atom(rel, e):
    return _atom("ind", (rel, e), e.fv, e.depth, e.unk, e.size + 1)


def _par_atom(e):
    return _atom("par", (e,), e.fv, e.depth, e.unk, e.size)


# ------------------------------------------------------------ arithmetic

def scale(e, c):
    if c == 1:
        return e
    if c == 0:
        return ZERO
    return _mk({m: k * c for m, k in e.t})


@lru_cache(maxsize=200000)
def add(a, b):
    if not a.t:
        return b
    if not b.t:
        return a
    d = dict(a.t)
    for m, c in b.t:
        d[m] = d.get(m, 0) + c
    return _finish(_mk(d))


def total(es):
    d = {}
    for e in es:
        for m, c in e.t:
            d[m] = d.get(m, 0) + c
    return _finish(_mk(d))


@lru_cache(maxsize=200000)
def mul(a, b):
    if not a.t or not b.t:
        return ZERO
    ca, cb = const_of(a), const_of(b)
    if ca is not None:
        return scale(b, ca)
    if cb is not None:
        return scale(a, cb)
    if len(a.t) * len(b.t) > LIMIT_TERMS * 4:
        raise TooBig("product of %d and %d terms" % (len(a.t), len(b.t)))
    # x * x^-1 for a multi-term x
    q = _cancel_par(a, b)
    if q is not None:
        return q
    d = {}
    for ma, ka in a.t:
        for mb, kb in b.t:
            r = _mul_mono(ma, mb)
            if isinstance(r, tuple):
                d[r] = d.get(r, 0) + ka * kb
            else:
                for m, c in r.t:
                    d[m] = d.get(m, 0) + c * ka * kb
    return _finish(_mk(d))


def _cancel_par(a, b):
    for x, y in ((a, b), (b, a)):
        if len(x.t) > 1 and len(y.t) == 1:
            m, c = y.t[0]
            for at, ex in m:
                if at.kind == "par" and ex <= -1:
                    base = at.args[0]
                    r = _ratio(x, base)
                    if r is not None:
                        rest = tuple((p, q) for p, q in m if p is not at)
                        out = mul(_mk({rest: c}), r)
                        if ex + 1 != 0:
                            out = mul(out, _mk({((at, ex + 1),): ONE}))
                        return out
    return None


def _ratio(x, base):
    """x / base when x is (monomial) * base, else None."""
    if len(x.t) != len(base.t):
        return None
    for i in range(len(base.t)):
        m0, c0 = x.t[0]
        mb, cb = base.t[i]
        q = dict(m0)
        for a, e in mb:
            q[a] = q.get(a, 0) - e
        qm = tuple(sorted(((a, e) for a, e in q.items() if e != 0), key=lambda p: p[0].id))
        if any(a.kind in ("ind", "par") for a, _ in qm):
            continue
        mono = _mk({qm: c0 / cb})
        d = {}
        ok = True
        for m, c in base.t:
            r = _mul_mono(m, qm)
            if not isinstance(r, tuple):
                ok = False
                break
            d[r] = c * c0 / cb
        if ok and _mk(d) is x:
            return mono
    return None


def _mul_mono(ma, mb):
    """Product of two monomials: a mono tuple, or an E when it needed rewriting."""
    if not ma:
        return mb
    if not mb:
        return ma
    d = dict(ma)
    for a, x in mb:
        d[a] = d.get(a, 0) + x
    return _norm_mono(d)


def _norm_mono(d):
    extra = []
    changed = False
    inds = None
    for a in list(d):
        x = d[a]
        if x == 0:
            del d[a]
            continue
        k = a.kind
        if k == "ind":
            if x != 1:
                d[a] = ONE
            if inds is None:
                inds = []
            inds.append(a)
        elif k == "par":
            if x >= 1:
                n = x.numerator // x.denominator
                extra.append(power(a.args[0], Fr(n)))
                x = x - n
                if x == 0:
                    del d[a]
                else:
                    d[a] = x
                changed = True
        elif k == "fn":
            nm = a.args[0]
            if nm == "abs" and x.denominator == 1 and (x >= 2 or x <= -2):
                n = (int(x) // 2) * 2 if x > 0 else -((int(-x) // 2) * 2)
                extra.append(power(a.args[1][0], Fr(n)))
                x = x - n
                if x == 0:
                    del d[a]
                else:
                    d[a] = x
                changed = True
            elif nm == "sign":
                if x.denominator == 1 and x > 2:
                    d[a] = Fr(2) if x % 2 == 0 else ONE
                other = Atom.table.get(("fn", ("abs", a.args[1])))
                if other is not None and d.get(other, 0) == 1 and d.get(a) == 1:
                    del d[a]
                    del d[other]
                    extra.append(a.args[1][0])
                    changed = True
                    # restart with the reduced product
                    break
    if inds:
        r = _ind_rules(d, inds)
        if r is not None:
            out = r
            for e in extra:
                out = mul(out, e)
            return out
    m = tuple(sorted(d.items(), key=lambda p: p[0].id))
    if changed:
        out = _mk({m: ONE})
        for e in extra:
            out = mul(out, e)
        return out
    return m


def _ind_rules(d, inds):
    """Rewrites for products with indicators; None if nothing applies."""
    for a in inds:
        if a not in d:
            continue
        rel, e = a.args
        if rel == "eq":
            # [x = 0] * x = 0 for a single atom x
            if len(e.t) == 1 and len(e.t[0][0]) == 1:
                at = e.t[0][0][0][0]
                if d.get(at, 0) > 0:
                    return ZERO
            # [x = 0] * sign(x) = 0, [x = 0] * abs(x) = 0
            for b, x in d.items():
                if b.kind == "fn" and x > 0 and b.args[0] in ("sign", "abs"):
                    y = b.args[1][0]
                    if _prim(y) is _prim(e) or _sgn_norm(y) is _sgn_norm(e):
                        return ZERO
            v, t = _solve_eq(e)
            if v is not None:
                rest = {b: x for b, x in d.items() if b is not a}
                if any(v in b.fv for b in rest):
                    out = _mk({((a, ONE),): ONE})
                    sub = {v: t}
                    prod = ONE_E
                    for b, x in rest.items():
                        prod = mul(prod, power(subst_atom(b, sub), x))
                    # v is gone from prod, so this terminates
                    return mul(out, prod)
        elif rel == "ge":
            comp = Atom.table.get(("ind", ("ge", add(scale(e, Fr(-1)), const(-1)))))
            if comp is not None and comp in d and is_int(e):
                return ZERO
            # implied conditions
            for b in inds:
                if b is a or b not in d:
                    continue
                if b.args[0] == "ge":
                    df = add(b.args[1], scale(e, Fr(-1)))
                    c = const_of(df)
                    if c is not None and c >= 0:
                        rest = {p: q for p, q in d.items() if p is not b}
                        r = _norm_mono(rest)
                        return r if isinstance(r, E) else _mk({r: ONE})
                    if is_int(e):
                        sm = const_of(add(b.args[1], e))
                        if sm is not None and sm < 0:
                            return ZERO
                elif b.args[0] == "eq":
                    df = const_of(add(b.args[1], scale(e, Fr(-1))))
                    if df is None:
                        df2 = const_of(add(b.args[1], e))
                        df = -df2 if df2 is not None else None
                        if df is not None:
                            df = -df
                            # b: x=0 with x = -e + df2 => e = df2
                            ev = df2
                        else:
                            ev = None
                    else:
                        ev = -df   # x = e + df = 0 => e = -df
                    if ev is not None:
                        if ev < 0:
                            return ZERO
                        rest = {p: q for p, q in d.items() if p is not a}
                        r = _norm_mono(rest)
                        return r if isinstance(r, E) else _mk({r: ONE})
        elif rel == "gt":
            # x*[x > 0] = x for x >= 0
            if len(e.t) == 1 and len(e.t[0][0]) == 1 and e.t[0][1] > 0:
                at = e.t[0][0][0][0]
                if d.get(at, 0) > 0 and at.kind == "leaf" and at.args[0].startswith("svdS#"):
                    rest = {p: q for p, q in d.items() if p is not a}
                    r = _norm_mono(rest)
                    return r if isinstance(r, E) else _mk({r: ONE})
            comp = Atom.table.get(("ind", ("gt", scale(e, Fr(-1)))))
            if comp is not None and comp in d:
                return ZERO
            if len(e.t) == 1:
                eqa = Atom.table.get(("ind", ("eq", _prim(e))))
                if eqa is not None and eqa in d:
                    return ZERO
    # contradictory equalities  [x=c][x=c'] = 0
    eqs = [a for a in inds if a in d and a.args[0] == "eq"]
    for i in range(len(eqs)):
        for j in range(i):
            c = const_of(add(eqs[i].args[1], scale(eqs[j].args[1], Fr(-1))))
            if c is not None and c != 0:
                return ZERO
            c = const_of(add(eqs[i].args[1], eqs[j].args[1]))
            if c is not None and c != 0:
                return ZERO
    return None


def _solve_eq(e):
    """For an integer equation e = 0, an index variable v and term t with v = t."""
    cands = []
    for m, c in e.t:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "var" and abs(c) == 1:
            cands.append((m[0][0], c))
    if not cands:
        return None, None
    cands.sort(key=lambda p: (p[0].args[0].startswith('@'), -p[0].id))
    for v, c in cands:
        rest = add(e, scale(from_atom(v), -c))
        if v in rest.fv:
            continue
        return v, scale(rest, -1 / c)
    return None, None


def _finish(e):
    """Merges complementary indicator terms and cancels negative powers of sums."""
    if len(e.t) < 2:
        return e
    has_ge = has_par = has_fd = False
    for m, _ in e.t:
        for a, x in m:
            k = a.kind
            if k == "ind" and a.args[0] == "ge":
                has_ge = True
            elif k == "par" and x <= -1:
                has_par = True
            elif k == "fn" and (a.args[0] == "floordiv" or a.args[0] == "mod" and _mod_of_div(a)):
                has_fd = True
    if has_fd:
        e = _reduce_div(e)
    if has_ge:
        e = _merge_complements(e)
    if has_par:
        e = _reduce_par(e)
    return e


def _merge_complements(e):
    if len(e.t) > 200:
        return e
    d = dict(e.t)
    again = True
    while again:
        again = False
        for m in list(d):
            if m not in d:
                continue
            for a, x in m:
                if a.kind != "ind" or a.args[0] != "ge" or not is_int(a.args[1]):
                    continue
                comp = Atom.table.get(("ind", ("ge", add(scale(a.args[1], Fr(-1)), const(-1)))))
                if comp is None:
                    continue
                rest = [(b, y) for b, y in m if b is not a]
                m2 = tuple(sorted(rest + [(comp, ONE)], key=lambda p: p[0].id))
                if m2 in d:
                    c = d[m2]
                    # keep c*(rest), leave the difference on the first
                    diff = d[m] - c
                    del d[m2]
                    del d[m]
                    r = tuple(rest)
                    d[r] = d.get(r, 0) + c
                    if diff:
                        d[m] = diff
                    again = True
                    break
            if again:
                break
    return _mk(d)


def _mod_of_div(a):
    n = a.args[1][0]
    if len(n.t) == 1 and n.t[0][1] == 1 and len(n.t[0][0]) == 1 and n.t[0][0][0][1] == 1:
        at = n.t[0][0][0][0]
        if at.kind == "fn" and at.args[0] == "floordiv":
            return at
    return None


def _reduce_mod(e):
    """a*((v // a) mod b) + v mod a = v mod (a*b)."""
    for m, c in e.t:
        for at, x in m:
            if at.kind != "fn" or at.args[0] != "mod" or x != 1 or c.denominator != 1:
                continue
            fd = _mod_of_div(at)
            if fd is None:
                continue
            v, a = fd.args[1]
            k = exact_div(_mk({tuple(p for p in m if p[0] is not at): c}), a)
            if k is None or len(k.t) != 1:
                continue
            want = mul(k, modulo(v, a))
            d = dict(e.t)
            if not all(d.get(mm) == cc for mm, cc in want.t):
                continue
            rest = {mm: cc for mm, cc in e.t if mm != m and mm not in dict(want.t)}
            return add(_mk(rest), mul(k, modulo(v, mul(a, at.args[1][1]))))
    return None


def _reduce_div(e):
    """x - b*(x // b) = x mod b  and  b*(x // b) + x mod b = x."""
    r = _reduce_mod(e)
    if r is not None:
        return r
    for m, c in e.t:
        fd = None
        for a, x in m:
            if a.kind == "fn" and a.args[0] == "floordiv":
                fd = a if x == 1 and fd is None else False
        if not fd or c.denominator != 1:
            continue
        num, den = fd.args[1]
        co = tuple(p for p in m if p[0] is not fd)
        for k in {c, Fr(1 if c > 0 else -1)}:
            b = _mk({co: c / k})
            if b is ONE_E:
                continue
            inner_den = exact_div(den, b)
            if inner_den is None:
                continue
            inner = floordiv(num, inner_den)
            d = dict(e.t)
            if k < 0:
                want = scale(inner, -k)
                if all(mm in d and d[mm] == cc for mm, cc in want.t):
                    rest = {mm: cc for mm, cc in e.t if mm != m}
                    for mm, cc in want.t:
                        if mm not in rest:
                            break
                        rest.pop(mm)
                    else:
                        return add(_mk(rest), scale(modulo(inner, b), -k))
            else:
                md = modulo(inner, b)
                want = scale(md, k)
                if len(want.t) == 1 and all(mm in d and d[mm] == cc for mm, cc in want.t):
                    rest = {mm: cc for mm, cc in e.t if mm != m and mm not in dict(want.t)}
                    return add(_mk(rest), scale(inner, k))
    return e


def _reduce_par(e):
    """Terms N * P^-n with N a multiple of the multi-term base P."""
    if len(e.t) > 60:
        return e
    groups = {}
    for m, c in e.t:
        for a, x in m:
            if a.kind == "par" and x <= -1 and x.denominator == 1:
                groups.setdefault((a, x), []).append((m, c))
    for (a, x), terms in groups.items():
        base = a.args[0]
        if len(terms) < len(base.t):
            continue
        num = _mk({tuple(p for p in m if p[0] is not a): c for m, c in terms})
        q, rem = _polydiv(num, base)
        if q is None or not q.t:
            continue
        if len(rem.t) < len(num.t):
            rest = _mk({m: c for m, c in e.t if (a, x) not in m})
            pa = _mk({((a, x),): ONE})
            lifted = q if x == -1 else mul(q, _mk({((a, x + 1),): ONE}))
            out = add(rest, lifted)
            return add(out, mul(rem, pa)) if rem.t else out
    return e


def _polydiv(num, base):
    """Division by the leading term of `base` (by atom order)."""
    lead_m, lead_c = base.t[-1]
    ld = dict(lead_m)
    q = ZERO
    rem = num
    for _ in range(40):
        hit = None
        for m, c in rem.t:
            md = dict(m)
            if all(md.get(a, 0) >= x for a, x in ld.items()) and all(
                    a.kind != "ind" for a in ld):
                hit = (m, c)
                break
        if hit is None:
            break
        md = dict(hit[0])
        for a, x in ld.items():
            md[a] = md[a] - x
            if md[a] == 0:
                del md[a]
        t = _mk({tuple(sorted(md.items(), key=lambda p: p[0].id)): hit[1] / lead_c})
        new = _raw_add(rem, scale(_raw_mul(t, base), Fr(-1)))
        if len(new.t) >= len(rem.t) + 1:
            return None, num
        q = _raw_add(q, t)
        rem = new
        if not rem.t:
            break
    return q, rem


def _raw_add(a, b):
    d = dict(a.t)
    for m, c in b.t:
        d[m] = d.get(m, 0) + c
    return _mk(d)


def _raw_mul(a, b):
    d = {}
    for ma, ka in a.t:
        for mb, kb in b.t:
            r = _mul_mono(ma, mb)
            if isinstance(r, tuple):
                d[r] = d.get(r, 0) + ka * kb
            else:
                for m, c in r.t:
                    d[m] = d.get(m, 0) + c * ka * kb
    return _mk(d)


def _iroot(n, k):
    if n < 0:
        return None
    r = round(n ** (1.0 / k)) if n < 2 ** 52 else int(round(math.exp(math.log(n) / k)))
    for c in (r - 1, r, r + 1):
        if c >= 0 and c ** k == n:
            return c
    return None


def _const_pow(c, p):
    """c**p as E, for rational c and p."""
    if p.denominator == 1:
        if c == 0 and p < 0:
            return unknown("division by zero")
        return const(c ** int(p))
    if c == 0:
        return ZERO if p > 0 else unknown("division by zero")
    if c < 0:
        return unknown("root of negative")
    n, d = _iroot(c.numerator, p.denominator), _iroot(c.denominator, p.denominator)
    if n is not None and d is not None:
        return const(Fr(n, d) ** p.numerator)
    return _mk({((_par_atom(const(c)), p),): ONE})


@lru_cache(maxsize=50000)
def power(e, p):
    if p == 1:
        return e
    if p == 0:
        return ONE_E
    if not e.t:
        return ZERO if p > 0 else unknown("division by zero")
    if len(e.t) == 1:
        m, c = e.t[0]
        neg = False
        if c < 0 and p.denominator != 1:
            # move a sign inside: only a monomial with a non-positive part could
            return _mk({((_par_atom(e), p),): ONE})
        out = _const_pow(c, p)
        if p.denominator == 1:
            d = {}
            for a, x in m:
                d[a] = x * p
            r = _norm_mono(d)
            return mul(out, r if isinstance(r, E) else _mk({r: ONE}))
        for a, x in m:
            if a.kind == "par" and x.denominator != 1 or nonneg_atom(a):
                out = mul(out, power_atom(a, x * p))
            elif x.denominator == 1 and x % 2 == 0:
                ab = absval(from_atom(a))
                out = mul(out, power(ab, x * p) if len(ab.t) == 1 and ab is not from_atom(a)
                          else power_atom_abs(a, x * p))
            else:
                out = mul(out, power_atom(a, x * p))
        return out
    if p.denominator == 1 and p > 0:
        n = int(p)
        if len(e.t) ** n > LIMIT_TERMS * 4:
            raise TooBig("power")
        out = e
        for _ in range(n - 1):
            out = mul(out, e)
        return out
    # primitive part of a multi-term base
    cont, mono = _content(e, p)
    base = e
    out = ONE_E
    if cont != 1:
        base = scale(base, 1 / cont)
        out = mul(out, _const_pow(cont, p))
    if mono:
        base = mul(base, _mk({tuple((a, -x) for a, x in mono): ONE}))
        for a, x in mono:
            out = mul(out, power_atom(a, x * p))
    if len(base.t) < 2:
        return mul(out, power(base, p))
    return mul(out, _mk({((_par_atom(base), p),): ONE}))


def power_atom(a, x):
    r = _norm_mono({a: x})
    return r if isinstance(r, E) else _mk({r: ONE})


def power_atom_abs(a, x):
    return power_atom(_fn_atom("abs", (from_atom(a),)), x)


def _content(e, p):
    nums = [abs(c.numerator) for _, c in e.t]
    dens = [c.denominator for _, c in e.t]
    g = 0
    for n in nums:
        g = math.gcd(g, n)
    l = 1
    for d in dens:
        l = l * d // math.gcd(l, d)
    cont = Fr(g, l)
    if p.denominator == 1:
        if e.t[0][1] < 0:
            cont = -cont
    common = None
    for m, _ in e.t:
        md = {a: x for a, x in m if x > 0 and a.kind != "ind" and a.kind != "par"}
        if p.denominator != 1:
            md = {a: x for a, x in md.items() if nonneg_atom(a)}
        if common is None:
            common = md
        else:
            common = {a: min(x, md[a]) for a, x in common.items() if a in md}
        if not common:
            break
    mono = tuple(sorted((common or {}).items(), key=lambda q: q[0].id))
    return cont, mono


def _prim(e):
    """e up to a nonzero rational factor (leading coefficient one)."""
    if not e.t:
        return e
    return scale(e, 1 / e.t[0][1])


# ---------------------------------------------------------- judgements

def is_int(e):
    for m, c in e.t:
        if c.denominator != 1:
            return False
        for a, x in m:
            if x.denominator != 1 or x < 0 or not int_atom(a):
                return False
    return True


def int_atom(a):
    if a.kind in ("dim", "var", "ind"):
        return True
    if a.kind == "leaf":
        return bool(LEAF.get(a.args[0], {}).get("int"))
    if a.kind == "fn":
        if a.args[0] in ("floordiv", "mod", "int", "argmin", "argmax", "count"):
            return True
        if a.args[0] in ("min", "max", "abs"):
            return all(is_int(x) for x in a.args[1])
        if a.args[0] == "sign":
            return True
    if a.kind == "sum":
        return all(int_atom(b) and x.denominator == 1 and x > 0 for b, x in a.args[1])
    return False


def nonneg_atom(a):
    k = a.kind
    if k in ("dim", "var", "ind"):
        return True
    if k == "leaf":
        return bool(LEAF.get(a.args[0], {}).get("nonneg"))
    if k == "fn":
        if a.args[0] in ("abs", "mod", "exp", "sqrt", "norm"):
            return True
        if a.args[0] in ("floordiv", "min", "max"):
            return all(nonneg(x) for x in a.args[1])
    if k == "sum":
        return all((x.denominator == 1 and x % 2 == 0) or nonneg_atom(b) for b, x in a.args[1])
    if k == "par":
        return nonneg(a.args[0])
    return False


def nonneg(e):
    """Sufficient condition for e >= 0 everywhere."""
    for m, c in e.t:
        if c < 0:
            break
        for a, x in m:
            if a.kind == "par" and x.denominator % 2 == 0:
                continue
            if x.denominator == 1 and x % 2 == 0:
                continue
            if not nonneg_atom(a):
                break
        else:
            continue
        break
    else:
        return True
    if is_int(e):
        return int_nonneg(e)
    return _square_form(e)


def _square_form(e):
    """|a - b|/max(a, b) = 1 - min(a, b)/max(a, b) where a, b >= 0."""
    for m, c in e.t:
        if c < 0 and not any(a.kind == "fn" and a.args[0] == "max" and x < 0 for a, x in m):
            return False
    for i, (m, c) in enumerate(e.t):
        for mx, x in m:
            if mx.kind != "fn" or mx.args[0] != "max" or x > -1 or len(mx.args[1]) != 2:
                continue
            p, q = mx.args[1]
            if not (nonneg(p) and nonneg(q)):
                continue
            d = add(p, scale(q, Fr(-1)))
            for ab, y in m:
                if ab.kind == "fn" and ab.args[0] == "abs" and y >= 1 and ab.args[1][0] in (d, scale(d, Fr(-1))):
                    rest = _mk({mm: cc for j, (mm, cc) in enumerate(e.t) if j != i})
                    mono = scale(ONE_E, c)
                    for at, z in m:
                        z = z - 1 if at is ab else z + 1 if at is mx else z
                        if z:
                            mono = mul(mono, power(from_atom(at), z))
                    less = mul(mul(mono, fn("min", p, q)), power(from_atom(mx), Fr(-1)))
                    return nonneg(add(rest, add(mono, scale(less, Fr(-1)))))
    return False


def positive(e):
    if is_int(e):
        return int_nonneg(add(e, const(-1)))
    return False


@lru_cache(maxsize=100000)
def int_nonneg(e):
    """True if the integer term e is >= 0 for all values of its dimensions and
    index variables (dimensions at least their lower bound)."""
    return _int_nonneg(e, 0)


def _bounds(a):
    """(lower E or None, upper E or None) of an integer atom."""
    if a.kind == "var":
        return ZERO, add(a.args[1], const(-1))
    if a.kind == "ind":
        return ZERO, ONE_E
    if a.kind == "fn":
        nm, args = a.args
        if nm == "mod":
            return ZERO, add(args[1], const(-1))
        if nm == "floordiv":
            # (v ...)//b with numerator bounded by q*b
            hi = upper(args[0])
            if hi is not None:
                q = exact_div(add(hi, ONE_E), args[1])
                if q is not None:
                    return ZERO, add(q, const(-1))
            return (ZERO if nonneg(args[0]) else None), None
        if nm == "min":
            return None, args[0]
        if nm == "max":
            return args[0], None
        if nm == "abs":
            return ZERO, None
    return None, None


def upper(e):
    """An upper bound of e without index variables, or None."""
    out = e
    for _ in range(10):
        todo = [a for m, _ in out.t for a, x in m
                if a.kind == "var" or (a.kind == "fn" and a.args[0] in ("mod", "floordiv"))]
        if not todo:
            return out
        a = todo[0]
        co, rest = linear(out, a)
        if co is None:
            return None
        lo, hi = _bounds(a)
        if lo is None or hi is None:
            return None
        if _int_nonneg(co, 1):
            out = add(rest, mul(co, hi))
        elif _int_nonneg(scale(co, Fr(-1)), 1):
            out = add(rest, mul(co, lo))
        else:
            return None
    return None


def linear(e, a):
    """(coefficient, rest) with e = coefficient*a + rest, if e is linear in a."""
    co, rest = {}, {}
    for m, c in e.t:
        hit = None
        for b, x in m:
            if b is a:
                hit = x
            elif b.kind != "dim" and b.kind != "var" and a in b.fv:
                return None, None
        if hit is None:
            rest[m] = c
        elif hit == 1:
            co[tuple(p for p in m if p[0] is not a)] = c
        else:
            return None, None
    return _mk(co), _mk(rest)


def _int_nonneg(e, depth):
    c = const_of(e)
    if c is not None:
        return c >= 0
    if depth > 12:
        return False
    atoms = []
    for m, _ in e.t:
        for a, x in m:
            if a.kind != "dim" and a not in atoms:
                atoms.append(a)
    # largest nesting first, so that bounds in terms of other variables work
    atoms.sort(key=lambda a: (-len(a.fv), -a.id))
    if not atoms:
        # all coefficients non-negative after d = d' + lb
        sub = {}
        d = e
        dims = {a for m, _ in e.t for a, x in m}
        for a in dims:
            lb = a.args[1]
            d = _shift_dim(d, a, lb)
        return all(k >= 0 for _, k in d.t)
    for a in atoms:
        co, rest = linear(e, a)
        if co is None:
            continue
        lo, hi = _bounds(a)
        if lo is not None and _int_nonneg(co, depth + 1):
            if _int_nonneg(add(rest, mul(co, lo)), depth + 1):
                return True
        if hi is not None and _int_nonneg(scale(co, Fr(-1)), depth + 1):
            if _int_nonneg(add(rest, mul(co, hi)), depth + 1):
                return True
        if a.kind == "fn" and a.args[0] == "min" and _int_nonneg(co, depth + 1):
            # min >= 0 case by case
            if all(_int_nonneg(add(rest, mul(co, x)), depth + 1) for x in a.args[1]):
                return True
        if a.kind == "fn" and a.args[0] == "max" and _int_nonneg(scale(co, Fr(-1)), depth + 1):
            if all(_int_nonneg(add(rest, mul(co, x)), depth + 1) for x in a.args[1]):
                return True
        if a.kind == "fn" and a.args[0] == "min" and _int_nonneg(scale(co, Fr(-1)), depth + 1):
            if any(_int_nonneg(add(rest, mul(co, x)), depth + 1) for x in a.args[1]):
                return True
        if a.kind == "fn" and a.args[0] == "max" and _int_nonneg(co, depth + 1):
            if any(_int_nonneg(add(rest, mul(co, x)), depth + 1) for x in a.args[1]):
                return True
    return False


def _shift_dim(e, a, lb):
    out = ZERO
    base = add(from_atom(a), const(lb))
    for m, c in e.t:
        t = const(c)
        for b, x in m:
            t = _raw_mul(t, _pw(base, int(x)) if b is a else _mk({((b, x),): ONE}))
        out = _raw_add(out, t)
    return out


def _pw(e, n):
    out = ONE_E
    for _ in range(n):
        out = _raw_mul(out, e)
    return out


def exact_div(a, b):
    """a / b as a polynomial, or None."""
    if not a.t:
        return ZERO
    c = const_of(b)
    if c is not None:
        if c == 0:
            return None
        r = scale(a, 1 / c)
        return r if all(k.denominator == 1 for _, k in r.t) else None
    if len(b.t) == 1:
        m, k = b.t[0]
        out = {}
        for ma, ka in a.t:
            d = dict(ma)
            for at, x in m:
                if d.get(at, 0) < x:
                    return None
                d[at] -= x
                if d[at] == 0:
                    del d[at]
            if (ka / k).denominator != 1:
                return None
            out[tuple(sorted(d.items(), key=lambda p: p[0].id))] = ka / k
        return _mk(out)
    q, rem = _polydiv(a, b)
    if q is not None and not rem.t:
        return q
    return None


def _split_div(a, b):
    """a = q*b + r taking the monomials divisible by b."""
    q, r = {}, {}
    c = const_of(b)
    if c is not None:
        for m, k in a.t:
            if k.denominator == 1:
                n = k.numerator // int(c) if m != () else k.numerator // int(c)
                if m == ():
                    q[m] = Fr(n)
                    r[m] = k - n * c
                else:
                    n = int(k / c) if (k / c).denominator == 1 else 0
                    if n:
                        q[m] = Fr(n)
                    else:
                        r[m] = k
            else:
                r[m] = k
        return _mk(q), _mk(r)
    if len(b.t) == 1:
        mb, kb = b.t[0]
        for m, k in a.t:
            d = dict(m)
            ok = (k / kb).denominator == 1
            for at, x in mb:
                if d.get(at, 0) < x:
                    ok = False
                    break
                d[at] -= x
                if d[at] == 0:
                    del d[at]
            if ok:
                q[tuple(sorted(d.items(), key=lambda p: p[0].id))] = k / kb
            else:
                r[m] = k
        return _mk(q), _mk(r)
    qq, rem = _polydiv(a, b)
    if qq is None:
        return ZERO, a
    return qq, rem


def _coarser(r, b):
    """(m, q, rest, b/m) with r = q*m + rest, 0 <= rest < m and m dividing b."""
    if len(b.t) != 1 or int_of(b) is not None or not r.t:
        return None
    mb, kb = b.t[0]
    for at, x in mb:
        if x != 1 or len(mb) == 1 and kb == 1:
            continue
        m = from_atom(at)
        q, rest = _split_div(r, m)
        if q.t and int_nonneg(rest) and int_nonneg(add(add(m, scale(rest, Fr(-1))), const(-1))):
            return m, q, rest, exact_div(b, m)
    return None


@lru_cache(maxsize=50000)
def floordiv(a, b):
    if b is ONE_E:
        return a
    ca, cb = int_of(a), int_of(b)
    if ca is not None and cb:
        return const(ca // cb)
    q, r = _split_div(a, b)
    if int_nonneg(r) and int_nonneg(add(add(b, scale(r, Fr(-1))), const(-1))):
        return q
    # ((x % b*c) // b) and nested floordivs
    if len(r.t) == 1 and r.t[0][1] == 1 and len(r.t[0][0]) == 1 and r.t[0][0][0][1] == 1:
        at = r.t[0][0][0][0]
        if at.kind == "fn" and at.args[0] == "floordiv":
            return add(q, floordiv(at.args[1][0], mul(at.args[1][1], b)))
    c = _coarser(r, b)
    if c is not None:
        return add(q, floordiv(c[1], c[3]))
    return add(q, from_atom(_fn_atom("floordiv", (r, b))))


@lru_cache(maxsize=50000)
def modulo(a, b):
    if b is ONE_E:
        return ZERO
    ca, cb = int_of(a), int_of(b)
    if ca is not None and cb:
        return const(ca % cb)
    q, r = _split_div(a, b)
    if int_nonneg(r) and int_nonneg(add(add(b, scale(r, Fr(-1))), const(-1))):
        return r
    c = _coarser(r, b)
    if c is not None:
        return add(mul(modulo(c[1], c[3]), c[0]), c[2])
    return from_atom(_fn_atom("mod", (r, b)))


def imin(*es):
    es = [lift(e) for e in es]
    out = []
    for e in es:
        if any(int_nonneg(add(e, scale(o, Fr(-1)))) for o in out):
            continue
        out = [o for o in out if not int_nonneg(add(o, scale(e, Fr(-1))))]
        out.append(e)
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda e: e.id)
    return from_atom(_fn_atom("min", tuple(out)))


def imax(*es):
    es = [lift(e) for e in es]
    out = []
    for e in es:
        if any(int_nonneg(add(o, scale(e, Fr(-1)))) for o in out):
            continue
        out = [o for o in out if not int_nonneg(add(e, scale(o, Fr(-1))))]
        out.append(e)
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda e: e.id)
    return from_atom(_fn_atom("max", tuple(out)))


# -------------------------------------------------- functions and conditions

def absval(e):
    c = const_of(e)
    if c is not None:
        return const(abs(c))
    if nonneg(e):
        return e
    if nonneg(scale(e, Fr(-1))):
        return scale(e, Fr(-1))
    if len(e.t) == 1:
        m, c = e.t[0]
        out = const(abs(c))
        for a, x in m:
            if nonneg_atom(a) or (x.denominator == 1 and x % 2 == 0) or x.denominator % 2 == 0:
                out = mul(out, power_atom(a, x))
            elif x.denominator == 1:
                out = mul(out, power_atom(_fn_atom("abs", (from_atom(a),)), x))
            else:
                return raw_fn("abs", e)
        return out
    common = None
    for m, _ in e.t:
        md = {a: x for a, x in m if nonneg_atom(a) and a.kind != "ind"}
        common = md if common is None else {a: x for a, x in common.items() if md.get(a) == x}
        if not common:
            break
    if common and len(e.t) > 1:
        out = ONE_E
        for a, x in common.items():
            out = mul(out, power_atom(a, x))
        return mul(out, absval(_mk({tuple((a, x) for a, x in m if a not in common): c for m, c in e.t})))
    s = _sgn_norm(e)
    if len(s.t) > 1 and all(m for m, _ in s.t):
        k = abs(_content(s, Fr(1))[0])
        if k != 1:
            return scale(raw_fn("abs", scale(s, 1/k)), k)
    return raw_fn("abs", s)


def _sgn_norm(e):
    if e.t and e.t[0][1] < 0:
        return scale(e, Fr(-1))
    return e


def sign(e):
    c = const_of(e)
    if c is not None:
        return const((c > 0) - (c < 0))
    if len(e.t) == 1:
        # what cannot be negative or zero does not matter
        m, c = e.t[0]
        keep = [(a, x) for a, x in m if not (x < 0 and (nonneg_atom(a) or x.denominator == 1 and x % 2 == 0))]
        if len(keep) < len(m) and keep:
            return sign(_mk({tuple(keep): c}))
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "fn" and m[0][0].args[0] == "sign":
            return scale(from_atom(m[0][0]), (c > 0) - (c < 0))
    s = _sgn_norm(e)
    k = ONE_E if s is e else const(-1)
    # positive rational content does not matter
    s = scale(s, 1 / abs(s.t[0][1]))
    return mul(k, raw_fn("sign", s))


def clean_cond(e):
    """Drops strictly positive rational factors of a real condition argument."""
    if not e.t:
        return e
    return scale(e, 1 / abs(e.t[0][1]))


def ge0(e):
    """Indicator of e >= 0 (as E)."""
    c = const_of(e)
    if c is not None:
        return ONE_E if c >= 0 else ZERO
    if is_int(e):
        if int_nonneg(e):
            return ONE_E
        if int_nonneg(add(scale(e, Fr(-1)), const(-1))):
            return ZERO
        g = 0
        for m, k in e.t:
            if m != ():
                g = math.gcd(g, int(k))
        if g > 1:
            d = {}
            for m, k in e.t:
                d[m] = Fr(int(k) // g)
            e = _mk(d)
        return from_atom(_ind_atom("ge", e))
    if nonneg(e):
        return ONE_E
    # real: e >= 0  <=>  not (-e > 0)
    return add(ONE_E, scale(gt0(scale(e, Fr(-1))), Fr(-1)))


def gt0(e):
    c = const_of(e)
    if c is not None:
        return ONE_E if c > 0 else ZERO
    if is_int(e):
        return ge0(add(e, const(-1)))
    if nonneg(scale(e, Fr(-1))):
        return ZERO
    c0 = dict(e.t).get((), 0)
    if c0 > 0 and nonneg(add(e, const(-c0))):
        return ONE_E
    if nonneg(e):
        # e > 0 iff e != 0
        return add(ONE_E, scale(eq0(e), Fr(-1)))
    return from_atom(_ind_atom("gt", clean_cond(e)))


def eq0(e):
    c = const_of(e)
    if c is not None:
        return ONE_E if c == 0 else ZERO
    if is_int(e):
        if int_nonneg(add(e, const(-1))) or int_nonneg(add(scale(e, Fr(-1)), const(-1))):
            return ZERO
        if len(e.t) == 2:
            # ind - 1 = 0, handled by the caller for indicator terms
            pass
        b = boolean_form(e)
        if b is not None:
            return b
        if len(e.t) == 1 and len(e.t[0][0]) == 1 and e.t[0][0][0][0].kind == "fn" and e.t[0][0][0][0].args[0] == "sign":
            return eq0(e.t[0][0][0][0].args[1][0])
        return from_atom(_ind_atom("eq", _sgn_norm(e)))
    c0 = dict(e.t).get((), 0)
    if c0 and nonneg(add(scale(e, Fr(1) if c0 > 0 else Fr(-1)), const(-abs(c0)))):
        return ZERO
    # a single product is zero iff one of its atoms is
    if len(e.t) == 1:
        m, _ = e.t[0]
        out = ONE_E
        for a, x in m:
            if x > 0:
                if a.kind == "fn" and a.args[0] in ("abs", "sign"):
                    z = eq0(a.args[1][0])
                elif a.kind == "leaf" and a.args[0].startswith("svdS#"):
                    # singular values are not negative; [s > 0]/s stays one guarded term
                    z = add(ONE_E, scale(from_atom(_ind_atom("gt", from_atom(a))), Fr(-1)))
                else:
                    z = from_atom(_ind_atom("eq", from_atom(a)))
                out = mul(out, add(ONE_E, scale(z, Fr(-1))))
        return add(ONE_E, scale(out, Fr(-1)))
    return from_atom(_ind_atom("eq", _prim(e)))


def boolean_form(e):
    """For a term that only takes a few values through indicators: [e = 0]."""
    atoms = []
    for m, _ in e.t:
        for a, x in m:
            if a.kind != "ind":
                return None
            if a not in atoms:
                atoms.append(a)
    if len(atoms) > 5:
        return None
    out = ZERO
    for bits in itertools.product((0, 1), repeat=len(atoms)):
        val = Fr(0)
        for m, c in e.t:
            k = c
            for a, x in m:
                if not bits[atoms.index(a)]:
                    k = Fr(0)
            val += k
        if val == 0:
            p = ONE_E
            for a, b in zip(atoms, bits):
                ia = from_atom(a)
                p = mul(p, ia if b else _not_ind(a))
            out = add(out, p)
    return out


def _not_ind(a):
    rel, e = a.args
    if rel == "ge" and is_int(e):
        return from_atom(_ind_atom("ge", add(scale(e, Fr(-1)), const(-1))))
    return add(ONE_E, scale(from_atom(a), Fr(-1)))


def bnot(b):
    if len(b.t) == 1 and b.t[0][1] == 1 and len(b.t[0][0]) == 1:
        a = b.t[0][0][0][0]
        if a.kind == "ind":
            return _not_ind(a)
    return add(ONE_E, scale(b, Fr(-1)))


def fn(name, *args):
    args = tuple(lift(a) for a in args)
    if name == "abs":
        return absval(args[0])
    if name == "sign":
        return sign(args[0])
    if name == "sqrt":
        return power(args[0], Fr(1, 2))
    if name == "floordiv":
        return floordiv(*args)
    if name == "mod":
        return modulo(*args)
    if name in ("min", "max") and all(is_int(a) for a in args):
        return imin(*args) if name == "min" else imax(*args)
    if name in ("min", "max"):
        flat = []
        for a in args:
            if a not in flat:
                flat.append(a)
        if len(flat) == 1:
            return flat[0]
        cs = [const_of(a) for a in flat]
        if all(c is not None for c in cs):
            return const(min(cs) if name == "min" else max(cs))
        if len(flat) == 2:
            d = add(flat[0], scale(flat[1], Fr(-1)))
            if nonneg(d):
                return flat[1] if name == "min" else flat[0]
            if nonneg(scale(d, Fr(-1))):
                return flat[0] if name == "min" else flat[1]
        flat.sort(key=lambda e: e.id)
        return from_atom(_fn_atom(name, tuple(flat)))
    if name == "int" and is_int(args[0]):
        return args[0]
    return from_atom(_fn_atom(name, args))


# ------------------------------------------------------------ substitution

def subst(e, mapping):
    """Simultaneous substitution of index variables (Var atom -> E)."""
    if not e.fv:
        return e
    rel = {v: t for v, t in mapping.items() if v in e.fv}
    if not rel:
        return e
    key = tuple(sorted(((v.id, t.id) for v, t in rel.items())))
    r = e._sub.get(key)
    if r is not None:
        return r
    acc = []
    for m, c in e.t:
        keep = []
        prod = None
        for a, x in m:
            if a.fv.isdisjoint(rel):
                keep.append((a, x))
        base = _mk({tuple(keep): c})
        for a, x in m:
            if not a.fv.isdisjoint(rel):
                base = mul(base, power(subst_atom(a, rel), x))
        acc.append(base)
    r = total(acc)
    if len(e._sub) > 200:
        e._sub.clear()
    e._sub[key] = r
    return r


def subst_atom(a, mapping):
    if a.fv.isdisjoint(mapping):
        return from_atom(a)
    k = a.kind
    if k == "var":
        return mapping[a]
    if k == "leaf":
        name, slots = a.args
        return rebuild_leaf(name, tuple(subst(s, mapping) for s in slots))
    if k == "fn":
        name, args = a.args
        return fn(name, *[subst(s, mapping) for s in args])
    if k == "ind":
        rel, e = a.args
        t = subst(e, mapping)
        return {"ge": ge0, "gt": gt0, "eq": eq0}[rel](t)
    if k == "par":
        return subst(a.args[0], mapping)
    if k == "sum":
        vs, m = open_sum(a)
        body = ONE_E
        mp = {v: t for v, t in mapping.items() if v in a.fv}
        for i, v in enumerate(vs):
            if not v.args[1].fv.isdisjoint(mp):
                n = fresh(subst(v.args[1], mp))
                mp[v] = from_atom(n)
                vs[i] = n
        for b, x in m:
            body = mul(body, power(subst_atom(b, mp), x))
        out = body
        for v in vs:
            out = esum(v, out)
        return out
    raise AssertionError(k)


# leaves whose definition allows simplification at special indices
LEAF_HOOK = {}


def rebuild_leaf(name, slots):
    h = LEAF_HOOK.get(name)
    if h is not None:
        r = h(slots)
        if r is not None:
            return r
    return leaf(name, *slots)


# ------------------------------------------------------------------- sums

def open_sum(a):
    """Fresh bound variables and the mono of a sum atom."""
    vs, m = a.args
    new = [fresh(v.args[1]) for v in vs]
    mp = {v: from_atom(n) for v, n in zip(vs, new)}
    prod = ONE_E
    for b, x in m:
        prod = mul(prod, _rename_power(b, mp, x))
    # renaming a canonical mono gives back a single mono
    if len(prod.t) == 1 and prod.t[0][1] == 1:
        return new, prod.t[0][0]
    return new, tuple(_open_general(m, mp))


def _open_general(m, mp):
    out = {}
    for b, x in m:
        r = _rename(b, mp)
        out[r] = out.get(r, 0) + x
    return sorted(out.items(), key=lambda p: p[0].id)


def _rename_power(b, mp, x):
    r = _rename(b, mp)
    return _mk({((r, x),): ONE})


def _rename(b, mp):
    """Renaming of variables keeps the shape of an atom (no simplification)."""
    if b.fv.isdisjoint(mp):
        return b
    k = b.kind
    if k == "var":
        return mp[b].t[0][0][0][0]
    if k == "leaf":
        nm, slots = b.args
        return leaf(nm, *[_rename_e(s, mp) for s in slots]).t[0][0][0][0]
    if k == "fn":
        return _fn_atom(b.args[0], tuple(_rename_e(s, mp) for s in b.args[1]))
    if k == "ind":
        e = _rename_e(b.args[1], mp)
        if b.args[0] == "eq":
            e = _sgn_norm(e) if is_int(e) else _prim(e)
        return _ind_atom(b.args[0], e)
    if k == "par":
        return _par_atom(_rename_e(b.args[0], mp))
    if k == "sum":
        vs, m = b.args
        return _sum_atom(vs, [(_rename(c, mp), x) for c, x in m])
    raise AssertionError(k)


def _rename_e(e, mp):
    if e.fv.isdisjoint(mp):
        return e
    d = {}
    for m, c in e.t:
        md = {}
        for a, x in m:
            r = _rename(a, mp)
            md[r] = md.get(r, 0) + x
        mm = tuple(sorted(md.items(), key=lambda p: p[0].id))
        d[mm] = d.get(mm, 0) + c
    return _mk(d)


UNROLL = 8


@lru_cache(maxsize=100000)
def esum(v, e):
    """Sum of e over the index variable v, 0 <= v < range(v)."""
    rng = v.args[1]
    if v not in e.fv:
        return mul(e, rng)
    n = int_of(rng)
    if n is not None and n <= UNROLL:
        return total([subst(e, {v: const(i)}) for i in range(n)])
    acc = []
    for m, c in e.t:
        acc.append(_sum_mono(v, m, c))
    return total(acc)


def _sum_mono(v, m, c):
    rng = v.args[1]
    dep = [(a, x) for a, x in m if v in a.fv]
    ind = [(a, x) for a, x in m if v not in a.fv]
    out = _mk({tuple(ind): c})
    if not dep:
        return mul(out, rng)
    # delta elimination and range conditions
    for a, x in dep:
        if a.kind == "ind" and a.args[0] == "eq" and is_int(a.args[1]):
            co, rest = linear(a.args[1], v)
            if co is not None and const_of(co) in (1, -1):
                t = scale(rest, -1 / const_of(co))
                body = ONE_E
                for b, y in dep:
                    if b is not a:
                        body = mul(body, power(subst_atom(b, {v: t}), y))
                guard = mul(ge0(t), ge0(add(add(rng, scale(t, Fr(-1))), const(-1))))
                return mul(mul(out, guard), body)
    lows, highs, others = [], [], []
    for a, x in dep:
        if a.kind == "ind" and a.args[0] == "ge" and is_int(a.args[1]):
            co, rest = linear(a.args[1], v)
            if co is not None and const_of(co) == 1:
                lows.append(scale(rest, Fr(-1)))      # v >= -rest
                continue
            if co is not None and const_of(co) == -1:
                highs.append(add(rest, ONE_E))        # v < rest + 1
                continue
        others.append((a, x))
    if lows or highs:
        lo = imax(ZERO, *lows)
        hi = imin(rng, *highs)
        size = add(hi, scale(lo, Fr(-1)))
        guard = ONE_E
        if not int_nonneg(size):
            if int_nonneg(scale(size, Fr(-1))):
                return ZERO
            guard = ge0(size)
            size2 = imax(size, ZERO)
        else:
            size2 = size
        if size2 is ZERO:
            return ZERO
        w = fresh(size2)
        body = ONE_E
        mp = {v: add(from_atom(w), lo)}
        for b, y in others:
            body = mul(body, power(subst_atom(b, mp), y))
        return mul(mul(out, guard), esum(w, body)) if guard is not ONE_E else mul(out, esum(w, body))
    # mixed-radix split of v
    d = _split_candidate(v, [a for a, _ in dep])
    if d is not None:
        q = exact_div(rng, d)
        if q is not None and q is not ONE_E and d is not rng:
            v1, v2 = fresh(q), fresh(d)
            t = add(mul(from_atom(v1), d), from_atom(v2))
            body = ONE_E
            for b, y in dep:
                body = mul(body, power(subst_atom(b, {v: t}), y))
            return mul(out, esum(v1, esum(v2, body)))
    # open nested sums that depend on v
    vs = [v]
    factors = {}
    redo = None
    for a, x in dep:
        if a.kind == "sum" and x.denominator == 1 and x > 0:
            for _ in range(int(x)):
                ws, mm = open_sum(a)
                vs.extend(ws)
                for b, y in mm:
                    factors[b] = factors.get(b, 0) + y
        else:
            factors[a] = factors.get(a, 0) + x
    r = _norm_mono(dict(factors))
    if not isinstance(r, tuple):
        body = r
        for w in vs:
            body = esum(w, body)
        return mul(out, body)
    return mul(out, _make_sum(vs, list(r)))


def _split_candidate(v, atoms):
    """A divisor d for which floordiv/mod of v by d occurs, smallest first."""
    found = []

    def walk_e(e):
        if v not in e.fv:
            return
        for m, _ in e.t:
            for a, _x in m:
                walk(a)

    def walk(a):
        if v not in a.fv:
            return
        if a.kind == "leaf":
            for s in a.args[1]:
                walk_e(s)
        elif a.kind == "fn":
            if a.args[0] in ("floordiv", "mod"):
                num, den = a.args[1]
                if num is from_atom(v):
                    if den not in found:
                        found.append(den)
                    return
            for s in a.args[1]:
                walk_e(s)
        elif a.kind in ("ind",):
            walk_e(a.args[1])
        elif a.kind == "par":
            walk_e(a.args[0])
        elif a.kind == "sum":
            for b, _ in a.args[1]:
                walk(b)

    for a in atoms:
        walk(a)
    if not found:
        return None
    found.sort(key=lambda e: (sum(x for m, _ in e.t for _, x in m), e.id))
    return found[0]


def _orth_rule(vs, factors):
    """Sum over i of Q[i,r]*Q[i,s] = [r = s] for a leaf with orthonormal columns."""
    for v in vs:
        fs = [(a, x) for a, x in factors if v in a.fv]
        if sum(x for _, x in fs) != 2 or any(x <= 0 or x.denominator != 1 for _, x in fs):
            continue
        if any(a.kind != "leaf" for a, _ in fs):
            continue
        names = {a.args[0] for a, _ in fs}
        if len(names) != 1:
            continue
        info = LEAF.get(next(iter(names)), {})
        axes = info.get("orth")
        if axes is None:
            continue
        pair = []
        for a, x in fs:
            pair.extend([a] * int(x))
        s1, s2 = pair[0].args[1], pair[1].args[1]
        other = None
        for ax in axes:                       # one of the two axes 0 and 1; both for a square matrix
            if s1[ax] is not from_atom(v) or s2[ax] is not from_atom(v) or axes[ax] is not v.args[1]:
                continue
            if v in s1[1 - ax].fv or v in s2[1 - ax].fv:
                continue
            if any(x is not y or v in x.fv for x, y in zip(s1[2:], s2[2:])):
                continue
            other = (s1[1 - ax], s2[1 - ax])
        if other is None:
            continue
        d = eq0(add(other[0], scale(other[1], Fr(-1))))
        rest = [(a, x) for a, x in factors if v not in a.fv]
        return v, d, rest
    return None


def _make_sum(vs, factors):
    """Sum over vs of a product of factors (no further opening needed)."""
    r = _orth_rule(vs, factors)
    if r is not None:
        v, d, rest = r
        body = d
        for a, x in rest:
            body = mul(body, power_atom(a, x))
        for w in vs:
            if w is not v:
                body = esum(w, body)
        return body
    # connected components over the bound variables
    comps = []
    left = list(vs)
    while left:
        seed = [left.pop()]
        group = set(seed)
        changed = True
        while changed:
            changed = False
            for a, _ in factors:
                if not a.fv.isdisjoint(group):
                    for w in list(left):
                        if w in a.fv:
                            group.add(w)
                            left.remove(w)
                            changed = True
        comps.append(group)
    if len(comps) == 1 and all(not a.fv.isdisjoint(comps[0]) for a, _ in factors):
        return from_atom(_canon_sum(list(vs), factors))
    out = ONE_E
    rest = [(a, x) for a, x in factors if all(a.fv.isdisjoint(g) for g in comps)]
    for a, x in rest:
        out = mul(out, power_atom(a, x))
    for g in comps:
        fs = [(a, x) for a, x in factors if not a.fv.isdisjoint(g)]
        if not fs:
            for w in g:
                out = mul(out, w.args[1])
        else:
            out = mul(out, from_atom(_canon_sum(list(g), fs)))
    return out


def _sum_atom(vs, factors):
    md = {}
    for a, x in factors:
        md[a] = md.get(a, 0) + x
    m = tuple(sorted(md.items(), key=lambda p: p[0].id))
    fv = frozenset()
    depth = 0
    unk = False
    size = 0
    for a, _ in m:
        fv |= a.fv
        depth = max(depth, a.depth)
        unk = unk or a.unk
        size += a.size
    bound = frozenset(vs)
    d = max([_bdepth(v) for v in vs] + [depth])
    return _atom("sum", (tuple(vs), m), fv - bound, d, unk, size)


def _bdepth(v):
    n = v.args[0]
    return int(n[1:n.index("_")]) if n.startswith("b") else 0


def _canon_sum(vs, factors):
    depth = 1 + max((a.depth for a, _ in factors), default=0)
    n = len(vs)
    # colour refinement
    col = {v: (v.args[1].id,) for v in vs}
    if n > 1:
        for _ in range(3):
            classes = sorted(set(col.values()), key=repr)
            idx = {c: i for i, c in enumerate(classes)}
            new = {}
            for v in vs:
                sig = []
                for a, x in factors:
                    if v in a.fv:
                        mp = {}
                        for w in vs:
                            if w in a.fv:
                                nm = "m*" if w is v else "m%d" % idx[col[w]]
                                mp[w] = from_atom(var_atom(nm, w.args[1]))
                        sig.append((_rename(a, mp).id, x))
                sig.sort()
                new[v] = (idx[col[v]], tuple(sig))
            if len(set(new.values())) == len(set(col.values())) and len(set(new.values())) == n:
                col = new
                break
            col = new
    groups = {}
    for v in vs:
        groups.setdefault(col[v], []).append(v)
    order = sorted(groups, key=repr)
    perms = [list(itertools.permutations(groups[g])) if len(groups[g]) <= 5 else [tuple(groups[g])]
             for g in order]
    tot = 1
    for p in perms:
        tot *= len(p)
    if tot > 1500:
        perms = [[tuple(groups[g])] for g in order]
    cands = []
    for choice in itertools.product(*perms):
        seq = [v for part in choice for v in part]
        names = [var_atom("b%d_%d" % (depth, i), v.args[1]) for i, v in enumerate(seq)]
        mp = {v: from_atom(b) for v, b in zip(seq, names)}
        md = {}
        for a, x in factors:
            r = _rename(a, mp)
            md[r] = md.get(r, 0) + x
        key = tuple(sorted(((a.id, x) for a, x in md.items())))
        cands.append((key, names, md))
    best = min(cands, key=lambda t: t[0])
    return _sum_atom(best[1], list(best[2].items()))


# ---------------------------------------------------------------- printing

def show_atom(a, prec=0):
    k = a.kind
    if k == "dim":
        return a.args[0]
    if k == "var":
        return a.args[0]
    if k == "leaf":
        nm, sl = a.args
        return nm + ("[" + ",".join(show(s) for s in sl) + "]" if sl else "")
    if k == "fn":
        return "%s(%s)" % (a.args[0], ", ".join(show(s) for s in a.args[1]))
    if k == "ind":
        return "[%s%s0]" % (show(a.args[1]), {"ge": ">=", "gt": ">", "eq": "="}[a.args[0]])
    if k == "par":
        return "(%s)" % show(a.args[0])
    if k == "sum":
        vs, m = a.args
        return "SUM{%s}(%s)" % (",".join("%s<%s" % (v.args[0], show(v.args[1])) for v in vs),
                                show_mono(m))
    return "?"


def show_mono(m):
    if not m:
        return "1"
    out = []
    for a, x in m:
        s = show_atom(a)
        if x != 1:
            s += "^" + (str(x) if x.denominator == 1 and x > 0 else "(%s)" % x)
        out.append(s)
    return "*".join(out)


def show(e, limit=None):
    if not e.t:
        return "0"
    parts = []
    for m, c in e.t:
        if m == ():
            parts.append(str(c))
        elif c == 1:
            parts.append(show_mono(m))
        elif c == -1:
            parts.append("-" + show_mono(m))
        else:
            parts.append("%s*%s" % (c, show_mono(m)))
    s = parts[0]
    for p in parts[1:]:
        s += " - " + p[1:] if p.startswith("-") else " + " + p
    if limit and len(s) > limit:
        s = s[:limit] + "..."
    return s


def leaves_of(e, acc=None, seen=None):
    """Names of all leaves in a term."""
    if acc is None:
        acc, seen = set(), set()
    for m, _ in e.t:
        for a, _x in m:
            _leaves_atom(a, acc, seen)
    return acc


def _leaves_atom(a, acc, seen):
    if a.id in seen:
        return
    seen.add(a.id)
    if a.kind == "leaf":
        acc.add(a.args[0])
        for s in a.args[1]:
            leaves_of(s, acc, seen)
    elif a.kind == "fn":
        for s in a.args[1]:
            leaves_of(s, acc, seen)
    elif a.kind == "ind":
        leaves_of(a.args[1], acc, seen)
    elif a.kind == "par":
        leaves_of(a.args[0], acc, seen)
    elif a.kind == "sum":
        for b, _ in a.args[1]:
            _leaves_atom(b, acc, seen)


def replace_leaves(e, f, ind=None, tiny=None, unroll=0):
    """Rewrites every leaf atom by f(name, slots) -> E or None (keep), and every condition
    [x rel 0] by ind(rel, x); constant terms below `tiny` are dropped from real sums."""
    memo = {}

    def on_e(x):
        r = memo.get(x)
        if r is None:
            acc = []
            for m, c in x.t:
                p = const(c)
                for a, ex in m:
                    p = mul(p, power(on_a(a), ex))
                acc.append(p)
            r = total(acc)
            if tiny is not None and len(r.t) > 1 and any(abs(c) < tiny for _, c in r.t):
                r = _mk({m: c for m, c in r.t if abs(c) >= tiny})
            memo[x] = r
        return r

    def on_a(a):
        k = a.kind
        if k in ("dim", "var"):
            return from_atom(a)
        if k == "leaf":
            nm, sl = a.args
            sl2 = tuple(on_e(s) for s in sl)
            r = f(nm, sl2)
            return r if r is not None else rebuild_leaf(nm, sl2)
        if k == "fn":
            return fn(a.args[0], *[on_e(s) for s in a.args[1]])
        if k == "ind":
            x = on_e(a.args[1])
            r = ind(a.args[0], x) if ind is not None else None
            return r if r is not None else {"ge": ge0, "gt": gt0, "eq": eq0}[a.args[0]](x)
        if k == "par":
            return on_e(a.args[0])
        if k == "sum":
            vs, m = open_sum(a)
            b = ONE_E
            for at, ex in m:
                b = mul(b, power(on_a(at), ex))
            for v in vs:
                n = int_of(v.args[1])
                if n is not None and n <= unroll:
                    b = total([subst(b, {v: const(q)}) for q in range(n)])
                else:
                    b = esum(v, b)
            return b
        raise AssertionError(k)

    return on_e(e)


def staircase(e):
    """Integer threshold conditions brought to one polarity and reduced by implication,
    so that sums over adjacent index ranges add up.  Used when values are compared."""
    if len(e.t) > 150:
        return e

    def rep(a):
        x = a.args[1]
        m, c = min(x.t, key=lambda p: (not any(b.kind == "var" for b, _ in p[0]), _term_key(p)))
        if c < 0:
            return a, False
        return _ind_atom("ge", add(scale(x, Fr(-1)), const(-1))), True

    acc = {}
    for m, c in e.t:
        base, conds = [], []
        for a, x in m:
            if a.kind == "ind" and a.args[0] == "ge" and is_int(a.args[1]):
                conds.append(rep(a))
            else:
                base.append((a, x))
        terms = {frozenset(): c}
        for a, neg in conds:
            new = {}
            for s, k in terms.items():
                if neg:
                    new[s] = new.get(s, 0) + k
                    k = -k
                s2 = _tightest(s | {a})
                if s2 is not None:
                    new[s2] = new.get(s2, 0) + k
            terms = new
        for s, k in terms.items():
            if k:
                mm = tuple(sorted(base + [(a, ONE) for a in s], key=lambda p: p[0].id))
                acc[mm] = acc.get(mm, 0) + k
    return _mk({m: c for m, c in acc.items() if c})


def _tightest(s):
    s = list(s)
    drop = set()
    for i, a in enumerate(s):
        for j, b in enumerate(s):
            if i != j and i not in drop and j not in drop and int_nonneg(add(b.args[1], scale(a.args[1], Fr(-1)))):
                drop.add(j)
    return frozenset(a for i, a in enumerate(s) if i not in drop)
