"""Model of the Python built-ins and of the standard library parts TensorKit uses."""
import ast
import itertools
import os
import sys
from fractions import Fraction as Fr

from . import expr as X
from . import arr as AR
from .arr import Undecided
from .expr import add, mul, scale, const, from_atom, int_of, const_of, ZERO
from .interp import (Sym, Ref, ARef, Masked, FuncV, BoundV, ClassV, ModV, ExtMod, PyFn, TypeV, ExcType, ExcV,
                     PropV, CachedPropV, CMV, SMV, SuperV, SliceV, RangeV, DtypeV, Unk, MISSING, ObjPhi,
                     same_value, Buf, ListC, SymListC, DictC, InstC, EnvC, IterC, CellC, BUILTIN_EXC, SymSeq,
                     RaiseEx, Arr)

SITE = "/opt/venv/lib/python3.12/site-packages"


# ---------------------------------------------------------------- helpers

def need(it, args, lo, hi, name):
    if len(args) < lo or len(args) > hi:
        it.throw("TypeError", "%s() takes %d to %d arguments (%d given)" % (name, lo, hi, len(args)))


def params(it, name, names, args, kwargs, required=0, star=False):
    """Binds a call of a modelled function; a TypeError like Python's otherwise."""
    if len(args) > len(names):
        it.throw("TypeError", "%s() takes at most %d arguments (%d given)" % (name, len(names), len(args)))
    out = dict(zip(names, args))
    for k, v in kwargs.items():
        if k not in names:
            it.throw("TypeError", "%s() got an unexpected keyword argument '%s'" % (name, k))
        if k in out:
            it.throw("TypeError", "%s() got multiple values for argument '%s'" % (name, k))
        out[k] = v
    for n in names[:required]:
        if n not in out:
            it.throw("TypeError", "%s() missing required argument '%s'" % (name, n))
    return out


def new_list(it, items, kind="list"):
    return Ref(it.alloc(ListC(items, kind)))


def new_dict(it, d):
    return Ref(it.alloc(DictC(dict(d))))


def new_iter(it, items):
    return Ref(it.alloc(IterC(items)))


def is_num(v):
    return isinstance(v, (int, float, Sym))


def length(it, v):
    v = it.load(v)
    if isinstance(v, (str, bytes, tuple)):
        return len(v)
    if isinstance(v, ARef):
        a = it.arr(v)
        if a.ndim == 0:
            it.throw("TypeError", "len() of unsized object")
        return it.val(a.shape[0], "i")
    if isinstance(v, RangeV):
        return it.val(it.range_len(v), "i")
    if isinstance(v, SymSeq):
        return it.val(v.n, "i")
    if isinstance(v, Ref):
        c = it.get(v.oid)
        if isinstance(c, ListC):
            return len(c.items)
        if isinstance(c, SymListC):
            return it.val(c.n, "i")
        if isinstance(c, DictC):
            return len(c.d)
        if isinstance(c, InstC):
            f = it.class_lookup(c.cls, "__len__")
            if f is MISSING:
                it.throw("TypeError", "object of type '%s' has no len()" % c.cls.name)
            return it.call(BoundV(f, v), [], {})
        h = getattr(c, "length", None)
        if h is not None:
            return h(it, v)
        it.throw("TypeError", "object of type '%s' has no len()" % it.type_name(v))
    h = getattr(v, "length", None)
    if h is not None:
        return h(it)
    if isinstance(v, Unk):
        raise Undecided("len of " + v.reason)
    if v is None or is_num(v) or isinstance(v, (FuncV, BoundV, ClassV)):
        it.throw("TypeError", "object of type '%s' has no len()" % it.type_name(v))
    raise Undecided("len")


def fold_sum(it, seq, start):
    if isinstance(seq, SymSeq):
        n = int_of(seq.n)
        if n is None:
            v = X.fresh(seq.n, "s")
            x = it.load(seq.item(it, from_atom(v)))
            if is_num(x):
                e = X.esum(v, it.num(x))
                r = it.val(e, "i" if (isinstance(x, int) or isinstance(x, Sym) and x.kind in "ib") else "f")
            elif isinstance(x, ARef):
                a = it.arr(x)
                if any(v in s.fv for s in a.shape):
                    raise Undecided("sum of ragged items")
                r = it.new_array(Arr(a.shape, X.esum(v, a.body), a.dtype))
            else:
                raise Undecided("sum over a symbolic sequence")
            return it.binop("+", start, r)
        seq = [seq.item(it, const(k)) for k in range(n)]
    out = start
    for x in seq:
        out = it.binop("+", out, it.load(x))
    return out


def min_max(it, which, args, kwargs):
    key = kwargs.pop("key", None)
    default = kwargs.pop("default", MISSING)
    if key is not None:
        raise Undecided(which + " with key")
    if len(args) == 1:
        v = it.load(args[0])
        if isinstance(v, Masked):
            raise Undecided(which)
        seq = it.sequence(v)
        if isinstance(seq, SymSeq):
            u = X.fresh(seq.n, "m")
            x = it.load(seq.item(it, from_atom(u)))
            if is_num(x) and u not in it.num(x).fv and X.int_nonneg(X.add(seq.n, const(-1))):
                return x
            raise Undecided(which + " over a symbolic sequence")
        items = [it.load(x) for x in seq]
    else:
        items = [it.load(x) for x in args]
    if not items:
        if default is not MISSING:
            return default
        it.throw("ValueError", "%s() iterable argument is empty" % which)
    if all(isinstance(x, (int, float)) for x in items):
        return min(items) if which == "min" else max(items)
    if all(isinstance(x, str) for x in items):
        return min(items) if which == "min" else max(items)
    if any(isinstance(x, Unk) for x in items):
        raise Undecided(which)
    if any(x is None for x in items):
        it.throw("TypeError", "'<' not supported between instances of 'NoneType' and a number")
    es = []
    for x in items:
        if isinstance(x, ARef):
            a = it.arr(x)
            if a.ndim == 0 or int_of(a.size()) == 1:
                es.append(a.at([ZERO] * a.ndim))
                continue
            it.throw("ValueError", "The truth value of an array with more than one element is ambiguous")
        if isinstance(x, float) and it.num(x) is None:
            # infinities
            if (x > 0) == (which == "min"):
                continue
            return x
        es.append(it.num(x))
    kind = "i" if all(isinstance(x, int) or isinstance(x, Sym) and x.kind in "ib" for x in items) else "f"
    if all(X.is_int(e) for e in es):
        r = X.imin(*es) if which == "min" else X.imax(*es)
        return it.val(r, kind)
    r = es[0]
    for e in es[1:]:
        r = X.fn(which, r, e)
    return Sym(r, kind)


def py_type(it, v):
    if isinstance(v, bool) or isinstance(v, Sym) and v.kind == "b":
        return it.builtins["bool"]
    if isinstance(v, int) or isinstance(v, Sym) and v.kind == "i":
        return it.builtins["int"]
    if isinstance(v, (float, Sym)):
        return it.builtins["float"]
    for t, n in ((str, "str"), (bytes, "bytes"), (tuple, "tuple")):
        if isinstance(v, t):
            return it.builtins[n]
    if v is None:
        return NONE_TYPE
    if isinstance(v, ARef):
        return it.ext["numpy"]["ndarray"]
    if isinstance(v, Ref):
        c = it.get(v.oid)
        if isinstance(c, InstC):
            return c.cls
        if isinstance(c, ListC):
            return it.builtins[c.kind] if c.kind in it.builtins else TypeV(c.kind)
        if isinstance(c, SymListC):
            return it.builtins["list"]
        if isinstance(c, DictC):
            return it.builtins["dict"]
        t = getattr(c, "py_type", None)
        if t:
            return t
    if isinstance(v, ExcV):
        return v.typ
    if isinstance(v, (ClassV, TypeV)):
        return it.builtins["type"]
    if isinstance(v, RangeV):
        return it.builtins["range"]
    if isinstance(v, SliceV):
        return it.builtins["slice"]
    if isinstance(v, Unk):
        raise Undecided("type of " + v.reason)
    t = getattr(v, "py_type", None)
    if t:
        return t
    return TypeV(type(v).__name__)


NONE_TYPE = TypeV("NoneType")
OBJECT = TypeV("object")


def isinstance_(it, v, t):
    t = it.load(t)
    if isinstance(t, tuple):
        unknown = False
        for x in t:
            r = isinstance_(it, v, x)
            if r is True:
                return True
            unknown = unknown or r is None
        return None if unknown else False
    if isinstance(v, Unk) or isinstance(t, Unk):
        return None
    if isinstance(t, ExcType):
        return isinstance(v, ExcV) and issubclass(v.typ.py, t.py)
    if isinstance(t, ClassV):
        if isinstance(v, Ref):
            c = it.get(v.oid)
            return isinstance(c, InstC) and t in c.cls.mro
        return False
    if isinstance(t, DtypeV):
        t = {"f": it.builtins["float"], "i": it.builtins["int"], "b": it.builtins["bool"]}.get(t.code, t)
    if isinstance(t, TypeV):
        if t.name == "object":
            return True
        vt = py_type(it, v)
        if vt is t or getattr(vt, "name", None) == t.name:
            return True
        if t.name in ("Iterable", "Collection"):
            return isinstance(v, (str, bytes, tuple, ARef, RangeV)) or isinstance(v, Ref) and isinstance(
                it.get(v.oid), (ListC, SymListC, DictC, IterC))
        if t.name in ("Sequence", "MutableSequence"):
            return isinstance(v, (str, bytes, tuple, RangeV)) and t.name == "Sequence" or \
                isinstance(v, Ref) and isinstance(it.get(v.oid), (ListC, SymListC)) and \
                getattr(it.get(v.oid), "kind", "list") == "list"
        if t.name in ("Number", "Real", "Complex", "Rational", "Integral"):
            return is_num(v) and (t.name != "Integral" or vt.name in ("int", "bool"))
        if t.name == "integer":
            # numpy integers are represented like Python's
            return None if vt.name == "int" else False
        if t.name == "number":
            return None if vt.name in ("int", "float") else False
        if vt.name == "bool" and t.name == "int":
            return True
        if t.name == "float" and vt.name == "float":
            return True
        if t.name in ("Path", "PurePath", "PosixPath"):
            return getattr(v, "is_path", False)
        if t.name in ("Callable",):
            return isinstance(v, (FuncV, BoundV, PyFn, ClassV, TypeV))
        return False
    if isinstance(t, PyFn):
        return None
    return None


# ------------------------------------------------------------ type objects

def to_list_items(it, v):
    """Items for list(v)/tuple(v); SymListC content for symbolic sequences."""
    v = it.load(v)
    seq = it.sequence(v)
    if isinstance(seq, SymSeq):
        n = int_of(seq.n)
        if n is not None:
            return [seq.item(it, const(k)) for k in range(n)]
        w = X.fresh(seq.n, "k")
        return SymListC(seq.n, w, it.load(seq.item(it, from_atom(w))))
    return seq


def call_list(it, a, k):
    need(it, a, 0, 1, "list")
    if not a:
        return new_list(it, [])
    r = to_list_items(it, a[0])
    if isinstance(r, SymListC):
        return Ref(it.alloc(r))
    return new_list(it, r)


def call_tuple(it, a, k):
    need(it, a, 0, 1, "tuple")
    if not a:
        return ()
    r = to_list_items(it, a[0])
    if isinstance(r, SymListC):
        return Ref(it.alloc(r))
    return tuple(it.load(x) for x in r)


def call_set(it, a, k):
    items = []
    for x in (it.iterate(a[0]) if a else []):
        if not any(same_value(x, y) for y in items):
            items.append(x)
    return new_list(it, items, "set")


def call_dict(it, a, k):
    d = {}
    if a:
        v = it.load(a[0])
        c = it.get(v.oid) if isinstance(v, Ref) else None
        if isinstance(c, DictC):
            d.update(c.d)
        else:
            for x in it.iterate(v):
                kk, vv = it.iterate(x)
                d[it.key(kk)] = vv
    d.update(k)
    return new_dict(it, d)


def call_int(it, a, k):
    if not a:
        return 0
    v = it.load(a[0])
    if isinstance(v, (int, bool)):
        return int(v)
    if isinstance(v, float):
        if v != v or abs(v) == float("inf"):
            it.throw("OverflowError" if v == v else "ValueError", "cannot convert float to integer")
        return int(v)
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError as e:
            it.throw("ValueError", str(e))
    if isinstance(v, ARef):
        arr = it.arr(v)
        if int_of(arr.size()) == 1:
            v = Sym(arr.at([ZERO] * arr.ndim), arr.dtype)
        else:
            it.throw("TypeError", "only length-1 arrays can be converted to Python scalars")
    if isinstance(v, Sym):
        c = const_of(v.e)
        if c is not None:
            return int(c)
        if v.kind in "ib" or X.is_int(v.e):
            return Sym(v.e, "i")
        return Sym(X.fn("int", v.e), "i")
    if v is None:
        it.throw("TypeError", "int() argument must be a string or a number, not 'NoneType'")
    raise Undecided("int()")


def call_float(it, a, k):
    if not a:
        return 0.0
    v = it.load(a[0])
    if isinstance(v, (int, float, bool)):
        return float(v)
    if isinstance(v, str):
        try:
            return float(v)
        except ValueError as e:
            it.throw("ValueError", str(e))
    if isinstance(v, ARef):
        arr = it.arr(v)
        if int_of(arr.size()) == 1:
            return Sym(arr.at([ZERO] * arr.ndim), "f")
        it.throw("TypeError", "only length-1 arrays can be converted to Python scalars")
    if isinstance(v, Sym):
        return Sym(v.e, "f")
    if v is None:
        it.throw("TypeError", "float() argument must be a string or a real number, not 'NoneType'")
    raise Undecided("float()")


def call_str(it, a, k):
    if not a:
        return ""
    v = it.load(a[0])
    s = it.format(v) if not isinstance(v, (Ref, ARef)) else None
    if isinstance(v, bool) or v is None:
        s = str(v)
    if s is None:
        if getattr(v, "is_path", False):
            return v.text
        return Unk("str()")
    return s


def call_bool(it, a, k):
    return it.truth(it.load(a[0])) if a else False


def call_type(it, a, k):
    if len(a) == 1:
        return py_type(it, it.load(a[0]))
    raise Undecided("type()")


def call_range(it, a, k):
    need(it, a, 1, 3, "range")
    vals = []
    for v in a:
        v = it.load(v)
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, float) or isinstance(v, Sym) and v.kind == "f" and not X.is_int(v.e):
            it.throw("TypeError", "'float' object cannot be interpreted as an integer")
        if v is None or isinstance(v, (str, tuple)):
            it.throw("TypeError", "'%s' object cannot be interpreted as an integer" % it.type_name(v))
        if isinstance(v, ARef):
            arr = it.arr(v)
            if arr.ndim:
                it.throw("TypeError", "only integer scalar arrays can be converted to a scalar index")
            v = it.val(arr.body, "i")
        if isinstance(v, Unk):
            raise Undecided("range of " + v.reason)
        vals.append(v)
    if len(vals) == 1:
        return RangeV(0, vals[0], 1)
    return RangeV(vals[0], vals[1], vals[2] if len(vals) > 2 else 1)


def call_slice(it, a, k):
    if len(a) == 1:
        return SliceV(None, a[0], None)
    return SliceV(a[0], a[1], a[2] if len(a) > 2 else None)


# ---------------------------------------------------------------- built-ins

def make_builtins(it0):
    B = {}

    def f(name):
        def deco(g):
            B[name] = PyFn(name, g)
            return g
        return deco

    for n, c in (("list", call_list), ("tuple", call_tuple), ("set", call_set), ("frozenset", call_set),
                 ("dict", call_dict), ("int", call_int), ("float", call_float), ("str", call_str),
                 ("bool", call_bool), ("type", call_type), ("range", call_range), ("slice", call_slice)):
        B[n] = TypeV(n, c)
    B["object"] = OBJECT
    B["bytes"] = TypeV("bytes")
    B["complex"] = TypeV("complex")
    for n, e in BUILTIN_EXC.items():
        B[n] = e
    B["NotImplemented"] = Unk("NotImplemented")
    B["Ellipsis"] = Ellipsis
    B["__name__"] = "tenkit"
    B["__debug__"] = True

    @f("len")
    def _len(it, a, k):
        need(it, a, 1, 1, "len")
        return length(it, a[0])

    @f("enumerate")
    def _enum(it, a, k):
        start = a[1] if len(a) > 1 else k.get("start", 0)
        seq = it.sequence(a[0])
        if isinstance(seq, SymSeq):
            return SymSeq(seq.n, lambda i2, e: (i2.binop("+", start, i2.val(e, "i")), seq.item(i2, e)),
                          "enumerate")
        return new_iter(it, [(it.binop("+", start, i), x) for i, x in enumerate(seq)])

    @f("zip")
    def _zip(it, a, k):
        strict = k.pop("strict", False)
        seqs = [it.sequence(x) for x in a]
        if any(isinstance(s, SymSeq) for s in seqs):
            ns = []
            for s in seqs:
                ns.append(s.n if isinstance(s, SymSeq) else const(len(s)))
            n = ns[0]
            for m in ns[1:]:
                if m is not n:
                    n = X.imin(n, m)
            c = int_of(n)
            if c is None:
                if not all(isinstance(s, SymSeq) for s in seqs):
                    raise Undecided("zip of symbolic and concrete sequences")
                return SymSeq(n, lambda i2, e: tuple(s.item(i2, e) for s in seqs), "zip")
            seqs = [[s.item(it, const(i)) for i in range(c)] if isinstance(s, SymSeq) else s for s in seqs]
        if strict is True and len({len(s) for s in seqs}) > 1:
            it.throw("ValueError", "zip() argument lengths differ")
        return new_iter(it, list(zip(*seqs)))

    @f("map")
    def _map(it, a, k):
        seqs = [it.iterate(x) for x in a[1:]]
        return new_iter(it, [it.call(a[0], list(xs), {}) for xs in zip(*seqs)])

    @f("filter")
    def _filter(it, a, k):
        out = []
        for x in it.iterate(a[1]):
            if it.truth(x if a[0] is None else it.call(a[0], [x], {})):
                out.append(x)
        return new_iter(it, out)

    @f("reversed")
    def _rev(it, a, k):
        return new_iter(it, list(reversed(it.iterate(a[0]))))

    @f("iter")
    def _iter(it, a, k):
        v = it.load(a[0])
        if isinstance(v, Ref) and isinstance(it.get(v.oid), IterC):
            return v
        return new_iter(it, it.iterate(v))

    @f("next")
    def _next(it, a, k):
        v = it.load(a[0])
        if isinstance(v, Ref):
            c = it.get(v.oid)
            if isinstance(c, IterC):
                if c.pos >= len(c.items):
                    if len(a) > 1:
                        return a[1]
                    it.throw("StopIteration", "")
                it.set(v.oid, IterC(c.items, c.pos + 1))
                return it.load(c.items[c.pos])
        raise Undecided("next")

    @f("sum")
    def _sum(it, a, k):
        p = params(it, "sum", ["iterable", "start"], a, k, 1)
        v = it.load(p["iterable"])
        if isinstance(v, Masked):
            raise Undecided("sum of masked")
        return fold_sum(it, it.sequence(v), p.get("start", 0))

    B["min"] = PyFn("min", lambda it, a, k: min_max(it, "min", a, k))
    B["max"] = PyFn("max", lambda it, a, k: min_max(it, "max", a, k))

    @f("abs")
    def _abs(it, a, k):
        v = it.load(a[0])
        if isinstance(v, (int, float)):
            return abs(v)
        from . import npm
        return npm.unary(it, "abs", v)

    @f("round")
    def _round(it, a, k):
        v = it.load(a[0])
        if isinstance(v, (int, float)) and all(isinstance(x, int) for x in a[1:]):
            return round(v, *a[1:])
        raise Undecided("round")

    @f("pow")
    def _pow(it, a, k):
        return it.binop("**", a[0], a[1])

    @f("divmod")
    def _divmod(it, a, k):
        return (it.binop("//", a[0], a[1]), it.binop("%", a[0], a[1]))

    @f("any")
    def _any(it, a, k):
        for x in it.iterate(a[0]):
            if it.truth(it.load(x)):
                return True
        return False

    @f("all")
    def _all(it, a, k):
        for x in it.iterate(a[0]):
            if not it.truth(it.load(x)):
                return False
        return True

    @f("isinstance")
    def _isinstance(it, a, k):
        need(it, a, 2, 2, "isinstance")
        r = isinstance_(it, it.load(a[0]), a[1])
        if r is None:
            raise Undecided("isinstance")
        return r

    @f("issubclass")
    def _issub(it, a, k):
        c, t = a
        if isinstance(c, ClassV):
            ts = t if isinstance(t, tuple) else (t,)
            return any(x in c.mro for x in ts)
        raise Undecided("issubclass")

    @f("callable")
    def _callable(it, a, k):
        v = it.load(a[0])
        if isinstance(v, (FuncV, BoundV, PyFn, ClassV, TypeV, ExcType)):
            return True
        if isinstance(v, Unk):
            raise Undecided("callable")
        if isinstance(v, Ref):
            c = it.get(v.oid)
            return isinstance(c, InstC) and it.class_lookup(c.cls, "__call__") is not MISSING
        return False

    @f("hasattr")
    def _hasattr(it, a, k):
        o = it.load(a[0])
        if isinstance(o, Unk):
            raise Undecided("hasattr")
        try:
            return it.getattr(o, a[1], quiet=True) is not MISSING
        except RaiseEx as e:
            if issubclass(e.exc.typ.py, AttributeError):
                return False
            raise

    @f("getattr")
    def _getattr(it, a, k):
        o = it.load(a[0])
        if isinstance(a[1], Unk):
            raise Undecided("getattr")
        try:
            r = it.getattr(o, a[1], quiet=True)
        except RaiseEx as e:
            if not issubclass(e.exc.typ.py, AttributeError):
                raise
            r = MISSING
        if r is MISSING:
            if len(a) > 2:
                return a[2]
            it.throw("AttributeError", "'%s' object has no attribute '%s'" % (it.type_name(o), a[1]))
        return r

    @f("setattr")
    def _setattr(it, a, k):
        if isinstance(a[1], Unk):
            raise Undecided("setattr")
        it.setattr(it.load(a[0]), a[1], a[2])

    @f("delattr")
    def _delattr(it, a, k):
        it.delattr(it.load(a[0]), a[1])

    @f("print")
    def _print(it, a, k):
        it.event("print")
        return None

    @f("sorted")
    def _sorted(it, a, k):
        items = [it.load(x) for x in it.iterate(a[0])]
        key = k.get("key")
        rev = k.get("reverse", False)
        keys = [it.call(key, [x], {}) for x in items] if key is not None else items
        return new_list(it, sort_items(it, items, keys, it.truth(rev)))

    @f("id")
    def _id(it, a, k):
        v = it.load(a[0])
        it.event("nondeterminism", "id()")
        if isinstance(v, Ref):
            return v.oid
        raise Undecided("id")

    @f("hash")
    def _hash(it, a, k):
        it.event("nondeterminism", "hash()")
        raise Undecided("hash")

    @f("repr")
    def _repr(it, a, k):
        v = it.load(a[0])
        if isinstance(v, (int, float, str)):
            return repr(v)
        return Unk("repr")

    @f("format")
    def _format(it, a, k):
        r = it.format(it.load(a[0]), a[1] if len(a) > 1 else "")
        return Unk("format") if r is None else r

    @f("vars")
    def _vars(it, a, k):
        return it.getattr(it.load(a[0]), "__dict__")

    @f("dir")
    def _dir(it, a, k):
        raise Undecided("dir")

    @f("open")
    def _open(it, a, k):
        it.event("open", a[0])
        raise Undecided("open")

    @f("input")
    def _input(it, a, k):
        raise Undecided("input")

    B["property"] = PyFn("property", lambda it, a, k: PropV(a[0] if a else k.get("fget"),
                                                            a[1] if len(a) > 1 else k.get("fset")))
    B["classmethod"] = PyFn("classmethod", lambda it, a, k: CMV(a[0].f if isinstance(a[0], CMV) else a[0]))
    B["staticmethod"] = PyFn("staticmethod", lambda it, a, k: SMV(a[0]))

    @f("super")
    def _super(it, a, k):
        return SuperV(a[0], it.load(a[1]))
    return B


def sort_items(it, items, keys, reverse=False):
    """Stable insertion sort by symbolic comparison."""
    if all(isinstance(x, (int, float)) for x in keys) or all(isinstance(x, str) for x in keys):
        order = sorted(range(len(items)), key=lambda i: keys[i], reverse=reverse)
        return [items[i] for i in order]
    out = []
    for x, kx in zip(items, keys):
        pos = len(out)
        while pos > 0:
            ky = out[pos - 1][1]
            less = it.truth(it.compare("<", kx, ky)) if not reverse else it.truth(it.compare("<", ky, kx))
            if not less:
                break
            pos -= 1
        out.insert(pos, (x, kx))
    return [x for x, _ in out]


# ----------------------------------------------------- container attributes

def method(name, g):
    return PyFn(name, g)


def container_attr(it, o, c, name):
    if isinstance(c, ListC) and c.kind in ("list", "set"):
        return LIST.get(name) and bind(LIST[name], o, "list." + name) if c.kind == "list" else \
            (bind(SET[name], o, "set." + name) if name in SET else MISSING)
    if isinstance(c, SymListC):
        if name in LIST:
            return bind(SYMLIST.get(name, _sym_list_method), o, "list." + name)
        return MISSING
    if isinstance(c, DictC):
        return bind(DICT[name], o, "dict." + name) if name in DICT else MISSING
    if isinstance(c, IterC):
        if name == "__next__":
            return PyFn("next", lambda i2, a, k: i2.builtins["next"].call(i2, [o], {}))
        return MISSING
    return MISSING


def bind(g, o, name):
    return PyFn(name, lambda it, a, k: g(it, o, a, k))


def _sym_list_method(it, o, a, k):
    raise Undecided("method of a symbolic list")


def l_append(it, o, a, k):
    need(it, a, 1, 1, "append")
    c = it.get(o.oid)
    it.list_event(o, "append")
    it.set(o.oid, ListC(c.items + (a[0],), c.kind, c.origin))


def l_extend(it, o, a, k):
    c = it.get(o.oid)
    it.list_event(o, "extend")
    it.set(o.oid, ListC(c.items + tuple(it.iterate(a[0])), c.kind, c.origin))


def l_insert(it, o, a, k):
    c = it.get(o.oid)
    items = list(c.items)
    i = it.load(a[0])
    if isinstance(i, Sym):
        i = int_of(i.e)
    if not isinstance(i, int):
        it.havoc(o, "insert at unknown index")
        raise Undecided("insert at unknown index")
    items.insert(i, a[1])
    it.list_event(o, "insert")
    it.set(o.oid, ListC(items, c.kind, c.origin))


def l_pop(it, o, a, k):
    c = it.get(o.oid)
    items = list(c.items)
    i = it.load(a[0]) if a else -1
    if isinstance(i, Sym):
        i = int_of(i.e)
    if not isinstance(i, int):
        if i is None and a and it.load(a[0]) is None:
            it.throw("TypeError", "'NoneType' object cannot be interpreted as an integer")
        it.havoc(o, "pop at unknown index")
        raise Undecided("pop at unknown index")
    if i < -len(items) or i >= len(items):
        it.throw("IndexError", "pop index out of range")
    v = items.pop(i)
    it.list_event(o, "pop")
    it.set(o.oid, ListC(items, c.kind, c.origin))
    return it.load(v)


def l_copy(it, o, a, k):
    c = it.get(o.oid)
    return new_list(it, c.items, c.kind)


def l_index(it, o, a, k):
    c = it.get(o.oid)
    for i, x in enumerate(c.items):
        if it.truth(it.compare("==", it.load(x), a[0])):
            return i
    it.throw("ValueError", "value is not in list")


def l_count(it, o, a, k):
    c = it.get(o.oid)
    return sum(1 for x in c.items if it.truth(it.compare("==", it.load(x), a[0])))


def l_remove(it, o, a, k):
    i = l_index(it, o, a, k)
    l_pop(it, o, [i], {})


def l_clear(it, o, a, k):
    c = it.get(o.oid)
    it.list_event(o, "clear")
    it.set(o.oid, ListC((), c.kind, c.origin))


def l_reverse(it, o, a, k):
    c = it.get(o.oid)
    it.list_event(o, "reverse")
    it.set(o.oid, ListC(tuple(reversed(c.items)), c.kind, c.origin))


def l_sort(it, o, a, k):
    c = it.get(o.oid)
    items = [it.load(x) for x in c.items]
    key = k.get("key")
    keys = [it.call(key, [x], {}) for x in items] if key is not None else items
    it.list_event(o, "sort")
    it.set(o.oid, ListC(sort_items(it, items, keys, it.truth(k.get("reverse", False))), c.kind, c.origin))


LIST = {"append": l_append, "extend": l_extend, "insert": l_insert, "pop": l_pop, "copy": l_copy,
        "index": l_index, "count": l_count, "remove": l_remove, "clear": l_clear, "reverse": l_reverse,
        "sort": l_sort}


def s_add(it, o, a, k):
    c = it.get(o.oid)
    if not any(same_value(a[0], y) for y in c.items):
        it.list_event(o, "add")
        it.set(o.oid, ListC(c.items + (a[0],), c.kind, c.origin))


def s_discard(it, o, a, k):
    c = it.get(o.oid)
    it.list_event(o, "discard")
    it.set(o.oid, ListC([y for y in c.items if not same_value(a[0], y)], c.kind, c.origin))


SET = {"add": s_add, "discard": s_discard, "copy": l_copy, "clear": l_clear}


def sym_copy(it, o, a, k):
    return Ref(it.alloc(it.get(o.oid)))


def sym_append(it, o, a, k):
    raise Undecided("append to a symbolic list")


SYMLIST = {"copy": sym_copy}


def d_get(it, o, a, k):
    c = it.get(o.oid)
    kk = it.key(a[0])
    if kk in c.d:
        return it.load(c.d[kk])
    return a[1] if len(a) > 1 else k.get("default")


def d_pop(it, o, a, k):
    c = it.get(o.oid)
    kk = it.key(a[0])
    if kk in c.d:
        v = it.load(c.d[kk])
        it.delitem(o, kk)
        return v
    if len(a) > 1:
        return a[1]
    it.throw("KeyError", repr(kk))


def d_update(it, o, a, k):
    c = it.get(o.oid)
    d = dict(c.d)
    if a:
        r = call_dict(it, [a[0]], {})
        d.update(it.get(r.oid).d)
    d.update(k)
    if c.origin is not None:
        it.event("write", c.origin, "update")
    it.set(o.oid, DictC(d, c.origin))


def d_setdefault(it, o, a, k):
    c = it.get(o.oid)
    kk = it.key(a[0])
    if kk not in c.d:
        it.setitem(o, kk, a[1] if len(a) > 1 else None)
        return a[1] if len(a) > 1 else None
    return it.load(c.d[kk])


def d_clear(it, o, a, k):
    c = it.get(o.oid)
    if c.origin is not None:
        it.event("write", c.origin, "clear")
    it.set(o.oid, DictC({}, c.origin))


DICT = {"get": d_get, "pop": d_pop, "update": d_update, "setdefault": d_setdefault, "clear": d_clear,
        "keys": lambda it, o, a, k: new_iter(it, list(it.get(o.oid).d)),
        "values": lambda it, o, a, k: new_iter(it, list(it.get(o.oid).d.values())),
        "items": lambda it, o, a, k: new_iter(it, list(it.get(o.oid).d.items())),
        "copy": lambda it, o, a, k: new_dict(it, it.get(o.oid).d)}


# ------------------------------------------------------------- other values

def type_attr(it, o, name):
    if name == "__doc__":
        return Unk("doc")
    if o.name == "str" and hasattr(str, name):
        return PyFn("str." + name, lambda i2, a, k: i2.call(value_attr(i2, a[0], name), a[1:], k))
    if o.name == "dict" and name == "fromkeys":
        return PyFn("dict.fromkeys", lambda i2, a, k: new_dict(
            i2, {i2.key(x): (a[1] if len(a) > 1 else None) for x in i2.iterate(a[0])}))
    if o.name == "list" and name in LIST:
        return PyFn("list." + name, lambda i2, a, k: i2.call(i2.getattr(a[0], name), a[1:], k))
    if name == "__init__":
        return PyFn("object.__init__", lambda i2, a, k: None)
    h = getattr(o, "attrs", None)
    if h and name in h:
        return h[name]
    py = {"int": int, "float": float, "str": str, "list": list, "dict": dict, "tuple": tuple, "bool": bool,
          "object": object, "set": set}.get(o.name)
    if py is not None and not hasattr(py, name):
        return MISSING
    raise Undecided("attribute %s of type %s" % (name, o.name))


def value_attr(it, o, name):
    if isinstance(o, str):
        if not hasattr(str, name):
            return MISSING

        def m(i2, a, k):
            return str_method(i2, o, name, a, k)
        return PyFn("str." + name, m)
    if isinstance(o, tuple):
        if name == "index":
            def ix(i2, a, k):
                for i, x in enumerate(o):
                    if i2.truth(i2.compare("==", i2.load(x), a[0])):
                        return i
                i2.throw("ValueError", "tuple.index(x): x not in tuple")
            return PyFn("tuple.index", ix)
        if name == "count":
            return PyFn("tuple.count", lambda i2, a, k: sum(
                1 for x in o if i2.truth(i2.compare("==", i2.load(x), a[0]))))
        if not hasattr(tuple, name):
            return MISSING
        raise Undecided("tuple." + name)
    if isinstance(o, bool) or o is None:
        return MISSING if not hasattr(o, name) else Unk("attribute of constant")
    if isinstance(o, RangeV):
        return {"start": o.start, "stop": o.stop, "step": o.step}.get(name, MISSING)
    if isinstance(o, SliceV):
        return {"start": o.start, "stop": o.stop, "step": o.step}.get(name, MISSING)
    if isinstance(o, SymSeq):
        raise Undecided("attribute of sequence")
    if isinstance(o, DtypeV):
        if name == "type":
            return o
        if name == "name":
            return {"f": "float64", "i": "int64", "b": "bool", "f4": "float32"}.get(o.code, "object")
        if name == "kind":
            return {"f": "f", "f4": "f", "i": "i", "b": "b"}.get(o.code, "O")
        raise Undecided("dtype attribute")
    if isinstance(o, (CMV, SMV)):
        if name == "__func__":
            return o.f
    if isinstance(o, bytes):
        if name == "decode":
            return PyFn("bytes.decode", lambda i2, a, k: o.decode())
    return MISSING


def str_method(it, s, name, a, k):
    if name == "format":
        args = []
        for x in a:
            x = it.load(x)
            if isinstance(x, Sym) and int_of(x.e) is not None:
                x = int_of(x.e)
            args.append(x)
        if all(isinstance(x, (int, float, str)) for x in args) and all(
                isinstance(x, (int, float, str)) for x in k.values()):
            try:
                return s.format(*args, **k)
            except (IndexError, KeyError, ValueError) as e:
                it.throw(type(e).__name__, str(e))
        return Unk("formatted string")
    if name == "join":
        items = [it.load(x) for x in it.iterate(a[0])]
        if all(isinstance(x, str) for x in items):
            return s.join(items)
        if any(isinstance(x, Unk) for x in items):
            return Unk("joined string")
        it.throw("TypeError", "sequence item: expected str instance")
    args = [it.load(x) for x in a]
    if any(isinstance(x, Unk) for x in args):
        return Unk("str." + name)
    if all(isinstance(x, (str, int, type(None), tuple)) for x in args):
        try:
            r = getattr(s, name)(*args, **k)
        except (TypeError, ValueError, IndexError, LookupError) as e:
            it.throw(type(e).__name__, str(e))
        if isinstance(r, list):
            return new_list(it, r)
        return r
    raise Undecided("str." + name)


# ------------------------------------------------------------- std library

class PathV:
    """pathlib.Path / os paths: only the text matters."""
    is_path = True

    def __init__(self, text):
        self.text = text

    def __eq__(self, o):
        return isinstance(o, PathV) and o.text == self.text

    def __hash__(self):
        return hash(self.text)

    def getattr(self, it, v, name):
        if name == "is_file":
            def g(i2, a, k):
                return i2.fs_is_file(self.text)
            return PyFn("Path.is_file", g)
        if name == "exists":
            return PyFn("Path.exists", lambda i2, a, k: i2.fs_is_file(self.text))
        if name in ("name", "stem", "suffix"):
            if isinstance(self.text, str):
                import pathlib
                return getattr(pathlib.PurePosixPath(self.text), name)
            return Unk("path part")
        if name == "parent":
            return Unk("path parent")
        raise Undecided("Path." + name)


def deep_copy(it, v, memo):
    v = it.load(v)
    if isinstance(v, ARef):
        base = memo.get(("buf", v.oid, v.chain))
        if base is None:
            base = it.new_array(it.arr(v))
            if not isinstance(base, ARef):
                a = it.arr(v)
                base = ARef(it.alloc(Buf(a)))
            memo[("buf", v.oid, v.chain)] = base
        return base
    if isinstance(v, tuple):
        return tuple(deep_copy(it, x, memo) for x in v)
    if isinstance(v, Ref):
        if v.oid in memo:
            return memo[v.oid]
        c = it.get(v.oid)
        if isinstance(c, ListC):
            r = Ref(it.alloc(ListC((), c.kind)))
            memo[v.oid] = r
            it.set(r.oid, ListC([deep_copy(it, x, memo) for x in c.items], c.kind))
            return r
        if isinstance(c, SymListC):
            r = Ref(it.alloc(SymListC(c.n, c.var, c.item)))
            memo[v.oid] = r
            return r
        if isinstance(c, DictC):
            r = Ref(it.alloc(DictC({})))
            memo[v.oid] = r
            it.set(r.oid, DictC({k: deep_copy(it, x, memo) for k, x in c.d.items()}))
            return r
        if isinstance(c, InstC):
            r = Ref(it.alloc(InstC(c.cls, {})))
            memo[v.oid] = r
            it.set(r.oid, InstC(c.cls, {k: deep_copy(it, x, memo) for k, x in c.attrs.items()}))
            return r
        raise Undecided("deepcopy")
    return v


def shallow_copy(it, v):
    v = it.load(v)
    if isinstance(v, ARef):
        a = it.arr(v)
        return ARef(it.alloc(Buf(a)))
    if isinstance(v, Ref):
        c = it.get(v.oid)
        if isinstance(c, ListC):
            return new_list(it, c.items, c.kind)
        if isinstance(c, DictC):
            return new_dict(it, c.d)
        if isinstance(c, InstC):
            return Ref(it.alloc(InstC(c.cls, dict(c.attrs))))
        if isinstance(c, SymListC):
            return Ref(it.alloc(c))
        raise Undecided("copy")
    return v


def partial(it, a, k):
    f, args = a[0], list(a[1:])
    return PyFn("functools.partial", lambda i2, b, kk: i2.call(f, args + b, {**k, **kk}))


def install(it):
    ext = it.ext
    D = {}

    def m(name, **kw):
        ext.setdefault(name, {}).update(kw)
        return ext[name]

    ident = lambda name: PyFn(name, lambda i2, a, k: a[0])
    m("abc", ABC=TypeV("ABC"), abstractmethod=ident("abstractmethod"),
      abstractproperty=PyFn("abstractproperty", lambda i2, a, k: PropV(a[0])),
      abstractclassmethod=PyFn("abstractclassmethod", lambda i2, a, k: CMV(a[0])),
      abstractstaticmethod=PyFn("abstractstaticmethod", lambda i2, a, k: SMV(a[0])), ABCMeta=TypeV("ABCMeta"))
    m("copy", deepcopy=PyFn("copy.deepcopy", lambda i2, a, k: deep_copy(i2, a[0], {})),
      copy=PyFn("copy.copy", lambda i2, a, k: shallow_copy(i2, a[0])))

    def wraps(i2, a, k):
        return PyFn("functools.wraps", lambda i3, b, kk: b[0])

    def reduce_(i2, a, k):
        items = i2.iterate(a[1])
        if len(a) > 2:
            acc = a[2]
        else:
            if not items:
                i2.throw("TypeError", "reduce() of empty iterable with no initial value")
            acc, items = items[0], items[1:]
        for x in items:
            acc = i2.call(a[0], [acc, i2.load(x)], {})
        return acc

    def cached(i2, a, k):
        raise Undecided("cache decorator")

    m("functools", partial=PyFn("functools.partial", partial), reduce=PyFn("functools.reduce", reduce_),
      wraps=PyFn("functools.wraps", wraps),
      cached_property=PyFn("functools.cached_property", lambda i2, a, k: CachedPropV(a[0], a[0].name)),
      total_ordering=ident("functools.total_ordering"))

    def permutations(i2, a, k):
        p = params(i2, "permutations", ["iterable", "r"], a, k, 1)
        items = [i2.load(x) for x in i2.iterate(p["iterable"])]
        r = p.get("r")
        if isinstance(r, Sym):
            r = int_of(r.e)
            if r is None:
                raise Undecided("permutations of symbolic length")
        return new_iter(i2, list(itertools.permutations(items, r)))

    def product(i2, a, k):
        rep = k.get("repeat", 1)
        pools = [i2.iterate(x) for x in a] * rep
        return new_iter(i2, list(itertools.product(*pools)))

    def combos(i2, a, k):
        return new_iter(i2, list(itertools.combinations(i2.iterate(a[0]), a[1])))

    def chain(i2, a, k):
        out = []
        for x in a:
            out.extend(i2.iterate(x))
        return new_iter(i2, out)

    def chain_from(i2, a, k):
        out = []
        for x in i2.iterate(a[0]):
            out.extend(i2.iterate(x))
        return new_iter(i2, out)

    def accumulate(i2, a, k):
        items = i2.iterate(a[0])
        f = a[1] if len(a) > 1 else k.get("func")
        out = []
        if "initial" in k and k["initial"] is not None:
            items = [k["initial"]] + list(items)
        for x in items:
            out.append(x if not out else (i2.call(f, [out[-1], x], {}) if f is not None
                                          else i2.binop("+", out[-1], x)))
        return new_iter(i2, out)

    def zip_longest(i2, a, k):
        return new_iter(i2, list(itertools.zip_longest(*[i2.iterate(x) for x in a],
                                                       fillvalue=k.get("fillvalue"))))

    def islice(i2, a, k):
        return new_iter(i2, list(itertools.islice(i2.iterate(a[0]), *a[1:])))

    def repeat(i2, a, k):
        if len(a) < 2:
            raise Undecided("infinite repeat")
        return new_iter(i2, [a[0]] * a[1])
    ch = PyFn("itertools.chain", chain)
    m("itertools", permutations=PyFn("itertools.permutations", permutations),
      product=PyFn("itertools.product", product), combinations=PyFn("itertools.combinations", combos),
      chain=ch, accumulate=PyFn("itertools.accumulate", accumulate),
      zip_longest=PyFn("itertools.zip_longest", zip_longest), islice=PyFn("itertools.islice", islice),
      repeat=PyFn("itertools.repeat", repeat))
    ext["itertools.chain"] = {"from_iterable": PyFn("itertools.chain.from_iterable", chain_from)}

    def op(sym):
        return PyFn("operator." + sym, lambda i2, a, k: i2.binop(sym, a[0], a[1]))

    def itemgetter(i2, a, k):
        if len(a) == 1:
            return PyFn("itemgetter", lambda i3, b, kk: i3.getitem(b[0], a[0]))
        return PyFn("itemgetter", lambda i3, b, kk: tuple(i3.getitem(b[0], x) for x in a))
    m("operator", mul=op("*"), add=op("+"), sub=op("-"), truediv=op("/"), matmul=op("@"), floordiv=op("//"),
      itemgetter=PyFn("itemgetter", itemgetter))

    from . import npm

    def mth(name):
        return PyFn("math." + name, lambda i2, a, k: npm.unary(i2, name, a[0], scalar_only=True))

    def prod(i2, a, k):
        out = k.get("start", 1)
        for x in i2.iterate(a[0]):
            out = i2.binop("*", out, x)
        return out
    import math
    m("math", sqrt=mth("sqrt"), ceil=mth("ceil"), floor=mth("floor"), exp=mth("exp"), log=mth("log"),
      fabs=mth("abs"), isnan=mth("isnan"), isinf=mth("isinf"), prod=PyFn("math.prod", prod), inf=math.inf,
      pi=math.pi, nan=math.nan, isfinite=mth("isfinite"))

    def path(i2, a, k):
        v = i2.load(a[0]) if a else "."
        if isinstance(v, PathV):
            return v
        if isinstance(v, str):
            return PathV(v)
        if isinstance(v, Unk):
            raise Undecided("path of " + v.reason)
        i2.throw("TypeError", "argument should be a str or an os.PathLike object, not '%s'" % i2.type_name(v))
    m("pathlib", Path=TypeV("Path", path), PurePath=TypeV("PurePath", path))

    def isfile(i2, a, k):
        v = i2.load(a[0])
        return i2.fs_is_file(v.text if isinstance(v, PathV) else v)
    m("os")
    m("os.path", isfile=PyFn("os.path.isfile", isfile), exists=PyFn("os.path.exists", isfile))

    def warn(i2, a, k):
        cat = a[1] if len(a) > 1 else k.get("category")
        i2.event("warn", getattr(cat, "name", "UserWarning"))
        return None
    def warnings_filter(i2, a, k):
        i2.event("hidden_state", "warnings filter")
        i2.set_hidden("warnings", "filter set")

    class CatchWarnings:
        def enter(self, i2):
            self.old = i2.get(i2.hidden)

        def exit(self, i2):
            i2.set(i2.hidden, self.old)
    m("warnings", warn=PyFn("warnings.warn", warn),
      simplefilter=PyFn("warnings.simplefilter", warnings_filter),
      filterwarnings=PyFn("warnings.filterwarnings", warnings_filter), catch_warnings=PyFn(
          "warnings.catch_warnings", lambda i2, a, k: CatchWarnings()))
    m("textwrap", dedent=PyFn("textwrap.dedent", lambda i2, a, k: a[0] if isinstance(a[0], Unk) else
                              __import__("textwrap").dedent(a[0])))

    def nondet(name):
        def g(i2, a, k):
            i2.event("nondeterminism", name)
            if name in ("random.shuffle", "random.choice", "random.sample"):
                return i2.unk(name)
            # a value of its own at every call
            return Sym(X.leaf("%s@%d" % (name, next(i2.oids))), "i" if name.endswith(("_ns", "randint")) else "f")
        return PyFn(name, g)
    m("time", time=nondet("time.time"), perf_counter=nondet("time.perf_counter"),
      monotonic=nondet("time.monotonic"), time_ns=nondet("time.time_ns"))
    m("random", **{n: nondet("random." + n) for n in (
        "random", "randint", "shuffle", "choice", "uniform", "gauss", "sample", "seed", "normalvariate")})
    ct = {n: TypeV(n) for n in ("Iterable", "Sequence", "Mapping", "Collection", "MutableSequence", "Iterator",
                                "Callable", "MutableMapping")}
    m("collections.abc", **ct)
    m("numbers", **{n: TypeV(n) for n in ("Number", "Real", "Integral", "Complex")})
    m("typing", **{n: TypeV(n) for n in ("List", "Tuple", "Dict", "Optional", "Union", "Any", "Callable",
                                         "Sequence", "Iterable")})

    def defaultdict(i2, a, k):
        o = Ref(i2.alloc(DefaultDictC({}, a[0] if a else None)))
        return o

    def counter(i2, a, k):
        raise Undecided("Counter")
    m("collections", defaultdict=TypeV("defaultdict", defaultdict), OrderedDict=TypeV("OrderedDict", call_dict),
      Counter=TypeV("Counter", counter), namedtuple=PyFn("namedtuple", counter), deque=TypeV("deque", counter))

    def dataclass(i2, a, k):
        raise Undecided("dataclass")
    m("dataclasses", dataclass=PyFn("dataclass", dataclass))

    class NullCM:
        def __init__(self, v):
            self.v = v

        def enter(self, i2):
            return self.v

        def exit(self, i2):
            pass
    m("contextlib", nullcontext=PyFn("nullcontext", lambda i2, a, k: NullCM(a[0] if a else None)),
      suppress=PyFn("suppress", counter), contextmanager=PyFn("contextmanager", counter))


class DefaultDictC(DictC):
    __slots__ = ("factory",)

    def __init__(self, d, factory, origin=None):
        DictC.__init__(self, d, origin)
        self.factory = factory


# ------------------------------------------------ existence of library names

_known = {}


def stub_names(path):
    try:
        tree = ast.parse(open(path, encoding="utf-8").read())
    except (OSError, SyntaxError):
        return None
    names = set()

    def walk(body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                names.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    if a.name == "*":
                        names.add("*")
                    names.add((a.asname or a.name).split(".")[0])
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        names.add(t.id)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                names.add(n.target.id)
            elif isinstance(n, (ast.If, ast.Try)):
                walk(n.body)
                walk(getattr(n, "orelse", []))
                for h in getattr(n, "handlers", []):
                    walk(h.body)
    walk(tree.body)
    return names


def ext_has(module, name):
    """False when `module` certainly has no attribute `name`."""
    r = _known.get(module)
    if r is None:
        r = set()
        top = module.split(".")[0]
        if top == "numpy":
            p = os.path.join(SITE, *module.split("."))
            names = stub_names(os.path.join(p, "__init__.pyi")) or stub_names(p + ".pyi")
            if names and "*" not in names:
                for d in (p,):
                    if os.path.isdir(d):
                        names |= {f.split(".")[0] for f in os.listdir(d)}
                r = names
        elif top in sys.stdlib_module_names:
            try:
                import importlib
                r = set(dir(importlib.import_module(module)))
            except Exception:
                r = set()
        _known[module] = r
    if not r:
        return None
    return name in r
