"""Models of numpy / scipy for the abstract interpreter.

Every model maps abstract arrays to abstract arrays.  Matrix factorisations, solvers
and random draws are value-numbered: equal arguments give equal (opaque) results.
"""
from fractions import Fraction as Fr

from . import expr as X
from .expr import ZERO, ONE_E, const, add, mul, scale, from_atom, int_of, const_of
from . import arr as AR
from .arr import Arr, Undecided, ShapeError
from .interp import (Sym, Ref, ARef, Masked, FuncV, BoundV, ClassV, ExtMod, PyFn, TypeV, ExcType, DtypeV,
                     Unk, SliceV, RangeV, Buf, ListC, SymListC, DictC, InstC, CellC, MISSING, same_value,
                     SymSeq)
from .pym import params, is_num, new_list

TINY = Fr(1, 10 ** 10)
INF = float("inf")


def is_inf(v):
    return isinstance(v, float) and (v != v or v in (INF, -INF))


def drop_tiny(e):
    """Numerical guards (tiny constants or tiny multiples) are exact zeros here."""
    if len(e.t) < 2:
        return e
    keep = [(m, c) for m, c in e.t if abs(c) > TINY]
    if len(keep) == len(e.t) or not keep:
        return e
    return X._mk(dict(keep))


def guard_big(*bodies):
    n = 1
    for b in bodies:
        n *= max(1, len(b.t))
    return n > 60


def pow_e(a, b):
    c = const_of(b)
    if c is not None:
        return X.power(a, c)
    return X.fn("pow", a, b)


def binary_body(op, a, b, ints):
    if op == "+":
        return drop_tiny(add(a, b))
    if op == "-":
        return drop_tiny(add(a, scale(b, Fr(-1))))
    if op == "*":
        return mul(a, b)
    if op == "/":
        return mul(a, X.power(b, Fr(-1)))
    if op == "**":
        return pow_e(a, b)
    if op == "//":
        if ints or (X.is_int(a) and X.is_int(b)):
            return X.floordiv(a, b)
        return X.fn("floor", mul(a, X.power(b, Fr(-1))))
    if op == "%":
        if ints or (X.is_int(a) and X.is_int(b)):
            return X.modulo(a, b)
        return X.fn("fmod", a, b)
    raise Undecided("operator " + op)


def py_arith(it, op, a, b):
    """Two concrete Python numbers."""
    if op in ("/", "//", "%") and b == 0:
        it.throw("ZeroDivisionError", "division by zero")
    if is_inf(a) or is_inf(b):
        try:
            return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b,
                    "//": lambda: a // b, "%": lambda: a % b, "**": lambda: a ** b}[op]()
        except (KeyError, OverflowError, ValueError):
            raise Undecided("arithmetic with infinity")
    if isinstance(a, int) and isinstance(b, int):
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        if op == "*":
            return a * b
        if op == "//":
            return a // b
        if op == "%":
            return a % b
        if op == "**" and b >= 0 and b < 200:
            return a ** b
        if op == "&":
            return a & b
        if op == "|":
            return a | b
        if op == "^":
            return a ^ b
        if op == "<<" and 0 <= b < 64:
            return a << b
        if op == ">>" and b >= 0:
            return a >> b
    ea, eb = it.num(a), it.num(b)
    r = binary_body(op, ea, eb, False)
    return Sym(r, "f")


def scalar_kind(v):
    if isinstance(v, bool):
        return "b"
    if isinstance(v, int):
        return "i"
    if isinstance(v, float):
        return "f"
    return v.kind


def scalar_arith(it, op, a, b):
    ka, kb = scalar_kind(a), scalar_kind(b)
    if is_inf(a) or is_inf(b):
        # a finite term combined with infinity
        inf, fin = (a, b) if is_inf(a) else (b, a)
        if inf != inf:
            return inf
        if op == "+":
            return inf
        if op == "-":
            return inf if inf is a else -inf
        if op == "/" and inf is b:
            return Sym(ZERO, "f")
        raise Undecided("arithmetic with infinity")
    ea, eb = it.num(a), it.num(b)
    if op in "&|^":
        if ka == kb == "b":
            return it.val(bool_body(op, ea, eb), "b")
        raise Undecided("bit operation")
    ints = ka in "ib" and kb in "ib"
    if op in ("/", "//", "%") and not eb.t:
        if isinstance(b, (int, float)) and isinstance(a, (int, float)):
            it.throw("ZeroDivisionError", "division by zero")
        raise Undecided("division by zero")
    r = binary_body(op, ea, eb, ints)
    if ints and op != "/" and not (op == "**" and (const_of(eb) is None or const_of(eb) < 0)):
        return it.val(r, "i")
    return Sym(r, "f")


def bool_body(op, a, b):
    if op == "&":
        return mul(a, b)
    if op == "|":
        return add(add(a, b), scale(mul(a, b), Fr(-1)))
    return add(add(a, b), scale(mul(a, b), Fr(-2)))


def is_scalar(v):
    return is_num(v)


DUNDER = {"+": "add", "-": "sub", "*": "mul", "/": "truediv", "//": "floordiv", "%": "mod", "**": "pow",
          "@": "matmul", "&": "and", "|": "or", "^": "xor"}


def inst_class(it, v):
    if isinstance(v, Ref):
        c = it.get(v.oid)
        if isinstance(c, InstC):
            return c.cls
    return None


def binop(it, op, a, b):
    if isinstance(a, Unk) or isinstance(b, Unk):
        if isinstance(a, str) and op == "%":
            return Unk("formatted string")
        return Unk("arithmetic on " + (a.reason if isinstance(a, Unk) else b.reason))
    # user-defined operators
    for x, y, pre in ((a, b, ""), (b, a, "r")):
        cls = inst_class(it, x)
        if cls is not None and op in DUNDER:
            f = it.class_lookup(cls, "__%s%s__" % (pre, DUNDER[op]))
            if f is not MISSING:
                return it.call(BoundV(f, x), [y], {})
    h = getattr(a, "binop", None)
    if h is not None:
        return h(it, op, b)
    if is_num(a) and is_num(b):
        if op == "@":
            it.throw("TypeError", "unsupported operand type(s) for @")
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return py_arith(it, op, a, b)
        return scalar_arith(it, op, a, b)
    if isinstance(a, str):
        if op == "+" and isinstance(b, str):
            return a + b
        if op == "*" and isinstance(b, int):
            return a * b
        if op == "%":
            return str_percent(it, a, b)
        if op == "/" and getattr(b, "is_path", False):
            return path_join(it, a, b)
        if isinstance(b, (str, int, float, Sym, type(None), tuple)):
            it.throw("TypeError", "unsupported operand types for %s: 'str' and '%s'" % (op, it.type_name(b)))
    if getattr(a, "is_path", False) and op == "/":
        return path_join(it, a, b)
    if isinstance(a, tuple) and isinstance(b, tuple) and op == "+":
        return a + b
    if isinstance(a, tuple) and isinstance(b, int) and op == "*":
        return a * b
    if isinstance(b, tuple) and isinstance(a, int) and op == "*":
        return b * a
    ca = it.get(a.oid) if isinstance(a, Ref) else None
    cb = it.get(b.oid) if isinstance(b, Ref) else None
    if isinstance(ca, DictC) and isinstance(cb, DictC) and op == "|":
        d = dict(ca.d)
        d.update(cb.d)
        return Ref(it.alloc(DictC(d)))
    if isinstance(ca, ListC) and isinstance(cb, ListC):
        if ca.kind == "list" and cb.kind == "list" and op == "+":
            return new_list(it, ca.items + cb.items)
        if "set" in ca.kind and op in "|&-^":
            sa = list(ca.items)
            sb = list(cb.items)
            ina = [x for x in sa if any(same_value(x, y) for y in sb)]
            outa = [x for x in sa if not any(same_value(x, y) for y in sb)]
            outb = [x for x in sb if not any(same_value(x, y) for y in sa)]
            return new_list(it, {"|": sa + outb, "&": ina, "-": outa, "^": outa + outb}[op], ca.kind)
    if isinstance(ca, ListC) and ca.kind == "list" and op == "*" and not isinstance(b, ARef):
        if isinstance(b, int):
            return new_list(it, ca.items * max(b, 0))
        if isinstance(b, Sym) and b.kind == "i":
            if len(ca.items) == 1:
                return Ref(it.alloc(SymListC(b.e, X.fresh(b.e), ca.items[0])))
            raise Undecided("repeated list")
    if isinstance(cb, ListC) and cb.kind == "list" and op == "*" and not isinstance(a, ARef):
        return binop(it, op, b, a)
    if a is None or b is None:
        it.throw("TypeError", "unsupported operand type(s) for %s: '%s' and '%s'" % (
            op, it.type_name(a), it.type_name(b)))
    if isinstance(a, Masked) or isinstance(b, Masked):
        return masked_op(it, op, a, b)
    if not isinstance(a, ARef) and not isinstance(b, ARef):
        if (isinstance(ca, ListC) or isinstance(a, (tuple, RangeV)) or is_num(a) or isinstance(ca, DictC)) and \
                (isinstance(cb, ListC) or isinstance(b, (tuple, RangeV, str)) or is_num(b) or isinstance(cb, DictC)):
            it.throw("TypeError", "unsupported operand type(s) for %s: '%s' and '%s'" % (
                op, it.type_name(a), it.type_name(b)))
        if isinstance(ca, InstC) or isinstance(cb, InstC) or isinstance(a, (FuncV, BoundV, ClassV)) or \
                isinstance(b, (FuncV, BoundV, ClassV)):
            it.throw("TypeError", "unsupported operand type(s) for %s: '%s' and '%s'" % (
                op, it.type_name(a), it.type_name(b)))
        raise Undecided("operator %s on %r and %r" % (op, a, b))
    return it.new_array(array_op(it, op, a, b))


def masked_op(it, op, a, b):
    if isinstance(a, Masked) and isinstance(b, Masked):
        if a.mask.body is not b.mask.body:
            raise Undecided("different masks")
        return Masked(ew(op, a.arr, b.arr), a.mask)
    m = a if isinstance(a, Masked) else b
    o = it.arr(b if m is a else a)
    if o.ndim:
        raise Undecided("masked selection with an array")
    return Masked(ew(op, m.arr, o) if m is a else ew(op, o, m.arr), m.mask)


def weak_dtype(v):
    """Python scalars do not widen an array's type within a kind."""
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def array_op(it, op, a, b):
    if is_inf(a) or is_inf(b):
        raise Undecided("array with infinity")
    x, y = it.arr(a), it.arr(b)
    if op == "@":
        if x.ndim == 0 or y.ndim == 0:
            raise ShapeError("matmul: Input operand 0 does not have enough dimensions")
        return big_matmul(x, y)
    r = ew(op, x, y)
    if (x.dtype == "f4" and weak_dtype(b)) or (y.dtype == "f4" and weak_dtype(a)):
        r.dtype = "f4"
    return r


def lighten(a, limit=8):
    if len(a.body.t) > limit or a.body.size > 160:
        return AR.let_bind(a)
    return a


def big_matmul(x, y):
    if guard_big(x.body, y.body) or x.body.size + y.body.size > 260:
        x, y = lighten(x, 4), lighten(y, 4)
    try:
        return AR.matmul(x, y)
    except X.TooBig:
        return AR.matmul(AR.let_bind(x), AR.let_bind(y))


def ew(op, x, y):
    if op in "&|^":
        if x.dtype == y.dtype == "b":
            return AR.elementwise(lambda p, q: bool_body(op, p, q), x, y, dtype="b")
        raise Undecided("bit operation on arrays")
    ints = x.dtype in "ib" and y.dtype in "ib"
    dt = AR.promote(x.dtype, y.dtype)
    if dt == "b":
        dt = "i"
    if op == "/":
        dt = "f" if dt in "ib" else dt
    if op == "**" and ints:
        c = const_of(y.body)
        if c is not None and c < 0:
            raise ShapeError("Integers to negative integer powers are not allowed.")
    if op in ("/", "//", "%") and not y.body.t:
        raise Undecided("division by a zero array")
    if op in ("*", "**", "/") and guard_big(x.body, y.body):
        x, y = lighten(x, 4), lighten(y, 4)
    f = lambda p, q: binary_body(op, p, q, ints)
    try:
        return AR.elementwise(f, x, y, dtype=dt)
    except X.TooBig:
        return AR.elementwise(f, AR.let_bind(x), AR.let_bind(y), dtype=dt)


def path_join(it, a, b):
    from .pym import PathV
    ta = a.text if getattr(a, "is_path", False) else a
    tb = b.text if getattr(b, "is_path", False) else b
    if isinstance(ta, str) and isinstance(tb, str):
        return PathV(tb if tb.startswith("/") else ta.rstrip("/") + "/" + tb)
    if isinstance(tb, Unk) or isinstance(ta, Unk):
        raise Undecided("path")
    it.throw("TypeError", "unsupported operand type(s) for /: path and '%s'" % it.type_name(b))


def str_percent(it, s, b):
    args = b if isinstance(b, tuple) else (b,)
    out = []
    for x in args:
        x = it.load(x)
        if isinstance(x, Sym):
            c = int_of(x.e)
            if c is None:
                return Unk("formatted string")
            x = c
        if not isinstance(x, (int, float, str, type(None))):
            return Unk("formatted string")
        out.append(x)
    try:
        return s % tuple(out)
    except (TypeError, ValueError) as e:
        it.throw(type(e).__name__, str(e))


# ---------------------------------------------------------------- comparison

def compare(it, op, a, b):
    if op in ("is", "is not"):
        r = identical(it, a, b)
        if r is None:
            return Unk("identity")
        return r if op == "is" else not r
    if op in ("in", "not in"):
        r = contains(it, b, a)
        if isinstance(r, (bool, int)):
            return bool(r) if op == "in" else not r
        if isinstance(r, Sym):
            return r if op == "in" else Sym(X.bnot(r.e), "b")
        return r
    if isinstance(a, Unk) or isinstance(b, Unk):
        return Unk("comparison with " + (a.reason if isinstance(a, Unk) else b.reason))
    for x, y, o in ((a, b, op), (b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op))):
        cls = inst_class(it, x)
        if cls is not None:
            nm = {"==": "__eq__", "!=": "__ne__", "<": "__lt__", ">": "__gt__", "<=": "__le__", ">=": "__ge__"}[o]
            f = it.class_lookup(cls, nm)
            if f is not MISSING:
                return it.call(BoundV(f, x), [y], {})
            if o == "!=":
                f = it.class_lookup(cls, "__eq__")
                if f is not MISSING:
                    r = it.call(BoundV(f, x), [y], {})
                    return not it.truth(r)
    if is_num(a) and is_num(b):
        return num_compare(it, op, a, b)
    if isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)):
        if isinstance(a, (str, bytes)) and isinstance(b, type(a)):
            return {"==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]
        if op in ("==", "!="):
            if isinstance(a, ARef) or isinstance(b, ARef):
                raise Undecided("array compared with a string")
            return op == "!="
        it.throw("TypeError", "'%s' not supported between instances of '%s' and '%s'" % (
            op, it.type_name(a), it.type_name(b)))
    if isinstance(a, Masked) or isinstance(b, Masked):
        raise Undecided("comparison of masked selection")
    if isinstance(a, ARef) or isinstance(b, ARef):
        if a is None or b is None:
            if op in ("==", "!="):
                raise Undecided("array compared with None")
            it.throw("TypeError", "'%s' not supported with NoneType" % op)
        if is_inf(a) or is_inf(b):
            o = it.arr(a if isinstance(a, ARef) else b)
            v = b if is_inf(b) else a
            res = num_compare(it, op, Sym(X.leaf("fin"), "f"), v) if is_inf(b) else \
                num_compare(it, op, v, Sym(X.leaf("fin"), "f"))
            return it.new_array(Arr(o.shape, const(int(res)), "b"))
        try:
            x, y = it.arr(a), it.arr(b)
            return it.new_array(AR.elementwise(lambda p, q: cmp_body(op, p, q), x, y, dtype="b"))
        except ShapeError:
            if op in ("==", "!="):
                it.throw("ValueError", "operands could not be broadcast together")
            raise
    if op in ("==", "!="):
        r = deep_equal(it, a, b)
        if r is None:
            return Unk("equality")
        if isinstance(r, Sym):
            return r if op == "==" else Sym(X.bnot(r.e), "b")
        return r if op == "==" else not r
    sa, sb = seq_items(it, a), seq_items(it, b)
    if sa is not None and sb is not None and type(a) is type(b):
        for x, y in zip(sa, sb):
            x, y = it.load(x), it.load(y)
            if it.truth(compare(it, "==", x, y)):
                continue
            return compare(it, op, x, y)
        return num_compare(it, op, len(sa), len(sb))
    if a is None or b is None or (sa is not None) != (sb is not None):
        it.throw("TypeError", "'%s' not supported between instances of '%s' and '%s'" % (
            op, it.type_name(a), it.type_name(b)))
    return Unk("comparison")


def cmp_body(op, a, b):
    d = drop_tiny(add(a, scale(b, Fr(-1))))
    if op == "<":
        return X.gt0(scale(d, Fr(-1)))
    if op == ">":
        return X.gt0(d)
    if op == "<=":
        return X.ge0(scale(d, Fr(-1)))
    if op == ">=":
        return X.ge0(d)
    if op == "==":
        return X.eq0(d)
    return X.bnot(X.eq0(d))


def num_compare(it, op, a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return {"==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]
    if is_inf(a) or is_inf(b):
        x = a if is_inf(a) else 0.0
        y = b if is_inf(b) else 0.0
        return {"==": x == y, "!=": x != y, "<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[op]
    e = cmp_body(op, it.num(a), it.num(b))
    return it.val(e, "b")


def seq_items(it, v):
    if isinstance(v, tuple):
        return list(v)
    if isinstance(v, Ref):
        c = it.get(v.oid)
        if isinstance(c, ListC):
            return list(c.items)
    return None


def deep_equal(it, a, b):
    if same_value(a, b):
        return True
    if is_num(a) and is_num(b):
        r = num_compare(it, "==", a, b)
        return r
    if isinstance(a, tuple) and isinstance(b, tuple) or (isinstance(a, Ref) and isinstance(b, Ref)):
        ca = None if isinstance(a, tuple) else it.get(a.oid)
        cb = None if isinstance(b, tuple) else it.get(b.oid)
        if isinstance(ca, DictC) and isinstance(cb, DictC):
            if set(ca.d) != set(cb.d):
                return False
            for k in ca.d:
                r = compare(it, "==", it.load(ca.d[k]), it.load(cb.d[k]))
                if not it.truth(r):
                    return False
            return True
        sa, sb = seq_items(it, a), seq_items(it, b)
        if sa is not None and sb is not None:
            if ca is not None and ca.kind != cb.kind:
                return False
            if len(sa) != len(sb):
                return False
            if ca is not None and "set" in ca.kind:
                return all(any(same_value(x, y) for y in sb) for x in sa)
            out = ONE_E
            for x, y in zip(sa, sb):
                x, y = it.load(x), it.load(y)
                if is_num(x) and is_num(y):
                    r = num_compare(it, "==", x, y)
                    out = mul(out, r.e if isinstance(r, Sym) else const(int(r)))
                elif not it.truth(compare(it, "==", x, y)):
                    return False
            return it.val(out, "b")
        if isinstance(ca, InstC) and isinstance(cb, InstC):
            return a.oid == b.oid
        return None if ca is None or cb is None else a.oid == b.oid
    if isinstance(a, (PyFn, TypeV)) and isinstance(b, (PyFn, TypeV)):
        return a.name == b.name
    if isinstance(a, DtypeV) or isinstance(b, DtypeV):
        try:
            return dtype_of(it, a) == dtype_of(it, b)
        except Undecided:
            return None
    if type(a) is type(b) and hasattr(a, "__eq__") and not isinstance(a, (FuncV, ClassV)):
        return a == b
    return False


def identical(it, a, b):
    if isinstance(a, Unk) or isinstance(b, Unk):
        o = b if isinstance(a, Unk) else a
        return None
    if a is b:
        return True
    if a is None or b is None:
        return False
    if isinstance(a, bool) or isinstance(b, bool):
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, Sym) and a.kind == "b" or isinstance(b, Sym) and b.kind == "b":
            return None
        return False
    if isinstance(a, (int, str)) and type(a) is type(b):
        return a == b
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a.oid == b.oid
    if isinstance(a, ARef) and isinstance(b, ARef):
        if a.oid != b.oid:
            return False
        return True if a.chain == b.chain == () else None
    if isinstance(a, BoundV):
        return False
    if type(a) is not type(b):
        return False
    if isinstance(a, (PyFn, TypeV)):
        return a.name == b.name
    if isinstance(a, float):
        return None
    return False


def contains(it, box, x):
    if isinstance(box, Unk) or isinstance(x, Unk):
        return Unk("membership")
    if isinstance(box, str):
        if isinstance(x, str):
            return x in box
        it.throw("TypeError", "'in <string>' requires string as left operand")
    if isinstance(box, RangeV):
        items = it.iterate(box)
        return any_equal(it, items, x)
    if isinstance(box, tuple):
        return any_equal(it, list(box), x)
    if isinstance(box, ARef):
        a = it.arr(box)
        m = a.map(lambda e: X.eq0(add(e, scale(it.num(x), Fr(-1)))), "b")
        return it.new_array(reduce_any(m, None))
    if isinstance(box, Ref):
        c = it.get(box.oid)
        if isinstance(c, ListC):
            return any_equal(it, list(c.items), x)
        if isinstance(c, DictC):
            k = it.key(x)
            if k in c.d:
                return True
            if isinstance(k, Sym) or any(isinstance(q, Sym) for q in c.d):
                return Unk("membership")
            return False
        if isinstance(c, SymListC):
            return Unk("membership")
        if isinstance(c, InstC):
            f = it.class_lookup(c.cls, "__contains__")
            if f is not MISSING:
                return it.call(BoundV(f, box), [x], {})
            return any_equal(it, it.iterate(box), x)
        h = getattr(c, "contains", None)
        if h is not None:
            return h(it, box, x)
        return any_equal(it, it.iterate(box), x)
    h = getattr(box, "contains", None)
    if h is not None:
        return h(it, box, x)
    if box is None or is_num(box):
        it.throw("TypeError", "argument of type '%s' is not iterable" % it.type_name(box))
    return Unk("membership")


def any_equal(it, items, x):
    unknown = False
    conds = []
    for y in items:
        y = it.load(y)
        if isinstance(y, Unk):
            unknown = True
            continue
        r = compare(it, "==", y, x) if not same_value(x, y) else True
        if isinstance(r, ARef):
            it.throw("ValueError", "The truth value of an array with more than one element is ambiguous")
        if r is True:
            return True
        if isinstance(r, Sym):
            conds.append(r.e)
        elif isinstance(r, Unk):
            unknown = True
    if unknown:
        return Unk("membership")
    if conds:
        return it.val(AR.not_all([X.bnot(c) for c in conds]), "b")
    return False


# -------------------------------------------------------------------- dtypes

DT_NAMES = {"float": "f", "float64": "f", "double": "f", "f8": "f", "d": "f", "float32": "f4", "single": "f4",
            "f4": "f4", "float16": "f4", "int": "i", "int64": "i", "int32": "i", "int16": "i", "int8": "i",
            "uint8": "i", "intp": "i", "i8": "i", "i4": "i", "i": "i", "f": "f4", "bool": "b", "bool_": "b",
            "complex": "c", "complex128": "c", "object": "O", "str": "S", "floating": "f", "integer": "i",
            "int_": "i", "float_": "f", "longdouble": "f", "uint64": "i", "uint32": "i"}


def dtype_of(it, v):
    v = it.load(v)
    if v is None:
        return None
    if isinstance(v, DtypeV):
        return v.code
    if isinstance(v, (TypeV, PyFn)):
        n = v.name.split(".")[-1]
        if n in DT_NAMES and n != "f":
            return DT_NAMES[n]
    if isinstance(v, str):
        n = v.lstrip("<>=|")
        if n in DT_NAMES:
            return DT_NAMES[n]
        it.throw("TypeError", "data type '%s' not understood" % v)
    if isinstance(v, ARef):
        return it.arr(v).dtype
    raise Undecided("dtype %r" % (v,))


def dt(it, k, default, i=None, a=()):
    d = k.pop("dtype", None)
    c = dtype_of(it, d) if d is not None else None
    return c or default


def cast_call(it, code, args):
    if not args:
        return {"f": Sym(ZERO, "f"), "i": 0, "b": False}.get(code, Sym(ZERO, "f"))
    v = it.load(args[0])
    if isinstance(v, Unk):
        return v
    if isinstance(v, str):
        raise Undecided("number from text")
    if is_inf(v):
        return v
    return it.new_array(it.cast(it.arr(v), code))


# ----------------------------------------------------------- unary functions

UNARY_INT_OK = {"abs", "negative", "sign", "square", "positive", "conj", "conjugate", "real", "ceil", "floor",
                "rint", "trunc"}


def unary_body(name, e):
    if name in ("abs", "absolute", "fabs"):
        return X.absval(e)
    if name == "negative":
        return scale(e, Fr(-1))
    if name in ("positive", "conj", "conjugate", "real"):
        return e
    if name == "sign":
        return X.sign(e)
    if name == "sqrt":
        return X.power(e, Fr(1, 2))
    if name == "square":
        return mul(e, e)
    if name == "reciprocal":
        return X.power(e, Fr(-1))
    if name in ("isnan", "isinf"):
        return ZERO
    if name == "isfinite":
        return ONE_E
    if name in ("ceil", "floor", "rint", "trunc") and X.is_int(e):
        return e
    if name == "cbrt":
        if X.nonneg(e):
            return X.power(e, Fr(1, 3))
        return mul(X.sign(e), X.power(X.absval(e), Fr(1, 3)))
    return X.fn(name, e)


def unary(it, name, v, scalar_only=False):
    v = it.load(v)
    if isinstance(v, Unk):
        return Unk(name + " of " + v.reason)
    if is_inf(v):
        import math
        if name in ("isnan", "isinf", "isfinite"):
            return getattr(math, name)(v)
        if name in ("abs", "absolute", "fabs"):
            return abs(v)
        if name in ("sqrt", "exp", "log", "square") and v > 0:
            return v
        if name == "negative":
            return -v
        if name == "sign" and v == v:
            return 1 if v > 0 else -1
        raise Undecided(name + " of infinity")
    if isinstance(v, Masked):
        return Masked(v.arr.map(lambda e: unary_body(name, e)), v.mask)
    cls = inst_class(it, v)
    if cls is not None and name == "abs":
        f = it.class_lookup(cls, "__abs__")
        if f is not MISSING:
            return it.call(BoundV(f, v), [], {})
    if v is None or isinstance(v, (str, FuncV)):
        it.throw("TypeError", "bad operand type for %s: '%s'" % (name, it.type_name(v)))
    a = it.arr(v)
    if scalar_only and a.ndim:
        it.throw("TypeError", "only size-1 arrays can be converted to Python scalars")
    d = a.dtype
    if name in ("isnan", "isinf", "isfinite"):
        d = "b"
    elif d in "ib" and name not in UNARY_INT_OK and name not in ("absolute", "fabs"):
        d = "f"
    elif d == "b":
        d = "i"
    if name in ("ceil", "floor", "trunc") and scalar_only:
        d = "i"
    r = a.map(lambda e: unary_body(name, e), d)
    if a.ndim == 0 and isinstance(v, int) and name in ("abs", "absolute", "negative", "sign", "square"):
        return it.val(r.body, "i")
    return it.new_array(r)


# ---------------------------------------------------------------- reductions

def axes_of(it, axis, nd):
    axis = it.load(axis)
    if axis is None:
        return list(range(nd))
    if isinstance(axis, Sym):
        c = int_of(axis.e)
        if c is None:
            raise Undecided("symbolic axis")
        axis = c
    if isinstance(axis, int):
        return [AR.norm_axis(axis, nd)]
    items = seq_items(it, axis)
    if items is not None:
        out = [AR.norm_axis(x, nd) for x in items]
        if len(set(out)) != len(out):
            raise ShapeError("duplicate value in 'axis'")
        return out
    raise Undecided("axis")


def keep(a, axes, r, keepdims):
    """Reinserts reduced axes of length one."""
    if not keepdims:
        return r
    spec = []
    for k in range(a.ndim):
        spec.append(("n",) if k in axes else ("s", ZERO, a.shape[k], 1))
    return AR.spec_get(r, tuple(spec))


def reduce_sum(a, axes):
    if not axes:
        return a
    if a.body.size > 400:
        a = AR.let_bind(a)
    return AR.reduce_sum(a, axes)


def reduce_any(a, axes):
    axes = list(range(a.ndim)) if axes is None else axes
    conc = 1
    for k in axes:
        n = int_of(a.shape[k])
        conc = None if n is None or conc is None else conc * n
    if conc is not None and conc <= 16:
        return fold_axes(a, axes, lambda x, y: bool_body("|", x, y), ZERO, "b")
    s = AR.reduce_sum(a, axes)
    return Arr(s.shape, X.ge0(add(s.body, const(-1))), "b")


def reduce_all(a, axes):
    axes = list(range(a.ndim)) if axes is None else axes
    inv = a.map(X.bnot)
    r = reduce_any(inv, axes)
    return r.map(X.bnot)


def fold_axes(a, axes, f, empty, dtype):
    """Left fold over axes of concrete length."""
    import itertools
    ns = []
    for k in axes:
        n = int_of(a.shape[k])
        if n is None:
            raise Undecided("fold over a symbolic axis")
        ns.append(n)
    out = None
    shape = [s for k, s in enumerate(a.shape) if k not in axes]
    for ix in itertools.product(*[range(n) for n in ns]):
        spec = [("s", ZERO, s, 1) for s in a.shape]
        for k, i in zip(axes, ix):
            spec[k] = ("i", const(i))
        p = AR.spec_get(a, tuple(spec))
        out = p.body if out is None else f(out, p.body)
    if out is None:
        if empty is None:
            raise ShapeError("zero-size array to reduction operation which has no identity")
        out = empty
    return Arr(shape, out, dtype)


def to_bool(a):
    if a.dtype == "b":
        return a
    return a.map(lambda e: X.bnot(X.eq0(e)), "b")


def reduction(it, name, v, axis, keepdims=False, dtype=None, where=None):
    v = it.load(v)
    if isinstance(v, Unk):
        return Unk(name + " of " + v.reason)
    if isinstance(v, Masked):
        if name in ("sum", "nansum") and axis is None:
            a = Arr(v.arr.shape, mul(v.arr.body, v.mask.body), v.arr.dtype)
            return it.new_array(reduce_sum(a, list(range(a.ndim))))
        if name in ("any", "all") and axis is None:
            b = to_bool(v.arr)
            if name == "any":
                return it.new_array(reduce_any(Arr(b.shape, mul(b.body, v.mask.body), "b"), None))
            return it.new_array(reduce_all(Arr(b.shape, bool_body("|", b.body, X.bnot(v.mask.body)), "b"), None))
        raise Undecided(name + " of masked selection")
    items = seq_items(it, v)
    if items is not None and any(is_inf(it.load(x)) for x in items):
        xs = [it.load(x) for x in items]
        if all(isinstance(x, (int, float)) for x in xs):
            if name in ("max", "amax"):
                return max(xs)
            if name in ("min", "amin"):
                return min(xs)
            if name == "any":
                return any(xs)
            if name == "all":
                return all(xs)
        raise Undecided(name + " with infinity")
    a = it.arr(v)
    axes = axes_of(it, axis, a.ndim)
    if keepdims not in (True, False):
        raise Undecided("keepdims")
    if name in ("sum", "nansum"):
        r = reduce_sum(a, axes)
    elif name in ("mean", "average", "nanmean"):
        s = reduce_sum(a, axes)
        n = ONE_E
        for k in axes:
            n = mul(n, a.shape[k])
        if not n.t:
            raise Undecided("mean of an empty array")
        r = Arr(s.shape, mul(s.body, X.power(n, Fr(-1))), "f" if a.dtype in "ib" else a.dtype)
    elif name in ("any", "all"):
        b = to_bool(a)
        r = reduce_any(b, axes) if name == "any" else reduce_all(b, axes)
    elif name == "prod":
        r = a
        for k in sorted(axes, reverse=True):
            q = AR.reduce_mul(r, k)
            if q is None:
                q = opaque_reduce("prod", r, k)
            r = q
        r = Arr(r.shape, r.body, "i" if a.dtype in "ib" else a.dtype)
    elif name in ("max", "amax", "min", "amin", "nanmax", "nanmin"):
        fn = "max" if "max" in name else "min"
        for k in axes:
            if int_of(a.shape[k]) == 0:
                raise ShapeError("zero-size array to reduction operation %simum which has no identity" % fn)
        if all(int_of(a.shape[k]) is not None and int_of(a.shape[k]) <= 12 for k in axes):
            r = fold_axes(a, axes, lambda x, y: X.fn(fn, x, y), None, a.dtype)
            r = Arr(r.shape, flatten_fn(fn, r.body), r.dtype)
        else:
            r = a
            for k in sorted(axes, reverse=True):
                r = opaque_reduce("a" + fn, r, k)
    elif name in ("var", "std"):
        n = ONE_E
        for k in axes:
            n = mul(n, a.shape[k])
        m = keep(a, axes, reduce_sum(a, axes), True)
        m = m.map(lambda e: mul(e, X.power(n, Fr(-1))), "f")
        d = AR.elementwise(lambda p, q: mul(add(p, scale(q, Fr(-1))), add(p, scale(q, Fr(-1)))), a, m)
        r = reduce_sum(d, axes)
        r = r.map(lambda e: mul(e, X.power(n, Fr(-1))), "f")
        if name == "std":
            r = r.map(lambda e: X.power(e, Fr(1, 2)))
    elif name == "count_nonzero":
        r = reduce_sum(to_bool(a), axes)
    else:
        raise Undecided("reduction " + name)
    r = keep(a, axes, r, keepdims)
    if dtype is not None:
        r = it.cast(r, dtype)
    if r.ndim == 0 and r.dtype == "i":
        return it.val(r.body, "i")
    return it.new_array(r)


def flatten_fn(name, e):
    """max(max(a,b),c) -> max(a,b,c)."""
    if len(e.t) == 1 and len(e.t[0][0]) == 1 and e.t[0][1] == 1:
        at, x = e.t[0][0][0]
        if x == 1 and at.kind == "fn" and at.args[0] == name:
            flat = []

            def walk(q):
                if len(q.t) == 1 and q.t[0][1] == 1 and len(q.t[0][0]) == 1 and q.t[0][0][0][1] == 1 and \
                        q.t[0][0][0][0].kind == "fn" and q.t[0][0][0][0].args[0] == name:
                    for s in q.t[0][0][0][0].args[1]:
                        walk(s)
                elif q not in flat:
                    flat.append(q)
            walk(e)
            flat.sort(key=lambda q: q.id)
            return X.from_atom(X._fn_atom(name, tuple(flat)))
    return e


def opaque_reduce(kind, a, axis):
    """A value-numbered reduction over one axis."""
    v = AR.axis_var(axis, a.shape[axis])
    perm = [axis] + [k for k in range(a.ndim) if k != axis]
    t = AR.transpose(a, perm)
    # remaining axes become free variables of the 1-d operand
    ren = {AR.axis_var(j, t.shape[j]): from_atom(X.fresh(t.shape[j], "r")) for j in range(1, t.ndim)
           if t.shape[j] is not ONE_E}
    body = X.subst(t.body, ren)
    vec = Arr((t.shape[0],), body, a.dtype)
    nm, fv = AR.opaque_name(kind, vec)
    if a.body.unk:
        nm = "?" + nm
    if X.nonneg(a.body):
        X.leaf_info(nm, nonneg=True)
    back = {e.t[0][0][0][0]: from_atom(AR.axis_var(k.args[0] and int(k.args[0][1:]) - 1, k.args[1]))
            for k, e in ren.items()}
    e = X.subst(X.leaf(nm, *fv), back)
    return Arr([s for k, s in enumerate(a.shape) if k != axis], e, a.dtype)


# ------------------------------------------------------------ linear algebra

def opq(kind, *args):
    nm, fv = AR.opaque_name(kind, *args)
    if any(isinstance(a, Arr) and a.body.unk for a in args) or any(f.unk for f in fv):
        nm = "?" + nm
    return nm, fv


def prep(a):
    """Operand of an opaque operation, lightened if large."""
    if a.body.size > 300 or len(a.body.t) > 12:
        return AR.let_bind(a)
    return a


SVD_KEYS = {}


def need_nd(a, nd, name):
    if a.ndim != nd:
        if name in ("svd", "qr", "inv", "pinv", "solve") and a.ndim > nd:
            raise Undecided("stacked " + name)
        err = ShapeError("%d-dimensional array given. Array must be at least two-dimensional" % a.ndim)
        raise err


def orthonormal(name, rows, cols):
    """The leaf's columns are orthonormal; so are its rows if it is square."""
    X.leaf_info(name, orth={0: rows, 1: cols} if X.lift(rows) is X.lift(cols) else {0: rows})


def svd_parts(a):
    """(name, free slots, transposed) of the canonical factorisation of a or a^T."""
    t = AR.transpose(a, [1, 0])
    n1, f1 = AR.opaque_name("svd", a)
    n2, f2 = AR.opaque_name("svd", t)
    k1, k2 = int(n1.split("#")[1]), int(n2.split("#")[1])
    flip = k2 < k1
    nm, fv = (n2, f2) if flip else (n1, f1)
    num = nm.split("#")[1]
    unk = "?" if a.body.unk else ""
    nu, ns, nv = ("%ssvd%s#%s" % (unk, p, num) for p in "USV")
    rows, cols = a.shape[::-1] if flip else a.shape
    k = X.imin(rows, cols)
    orthonormal(nu, rows, k)
    orthonormal(nv, cols, k)
    X.leaf_info(ns, nonneg=True)
    return nu, ns, nv, fv, flip


def svd(a, full=False):
    need_nd(a, 2, "svd")
    a = prep(a)
    m, n = a.shape
    k = X.imin(m, n)
    nu, ns, nv, fv, flip = svd_parts(a)
    if flip:
        nu, nv = nv, nu
    U = AR.make((m, m if full else k), lambda i, r: X.leaf(nu, i, r, *fv))
    S = AR.make((k,), lambda r: X.leaf(ns, r, *fv))
    Vh = AR.make((n if full else k, n), lambda r, j: X.leaf(nv, j, r, *fv))
    return U, S, Vh


def pinv(a):
    U, S, Vh = svd(a)
    Sp = S.map(lambda s: mul(X.power(s, Fr(-1)), X.bnot(X.eq0(s))))
    return AR.einsum("kj,k,ik->ji", Vh, Sp, U)


def inv(a):
    need_nd(a, 2, "inv")
    if not AR.same_dim(a.shape[0], a.shape[1]):
        raise ShapeError("Last 2 dimensions of the array must be square")
    if a.shape[0] is ONE_E:
        return Arr(a.shape, X.power(a.at([ZERO, ZERO]), Fr(-1)), "f")
    a = prep(a)
    t = AR.transpose(a, [1, 0])
    n1, f1 = opq("inv", a)
    n2, f2 = opq("inv", t)
    flip = int(n2.split("#")[1]) < int(n1.split("#")[1])
    if flip:
        return AR.make(a.shape, lambda i, j: X.leaf(n2, j, i, *f2))
    return AR.make(a.shape, lambda i, j: X.leaf(n1, i, j, *f1))


def solve(a, b):
    if b.ndim == 1:
        return big_matmul(inv(a), b)
    if b.ndim != 2:
        raise Undecided("solve")
    return big_matmul(inv(a), b)


def lstsq(a, b):
    need_nd(a, 2, "lstsq")
    if b.ndim not in (1, 2):
        raise ShapeError("lstsq")
    if not AR.same_dim(a.shape[0], b.shape[0]):
        raise ShapeError("Incompatible dimensions")
    return big_matmul(pinv(a), b)


def has_orthonormal_columns(a):
    n = a.shape[1]
    if not any("svd" in r or "qr" in r or "orth" in X.LEAF.get(r, ()) for r in AR.root_leaves(a.body)):
        return False
    try:
        g = big_matmul(AR.transpose(a, [1, 0]), a)
        d = add(g.body, scale(AR.make((n, n), lambda i, j: X.eq0(add(i, scale(j, -1)))).body, -1))
        if AR.unlike(d):
            return False
        with X.fuel(AR.EQUAL_FUEL):
            return AR.vanishes(d, limit=10, size=2500)[0]
    except X.TooBig:
        return False


def qr(a):
    need_nd(a, 2, "qr")
    plain, a = a, prep(a)
    m, n = a.shape
    k = X.imin(m, n)
    nm, fv = AR.opaque_name("qr", a)
    num = nm.split("#")[1]
    unk = "?" if a.body.unk else ""
    nq, nr = unk + "qrQ#" + num, unk + "qrR#" + num
    orthonormal(nq, m, k)
    R = AR.make((k, n), lambda r, j: X.leaf(nr, r, j, *fv))
    if k is n:
        # orthonormal columns are only given other signs: those of the diagonal of R
        if has_orthonormal_columns(plain):
            signs = AR.make((n,), lambda r: add(ONE_E, scale(X.gt0(scale(X.leaf(nr, r, r, *fv), -1)), -2)))
            return AR.elementwise(mul, plain, signs), R
    return AR.make((m, k), lambda i, r: X.leaf(nq, i, r, *fv)), R


def nnls(it, a, b):
    need_nd(a, 2, "nnls")
    if b.ndim == 2 and b.shape[1] is ONE_E:
        b = AR.spec_get(b, (("s", ZERO, b.shape[0], 1), ("i", ZERO)))
    if b.ndim != 1:
        it.throw("ValueError", "Expected a 1-D array, but the shape of b is %s" % (list(b.shape),))
    if not AR.same_dim(a.shape[0], b.shape[0]):
        it.throw("ValueError", "Incompatible dimensions. The first dimension of A is %s, while the shape of b is %s"
                 % (a.shape[0], list(b.shape)))
    a, b = prep(a), prep(b)
    nm, fv = AR.opaque_name("nnls", a, b)
    if a.body.unk or b.body.unk:
        nm = "?" + nm
    X.leaf_info(nm, nonneg=True)
    x = AR.make((a.shape[1],), lambda r: X.leaf(nm, r, *fv))
    X.leaf_info(nm + "r", nonneg=True)
    return x, X.leaf(nm + "r", *fv)


def norm(it, v, ord_=None, axis=None, keepdims=False):
    if isinstance(v, Masked):
        if ord_ is not None or axis is not None:
            raise Undecided("norm")
        a = Arr(v.arr.shape, mul(v.arr.body, v.mask.body), v.arr.dtype)
    else:
        a = it.arr(v)
    ord_ = it.load(ord_)
    axis = it.load(axis)
    if ord_ is not None:
        nd = a.ndim if axis is None else (1 if isinstance(axis, int) else 2)
        if ord_ == "fro" and nd == 2 or (ord_ == 2 and nd == 1):
            pass
        elif ord_ == 1 and nd == 1:
            axes = axes_of(it, axis, a.ndim)
            r = reduce_sum(a.map(X.absval), axes)
            return it.new_array(keep(a, axes, r, keepdims))
        elif nd == 1 and is_inf(ord_) and ord_ > 0:
            return reduction(it, "max", unary(it, "abs", v), axis, keepdims)
        elif nd > 2:
            raise ShapeError("Improper number of dimensions to norm.")
        else:
            raise Undecided("matrix norm")
    axes = axes_of(it, axis, a.ndim)
    if len(axes) > 2 and axis is not None:
        raise ShapeError("Improper number of dimensions to norm.")
    if a.body.size > 120 or len(a.body.t) > 10:
        a = AR.let_bind(a)
    sq = a.map(lambda e: mul(e, e), "f" if a.dtype in "ib" else a.dtype)
    r = reduce_sum(sq, axes)
    r = r.map(lambda e: X.power(e, Fr(1, 2)))
    return it.new_array(keep(a, axes, r, keepdims))


# ------------------------------------------------------------- array methods

def contiguous(it, ref):
    """Is the view certainly C-contiguous?"""
    for op in ref.chain:
        if op[0] == "perm":
            return False
        if op[0] == "idx":
            sp = [s for s in op[1] if s[0] != "n"]
            k = 0
            while k < len(sp) and sp[k][0] == "i":
                k += 1
            if k < len(sp) and sp[k][0] == "s" and sp[k][3] == 1:
                k += 1
            base = it.get(ref.oid).arr
            cur = base
            from .interp import view_get
            for o in ref.chain[:ref.chain.index(op)]:
                cur = view_get(o, cur)
            for j in range(k, len(sp)):
                s = sp[j]
                if not (s[0] == "s" and s[1] is ZERO and s[3] == 1 and s[2] is cur.shape[j]):
                    return False
    return True


def shape_arg(it, v):
    v = it.load(v)
    if isinstance(v, (int, Sym)) and not isinstance(v, bool):
        if isinstance(v, Sym) and v.kind == "f" and not (const_of(v.e) is None and X.is_int(v.e)):
            it.throw("TypeError", "'float' object cannot be interpreted as an integer")
        return [it.num(v)]
    if isinstance(v, float):
        it.throw("TypeError", "'float' object cannot be interpreted as an integer")
    if isinstance(v, Unk):
        raise Undecided("shape " + v.reason)
    if v is None:
        it.throw("TypeError", "expected a sequence of integers or a single integer, got None")
    out = []
    for x in it.iterate(v):
        x = it.load(x)
        if isinstance(x, float) or isinstance(x, Sym) and x.kind == "f" and not X.is_int(x.e) or x is None:
            it.throw("TypeError", "'%s' object cannot be interpreted as an integer" % it.type_name(x))
        if isinstance(x, (Unk,)):
            raise Undecided("shape " + x.reason)
        if isinstance(x, ARef):
            xa = it.arr(x)
            if xa.ndim:
                it.throw("TypeError", "only integer scalar arrays can be converted to a scalar index")
            out.append(xa.body)
            continue
        out.append(it.num(x))
    return out


def in_memory(it, ref, order):
    """The array as it is read in memory order, for views that only permute the axes of an array."""
    if len(ref.chain) != 1 or ref.chain[0][0] != "perm":
        raise Undecided("memory order of a view")
    p = ref.chain[0][1]
    if order == "A":
        return ref, "F" if list(p) == list(range(len(p)))[::-1] else "C"
    return it.new_array(AR.transpose(it.arr(ref), sorted(range(len(p)), key=lambda j: p[j]))), "C"


def do_reshape(it, ref, shape, order="C"):
    order = it.load(order)
    if order not in ("C", "F", "A", "K"):
        raise Undecided("order")
    if order in ("A", "K") and isinstance(ref, ARef) and ref.chain and it.arr(ref).ndim > 1 and not contiguous(it, ref):
        ref, order = in_memory(it, ref, order)
    a = it.arr(ref)
    r = AR.reshape(a, shape, "F" if order == "F" else "C")
    if isinstance(ref, ARef) and order != "F" and contiguous(it, ref):
        if r.ndim == 0:
            return it.new_array(r)
        return ARef(ref.oid, ref.chain + (("reshape", tuple(r.shape)),))
    if isinstance(ref, ARef) and order == "F" and a.ndim <= 1 and r.ndim <= 1:
        return ref
    return it.new_array(r)


def do_transpose(it, ref, axes):
    a = it.arr(ref)
    if axes is None:
        perm = tuple(range(a.ndim))[::-1]
    else:
        perm = []
        for x in it.iterate(axes):
            x = it.load(x)
            if isinstance(x, Sym):
                x = int_of(x.e)
            perm.append(AR.norm_axis(x, a.ndim))
        if len(perm) != a.ndim:
            raise ShapeError("axes don't match array")
        if sorted(perm) != list(range(a.ndim)):
            raise ShapeError("repeated axis in transpose")
        perm = tuple(perm)
    return permuted(it, ref, perm)


def permuted(it, ref, perm):
    perm = tuple(perm)
    if perm == tuple(range(len(perm))):
        return ref if isinstance(ref, ARef) else it.new_array(it.arr(ref))
    if isinstance(ref, ARef):
        if ref.chain and ref.chain[-1][0] == "perm":
            p0 = ref.chain[-1][1]
            comb = tuple(p0[p] for p in perm)
            base = ref.chain[:-1]
            if comb == tuple(range(len(comb))):
                return ARef(ref.oid, base)
            return ARef(ref.oid, base + (("perm", comb),))
        return ARef(ref.oid, ref.chain + (("perm", perm),))
    return it.new_array(AR.transpose(it.arr(ref), perm))


def py_int(e, it):
    return it.val(e, "i")


def meth(name, g, o):
    return PyFn("ndarray." + name, lambda it, a, k: g(it, o, a, k))


def array_attr(it, o, name):
    if name == "shape":
        return tuple(it.val(s, "i") for s in it.arr(o).shape)
    if name == "T":
        a = it.arr(o)
        if a.ndim < 2:
            return o
        return permuted(it, o, tuple(range(a.ndim))[::-1])
    if name == "ndim":
        return it.arr(o).ndim
    if name == "size":
        return it.val(it.arr(o).size(), "i")
    if name == "dtype":
        return DtypeV(it.arr(o).dtype)
    if name in ("real",):
        return o
    if name == "flat":
        return do_reshape(it, o, [const(-1)])
    if name in ("nbytes", "itemsize", "strides", "data", "flags", "base", "ctypes", "imag"):
        return Unk("array." + name)
    g = METHODS.get(name)
    if g is None:
        if name in ND_NAMES:
            return it.unk("ndarray." + name)
        return MISSING
    return meth(name, g, o)


ND_NAMES = {"argpartition", "byteswap", "choose", "compress", "dump", "dumps", "getfield", "newbyteorder",
            "partition", "put", "searchsorted", "setfield", "setflags", "tobytes", "tofile",
            "tostring", "view", "nonzero", "resize", "take", "argsort", "sort", "ptp"}


def m_reshape(it, o, a, k):
    k = dict(k)
    order = k.pop("order", "C")
    if "shape" in k:
        a = [k.pop("shape")]
    if k:
        it.throw("TypeError", "reshape() got an unexpected keyword argument")
    if len(a) == 1:
        sh = shape_arg(it, a[0])
    else:
        sh = shape_arg(it, tuple(a))
    return do_reshape(it, o, sh, order)


def m_transpose(it, o, a, k):
    if not a:
        return do_transpose(it, o, k.get("axes"))
    if len(a) == 1:
        x = it.load(a[0])
        if x is None:
            return do_transpose(it, o, None)
        if isinstance(x, int):
            return do_transpose(it, o, (x,))
        return do_transpose(it, o, x)
    return do_transpose(it, o, tuple(a))


def m_red(name):
    def g(it, o, a, k):
        names = ["axis", "dtype", "out"] if name in ("sum", "mean", "prod", "var", "std") else ["axis", "out"]
        p = params(it, name, names + ["keepdims", "initial", "where", "ddof"], a, k)
        if p.get("out") is not None or p.get("where", True) is not True or p.get("initial") is not None or \
                p.get("ddof") not in (None, 0):
            raise Undecided("reduction options")
        return reduction(it, name, o, p.get("axis"), it.load(p.get("keepdims", False)),
                         dtype_of(it, p.get("dtype")))
    return g


def m_copy(it, o, a, k):
    return fresh_copy(it, it.arr(o))


def fresh_copy(it, a):
    if a.ndim == 0:
        return it.new_array(a)
    return ARef(it.alloc(Buf(a)))


def m_astype(it, o, a, k):
    p = params(it, "astype", ["dtype", "order", "casting", "subok", "copy"], a, k, 1)
    d = dtype_of(it, p["dtype"])
    x = it.arr(o)
    if it.load(p.get("copy", True)) is False and x.dtype == d:
        return o
    return fresh_copy(it, it.cast(x, d)) if isinstance(o, ARef) else it.new_array(it.cast(x, d))


def m_ravel(it, o, a, k):
    p = params(it, "ravel", ["order"], a, k)
    return do_reshape(it, o, [const(-1)], p.get("order", "C"))


def m_flatten(it, o, a, k):
    p = params(it, "flatten", ["order"], a, k)
    order = p.get("order", "C")
    if order in ("A", "K") and isinstance(o, ARef) and o.chain and it.arr(o).ndim > 1 and not contiguous(it, o):
        o, order = in_memory(it, o, order)
    r = AR.reshape(it.arr(o), [const(-1)], "F" if order == "F" else "C")
    return fresh_copy(it, r)


def m_item(it, o, a, k):
    x = it.arr(o)
    if a:
        return it.getitem(o, tuple(a) if len(a) > 1 else a[0])
    n = int_of(x.size())
    if n == 1:
        return Sym(x.at([ZERO] * x.ndim), {"i": "i", "b": "b"}.get(x.dtype, "f"))
    if n is None and not X.int_nonneg(add(x.size(), const(-2))):
        raise Undecided("item of an array of symbolic size")
    it.throw("ValueError", "can only convert an array of size 1 to a Python scalar")


def m_tolist(it, o, a, k):
    x = it.arr(o)
    if x.ndim == 0:
        return it.new_array(x)
    n = int_of(x.shape[0])
    if n is None:
        raise Undecided("tolist of symbolic length")
    return new_list(it, [m_tolist(it, y, [], {}) if isinstance(y, ARef) else y for y in it.iterate(o)])


def m_fill(it, o, a, k):
    it.setitem(o, SliceV(None, None, None) if it.arr(o).ndim else Ellipsis, a[0])
    return None


def m_dot(it, o, a, k):
    return it.new_array(dot(it.arr(o), it.arr(a[0])))


def dot(x, y):
    if x.ndim == 0 or y.ndim == 0:
        return ew("*", x, y)
    if x.ndim <= 2 and y.ndim <= 2:
        return big_matmul(x, y)
    if y.ndim == 1:
        return big_matmul(x, y)
    # sum over the last axis of x and the second-to-last of y
    lx = "abcdefg"[:x.ndim - 1]
    ly = "hijklmn"[:y.ndim - 1]
    return AR.contract(x, y, lx + "z", ly[:-1] + "z" + ly[-1], lx + ly)


def m_squeeze(it, o, a, k):
    p = params(it, "squeeze", ["axis"], a, k)
    return squeeze(it, o, p.get("axis"))


def squeeze(it, o, axis=None):
    x = it.arr(o)
    if axis is None:
        drop = [j for j, s in enumerate(x.shape) if s is ONE_E]
        for s in x.shape:
            if s is not ONE_E and int_of(s) is None and not X.int_nonneg(add(s, const(-2))):
                # a size that could be one: keep the axis (the generic case)
                pass
    else:
        drop = axes_of(it, axis, x.ndim)
        for j in drop:
            if x.shape[j] is not ONE_E:
                raise ShapeError("cannot select an axis to squeeze out which has size not equal to one")
    if not drop:
        return o if isinstance(o, ARef) else it.new_array(x)
    spec = tuple(("i", ZERO) if j in drop else ("s", ZERO, s, 1) for j, s in enumerate(x.shape))
    r = AR.spec_get(x, spec)
    if r.ndim == 0 or not isinstance(o, ARef):
        return it.new_array(r)
    return ARef(o.oid, o.chain + (("idx", spec),))


def m_diagonal(it, o, a, k):
    return it.new_array(diagonal(it, it.arr(o)))


def diagonal(it, x, n=0, axis1=0, axis2=1):
    if x.ndim != 2 or n != 0:
        if x.ndim == 2:
            raise Undecided("off-diagonal")
        if x.ndim < 2:
            raise ShapeError("diag requires an array of at least two dimensions")
        raise Undecided("diagonal of a stack")
    d = X.imin(x.shape[0], x.shape[1])
    return AR.make((d,), lambda i: x.at([i, i]), x.dtype)


def m_trace(it, o, a, k):
    return it.new_array(reduce_sum(diagonal(it, it.arr(o)), [0]))


def m_swapaxes(it, o, a, k):
    x = it.arr(o)
    p = list(range(x.ndim))
    i, j = AR.norm_axis(a[0], x.ndim), AR.norm_axis(a[1], x.ndim)
    p[i], p[j] = p[j], p[i]
    return permuted(it, o, p)


def m_clip(it, o, a, k):
    p = params(it, "clip", ["min", "max", "out", "a_min", "a_max"], a, k)
    x = it.arr(o)
    lo, hi = p.get("min", p.get("a_min")), p.get("max", p.get("a_max"))
    if lo is not None and not is_inf(it.load(lo)):
        x = AR.elementwise(lambda q, w: X.fn("max", q, w), x, it.arr(lo))
    if hi is not None and not is_inf(it.load(hi)):
        x = AR.elementwise(lambda q, w: X.fn("min", q, w), x, it.arr(hi))
    if p.get("out") is not None:
        it.write(p["out"], x)
        return p["out"]
    return it.new_array(x)


def m_argext(which):
    def g(it, o, a, k):
        p = params(it, "arg" + which, ["axis", "out", "keepdims"], a, k)
        return argext(it, which, o, p.get("axis"))
    return g


def argext(it, which, v, axis=None):
    x = it.arr(v)
    if axis is None:
        if x.ndim != 1:
            x = AR.reshape(x, [const(-1)])
        n = int_of(x.shape[0])
        if n is not None and n <= 8:
            # index of the first extremum, decided one comparison at a time
            best = 0
            for i in range(1, n):
                d = add(x.at([const(i)]), scale(x.at([const(best)]), Fr(-1)))
                c = X.gt0(d if which == "max" else scale(d, Fr(-1)))
                if it.decide(c):
                    best = i
            return best
        raise Undecided("arg%s over a symbolic axis" % which)
    ax = axes_of(it, axis, x.ndim)[0]
    r = opaque_reduce("arg" + which, x, ax)
    r.dtype = "i"
    return it.new_array(r)


def m_cumsum(it, o, a, k):
    p = params(it, "cumsum", ["axis", "dtype", "out"], a, k)
    return cumsum(it, o, p.get("axis"))


def cumsum(it, v, axis=None):
    x = it.arr(v)
    if axis is None:
        x = AR.reshape(x, [const(-1)]) if x.ndim != 1 else x
        ax = 0
    else:
        ax = axes_of(it, axis, x.ndim)[0]
    n = int_of(x.shape[ax])
    if n is None:
        v1 = X.fresh(x.shape[ax])
        mp = {AR.axis_var(ax, x.shape[ax]): from_atom(v1)}
        pos = from_atom(AR.axis_var(ax, x.shape[ax]))
        b = mul(X.subst(x.body, mp), X.ge0(add(pos, scale(from_atom(v1), Fr(-1)))))
        return it.new_array(Arr(x.shape, X.esum(v1, b), x.dtype))
    parts = []
    cur = None
    for i in range(n):
        spec = [("s", ZERO, s, 1) for s in x.shape]
        spec[ax] = ("i", const(i))
        s = AR.spec_get(x, tuple(spec))
        cur = s if cur is None else Arr(s.shape, add(cur.body, s.body), s.dtype)
        parts.append(cur)
    if not parts:
        return it.new_array(x)
    r = AR.stack(parts, ax)
    r.dtype = "i" if x.dtype == "b" else x.dtype
    return it.new_array(r)


def m_repeat(it, o, a, k):
    p = params(it, "repeat", ["repeats", "axis"], a, k, 1)
    return repeat(it, o, p["repeats"], p.get("axis"))


def repeat(it, v, reps, axis):
    x = it.arr(v)
    reps = it.load(reps)
    if not is_num(reps):
        raise Undecided("repeat")
    n = it.num(reps)
    if axis is None:
        x = AR.reshape(x, [const(-1)])
        ax = 0
    else:
        ax = axes_of(it, axis, x.ndim)[0]
    sh = list(x.shape)
    sh[ax] = mul(sh[ax], n)

    def f(*ix):
        src = list(ix)
        src[ax] = X.floordiv(ix[ax], n)
        return x.at(src)
    return it.new_array(AR.make(sh, f, x.dtype))


def m_round(it, o, a, k):
    raise Undecided("round")


METHODS = {
    "reshape": m_reshape, "transpose": m_transpose, "sum": m_red("sum"), "mean": m_red("mean"),
    "prod": m_red("prod"), "max": m_red("max"), "min": m_red("min"), "any": m_red("any"), "all": m_red("all"),
    "var": m_red("var"), "std": m_red("std"), "copy": m_copy, "__copy__": m_copy, "__deepcopy__": m_copy,
    "astype": m_astype, "ravel": m_ravel, "flatten": m_flatten, "item": m_item, "tolist": m_tolist,
    "fill": m_fill, "dot": m_dot, "squeeze": m_squeeze, "diagonal": m_diagonal, "trace": m_trace,
    "swapaxes": m_swapaxes, "clip": m_clip, "argmin": m_argext("min"), "argmax": m_argext("max"),
    "cumsum": m_cumsum, "repeat": m_repeat, "round": m_round,
    "conj": lambda it, o, a, k: o, "conjugate": lambda it, o, a, k: o,
    "__len__": lambda it, o, a, k: it.val(it.arr(o).shape[0], "i"),
    "__getitem__": lambda it, o, a, k: it.getitem(o, a[0]),
    "__setitem__": lambda it, o, a, k: it.setitem(o, a[0], a[1]),
    "__iter__": lambda it, o, a, k: o,
}


def scalar_attr(it, o, name):
    """Attributes of numpy/Python scalars."""
    if name == "shape":
        return ()
    if name == "ndim":
        return 0
    if name == "size":
        return 1
    if name == "dtype":
        return DtypeV({"b": "b", "i": "i"}.get(scalar_kind(o), "f"))
    if name in ("T", "real"):
        return o
    if name == "imag":
        return 0
    if isinstance(o, (int, float)) and not isinstance(o, Sym):
        # plain Python numbers
        if name in ("is_integer", "bit_length", "as_integer_ratio", "numerator", "denominator"):
            return it.unk("number." + name)
        if name in ("__add__", "__mul__", "__abs__"):
            return it.unk("number." + name)
    if name in ("item", "copy", "conj", "tolist", "__copy__", "conjugate", "squeeze"):
        return PyFn("scalar." + name, lambda it2, a, k: o)
    if name == "astype":
        return PyFn("scalar.astype", lambda it2, a, k: cast_call(it2, dtype_of(it2, a[0]), [o]))
    if name in ("sum", "mean", "max", "min", "prod"):
        return PyFn("scalar." + name, lambda it2, a, k: o)
    if name in ("any", "all"):
        return PyFn("scalar." + name, lambda it2, a, k: it2.truth(o))
    if name == "reshape":
        return PyFn("scalar.reshape", lambda it2, a, k: it2.new_array(AR.reshape(
            it2.arr(o), shape_arg(it2, a[0] if len(a) == 1 else tuple(a)))))
    if name in ("ravel", "flatten"):
        return PyFn("scalar.ravel", lambda it2, a, k: it2.new_array(AR.reshape(it2.arr(o), [ONE_E])))
    if name == "dot":
        return PyFn("scalar.dot", lambda it2, a, k: it2.binop("*", o, a[0]))
    if name in ("is_integer",):
        return it.unk("number." + name)
    return MISSING


def ufunc_attr(it, o, name):
    base = o.name.split(".")[-1]

    def reduce_(it2, a, k):
        p = params(it2, "reduce", ["array", "axis", "dtype", "out", "keepdims"], a, k, 1)
        red = {"add": "sum", "multiply": "prod", "maximum": "max", "minimum": "min",
               "logical_and": "all", "logical_or": "any"}.get(base)
        if red is None:
            raise Undecided("ufunc reduce")
        return reduction(it2, red, p["array"], p.get("axis", 0), it2.load(p.get("keepdims", False)))

    def outer(it2, a, k):
        op = {"multiply": "*", "add": "+", "subtract": "-", "divide": "/"}.get(base)
        if op is None:
            raise Undecided("ufunc outer")
        x, y = it2.arr(a[0]), it2.arr(a[1])
        spec = tuple(("s", ZERO, s, 1) for s in x.shape) + tuple(("n",) for _ in y.shape)
        return it2.new_array(ew(op, AR.spec_get(x, spec), y))
    if name == "reduce":
        return PyFn(o.name + ".reduce", reduce_)
    if name == "outer":
        return PyFn(o.name + ".outer", outer)
    return it.unk("ufunc." + name)


# ------------------------------------------------------------------- install

def rng_key(it):
    """Consumes one draw; the key identifies its position in the stream."""
    v = it.get(it.rng).v
    seed, n = v if isinstance(v, tuple) else ("", v)
    it.set(it.rng, CellC((seed, n + 1)))
    return "%s%d" % (("s%s." % (seed,)) if seed != "" else "", n)


def install(it0):
    np = {}
    it0.ext["numpy"] = np
    linalg = {}
    rnd = {}
    it0.ext["numpy.linalg"] = linalg
    it0.ext["numpy.random"] = rnd
    np["linalg"] = ExtMod("numpy.linalg")
    np["random"] = ExtMod("numpy.random")
    np["newaxis"] = None
    np["inf"] = np["Inf"] = INF
    np["nan"] = np["NaN"] = float("nan")
    np["pi"] = 3.141592653589793
    np["e"] = 2.718281828459045
    for n in ("float64", "float32", "int64", "int32", "bool_", "intp", "int_", "double", "single", "complex128",
              "int8", "uint8", "int16", "float16"):
        np[n] = DtypeV(DT_NAMES[n])
    np["ndarray"] = TypeV("ndarray")
    for n in ("integer", "floating", "number", "generic", "inexact"):
        np[n] = TypeV(n)

    def reg(name, store=None, alias=()):
        def deco(g):
            f = PyFn("numpy." + name, g)
            d = np if store is None else store
            key = name.split(".")[-1]
            d[key] = f
            for x in alias:
                d[x] = f
            return g
        return deco

    def unwrap(it, v):
        return it.load(v)

    # ---- elementwise
    def mk_unary(n):
        def g(it, a, k):
            k = dict(k)
            out = k.pop("out", None)
            wh = k.pop("where", True)
            dty = k.pop("dtype", None)
            if wh is not True or k or (len(a) > 1 and n not in ("abs",)):
                raise Undecided("ufunc options")
            r = unary(it, n, a[0])
            if out is not None:
                o = it.load(out)
                o = o[0] if isinstance(o, tuple) else o
                it.setitem(o, Ellipsis, r)
                return o
            return r
        return g
    for n in ("abs", "negative", "sign", "sqrt", "square", "reciprocal", "exp", "log", "log2", "log10", "sin", "cos",
              "tan", "tanh", "isnan", "isinf", "isfinite", "ceil", "floor", "rint", "trunc", "conj", "positive",
              "log1p", "expm1", "cbrt", "real"):
        np[n] = PyFn("numpy." + n, mk_unary(n))
    np["absolute"] = np["fabs"] = np["abs"]
    np["conjugate"] = np["conj"]

    def mk_binary(n, op):
        def g(it, a, k):
            k = dict(k)
            out = k.pop("out", None)
            if len(a) > 2:
                out = a[2]
            if k:
                if k.get("where", True) is not True:
                    raise Undecided("ufunc where")
            x, y = it.load(a[0]), it.load(a[1])
            if isinstance(x, Unk) or isinstance(y, Unk):
                r = Unk("arithmetic")
            elif is_num(x) and is_num(y):
                r = it.binop(op, x, y)
            else:
                r = it.new_array(array_op(it, op, x, y))
            if out is not None:
                o = it.load(out)
                o = o[0] if isinstance(o, tuple) else o
                it.setitem(o, Ellipsis, r)
                return o
            return r
        return g
    for n, op in (("add", "+"), ("subtract", "-"), ("multiply", "*"), ("divide", "/"), ("true_divide", "/"),
                  ("power", "**"), ("floor_divide", "//"), ("mod", "%"), ("remainder", "%"), ("matmul", "@")):
        np[n] = PyFn("numpy." + n, mk_binary(n, op))

    def mk_cmp(n, op):
        def g(it, a, k):
            x, y = it.load(a[0]), it.load(a[1])
            if is_num(x) and is_num(y):
                return it.compare(op, x, y)
            if not isinstance(x, (ARef, Unk)) and not is_num(x):
                x = it.new_array(it.arr(x))
            if not isinstance(y, (ARef, Unk)) and not is_num(y):
                y = it.new_array(it.arr(y))
            return it.compare(op, x, y)
        return g
    for n, op in (("less", "<"), ("less_equal", "<="), ("greater", ">"), ("greater_equal", ">="), ("equal", "=="),
                  ("not_equal", "!=")):
        np[n] = PyFn("numpy." + n, mk_cmp(n, op))

    def mk_mm(n):
        def g(it, a, k):
            x, y = it.load(a[0]), it.load(a[1])
            if is_inf(x) or is_inf(y):
                raise Undecided(n + " with infinity")
            r = AR.elementwise(lambda p, q: X.fn(n[:3], p, q), it.arr(x), it.arr(y))
            if r.ndim == 0 and r.dtype == "i":
                return it.val(r.body, "i")
            return it.new_array(r)
        return g
    np["maximum"] = np["fmax"] = PyFn("numpy.maximum", mk_mm("maximum"))
    np["minimum"] = np["fmin"] = PyFn("numpy.minimum", mk_mm("minimum"))

    def mk_logic(n):
        def g(it, a, k):
            xs = [to_bool(it.arr(x)) for x in a]
            if n == "not":
                return it.new_array(xs[0].map(X.bnot))
            return it.new_array(ew({"and": "&", "or": "|", "xor": "^"}[n], *xs))
        return g
    for n in ("and", "or", "xor", "not"):
        np["logical_" + n] = PyFn("numpy.logical_" + n, mk_logic(n))

    # ---- reductions
    def mk_red(n):
        def g(it, a, k):
            names = ["a", "axis", "dtype", "out", "keepdims"] if n in ("sum", "prod", "mean", "nansum", "std", "var") \
                else ["a", "axis", "out", "keepdims"]
            if n in ("std", "var"):
                names = ["a", "axis", "dtype", "out", "ddof", "keepdims"]
            if n == "count_nonzero":
                names = ["a", "axis"]
            p = params(it, n, names + ["initial", "where"], a, k, 1)
            if p.get("where", True) is not True or p.get("initial") is not None or p.get("ddof") not in (None, 0):
                raise Undecided("reduction options")
            r = reduction(it, n, p["a"], p.get("axis"), it.load(p.get("keepdims", False)), dtype_of(it, p.get("dtype")))
            if p.get("out") is not None:
                it.setitem(p["out"], Ellipsis, r)
                return p["out"]
            return r
        return g
    for n in ("sum", "prod", "mean", "max", "min", "amax", "amin", "any", "all", "std", "var", "nansum", "nanmean",
              "nanmax", "nanmin", "count_nonzero"):
        np[n] = PyFn("numpy." + n, mk_red(n))
    np["product"] = np["prod"]
    np["alltrue"] = np["all"]

    @reg("cumsum")
    def _cumsum(it, a, k):
        p = params(it, "cumsum", ["a", "axis", "dtype", "out"], a, k, 1)
        return cumsum(it, p["a"], p.get("axis"))

    @reg("argmin")
    def _argmin(it, a, k):
        p = params(it, "argmin", ["a", "axis", "out"], a, k, 1)
        return argext(it, "min", p["a"], p.get("axis"))

    @reg("argmax")
    def _argmax(it, a, k):
        p = params(it, "argmax", ["a", "axis", "out"], a, k, 1)
        return argext(it, "max", p["a"], p.get("axis"))

    @reg("argsort")
    def _argsort(it, a, k):
        x = it.arr(a[0])
        n = int_of(x.shape[0]) if x.ndim == 1 else None
        if n is None or n > 5:
            raise Undecided("argsort")
        order = [0]
        for i in range(1, n):
            pos = len(order)
            while pos > 0:
                d = add(x.at([const(order[pos - 1])]), scale(x.at([const(i)]), Fr(-1)))
                if it.decide(X.gt0(d)):
                    pos -= 1
                else:
                    break
            order.insert(pos, i)
        return it.new_array(it.arr(tuple(order)))

    @reg("sort")
    def _sort(it, a, k):
        p = params(it, "sort", ["a", "axis", "kind", "order", "stable"], a, k, 1)
        x = it.arr(p["a"])
        if x.ndim != 1:
            raise Undecided("sort")
        n = int_of(x.shape[0])
        if n is not None and n <= 3:
            order = _argsort(it, [p["a"]], {})
            return do_index(it, it.new_array(x), order)
        nm, fv = opq("sort", prep(x))
        if X.nonneg(x.body):
            X.leaf_info(nm, nonneg=True)
        return it.new_array(AR.make(x.shape, lambda i: X.leaf(nm, i, *fv), x.dtype))

    # ---- construction
    def filled(value, default="f"):
        def g(it, a, k):
            p = params(it, "full", ["shape", "dtype", "order", "like"], a, k, 1)
            sh = shape_arg(it, p["shape"])
            d = dtype_of(it, p.get("dtype")) or default
            for s in sh:
                if const_of(s) is not None and const_of(s) < 0:
                    raise ShapeError("negative dimensions are not allowed")
            return fresh_copy(it, Arr(sh, value, d)) if sh else it.new_array(Arr((), value, d))
        return g
    np["zeros"] = PyFn("numpy.zeros", filled(ZERO))
    np["ones"] = PyFn("numpy.ones", filled(ONE_E))

    def uninit(it, sh, d):
        n = next(it.oids)
        return AR.make(sh, lambda *ix: X.leaf("!uninit%d" % n, *ix), d)

    @reg("empty")
    def _empty(it, a, k):
        p = params(it, "empty", ["shape", "dtype", "order", "like"], a, k, 1)
        sh = shape_arg(it, p["shape"])
        return fresh_copy(it, uninit(it, sh, dtype_of(it, p.get("dtype")) or "f"))

    @reg("full")
    def _full(it, a, k):
        p = params(it, "full", ["shape", "fill_value", "dtype", "order"], a, k, 2)
        sh = shape_arg(it, p["shape"])
        v = it.arr(p["fill_value"])
        d = dtype_of(it, p.get("dtype")) or v.dtype
        return fresh_copy(it, it.cast(AR.broadcast_to(v, tuple(sh)), d))

    def like(kind):
        def g(it, a, k):
            names = ["a", "dtype", "order", "subok", "shape"] if kind != "full" else \
                ["a", "fill_value", "dtype", "order", "subok", "shape"]
            p = params(it, kind + "_like", names, a, k, 1)
            x = it.arr(p["a"])
            sh = shape_arg(it, p["shape"]) if p.get("shape") is not None else x.shape
            d = dtype_of(it, p.get("dtype")) or x.dtype
            if kind == "empty":
                return fresh_copy(it, uninit(it, sh, d))
            if kind == "full":
                return fresh_copy(it, it.cast(AR.broadcast_to(it.arr(p["fill_value"]), tuple(sh)), d))
            return fresh_copy(it, Arr(sh, ZERO if kind == "zeros" else ONE_E, d))
        return g
    for n in ("zeros", "ones", "empty", "full"):
        np[n + "_like"] = PyFn("numpy.%s_like" % n, like(n))

    @reg("eye")
    def _eye(it, a, k):
        p = params(it, "eye", ["N", "M", "k", "dtype", "order"], a, k, 1)
        n = shape_arg(it, p["N"])
        if len(n) != 1:
            it.throw("TypeError", "'tuple' object cannot be interpreted as an integer")
        m = shape_arg(it, p["M"]) if p.get("M") is not None else n
        if len(m) != 1:
            it.throw("TypeError", "'tuple' object cannot be interpreted as an integer")
        off = it.load(p.get("k", 0))
        if not isinstance(off, int):
            raise Undecided("eye offset")
        return fresh_copy(it, AR.make((n[0], m[0]), lambda i, j: X.eq0(add(add(i, const(off)), scale(j, Fr(-1)))),
                                      dtype_of(it, p.get("dtype")) or "f"))

    @reg("identity")
    def _identity(it, a, k):
        return _eye(it, a[:1], {kk: v for kk, v in k.items() if kk == "dtype"})

    def to_array(it, v, d, copy):
        v = it.load(v)
        if isinstance(v, Unk):
            return v
        if isinstance(v, ARef) and not copy:
            x = it.arr(v)
            if d is None or d == x.dtype:
                return v
        if isinstance(v, str) or v is None:
            raise Undecided("object array")
        if is_inf(v):
            return v
        items = seq_items(it, v)
        if items is not None and any(isinstance(it.load(x), (str, type(None))) or is_inf(it.load(x)) for x in items):
            raise Undecided("array of text")
        x = it.arr(v)
        if d is not None:
            x = it.cast(x, d)
        return fresh_copy(it, x)

    @reg("array")
    def _array(it, a, k):
        p = params(it, "array", ["object", "dtype", "copy", "order", "subok", "ndmin", "like"], a, k, 1)
        if p.get("ndmin", 0) != 0:
            raise Undecided("ndmin")
        return to_array(it, p["object"], dtype_of(it, p.get("dtype")), it.load(p.get("copy", True)) is True)

    @reg("asarray", alias=("asanyarray", "ascontiguousarray", "asfarray", "require"))
    def _asarray(it, a, k):
        p = params(it, "asarray", ["a", "dtype", "order", "like"], a, k, 1)
        return to_array(it, p["a"], dtype_of(it, p.get("dtype")), False)

    @reg("copy")
    def _copy(it, a, k):
        v = it.load(a[0])
        if isinstance(v, Unk):
            return v
        return fresh_copy(it, it.arr(v))

    @reg("arange")
    def _arange(it, a, k):
        k = dict(k)
        d = k.pop("dtype", None)
        xs = [it.load(x) for x in a]
        start, stop, step = (0, xs[0], 1) if len(xs) == 1 else (xs[0], xs[1], xs[2] if len(xs) > 2 else 1)
        if not all(isinstance(x, int) or isinstance(x, Sym) and X.is_int(x.e) for x in (start, stop, step)):
            raise Undecided("arange of floats")
        r = it.arr(RangeV(start, stop, step))
        if d is not None:
            r = it.cast(r, dtype_of(it, d))
        return fresh_copy(it, r)

    @reg("linspace")
    def _linspace(it, a, k):
        raise Undecided("linspace")

    # ---- shape
    @reg("reshape")
    def _reshape(it, a, k):
        p = params(it, "reshape", ["a", "newshape", "order", "shape", "copy"], a, k, 1)
        sh = p.get("newshape", p.get("shape"))
        v = it.load(p["a"])
        if isinstance(v, Unk):
            return v
        return do_reshape(it, v if isinstance(v, ARef) else it.new_array(it.arr(v)), shape_arg(it, sh),
                          p.get("order", "C"))

    @reg("ravel")
    def _ravel(it, a, k):
        v = it.load(a[0])
        if isinstance(v, Unk):
            return v
        return m_ravel(it, v, a[1:], k)

    @reg("transpose", alias=("permute_dims",))
    def _transpose(it, a, k):
        p = params(it, "transpose", ["a", "axes"], a, k, 1)
        v = it.load(p["a"])
        if isinstance(v, Unk):
            return v
        return do_transpose(it, v, it.load(p.get("axes")))

    @reg("moveaxis")
    def _moveaxis(it, a, k):
        p = params(it, "moveaxis", ["a", "source", "destination"], a, k, 3)
        v = it.load(p["a"])
        if isinstance(v, Unk):
            return v
        x = it.arr(v)
        src, dst = [], []
        for nm, lst in (("source", src), ("destination", dst)):
            q = it.load(p[nm])
            for y in ([q] if is_num(q) else it.iterate(q)):
                y = it.load(y)
                if isinstance(y, Sym):
                    y = int_of(y.e)
                if not isinstance(y, int):
                    it.throw("TypeError", "an integer is required")
                lst.append(y)
        return permuted(it, v, AR.moveaxis(x, src, dst))

    @reg("rollaxis")
    def _rollaxis(it, a, k):
        p = params(it, "rollaxis", ["a", "axis", "start"], a, k, 2)
        x = it.arr(p["a"])
        ax = AR.norm_axis(p["axis"], x.ndim)
        st = p.get("start", 0)
        if st < 0:
            st += x.ndim
        perm = [j for j in range(x.ndim) if j != ax]
        perm.insert(st - 1 if ax < st else st, ax)
        return permuted(it, it.load(p["a"]), perm)

    @reg("swapaxes")
    def _swapaxes(it, a, k):
        return m_swapaxes(it, it.load(a[0]), a[1:], k)

    @reg("squeeze")
    def _squeeze(it, a, k):
        p = params(it, "squeeze", ["a", "axis"], a, k, 1)
        v = it.load(p["a"])
        if isinstance(v, Unk):
            return v
        return squeeze(it, v, p.get("axis"))

    @reg("expand_dims")
    def _expand(it, a, k):
        p = params(it, "expand_dims", ["a", "axis"], a, k, 2)
        v = it.load(p["a"])
        x = it.arr(v)
        ax = axes_of(it, p["axis"], x.ndim + 1)
        if len(ax) != 1:
            raise Undecided("expand_dims")
        key = [SliceV(None, None, None)] * x.ndim
        key.insert(ax[0], None)
        return it.getitem(v if isinstance(v, ARef) else it.new_array(x), tuple(key))

    @reg("atleast_2d")
    def _al2(it, a, k):
        x = it.arr(a[0])
        if x.ndim >= 2:
            return it.load(a[0])
        return it.new_array(AR.reshape(x, [ONE_E, const(-1)]) if x.ndim else Arr((ONE_E, ONE_E), x.body, x.dtype))

    @reg("atleast_1d")
    def _al1(it, a, k):
        x = it.arr(a[0])
        return it.load(a[0]) if x.ndim else it.new_array(Arr((ONE_E,), x.body, x.dtype))

    @reg("broadcast_to")
    def _bto(it, a, k):
        return it.new_array(AR.broadcast_to(it.arr(a[0]), tuple(shape_arg(it, a[1]))))

    def parts_of(it, v):
        v = it.load(v)
        if isinstance(v, ARef):
            return [it.arr(x) for x in it.iterate(v)]
        return [it.arr(it.load(x)) for x in it.iterate(v)]

    @reg("concatenate")
    def _concat(it, a, k):
        p = params(it, "concatenate", ["arrays", "axis", "out", "dtype"], a, k, 1)
        v = it.load(p["arrays"])
        seq = it.sequence(v)
        ax = it.load(p.get("axis", 0))
        if isinstance(seq, SymSeq) and int_of(seq.n) is None:
            return it.new_array(sym_concat(it, seq, ax))
        arrs = parts_of(it, v)
        if not arrs:
            raise ShapeError("need at least one array to concatenate")
        if any(x.ndim == 0 for x in arrs):
            raise ShapeError("zero-dimensional arrays cannot be concatenated")
        if ax is None:
            arrs = [AR.reshape(x, [const(-1)]) for x in arrs]
            ax = 0
        return fresh_copy(it, AR.concatenate(arrs, ax))

    def sym_concat(it, seq, ax):
        v = X.fresh(seq.n, "c")
        x = it.arr(it.load(seq.item(it, from_atom(v))))
        ax = AR.norm_axis(ax, x.ndim)
        if any(v in s.fv for s in x.shape):
            raise Undecided("concatenation of ragged items")
        w = x.shape[ax]
        sh = list(x.shape)
        sh[ax] = mul(seq.n, w)

        def f(*ix):
            src = list(ix)
            src[ax] = X.modulo(ix[ax], w)
            return X.subst(x.at(src), {v: X.floordiv(ix[ax], w)})
        return AR.make(sh, f, x.dtype)

    @reg("stack")
    def _stack(it, a, k):
        p = params(it, "stack", ["arrays", "axis", "out"], a, k, 1)
        v = it.load(p["arrays"])
        seq = it.sequence(v)
        ax = it.load(p.get("axis", 0))
        if isinstance(seq, SymSeq) and int_of(seq.n) is None:
            x = it.arr(v)
            ax = AR.norm_axis(ax, x.ndim)
            return it.new_array(AR.transpose(x, AR.moveaxis(x, 0, ax)))
        arrs = parts_of(it, v)
        if not arrs:
            raise ShapeError("need at least one array to stack")
        for x in arrs[1:]:
            if x.ndim != arrs[0].ndim or not all(AR.same_dim(p1, q1) for p1, q1 in zip(x.shape, arrs[0].shape)):
                raise ShapeError("all input arrays must have the same shape")
        return fresh_copy(it, AR.stack(arrs, ax))

    def rows(it, v):
        return [x if x.ndim >= 2 else AR.reshape(x, [ONE_E, const(-1)]) for x in parts_of(it, v)]

    @reg("vstack", alias=("row_stack",))
    def _vstack(it, a, k):
        return fresh_copy(it, AR.concatenate(rows(it, a[0]), 0))

    @reg("hstack")
    def _hstack(it, a, k):
        xs = parts_of(it, a[0])
        return fresh_copy(it, AR.concatenate(xs, 0 if xs[0].ndim == 1 else 1))

    @reg("dstack")
    def _dstack(it, a, k):
        xs = [x if x.ndim >= 3 else AR.reshape(x, [*x.shape, ONE_E]) for x in parts_of(it, a[0])]
        return fresh_copy(it, AR.concatenate(xs, 2))

    @reg("column_stack")
    def _cstack(it, a, k):
        xs = [x if x.ndim >= 2 else AR.reshape(x, [const(-1), ONE_E]) for x in parts_of(it, a[0])]
        return fresh_copy(it, AR.concatenate(xs, 1))

    @reg("repeat")
    def _repeat(it, a, k):
        p = params(it, "repeat", ["a", "repeats", "axis"], a, k, 2)
        return repeat(it, p["a"], p["repeats"], p.get("axis"))

    @reg("tile")
    def _tile(it, a, k):
        p = params(it, "tile", ["A", "reps"], a, k, 2)
        x = it.arr(p["A"])
        reps = shape_arg(it, p["reps"])
        n = max(len(reps), x.ndim)
        reps = [ONE_E] * (n - len(reps)) + reps
        while x.ndim < n:
            x = AR.spec_get(x, (("n",),) + tuple(("s", ZERO, s, 1) for s in x.shape))
        sh = [mul(s, r) for s, r in zip(x.shape, reps)]
        return it.new_array(AR.make(sh, lambda *ix: x.at([
            ZERO if s is ONE_E else X.modulo(i, s) for i, s in zip(ix, x.shape)]), x.dtype))

    @reg("split")
    def _split(it, a, k):
        p = params(it, "split", ["ary", "indices_or_sections", "axis"], a, k, 2)
        v = it.load(p["ary"])
        x = it.arr(v)
        ax = AR.norm_axis(p.get("axis", 0), x.ndim)
        s = it.load(p["indices_or_sections"])
        if isinstance(s, int):
            w = X.exact_div(x.shape[ax], const(s))
            if w is None:
                raise Undecided("split")
            cuts = [scale(w, Fr(i)) for i in range(1, s)]
        else:
            cuts = [it.num(it.load(q)) for q in it.iterate(s)]
        lo = ZERO
        out = []
        for c in cuts + [x.shape[ax]]:
            spec = [("s", ZERO, d, 1) for d in x.shape]
            spec[ax] = ("s", lo, add(c, scale(lo, Fr(-1))), 1)
            out.append(ARef(v.oid, v.chain + (("idx", tuple(spec)),)) if isinstance(v, ARef)
                       else it.new_array(AR.spec_get(x, tuple(spec))))
            lo = c
        return new_list(it, out)
    np["array_split"] = PyFn("numpy.array_split", lambda it, a, k: it.unk("array_split"))

    @reg("flip")
    def _flip(it, a, k):
        p = params(it, "flip", ["m", "axis"], a, k, 1)
        x = it.arr(p["m"])
        axes = axes_of(it, p.get("axis"), x.ndim)
        return it.new_array(AR.make(x.shape, lambda *ix: x.at([
            add(add(x.shape[j], const(-1)), scale(i, Fr(-1))) if j in axes else i for j, i in enumerate(ix)]), x.dtype))

    # ---- products
    @reg("dot")
    def _dot(it, a, k):
        x, y = it.load(a[0]), it.load(a[1])
        if isinstance(x, Unk) or isinstance(y, Unk):
            return Unk("dot")
        return it.new_array(dot(it.arr(x), it.arr(y)))

    @reg("vdot")
    def _vdot(it, a, k):
        x, y = AR.reshape(it.arr(a[0]), [const(-1)]), AR.reshape(it.arr(a[1]), [const(-1)])
        return it.new_array(big_matmul(x, y))

    @reg("inner")
    def _inner(it, a, k):
        x, y = it.arr(a[0]), it.arr(a[1])
        if x.ndim == 0 or y.ndim == 0:
            return it.new_array(ew("*", x, y))
        lx, ly = "abcdefg"[:x.ndim - 1], "hijklmn"[:y.ndim - 1]
        return it.new_array(AR.contract(x, y, lx + "z", ly + "z", lx + ly))

    @reg("outer")
    def _outer(it, a, k):
        x, y = AR.reshape(it.arr(a[0]), [const(-1)]), AR.reshape(it.arr(a[1]), [const(-1)])
        return it.new_array(AR.einsum("i,j->ij", x, y))

    @reg("kron")
    def _kron(it, a, k):
        x, y = it.arr(a[0]), it.arr(a[1])
        if x.ndim != y.ndim:
            raise Undecided("kron")
        sh = [mul(p, q) for p, q in zip(x.shape, y.shape)]
        return it.new_array(AR.make(sh, lambda *ix: mul(
            x.at([ZERO if s is ONE_E else X.floordiv(i, d) for i, s, d in zip(ix, x.shape, y.shape)]),
            y.at([ZERO if d is ONE_E else X.modulo(i, d) for i, d in zip(ix, y.shape)])), AR.promote(x.dtype, y.dtype)))

    @reg("einsum")
    def _einsum(it, a, k):
        k = dict(k)
        k.pop("optimize", None)
        if k:
            raise Undecided("einsum options")
        spec = it.load(a[0])
        if not isinstance(spec, str) or "." in spec:
            raise Undecided("einsum specification")
        arrs = [it.arr(it.load(x)) for x in a[1:]]
        tot = 1
        for x in arrs:
            tot *= max(1, len(x.body.t))
        if tot > 40:
            arrs = [lighten(x, 3) for x in arrs]
        return it.new_array(AR.einsum(spec, *arrs))

    @reg("tensordot")
    def _tensordot(it, a, k):
        p = params(it, "tensordot", ["a", "b", "axes"], a, k, 2)
        x, y = it.arr(p["a"]), it.arr(p["b"])
        ax = it.load(p.get("axes", 2))
        if isinstance(ax, int):
            l1 = list(range(x.ndim - ax, x.ndim))
            l2 = list(range(ax))
        else:
            q = it.iterate(ax)
            l1, l2 = [[AR.norm_axis(w, n) for w in ([it.load(z)] if isinstance(it.load(z), int) else it.iterate(z))]
                      for z, n in zip(q, (x.ndim, y.ndim))]
        sx = list("abcdefgh"[:x.ndim])
        sy = list("ijklmnop"[:y.ndim])
        for i, j in zip(l1, l2):
            sy[j] = sx[i]
        out = "".join(c for i, c in enumerate(sx) if i not in l1) + "".join(c for j, c in enumerate(sy) if j not in l2)
        return it.new_array(AR.contract(x, y, "".join(sx), "".join(sy), out))

    @reg("trace")
    def _trace(it, a, k):
        return m_trace(it, it.load(a[0]), a[1:], k)

    @reg("diag")
    def _diag(it, a, k):
        p = params(it, "diag", ["v", "k"], a, k, 1)
        if p.get("k", 0) != 0:
            raise Undecided("off-diagonal")
        x = it.arr(p["v"])
        if x.ndim == 1:
            n = x.shape[0]
            return it.new_array(AR.make((n, n), lambda i, j: mul(X.eq0(add(i, scale(j, Fr(-1)))), x.at([i])), x.dtype))
        return it.new_array(diagonal(it, x))

    def triangle(name, low):
        def g(it, a, k):
            p = params(it, name, ["m", "k"], a, k, 1)
            off = X.const(p["k"]) if isinstance(p.get("k"), int) and not isinstance(p.get("k"), bool) else ZERO
            if p.get("k") not in (None, 0) and not isinstance(p.get("k"), int):
                raise Undecided("triangle offset")
            x = it.arr(p["m"])
            if x.ndim != 2:
                raise Undecided(name + " of other than a matrix")
            i, j = x.idx()
            d = add(add(i, off), scale(j, Fr(-1)))       # i + k - j
            return it.new_array(Arr(x.shape, mul(X.ge0(d if low else scale(d, Fr(-1))), x.body), x.dtype))
        return g
    np["tril"] = PyFn("numpy.tril", triangle("tril", True))
    np["triu"] = PyFn("numpy.triu", triangle("triu", False))

    @reg("diagonal")
    def _diagonal(it, a, k):
        if len(a) > 1 or k:
            raise Undecided("diagonal options")
        return it.new_array(diagonal(it, it.arr(a[0])))

    @reg("fill_diagonal")
    def _fill_diagonal(it, a, k):
        o = it.load(a[0])
        x = it.arr(o)
        v = it.arr(a[1])
        if v.ndim:
            raise Undecided("fill_diagonal with an array")
        if x.ndim < 2:
            raise ShapeError("array must be at least 2-d")
        if x.ndim > 2:
            for s in x.shape[1:]:
                if not AR.same_dim(s, x.shape[0]):
                    raise ShapeError("All dimensions of input must be of equal length")
        idx = x.idx()
        conds = [X.eq0(add(idx[j], scale(idx[0], Fr(-1)))) for j in range(1, x.ndim)]
        conds = [c for c in conds if c is not ONE_E]
        c = ONE_E
        for q in conds:
            c = mul(c, q)
        body = add(mul(c, v.body), mul(AR.not_all(conds), x.body))
        it.write(o, Arr(x.shape, body, x.dtype), "fill_diagonal")
        return None

    @reg("where")
    def _where(it, a, k):
        if len(a) != 3:
            raise Undecided("where")
        c = to_bool(it.arr(a[0]))
        if is_inf(it.load(a[1])) or is_inf(it.load(a[2])):
            raise Undecided("where with infinity")
        x, y = it.arr(a[1]), it.arr(a[2])
        return it.new_array(AR.elementwise(lambda p, q, r: add(mul(p, q), mul(X.bnot(p), r)), c, x, y,
                                           dtype=AR.promote(x.dtype, y.dtype)))

    @reg("clip")
    def _clip(it, a, k):
        return m_clip(it, it.load(a[0]), a[1:], k)

    def close(it, a, k):
        p = params(it, "allclose", ["a", "b", "rtol", "atol", "equal_nan"], a, k, 2)
        x, y = it.arr(p["a"]), it.arr(p["b"])
        return AR.elementwise(lambda u, v: X.eq0(drop_tiny(add(u, scale(v, Fr(-1))))), x, y, dtype="b")

    @reg("allclose")
    def _allclose(it, a, k):
        return it.new_array(reduce_all(close(it, a, k), None))

    @reg("isclose")
    def _isclose(it, a, k):
        return it.new_array(close(it, a, k))

    @reg("array_equal")
    def _aeq(it, a, k):
        x, y = it.arr(a[0]), it.arr(a[1])
        if x.ndim != y.ndim or not all(AR.same_dim(p, q) for p, q in zip(x.shape, y.shape)):
            return False
        return it.new_array(reduce_all(AR.elementwise(lambda u, v: cmp_body("==", u, v), x, y, dtype="b"), None))

    @reg("shape")
    def _shape(it, a, k):
        return tuple(it.val(s, "i") for s in it.arr(a[0]).shape)

    @reg("ndim")
    def _ndim(it, a, k):
        return it.arr(a[0]).ndim

    @reg("size")
    def _size(it, a, k):
        x = it.arr(a[0])
        if len(a) > 1:
            return it.val(x.shape[AR.norm_axis(a[1], x.ndim)], "i")
        return it.val(x.size(), "i")

    @reg("isscalar")
    def _isscalar(it, a, k):
        return is_num(it.load(a[0])) or isinstance(it.load(a[0]), str)

    @reg("copyto")
    def _copyto(it, a, k):
        it.setitem(it.load(a[0]), Ellipsis, a[1])
        return None

    @reg("ix_")
    def _ix(it, a, k):
        out = []
        n = len(a)
        for j, v in enumerate(a):
            x = it.arr(v)
            out.append(it.new_array(AR.reshape(x, [const(-1) if q == j else ONE_E for q in range(n)])))
        return tuple(out)

    @reg("unravel_index")
    def _unravel(it, a, k):
        raise Undecided("unravel_index")

    class Errstate:
        def enter(self, it):
            return None

        def exit(self, it):
            return None
    np["errstate"] = PyFn("numpy.errstate", lambda it, a, k: Errstate())

    def f_setting(name):
        def g(it, a, k):
            it.event("hidden_state", name)
            it.set_hidden(name, tuple(it.load(x) for x in a) + tuple((n, it.load(x)) for n, x in sorted(k.items())))
            return Unk("settings before " + name)
        return PyFn("numpy." + name, g)
    for n in ("seterr", "set_printoptions", "seterrcall", "setbufsize"):
        np[n] = f_setting(n)
    np["may_share_memory"] = np["shares_memory"] = PyFn("numpy.may_share_memory", lambda it, a, k: bool(
        isinstance(it.load(a[0]), ARef) and isinstance(it.load(a[1]), ARef) and it.load(a[0]).oid == it.load(a[1]).oid))

    class Finfo:
        def getattr(self, it, o, name):
            return Sym(const(Fr(1, 2 ** 52)), "f") if name in ("eps", "resolution") else Unk("finfo." + name)
    np["finfo"] = PyFn("numpy.finfo", lambda it, a, k: Finfo())

    # ---- linalg
    def lreg(name):
        return reg("linalg." + name, linalg)

    @lreg("norm")
    def _norm(it, a, k):
        p = params(it, "norm", ["x", "ord", "axis", "keepdims"], a, k, 1)
        v = it.load(p["x"])
        if isinstance(v, Unk):
            return Unk("norm of " + v.reason)
        return norm(it, v, p.get("ord"), p.get("axis"), it.load(p.get("keepdims", False)))

    def unk_args(it, a):
        for x in a:
            if isinstance(it.load(x), Unk):
                raise Undecided("operand " + it.load(x).reason)

    @lreg("svd")
    def _svd(it, a, k):
        p = params(it, "svd", ["a", "full_matrices", "compute_uv", "hermitian"], a, k, 1)
        unk_args(it, [p["a"]])
        full = it.load(p.get("full_matrices", True))
        r = svd(it.arr(p["a"]), full is not False)
        if it.load(p.get("compute_uv", True)) is False:
            return it.new_array(r[1])
        return tuple(it.new_array(x) for x in r)

    @lreg("qr")
    def _qr(it, a, k):
        p = params(it, "qr", ["a", "mode"], a, k, 1)
        unk_args(it, [p["a"]])
        mode = it.load(p.get("mode", "reduced"))
        q, r = qr(it.arr(p["a"]))
        if mode == "reduced":
            return (it.new_array(q), it.new_array(r))
        if mode == "r":
            return it.new_array(r)
        raise Undecided("qr mode")

    @lreg("pinv")
    def _pinv(it, a, k):
        p = params(it, "pinv", ["a", "rcond", "hermitian", "rtol"], a, k, 1)
        unk_args(it, [p["a"]])
        return it.new_array(pinv(it.arr(p["a"])))

    @lreg("inv")
    def _inv(it, a, k):
        unk_args(it, a)
        return it.new_array(inv(it.arr(a[0])))

    @lreg("solve")
    def _solve(it, a, k):
        p = params(it, "solve", ["a", "b"], a, k, 2)
        unk_args(it, [p["a"], p["b"]])
        return it.new_array(solve(it.arr(p["a"]), it.arr(p["b"])))

    @lreg("lstsq")
    def _lstsq(it, a, k):
        p = params(it, "lstsq", ["a", "b", "rcond"], a, k, 2)
        unk_args(it, [p["a"], p["b"]])
        x, y = it.arr(p["a"]), it.arr(p["b"])
        return (it.new_array(lstsq(x, y)), Unk("lstsq residuals"), Unk("lstsq rank"), it.new_array(svd(x)[1]))

    @lreg("matrix_rank")
    def _rank(it, a, k):
        raise Undecided("matrix_rank")

    @lreg("multi_dot")
    def _multi(it, a, k):
        xs = parts_of(it, a[0])
        out = xs[0]
        for x in xs[1:]:
            out = big_matmul(out, x)
        return it.new_array(out)

    @lreg("matrix_power")
    def _mpow(it, a, k):
        raise Undecided("matrix_power")

    def opaque_fn(name, shapes):
        def g(it, a, k):
            unk_args(it, a)
            x = it.arr(a[0])
            need_nd(x, 2, name)
            nm, fv = opq(name, prep(x))
            outs = [it.new_array(AR.make([x.shape[i] for i in sh], lambda *ix, q=q: X.leaf(nm + "." + q, *(list(ix) + fv))))
                    for q, sh in shapes]
            return outs[0] if len(outs) == 1 else tuple(outs)
        return g
    linalg["eigh"] = PyFn("numpy.linalg.eigh", opaque_fn("eigh", [("w", [0]), ("v", [0, 0])]))
    linalg["eig"] = PyFn("numpy.linalg.eig", opaque_fn("eig", [("w", [0]), ("v", [0, 0])]))
    linalg["cholesky"] = PyFn("numpy.linalg.cholesky", opaque_fn("cholesky", [("l", [0, 0])]))
    linalg["det"] = PyFn("numpy.linalg.det", opaque_fn("det", [("d", [])]))
    linalg["eigvalsh"] = PyFn("numpy.linalg.eigvalsh", opaque_fn("eigh", [("w", [0])]))
    linalg["LinAlgError"] = __import__("tk.interp", fromlist=["x"]).BUILTIN_EXC_EXTRA["LinAlgError"]

    # ---- scipy
    sl = {}
    so = {}
    it0.ext["scipy"] = {"linalg": ExtMod("scipy.linalg"), "optimize": ExtMod("scipy.optimize")}
    it0.ext["scipy.linalg"] = sl
    it0.ext["scipy.optimize"] = so

    def f_nnls(it, a, k):
        p = params(it, "nnls", ["A", "b", "maxiter", "atol"], a, k, 2)
        unk_args(it, [p["A"], p["b"]])
        x, r = nnls(it, it.arr(p["A"]), it.arr(p["b"]))
        return (it.new_array(x), Sym(r, "f"))
    so["nnls"] = PyFn("scipy.optimize.nnls", f_nnls)

    def f_tri(it, a, k):
        p = params(it, "solve_triangular", ["a", "b", "trans", "lower", "unit_diagonal", "overwrite_b",
                                            "check_finite"], a, k, 2)
        unk_args(it, [p["a"], p["b"]])
        if it.load(p.get("lower", False)) is not False or it.load(p.get("unit_diagonal", False)) is not False:
            raise Undecided("solve_triangular options")
        x = it.arr(p["a"])
        tr = it.load(p.get("trans", 0))
        if tr in (1, "T"):
            x = AR.transpose(x, [1, 0])
        elif tr not in (0, "N"):
            raise Undecided("trans")
        return it.new_array(solve(x, it.arr(p["b"])))
    sl["solve_triangular"] = PyFn("scipy.linalg.solve_triangular", f_tri)
    for n in ("svd", "inv", "pinv", "solve", "norm", "lstsq"):
        sl[n] = PyFn("scipy.linalg." + n, linalg[n].call)

    def khatri(it, a, k):
        x, y = it.arr(a[0]), it.arr(a[1])
        if x.ndim != 2 or y.ndim != 2 or not AR.same_dim(x.shape[1], y.shape[1]):
            raise ShapeError("The number of columns for both arrays should be equal.")
        n = y.shape[0]
        return it.new_array(AR.make((mul(x.shape[0], n), x.shape[1]), lambda i, r: mul(
            x.at([X.floordiv(i, n), r]), y.at([X.modulo(i, n), r])), AR.promote(x.dtype, y.dtype)))
    sl["khatri_rao"] = PyFn("scipy.linalg.khatri_rao", khatri)

    # ---- random
    def draw(kind, nonneg=False, dtype="f"):
        def make(it, sh):
            key = rng_key(it)
            nm = "%s#%s" % (kind, key)
            if nonneg:
                X.leaf_info(nm, nonneg=True)
            if dtype == "i":
                X.leaf_info(nm, int=True)
            it.event("rng", kind, tuple(sh))
            if not sh:
                return it.new_array(Arr((), X.leaf(nm), dtype))
            return fresh_copy(it, AR.make(sh, lambda *ix: X.leaf(nm, *ix), dtype))
        return make
    d_randn, d_unif, d_int = draw("randn"), draw("rand", True), draw("randint", False, "i")

    rnd["randn"] = PyFn("numpy.random.randn", lambda it, a, k: d_randn(it, shape_arg(it, tuple(a))))
    rnd["rand"] = PyFn("numpy.random.rand", lambda it, a, k: d_unif(it, shape_arg(it, tuple(a))))

    def f_normal(it, a, k):
        p = params(it, "standard_normal", ["size", "dtype"], a, k)
        return d_randn(it, shape_arg(it, p["size"]) if p.get("size") is not None else [])
    rnd["standard_normal"] = PyFn("numpy.random.standard_normal", f_normal)

    def f_normal2(it, a, k):
        p = params(it, "normal", ["loc", "scale", "size"], a, k)
        x = d_randn(it, shape_arg(it, p["size"]) if p.get("size") is not None else [])
        return it.binop("+", it.binop("*", x, p.get("scale", 1)), p.get("loc", 0))
    rnd["normal"] = PyFn("numpy.random.normal", f_normal2)

    def f_sample(it, a, k):
        p = params(it, "random_sample", ["size"], a, k)
        return d_unif(it, shape_arg(it, p["size"]) if p.get("size") is not None else [])
    rnd["random_sample"] = rnd["random"] = rnd["ranf"] = PyFn("numpy.random.random_sample", f_sample)

    def f_uniform(it, a, k):
        p = params(it, "uniform", ["low", "high", "size"], a, k)
        sh = shape_arg(it, p["size"]) if p.get("size") is not None else []
        u = d_unif(it, sh)
        lo, hi = it.load(p.get("low", 0)), it.load(p.get("high", 1))
        if lo in (0, 0.0) and hi in (1, 1.0):
            return u
        return it.binop("+", it.binop("*", u, it.binop("-", hi, lo)), lo)
    rnd["uniform"] = PyFn("numpy.random.uniform", f_uniform)

    def f_randint(it, a, k):
        p = params(it, "randint", ["low", "high", "size", "dtype"], a, k, 1)
        return d_int(it, shape_arg(it, p["size"]) if p.get("size") is not None else [])
    rnd["randint"] = PyFn("numpy.random.randint", f_randint)

    def f_seed(it, a, k):
        s = it.load(a[0]) if a else it.load(k.get("seed"))
        it.event("seed", s)
        if isinstance(s, Sym):
            s = X.show(s.e)
        if s is None or isinstance(s, Unk):
            s = "u%d" % next(it.oids)
        it.set(it.rng, CellC((str(s), 0)))
        return None
    rnd["seed"] = PyFn("numpy.random.seed", f_seed)

    def f_perm(it, a, k):
        it.event("rng", "permutation", ())
        rng_key(it)
        raise Undecided("random permutation")
    for n in ("permutation", "shuffle", "choice"):
        rnd[n] = PyFn("numpy.random." + n, f_perm)

    def f_getstate(it, a, k):
        return ("rngstate", it.get(it.rng).v)

    def f_setstate(it, a, k):
        v = it.load(a[0])
        it.event("seed", "set_state")
        if isinstance(v, tuple) and v[0] == "rngstate":
            it.set(it.rng, CellC(v[1]))
        else:
            it.set(it.rng, CellC(("u%d" % next(it.oids), 0)))
        return None
    rnd["get_state"] = PyFn("numpy.random.get_state", f_getstate)
    rnd["set_state"] = PyFn("numpy.random.set_state", f_setstate)

    class Gen:
        """An own random generator (does not touch the global stream)."""

        def __init__(self, seed, n):
            self.seed, self.n = seed, n

        def getattr(self, it, o, name):
            def g(it2, a, k):
                self.n += 1
                p = dict(k)
                size = p.get("size")
                if name in ("randn", "rand"):
                    sh = shape_arg(it2, tuple(a))
                elif name in ("standard_normal", "random_sample", "random"):
                    size = a[0] if a else size
                    sh = shape_arg(it2, size) if size is not None else []
                elif name in ("uniform", "normal") and size is not None and not a:
                    sh = shape_arg(it2, size)
                else:
                    raise Undecided("generator." + name)
                kind = "rand" if name in ("rand", "random_sample", "random", "uniform") else "randn"
                nm = "%s#g%s.%d" % (kind, self.seed, self.n)
                if kind == "rand":
                    X.leaf_info(nm, nonneg=True)
                return it2.new_array(AR.make(sh, lambda *ix: X.leaf(nm, *ix)))
            return PyFn("Generator." + name, g)

    def f_gen(it, a, k):
        s = it.load(a[0]) if a else it.load(k.get("seed"))
        if isinstance(s, Sym):
            s = X.show(s.e)
        if s is None or isinstance(s, Unk):
            s = "u%d" % next(it.oids)
        it.event("own_rng", str(s))
        return Gen(s, 0)
    rnd["RandomState"] = rnd["default_rng"] = PyFn("numpy.random.RandomState", f_gen)
