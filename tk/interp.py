"""Whole-program abstract interpreter for the subset of Python used by TensorKit.

It walks the syntax trees of the analysed package; nothing of the package is
imported or executed.  Both sides of an undecided condition are analysed from the
same state and joined; objects live in an abstract heap indexed by allocation.
"""
import ast
import os
import sys
import itertools
from fractions import Fraction as Fr

from . import expr as X
from .expr import E, ZERO, ONE_E, const, add, mul, scale, from_atom, int_of, const_of
from . import arr as AR
from .arr import Arr, Undecided, ShapeError

sys.setrecursionlimit(20000)


# ------------------------------------------------------------------ values

class Sym:
    """A numeric scalar known as a term.  kind: i, f, b."""
    __slots__ = ("e", "kind")

    def __init__(self, e, kind="f"):
        self.e, self.kind = e, kind

    def __eq__(self, o):
        return isinstance(o, Sym) and self.e is o.e and self.kind == o.kind

    def __hash__(self):
        return hash((self.e.id, self.kind))

    def __repr__(self):
        return "Sym(%s)" % X.show(self.e, 200)


class Ref:
    __slots__ = ("oid",)

    def __init__(self, oid):
        self.oid = oid

    def __eq__(self, o):
        return isinstance(o, Ref) and o.oid == self.oid

    def __hash__(self):
        return hash(self.oid)

    def __repr__(self):
        return "Ref(%d)" % self.oid


class ARef:
    """A numpy array: a buffer plus a chain of view operations."""
    __slots__ = ("oid", "chain")

    def __init__(self, oid, chain=()):
        self.oid, self.chain = oid, chain

    def __eq__(self, o):
        return isinstance(o, ARef) and o.oid == self.oid and o.chain == self.chain

    def __hash__(self):
        return hash((self.oid, self.chain))

    def __repr__(self):
        return "ARef(%d%s)" % (self.oid, ",view" if self.chain else "")


class Masked:
    """x[mask] for a boolean mask: entries of `arr` where `mask` holds."""

    def __init__(self, arr, mask):
        self.arr, self.mask = arr, mask


class FuncV:
    __slots__ = ("node", "env", "defaults", "kwdefaults", "name", "module", "cls", "qual")

    def __init__(self, node, env, defaults, kwdefaults, name, module, cls, qual):
        self.node, self.env, self.defaults, self.kwdefaults = node, env, defaults, kwdefaults
        self.name, self.module, self.cls, self.qual = name, module, cls, qual

    def __repr__(self):
        return "<function %s>" % self.qual


class BoundV:
    __slots__ = ("func", "obj")

    def __init__(self, func, obj):
        self.func, self.obj = func, obj

    def __eq__(self, o):
        return isinstance(o, BoundV) and o.func is self.func and same_value(o.obj, self.obj)

    def __hash__(self):
        return hash(id(self.func))


class ClassV:
    def __init__(self, name, bases, oid, module, node):
        self.name, self.bases, self.oid, self.module, self.node = name, bases, oid, module, node
        self.mro = self._mro()

    def _mro(self):
        seqs = [list(b.mro) if isinstance(b, ClassV) else [b] for b in self.bases]
        seqs.append(list(self.bases))
        out = [self]
        while any(seqs):
            for s in seqs:
                if not s:
                    continue
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                break
            out.append(c)
            for t in seqs:
                if t and t[0] is c:
                    t.pop(0)
        return out

    def __repr__(self):
        return "<class %s>" % self.name


class ModV:
    def __init__(self, name, path):
        self.name, self.path, self.oid = name, path, None

    def __repr__(self):
        return "<module %s>" % self.name


class ExtMod:
    """A module outside the analysed package."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<external module %s>" % self.name


class PyFn:
    """A modelled function: call(interp, args, kwargs)."""

    def __init__(self, name, call):
        self.name, self.call = name, call

    def __repr__(self):
        return "<builtin %s>" % self.name


class TypeV:
    def __init__(self, name, call=None):
        self.name, self.call = name, call

    def __repr__(self):
        return "<type %s>" % self.name


class ExcType:
    def __init__(self, name, py):
        self.name, self.py = name, py

    def __repr__(self):
        return "<exc %s>" % self.name


class ExcV:
    """An exception object."""

    def __init__(self, typ, msg="", args=()):
        self.typ, self.msg, self.args = typ, msg, args
        self.where = None
        self.definite = True

    @property
    def name(self):
        return self.typ.name

    def __repr__(self):
        return "%s(%s)%s" % (self.typ.name, self.msg, " at %s" % self.where if self.where else "")


class PropV:
    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class CachedPropV:
    def __init__(self, f, name):
        self.f, self.name = f, name


class CMV:
    def __init__(self, f):
        self.f = f


class SMV:
    def __init__(self, f):
        self.f = f


class SuperV:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class SliceV:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def __eq__(self, o):
        return isinstance(o, SliceV) and all(same_value(a, b) for a, b in (
            (self.start, o.start), (self.stop, o.stop), (self.step, o.step)))

    def __hash__(self):
        return 7


class RangeV:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def __eq__(self, o):
        return isinstance(o, RangeV) and same_value(self.start, o.start) and \
            same_value(self.stop, o.stop) and same_value(self.step, o.step)

    def __hash__(self):
        return 8


class DtypeV:
    def __init__(self, code):
        self.code = code

    def __eq__(self, o):
        return isinstance(o, DtypeV) and o.code == self.code

    def __hash__(self):
        return hash(self.code)


class Unk:
    """A value the domain cannot express."""

    def __init__(self, reason):
        self.reason = reason

    def __eq__(self, o):
        return isinstance(o, Unk) and o.reason == self.reason

    def __hash__(self):
        return hash(self.reason)

    def __repr__(self):
        return "Unk(%s)" % self.reason


class _Missing:
    def __repr__(self):
        return "MISSING"


MISSING = _Missing()


class ObjPhi:
    """One of two values, by a condition."""

    def __init__(self, atom, a, b):
        self.atom, self.a, self.b = atom, a, b

    def __repr__(self):
        return "Phi(%s ? %r : %r)" % (self.atom, self.a, self.b)


def same_value(a, b):
    if a is b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
    if isinstance(a, ObjPhi) and isinstance(b, ObjPhi):
        return a.atom is b.atom and same_value(a.a, b.a) and same_value(a.b, b.b)
    if type(a) is not type(b):
        return False
    if isinstance(a, (int, float, str, bytes, Sym, Ref, ARef, Unk, BoundV, SliceV, RangeV, DtypeV)):
        return a == b
    return False


# ---------------------------------------------------------- heap contents

class Buf:
    __slots__ = ("arr", "origin")

    def __init__(self, arr, origin=None):
        self.arr, self.origin = arr, origin


class ListC:
    __slots__ = ("items", "kind", "origin")

    def __init__(self, items, kind="list", origin=None):
        self.items, self.kind, self.origin = tuple(items), kind, origin


class SymListC:
    """A list of symbolic length n whose k-th item is item(k)."""
    __slots__ = ("n", "var", "item", "origin")

    def __init__(self, n, var, item, origin=None):
        self.n, self.var, self.item, self.origin = n, var, item, origin


class DictC:
    __slots__ = ("d", "origin")

    def __init__(self, d, origin=None):
        self.d, self.origin = d, origin


class InstC:
    __slots__ = ("cls", "attrs")

    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs


class EnvC:
    __slots__ = ("vars", "parent", "kind")

    def __init__(self, vars_, parent, kind):
        self.vars, self.parent, self.kind = vars_, parent, kind


class IterC:
    __slots__ = ("items", "pos")

    def __init__(self, items, pos=0):
        self.items, self.pos = tuple(items), pos


class CellC:
    """A generic one-value cell (counters, modelled external state)."""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class PhiC:
    __slots__ = ("atom", "a", "b")

    def __init__(self, atom, a, b):
        self.atom, self.a, self.b = atom, a, b


# ---------------------------------------------------------------- control

class NeedFork(Exception):
    def __init__(self, atom):
        self.atom = atom


class Ctl(Exception):
    pass


class BreakEx(Ctl):
    pass


class ContinueEx(Ctl):
    pass


class Dead(Ctl):
    pass


class ReturnEx(Ctl):
    def __init__(self, value):
        self.value = value


class RaiseEx(Ctl):
    def __init__(self, exc):
        self.exc = exc


class Budget(Exception):
    """The analysis ran out of its step budget."""


class Facts(dict):
    """What is known on a path, and which joins have made that less than the condition of the path."""
    __slots__ = ("lost",)


_lost_n = itertools.count()


def lost(facts):
    return getattr(facts, "lost", frozenset())


class Snap:
    __slots__ = ("heap", "facts", "value")

    def __init__(self, heap, facts, value=None):
        self.heap, self.facts, self.value = heap, facts, value


class Frame:
    def __init__(self, name, module, env, node=None):
        self.name, self.module, self.env, self.node = name, module, env, node
        self.pending = []
        self.yields = None
        self.line = 0
        self.func = None


BUILTIN_EXC = {}
for _n in dir(__builtins__) if not isinstance(__builtins__, dict) else list(__builtins__):
    _v = getattr(__builtins__, _n, None) if not isinstance(__builtins__, dict) else __builtins__[_n]
    if isinstance(_v, type) and issubclass(_v, BaseException):
        BUILTIN_EXC[_n] = ExcType(_n, _v)
# numpy's casting error is a TypeError, its LinAlgError a ValueError
BUILTIN_EXC_EXTRA = {"UFuncTypeError": ExcType("UFuncTypeError", TypeError),
                     "LinAlgError": ExcType("LinAlgError", ValueError)}


class Interp:
    def __init__(self, root, package="tenkit", max_steps=400000):
        self.root = root            # directory that contains the package
        self.package = package
        self.heap = {}
        self.journal = []
        self.facts = {}
        self.events = []
        self.modules = {}
        self.stack = []
        self.oids = itertools.count(1)
        self.steps = 0
        self.max_steps = max_steps
        self.functions_seen = {}
        self.calls_seen = set()
        self.unknowns = {}
        self.locals_cache = {}
        self.sources = {}
        self.sym_loops = []
        from . import pym, npm, h5m
        self.fs = self.alloc(DictC({}))
        self.hidden = self.alloc(DictC({}))     # settings of libraries, attributes of functions
        self.builtins = pym.make_builtins(self)
        self.ext = {}
        pym.install(self)
        npm.install(self)
        h5m.install(self)
        self.rng = self.alloc(CellC(0))
        self.top = Frame("<checker>", None, self.alloc(EnvC({}, None, "module")))
        self.stack.append(self.top)

    # ------------------------------------------------------------- heap
    def alloc(self, content):
        oid = next(self.oids)
        self.journal.append((oid, None))
        self.heap[oid] = content
        return oid

    def set(self, oid, content):
        self.journal.append((oid, self.heap.get(oid)))
        self.heap[oid] = content

    def get(self, oid):
        c = self.heap[oid]
        while isinstance(c, PhiC):
            v = self.fact(c.atom)
            if v is None:
                raise NeedFork(c.atom)
            c = c.a if v else c.b
        return c

    def fact(self, atom):
        v = self.facts.get(atom)
        if v is None and atom.kind == "ind" and atom.args[0] == "ge":
            comp = X.Atom.table.get(("ind", ("ge", add(scale(atom.args[1], Fr(-1)), const(-1)))))
            if comp is not None:
                w = self.facts.get(comp)
                if w is not None:
                    return not w
        if v is None and atom.kind == "ind" and atom.args[0] == "eq":
            e = atom.args[1]
            for x in (e, scale(e, Fr(-1))):
                key = ("ge", add(x, const(-1))) if X.is_int(x) else ("gt", X.clean_cond(x))
                comp = X.Atom.table.get(("ind", key))
                if comp is not None and self.facts.get(comp):
                    return False
        return v

    def mark(self, fr):
        return (len(self.journal), self.facts, len(fr.pending), len(self.events), len(self.stack))

    def rollback(self, m, full=True, fr=None):
        j = self.journal
        while len(j) > m[0]:
            oid, old = j.pop()
            if old is None:
                del self.heap[oid]
            else:
                self.heap[oid] = old
        self.facts = m[1]
        del self.stack[m[4]:]
        if full:
            del fr.pending[m[2]:]
            del self.events[m[3]:]

    def snap(self, value=None):
        return Snap(dict(self.heap), self.facts, value)

    def restore(self, s):
        h = self.heap
        for oid, c in s.heap.items():
            if h.get(oid) is not c:
                if oid in h:
                    self.set(oid, c)
                else:
                    self.journal.append((oid, None))
                    h[oid] = c
        self.facts = s.facts

    # ------------------------------------------------------------- joins
    def join(self, snaps):
        snaps = list(snaps)
        if len(snaps) == 1:
            return snaps[0]
        # a condition decided differently and known in every snapshot
        common = None
        for s in snaps:
            ks = set(s.facts)
            common = ks if common is None else common & ks
        atom = None
        for k in snaps[0].facts:
            if k in common and len({s.facts[k] for s in snaps}) == 2:
                atom = k
                break
        if atom is None:
            r = self.join_exact(snaps)
            if r is not None:
                return r
            # pairwise with an arbitrary (unknown) condition
            atom = X.gt0(X.leaf("?join%d" % len(self.journal))).t[0][0][0][0]
            a, b = snaps[0], self.join(snaps[1:])
            return self._join2(atom, a, b)
        ta = [s for s in snaps if s.facts[atom]]
        fa = [s for s in snaps if not s.facts[atom]]
        return self._join2(atom, self.join(ta), self.join(fa))

    def join_exact(self, snaps):
        """One of the snapshots whose facts say exactly when its path is taken, against the others."""
        shared = frozenset.intersection(*[lost(s.facts) for s in snaps])
        for s in snaps:
            if lost(s.facts) != shared:
                continue
            own = [k for k in s.facts if any(o.facts.get(k) != s.facts[k] for o in snaps)]
            if not own or len(own) > 6:
                continue
            rest = self.join([o for o in snaps if o is not s])
            out = s
            for k in reversed(own):
                out = self._join2(k, out, rest) if s.facts[k] else self._join2(k, rest, out)
            return out
        return None

    def _join2(self, atom, a, b):
        heap = dict(a.heap)
        for oid, cb in b.heap.items():
            ca = heap.get(oid)
            if ca is None:
                heap[oid] = cb
            elif ca is not cb:
                heap[oid] = self.join_content(atom, ca, cb)
        facts = Facts({k: v for k, v in a.facts.items() if b.facts.get(k) == v and k in b.facts})
        facts.lost = lost(a.facts) | lost(b.facts)
        if len(a.facts) != len(facts) + (atom in a.facts) or len(b.facts) != len(facts) + (atom in b.facts) or \
                (atom in a.facts) != (atom in b.facts):
            facts.lost |= {next(_lost_n)}
        return Snap(heap, facts, self.join_value(atom, a.value, b.value))

    def join_content(self, atom, a, b):
        if type(a) is type(b):
            if isinstance(a, EnvC):
                return EnvC(self._join_dict(atom, a.vars, b.vars), a.parent, a.kind)
            if isinstance(a, InstC) and a.cls is b.cls:
                return InstC(a.cls, self._join_dict(atom, a.attrs, b.attrs))
            if isinstance(a, Buf):
                if a.arr.shape == b.arr.shape and a.arr.dtype == b.arr.dtype:
                    if a.arr.body is b.arr.body:
                        return a
                    try:
                        return Buf(self.name_big(Arr(a.arr.shape, self.mix(atom, a.arr.body, b.arr.body),
                                                     a.arr.dtype)), a.origin)
                    except X.TooBig:
                        pass
            if isinstance(a, CellC):
                return CellC(self.join_value(atom, a.v, b.v))
            if isinstance(a, ListC) and len(a.items) == len(b.items) and a.kind == b.kind:
                return ListC([self.join_value(atom, x, y) for x, y in zip(a.items, b.items)],
                             a.kind, a.origin)
        return PhiC(atom, a, b)

    def _join_dict(self, atom, a, b):
        out = {}
        for k in a:
            if k in b:
                out[k] = self.join_value(atom, a[k], b[k])
            else:
                out[k] = self._phi(atom, a[k], MISSING)
        for k in b:
            if k not in a:
                out[k] = self._phi(atom, MISSING, b[k])
        return out

    def _phi(self, atom, a, b):
        if a is b:
            return a
        return ObjPhi(atom, a, b)

    def mix(self, atom, ea, eb):
        c = from_atom(atom)
        if ea is eb:
            return ea
        return add(mul(c, ea), mul(X.bnot(c), eb))

    def join_value(self, atom, a, b):
        if same_value(a, b):
            return a
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.join_value(atom, x, y) for x, y in zip(a, b))
        if (isinstance(a, Sym) and a.kind in "fb" or isinstance(a, float)) and \
                (isinstance(b, Sym) and b.kind in "fb" or isinstance(b, float)):
            ea, eb = self.num(a), self.num(b)
            if ea is not None and eb is not None:
                k = "b" if isinstance(a, Sym) and isinstance(b, Sym) and a.kind == b.kind == "b" else "f"
                if k == "f" and atom.kind == "ind" and self._larger(atom.args[1], ea, eb):
                    # a running maximum: the cases are kept apart
                    return self._phi(atom, a, b)
                try:
                    return Sym(self.mix(atom, ea, eb), k)
                except X.TooBig:
                    pass
        return self._phi(atom, a, b)

    @staticmethod
    def _larger(e, ea, eb):
        d = add(ea, scale(eb, Fr(-1)))
        return len(d.t) == len(e.t) > 1 and X._prim(d) is X._prim(e) and d.size + e.size > 40

    def name_big(self, a, limit=14):
        if len(a.body.t) > 6 or a.body.size > limit * 4:
            return AR.let_bind(a)
        return a

    # --------------------------------------------------------- conditions
    def decide(self, e):
        c = const_of(e)
        if c is not None:
            return c != 0
        e2 = self.apply_facts(e)
        c = const_of(e2)
        if c is not None:
            return c != 0
        for m, _ in e2.t:
            for a, _x in m:
                if a.kind == "ind":
                    raise NeedFork(a)
        z = X.eq0(e2)
        return not self.decide(z) if z is not e2 else self._opaque_bool(e2)

    def _opaque_bool(self, e):
        a = X.gt0(X.leaf("?bool%d" % e.id)).t[0][0][0][0]
        v = self.fact(a)
        if v is None:
            raise NeedFork(a)
        return v

    def apply_facts(self, e):
        if not self.facts:
            return e
        hit = False
        acc = []
        for m, c in e.t:
            keep = []
            k = c
            for a, x in m:
                if a.kind == "ind":
                    v = self.fact(a)
                    if v is not None:
                        hit = True
                        if not v:
                            k = 0
                            break
                        continue
                elif a.kind == "fn" and a.args[0] == "sign" and x > 0:
                    z = X.eq0(a.args[1][0])
                    if len(z.t) == 1 and z.t[0][1] == 1 and len(z.t[0][0]) == 1 and self.fact(z.t[0][0][0][0]):
                        hit = True
                        k = 0
                        break
                keep.append((a, x))
            if k:
                acc.append(X._mk({tuple(keep): k}))
        return X.total(acc) if hit else e

    def truth(self, v):
        if v is None or isinstance(v, (bool, int, float, str, bytes, tuple)):
            return bool(v)
        if isinstance(v, Sym):
            if v.kind == "b":
                return self.decide(v.e)
            return not self.decide(X.eq0(v.e))
        if isinstance(v, ARef):
            a = self.arr(v)
            n = int_of(a.size())
            if n == 1:
                return self.truth(Sym(a.at([ZERO] * a.ndim), a.dtype if a.dtype == "b" else "f"))
            if n is not None or not any(True for _ in a.size().fv):
                self.throw("ValueError", "The truth value of an array with more than one element is ambiguous")
        if isinstance(v, Ref):
            c = self.get(v.oid)
            if isinstance(c, ListC):
                return bool(c.items)
            if isinstance(c, SymListC):
                return self.truth(Sym(c.n, "i"))
            if isinstance(c, DictC):
                return bool(c.d)
            if isinstance(c, InstC):
                for nm in ("__bool__", "__len__"):
                    f = self.class_lookup(c.cls, nm)
                    if f is not MISSING:
                        return self.truth(self.call(BoundV(f, v), [], {}))
                return True
            return True
        if isinstance(v, RangeV):
            return self.truth(self.binop("-", v.stop, v.start))
        if isinstance(v, Unk):
            a = X.gt0(X.leaf("?truth:" + v.reason)).t[0][0][0][0]
            w = self.fact(a)
            if w is None:
                raise NeedFork(a)
            return w
        return True

    # ------------------------------------------------------------- errors
    def where(self):
        for fr in reversed(self.stack):
            if fr.module is not None:
                return "%s:%d in %s" % (self.rel(fr.module.path), fr.line, fr.name)
        return "<checker>"

    def trace(self):
        return ["%s:%d in %s" % (self.rel(f.module.path), f.line, f.name)
                for f in self.stack if f.module is not None]

    def rel(self, p):
        base = os.path.dirname(os.path.dirname(self.root.rstrip("/")))
        return os.path.relpath(p, base) if p else "?"

    def exc(self, name, msg=""):
        t = BUILTIN_EXC.get(name) or BUILTIN_EXC_EXTRA[name]
        e = ExcV(t, msg, (msg,))
        e.where = self.where()
        e.trace = self.trace()
        return e

    def throw(self, name, msg=""):
        raise RaiseEx(self.exc(name, msg))

    def unk(self, reason):
        r = "%s @ %s" % (reason, self.where())
        self.unknowns[r] = self.unknowns.get(r, 0) + 1
        return Unk(r)

    def alloc_cell(self, v):
        return Ref(self.alloc(CellC(v)))

    def set_hidden(self, key, v):
        self.set(self.hidden, DictC({**self.get(self.hidden).d, key: v}))

    def event(self, kind, *data):
        self.events.append((kind, self.where()) + data)

    # ------------------------------------------------------------- arrays
    def arr(self, v):
        """Arr of an array-like value."""
        if isinstance(v, ARef):
            a = self.get(v.oid).arr
            for op in v.chain:
                a = view_get(op, a)
            return a
        if isinstance(v, bool):
            return AR.scalar(const(int(v)), "b")
        if isinstance(v, int):
            return AR.scalar(const(v), "i")
        if isinstance(v, float):
            e = self.num(v)
            if e is None:
                raise Undecided("non-finite number")
            return AR.scalar(e, "f")
        if isinstance(v, Sym):
            return AR.scalar(v.e, v.kind)
        if isinstance(v, (tuple, list)):
            return self._arr_seq(list(v))
        if isinstance(v, RangeV):
            n = self.range_len(v)
            st, sp = self.num(v.start), self.num(v.step)
            return AR.make((n,), lambda i: add(st, mul(sp, i)), "i")
        if isinstance(v, Ref):
            c = self.get(v.oid)
            if isinstance(c, ListC):
                return self._arr_seq(list(c.items))
            if isinstance(c, SymListC):
                item = self.arr(c.item)
                sh = (c.n,) + item.shape
                if any(c.var in s.fv for s in item.shape):
                    raise Undecided("ragged list")

                def f(*idx):
                    b = X.subst(item.body, {c.var: idx[0]})
                    a2 = Arr(item.shape, b, item.dtype)
                    return a2.at(idx[1:])
                return _make_shift(sh, c, item)
            if isinstance(c, InstC):
                f = self.class_lookup(c.cls, "__array__")
                if f is not MISSING:
                    return self.arr(self.call(BoundV(f, v), [], {}))
                g = self.class_lookup(c.cls, "__getitem__")
                ln = self.class_lookup(c.cls, "__len__")
                if g is not MISSING and ln is not MISSING:
                    return self._arr_seq(self.iterate(v))
        if isinstance(v, Masked):
            raise Undecided("masked selection")
        h = getattr(v, "as_arr", None)
        if h is not None:
            return h(self)
        raise Undecided("array from %r" % (v,))

    def _arr_seq(self, items):
        if not items:
            return Arr((const(0),), ZERO, "f")
        parts = [self.arr(self.load(x)) for x in items]
        if all(p.ndim == 0 for p in parts):
            dt = AR.promote(*[p.dtype for p in parts])
            n = len(parts)
            if n == 1:
                return Arr((ONE_E,), parts[0].body, dt)

            def f(i):
                out = ZERO
                for k, p in enumerate(parts):
                    out = add(out, mul(X.eq0(add(i, const(-k))), p.body))
                return out
            return AR.make((const(n),), f, dt)
        for p in parts[1:]:
            if p.ndim != parts[0].ndim or not all(AR.same_dim(x, y) for x, y in zip(p.shape, parts[0].shape)):
                raise ShapeError("setting an array element with a sequence. The requested array has an "
                                 "inhomogeneous shape")
        return AR.stack(parts, 0)

    def new_array(self, a, origin=None):
        """Value for a freshly computed array (scalars for shape ())."""
        if a.ndim == 0:
            c = const_of(a.body)
            if a.dtype == "b" and c is not None:
                return bool(c)
            return Sym(a.body, {"b": "b", "i": "i"}.get(a.dtype, "f"))
        return ARef(self.alloc(Buf(a, origin)))

    def write(self, ref, new, op="="):
        """Stores Arr `new` through the (view) reference."""
        buf = self.get(ref.oid)
        chain = ref.chain
        stages = [buf.arr]
        for o in chain:
            stages.append(view_get(o, stages[-1]))
        cur = new
        for o, base in zip(reversed(chain), reversed(stages[:-1])):
            cur = view_put(o, base, cur)
        if buf.origin is not None:
            self.event("write", buf.origin, op)
        cur = AR.filled(cur)
        if cur.body.size > 60 or self.has_opaque(cur.body):
            cur = AR.let_bind(cur)
        self.set(ref.oid, Buf(cur, buf.origin))

    def has_opaque(self, e):
        return any("#" in n and not n.startswith(("?", "t", "rand", "un")) for n in X.leaves_of(e))

    def havoc(self, v, reason, seen=None):
        """An unknown operation may have changed v."""
        seen = seen if seen is not None else set()
        if isinstance(v, ARef):
            b = self.get(v.oid)
            self.set(v.oid, Buf(Arr(b.arr.shape, X.unknown(reason, *b.arr.idx()), b.arr.dtype), b.origin))
        elif isinstance(v, tuple):
            for x in v:
                self.havoc(x, reason, seen)
        elif isinstance(v, Ref) and v.oid not in seen:
            seen.add(v.oid)
            c = self.get(v.oid)
            if isinstance(c, ListC):
                for x in c.items:
                    self.havoc(x, reason, seen)
                self.set(v.oid, ListC([Unk(reason) for _ in c.items], c.kind, c.origin))
            elif isinstance(c, DictC):
                self.set(v.oid, DictC({k: Unk(reason) for k in c.d}, c.origin))

    def num(self, v):
        """Term of a numeric scalar value; None if not finite."""
        if isinstance(v, Sym):
            return v.e
        if isinstance(v, bool):
            return const(int(v))
        if isinstance(v, int):
            return const(v)
        if isinstance(v, float):
            if v != v or v in (float("inf"), float("-inf")):
                return None
            return const(X.frac(v))
        raise Undecided("number from %r" % (v,))

    def val(self, e, kind="i"):
        """Python int for constant integers, Sym otherwise."""
        c = const_of(e)
        if c is not None and kind == "i" and c.denominator == 1:
            return int(c)
        if c is not None and kind == "b":
            return bool(c)
        return Sym(e, kind)

    def load(self, v):
        """Resolves a joined value under the current facts."""
        while isinstance(v, ObjPhi):
            f = self.fact(v.atom)
            if f is None:
                raise NeedFork(v.atom)
            v = v.a if f else v.b
        return v

    # ------------------------------------------------------------ modules
    def load_module(self, name):
        if name in self.modules:
            return self.modules[name]
        rel = name.split(".")
        p = os.path.join(self.root, *rel[1:]) if len(rel) > 1 else self.root
        if os.path.isdir(p):
            path = os.path.join(p, "__init__.py")
            pkg = True
        else:
            path = p + ".py"
            pkg = False
        if not os.path.isfile(path):
            return None
        if len(rel) > 1:
            self.load_module(".".join(rel[:-1]))
            if name in self.modules:
                return self.modules[name]
        m = ModV(name, path)
        m.pkg = pkg
        src = open(path, encoding="utf-8").read()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            tree = ast.parse(src, path)
        self.sources[path] = tree
        m.oid = self.alloc(EnvC({"__name__": name, "__file__": path}, None, "module"))
        self.modules[name] = m
        fr = Frame("<module>", m, m.oid)
        self.stack.append(fr)
        try:
            self.exec_block(tree.body, fr)
        finally:
            self.stack.pop()
        if len(rel) > 1:
            parent = self.modules[".".join(rel[:-1])]
            env = self.get(parent.oid)
            if rel[-1] not in env.vars:
                d = dict(env.vars)
                d[rel[-1]] = m
                self.set(parent.oid, EnvC(d, env.parent, env.kind))
        return m

    def import_(self, name):
        if name.split(".")[0] == self.package:
            m = self.load_module(name)
            if m is None:
                self.throw("ModuleNotFoundError", "No module named '%s'" % name)
            return m
        return self.ext_module(name)

    def ext_module(self, name):
        known = self.ext.get(name)
        if known is None and not self.known_ext(name):
            self.throw("ModuleNotFoundError", "No module named '%s'" % name)
        return ExtMod(name)

    def known_ext(self, name):
        top = name.split(".")[0]
        if top in ("numpy", "scipy", "h5py"):
            return True
        return top in sys.stdlib_module_names or top in ("matplotlib", "sklearn", "pandas", "tqdm", "tensorly")

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, fr):
        for s in stmts:
            self.exec_stmt(s, fr)

    def exec_stmt(self, s, fr):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget("more than %d statements analysed" % self.max_steps)
        fr.line = s.lineno
        m = self.mark(fr)
        try:
            getattr(self, "x_" + type(s).__name__, self.x_other)(s, fr)
            return
        except NeedFork as nf:
            atom = nf.atom
            if self.fact(atom) is not None:
                raise RuntimeError("fork on a known fact %s" % atom)
        except X.TooBig as t:
            self.rollback(m, True, fr)
            self.unk("term too big: %s" % t)
            self.havoc_stmt(s, fr)
            return
        except Undecided as t:
            self.rollback(m, True, fr)
            self.unk("statement: %s" % t)
            self.havoc_stmt(s, fr)
            return
        self.rollback(m, True, fr)
        self.fork(lambda: self.exec_stmt(s, fr), atom, fr)

    def havoc_stmt(self, s, fr):
        """Over-approximates a statement that could not be analysed."""
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                self.assign_name(n.id, self.unk("value too big"), fr)
            elif isinstance(n, ast.Name):
                v = self.lookup(n.id, fr, quiet=True)
                if v is not MISSING and not isinstance(v, ObjPhi):
                    self.havoc(v, "value too big")
        if not isinstance(s, (ast.FunctionDef, ast.ClassDef)) and any(
                isinstance(n, (ast.Return, ast.Raise)) for n in ast.walk(s)) and len(self.stack) > 1:
            fr.pending.append(("return", self.snap(Unk("return from a statement that could not be analysed"))))

    def fork(self, thunk, atom, fr):
        m = self.mark(fr)
        base = self.facts
        normals = []
        for val in (True, False):
            f = Facts(base)
            f.lost = lost(base)
            f[atom] = val
            self.facts = f
            try:
                thunk()
                normals.append(self.snap())
            except ReturnEx as e:
                fr.pending.append(("return", self.snap(e.value)))
            except BreakEx:
                fr.pending.append(("break", self.snap()))
            except ContinueEx:
                fr.pending.append(("continue", self.snap()))
            except RaiseEx as e:
                fr.pending.append(("raise", self.snap(e.exc)))
            except Dead:
                pass
            self.rollback(m, False)
        if not normals:
            raise Dead()
        self.restore(self.join(normals))

    def x_other(self, s, fr):
        self.unk("statement %s" % type(s).__name__)

    def x_Expr(self, s, fr):
        self.ev(s.value, fr)

    def x_Pass(self, s, fr):
        pass

    def x_Global(self, s, fr):
        pass

    def x_Nonlocal(self, s, fr):
        pass

    def x_Return(self, s, fr):
        raise ReturnEx(self.ev(s.value, fr) if s.value is not None else None)

    def x_Break(self, s, fr):
        raise BreakEx()

    def x_Continue(self, s, fr):
        raise ContinueEx()

    def x_Import(self, s, fr):
        for a in s.names:
            m = self.import_(a.name)
            if a.asname:
                self.assign_name(a.asname, m, fr)
            else:
                top = a.name.split(".")[0]
                self.assign_name(top, self.import_(top), fr)

    def x_ImportFrom(self, s, fr):
        base = s.module or ""
        if s.level:
            pkg = fr.module.name if fr.module.pkg else fr.module.name.rsplit(".", 1)[0]
            for _ in range(s.level - 1):
                pkg = pkg.rsplit(".", 1)[0]
            base = pkg + ("." + base if base else "")
        m = self.import_(base)
        for a in s.names:
            if a.name == "*":
                if isinstance(m, ModV):
                    env = self.get(m.oid).vars
                    allv = env.get("__all__")
                    names = None
                    if allv is not None:
                        names = [x for x in self.iterate(allv)]
                    else:
                        names = [k for k in env if not k.startswith("_")]
                    for k in names:
                        v = env.get(k, MISSING)
                        if v is MISSING:
                            self.throw("AttributeError", "module %s has no attribute %s" % (m.name, k))
                        self.assign_name(k, v, fr)
                continue
            v = self.module_attr(m, a.name)
            if v is MISSING and isinstance(m, ModV):
                sub = self.load_module(m.name + "." + a.name)
                v = sub if sub is not None else MISSING
            if v is MISSING:
                self.throw("ImportError", "cannot import name '%s' from '%s'" % (a.name, base))
            self.assign_name(a.asname or a.name, v, fr)

    def x_FunctionDef(self, s, fr):
        f = self.make_func(s, fr)
        v = f
        for d in reversed(s.decorator_list):
            v = self.call(self.ev(d, fr), [v], {})
        self.assign_name(s.name, v, fr)

    def make_func(self, s, fr, name=None):
        a = s.args
        defaults = tuple(self.ev(d, fr) for d in a.defaults)
        kwd = {k.arg: self.ev(d, fr) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        env = fr.env
        # methods do not see the class scope
        if self.get(env).kind == "class":
            env_parent = self.get(env).parent
        else:
            env_parent = env
        name = name or s.name
        qual = (fr.qual + "." if getattr(fr, "qual", None) else "") + name
        return FuncV(s, env_parent, defaults, kwd, name, fr.module, getattr(fr, "cls_cell", None), qual)

    def x_ClassDef(self, s, fr):
        bases = [self.ev(b, fr) for b in s.bases]
        bases = [b for b in bases if isinstance(b, (ClassV, ExcType, TypeV))]
        env = self.alloc(EnvC({}, fr.env, "class"))
        f2 = Frame(s.name, fr.module, env)
        f2.qual = s.name
        cell = [None]
        f2.cls_cell = cell
        f2.line = s.lineno
        self.stack.append(f2)
        try:
            self.exec_block(s.body, f2)
        finally:
            self.stack.pop()
        attrs = self.get(env).vars
        oid = self.alloc(DictC(dict(attrs)))
        c = ClassV(s.name, bases, oid, fr.module, s)
        cell[0] = c
        v = c
        for d in reversed(s.decorator_list):
            v = self.call(self.ev(d, fr), [v], {})
        self.assign_name(s.name, v, fr)

    def x_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def x_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def x_AugAssign(self, s, fr):
        op = OPS[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup_load(t.id, fr)
            rhs = self.ev(s.value, fr)
            self.assign_name(t.id, self.iop(op, cur, rhs), fr)
        elif isinstance(t, ast.Attribute):
            obj = self.ev(t.value, fr)
            cur = self.getattr(obj, t.attr)
            rhs = self.ev(s.value, fr)
            self.setattr(obj, t.attr, self.iop(op, cur, rhs))
        elif isinstance(t, ast.Subscript):
            obj = self.ev(t.value, fr)
            key = self.ev_index(t.slice, fr)
            cur = self.getitem(obj, key)
            rhs = self.ev(s.value, fr)
            new = self.iop(op, cur, rhs)
            self.setitem(obj, key, new)

    def iop(self, op, cur, rhs):
        """In-place operator; arrays are updated in place."""
        if isinstance(cur, ARef):
            r = self.binop(op, cur, rhs)
            if isinstance(r, ARef):
                a = self.arr(cur)
                b = self.arr(r)
                if a.shape != b.shape:
                    if not (len(a.shape) == len(b.shape) and all(AR.same_dim(x, y) for x, y in zip(a.shape, b.shape))):
                        self.throw("ValueError", "non-broadcastable output operand with shape %s doesn't match the "
                                   "broadcast shape %s" % (list(a.shape), list(b.shape)))
                if AR._RANK.get(b.dtype, 5) > AR._RANK.get(a.dtype, 5) and a.dtype in "ib":
                    self.throw("UFuncTypeError", "Cannot cast ufunc output from float to int")
                self.write(cur, Arr(a.shape, b.body, a.dtype), op + "=")
                return cur
            if isinstance(r, Unk):
                self.havoc(cur, r.reason)
                return cur
            return cur
        if isinstance(cur, Ref):
            c = self.get(cur.oid)
            if isinstance(c, ListC) and op == "+" and c.kind == "list":
                items = self.iterate(rhs)
                self.list_event(cur, "+=")
                self.set(cur.oid, ListC(c.items + tuple(items), c.kind, c.origin))
                return cur
            if isinstance(c, InstC):
                nm = {"+": "__iadd__", "*": "__imul__", "-": "__isub__", "/": "__itruediv__"}.get(op)
                f = self.class_lookup(c.cls, nm) if nm else MISSING
                if f is not MISSING:
                    return self.call(BoundV(f, cur), [rhs], {})
        return self.binop(op, cur, rhs)

    def list_event(self, ref, op):
        c = self.get(ref.oid)
        if getattr(c, "origin", None) is not None:
            self.event("write", c.origin, op)

    def x_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env = self.get(fr.env)
                d = dict(env.vars)
                if t.id not in d:
                    self.throw("NameError", t.id)
                del d[t.id]
                self.set(fr.env, EnvC(d, env.parent, env.kind))
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, fr)
                self.delattr(o, t.attr)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, fr)
                k = self.ev_index(t.slice, fr)
                self.delitem(o, k)

    def delattr(self, o, name):
        if isinstance(o, Ref):
            c = self.get(o.oid)
            if isinstance(c, InstC):
                if name not in c.attrs:
                    self.throw("AttributeError", name)
                d = dict(c.attrs)
                del d[name]
                self.set(o.oid, InstC(c.cls, d))
                return
        self.unk("delattr")

    def delitem(self, o, k):
        if isinstance(o, Ref):
            c = self.get(o.oid)
            if isinstance(c, DictC):
                if k not in c.d:
                    self.throw("KeyError", repr(k))
                d = dict(c.d)
                del d[k]
                if c.origin is not None:
                    self.event("write", c.origin, "del")
                self.set(o.oid, DictC(d, c.origin))
                return
            if isinstance(c, ListC) and isinstance(k, int):
                it = list(c.items)
                if k < -len(it) or k >= len(it):
                    self.throw("IndexError", "list assignment index out of range")
                del it[k]
                self.list_event(o, "del")
                self.set(o.oid, ListC(it, c.kind, c.origin))
                return
            if isinstance(c, ListC) and isinstance(k, SliceV):
                try:
                    it = list(c.items)
                    del it[slice(k.start, k.stop, k.step)]
                    self.list_event(o, "del")
                    self.set(o.oid, ListC(it, c.kind, c.origin))
                    return
                except TypeError:
                    pass
        h = getattr(o, "delitem", None)
        if h is not None:
            return h(self, k)
        self.unk("delitem")
        self.havoc(o, "delitem")

    def x_Assert(self, s, fr):
        if not self.truth(self.ev(s.test, fr)):
            self.throw("AssertionError", ast.unparse(s.test))

    def x_If(self, s, fr):
        if self.truth(self.ev(s.test, fr)):
            self.exec_block(s.body, fr)
        else:
            self.exec_block(s.orelse, fr)

    def x_Raise(self, s, fr):
        if s.exc is None:
            e = getattr(fr, "handling", None)
            if e is not None:
                raise RaiseEx(e)
            self.throw("RuntimeError", "No active exception to reraise")
        v = self.ev(s.exc, fr)
        raise RaiseEx(self.to_exc(v))

    def to_exc(self, v):
        if isinstance(v, ExcType):
            v = ExcV(v)
        if isinstance(v, ClassV):
            v = self.call(v, [], {})
        if isinstance(v, Ref):
            c = self.get(v.oid)
            if isinstance(c, InstC):
                base = self.exc_base(c.cls)
                if base is not None:
                    e = ExcV(base)
                    e.inst = v
                    v = e
        if not isinstance(v, ExcV):
            v = ExcV(BUILTIN_EXC["Exception"], "unknown exception")
            v.definite = False
        v.where = self.where()
        v.trace = self.trace()
        return v

    def exc_base(self, cls):
        for c in cls.mro:
            if isinstance(c, ExcType):
                return c
        return None

    def x_Try(self, s, fr):
        pm = len(fr.pending)
        outs = self.run_outcomes(lambda: self.exec_block(s.body, fr), fr, pm)
        res = []
        for kind, sn in outs:
            if kind == "raise":
                self.restore(sn)
                res.extend(self.handle(s, sn.value, fr, pm))
            elif kind == "normal" and s.orelse:
                self.restore(sn)
                res.extend(self.run_outcomes(lambda: self.exec_block(s.orelse, fr), fr, pm))
            else:
                res.append((kind, sn))
        if s.finalbody:
            res2 = []
            for kind, sn in res:
                self.restore(sn)
                val = sn.value
                for k2, s2 in self.run_outcomes(lambda: self.exec_block(s.finalbody, fr), fr, pm):
                    if k2 == "normal":
                        s2.value = val
                        res2.append((kind, s2))
                    else:
                        res2.append((k2, s2))
            res = res2
        self.resume(res, fr)

    def resume(self, outs, fr):
        """Continues with the joined normal outcomes; others become pending."""
        normals = [sn for k, sn in outs if k == "normal"]
        ab = [(k, sn) for k, sn in outs if k != "normal"]
        if not normals and len(ab) == 1:
            k, sn = ab[0]
            self.restore(sn)
            raise {"return": lambda: ReturnEx(sn.value), "break": BreakEx, "continue": ContinueEx,
                   "raise": lambda: RaiseEx(sn.value)}[k]()
        fr.pending.extend(ab)
        if not normals:
            raise Dead()
        for sn in normals:
            sn.value = None
        self.restore(self.join(normals))

    def run_outcomes(self, thunk, fr, pm):
        outs = []
        try:
            thunk()
            outs.append(("normal", self.snap()))
        except ReturnEx as e:
            outs.append(("return", self.snap(e.value)))
        except BreakEx:
            outs.append(("break", self.snap()))
        except ContinueEx:
            outs.append(("continue", self.snap()))
        except RaiseEx as e:
            outs.append(("raise", self.snap(e.exc)))
        except Dead:
            pass
        outs.extend(fr.pending[pm:])
        del fr.pending[pm:]
        return outs

    def handle(self, s, exc, fr, pm):
        for h in s.handlers:
            match = False
            if h.type is None:
                match = True
            else:
                t = self.ev(h.type, fr)
                match = self.exc_matches(exc, t)
            if match:
                if h.name:
                    self.assign_name(h.name, exc, fr)
                old = getattr(fr, "handling", None)
                fr.handling = exc
                try:
                    return self.run_outcomes(lambda: self.exec_block(h.body, fr), fr, pm)
                finally:
                    fr.handling = old
        return [("raise", self.snap(exc))]

    def exc_matches(self, exc, t):
        if isinstance(t, tuple):
            return any(self.exc_matches(exc, x) for x in t)
        if isinstance(t, ExcType):
            return issubclass(exc.typ.py, t.py)
        if isinstance(t, ClassV):
            inst = getattr(exc, "inst", None)
            if inst is not None:
                return t in self.get(inst.oid).cls.mro
            return False
        return True

    def x_With(self, s, fr):
        pm = len(fr.pending)
        exits = []
        for it in s.items:
            cm = self.ev(it.context_expr, fr)
            v = self.enter(cm)
            exits.append(cm)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
        outs = self.run_outcomes(lambda: self.exec_block(s.body, fr), fr, pm)
        res = []
        for kind, sn in outs:
            self.restore(sn)
            for cm in reversed(exits):
                self.exit(cm)
            s2 = self.snap(sn.value)
            res.append((kind, s2))
        self.resume(res, fr)

    def enter(self, cm):
        if isinstance(cm, Ref):
            c = self.get(cm.oid)
            if isinstance(c, InstC):
                f = self.class_lookup(c.cls, "__enter__")
                if f is not MISSING:
                    return self.call(BoundV(f, cm), [], {})
                self.throw("AttributeError", "__enter__")
        h = getattr(cm, "enter", None)
        return h(self) if h else cm

    def exit(self, cm):
        if isinstance(cm, Ref):
            c = self.get(cm.oid)
            if isinstance(c, InstC):
                f = self.class_lookup(c.cls, "__exit__")
                if f is not MISSING:
                    self.call(BoundV(f, cm), [None, None, None], {})
                return
        h = getattr(cm, "exit", None)
        if h:
            h(self)

    # --------------------------------------------------------------- loops
    def x_While(self, s, fr):
        pm = len(fr.pending)
        breaks = []
        n = 0
        alive = True
        while True:
            n += 1
            if n > 60:
                self.unk("while loop not unrolled")
                self.havoc_loop(s, fr)
                break
            outs = self.run_outcomes(lambda: self.while_step(s, fr), fr, pm)
            normals = []
            done = []
            for k, sn in outs:
                if k in ("normal", "continue"):
                    normals.append(sn)
                elif k == "break" and sn.value == "test":
                    done.append(sn)
                elif k == "break":
                    breaks.append(sn)
                else:
                    fr.pending.append((k, sn))
            if done:
                for sn in done:
                    sn.value = None
                j = self.join(done)
                if s.orelse:
                    self.restore(j)
                    for k, sn in self.run_outcomes(lambda: self.exec_block(s.orelse, fr), fr, len(fr.pending)):
                        (breaks.append(sn) if k == "normal" else fr.pending.append((k, sn)))
                else:
                    breaks.append(j)
            if not normals:
                alive = False
                break
            self.restore(self.join(normals))
        if not alive:
            if not breaks:
                raise Dead()
            for b in breaks:
                b.value = None
            self.restore(self.join(breaks))

    def while_step(self, s, fr):
        t = ast.If(test=s.test, body=s.body, orelse=[_TestBreak(lineno=s.lineno)], lineno=s.lineno)
        self.exec_stmt(t, fr)

    def x__TestBreak(self, s, fr):
        raise _TestBreakEx()

    def havoc_loop(self, s, fr):
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                self.assign_name(n.id, self.unk("loop"), fr)

    def x_For(self, s, fr):
        it = self.ev(s.iter, fr)
        seq = self.sequence(it)
        if isinstance(seq, SymSeq):
            n = int_of(seq.n)
            if n is not None:
                seq = [seq.item(self, const(k)) for k in range(n)]
            else:
                return self.symbolic_for(s, seq, fr)
        pm = len(fr.pending)
        breaks = []
        dead = False
        for v in seq:
            def step(v=v):
                self.assign(s.target, self.load(v), fr)
                self.exec_block(s.body, fr)
            outs = self.run_outcomes_fast(step, fr, pm)
            if outs is None:
                continue
            nxt = []
            for k, sn in outs:
                if k in ("normal", "continue"):
                    nxt.append(sn)
                elif k == "break":
                    breaks.append(sn)
                else:
                    fr.pending.append((k, sn))
            # pending entries of outer kinds must not be consumed by the next step
            pm = len(fr.pending)
            if not nxt:
                dead = True
                break
            self.restore(self.join(nxt))
        if not dead and s.orelse:
            outs = self.run_outcomes(lambda: self.exec_block(s.orelse, fr), fr, len(fr.pending))
            nxt = []
            for k, sn in outs:
                if k == "normal":
                    nxt.append(sn)
                else:
                    fr.pending.append((k, sn))
            dead = not nxt
            if nxt:
                self.restore(self.join(nxt))
        if breaks:
            alls = list(breaks)
            if not dead:
                alls.append(self.snap())
            self.restore(self.join(alls))
        elif dead:
            raise Dead()

    def run_outcomes_fast(self, thunk, fr, pm):
        """None when the step simply completed."""
        try:
            thunk()
            if len(fr.pending) == pm:
                return None
            outs = [("normal", self.snap())]
        except ReturnEx as e:
            outs = [("return", self.snap(e.value))]
        except BreakEx:
            outs = [("break", self.snap())]
        except ContinueEx:
            if len(fr.pending) == pm:
                return None
            outs = [("continue", self.snap())]
        except RaiseEx as e:
            outs = [("raise", self.snap(e.exc))]
        except Dead:
            outs = []
        outs.extend(fr.pending[pm:])
        del fr.pending[pm:]
        return outs

    def symbolic_for(self, s, seq, fr):
        from .loops import symbolic_for
        return symbolic_for(self, s, seq, fr)

    # ----------------------------------------------------------- assignment
    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if isinstance(v, Unk):
                for e in t.elts:
                    self.assign(e.value if isinstance(e, ast.Starred) else e, Unk(v.reason), fr)
                return
            items = self.iterate(v)
            if items is None:
                for e in t.elts:
                    self.assign(e.value if isinstance(e, ast.Starred) else e, self.unk("unpack"), fr)
                return
            if star:
                k = star[0]
                after = len(t.elts) - k - 1
                if len(items) < len(t.elts) - 1:
                    self.throw("ValueError", "not enough values to unpack")
                for e, x in zip(t.elts[:k], items[:k]):
                    self.assign(e, x, fr)
                mid = items[k:len(items) - after]
                self.assign(t.elts[k].value, Ref(self.alloc(ListC(mid))), fr)
                for e, x in zip(t.elts[k + 1:], items[len(items) - after:]):
                    self.assign(e, x, fr)
                return
            if len(items) != len(t.elts):
                self.throw("ValueError", "cannot unpack %d values into %d names" % (len(items), len(t.elts)))
            for e, x in zip(t.elts, items):
                self.assign(e, self.load(x), fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            self.setitem(o, self.ev_index(t.slice, fr), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)

    def func_scopes(self, node):
        r = self.locals_cache.get(node)
        if r is None:
            loc, glob, nonl = set(), set(), set()

            def walk(n, top=False):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and not top:
                    loc.add(n.name)
                    for d in n.decorator_list:
                        walk(d)
                    return
                if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)) and not top:
                    for c in ast.walk(n):
                        if isinstance(c, ast.NamedExpr):
                            loc.add(c.target.id)
                    return
                if isinstance(n, ast.Global):
                    glob.update(n.names)
                elif isinstance(n, ast.Nonlocal):
                    nonl.update(n.names)
                elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    loc.add(n.id)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    for a in n.names:
                        loc.add((a.asname or a.name).split(".")[0])
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    loc.add(n.name)
                for c in ast.iter_child_nodes(n):
                    walk(c)
            if isinstance(node, ast.Lambda):
                pass
            else:
                for st in node.body:
                    walk(st)
            a = node.args
            for x in a.posonlyargs + a.args + a.kwonlyargs:
                loc.add(x.arg)
            if a.vararg:
                loc.add(a.vararg.arg)
            if a.kwarg:
                loc.add(a.kwarg.arg)
            r = (loc - glob - nonl, glob, nonl)
            self.locals_cache[node] = r
        return r

    def assign_name(self, name, v, fr):
        env = fr.env
        if fr.node is not None and isinstance(fr.node, (ast.FunctionDef, ast.Lambda)):
            loc, glob, nonl = self.func_scopes(fr.node)
            if name in glob:
                env = fr.module.oid
                self.event("global_write", name)
            elif name in nonl:
                p = self.get(fr.env).parent
                while p is not None:
                    c = self.get(p)
                    if name in c.vars:
                        env = p
                        break
                    p = c.parent
        c = self.get(env)
        d = dict(c.vars)
        d[name] = v
        self.set(env, EnvC(d, c.parent, c.kind))

    def lookup(self, name, fr, quiet=False):
        oid = fr.env
        first = True
        if fr.node is not None and isinstance(fr.node, (ast.FunctionDef, ast.Lambda)):
            loc, glob, nonl = self.func_scopes(fr.node)
            if name in glob:
                oid = fr.module.oid
            elif name in loc:
                c = self.get(oid)
                # comprehension environments hang below the function's own
                o = oid
                while o is not None:
                    cc = self.get(o)
                    if name in cc.vars:
                        return cc.vars[name]
                    if cc.kind == "function":
                        break
                    o = cc.parent
                if quiet:
                    return MISSING
                self.throw("UnboundLocalError", "cannot access local variable '%s' where it is not "
                           "associated with a value" % name)
        while oid is not None:
            c = self.get(oid)
            if name in c.vars and (c.kind != "class" or first):
                return c.vars[name]
            first = False
            oid = c.parent
        if fr.module is not None:
            c = self.get(fr.module.oid)
            if name in c.vars:
                return c.vars[name]
        if name in self.builtins:
            return self.builtins[name]
        return MISSING

    def lookup_load(self, name, fr):
        v = self.load(self.lookup(name, fr))
        if v is MISSING:
            if fr.node is not None and name in self.func_scopes(fr.node)[0]:
                self.throw("UnboundLocalError", "cannot access local variable '%s' where it is not "
                           "associated with a value" % name)
            self.throw("NameError", "name '%s' is not defined" % name)
        return v

    # ---------------------------------------------------------- expressions
    def ev(self, n, fr):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            return self.unk("expression %s" % type(n).__name__)
        try:
            return m(n, fr)
        except Undecided as u:
            return self.unk(str(u))
        except ShapeError as s:
            fr.line = getattr(n, "lineno", fr.line)
            self.throw("ValueError", str(s))
        except IndexError as s:
            fr.line = getattr(n, "lineno", fr.line)
            self.throw("IndexError", str(s))

    def e_Constant(self, n, fr):
        return n.value

    def e_Name(self, n, fr):
        return self.lookup_load(n.id, fr)

    def e_NamedExpr(self, n, fr):
        v = self.ev(n.value, fr)
        self.assign_name(n.target.id, v, fr)
        return v

    def e_Tuple(self, n, fr):
        return tuple(self.ev_items(n.elts, fr))

    def e_List(self, n, fr):
        return Ref(self.alloc(ListC(self.ev_items(n.elts, fr))))

    def e_Set(self, n, fr):
        items = []
        for x in self.ev_items(n.elts, fr):
            if not any(same_value(x, y) for y in items):
                items.append(x)
        return Ref(self.alloc(ListC(items, "set")))

    def ev_items(self, elts, fr):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value, fr)
                items = self.iterate(v)
                if items is None:
                    raise Undecided("star of unknown sequence")
                out.extend(items)
            else:
                out.append(self.ev(e, fr))
        return out

    def e_Dict(self, n, fr):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = self.ev(v, fr)
                c = self.get(o.oid) if isinstance(o, Ref) else None
                if not isinstance(c, DictC):
                    raise Undecided("dict unpacking")
                d.update(c.d)
            else:
                d[self.key(self.ev(k, fr))] = self.ev(v, fr)
        return Ref(self.alloc(DictC(d)))

    def key(self, k):
        """A hashable dictionary key."""
        if isinstance(k, Sym):
            c = const_of(k.e)
            if c is not None:
                return int(c) if c.denominator == 1 else float(c)
            return k
        if isinstance(k, (str, int, float, bool, bytes, type(None), tuple, ClassV, TypeV)):
            return k
        if isinstance(k, ARef):
            self.throw("TypeError", "unhashable type: 'numpy.ndarray'")
        if isinstance(k, Ref):
            c = self.get(k.oid)
            if isinstance(c, ListC) or isinstance(c, DictC):
                self.throw("TypeError", "unhashable type")
            return k
        if isinstance(k, Unk):
            raise Undecided("unknown dictionary key")
        return k

    def e_JoinedStr(self, n, fr):
        out = []
        unk = False
        for v in n.values:
            if isinstance(v, ast.Constant):
                out.append(v.value)
            else:
                x = self.ev(v.value, fr)
                spec = ""
                if v.format_spec is not None:
                    spec = self.ev(v.format_spec, fr)
                s = self.format(x, spec, v.conversion)
                if s is None:
                    unk = True
                else:
                    out.append(s)
        if unk:
            return Unk("formatted string")
        return "".join(out)

    def format(self, x, spec="", conv=-1):
        if isinstance(x, Sym):
            c = const_of(x.e)
            if c is not None and c.denominator == 1:
                x = int(c)
        if isinstance(x, (int, float, str)) and isinstance(spec, str):
            if conv == 114:
                x = repr(x)
            try:
                return format(x, spec)
            except (ValueError, TypeError) as e:
                self.throw(type(e).__name__, str(e))
        if x is None or isinstance(x, (tuple, bytes)):
            return None if isinstance(x, tuple) else str(x)
        return None

    def e_FormattedValue(self, n, fr):
        return self.format(self.ev(n.value, fr)) or Unk("formatted string")

    def e_BoolOp(self, n, fr):
        v = None
        for e in n.values:
            v = self.ev(e, fr)
            t = self.truth(v)
            if isinstance(n.op, ast.And) and not t:
                return v if not isinstance(v, Sym) else False
            if isinstance(n.op, ast.Or) and t:
                return v if not (isinstance(v, Sym) and v.kind == "b") else True
        if isinstance(v, Sym) and v.kind == "b":
            return isinstance(n.op, ast.And)
        return v

    def e_UnaryOp(self, n, fr):
        v = self.ev(n.operand, fr)
        if isinstance(n.op, ast.Not):
            return not self.truth(v)
        if isinstance(n.op, ast.USub):
            if isinstance(v, (int, float)):
                return -v
            return self.binop("*", -1, v)
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(v, bool):
            return ~v
        if isinstance(v, int):
            return ~v
        if isinstance(v, Unk):
            return v
        if isinstance(v, Ref):
            raise Undecided("~")
        a = self.arr(v)
        if a.dtype == "b":
            return self.new_array(a.map(X.bnot))
        raise Undecided("~")

    def e_BinOp(self, n, fr):
        a = self.ev(n.left, fr)
        b = self.ev(n.right, fr)
        fr.line = n.lineno
        return self.binop(OPS[type(n.op)], a, b)

    def e_Compare(self, n, fr):
        left = self.ev(n.left, fr)
        res = True
        for op, c in zip(n.ops, n.comparators):
            right = self.ev(c, fr)
            r = self.compare(CMP[type(op)], left, right)
            if len(n.ops) == 1:
                return r
            if not self.truth(r):
                return False
            left = right
        return res

    def e_IfExp(self, n, fr):
        return self.ev(n.body if self.truth(self.ev(n.test, fr)) else n.orelse, fr)

    def e_Attribute(self, n, fr):
        o = self.ev(n.value, fr)
        fr.line = n.lineno
        return self.getattr(o, n.attr)

    def e_Subscript(self, n, fr):
        o = self.ev(n.value, fr)
        k = self.ev_index(n.slice, fr)
        fr.line = n.lineno
        return self.load(self.getitem(o, k))

    def ev_index(self, n, fr):
        return self.ev(n, fr)

    def e_Slice(self, n, fr):
        return SliceV(*[self.ev(x, fr) if x is not None else None for x in (n.lower, n.upper, n.step)])

    def e_Index(self, n, fr):
        return self.ev(n.value, fr)

    def e_Starred(self, n, fr):
        return self.ev(n.value, fr)

    def e_Lambda(self, n, fr):
        return self.make_func(n, fr, "<lambda>")

    def e_Await(self, n, fr):
        return self.unk("await")

    def e_Yield(self, n, fr):
        v = self.ev(n.value, fr) if n.value is not None else None
        c = self.get(fr.yields)
        self.set(fr.yields, ListC(c.items + (v,)))
        return None

    def e_YieldFrom(self, n, fr):
        items = self.iterate(self.ev(n.value, fr))
        c = self.get(fr.yields)
        self.set(fr.yields, ListC(c.items + tuple(items)))
        return None

    def e_ListComp(self, n, fr):
        return self.comp(n, fr, "list")

    def e_SetComp(self, n, fr):
        r = self.comp(n, fr, "list")
        items = []
        for x in self.get(r.oid).items:
            if not any(same_value(x, y) for y in items):
                items.append(x)
        return Ref(self.alloc(ListC(items, "set")))

    def e_GeneratorExp(self, n, fr):
        return self.comp(n, fr, "gen")

    def e_DictComp(self, n, fr):
        out = {}

        def leaf(f2):
            out[self.key(self.ev(n.key, f2))] = self.ev(n.value, f2)
        self.comp_loop(n.generators, 0, fr, leaf)
        return Ref(self.alloc(DictC(out)))

    def comp(self, n, fr, kind):
        items = []
        # a single generator over a symbolic range gives a symbolic list
        if len(n.generators) == 1:
            g = n.generators[0]
            seq = self.sequence(self.ev(g.iter, fr))
            if isinstance(seq, SymSeq) and int_of(seq.n) is None:
                if g.ifs:
                    raise Undecided("filtered symbolic comprehension")
                v = X.fresh(seq.n, "k")
                env = self.alloc(EnvC({}, fr.env, "comp"))
                f2 = self._sub_frame(fr, env)
                self.assign_in(g.target, seq.item(self, from_atom(v)), f2)
                item = self.ev(n.elt, f2)
                return Ref(self.alloc(SymListC(seq.n, v, item)))

        def leaf(f2):
            items.append(self.ev(n.elt, f2))
        self.comp_loop(n.generators, 0, fr, leaf)
        if kind == "gen":
            return Ref(self.alloc(IterC(items)))
        return Ref(self.alloc(ListC(items)))

    def _sub_frame(self, fr, env):
        f2 = Frame(fr.name, fr.module, env, fr.node)
        f2.line = fr.line
        f2.pending = fr.pending
        f2.func = fr.func
        f2.yields = fr.yields
        if hasattr(fr, "qual"):
            f2.qual = fr.qual
        if hasattr(fr, "cls_cell"):
            f2.cls_cell = fr.cls_cell
        return f2

    def assign_in(self, t, v, f2):
        """Assignment of comprehension targets in their own environment."""
        if isinstance(t, ast.Name):
            c = self.get(f2.env)
            d = dict(c.vars)
            d[t.id] = self.load(v)
            self.set(f2.env, EnvC(d, c.parent, c.kind))
        else:
            items = self.iterate(v) if not isinstance(v, Unk) else None
            if items is None:
                for e in t.elts:
                    self.assign_in(e, Unk("unpack"), f2)
                return
            if len(items) != len(t.elts):
                self.throw("ValueError", "cannot unpack %d values into %d names" % (len(items), len(t.elts)))
            for e, x in zip(t.elts, items):
                self.assign_in(e, x, f2)

    def comp_loop(self, gens, k, fr, leaf):
        if k == len(gens):
            leaf(fr)
            return
        g = gens[k]
        seq = self.sequence(self.ev(g.iter, fr))
        if isinstance(seq, SymSeq):
            n = int_of(seq.n)
            if n is None:
                raise Undecided("comprehension over a symbolic range")
            seq = [seq.item(self, const(i)) for i in range(n)]
        for v in seq:
            env = self.alloc(EnvC({}, fr.env, "comp"))
            f2 = self._sub_frame(fr, env)
            self.assign_in(g.target, v, f2)
            if all(self.truth(self.ev(c, f2)) for c in g.ifs):
                self.comp_loop(gens, k + 1, f2, leaf)

    # ---------------------------------------------------------------- calls
    def e_Call(self, n, fr):
        # super() needs the defining class
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            return self.make_super(fr)
        if isinstance(n.func, ast.Name) and n.func.id in ("locals", "globals", "vars") and not n.args:
            raise Undecided(n.func.id)
        f = self.ev(n.func, fr)
        args = []
        kwargs = {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, fr)
                items = self.iterate(v)
                if items is None:
                    return self.unk("call with unknown star argument")
                args.extend(self.load(x) for x in items)
            else:
                args.append(self.ev(a, fr))
        for k in n.keywords:
            if k.arg is None:
                d = self.ev(k.value, fr)
                c = self.get(d.oid) if isinstance(d, Ref) else None
                if not isinstance(c, DictC):
                    return self.unk("call with unknown keyword arguments")
                for kk, vv in c.d.items():
                    kwargs[kk] = self.load(vv)
            else:
                kwargs[k.arg] = self.ev(k.value, fr)
        fr.line = n.lineno
        return self.load(self.call(f, args, kwargs))

    def make_super(self, fr):
        f = fr.func
        if f is None or f.cls is None or f.cls[0] is None:
            raise Undecided("super")
        first = f.node.args.args[0].arg
        return SuperV(f.cls[0], self.load(self.lookup(first, fr)))

    def call(self, f, args, kwargs):
        f = self.load(f)
        if isinstance(f, FuncV):
            return self.call_func(f, args, kwargs)
        if isinstance(f, BoundV):
            return self.call(f.func, [f.obj] + list(args), kwargs)
        if isinstance(f, PyFn):
            self.calls_seen.add(f.name)
            try:
                return f.call(self, list(args), dict(kwargs))
            except Undecided as u:
                self.havoc_out(args, kwargs, f.name)
                return self.unk("%s: %s" % (f.name, u))
            except X.TooBig as t:
                return self.unk("%s: term too big" % f.name)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, TypeV):
            if f.call is None:
                return self.unk("call of type %s" % f.name)
            return f.call(self, list(args), dict(kwargs))
        if isinstance(f, ExcType):
            e = ExcV(f, args[0] if args and isinstance(args[0], str) else "", tuple(args))
            return e
        if isinstance(f, Unk):
            for a in list(args) + list(kwargs.values()):
                self.havoc(a, "passed to unknown function")
            return Unk("result of " + f.reason)
        if isinstance(f, (CMV, SMV)):
            return self.call(f.f, args, kwargs)
        if isinstance(f, DtypeV):
            from . import npm
            return npm.cast_call(self, f.code, args)
        if isinstance(f, Ref):
            c = self.get(f.oid)
            if isinstance(c, InstC):
                m = self.class_lookup(c.cls, "__call__")
                if m is not MISSING:
                    return self.call(BoundV(m, f), args, kwargs)
        h = getattr(f, "call_", None)
        if h is not None:
            return h(self, args, kwargs)
        self.throw("TypeError", "%s object is not callable" % self.type_name(f))

    def havoc_out(self, args, kwargs, name):
        if "out" in kwargs:
            self.havoc(kwargs["out"], name)

    def bind(self, f, args, kwargs):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        d = {}
        args = list(args)
        n = len(pos)
        if len(args) > n and a.vararg is None:
            self.throw("TypeError", "%s() takes %d positional arguments but %d were given" % (
                f.name, n, len(args)))
        for p, v in zip(pos, args):
            d[p] = v
        extra = args[n:]
        if a.vararg is not None:
            d[a.vararg.arg] = tuple(extra)
        kwonly = [x.arg for x in a.kwonlyargs]
        rest = {}
        for k, v in kwargs.items():
            if k in pos and k not in [x.arg for x in a.posonlyargs]:
                if k in d:
                    self.throw("TypeError", "%s() got multiple values for argument '%s'" % (f.name, k))
                d[k] = v
            elif k in kwonly:
                d[k] = v
            elif a.kwarg is not None:
                rest[k] = v
            else:
                self.throw("TypeError", "%s() got an unexpected keyword argument '%s'" % (f.name, k))
        if a.kwarg is not None:
            d[a.kwarg.arg] = Ref(self.alloc(DictC(rest)))
        for p, v in zip(pos[n - len(f.defaults):], f.defaults):
            if p not in d:
                d[p] = v
        for k in kwonly:
            if k not in d and k in f.kwdefaults:
                d[k] = f.kwdefaults[k]
        miss = [p for p in pos + kwonly if p not in d]
        if miss:
            self.throw("TypeError", "%s() missing %d required argument(s): %s" % (
                f.name, len(miss), ", ".join(miss)))
        return d

    def is_gen(self, node):
        r = self.locals_cache.get(("gen", node))
        if r is None:
            r = False
            todo = list(node.body) if isinstance(node, ast.FunctionDef) else []
            while todo:
                x = todo.pop()
                if isinstance(x, (ast.Yield, ast.YieldFrom)):
                    r = True
                    break
                if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    continue
                todo.extend(ast.iter_child_nodes(x))
            self.locals_cache[("gen", node)] = r
        return r

    def call_func(self, f, args, kwargs):
        d = self.bind(f, args, kwargs)
        if len(self.stack) > 120:
            return self.unk("call depth")
        caller = self.stack[-1]
        env = self.alloc(EnvC(d, f.env, "function"))
        fr = Frame(f.qual, f.module, env, f.node)
        fr.func = f
        fr.qual = f.qual
        fr.line = f.node.lineno
        if f.module is not None:
            self.functions_seen[(self.rel(f.module.path), f.qual, f.node.lineno)] = \
                self.functions_seen.get((self.rel(f.module.path), f.qual, f.node.lineno), 0) + 1
        gen = self.is_gen(f.node)
        if gen:
            fr.yields = self.alloc(ListC(()))
        self.stack.append(fr)
        depth = len(self.stack)
        direct = None
        outs = []
        current = False
        val = None
        try:
            if isinstance(f.node, ast.Lambda):
                val = self.ev(f.node.body, fr)
            else:
                self.exec_block(f.node.body, fr)
            current = True
        except ReturnEx as e:
            val = e.value
            current = True
        except RaiseEx as e:
            direct = e
        except Dead:
            pass
        del self.stack[depth - 1:]
        if not fr.pending:
            if direct is not None:
                raise direct
            if not current:
                raise Dead()
            if gen:
                val = Ref(self.alloc(IterC(self.get(fr.yields).items)))
            return val
        if current:
            outs.append(self.snap(val))
        if direct is not None:
            caller.pending.append(("raise", self.snap(direct.exc)))
        for k, sn in fr.pending:
            if k == "return":
                outs.append(sn)
            else:
                caller.pending.append((k, sn))
        if not outs:
            raise Dead()
        j = self.join(outs)
        self.restore(j)
        val = j.value
        if gen:
            val = Ref(self.alloc(IterC(self.get(fr.yields).items)))
        return val

    def instantiate(self, cls, args, kwargs):
        if self.exc_base(cls) is not None and self.class_lookup(cls, "__init__") is MISSING:
            return Ref(self.alloc(InstC(cls, {"args": tuple(args)})))
        o = Ref(self.alloc(InstC(cls, {})))
        ab = self.abstract_methods(cls)
        if ab:
            self.throw("TypeError", "Can't instantiate abstract class %s with abstract methods %s" % (
                cls.name, ", ".join(sorted(ab))))
        f = self.class_lookup(cls, "__init__")
        if f is not MISSING:
            self.call(BoundV(f, o), args, kwargs)
        elif args or kwargs:
            self.throw("TypeError", "%s() takes no arguments" % cls.name)
        return o

    def abstract_methods(self, cls):
        """Names still abstract in cls (classes deriving from ABC only)."""
        is_abc = any(isinstance(c, TypeV) and c.name == "ABC" for c in cls.mro)
        if not is_abc:
            return set()
        seen = {}
        for c in cls.mro:
            if isinstance(c, ClassV):
                for st in c.node.body:
                    if isinstance(st, ast.FunctionDef) and st.name not in seen:
                        seen[st.name] = any("abstract" in ast.unparse(d) for d in st.decorator_list)
                    elif isinstance(st, ast.Assign):
                        for t in st.targets:
                            if isinstance(t, ast.Name):
                                seen.setdefault(t.id, False)
        return {k for k, v in seen.items() if v}

    # ------------------------------------------------------------ attributes
    def class_lookup(self, cls, name, start=None):
        mro = cls.mro
        if start is not None:
            mro = mro[mro.index(start) + 1:]
        for c in mro:
            if isinstance(c, ClassV):
                d = self.get(c.oid).d
                if name in d:
                    return self.load(d[name])
        return MISSING

    def module_attr(self, m, name):
        if isinstance(m, ModV):
            v = self.get(m.oid).vars.get(name, MISSING)
            return self.load(v)
        t = self.ext.get(m.name)
        if t is not None and name in t:
            return t[name]
        full = m.name + "." + name
        if full in self.ext:
            return ExtMod(full)
        from . import pym
        known = pym.ext_has(m.name, name)
        if known is False:
            return MISSING
        return PyFn(full, lambda it, a, k: self._unknown_ext(full, a, k))

    def _unknown_ext(self, full, args, kwargs):
        if "out" in kwargs:
            self.havoc(kwargs["out"], full)
        if full.split(".")[0] not in ("numpy", "scipy", "math", "itertools", "functools", "copy"):
            for a in list(args) + list(kwargs.values()):
                self.havoc(a, full)
        return self.unk("unmodelled function %s" % full)

    def getattr(self, o, name, default=None, quiet=False):
        if isinstance(o, Unk):
            return Unk("attribute of " + o.reason)
        r = self.getattr_(o, name)
        if r is MISSING:
            if quiet:
                return MISSING
            self.throw("AttributeError", "'%s' object has no attribute '%s'" % (self.type_name(o), name))
        return r

    def getattr_(self, o, name):
        if isinstance(o, Ref):
            c = self.get(o.oid)
            if isinstance(c, InstC):
                cv = self.class_lookup(c.cls, name)
                if isinstance(cv, PropV):
                    return self.load(self.call(BoundV(cv.fget, o), [], {}))
                if name in c.attrs:
                    v = self.load(c.attrs[name])
                    if v is not MISSING:
                        return v
                if isinstance(cv, CachedPropV):
                    v = self.call(BoundV(cv.f, o), [], {})
                    self.setattr_raw(o, name, v)
                    return self.load(v)
                if cv is not MISSING:
                    return self.bind_attr(cv, o, c.cls)
                if name == "__class__":
                    return c.cls
                if name == "__dict__":
                    return Ref(self.alloc(DictC(dict(c.attrs))))
                f = self.class_lookup(c.cls, "__getattr__")
                if f is not MISSING:
                    return self.call(BoundV(f, o), [name], {})
                return MISSING
            h = getattr(c, "getattr", None)
            if h is not None:
                return h(self, o, name)
            from . import pym
            return pym.container_attr(self, o, c, name)
        if isinstance(o, ClassV):
            cv = self.class_lookup(o, name)
            if cv is MISSING:
                if name == "__name__":
                    return o.name
                if name == "__mro__":
                    return tuple(o.mro)
                return MISSING
            if isinstance(cv, CMV):
                return BoundV(cv.f, o)
            if isinstance(cv, SMV):
                return cv.f
            return cv
        if isinstance(o, SuperV):
            obj = o.obj
            cls = obj if isinstance(obj, ClassV) else self.get(obj.oid).cls
            cv = self.class_lookup(cls, name, start=o.cls)
            if cv is MISSING:
                if name == "__init__":
                    return PyFn("object.__init__", lambda it, a, k: None)
                return MISSING
            if isinstance(cv, PropV):
                return self.load(self.call(BoundV(cv.fget, obj), [], {}))
            return self.bind_attr(cv, obj, cls)
        if isinstance(o, (ModV, ExtMod)):
            v = self.module_attr(o, name)
            if v is MISSING:
                self.throw("AttributeError", "module '%s' has no attribute '%s'" % (o.name, name))
            return v
        if isinstance(o, ARef):
            from . import npm
            return npm.array_attr(self, o, name)
        if isinstance(o, Masked):
            raise Undecided("attribute of masked selection")
        if isinstance(o, Sym) or (isinstance(o, (int, float)) and not isinstance(o, bool)):
            from . import npm
            return npm.scalar_attr(self, o, name)
        if isinstance(o, FuncV):
            if name in ("__name__", "__qualname__"):
                return o.name if name == "__name__" else o.qual
            if name == "__doc__":
                return Unk("doc")
            if name == "__wrapped__":
                return MISSING
            v = self.get(self.hidden).d.get(("%s:%d" % (o.qual, o.node.lineno), name), MISSING)
            if v is not MISSING:
                return v
            return self.unk("function attribute")
        if isinstance(o, BoundV):
            if name == "__self__":
                return o.obj
            if name == "__func__":
                return o.func
            return self.getattr_(o.func, name)
        if isinstance(o, TypeV):
            if name == "__name__":
                return o.name
            from . import pym
            return pym.type_attr(self, o, name)
        if isinstance(o, ExcType):
            return o.name if name == "__name__" else MISSING
        if isinstance(o, ExcV):
            if name == "args":
                return o.args
            return Unk("exception attribute")
        if isinstance(o, PropV):
            if name in ("setter", "deleter"):
                def setter(it, a, k):
                    return PropV(o.fget, a[0])
                return PyFn("property." + name, setter)
            if name == "getter":
                return PyFn("property.getter", lambda it, a, k: PropV(a[0], o.fset))
        if isinstance(o, PyFn):
            if name == "__name__":
                return o.name.split(".")[-1]
            sub = self.ext.get(o.name)
            if sub and name in sub:
                return sub[name]
            if name in ("reduce", "outer", "at", "accumulate"):
                from . import npm
                return npm.ufunc_attr(self, o, name)
            return MISSING
        from . import pym
        h = getattr(o, "getattr", None)
        if h is not None:
            return h(self, o, name)
        return pym.value_attr(self, o, name)

    def bind_attr(self, cv, obj, cls):
        if isinstance(cv, CMV):
            return BoundV(cv.f, cls)
        if isinstance(cv, SMV):
            return cv.f
        if isinstance(cv, (FuncV,)) or getattr(cv, "binds", False):
            return BoundV(cv, obj)
        return cv

    def setattr(self, o, name, v):
        if isinstance(o, Unk):
            return
        if isinstance(o, Ref):
            c = self.get(o.oid)
            if isinstance(c, InstC):
                cv = self.class_lookup(c.cls, name)
                if isinstance(cv, PropV):
                    if cv.fset is None:
                        self.throw("AttributeError", "property '%s' of '%s' object has no setter" % (
                            name, c.cls.name))
                    self.call(BoundV(cv.fset, o), [v], {})
                    return
                f = self.class_lookup(c.cls, "__setattr__")
                if f is not MISSING:
                    self.call(BoundV(f, o), [name, v], {})
                    return
                self.setattr_raw(o, name, v)
                return
            h = getattr(c, "setattr", None)
            if h is not None:
                return h(self, o, name, v)
        if isinstance(o, ClassV):
            d = dict(self.get(o.oid).d)
            d[name] = v
            self.event("class_write", o.name, name)
            self.set(o.oid, DictC(d))
            return
        if isinstance(o, ModV):
            c = self.get(o.oid)
            d = dict(c.vars)
            d[name] = v
            self.event("global_write", o.name + "." + name)
            self.set(o.oid, EnvC(d, c.parent, c.kind))
            return
        if isinstance(o, FuncV):
            self.event("global_write", o.qual + "." + name)
            self.set_hidden(("%s:%d" % (o.qual, o.node.lineno), name), v)
            return
        if isinstance(o, ARef):
            if name == "shape":
                raise Undecided("assignment to shape")
            self.throw("AttributeError", "cannot set attribute '%s' of an array" % name)
        self.unk("attribute assignment")

    def setattr_raw(self, o, name, v):
        c = self.get(o.oid)
        d = dict(c.attrs)
        d[name] = v
        self.set(o.oid, InstC(c.cls, d))

    def type_name(self, v):
        if isinstance(v, Ref):
            c = self.heap[v.oid]
            if isinstance(c, InstC):
                return c.cls.name
            if isinstance(c, ListC):
                return c.kind
            if isinstance(c, DictC):
                return "dict"
            return type(c).__name__
        if isinstance(v, ARef):
            return "ndarray"
        if isinstance(v, ModV):
            return "module"
        if isinstance(v, (FuncV, BoundV, PyFn)):
            return "function"
        if isinstance(v, ClassV):
            return "type"
        if v is None:
            return "NoneType"
        return type(v).__name__

    # -------------------------------------------------------------- items
    def index_items(self, key):
        return list(key) if isinstance(key, tuple) else [key]

    def np_index(self, key, shape):
        """('basic', spec) | ('mask', Arr) | ('fancy', items) for an array index."""
        items = self.index_items(key)
        out = []
        fancy = False
        for it in items:
            it = self.load(it)
            if isinstance(it, SliceV):
                out.append(tuple(self._slice_part(x) for x in (it.start, it.stop, it.step)))
            elif it is None or it is Ellipsis:
                out.append(it)
            elif isinstance(it, bool):
                raise Undecided("boolean scalar index")
            elif isinstance(it, int):
                out.append(const(it))
            elif isinstance(it, Sym):
                if it.kind == "f" and not X.is_int(it.e):
                    if const_of(it.e) is not None:
                        self.throw("IndexError", "only integers, slices, ... are valid indices")
                    raise Undecided("float index")
                out.append(it.e)
            elif isinstance(it, float):
                self.throw("IndexError", "only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) "
                           "and integer or boolean arrays are valid indices")
            elif isinstance(it, Unk):
                raise Undecided("unknown index")
            elif isinstance(it, RangeV):
                fancy = True
                out.append(self.arr(it))
            else:
                a = self.arr(it)
                if a.dtype == "b":
                    if len(items) == 1:
                        return "mask", a
                    raise Undecided("mixed boolean index")
                if a.dtype not in ("i",):
                    if const_of(a.size()) == 0:
                        raise Undecided("empty index")
                    self.throw("IndexError", "arrays used as indices must be of integer (or boolean) type")
                fancy = True
                out.append(a)
        if fancy:
            return "fancy", out
        return "basic", AR.basic_spec(out, shape)

    def _slice_part(self, x):
        x = self.load(x)
        if x is None:
            return None
        if isinstance(x, Unk):
            raise Undecided("unknown slice bound")
        if isinstance(x, (float,)) or isinstance(x, Sym) and x.kind == "f" and not X.is_int(x.e):
            self.throw("TypeError", "slice indices must be integers or None or have an __index__ method")
        return self.num(x)

    def getitem(self, o, key):
        o = self.load(o)
        if isinstance(o, Unk):
            return Unk("item of " + o.reason)
        if isinstance(key, Unk):
            if isinstance(o, Ref):
                c = self.get(o.oid)
                if isinstance(c, InstC):
                    f = self.class_lookup(c.cls, "__getitem__")
                    if f is not MISSING:
                        return self.call(BoundV(f, o), [key], {})
            return Unk("item at " + key.reason)
        if isinstance(o, ARef):
            a = self.arr(o)
            kind, spec = self.np_index(key, a.shape)
            if kind == "basic":
                r = AR.spec_get(a, spec)
                if r.ndim == 0 and not any(it is Ellipsis for it in self.index_items(key)):
                    return self.new_array(r)
                if all(s[0] == "s" and s[1] is ZERO and s[3] == 1 and s[2] is d
                       for s, d in zip(spec, a.shape)) and len(spec) == a.ndim:
                    return ARef(o.oid, o.chain + (("id",),)) if False else o
                return ARef(o.oid, o.chain + (("idx", spec),))
            if kind == "mask":
                m = spec
                if m.ndim > a.ndim or not all(AR.same_dim(x, y) for x, y in zip(m.shape, a.shape)):
                    self.throw("IndexError", "boolean index did not match indexed array")
                if m.ndim != a.ndim:
                    raise Undecided("partial mask")
                return Masked(a, m)
            return self.new_array(self.fancy_get(a, spec))
        if isinstance(o, Masked):
            raise Undecided("index of masked selection")
        if isinstance(o, (tuple, str, bytes)):
            return self.seq_get(o, key)
        if isinstance(o, Ref):
            c = self.get(o.oid)
            if isinstance(c, ListC):
                if c.kind == "set":
                    self.throw("TypeError", "'set' object is not subscriptable")
                r = self.seq_get(c.items, key)
                if isinstance(key, SliceV):
                    return Ref(self.alloc(ListC(r, c.kind)))
                return r
            if isinstance(c, SymListC):
                if isinstance(key, SliceV):
                    raise Undecided("slice of symbolic list")
                e = self.num(key)
                if X.int_nonneg(add(scale(e, Fr(-1)), const(-1))):
                    e = add(e, c.n)
                if X.int_nonneg(add(e, scale(c.n, Fr(-1)))):
                    self.throw("IndexError", "list index out of range")
                return self.subst_value(c.item, {c.var: e})
            if isinstance(c, DictC):
                k = self.key(key)
                if k in c.d:
                    return self.load(c.d[k])
                if any(isinstance(x, Sym) for x in c.d) or isinstance(k, Sym):
                    raise Undecided("symbolic dictionary key")
                self.throw("KeyError", repr(k))
            if isinstance(c, InstC):
                f = self.class_lookup(c.cls, "__getitem__")
                if f is MISSING:
                    self.throw("TypeError", "'%s' object is not subscriptable" % c.cls.name)
                return self.call(BoundV(f, o), [key], {})
            h = getattr(c, "getitem", None)
            if h is not None:
                return h(self, o, key)
        if isinstance(o, RangeV):
            if isinstance(key, (int, Sym)):
                return self.binop("+", o.start, self.binop("*", key, o.step))
        if isinstance(o, ClassV) or isinstance(o, TypeV):
            return o
        h = getattr(o, "getitem", None)
        if h is not None:
            return h(self, o, key)
        if o is None or isinstance(o, (int, float, Sym, FuncV, BoundV)):
            self.throw("TypeError", "'%s' object is not subscriptable" % self.type_name(o))
        raise Undecided("subscript of %r" % (o,))

    def subst_value(self, v, mp):
        """A value template at a particular index."""
        if isinstance(v, Sym):
            return self.val(X.subst(v.e, mp), v.kind)
        if isinstance(v, tuple):
            return tuple(self.subst_value(x, mp) for x in v)
        if isinstance(v, ARef):
            a = self.arr(v)
            if a.body.fv.isdisjoint(mp) and all(s.fv.isdisjoint(mp) for s in a.shape):
                return v
            return self.new_array(Arr([X.subst(s, mp) for s in a.shape], X.subst(a.body, mp), a.dtype),
                                  self.get(v.oid).origin)
        if isinstance(v, (int, float, str, type(None), FuncV, ClassV, PyFn, BoundV, Unk)):
            return v
        raise Undecided("element of symbolic list")

    def fancy_get(self, a, items):
        idx = []
        arrays = []
        n_used = sum(1 for it in items if it is not None and it is not Ellipsis)
        if not any(it is Ellipsis for it in items):
            items = list(items) + [Ellipsis]
        full = []
        ax = 0
        for it in items:
            if it is Ellipsis:
                for _ in range(a.ndim - n_used):
                    full.append(("s", ZERO, a.shape[ax], 1))
                    ax += 1
            elif it is None:
                raise Undecided("newaxis in fancy index")
            elif isinstance(it, Arr):
                full.append(("a", it))
                ax += 1
            elif isinstance(it, tuple):
                st, d, sp = AR.slice_bounds(it, a.shape[ax])
                full.append(("s", st, d, sp))
                ax += 1
            else:
                full.append(("a", AR.scalar(it, "i")))
                ax += 1
        pos = [k for k, f in enumerate(full) if f[0] == "a"]
        bshape = AR.broadcast_shapes(*[full[k][1].shape for k in pos])
        contiguous = pos == list(range(pos[0], pos[-1] + 1))
        shape = []
        where = {}
        if not contiguous:
            where["b"] = 0
            shape.extend(bshape)
        for k, f in enumerate(full):
            if f[0] == "a":
                if contiguous and k == pos[0]:
                    where["b"] = len(shape)
                    shape.extend(bshape)
            else:
                where[k] = len(shape)
                shape.append(f[2])

        def g(*ix):
            bi = ix[where["b"]:where["b"] + len(bshape)]
            src = []
            for k, f in enumerate(full):
                if f[0] == "a":
                    q = AR.broadcast_to(f[1], bshape).at(bi)
                    q = self._wrap_index(q, a.shape[k])
                    src.append(q)
                else:
                    src.append(add(f[1], scale(ix[where[k]], Fr(f[3]))))
            return a.at(src)
        return AR.make(shape, g, a.dtype)

    def _wrap_index(self, q, n):
        c = int_of(q)
        if c is not None:
            if c < 0:
                return add(q, n)
            if X.int_nonneg(add(q, scale(n, Fr(-1)))):
                raise IndexError("index %d is out of bounds for axis with size %s" % (c, n))
        return q

    def seq_get(self, seq, key):
        if isinstance(key, SliceV):
            parts = []
            for x in (key.start, key.stop, key.step):
                x = self.load(x)
                if isinstance(x, Sym):
                    x = int_of(x.e)
                    if x is None:
                        raise Undecided("symbolic slice of a sequence")
                if x is not None and not isinstance(x, int):
                    self.throw("TypeError", "slice indices must be integers or None")
                parts.append(x)
            return seq[slice(*parts)]
        if isinstance(key, Sym):
            c = int_of(key.e)
            if c is None:
                if key.kind == "f":
                    self.throw("TypeError", "list indices must be integers or slices, not float")
                if key.e.t and all(isinstance(x, (Sym, int, float)) for x in seq):
                    out = ZERO
                    for i, x in enumerate(seq):
                        out = add(out, mul(X.eq0(add(key.e, const(-i))), self.num(x)))
                    return Sym(out, "f")
                # choose by value: fork over the positions
                for i in range(len(seq)):
                    if self.decide(X.eq0(add(key.e, const(-i)))):
                        return self.load(seq[i])
                self.throw("IndexError", "sequence index out of range")
            key = c
        if isinstance(key, bool):
            key = int(key)
        if not isinstance(key, int):
            if isinstance(key, ARef):
                a = self.arr(key)
                if a.ndim == 0 or int_of(a.size()) == 1 and a.ndim == 0:
                    return self.seq_get(seq, Sym(a.body, "i"))
            self.throw("TypeError", "sequence indices must be integers or slices, not %s" % self.type_name(key))
        if key < -len(seq) or key >= len(seq):
            self.throw("IndexError", "sequence index out of range")
        v = seq[key]
        return self.load(v) if not isinstance(v, (str, int)) else v

    def setitem(self, o, key, v):
        o = self.load(o)
        if isinstance(o, Unk):
            return
        if isinstance(o, ARef):
            return self.set_array_item(o, key, v)
        if isinstance(o, Ref):
            c = self.get(o.oid)
            if isinstance(c, ListC):
                key = self.load(key)
                if isinstance(key, Sym):
                    k = int_of(key.e)
                    if k is None:
                        self.havoc(o, "store at unknown index")
                        return
                    key = k
                if isinstance(key, Unk):
                    self.havoc(o, "store at unknown index")
                    return
                items = list(c.items)
                if c.kind == "set":
                    self.throw("TypeError", "'set' object does not support item assignment")
                self.list_event(o, "[]=")
                if isinstance(key, SliceV):
                    items[slice(key.start, key.stop, key.step)] = self.iterate(v)
                else:
                    if key < -len(items) or key >= len(items):
                        self.throw("IndexError", "list assignment index out of range")
                    items[key] = v
                self.set(o.oid, ListC(items, c.kind, c.origin))
                return
            if isinstance(c, DictC):
                d = dict(c.d)
                d[self.key(key)] = v
                if c.origin is not None:
                    self.event("write", c.origin, "[]=")
                self.set(o.oid, DictC(d, c.origin))
                return
            if isinstance(c, InstC):
                f = self.class_lookup(c.cls, "__setitem__")
                if f is MISSING:
                    self.throw("TypeError", "'%s' object does not support item assignment" % c.cls.name)
                self.call(BoundV(f, o), [key, v], {})
                return
            h = getattr(c, "setitem", None)
            if h is not None:
                return h(self, o, key, v)
        if isinstance(o, tuple):
            self.throw("TypeError", "'tuple' object does not support item assignment")
        h = getattr(o, "setitem", None)
        if h is not None:
            return h(self, o, key, v)
        if o is None or isinstance(o, (int, float, Sym, str)):
            self.throw("TypeError", "'%s' object does not support item assignment" % self.type_name(o))
        self.unk("item assignment")

    def set_array_item(self, o, key, v):
        a = self.arr(o)
        try:
            kind, spec = self.np_index(key, a.shape)
            if kind == "basic":
                region = AR.spec_get(a, spec)
                target = ARef(o.oid, o.chain + (("idx", spec),))
                if isinstance(v, Unk):
                    new = Arr(region.shape, X.unknown("stored unknown", *region.idx()), a.dtype)
                else:
                    n = self.arr(v)
                    # leading size-one dimensions are dropped
                    while n.ndim > region.ndim and n.shape[0] is ONE_E:
                        n = AR.spec_get(n, (("i", ZERO),) + tuple(("s", ZERO, s, 1) for s in n.shape[1:]))
                    if n.ndim > region.ndim:
                        raise ShapeError("could not broadcast input array from shape %s into shape %s" % (
                            list(n.shape), list(region.shape)))
                    new = AR.broadcast_to(n, region.shape)
                    new = self.cast(new, a.dtype)
                self.write(target, new, "[]=")
                return
            if kind == "mask":
                m = spec
                if m.ndim != a.ndim:
                    raise Undecided("partial mask")
                if isinstance(v, Masked):
                    if v.mask.body is not m.body:
                        raise Undecided("different masks")
                    val = v.arr
                else:
                    n = self.arr(v)
                    if n.ndim != 0:
                        if not (n.ndim == 1 and n.shape[0] is ONE_E):
                            raise Undecided("masked store of an array")
                    val = AR.broadcast_to(n, a.shape)
                val = self.cast(val, a.dtype)
                body = add(mul(m.body, val.body), mul(X.bnot(m.body), a.body))
                self.write(o, Arr(a.shape, body, a.dtype), "[]=")
                return
            # integer arrays of concrete length
            self.fancy_set(o, a, spec, v)
        except Undecided as u:
            self.unk(str(u))
            self.havoc(o, str(u))

    def fancy_set(self, o, a, items, v):
        arrs = [it for it in items if isinstance(it, Arr)]
        if len(arrs) != 1 or arrs[0].ndim != 1:
            raise Undecided("fancy store")
        ia = arrs[0]
        n = int_of(ia.shape[0])
        if n is None:
            raise Undecided("fancy store of symbolic length")
        new = self.arr(v)
        for k in range(n):
            e = self._wrap_index(ia.at([const(k)]), a.shape[items.index(ia)])
            spec = AR.basic_spec([e if it is ia else it for it in items], a.shape)
            cur = self.arr(o)
            region = AR.spec_get(cur, spec)
            pos = sum(1 for s in spec[:items.index(ia)] if s[0] in ("s", "n"))
            full = list(region.shape)
            full.insert(pos, ia.shape[0])
            nv = AR.broadcast_to(new, tuple(full))
            piece = AR.spec_get(nv, tuple(("i", const(k)) if j == pos else ("s", ZERO, s, 1)
                                          for j, s in enumerate(full)))
            self.write(ARef(o.oid, o.chain + (("idx", spec),)), self.cast(piece, a.dtype), "[]=")

    def cast(self, a, dtype):
        if a.dtype == dtype or dtype in ("f", "O", "c"):
            return Arr(a.shape, a.body, dtype) if a.dtype != dtype else a
        if dtype == "f4":
            return Arr(a.shape, to_f32(a.body), "f4")
        if dtype == "i":
            if X.is_int(a.body) or a.dtype in ("i", "b"):
                return Arr(a.shape, a.body, "i")
            return Arr(a.shape, X.fn("int", a.body), "i")
        if dtype == "b":
            if a.dtype == "b":
                return a
            return Arr(a.shape, add(ONE_E, scale(X.eq0(a.body), Fr(-1))), "b")
        return Arr(a.shape, a.body, dtype)

    # --------------------------------------------------------- iteration
    def range_len(self, r):
        st, sp, step = self.num(r.start), self.num(r.stop), self.num(r.step)
        if st is None or sp is None:
            raise Undecided("infinite range")
        k = int_of(step)
        if k == 1:
            n = add(sp, scale(st, Fr(-1)))
            if X.int_nonneg(n):
                return n
            if X.int_nonneg(scale(n, Fr(-1))):
                return ZERO
            return X.imax(n, ZERO)
        c = [int_of(e) for e in (st, sp, step)]
        if None not in c:
            return const(len(range(*c)))
        if k is not None and k > 0:
            n = add(sp, scale(st, Fr(-1)))
            return X.floordiv(add(n, const(k - 1)), const(k))
        raise Undecided("range")

    def sequence(self, v):
        """A Python list of items, or a SymSeq."""
        v = self.load(v)
        if isinstance(v, RangeV):
            n = self.range_len(v)
            k = int_of(n)
            if k is not None:
                if k > 3000:
                    raise Undecided("long range")
                return [self.binop("+", v.start, self.binop("*", i, v.step)) for i in range(k)]
            return SymSeq(n, lambda it, e: it.val(add(it.num(v.start), mul(it.num(v.step), e)), "i"), "range")
        if isinstance(v, (tuple, list)):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, ARef):
            a = self.arr(v)
            if a.ndim == 0:
                self.throw("TypeError", "iteration over a 0-d array")
            n = int_of(a.shape[0])
            if n is not None:
                if n > 500:
                    raise Undecided("long array iteration")
                return [self.getitem(v, i) for i in range(n)]
            return SymSeq(a.shape[0], lambda it, e: it.getitem(v, it.val(e, "i")), "array")
        if isinstance(v, Ref):
            c = self.get(v.oid)
            if isinstance(c, ListC):
                return list(c.items)
            if isinstance(c, SymListC):
                return SymSeq(c.n, lambda it, e: it.subst_value(c.item, {c.var: e}), "list")
            if isinstance(c, DictC):
                return list(c.d)
            if isinstance(c, IterC):
                self.set(v.oid, IterC(c.items, len(c.items)))
                return list(c.items[c.pos:])
            if isinstance(c, InstC):
                f = self.class_lookup(c.cls, "__iter__")
                if f is not MISSING:
                    return self.sequence(self.call(BoundV(f, v), [], {}))
                if self.class_lookup(c.cls, "__next__") is not MISSING:
                    raise Undecided("iterator object")
                f = self.class_lookup(c.cls, "__getitem__")
                if f is not MISSING:
                    return self.old_iter(v, f)
                self.throw("TypeError", "'%s' object is not iterable" % c.cls.name)
            h = getattr(c, "iterate", None)
            if h is not None:
                return h(self, v)
        if isinstance(v, SymSeq):
            return v
        h = getattr(v, "iterate", None)
        if h is not None:
            return h(self)
        if isinstance(v, Unk):
            raise Undecided("iteration over " + v.reason)
        if v is None or isinstance(v, (int, float, Sym, FuncV, BoundV, bool)):
            self.throw("TypeError", "'%s' object is not iterable" % self.type_name(v))
        raise Undecided("iteration over %r" % (v,))

    def old_iter(self, v, f):
        """The sequence protocol: items until IndexError."""
        out = []
        fr = self.stack[-1]
        for i in range(200):
            pm = len(fr.pending)
            try:
                x = self.call(BoundV(f, v), [i], {})
                out.append(x)
            except RaiseEx as e:
                if issubclass(e.exc.typ.py, IndexError):
                    return out
                raise
        # unbounded: a symbolic length if __len__ says so
        raise Undecided("iteration by index does not end")

    def iterate(self, v):
        """Concrete list of items (raises Undecided for symbolic sequences)."""
        seq = self.sequence(v)
        if isinstance(seq, SymSeq):
            n = int_of(seq.n)
            if n is None:
                raise Undecided("unpacking a sequence of symbolic length")
            return [seq.item(self, const(i)) for i in range(n)]
        return seq

    # ------------------------------------------------------------ operators
    def binop(self, op, a, b):
        from . import npm
        return npm.binop(self, op, self.load(a), self.load(b))

    def compare(self, op, a, b):
        from . import npm
        return npm.compare(self, op, self.load(a), self.load(b))


class SymSeq:
    """A sequence of symbolic length."""

    def __init__(self, n, item, kind):
        self.n, self.item, self.kind = n, item, kind


class _TestBreak(ast.stmt):
    _fields = ()


class _TestBreakEx(BreakEx):
    pass


def _make_shift(sh, c, item):
    def f(*idx):
        b = item.at(idx[1:])
        return X.subst(b, {c.var: idx[0]})
    return AR.make(sh, f, item.dtype)


IGNORE_SINGLE = False      # the checks of what is stored take single precision numbers for the numbers themselves


def to_f32(e):
    """Rounding to single precision (exact for integers and booleans)."""
    if IGNORE_SINGLE or X.is_int(e):
        return e
    return X.fn("f32", e)


def view_get(op, a):
    k = op[0]
    if k == "idx":
        return AR.spec_get(a, op[1])
    if k == "reshape":
        return AR.reshape(a, op[1])
    if k == "perm":
        return AR.transpose(a, op[1])
    if k == "diag":
        raise Undecided("diagonal view")
    raise AssertionError(k)


def view_put(op, base, new):
    k = op[0]
    if k == "idx":
        return AR.spec_put(base, op[1], new)
    if k == "reshape":
        return AR.reshape(new, base.shape)
    if k == "perm":
        inv = [0] * len(op[1])
        for i, p in enumerate(op[1]):
            inv[p] = i
        return AR.transpose(new, tuple(inv))
    raise AssertionError(k)


OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%",
       ast.Pow: "**", ast.MatMult: "@", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^",
       ast.LShift: "<<", ast.RShift: ">>"}
CMP = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=",
       ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}
