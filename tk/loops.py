"""Summaries of loops over a symbolic number of iterations.

The body is analysed once for a generic iteration i from a state in which everything
the loop changes is a placeholder; the resulting recurrences (accumulations, stores to
disjoint regions, induction variables, appends) are then closed over i.  Anything else
is over-approximated by an unknown value.
"""
import ast
from fractions import Fraction as Fr

from . import expr as X
from .expr import ZERO, ONE_E, const, add, mul, scale, from_atom, int_of
from . import arr as AR
from .arr import Arr, Undecided
from .interp import (Sym, Ref, ARef, Unk, Buf, ListC, SymListC, EnvC, InstC, CellC, DictC, RaiseEx, Ctl, Dead,
                     MISSING, same_value, ObjPhi)

_n = [0]


class Fail(Exception):
    pass


def symbolic_for(it, s, seq, fr):
    m = it.mark(fr)
    try:
        return summarise(it, s, seq, fr)
    except (Fail, Undecided, X.TooBig) as e:
        it.rollback(m, True, fr)
        it.unk("loop over a symbolic range: %s" % e)
        havoc(it, s, fr)


def havoc(it, s, fr):
    for n in ast.walk(s):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            it.assign_name(n.id, Unk("loop"), fr)
    for n in ast.walk(s):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            v = it.lookup(n.id, fr, quiet=True)
            if v is not MISSING and not isinstance(v, ObjPhi):
                it.havoc(v, "loop")


def one_pass(it, s, item, fr):
    pm = len(fr.pending)
    try:
        it.assign(s.target, it.load(item), fr)
        it.exec_block(s.body, fr)
    except RaiseEx:
        raise
    except Dead:
        raise Fail("iteration does not complete")
    except Ctl:
        raise Fail("control leaves the loop")
    if len(fr.pending) != pm:
        raise Fail("control may leave the loop")


def append_only(s, names):
    """Names used in the body only as `x.append(...)`."""
    ok = set(names)
    allowed = set()
    for n in ast.walk(s):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "append" and \
                isinstance(n.func.value, ast.Name):
            allowed.add(id(n.func.value))
    for n in ast.walk(s):
        if isinstance(n, ast.Name) and n.id in ok and id(n) not in allowed:
            ok.discard(n.id)
    return ok


def summarise(it, s, seq, fr):
    n = seq.n
    iv = X.fresh(n, "i")
    i = from_atom(iv)
    last = add(n, const(-1))
    before = it.snap()
    nev = len(it.events)
    # --- which cells does an iteration change
    m = it.mark(fr)
    one_pass(it, s, seq.item(it, i), fr)
    changed = [oid for oid, c in before.heap.items() if it.heap.get(oid) is not c]
    probe = {oid: it.heap[oid] for oid in changed}
    it.rollback(m, True, fr)
    # --- generic state
    old = {}          # leaf name -> (kind, where)
    envs = {}
    bufs = {}
    lists = {}
    for oid in changed:
        c0, c1 = before.heap[oid], probe[oid]
        if isinstance(c0, Buf):
            _n[0] += 1
            nm = "!old%d" % _n[0]
            bufs[oid] = nm
            it.set(oid, Buf(Arr(c0.arr.shape, X.leaf(nm, *c0.arr.idx()), c0.arr.dtype), c0.origin))
        elif isinstance(c0, EnvC):
            d = dict(c0.vars)
            for k, v1 in c1.vars.items():
                v0 = c0.vars.get(k, MISSING)
                if v0 is MISSING or same_value(v0, v1):
                    envs[oid, k] = (None, v0)
                    continue
                v0 = it.load(v0)
                _n[0] += 1
                nm = "!old%d" % _n[0]
                if isinstance(v0, (int, float, Sym)) and not isinstance(v0, bool):
                    if isinstance(v0, float) and (v0 != v0 or abs(v0) == float("inf")):
                        envs[oid, k] = (None, v0)
                        continue
                    isint = isinstance(v0, int) or isinstance(v0, Sym) and v0.kind == "i"
                    if isint:
                        X.leaf_info(nm, int=True)
                    d[k] = Sym(X.leaf(nm), "i" if isint else "f")
                    envs[oid, k] = (nm, v0)
                elif isinstance(v0, ARef):
                    a0 = it.arr(v0)
                    d[k] = ARef(it.alloc(Buf(Arr(a0.shape, X.leaf(nm, *a0.idx()), a0.dtype))))
                    envs[oid, k] = (nm, v0)
                else:
                    envs[oid, k] = (None, v0)
            it.set(oid, EnvC(d, c0.parent, c0.kind))
        elif isinstance(c0, ListC):
            if len(c1.items) != len(c0.items) + 1 or len(c0.items) != 0:
                raise Fail("list changes in the loop")
            lists[oid] = c0
        elif isinstance(c0, CellC):
            raise Fail("random draws or external state in the loop")
        else:
            raise Fail("object changes in the loop")
    if lists:
        env = it.get(fr.env)
        names = [k for k, v in env.vars.items() if isinstance(v, Ref) and v.oid in lists]
        if len(names) != len(lists) or len(append_only(s, names)) != len(names):
            raise Fail("list used inside the loop")
    # --- the generic iteration; a second time with the induction variables it shows in closed form
    m2 = it.mark(fr)
    one_pass(it, s, seq.item(it, i), fr)
    closed = induction_variables(it, {(oid, k): (nm, v0, it.heap[oid].vars.get(k, MISSING))
                                      for (oid, k), (nm, v0) in envs.items()}, iv, i,
                                 {nm for nm, _ in envs.values() if nm} | set(bufs.values()))
    if closed:
        it.rollback(m2, True, fr)
        for (oid, k), e in closed.items():
            c = it.get(oid)
            nm, v0 = envs[oid, k]
            it.set(oid, EnvC({**c.vars, k: Sym(e, getattr(v0, "kind", "i"))}, c.parent, c.kind))
        del it.events[nev:]
        one_pass(it, s, seq.item(it, i), fr)
    after = dict(it.heap)
    events = it.events[nev:]
    for oid in before.heap:
        if after.get(oid) is not before.heap[oid] and oid not in probe:
            raise Fail("state changes differ between iterations")
    # values of variables as terms
    env_vals = {}
    for oid in changed:
        if isinstance(before.heap[oid], EnvC):
            for k, v in after[oid].vars.items():
                v0 = before.heap[oid].vars.get(k, MISSING)
                if v0 is MISSING or not same_value(v0, v) or (oid, k) in envs:
                    env_vals[oid, k] = v
                    if (oid, k) not in envs:
                        envs[oid, k] = (None, v0)
    results = {}
    olds = {nm for nm, _ in envs.values() if nm} | set(bufs.values())
    # integer induction variables first
    known = {}
    for (oid, k), (nm, v0) in envs.items():
        if nm is None or not isinstance(env_vals.get((oid, k)), (int, Sym)):
            continue
        e1 = it.num(env_vals[oid, k])
        d = add(e1, scale(closed.get((oid, k)) or X.leaf(nm), Fr(-1)))
        if not (X.leaves_of(d) & olds) and iv not in d.fv:
            known[nm] = add(it.num(v0), mul(i, d))
            results[oid, k] = Sym(add(it.num(v0), mul(n, d)), "i" if getattr(v0, "kind", "i") == "i" else "f")

    def close(e):
        e = AR.expand_touching(e, olds)
        if known:
            e = X.replace_leaves(e, lambda nm, slots: known.get(nm))
        return e

    def at_last(e):
        return X.subst(e, {iv: last})

    # scalars and rebound arrays
    final_env = {}
    for (oid, k), v in env_vals.items():
        nm, v0 = envs[oid, k]
        if (oid, k) in results:
            final_env[oid, k] = results[oid, k]
            continue
        if isinstance(v, (int, float, Sym)) and not isinstance(v, bool):
            if isinstance(v, float) and abs(v) == float("inf"):
                final_env[oid, k] = v
                continue
            e = close(it.num(v))
            kind = "i" if isinstance(v, int) or isinstance(v, Sym) and v.kind == "i" else "f"
            d = add(e, scale(X.leaf(nm), Fr(-1))) if nm else None
            if not (X.leaves_of(e) & olds):
                final_env[oid, k] = it.val(at_last(e), kind)
            elif nm and not (X.leaves_of(d) & olds):
                final_env[oid, k] = Sym(add(it.num(v0), X.esum(iv, d)), kind)
            else:
                final_env[oid, k] = it.unk("loop-carried value %s" % k)
        elif isinstance(v, ARef) and v.oid in bufs:
            final_env[oid, k] = v
        elif isinstance(v, ARef) and v.oid in before.heap and v.oid not in probe and not chain_has(v, iv):
            final_env[oid, k] = v
        elif isinstance(v, ARef):
            try:
                a = it.arr(v)
                e = close(a.body)
                if not (X.leaves_of(e) & olds):
                    final_env[oid, k] = it.new_array(Arr([at_last(q) for q in a.shape], at_last(e), a.dtype))
                    continue
                if nm is not None:
                    a0 = it.arr(v0)
                    d = add(e, scale(X.leaf(nm, *a0.idx()), Fr(-1)))
                    if tuple(a0.shape) == tuple(a.shape) and not (X.leaves_of(d) & olds):
                        final_env[oid, k] = it.new_array(Arr(a0.shape, add(a0.body, X.esum(iv, d)), a.dtype))
                        continue
            except (Undecided, X.TooBig):
                pass
            final_env[oid, k] = it.unk("loop-carried array %s" % k)
        elif v is None or isinstance(v, (str, bool)):
            final_env[oid, k] = v
        else:
            try:
                final_env[oid, k] = v if isinstance(v, Ref) and v.oid in before.heap else it.subst_value(v, {iv: last})
            except Undecided:
                final_env[oid, k] = Unk("value left by a loop")
    # buffers
    final_buf = {}
    for oid, nm in bufs.items():
        a1 = after[oid].arr
        a0 = before.heap[oid].arr
        final_buf[oid] = Buf(Arr(a0.shape, close_store(a0, close(a1.body), nm, iv, olds, last), a0.dtype),
                             before.heap[oid].origin)
    final_list = {}
    for oid, c0 in lists.items():
        x = it.load(after[oid].items[-1])
        if isinstance(x, (ARef, Sym)):
            a = it.arr(x)
            e = close(a.body)
            if X.leaves_of(e) & olds:
                raise Fail("list items depend on earlier iterations")
            w = X.fresh(n, "l")
            b = Arr([X.subst(q, {iv: from_atom(w)}) for q in a.shape], X.subst(e, {iv: from_atom(w)}), a.dtype)
            item = it.new_array(b)
        else:
            raise Fail("list of objects built in a loop")
        final_list[oid] = SymListC(n, w, item, c0.origin)
    # --- install
    keep_objs = {oid: c for oid, c in after.items() if oid not in before.heap}
    for oid in changed:
        c0 = before.heap[oid]
        if oid in final_buf:
            it.set(oid, final_buf[oid])
        elif oid in final_list:
            it.set(oid, final_list[oid])
        elif isinstance(c0, EnvC):
            d = dict(after[oid].vars)
            for (o2, k), v in final_env.items():
                if o2 == oid:
                    d[k] = v
            it.set(oid, EnvC(d, c0.parent, c0.kind))
    if s.orelse:
        it.exec_block(s.orelse, fr)


def induction_variables(it, envs, iv, i, olds):
    """Variables every iteration increases by the same amount, as terms in the iteration."""
    out = {}
    for key, (nm, v0, v1) in envs.items():
        if nm is None or not (isinstance(v1, (int, Sym)) and not isinstance(v1, bool)):
            continue
        if not (isinstance(v0, int) or isinstance(v0, Sym) and v0.kind == "i"):
            continue
        d = add(it.num(v1), scale(X.leaf(nm), Fr(-1)))
        if not (X.leaves_of(d) & olds) and iv not in d.fv:
            out[key] = add(it.num(v0), mul(i, d))
    return out


def chain_has(ref, iv):
    for op in ref.chain:
        if op[0] == "idx":
            for sp in op[1]:
                for q in sp[1:]:
                    if isinstance(q, X.E) and iv in q.fv:
                        return True
    return False


def coeff(e, target):
    """(k, rest) with e = k*target + rest for the atom `target`; None if not linear."""
    k, rest = [], []
    for m, c in e.t:
        hit = [x for a, x in m if a is target]
        if not hit:
            rest.append(X._mk({m: c}))
            continue
        if hit[0] != 1:
            return None
        k.append(X._mk({tuple((a, x) for a, x in m if a is not target): c}))
    return X.total(k), X.total(rest)


def close_store(a0, e, nm, iv, olds, last):
    me = X.leaf(nm, *a0.idx()).t[0][0][0][0]
    r = coeff(e, me)
    if r is None:
        raise Fail("nonlinear recurrence")
    k, rest = r
    if X.leaves_of(k) & olds or X.leaves_of(rest) & olds:
        raise Fail("recurrence over other entries")
    if k is ONE_E:
        return add(a0.body, X.esum(iv, rest))
    c = add(ONE_E, scale(k, Fr(-1)))       # where the iteration stores
    c = block_to_delta(flip_conditions(c), iv)
    rest = block_to_delta(rest, iv)
    if iv not in c.fv:
        if c is ONE_E or mul(c, c) is c:
            # the same region every time: the last iteration decides
            if mul(k, rest) is not ZERO and k is not ZERO:
                raise Fail("store mixed with accumulation")
            return add(mul(k, a0.body), X.subst(rest, {iv: last}))
        raise Fail("store condition")
    if not delta_in(c, iv):
        raise Fail("stores may overlap: %s" % X.show(c))
    total_c = X.esum(iv, c)
    body = X.esum(iv, rest)
    left = add(ONE_E, scale(total_c, Fr(-1)))
    return add(body, mul(left, a0.body))


def flip_conditions(e):
    """Rewrites [not c] as 1 - [c] wherever that shortens the term."""
    for _ in range(12):
        best = None
        for a in {a for m, c in e.t for a, x in m if a.kind == "ind" and a.args[0] == "ge"}:
            comp = X._ind_atom("ge", add(scale(a.args[1], Fr(-1)), const(-1)))
            r = coeff(e, a)
            if r is None:
                continue
            k, rest = r
            new = add(rest, add(k, scale(mul(k, from_atom(comp)), Fr(-1))))
            if len(new.t) < len(e.t) and (best is None or len(new.t) < len(best.t)):
                best = new
        if best is None:
            return e
        e = best
    return e


def delta_in(c, iv):
    """Every term pins the iteration through an equality, so regions are disjoint."""
    if len(c.t) != 1:
        return False
    for m, _ in c.t:
        if not any(a.kind == "ind" and a.args[0] == "eq" and iv in a.fv and X.linear(a.args[1], iv) is not None
                   for a, x in m):
            return False
    return True


def block_to_delta(e, iv):
    """[i*w + s <= p] [p < i*w + s + w]  ->  [i = (p - s) // w]."""
    i = from_atom(iv)
    out = []
    e = step_pairs(e, iv)
    for m, c in e.t:
        inds = [a for a, x in m if a.kind == "ind" and a.args[0] == "ge" and iv in a.fv]
        done = False
        for lo in inds:
            for hi in inds:
                if lo is hi or done:
                    continue
                s = add(lo.args[1], hi.args[1])     # = w - 1
                w = add(s, ONE_E)
                if iv in w.fv:
                    continue
                # lo.args[1] = p - w*i
                p = add(lo.args[1], mul(w, i))
                if iv in p.fv or w is ZERO:
                    continue
                if not X.int_nonneg(add(w, const(-1))):
                    continue
                rest = X._mk({tuple((a, x) for a, x in m if a is not lo and a is not hi): c})
                out.append(mul(rest, X.eq0(add(i, scale(X.floordiv(p, w), Fr(-1))))))
                done = True
        if not done:
            out.append(X._mk({m: c}))
    return X.total(out)


def step_pairs(e, iv):
    """[p - w*i >= 0] - [p - w*i - w >= 0]  ->  [i = p // w]   (w a positive number)."""
    terms = dict(e.t)
    i = from_atom(iv)
    changed = True
    extra = []
    while changed:
        changed = False
        for m, c in list(terms.items()):
            for a, x in m:
                if a.kind != "ind" or a.args[0] != "ge" or iv not in a.fv:
                    continue
                lin = X.linear(a.args[1], iv)
                k = X.int_of(lin[0]) if lin[0] is not None else None
                if not k:
                    continue
                w = abs(k)
                b = X._ind_atom("ge", add(a.args[1], const(-w)))
                rest = tuple((q, y) for q, y in m if q is not a)
                m2 = X._mk({rest: Fr(1)}) if rest else ONE_E
                other = mul(m2, from_atom(b))
                if len(other.t) != 1 or terms.get(other.t[0][0]) != -c * other.t[0][1]:
                    continue
                del terms[m], terms[other.t[0][0]]
                p = lin[1]
                d = X.floordiv(p, const(w))
                extra.append(scale(mul(m2, X.eq0(add(i, d) if k > 0 else add(i, scale(d, Fr(-1))))), c))
                changed = True
                break
            if changed:
                break
    return X.total([X._mk(terms)] + extra) if extra else e
