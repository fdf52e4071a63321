"""Scenarios and obligations.

A scenario is a short driver program that calls the analysed package's public
operations on symbolic arguments; it is walked by the same abstract interpreter as the
package.  `check(...)` calls in it are the proof obligations: the abstract value computed
from the package's source is compared with the value of the specification, written as an
einsum or index formula in the same domain.
"""
import ast
import os
import time

from . import arr as AR
from . import expr as X
from . import sample
from .arr import Arr, Undecided, ShapeError
from .expr import ONE_E, ZERO, add, const, int_of, scale
from .interp import (ARef, Buf, BoundV, Budget, CMV, CellC, ClassV, Ctl, Dead, DictC, EnvC, ExcV, Frame, FuncV, InstC,
                     Interp, ListC, Masked, ModV, NeedFork, ObjPhi, MISSING, PyFn, RaiseEx, Ref, ReturnEx, Sym,
                     SymListC, Unk, same_value, ExtMod, PropV, SMV)

REPO = os.environ.get("TK_REPO", "/repo")
ROOT = os.path.join(REPO, "src", "tenkit")


class Finding:
    def __init__(self, rule, construct, detail, trace=()):
        self.rule, self.construct, self.detail, self.trace = rule, construct, detail, list(trace)

    @property
    def key(self):
        return "%s | %s" % (self.rule, self.construct)


class Report:
    """What one check covered."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.obligations = []          # (scenario, label, status, detail)
        self.findings = []
        self.violations = {}
        self.functions = {}
        self.calls = set()
        self.unknowns = {}
        self.scenarios = 0
        self.statements = 0
        self.notes = []
        self.t0 = time.time()

    def record(self, scenario, label, status, detail="", rule=None, construct=None, trace=()):
        self.obligations.append((scenario, label, status, detail))
        if status == "violated":
            self.violations[scenario] = self.violations.get(scenario, 0) + 1
            f = Finding(rule or label, construct or scenario, detail, trace)
            if all(g.key != f.key for g in self.findings):
                self.findings.append(f)

    def absorb(self, it):
        for k, v in it.functions_seen.items():
            self.functions[k] = self.functions.get(k, 0) + v
        self.calls |= it.calls_seen
        for k, v in it.unknowns.items():
            self.unknowns[k] = self.unknowns.get(k, 0) + v
        self.statements += it.steps

    def count(self, status):
        return sum(1 for o in self.obligations if o[2] == status)


def has_unknown(e):
    return any(n.startswith("?") for n in X.leaves_of(e))


def full_expand(e):
    return AR.expand_lets(e)


TOLERANCE = 1e-12
# mode lengths tried where the analysis with symbolic lengths stays undecided
SIZES = [(2, 3, 4, 2, 3), (3, 2, 2, 4, 1), (1,), (2,)]


def nondegenerate(e):
    """The value when no singular value is zero, relative rounding tolerances taken as zero."""
    def svd_only(x):
        return len(x.t) == 1 and len(x.t[0][0]) == 1 and x.t[0][0][0][0].kind == "leaf" and \
            "svdS#" in str(x.t[0][0][0][0].args[0])

    def ind(rel, x):
        if rel == "gt" and len(x.t) > 1:
            big = max(abs(c) for _, c in x.t)
            x = X._mk({m: c for m, c in x.t if abs(c) >= big * X.Fr(TOLERANCE)})
        if svd_only(x):
            pos = x.t[0][1] > 0
            return {"eq": ZERO, "gt": ONE_E if pos else ZERO, "ge": ONE_E if pos else ZERO}[rel]
        return None
    return X.replace_leaves(full_expand(e), lambda nm, s: None, ind)


def round_small(e):
    e = X.replace_leaves(full_expand(e), lambda nm, s: None, None, TOLERANCE)

    def near(c):
        d = X.Fr(c).limit_denominator(1000)
        return d if d and abs(c - d) < abs(d) * X.Fr(TOLERANCE) else c
    if any(near(c) != c for _, c in e.t):
        return X._mk({m: near(c) for m, c in e.t})
    return e


def generic(e):
    """The value where no product of real quantities is zero."""
    return X.replace_leaves(round_small(e), lambda nm, s: None,
                            lambda rel, x: ZERO if rel == "eq" and len(x.t) == 1 and not X.is_int(x) else None)


def under(e, facts):
    """The expression with the indicators that the (rounded) facts settle replaced."""
    def ind(rel, x):
        v = facts.get((rel, x.id))
        return None if v is None else ONE_E if v else ZERO
    for _ in range(4):
        n = X.replace_leaves(e, lambda nm, s: None, ind)
        if n is e:
            return e
        e = n
    return e


ROUNDED = {}


def at_least(a, b, facts):
    """Does a >= b follow from a chain of the comparisons made so far?"""
    table, known = {}, []
    for f, v in facts.items():
        if f.kind != "ind":
            continue
        r = ROUNDED.get(f)
        if r is None:
            r = ROUNDED[f] = round_small(X.from_atom(f))
        r = under(r, table)
        pos = v
        if X.is_const(r) and r.t:
            continue
        if len(r.t) == 2 and r.t[0][0] == () or len(r.t) == 2 and r.t[1][0] == ():
            r, pos = X.add(X.ONE, X.scale(r, X.Fr(-1))), not v
        if len(r.t) != 1 or len(r.t[0][0]) != 1 or r.t[0][0][0][0].kind != "ind":
            continue
        rel, e = r.t[0][0][0][0].args
        table[(rel, e.id)] = pos
        if rel in ("gt", "ge"):
            known.append(e if pos else X.scale(e, X.Fr(-1)))
    a, b = [under(round_small(x), table) for x in (a, b)]
    if X.nonneg(add(a, scale(b, X.Fr(-1)))):
        return True
    for strict in (True, False):
        seen, todo = {a.id}, [a]
        while todo and len(seen) < 300:
            x = todo.pop(0)
            coef = dict(x.t)
            for e in known:
                ks = {coef.get(m, 0)/c for m, c in e.t if c > 0 or not strict}
                if strict and len(ks) != 1:
                    continue
                for k in ks:
                    if k <= 0:
                        continue
                    y = under(add(x, scale(e, -k)), table)
                    if len(y.t) <= len(a.t) + len(b.t) and y.id not in seen:
                        seen.add(y.id)
                        todo.append(y)
                        if X.nonneg(add(y, scale(b, X.Fr(-1)))):
                            return True
    return False


class World:
    """Digest of the state that outlives the objects of a run, by path."""

    def __init__(self, it):
        self.state = {}
        seen = set()

        def walk(path, v, depth=0):
            while isinstance(v, (BoundV, CMV, SMV)):
                v = v.func if isinstance(v, BoundV) else v.f
            if isinstance(v, PropV):
                walk(path + ".fget", v.fget, depth)
                return
            if isinstance(v, (ModV, ExtMod)):
                return
            if isinstance(v, tuple):
                for i, x in enumerate(v):
                    walk("%s[%d]" % (path, i), x, depth)
                return
            if isinstance(v, FuncV):
                self.state[path] = "function %s" % v.qual
                if v in seen or depth > 6:
                    return
                seen.add(v)
                for n, d in enumerate(list(v.defaults or ()) + list((v.kwdefaults or {}).values())):
                    walk("%s: default %d" % (path, n), d, depth + 1)
                return
            if isinstance(v, ClassV):
                self.state[path] = "class %s" % v.name
                if v in seen:
                    return
                seen.add(v)
                for n, x in it.get(v.oid).d.items():
                    walk("%s: %s" % (path, n), x, depth + 1)
                return
            if isinstance(v, (Ref, ARef)):
                c = it.get(v.oid)
                self.state[path] = "object %d" % v.oid
                if v.oid in seen:
                    return
                seen.add(v.oid)
                if isinstance(c, Buf):
                    self.state[path + ": entries"] = "%s %s" % ([x.id for x in c.arr.shape], c.arr.body.id)
                elif isinstance(c, ListC):
                    self.state[path + ": length"] = len(c.items)
                    for i, x in enumerate(c.items):
                        walk("%s: [%d]" % (path, i), x, depth + 1)
                elif isinstance(c, DictC):
                    self.state[path + ": keys"] = sorted(map(str, c.d))
                    for n, x in c.d.items():
                        walk("%s: [%s]" % (path, n), x, depth + 1)
                elif isinstance(c, InstC):
                    for n, x in c.attrs.items():
                        walk("%s: .%s" % (path, n), x, depth + 1)
                elif isinstance(c, CellC):
                    self.state[path + ": value"] = str(c.v)
                return
            if isinstance(v, Sym):
                self.state[path] = "value %d" % v.e.id
            elif isinstance(v, (int, float, str, bytes, type(None))):
                self.state[path] = repr(v)
            else:
                self.state[path] = type(v).__name__
        for name, m in list(it.modules.items()):
            self.state[name] = "module"
            for n, v in it.get(m.oid).vars.items():
                walk("%s: %s" % (name, n), v)
        self.state["libraries"] = ""
        for n, v in it.get(it.hidden).d.items():
            walk("libraries: %s" % (n,), v)


class Lab:
    """One scenario: an interpreter plus helpers."""

    def __init__(self, report, name, root=None, max_steps=400000, variant=None):
        self.report, self.name = report, name
        self.variant, self.sizes = variant, {}
        self.it = Interp(root or ROOT, max_steps=max_steps)
        report.scenarios += 1
        self.vars = {}
        self.construct = None
        self.failed_paths = []
        it = self.it
        self.frame = Frame("<driver>", None, it.alloc(EnvC({}, None, "module")))
        self.frame.qual = "<driver>"
        for nm, f in (("check", self._check), ("check_true", self._check_true),
                      ("check_nondegenerate", self._check_nd), ("check_rounded", self._check_rd), ("check_generic", self._check_ge), ("at", self._at), ("note", self._note),
                      ("named", self._named), ("is_same", self._is_same), ("fail_after", self._fail_after), ("fault_pending", self._fault_pending),
                      ("world", self._world), ("same_world", self._same_world), ("rng_state", self._rng_state),
                      ("events", self._events), ("check_possible", self._check_possible),
                      ("concrete", lambda it, a, k: isinstance(a[0], (bool, int, float)) and not it.facts),
                      ("check_at_least", self._check_ge0), ("check_any", self._check_any)):
            self.define(nm, PyFn(nm, self.limited(f) if nm.startswith("check") else f))

    def limited(self, f):
        """No further comparisons in a scenario that has failed often enough."""
        def go(it, a, k):
            if self.report.violations.get(self.name, 0) < 8:
                return f(it, a, k)
            return None
        return go

    # ------------------------------------------------------------ inputs
    def define(self, name, v):
        env = self.it.get(self.frame.env)
        d = dict(env.vars)
        d[name] = v
        self.it.set(self.frame.env, EnvC(d, env.parent, env.kind))

    def tensor(self, name, *shape, origin=None, dtype="f", nonneg=False, orthonormal=False):
        if orthonormal:
            X.leaf_info(name, orth={0: X.lift(shape[0])})
        if nonneg:
            X.leaf_info(name, nonneg=True)
        if dtype == "i":
            X.leaf_info(name, int=True)
        a = AR.make([X.lift(s) for s in shape], lambda *i: X.leaf(name, *i), dtype)
        v = ARef(self.it.alloc(Buf(a, origin)))
        self.define(name, v)
        return v

    def dims(self, *names, lb=1):
        out = []
        for n in names:
            if self.variant is None:
                e = X.dim(n, lb)
            else:
                if n not in self.sizes:
                    cyc = SIZES[self.variant]
                    self.sizes[n] = max(lb, cyc[len(self.sizes) % len(cyc)])
                e = const(self.sizes[n])
            self.define(n, self.it.val(e, "i"))
            out.append(e)
        return out if len(out) > 1 else out[0]

    def number(self, name, nonneg=False, integer=False):
        X.leaf_info(name, **({"nonneg": True} if nonneg else {}), **({"int": True} if integer else {}))
        v = Sym(X.leaf(name), "i" if integer else "f")
        self.define(name, v)
        return v

    def spec(self, name, shape, f, dtype="f"):
        """A specification array given by an index formula."""
        a = AR.make([X.lift(s) for s in shape], f, dtype)
        v = ARef(self.it.alloc(Buf(a)))
        self.define(name, v)
        return v

    # ------------------------------------------------------------ running
    def run(self, src, expect=None):
        """Walks the driver.  Outcomes other than falling off the end are obligations
        of their own: an exception there means the operation failed."""
        it = self.it
        tree = ast.parse(src)
        fr = self.frame
        pm = len(fr.pending)
        it.stack.append(fr)
        depth = len(it.stack)
        try:
            outs = it.run_outcomes(lambda: it.exec_block(tree.body, fr), fr, pm)
        except Budget as b:
            self.report.record(self.name, "budget", "undecided", str(b))
            outs = []
        except (Undecided, X.TooBig) as u:
            self.report.record(self.name, "engine", "undecided", str(u))
            outs = []
        finally:
            del it.stack[depth - 1:]
        normals = []
        for kind, sn in outs:
            if kind == "raise":
                self.raised(sn, expect)
            else:
                normals.append(sn)
        if normals:
            for sn in normals:
                sn.value = None
            it.restore(it.join(normals))
        self.ok = bool(normals)
        return self.ok

    def raised(self, sn, expect):
        exc = sn.value
        if not isinstance(exc, ExcV):
            self.report.record(self.name, "exception", "undecided", repr(exc))
            return
        rule = "no-exception"
        where = exc.where or "?"
        label = self.construct or self.name
        if getattr(exc, "definite", True) is False or any(has_unknown(X.from_atom(a)) for a in sn.facts):
            self.report.record(self.name, rule, "undecided", "%s on a path with an unknown condition" % exc)
            return
        if sn.facts and not sample.valuations(sn.facts, 1):
            self.report.record(self.name, rule, "undecided", "%s: no valuation satisfies the path" % exc)
            return
        site = where.split(" in ")[-1]
        self.report.record(self.name, rule, "violated",
                           "%s is raised at %s (%s) %s" % (exc.name, where, exc.msg, self.facts_text(sn.facts)),
                           rule="%s %s" % (rule, exc.name), construct="%s in %s" % (label, site),
                           trace=getattr(exc, "trace", []))

    def facts_text(self, facts):
        if not facts:
            return ""
        ts = ["%s%s" % ("" if v else "not ", X.show_atom(a)) for a, v in list(facts.items())[:6]]
        t = "when " + " and ".join(ts)
        return t[:300]

    # -------------------------------------------------------- obligations
    def _at(self, it, a, k):
        """at("construct"): names the operation the following checks are about."""
        self.construct = a[0]

    def _named(self, it, a, k):
        """named(x): x as a named array, so that later formulas mention it by name."""
        v = it.load(a[0])
        if isinstance(v, Unk):
            return v
        a = it.arr(v)
        if len(a.body.t) == 1 and len(a.body.t[0][0]) == 1 and a.body.t[0][0][0][0].kind == "leaf":
            return it.new_array(a)
        return it.new_array(AR.let_bind(a))

    def _note(self, it, a, k):
        self.report.notes.append("%s: %s" % (self.name, " ".join(str(x) for x in a)))

    def _check(self, it, a, k):
        label, got, want = a[0], it.load(a[1]), it.load(a[2])
        status, detail = self.same(got, want)
        self.report.record(self.name, label, status, detail, rule=label,
                           construct=self.construct or self.name)
        return None

    def _check_any(self, it, a, k):
        """check_rounded() against several ways to write the same quantity."""
        label, got, results = a[0], it.load(a[1]), []
        for want in a[2:]:
            want = it.load(want)
            if isinstance(got, Unk) or isinstance(want, Unk):
                r = self.same(got, want)
            else:
                x, y = [it.new_array(Arr(z.shape, round_small(z.body), z.dtype)) for z in (it.arr(got), it.arr(want))]
                r = self.same(x, y)
            results.append(r)
            if r[0] == "ok":
                break
        ranks = ["ok", "undecided", "violated"]
        status, detail = min(results, key=lambda r: ranks.index(r[0]))
        self.report.record(self.name, label, status, detail, rule=label, construct=self.construct or self.name)
        return None

    def _is_same(self, it, a, k):
        """Whether two values are the same, as a value."""
        status, detail = self.same(it.load(a[0]), it.load(a[1]))
        return {"ok": True, "violated": False}.get(status) if status in ("ok", "violated") else Unk("comparison: " + detail)

    def _fail_after(self, it, a, k):
        """The write operation on an HDF5 file after the next n ones fails (None: none does)."""
        it.set(it.h5fault, CellC(it.load(a[0])))

    def _fault_pending(self, it, a, k):
        return it.get(it.h5fault).v is not None

    def _rng_state(self, it, a, k):
        """Seed of NumPy's global generator and number of draws since."""
        v = it.get(it.rng).v
        return tuple(v) if isinstance(v, tuple) else ("", v)

    def _events(self, it, a, k):
        """Number of events of the given kinds so far."""
        return sum(1 for e in it.events if e[0] in a)

    def _world(self, it, a, k):
        """State outside of objects: names of the package's modules, attributes of its classes, default arguments,
        attributes of functions, settings of libraries."""
        return it.alloc_cell(World(it))

    def _same_world(self, it, a, k):
        """The package's state is as recorded."""
        label, before, now = a[0], it.get(a[1].oid).v.state, World(it).state
        bad = [p for p in before if p in now and now[p] != before[p]] + [p for p in now if p not in before and (
            p.split(":")[0] in before)]
        bad += [p for p in before if p not in now]
        detail = ""
        if bad:
            at = [e[1] for e in it.events if e[0] in ("global_write", "class_write", "hidden_state")]
            detail = "%s: %s instead of %s; %s" % (bad[0], now.get(bad[0]), before.get(bad[0]), at[-1:] or "")
        self.report.record(self.name, label, "violated" if bad else "ok", detail, rule=label,
                           construct=(bad[0].split(":")[0] if bad else self.construct or self.name))
        return None

    def _check_rd(self, it, a, k):
        """check(), with guards against division by zero such as eps = 1e-15 taken as zero."""
        return self._check_nd(it, a, k, round_small)

    def _check_ge(self, it, a, k):
        """check_rounded(), for data without zeros."""
        return self._check_nd(it, a, k, generic)

    def _check_nd(self, it, a, k, simplify=nondegenerate):
        """check(), for problems whose singular values are not zero."""
        label, got, want = a[0], it.load(a[1]), it.load(a[2])
        if isinstance(got, Unk) or isinstance(want, Unk):
            status, detail = self.same(got, want)
        else:
            got, want = it.arr(got), it.arr(want)
            got, want = [Arr(x.shape, simplify(x.body), x.dtype) for x in (got, want)]
            status, detail = self.same(it.new_array(got), it.new_array(want))
        self.report.record(self.name, label, status, detail, rule=label,
                           construct=self.construct or self.name)
        return None

    def _check_true(self, it, a, k):
        label, v = a[0], it.load(a[1])
        detail = a[2] if len(a) > 2 else ""
        if isinstance(v, Unk):
            self.report.record(self.name, label, "undecided", v.reason)
            return None
        if isinstance(v, Sym) and has_unknown(v.e):
            self.report.record(self.name, label, "undecided", "unknown value")
            return None
        r = it.truth(v)
        if r:
            self.report.record(self.name, label, "ok")
        elif any(has_unknown(X.from_atom(x)) for x in it.facts) or it.facts and not sample.valuations(it.facts, 1):
            self.report.record(self.name, label, "undecided", "unknown path condition")
        else:
            self.report.record(self.name, label, "violated", "%s does not hold %s %s" % (
                label, detail, self.facts_text(it.facts)), rule=label, construct=self.construct or self.name)
        return None

    def _check_ge0(self, it, a, k):
        """Does a >= b follow from the path taken (small guards against zero taken as zero)?"""
        label, x, y = a[0], it.load(a[1]), it.load(a[2])
        if not (isinstance(x, Unk) or isinstance(y, Unk)):
            x, y = it.arr(x), it.arr(y)
            if x.ndim == y.ndim == 0 and not has_unknown(x.body) and not has_unknown(y.body):
                if at_least(x.body, y.body, it.facts):
                    self.report.record(self.name, label, "ok")
                    return None
                v = Sym(X.ge0(X.add(x.body, X.scale(y.body, X.Fr(-1)))), "b")
                return self._check_true(it, [label, v], k)
        self.report.record(self.name, label, "undecided", "unknown value")
        return None

    def _check_possible(self, it, a, k):
        """Is there an input for which the number is negative (the arrays' i-th entries, say)?"""
        label, v = a[0], it.load(a[1])
        if isinstance(v, Unk):
            self.report.record(self.name, label, "undecided", v.reason)
            return None
        x = it.arr(v)
        if has_unknown(x.body):
            self.report.record(self.name, label, "undecided", "unknown value")
            return None
        if X.nonneg(x.body):
            self.report.record(self.name, label, "violated", "%s is never negative" % X.show(x.body, 120), rule=label,
                               construct=self.construct or self.name)
            return None
        for val in sample.valuations(it.facts, 8):
            try:
                env = {ax: 0 for ax in x.vars()}
                r = sample.value(val, x.body, env)
            except (sample.NoValue, OverflowError, RecursionError, ZeroDivisionError):
                continue
            if r is not None and r < 0:
                self.report.record(self.name, label, "ok")
                return None
        self.report.record(self.name, label, "undecided", "no negative value among the samples")
        return None

    # ---------------------------------------------------------- comparing
    def same(self, got, want, depth=0):
        """('ok'|'violated'|'undecided', detail) for two abstract values."""
        it = self.it
        got, want = it.load(got), it.load(want)
        if isinstance(got, Unk):
            return "undecided", got.reason
        if isinstance(want, Unk):
            return "undecided", "specification: " + want.reason
        if want is None or isinstance(want, (str, bytes, bool)) and not isinstance(got, (Sym, ARef)):
            if isinstance(got, (ARef, Ref, Sym)) and want is not None and isinstance(want, bool):
                pass
            elif same_value(got, want) or got == want:
                return "ok", ""
            else:
                return self.differs("value %r instead of %r" % (got, want))
        if isinstance(want, Ref) and isinstance(it.get(want.oid), InstC):
            if got == want:
                return "ok", ""
            return self.differs("a different object")
        if isinstance(want, Ref) and isinstance(it.get(want.oid), DictC):
            dw = it.get(want.oid).d
            if not (isinstance(got, Ref) and isinstance(it.get(got.oid), DictC)):
                return self.differs("not a dictionary: %r" % (got,))
            dg = it.get(got.oid).d
            if set(dw) != set(dg):
                return self.differs("keys %s instead of %s" % (sorted(map(str, dg)), sorted(map(str, dw))))
            return self.all_same([(dg[q], dw[q], "[%r]" % (q,)) for q in dw], depth)
        seq_w = self.items(want)
        if seq_w is not None:
            seq_g = self.items(got)
            if seq_g is None:
                if isinstance(got, ARef):
                    a = it.arr(got)
                    n = int_of(a.shape[0]) if a.ndim else None
                    if n is not None and n == len(seq_w):
                        return self.all_same([(it.getitem(got, i), w, "[%d]" % i) for i, w in enumerate(seq_w)],
                                             depth)
                if isinstance(got, Ref) and isinstance(it.get(got.oid), InstC):
                    try:
                        seq_g = it.iterate(got)
                    except Undecided as u:
                        return "undecided", str(u)
                else:
                    return self.differs("not a sequence of %d items: %r" % (len(seq_w), got))
            if len(seq_g) != len(seq_w):
                return self.differs("%d items instead of %d" % (len(seq_g), len(seq_w)))
            return self.all_same([(g, w, "[%d]" % i) for i, (g, w) in enumerate(zip(seq_g, seq_w))], depth)
        if isinstance(got, float) and isinstance(want, float) and got == want:
            return "ok", ""
        try:
            g = it.arr(got)
        except Undecided as u:
            if got is None or isinstance(got, (str, FuncV, ClassV)):
                return self.differs("%r instead of a number or array" % (got,))
            return "undecided", str(u)
        try:
            w = it.arr(want)
        except Undecided as u:
            return "undecided", "specification: %s" % u
        return self.same_arr(g, w)

    def items(self, v):
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, Ref):
            c = self.it.get(v.oid)
            if isinstance(c, ListC):
                return list(c.items)
        return None

    def all_same(self, triples, depth):
        worst = ("ok", "")
        for g, w, lab in triples:
            s, d = self.same(g, w, depth + 1)
            if s == "violated":
                return s, "item %s: %s" % (lab, d)
            if s == "undecided":
                worst = (s, "item %s: %s" % (lab, d))
        return worst

    def differs(self, text):
        """A structural difference on the current path."""
        it = self.it
        if any(has_unknown(X.from_atom(a)) for a in it.facts):
            return "undecided", text + " on a path with an unknown condition"
        if it.facts and not sample.valuations(it.facts, 1):
            return "undecided", text + ": no valuation satisfies the path"
        return "violated", text + " " + self.facts_text(it.facts)

    def same_arr(self, g, w):
        it = self.it
        if g.ndim != w.ndim:
            return self.differs("%d dimensions instead of %d" % (g.ndim, w.ndim))
        loose = None
        for k in range(g.ndim):
            if not AR.same_dim(g.shape[k], w.shape[k]):
                if has_unknown(g.shape[k]):
                    return "undecided", "unknown shape"
                d = sample.differ(g.shape[k], w.shape[k], [], it.facts)
                if d is None:
                    loose = loose or ("undecided", "shape normal forms differ: %s and %s" % (g.shape[k], w.shape[k]))
                    continue
                return "violated", "axis %d has length %s instead of %s %s" % (
                    k, X.show(g.shape[k], 120), X.show(w.shape[k], 120), self.facts_text(it.facts))
        axes = w.vars()
        gb = g.at(w.idx())
        wb = w.at(w.idx())
        out = self.same_term(gb, wb, [v for s, v in zip(w.shape, axes) if s is not ONE_E])
        if loose is not None and out[0] == "ok":
            # lengths that agree on every valuation of this path only
            return loose
        return out

    def same_term(self, gb, wb, axes):
        it = self.it
        if gb is wb:
            return "ok", ""
        gb, wb = it.apply_facts(gb), it.apply_facts(wb)
        if gb is wb:
            return "ok", ""
        try:
            diff = it.apply_facts(add(gb, scale(wb, -1)))
            with X.fuel(800000):
                r, rest = self.vanishes(diff)
            if r:
                return "ok", ""
            ge, we = rest, ZERO
        except X.TooBig:
            ge, we = gb, wb
        # small concrete axes entry by entry
        small, n = [], 1
        for v in sorted((v for v in axes if int_of(v.args[1]) is not None), key=lambda v: int_of(v.args[1])):
            if n * int_of(v.args[1]) <= 150:
                small.append(v)
                n *= int_of(v.args[1])
        if small or self.variant is not None:
            try:
                for idx in _points([int_of(v.args[1]) for v in small]):
                    mp = {v: const(i) for v, i in zip(small, idx)}
                    a, b = it.apply_facts(X.subst(ge, mp)), it.apply_facts(X.subst(we, mp))
                    if a is b:
                        continue
                    d = X.replace_leaves(add(a, scale(b, -1)), lambda nm, s: None, unroll=4)
                    if it.apply_facts(d) is not ZERO:
                        break
                else:
                    return "ok", ""
            except X.TooBig:
                pass
        if has_unknown(ge) or has_unknown(we):
            return "undecided", "the value contains parts the analysis does not know"
        if any(has_unknown(X.from_atom(a)) for a in it.facts):
            return "undecided", "unknown path condition"
        d = sample.differ(gb, wb, axes, it.facts)
        if d is None:
            return "undecided", "normal forms differ, no sample valuation separates them: %s <> %s" % (
                X.show(gb, 200), X.show(wb, 200))
        return "violated", "computed %s, specified %s; e.g. %s: %.6g instead of %.6g %s" % (
            X.show(gb, 260), X.show(wb, 260), d[0], d[1], d[2], self.facts_text(it.facts))

    def vanishes(self, diff, limit=60):
        """Whether the difference is zero, expanding named sub-arrays from the newest
        definition to the oldest and only as far as needed."""
        return AR.vanishes(diff, self.it.apply_facts, limit, 10**9)

    def done(self):
        self.report.absorb(self.it)


def _points(ns):
    out = [()]
    for n in ns:
        out = [p + (i,) for p in out for i in range(n)]
    return out
