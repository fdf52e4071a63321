"""Sample valuations of terms.

Two terms with different normal forms may still be equal (the normal form is not
complete for roots, quotients and the opaque matrix factorisations).  Before an
inequality is reported, both terms - formulas the analysis derived from the source -
are evaluated under a few assignments of numbers to their leaves; only a difference
there is reported, and the assignment is part of the report.  Equal values are never
taken as a proof: such an obligation counts as undecided.
"""
import math
import random
from fractions import Fraction as Fr

from . import arr as AR
from . import expr as X


class NoValue(Exception):
    pass


class Infinite(NoValue):
    """A quotient with a zero denominator."""


ZEROS = False      # whether some of the drawn entries are zero
SCALES = [1.0, 1.0, "degenerate", 1e-4, 30.0]


class Valuation:
    def __init__(self, seed=0, steps=4000000, scale=None):
        self.rnd = random.Random(seed)
        self.seed = seed
        self.leaves = {}
        self.dims = {}
        self.memo = {}
        self.opq = {}
        self.steps = steps
        k = SCALES[seed % len(SCALES)] if scale is None else scale
        self.tol = 1e-9 if scale is None else min(1e-9, scale*1e-4)
        self.low_rank = k == "degenerate"
        self.zeros = ZEROS and seed % 3 == 2
        self.scale = 1.0 if self.low_rank else k
        self.peak = 0.0      # the largest term of any sum: what rounding errors are relative to

    # ------------------------------------------------------------- leaves
    def dim(self, name, lb):
        v = self.dims.get(name)
        if v is None:
            r = random.Random("%s/%s" % (self.seed, name))
            v = lb + r.choice([0, 1, 2]) if lb >= 2 else lb + r.choice([1, 2, 3]) - (1 if lb else 1)
            if lb == 0:
                v = r.choice([0, 1, 2])
            self.dims[name] = v
        return v

    def leaf(self, name, slots):
        k = (name, slots)
        v = self.leaves.get(k)
        if v is None:
            r = random.Random("%s/%s/%s" % (self.seed, name, slots))
            info = X.LEAF.get(name, {})
            if info.get("int"):
                v = float(r.choice([1, 2, 3]) if info.get("nonneg") else r.choice([-2, -1, 1, 2, 3]))
            else:
                if self.low_rank and len(slots) > 1:
                    v = 1.0
                    for i, q in enumerate(slots):
                        r = random.Random("%s/%s/%d/%s" % (self.seed, name, i, q))
                        f = r.uniform(0.4, 1.4)
                        v *= -f if not info.get("nonneg") and r.random() < 0.45 else f
                else:
                    v = r.uniform(0.2, 1.5)
                    if not info.get("nonneg") and r.random() < 0.45:
                        v = -v
                if self.zeros and self.seed % 6 == 5 and slots:
                    # whole rows or columns of zeros
                    ax = self.seed // 6 % len(slots)
                    if random.Random("%s/%s/row %s" % (self.seed, name, slots[ax])).random() < 0.4:
                        v = 0.0
                elif self.zeros and r.random() < 0.4:
                    v = 0.0
                v *= self.scale
                if info.get("small"):
                    v *= 0.01
            self.leaves[k] = v
        return v

    # --------------------------------------------------------------- terms
    def ev(self, e, env):
        if e.fv:
            key = (e.id,) + tuple(env.get(v, -1) for v in sorted(e.fv, key=lambda v: v.id))
        else:
            key = (e.id,)
        r = self.memo.get(key)
        if r is not None:
            return r
        self.steps -= 1
        if self.steps < 0:
            raise NoValue("too long")
        tot = 0.0
        for m, c in e.t:
            p = float(c) * self.mono(m, env)
            if p > self.peak or p < -self.peak:
                self.peak = abs(p)
            tot += p
        self.memo[key] = tot
        return tot

    def mono(self, m, env):
        p = 1.0
        # conditions first: they guard out-of-range entries
        for a, x in m:
            if a.kind == "ind":
                if not self.cond(a, env):
                    return 0.0
        for a, x in m:
            if a.kind == "ind":
                continue
            if p == 0.0 and x > 0:
                continue
            v = self.atom(a, env)
            if x < 0 and a.kind == "par":
                self.cancels(a.args[0], v, env)
            v = self.pow(v, x)
            if p != 0.0:
                p *= v
        return p

    def cancels(self, e, v, env):
        """Terms that cancel up to rounding tell nothing when divided by."""
        if v != 0 and len(e.t) > 1:
            big = max(abs(float(c) * self.mono(m, env)) for m, c in e.t)
            if abs(v) < 1e-9 * big:
                raise NoValue("cancellation")

    def pow(self, v, x):
        if x == 1:
            return v
        if x.denominator == 1:
            if x < 0 and abs(v) < (1e-13 if self.scale == 1.0 else 1e-40):
                raise Infinite("division by zero")
            return v ** int(x)
        if v < 0:
            if v > -1e-9:
                v = 0.0
            else:
                raise NoValue("root of a negative number")
        if x < 0 and abs(v) < (1e-13 if self.scale == 1.0 else 1e-40):
            raise Infinite("division by zero")
        return v ** float(x)

    def cond(self, a, env):
        rel, e = a.args
        v = self.ev(e, env)
        tol = self.tol if not X.is_int(e) else 1e-6
        if len(e.t) == 1 and len(e.t[0][0]) == 1 and "svdS#" in str(e.t[0][0][0][0].args[0]):
            tol = 0.0           # negligible singular values have been set to zero
        elif self.scale < 1.0 and len(e.t) == 1 and 0 < abs(v) <= tol and not X.is_int(e):
            raise NoValue("too small to tell from zero")
        if rel == "eq":
            return abs(v) <= tol
        if rel == "gt":
            return v > tol
        return v >= -tol

    def int_(self, e, env):
        v = self.ev(e, env)
        r = round(v)
        if abs(v - r) > 1e-6:
            raise NoValue("non-integer index")
        return int(r)

    def atom(self, a, env):
        k = a.kind
        if k == "dim":
            return float(self.dim(*a.args))
        if k == "var":
            if a not in env:
                raise NoValue("free variable %s" % a)
            return float(env[a])
        if k == "par":
            return self.ev(a.args[0], env)
        if k == "ind":
            return 1.0 if self.cond(a, env) else 0.0
        if k == "leaf":
            return self.ev_leaf(a, env)
        if k == "sum":
            return self.ev_sum(a, env)
        if k == "fn":
            return self.ev_fn(a, env)
        raise NoValue(k)

    def ev_sum(self, a, env):
        key = ("s", a.id) + tuple(env.get(v, -1) for v in sorted(a.fv, key=lambda v: v.id))
        r = self.memo.get(key)
        if r is not None:
            return r
        env = dict(env)
        r = self.eliminate(plan(a), env)
        self.memo[key] = r
        return r

    def eliminate(self, steps_, env):
        """Sums the bound variables out one at a time (lazily, with memoised messages)."""
        steps, last = steps_
        memo = {}

        def factors(fs, env):
            p = 1.0
            for f in fs:
                if type(f) is int:
                    p *= message(f, env)
                else:
                    a, x = f
                    if a.kind == "ind":
                        if not self.cond(a, env):
                            return 0.0
                        continue
                    p *= self.pow(self.atom(a, env), x)
                if p == 0.0:
                    return 0.0
            return p

        def message(k, env):
            v, scope, fs = steps[k]
            key = (k,) + tuple([env[s] for s in scope])
            r = memo.get(key)
            if r is None:
                env = dict(env)
                r = 0.0
                for i in range(self.int_(v.args[1], env)):
                    self.steps -= 1
                    if self.steps < 0:
                        raise NoValue("too long")
                    env[v] = i
                    r += factors(fs, env)
                memo[key] = r
            return r
        return factors(last, env)

    def ev_fn(self, a, env):
        nm, args = a.args
        if nm == "id":
            return self.ev(args[0], env)
        if nm == "f32":
            # coarser than single precision, so that the difference is not taken for rounding errors
            x = self.ev(args[0], env)
            return round(x*512)/512
        vals = [self.ev(s, env) for s in args]
        f = FNS.get(nm)
        if f is None:
            # an uninterpreted function: any fixed function of its arguments
            r = random.Random("%s/%s/%s" % (self.seed, nm, tuple(round(v, 7) for v in vals)))
            return r.uniform(0.2, 1.5)
        try:
            return f(*vals)
        except (ValueError, ZeroDivisionError, OverflowError):
            raise NoValue(nm)

    def ev_leaf(self, a, env):
        nm, slots = a.args
        if nm.startswith("?"):
            raise NoValue("unknown value")
        idx = tuple(self.int_(s, env) for s in slots)
        d = AR.LETS.get(nm)
        if d is not None:
            params, body = d
            return self.ev(body, dict(zip(params, idx)))
        if "#" in nm and not nm.startswith(("rand", "randn", "s")) or nm.startswith("svd"):
            head, num = nm.split("#", 1)
            base = {"svdU": "svd", "svdS": "svd", "svdV": "svd", "qrQ": "qr", "qrR": "qr"}.get(head, head)
            if head == "nnls" and num.endswith("r"):
                head, num = "nnlsr", num[:-1]
            o = AR.OPAQUE.get("%s#%s" % (base, num))
            if o is not None:
                return self.opaque(nm, head, o[1], idx)
        return self.leaf(nm, idx)

    # ------------------------------------------------- matrix factorisations
    def array(self, a, env):
        """Nested lists of the numbers of an Arr."""
        sh = [self.int_(s, env) for s in a.shape]

        def rec(k, env):
            if k == len(sh):
                return self.ev(a.body, env)
            out = []
            v = a.vars()[k]
            for i in range(sh[k]):
                e2 = dict(env)
                e2[v] = i
                out.append(rec(k + 1, e2))
            return out
        return rec(0, env)

    def opaque(self, nm, kind, args, idx):
        frees = free_vars(args)
        n = len(idx) - len(frees)
        env = dict(zip(frees, idx[n:]))
        key = (nm,) + idx[n:]
        r = self.opq.get(key)
        if r is None:
            f = OPAQUES.get(kind)
            if f is None:
                r = ("rand",)
            else:
                r = f(self, args, env)
            self.opq[key] = r
        if r == ("rand",):
            # like an uninterpreted function of the index
            info = X.LEAF.get(nm, {})
            q = random.Random("%s/%s/%s" % (self.seed, nm, idx)).uniform(0.2, 1.5)
            return q
        out = r
        try:
            for i in idx[:n]:
                if i < 0:
                    raise NoValue("index")
                out = out[i]
        except (IndexError, TypeError):
            raise NoValue("index out of range in %s" % nm)
        return out


PLANS = {}


def plan(a):
    """The order in which the bound variables of a sum are eliminated: entries
    (variable, scope of the message, factors), then the factors left over.  A factor
    is an (atom, exponent) pair or the number of an earlier message."""
    r = PLANS.get(a.id)
    if r is not None:
        return r
    vs, m = a.args
    left = set(vs)
    guards = [x for x, _ in m if x.kind == "ind" and X.is_int(x.args[1])]
    fs = []
    for x, e in m:
        scope = set(x.fv) & left
        if x.kind != "ind":
            # an entry is read only where the conditions on its indices hold
            for g in guards:
                if g.fv & scope:
                    scope |= g.fv & left
        fs.append((scope, (x, e)))
    steps = []
    while left:
        free = [v for v in left if not any(v in w.args[1].fv for w in left if w is not v)]

        def cost(v):
            s = set()
            for scope, _ in fs:
                if v in scope:
                    s |= scope
            s |= v.args[1].fv & left
            return len(s), v.id
        v = min(free, key=cost)
        mine = [f for f in fs if v in f[0]]
        scope = set(v.args[1].fv) & left
        for s, _ in mine:
            scope |= s
        scope.discard(v)
        mine.sort(key=lambda f: 0 if type(f[1]) is not int and f[1][0].kind == "ind" else 1)
        fs = [f for f in fs if v not in f[0]] + [(scope, len(steps))]
        steps.append((v, tuple(sorted(scope, key=lambda x: x.id)), [f for _, f in mine]))
        left.discard(v)
    fs.sort(key=lambda f: 0 if type(f[1]) is not int and f[1][0].kind == "ind" else 1)
    r = PLANS[a.id] = (steps, [f for _, f in fs])
    return r


def free_vars(args):
    fv = []
    for a in args:
        if isinstance(a, AR.Arr):
            b, own = a.body, set(a.vars())
        elif isinstance(a, X.E):
            b, own = a, set()
        else:
            continue
        for v in sorted(b.fv - own, key=lambda v: v.id):
            if v not in fv:
                fv.append(v)
    fv.sort(key=lambda v: (v.args[1].id, v.args[0].startswith("@"), v.id))
    return fv


def _floordiv(a, b):
    return float(math.floor(a / b + 1e-9))


FNS = {
    "abs": abs, "sign": lambda v: 0.0 if abs(v) < 1e-12 else math.copysign(1.0, v),
    "min": min, "max": max, "imin": min, "imax": max,
    "floordiv": _floordiv, "mod": lambda a, b: a - b * _floordiv(a, b),
    "exp": math.exp, "log": math.log, "sin": math.sin, "cos": math.cos, "floor": lambda v: float(math.floor(v)),
    "ceil": lambda v: float(math.ceil(v)), "int": lambda v: float(int(v)), "tanh": math.tanh,
}


# ----------------------------------------------------- small linear algebra

def mm(a, b):
    return [[sum(x * y for x, y in zip(r, c)) for c in zip(*b)] for r in a] if b else [[] for _ in a]


def tr(a):
    return [list(r) for r in zip(*a)]


def jacobi(a):
    """Eigenvalues (descending) and vectors (columns) of a symmetric matrix."""
    n = len(a)
    a = [list(r) for r in a]
    v = [[float(i == j) for j in range(n)] for i in range(n)]
    big = sum(x * x for r in a for x in r)
    for _ in range(80):
        off = sum(a[i][j] ** 2 for i in range(n) for j in range(n) if i != j)
        if off <= 1e-32 * big:
            break
        for p in range(n):
            for q in range(p + 1, n):
                if abs(a[p][q]) < 1e-300:
                    continue
                th = (a[q][q] - a[p][p]) / (2 * a[p][q])
                t = (1.0 if th >= 0 else -1.0) / (abs(th) + math.sqrt(th * th + 1))
                c = 1 / math.sqrt(t * t + 1)
                s = t * c
                for k in range(n):
                    x, y = a[k][p], a[k][q]
                    a[k][p], a[k][q] = c * x - s * y, s * x + c * y
                for k in range(n):
                    x, y = a[p][k], a[q][k]
                    a[p][k], a[q][k] = c * x - s * y, s * x + c * y
                for k in range(n):
                    x, y = v[k][p], v[k][q]
                    v[k][p], v[k][q] = c * x - s * y, s * x + c * y
    order = sorted(range(n), key=lambda i: -a[i][i])
    return [a[i][i] for i in order], [[v[r][i] for i in order] for r in range(n)]


def complete(cols, n):
    """Extends orthonormal columns (lists) to a basis of R^n."""
    cols = [list(c) for c in cols]
    k = 0
    while len(cols) < n:
        w = [float(i == k) for i in range(n)]
        k += 1
        for _ in range(2):
            for c in cols:
                d = sum(x * y for x, y in zip(w, c))
                w = [x - d * y for x, y in zip(w, c)]
        nn = math.sqrt(sum(x * x for x in w))
        if nn > 1e-6:
            cols.append([x / nn for x in w])
    return cols


def svd(a):
    m, n = len(a), len(a[0]) if a else 0
    if m == 0 or n == 0:
        raise NoValue("empty svd")
    if m < n:
        u, s, v = svd(tr(a))
        return v, s, u
    w, v = jacobi(mm(tr(a), a))
    s = [math.sqrt(max(x, 0.0)) for x in w]
    vc = tr(v)
    av = tr(mm(a, v))
    uc = []
    for j in range(n):
        if s[j] > 1e-7 * s[0]:
            uc.append([x / s[j] for x in av[j]])
        else:
            s[j] = 0.0
    uc = complete(uc, m)
    return tr(uc), s, tr(vc)          # columns of u (m x m), v (n x n)


def svd_of(val, args, env):
    key = ("svd", args[0].body.id, tuple(s.id for s in args[0].shape), tuple(sorted((v.id, i) for v, i in env.items())))
    r = val.opq.get(key)
    if r is None:
        r = svd(val.array(args[0], env))
        val.opq[key] = r
    return r


def qr_of(val, args, env):
    """Householder reflections, with the signs of LAPACK: the diagonal of R can have any sign."""
    a = val.array(args[0], env)
    if not a or not a[0]:
        raise NoValue("empty qr")
    m, n = len(a), len(a[0])
    r = [list(row) for row in a]
    q = [[float(i == j) for j in range(m)] for i in range(m)]
    for j in range(min(m, n)):
        length = math.sqrt(sum(r[i][j] ** 2 for i in range(j, m)))
        if length <= 1e-9 * math.sqrt(sum(a[i][j] ** 2 for i in range(m))):
            raise NoValue("rank deficient qr")
        if all(r[i][j] == 0 for i in range(j + 1, m)):
            continue
        v = [r[i][j] for i in range(j, m)]
        v[0] += length if v[0] >= 0 else -length
        f = 2 / sum(x * x for x in v)
        for k in range(n):
            d = f * sum(v[i] * r[j + i][k] for i in range(m - j))
            for i in range(m - j):
                r[j + i][k] -= d * v[i]
        for k in range(m):
            d = f * sum(q[k][j + i] * v[i] for i in range(m - j))
            for i in range(m - j):
                q[k][j + i] -= d * v[i]
    k = min(m, n)
    return [row[:k] for row in q], [[r[i][j] if j >= i else 0.0 for j in range(n)] for i in range(k)]


def inverse(a):
    n = len(a)
    if any(len(r) != n for r in a):
        raise NoValue("inverse of a non-square matrix")
    big = max([abs(x) for r in a for x in r] + [0.0])
    m = [list(r) + [float(i == j) for j in range(n)] for i, r in enumerate(a)]
    for i in range(n):
        p = max(range(i, n), key=lambda k: abs(m[k][i]))
        if abs(m[p][i]) <= 1e-10 * big:
            raise NoValue("singular")
        m[i], m[p] = m[p], m[i]
        d = m[i][i]
        m[i] = [x / d for x in m[i]]
        for k in range(n):
            if k != i and m[k][i]:
                f = m[k][i]
                m[k] = [x - f * y for x, y in zip(m[k], m[i])]
    return [r[n:] for r in m]


def nnls(a, b):
    """min ||a x - b||, x >= 0, by enumeration of supports (small sizes)."""
    n = len(a[0]) if a else 0
    if n > 6:
        raise NoValue("nnls size")
    ka = max([abs(x) for r in a for x in r] + [0.0])
    kb = max([abs(x) for x in b] + [0.0])
    if ka and kb and not 0.01 < ka < 100:
        return [x * kb / ka for x in nnls([[x / ka for x in r] for r in a], [x / kb for x in b])]
    best, bx = None, None
    for mask in range(1 << n):
        idx = [j for j in range(n) if mask >> j & 1]
        x = [0.0] * n
        if idx:
            g = [[sum(r[i] * r[j] for r in a) for j in idx] for i in idx]
            h = [[sum(r[i] * y for r, y in zip(a, b))] for i in idx]
            try:
                s = mm(inverse(g), h)
            except NoValue:
                continue
            if any(v[0] < -1e-12 for v in s):
                continue
            for i, v in zip(idx, s):
                x[i] = v[0]
        res = sum((sum(p * q for p, q in zip(r, x)) - y) ** 2 for r, y in zip(a, b))
        if best is None or res < best - 1e-13:
            best, bx = res, x
    return bx


OPAQUES = {
    "svdU": lambda v, a, e: svd_of(v, a, e)[0],
    "svdS": lambda v, a, e: svd_of(v, a, e)[1],
    "svdV": lambda v, a, e: svd_of(v, a, e)[2],
    "qrQ": lambda v, a, e: qr_of(v, a, e)[0],
    "qrR": lambda v, a, e: qr_of(v, a, e)[1],
    "inv": lambda v, a, e: inverse(v.array(a[0], e)),
    "nnls": lambda v, a, e: nnls(v.array(a[0], e), v.array(a[1], e)),
    "sort": lambda v, a, e: sorted(v.array(a[0], e)),
    "amax": lambda v, a, e: max(v.array(a[0], e)), "max": lambda v, a, e: max(v.array(a[0], e)),
    "amin": lambda v, a, e: min(v.array(a[0], e)), "min": lambda v, a, e: min(v.array(a[0], e)),
}


# ----------------------------------------------------------------- use

def satisfies(val, facts):
    for atom, truth in facts.items():
        if val.cond(atom, {}) != truth:
            return False
    return True


def valuations(facts, n=3, tries=60):
    """Valuations under which the path's facts hold."""
    out = []
    relevant = {a: t for a, t in facts.items() if not a.fv}
    for s in range(tries):
        v = Valuation(s)
        try:
            if satisfies(v, relevant):
                out.append(v)
                if len(out) == n:
                    break
        except NoValue:
            continue
        except (OverflowError, RecursionError):
            continue
    return out


def value(v, e, env):
    try:
        return v.ev(e, env)
    except Infinite:
        return None


def thresholds(*terms):
    """Absolute numbers that quantities are compared with, in the terms and what they are built from."""
    out, seen = set(), set()

    def term(e):
        if e.id in seen:
            return
        seen.add(e.id)
        for m, _ in e.t:
            for a, _x in m:
                atom(a)

    def atom(a):
        k = ("a", a.id)
        if k in seen:
            return
        seen.add(k)
        if a.kind == "leaf":
            for s in a.args[1]:
                term(s)
            nm = a.args[0]
            d = AR.LETS.get(nm)
            if d is not None:
                term(d[1])
            elif "#" in nm:
                head, num = nm.lstrip("?").split("#", 1)
                base = head[:-1] if head[:3] == "svd" or head[:2] == "qr" else head
                o = AR.OPAQUE.get("%s#%s" % (base, num.rstrip("r")))
                for x in o[1] if o is not None else ():
                    if isinstance(x, AR.Arr):
                        term(x.body)
                    elif isinstance(x, X.E):
                        term(x)
        elif a.kind == "fn":
            for s in a.args[1]:
                term(s)
        elif a.kind == "par":
            term(a.args[0])
        elif a.kind == "sum":
            for b, _ in a.args[1]:
                atom(b)
        elif a.kind == "ind":
            e = a.args[1]
            term(e)
            c = [abs(float(k)) for m, k in e.t if not m]
            if len(e.t) > 1 and c:
                c = [c[0] / max(abs(float(k)) for m, k in e.t if m)]
            if len(e.t) > 1 and c and not X.is_int(e) and (1e-13 <= c[0] <= 0.05 or 50 < c[0] < 1e6):
                out.add(c[0])

    for e in terms:
        term(e)
    return sorted(out)[:3]


def differ(ea, eb, axes, facts, n=5):
    """A distinguishing valuation: (description, value a, value b); None if there is
    none among the samples.  `axes` are the index variables with their ranges."""
    tried = 0
    vals = valuations(facts, 2*n + 2 if ZEROS else n)
    for c in thresholds(ea, eb):
        # data of the size of an absolute threshold
        v = Valuation(7, scale=0.6*c)
        try:
            if satisfies(v, {a: t for a, t in facts.items() if not a.fv}):
                vals.append(v)
        except (NoValue, OverflowError, RecursionError):
            pass
    for v in vals:
        try:
            ranges = [v.int_(ax.args[1], {}) for ax in axes]
            idxs = [()]
            for r in ranges:
                idxs = [i + (k,) for i in idxs for k in range(r)]
            if len(idxs) > 400:
                idxs = idxs[:400]
            for idx in idxs:
                env = dict(zip(axes, idx))
                a = value(v, ea, env)
                b = value(v, eb, env)
                if a is None or b is None:
                    if v.low_rank and (a is None) != (b is None):
                        return ("sizes %s, entry %s, rank-one leaves drawn with seed %d" % (
                            dict(v.dims), list(idx), v.seed), float("inf") if a is None else a,
                            float("inf") if b is None else b)
                    raise NoValue("infinite")
                tol = 1e-6 * max(1.0, abs(a), abs(b)) if v.scale == 1.0 else 1e-4 * max(abs(a), abs(b)) + 1e-13
                if v.scale > 1.0:
                    tol += 1e-10 * v.peak
                if not (abs(a - b) <= tol):
                    return ("sizes %s, entry %s, leaves drawn with seed %d" % (dict(v.dims), list(idx), v.seed),
                            a, b)
            tried += 1
        except NoValue:
            continue
        except (OverflowError, RecursionError, ZeroDivisionError):
            continue
    return None
