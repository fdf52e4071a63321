"""Whole-package reference analysis: names, imports, attributes, call signatures, definite assignment.

Everything is read from the source text of the package (and, for members of numpy/scipy/h5py, from the
stubs and sources of the installed versions); nothing of the package is imported or run.
"""
import ast
import builtins
import glob
import os
import re
import symtable
import sys


class Module:
    def __init__(self, name, path, tree, src, package):
        self.name, self.path, self.tree, self.src, self.package = name, path, tree, src, package
        self.ns = {}            # name -> symbol
        self.all = None
        self.done = False


class Cls:
    def __init__(self, mod, node):
        self.mod, self.node, self.name = mod, node, node.name
        self.bases = []         # Cls
        self.open = False       # has a base whose members are unknown
        self.methods = {}       # name -> Func
        self.members = set()
        self.consts = {}        # class-level name -> value node
        self.inst = {}          # instance attribute -> list of (Func, value node or None)
        self.subs = []

    @property
    def qual(self):
        return self.mod.name + "." + self.name

    def mro(self):
        out = [self]
        rest = [b.mro() for b in self.bases]
        for seq in rest:
            for c in seq:
                if c in out:
                    out.remove(c)       # later base wins the later position (C3 for simple diamonds)
                out.append(c)
        return out

    def is_open(self):
        return any(c.open for c in self.mro())

    def find(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
            if name in c.members:
                return None
        return None

    def has(self, name):
        return any(name in c.members or name in c.inst for c in self.mro()) or hasattr(object, name)

    def abstract(self):
        todo = set()
        for c in self.mro():
            todo |= {m for m, f in c.methods.items() if f.is_abstract}
        return {m for m in todo if (self.find(m) is not None and self.find(m).is_abstract)}

    def all_subs(self):
        out = [self]
        for s in self.subs:
            out += [x for x in s.all_subs() if x not in out]
        return out


KNOWN_DECOS = {"staticmethod", "classmethod", "property", "abstractmethod", "abstractclassmethod",
               "abstractproperty", "abstractstaticmethod", "cached_property", "contextmanager"}


class Func:
    def __init__(self, mod, node, cls=None, outer=""):
        self.mod, self.node, self.cls = mod, node, cls
        self.name = node.name
        self.qual = mod.name + "." + outer + node.name
        names = []
        self.opaque = False
        for d in node.decorator_list:
            t = d.func if isinstance(d, ast.Call) else d
            n = t.attr if isinstance(t, ast.Attribute) else t.id if isinstance(t, ast.Name) else "?"
            names.append(n)
            if n not in KNOWN_DECOS and n not in ("setter", "getter", "deleter", "wraps"):
                self.opaque = True
        self.is_abstract = any(n.startswith("abstract") for n in names)
        self.kind = ("static" if "staticmethod" in names or "abstractstaticmethod" in names else
                     "class" if "classmethod" in names or "abstractclassmethod" in names else
                     "property" if {"property", "abstractproperty", "cached_property", "setter", "getter",
                                    "deleter"} & set(names) else
                     "method" if cls else "function")
        if self.name in ("__new__", "__init_subclass__", "__class_getitem__"):
            self.kind = "class"

    @property
    def self_name(self):
        a = self.node.args
        ps = a.posonlyargs + a.args
        return ps[0].arg if ps and self.cls and self.kind != "static" else None

    def fits(self, call, bound):
        """None if the call's arguments can be bound to the parameters, else why not."""
        if self.opaque:
            return None
        a = self.node.args
        ps = [p.arg for p in a.posonlyargs + a.args]
        n_po = len(a.posonlyargs)
        if bound:
            ps = ps[1:]
            n_po = max(0, n_po - 1)
        pos = [x for x in call.args if not isinstance(x, ast.Starred)]
        star = len(pos) < len(call.args)
        kws = [k.arg for k in call.keywords if k.arg is not None]
        dstar = len(kws) < len(call.keywords)
        if len(pos) > len(ps) and not a.vararg:
            return "%d positional arguments, %s takes %d" % (len(pos), self.qual, len(ps))
        given = set(ps[:len(pos)])
        kwonly = [p.arg for p in a.kwonlyargs]
        for k in kws:
            if k in given:
                return "argument %r is given twice to %s" % (k, self.qual)
            if k not in kwonly and k not in ps[n_po:] and not a.kwarg:
                return "%s takes no argument %r" % (self.qual, k)
        if star or dstar:
            return None
        need = ps[:len(ps) - len(a.defaults)] if a.defaults else ps
        for p in need:
            if p not in given and p not in kws:
                return "required argument %r of %s is not given" % (p, self.qual)
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is None and p.arg not in kws:
                return "required argument %r of %s is not given" % (p.arg, self.qual)
        return None


# ------------------------------------------------------------------ external packages

class External:
    """Members of installed packages, read from their stubs/sources."""

    def __init__(self):
        cands = []
        for pat in ("/opt/venv/lib/python3*/site-packages", "/opt/veriftools/pyvenv/lib/python3*/site-packages"):
            cands += sorted(glob.glob(pat))
        self.roots = [c for c in cands if os.path.isdir(os.path.join(c, "numpy"))][:1]
        self.cache = {}

    def exists(self, dotted):
        """True/False if known, None if nothing is known about the package."""
        top = dotted.split(".")[0]
        if top in sys.stdlib_module_names:
            return True
        if not self.roots:
            return None
        return self.file(dotted) is not None or os.path.isdir(os.path.join(self.roots[0], *dotted.split("."))) or \
            bool(glob.glob(os.path.join(self.roots[0], *dotted.split(".")) + ".*.so"))

    def file(self, dotted):
        base = os.path.join(self.roots[0], *dotted.split("."))
        for f in (os.path.join(base, "__init__.pyi"), base + ".pyi", os.path.join(base, "__init__.py"), base + ".py"):
            if os.path.isfile(f):
                return f
        return None

    def members(self, dotted, depth=0):
        """{name: node or None} of an external module, or None if they cannot be told."""
        if dotted in self.cache:
            return self.cache[dotted]
        self.cache[dotted] = None
        if not self.roots or depth > 6:
            return None
        f = self.file(dotted)
        if f is None:
            return None
        try:
            tree = ast.parse(open(f, encoding="utf-8").read())
        except (SyntaxError, OSError, UnicodeDecodeError):
            return None
        is_pkg = os.path.basename(f).startswith("__init__")
        out = {}
        unknown = False

        def walk(body):
            nonlocal unknown
            for s in body:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    if isinstance(s, ast.FunctionDef) and s.name in out and isinstance(out[s.name], list):
                        out[s.name].append(s)
                    else:
                        out[s.name] = [s]
                elif isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                    ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                    for t in ts:
                        for n in ast.walk(t):
                            if isinstance(n, ast.Name):
                                out.setdefault(n.id, None)
                elif isinstance(s, ast.Import):
                    for al in s.names:
                        out[(al.asname or al.name).split(".")[0]] = None
                elif isinstance(s, ast.ImportFrom):
                    base = dotted.split(".")
                    if s.level:
                        base = base[:len(base) - s.level + (1 if is_pkg else 0)]
                        base = ".".join(base + ([s.module] if s.module else []))
                    else:
                        base = s.module
                    for al in s.names:
                        if al.name == "*":
                            m = self.members(base, depth + 1)
                            if m is None:
                                unknown = True
                            else:
                                out.update(m)
                        else:
                            m = self.members(base, depth + 1)
                            out[al.asname or al.name] = (m or {}).get(al.name)
                elif isinstance(s, (ast.If, ast.Try, ast.With, ast.For)):
                    walk(getattr(s, "body", []))
                    walk(getattr(s, "orelse", []))
                    walk(getattr(s, "finalbody", []))
                    for h in getattr(s, "handlers", []):
                        walk(h.body)
        walk(tree.body)
        if "__getattr__" in out:
            unknown = True
        if is_pkg:
            d = os.path.dirname(f)
            for g in os.listdir(d):
                n = g.split(".")[0]
                if g.endswith((".py", ".pyi", ".so")) or os.path.isfile(os.path.join(d, g, "__init__.py")):
                    out.setdefault(n, None)
        r = out
        if unknown and dotted.split(".")[0] not in ("numpy", "scipy"):
            r = None
        self.cache[dotted] = r
        return r


def universe(ext):
    """Attribute names that some object from outside the package may have."""
    import argparse, collections, datetime, io, pathlib, re, tempfile, threading, time, random, logging, types, decimal, fractions, itertools, functools  # noqa: E401
    out = set()
    for t in (int, float, complex, str, bytes, bytearray, list, tuple, dict, set, frozenset, slice, range, type, object,
              property, Exception, OSError, StopIteration, KeyError, ImportError, UnicodeError, memoryview,
              pathlib.Path, pathlib.PurePath, io.TextIOWrapper, io.BufferedReader, io.BytesIO, io.StringIO, re.Pattern,
              re.Match, datetime.datetime, datetime.timedelta, datetime.date, collections.OrderedDict, collections.Counter,
              collections.deque, collections.defaultdict, threading.Lock, threading.Thread, random.Random, logging.Logger,
              argparse.ArgumentParser, argparse.Namespace, types.FunctionType, types.MethodType, types.ModuleType,
              types.GeneratorType, types.SimpleNamespace, types.TracebackType, decimal.Decimal, fractions.Fraction,
              functools.partial, type(itertools.chain()), tempfile.TemporaryDirectory, sys, os, os.path, time, os.stat_result):
        out |= set(dir(t))
    out |= {"filename", "errno", "value", "args", "__name__", "__qualname__", "__dict__", "__wrapped__", "environ",
            "x", "fun", "success", "message", "nit", "nfev", "jac", "status"}       # scipy.optimize results
    for dotted in ("numpy", "numpy.random.mtrand", "numpy.random._generator", "numpy.linalg", "numpy.ma", "scipy.sparse",
                   "scipy.linalg", "scipy.optimize"):
        m = ext.members(dotted)
        for n, nodes in (m or {}).items():
            out.add(n)
            for c in nodes or []:
                if isinstance(c, ast.ClassDef):
                    for s in ast.walk(c):
                        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                            out.add(s.name)
                        elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                            out.add(s.target.id)
                        elif isinstance(s, ast.Assign):
                            out |= {t.id for t in s.targets if isinstance(t, ast.Name)}
    for root in ext.roots:
        files = glob.glob(os.path.join(root, "h5py/_hl/*.py"))
        sp = glob.glob(os.path.join(root, "scipy/sparse/_base.py"))
        for f in files + sp:
            try:
                tree = ast.parse(open(f, encoding="utf-8").read())
            except (SyntaxError, OSError):
                continue
            for s in ast.walk(tree):
                if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    out.add(s.name)
                elif isinstance(s, ast.Attribute) and isinstance(s.ctx, ast.Store):
                    out.add(s.attr)
                elif isinstance(s, ast.Assign):
                    out |= {t.id for t in s.targets if isinstance(t, ast.Name)}
    return out


# ------------------------------------------------------------------ the package

class Package:
    def __init__(self, root, package="tenkit", skip=("tests",)):
        self.mods = {}
        self.problems = []          # (rule, construct, detail)
        self.counts = {}            # what was looked at
        self.ext = External()
        self.universe = universe(self.ext)
        top = os.path.join(root, package)
        for d, dirs, files in os.walk(top):
            dirs[:] = sorted(x for x in dirs if x not in skip and x != "__pycache__")
            for f in sorted(files):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, root)[:-3].split(os.sep)
                    is_pkg = rel[-1] == "__init__"
                    name = ".".join(rel[:-1] if is_pkg else rel)
                    src = open(p, encoding="utf-8", newline=None).read()
                    self.mods[name] = Module(name, p, ast.parse(src), src, name if is_pkg else name.rpartition(".")[0])
        self.classes, self.funcs = [], []
        for m in self.mods.values():
            self.collect(m)
        for m in self.mods.values():
            self.resolve_imports(m)
        for c in self.classes:
            self.link(c)
        self.func_of = {f.node: f for f in self.funcs}
        self.own_attrs = set()
        for c in self.classes:
            self.own_attrs |= c.members | set(c.inst)
        for m in self.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    self.own_attrs.add(n.attr)
                if isinstance(n, ast.Call) and (getattr(n.func, "id", None) or getattr(n.func, "attr", None)) in (
                        "namedtuple", "SimpleNamespace", "make_dataclass", "type", "update", "attrgetter", "methodcaller", "partial"):
                    for x in ast.walk(n):
                        if isinstance(x, ast.Constant) and isinstance(x.value, str):
                            self.own_attrs |= set(x.value.replace(",", " ").split())
                        elif isinstance(x, ast.keyword) and x.arg:
                            self.own_attrs.add(x.arg)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("setattr", "hasattr", "getattr"):
                    for a in n.args[1:2]:
                        if isinstance(a, ast.Constant):
                            self.own_attrs.add(a.value)
        self.method_table = {}
        for c in self.classes:
            for n, f in c.methods.items():
                self.method_table.setdefault(n, []).append(f)
        self._types = {}
        self._busy = set()
        self._raising = None
        self._made = None

    def bad(self, rule, where, detail, key=None):
        """key: what is wrong without line numbers and spelling, so that it names the same defect after edits."""
        p = (rule, where, key or re.sub(r"line \d+:? ?", "", detail), detail)
        if p not in self.problems:
            self.problems.append(p)

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    # -- collection
    def collect(self, m):
        def top(body):
            for s in body:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = Func(m, s)
                    self.funcs.append(f)
                    m.ns[s.name] = ("func", f)
                    self.nested(m, s, s.name + ".")
                elif isinstance(s, ast.ClassDef):
                    c = Cls(m, s)
                    self.classes.append(c)
                    m.ns[s.name] = ("class", c)
                elif isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                    ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                    for t in ts:
                        for n in ast.walk(t):
                            if isinstance(n, ast.Name):
                                m.ns[n.id] = ("value", s.value)
                        if isinstance(t, ast.Name) and t.id == "__all__":
                            try:
                                m.all = list(ast.literal_eval(s.value))
                            except ValueError:
                                pass
                elif isinstance(s, (ast.Import, ast.ImportFrom)):
                    pass
                else:
                    for n in ast.walk(s):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                            m.ns.setdefault(n.id, ("value", None))
                    for part in ("body", "orelse", "finalbody"):
                        top(getattr(s, part, []) if not isinstance(s, ast.Expr) else [])
                    for h in getattr(s, "handlers", []):
                        top(h.body)
        top(m.tree.body)

    def nested(self, m, node, outer):
        for s in ast.walk(node):
            if s is not node and isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(m, s, None, outer)
                self.funcs.append(f)

    def absolute(self, m, s):
        if not s.level:
            return s.module
        parts = m.package.split(".")
        parts = parts[:len(parts) - (s.level - 1)]
        return ".".join(parts + ([s.module] if s.module else []))

    def in_package(self, dotted):
        return dotted.split(".")[0] in {n.split(".")[0] for n in self.mods}

    def resolve_imports(self, m):
        if m.done:
            return
        m.done = True
        for s in ast.walk(m.tree):
            if isinstance(s, ast.Import):
                for al in s.names:
                    self.count("imports")
                    if self.in_package(al.name):
                        if al.name not in self.mods:
                            self.bad("import", m.name, "line %d imports %s, which is no module of the package" % (s.lineno, al.name))
                    elif self.ext.exists(al.name) is False:
                        self.bad("import", m.name, "imports %s, but there is no such module" % al.name)
                    if al.asname:
                        m.ns[al.asname] = ("module", al.name)
                    else:
                        m.ns[al.name.split(".")[0]] = ("module", al.name.split(".")[0])
            elif isinstance(s, ast.ImportFrom):
                base = self.absolute(m, s)
                if not self.in_package(base):
                    if self.ext.exists(base) is False:
                        self.bad("import", m.name, "imports from %s, but there is no such module" % base)
                    mem = self.ext.members(base)
                    for al in s.names:
                        self.count("imports")
                        if al.name == "*":
                            for n in mem or ():
                                m.ns.setdefault(n, ("ext", base + "." + n))
                            if mem is None:
                                m.ns["*"] = ("value", None)
                            continue
                        if mem is not None and al.name not in mem and base.split(".")[0] in ("numpy", "scipy", "h5py"):
                            self.bad("import", m.name, "imports %s from %s, which has no such member" % (al.name, base))
                        m.ns[al.asname or al.name] = ("ext", base + "." + al.name)
                    continue
                if base not in self.mods:
                    self.bad("import", m.name, "imports from %s, which is no module of the package" % base)
                    for al in s.names:
                        m.ns.setdefault(al.asname or al.name, ("value", None))
                    continue
                t = self.mods[base]
                self.resolve_imports(t)
                for al in s.names:
                    self.count("imports")
                    if al.name == "*":
                        names = t.all if t.all is not None else [n for n in t.ns if not n.startswith("_")]
                        for n in names:
                            if n in t.ns:
                                m.ns.setdefault(n, t.ns[n])
                            elif t.all is not None and base + "." + n not in self.mods:
                                self.bad("import", t.name, "__all__ lists %r, which the module does not define" % n)
                        continue
                    sub = base + "." + al.name
                    if al.name in t.ns and t is not m:
                        m.ns[al.asname or al.name] = t.ns[al.name]
                    elif sub in self.mods:
                        m.ns[al.asname or al.name] = ("module", sub)
                        t.ns.setdefault(al.name, ("module", sub))
                    else:
                        self.bad("import", m.name, "imports %s from %s, which does not define it" % (al.name, base))
                        m.ns.setdefault(al.asname or al.name, ("value", None))
        # importing a.b.c binds c in a.b
        for n in self.mods:
            if n.rpartition(".")[0] == m.name:
                m.ns.setdefault(n.rpartition(".")[2], ("module", n))
        if m.all is not None:
            for n in m.all:
                self.count("__all__ entries")
                if n not in m.ns:
                    self.bad("import", m.name, "__all__ lists %r, which the module does not define" % n)

    def link(self, c):
        for b in c.node.bases:
            s = self.static(c.mod, b)
            if s and s[0] == "class":
                c.bases.append(s[1])
                s[1].subs.append(c)
            elif s and s[0] == "ext" and s[1] in ("abc.ABC",):
                pass
            elif isinstance(b, ast.Name) and b.id in ("object",):
                pass
            else:
                c.open = True
        if c.node.decorator_list:
            c.open = True
        for k in c.node.keywords:
            if k.arg != "metaclass":
                c.open = True

        def body(stmts):
            for s in stmts:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = Func(c.mod, s, c, c.name + ".")
                    self.funcs.append(f)
                    if not any(isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter") for d in s.decorator_list):
                        c.methods[s.name] = f
                    c.members.add(s.name)
                    self.nested(c.mod, s, c.name + "." + s.name + ".")
                elif isinstance(s, ast.ClassDef):
                    c.members.add(s.name)
                elif isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                    ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                    for t in ts:
                        for n in ast.walk(t):
                            if isinstance(n, ast.Name):
                                c.members.add(n.id)
                                c.consts[n.id] = s.value
                else:
                    for n in ast.walk(s):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                            c.members.add(n.id)
                    for part in ("body", "orelse", "finalbody"):
                        body(getattr(s, part, []) if not isinstance(s, ast.Expr) else [])
        body(c.node.body)
        for name in ("__slots__",):
            if name in c.consts:
                try:
                    c.members |= set(ast.literal_eval(c.consts[name]))
                except (ValueError, TypeError):
                    c.open = True
        if "__getattr__" in c.methods or "__getattribute__" in c.methods:
            c.open = True
        for f in c.methods.values():
            sn = f.self_name
            if sn is None:
                continue
            made = {sn}
            for n in ast.walk(f.node):       # objects of the class made in its own methods
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and \
                        isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id in (sn, c.name):
                    made.add(n.targets[0].id)
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and \
                        n.value.id in made:
                    c.inst.setdefault(n.attr, [])
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id in made:
                            c.inst.setdefault(t.attr, []).append((f, n.value))
                        elif isinstance(t, (ast.Tuple, ast.List)):
                            for x in ast.walk(t):
                                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id in made:
                                    c.inst.setdefault(x.attr, []).append((f, None))
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) > 1:
                    if isinstance(n.args[0], ast.Name) and n.args[0].id == sn:
                        if isinstance(n.args[1], ast.Constant):
                            c.inst.setdefault(n.args[1].value, []).append((f, None))
                        else:
                            c.open = True
                if isinstance(n, ast.Attribute) and n.attr == "__dict__" and isinstance(n.value, ast.Name) and n.value.id == sn:
                    c.open = True
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "vars":
                    c.open = True

    # -- static resolution of module-level expressions
    def member(self, sym, name):
        """Symbol of sym.name; None unknown; 'missing'."""
        kind, x = sym
        if kind == "module":
            if x in self.mods:
                m = self.mods[x]
                if name in m.ns:
                    return m.ns[name]
                if x + "." + name in self.mods:
                    return ("module", x + "." + name)
                if name in ("__name__", "__file__", "__doc__", "__path__", "__dict__", "__all__", "__package__", "__spec__"):
                    return None
                return None if "*" in m.ns or "__getattr__" in m.ns else "missing"
            mem = self.ext.members(x) if x.split(".")[0] not in sys.stdlib_module_names else None
            if mem is None:
                return None
            if name not in mem and not name.startswith("__"):
                return "missing"
            if self.ext.file(x + "." + name) and not mem.get(name):
                return ("module", x + "." + name)
            return ("ext", x + "." + name)
        return None

    def static(self, m, e):
        if isinstance(e, ast.Name):
            return m.ns.get(e.id)
        if isinstance(e, ast.Attribute):
            s = self.static(m, e.value)
            if s is None:
                return None
            r = self.member(s, e.attr)
            return None if r == "missing" else r
        return None

    # -- light-weight types: a set of classes an expression may be an instance of; None = unknown
    def locals_of(self, f):
        key = ("locals", f.node)
        if key not in self._types:
            out = {}
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    out.setdefault(n.targets[0].id, []).append(n.value)
                elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    out.setdefault(n.id, [])
            stores = {}
            for n in ast.walk(f.node):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    stores[n.id] = stores.get(n.id, 0) + 1
            for n in list(out):
                if len(out[n]) != stores.get(n, 0):
                    out[n] = None
            a = f.node.args
            for p in a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x]:
                out[p.arg] = None
            self._types[key] = out
        return self._types[key]

    def klass(self, e, f, D):
        """The class an expression denotes (as a class object), or None."""
        if isinstance(e, ast.Name):
            if f.cls and e.id == f.self_name and f.kind == "class":
                return D
            loc = self.locals_of(f)
            if e.id in loc:
                vs = loc[e.id]
                if vs and len(vs) == 1 and ("k", f.node, e.id) not in self._busy:
                    self._busy.add(("k", f.node, e.id))
                    try:
                        return self.klass(vs[0], f, D)
                    finally:
                        self._busy.discard(("k", f.node, e.id))
                return None
        s = self.static(f.mod, e)
        if s and s[0] == "class":
            return s[1]
        if isinstance(e, ast.Attribute):
            for t in self.types(e.value, f, D) or ():
                for c in t.mro():
                    if e.attr in c.consts and e.attr not in c.inst:
                        s = self.static(c.mod, c.consts[e.attr])
                        if s and s[0] == "class":
                            return s[1]
                        return None
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "type" and len(e.args) == 1:
            ts = self.types(e.args[0], f, D)
            if ts and len(ts) == 1:
                return list(ts)[0]
        return None

    def types(self, e, f, D, depth=0):
        if depth > 8 or e is None:
            return None
        if isinstance(e, ast.Name):
            if f.cls and e.id == f.self_name and f.kind != "class":
                return {D}
            vs = self.locals_of(f).get(e.id)
            if not vs:
                return None
            out = set()
            for v in vs:
                if ("t", f.node, e.id, D) in self._busy:
                    return None
                self._busy.add(("t", f.node, e.id, D))
                try:
                    t = self.types(v, f, D, depth + 1)
                finally:
                    self._busy.discard(("t", f.node, e.id, D))
                if t is None:
                    return None
                out |= t
            return out
        if isinstance(e, ast.Call):
            k = self.klass(e.func, f, D)
            if k is not None:
                return {k}
            g = self.callee(e.func, f, D)
            if g is not None:
                g, bound, E = g
                return self.returns(g, E, depth + 1)
            if isinstance(e.func, ast.Name) and e.func.id in ("deepcopy", "copy") or \
                    isinstance(e.func, ast.Attribute) and e.func.attr in ("deepcopy",):
                return self.types(e.args[0], f, D, depth + 1) if e.args else None
            return None
        if isinstance(e, ast.Attribute):
            ts = self.types(e.value, f, D, depth + 1)
            if not ts:
                return None
            out = set()
            for t in ts:
                g = t.find(e.attr)
                if g is not None:
                    if g.kind == "property":
                        r = self.returns(g, t, depth + 1)
                        out |= r or set()
                    continue
                for c in t.mro():
                    for h, v in c.inst.get(e.attr, ()):
                        if ("a", t, e.attr, depth) in self._busy or depth > 5:
                            continue
                        self._busy.add(("a", t, e.attr, depth))
                        try:
                            r = self.types(v, h, t, depth + 1) if v is not None else None
                        finally:
                            self._busy.discard(("a", t, e.attr, depth))
                        out |= r or set()
            return out or None
        if isinstance(e, ast.IfExp):
            a, b = self.types(e.body, f, D, depth + 1), self.types(e.orelse, f, D, depth + 1)
            return a | b if a and b else None
        return None

    def returns(self, g, E, depth):
        key = ("ret", g.node, E)
        if key in self._busy or depth > 6:
            return None
        self._busy.add(key)
        try:
            out = set()
            for n in ast.walk(g.node):
                if isinstance(n, ast.Return):
                    if n.value is None:
                        return None
                    t = self.types(n.value, g, E, depth + 1)
                    if t is None:
                        return None
                    out |= t
            return out or None
        finally:
            self._busy.discard(key)

    def callee(self, e, f, D):
        """(function, is the first parameter bound, class it runs for) of a call target, or None."""
        if isinstance(e, ast.Name) and e.id in self.locals_of(f):
            return None
        s = self.static(f.mod, e)
        if s and s[0] == "func":
            return s[1], False, None
        if isinstance(e, ast.Attribute):
            v = e.value
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super" and f.cls and D:
                mro = D.mro()
                if f.cls in mro:
                    for c in mro[mro.index(f.cls) + 1:]:
                        if e.attr in c.methods:
                            g = c.methods[e.attr]
                            return g, g.kind != "static", D
                return None
            ts = self.types(v, f, D)
            if ts and len(ts) == 1:
                t = list(ts)[0]
                g = t.find(e.attr)
                if g is not None and g.kind != "property" and not any(e.attr in c.inst for c in t.mro()):
                    return g, g.kind != "static", t
                return None
            if ts is None:
                k = self.klass(v, f, D)
                if k is not None:
                    g = k.find(e.attr)
                    if g is not None and g.kind != "property":
                        return g, g.kind == "class", k
        return None

    # -- the rules
    def concrete(self, c):
        """The classes objects running c's methods can have: not abstract, and either a leaf, exported, or made somewhere."""
        if self._made is None:
            self._made = set()
            for m in self.mods.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Call):
                        s = self.static(m, n.func)
                        if s and s[0] == "class":
                            self._made.add(s[1])
        r = [d for d in c.all_subs() if not d.abstract() and (not d.subs or d in self._made or (
            d.name in d.mod.all if d.mod.all is not None else not d.name.startswith("_")))]
        return r or [c]

    def live(self, f, D):
        """Can f run for an object of class D?"""
        if f.cls is None:
            return True
        for c in D.mro():
            g = c.methods.get(f.name)
            if g is None:
                continue
            if g is f:
                return True
            up = any(isinstance(n, ast.Attribute) and n.attr == f.name and (
                isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == "super" or
                isinstance(n.value, ast.Name) and n.value.id != g.self_name) for h in c.methods.values() for n in ast.walk(h.node))
            if not up:
                return False
        return False

    def check_names(self, m):
        if "*" in m.ns:
            return
        known = set(m.ns) | set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__package__", "__spec__", "__path__",
                                                 "__class__", "__annotations__", "__all__"}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                known |= set(n.names)
        table = symtable.symtable(m.src, m.path, "exec")

        def lines(node_name, t):
            lo = t.get_lineno()
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Name) and n.id == node_name and n.lineno >= lo:
                    return n.lineno
            return lo

        idle = set()
        for f in self.funcs:
            if f.mod is m:
                idle |= self.dead_nodes(f)
                if f not in self.live_set:
                    idle |= set(ast.walk(f.node))
        scopes = {}
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                scopes[(n.name, n.lineno)] = n

        def walk(t, qual, used=None):
            here = qual if t.get_type() in ("module",) else qual + "." + t.get_name()
            node = m.tree if t.get_type() == "module" else scopes.get((t.get_name(), t.get_lineno()))
            if node is not None:
                used = {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and n not in idle}
            for s in t.get_symbols():
                if not s.is_referenced() or s.get_name() not in used:
                    continue
                self.count("names")
                if (s.is_global() or t.get_type() == "module") and s.get_name() not in known:
                    self.bad("name", here, "line %d refers to the name %r, which is not defined anywhere" % (
                        lines(s.get_name(), t), s.get_name()))
            for c in t.get_children():
                walk(c, here if t.get_type() != "module" else m.name, used)
        walk(table, m.name)

    def guarded(self, f):
        """Names tested by hasattr/getattr or under `except AttributeError`: not required to exist."""
        out = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("hasattr", "getattr") and len(n.args) > 1:
                if isinstance(n.args[1], ast.Constant):
                    out.add(n.args[1].value)
            if isinstance(n, ast.Try) and any(h.type is None or "AttributeError" in ast.dump(h.type) or
                                              "'Exception'" in ast.dump(h.type) or "NameError" in ast.dump(h.type) for h in n.handlers):
                for s in n.body:
                    for x in ast.walk(s):
                        if isinstance(x, ast.Attribute):
                            out.add(x.attr)
        return out

    def nodes(self, f):
        """Nodes of a function without those of functions nested in it."""
        todo = list(ast.iter_child_nodes(f.node))
        while todo:
            n = todo.pop()
            yield n
            if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                todo += ast.iter_child_nodes(n)

    def check_function(self, f):
        guarded = self.guarded(f)
        loc = self.locals_of(f)
        Ds = [D for D in self.concrete(f.cls) if self.live(f, D)] if f.cls else [None]
        if not Ds:
            self.count("functions overridden everywhere")
            return
        local_defs = {n.name for n in ast.walk(f.node) if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not f.node}
        outer_locals = set()
        for g in self.funcs:            # names of enclosing functions
            if g is not f and g.node.lineno <= f.node.lineno and f.node.end_lineno <= g.node.end_lineno and g.mod is f.mod:
                outer_locals |= set(self.locals_of(g))
        shadow = set(loc) | local_defs | outer_locals

        def root(e):
            while isinstance(e, ast.Attribute):
                e = e.value
            return e.id if isinstance(e, ast.Name) else None
        dead = self.dead_nodes(f)
        for n in self.nodes(f):
            if n in dead:
                continue
            if isinstance(n, ast.Attribute):
                self.count("attribute references")
                if not isinstance(n.ctx, ast.Load) or n.attr in guarded:
                    continue
                where = f.qual
                if root(n) not in shadow:
                    s = self.static(f.mod, n.value)
                    if s and s[0] == "module":
                        if self.member(s, n.attr) == "missing":
                            self.bad("attribute", where, "line %d uses %s, but module %s has no member %r" % (
                                n.lineno, ast.unparse(n), s[1], n.attr))
                        continue
                    if s and s[0] == "class":
                        c = s[1]
                        if not c.is_open() and not c.has(n.attr) and n.attr not in dir(type):
                            self.bad("attribute", where, "line %d uses %s, but class %s has no attribute %r" % (
                                n.lineno, ast.unparse(n), c.name, n.attr))
                        continue
                told = False
                v = n.value
                for D in Ds:
                    if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super" and f.cls:
                        mro = D.mro()
                        up = mro[mro.index(f.cls) + 1:]
                        told = True
                        if not any(c.open for c in up) and not any(n.attr in c.members for c in up) and not hasattr(object, n.attr):
                            self.bad("attribute", where, "line %d uses super().%s, but no base class of %s (for %s objects) defines it" % (
                                n.lineno, n.attr, f.cls.name, D.name))
                            break
                        continue
                    if f.cls and isinstance(v, ast.Name) and v.id == f.self_name and loc.get(v.id, 0) is None:
                        told = True
                        if not D.is_open() and not D.has(n.attr) and not (f.kind == "class" and n.attr in dir(type)):
                            self.bad("attribute", where, "line %d uses %s.%s, but %s objects have no such attribute" % (
                                n.lineno, v.id, n.attr, D.name))
                            break
                        continue
                    ts = self.types(v, f, D)
                    if ts:
                        told = True
                        if not any(t.is_open() or t.has(n.attr) for t in ts):
                            self.bad("attribute", where, "line %d uses %s, but %s objects have no attribute %r" % (
                                n.lineno, ast.unparse(n), "/".join(sorted(t.name for t in ts)), n.attr))
                            break
                if not told and n.attr not in self.universe and n.attr not in self.own_attrs:
                    self.bad("attribute", where, "line %d uses %s, but nothing in the package or the libraries it uses has an "
                             "attribute %r" % (n.lineno, ast.unparse(n)[:80], n.attr))
            elif isinstance(n, ast.Call):
                self.count("calls")
                fn = n.func
                if isinstance(fn, ast.Attribute) and fn.attr in guarded:
                    continue
                hit = False
                for D in Ds:
                    if root(fn) in (local_defs | outer_locals):
                        hit = True
                        break
                    k = self.klass(fn, f, D)
                    if k is not None:
                        hit = True
                        if k.is_open():
                            break
                        g = k.find("__init__")
                        if g is None:
                            why = "%s() takes no arguments" % k.name if (n.args or n.keywords) and k.find("__new__") is None else None
                        else:
                            why = g.fits(n, True)
                        if why is None and k.abstract() and k is not f.cls:
                            if not (isinstance(fn, ast.Attribute) or k in Ds):
                                why = "%s is abstract (%s)" % (k.name, ", ".join(sorted(k.abstract())))
                        if why:
                            self.bad("call", f.qual, "line %d: %s: %s" % (n.lineno, ast.unparse(n)[:80], why), why)
                            break
                        continue
                    r = self.callee(fn, f, D)
                    if r is not None:
                        hit = True
                        g, bound, E = r
                        why = g.fits(n, bound)
                        if why:
                            self.bad("call", f.qual, "line %d: %s: %s%s" % (
                                n.lineno, ast.unparse(n)[:80], why, " (for %s objects)" % D.name if D else ""), why)
                            break
                if hit:
                    continue
                if isinstance(fn, ast.Attribute) and root(fn) not in shadow:
                    s = self.static(f.mod, fn)
                    if s and s[0] == "ext":
                        base, _, name = s[1].rpartition(".")
                        nodes = (self.ext.members(base) or {}).get(name)
                        if nodes and all(isinstance(x, ast.FunctionDef) for x in nodes) and base.startswith("numpy"):
                            self.count("calls of library functions")
                            ok = False
                            why = None
                            for x in nodes:
                                g = Func(f.mod, x)
                                g.qual = s[1]
                                g.opaque = False
                                w = g.fits(n, False)
                                if w is None:
                                    ok = True
                                    break
                                if "takes no argument" in w or "positional arguments" in w:
                                    why = w
                                else:
                                    ok = True
                            if not ok:
                                self.bad("call", f.qual, "line %d: %s: %s" % (n.lineno, ast.unparse(n)[:80], why))
                        continue
                    if self.static(f.mod, fn.value):
                        continue
                if isinstance(fn, ast.Attribute) and fn.attr in self.method_table and fn.attr not in self.universe:
                    # receiver unknown: some method of that name must accept the call
                    whys = [g.fits(n, g.kind != "static") for g in self.method_table[fn.attr] if g.kind != "property"]
                    if whys and all(whys) and not any(fn.attr in c.inst for c in self.classes):
                        self.bad("call", f.qual, "line %d: %s: %s" % (n.lineno, ast.unparse(n)[:80], whys[0]))

    # -- what can run at all
    def dead_nodes(self, f):
        """Nodes of statements that follow a return/raise/break/continue in their block, or `if False`."""
        key = ("dead", f.node)
        if key not in self._types:
            out = set()

            def ends(s):
                if isinstance(s, (ast.Return, ast.Raise, ast.Break, ast.Continue)):
                    return True
                if isinstance(s, ast.If):
                    return bool(s.orelse) and block(s.body) and block(s.orelse)
                return False

            def block(b):
                end = False
                for s in b:
                    if end:
                        out.update(ast.walk(s))
                    else:
                        end = ends(s)
                return end
            for n in [f.node] + list(ast.walk(f.node)):
                for part in ("body", "orelse", "finalbody"):
                    b = getattr(n, part, None)
                    if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                        block(b)
                if isinstance(n, ast.If) and isinstance(n.test, ast.Constant) and not n.test.value:
                    for s in n.body:
                        out.update(ast.walk(s))
            self._types[key] = out
        return self._types[key]

    def live_functions(self):
        """Functions a user can reach: public ones, and those whose name a reachable one mentions."""
        def mentioned(nodes):
            out = set()
            for n in nodes:
                if isinstance(n, ast.Name):
                    out.add(n.id)
                elif isinstance(n, ast.Attribute):
                    out.add(n.attr)
                elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier():
                    out.add(n.value)
            return out
        live, todo = set(), []
        names = set()
        for m in self.mods.values():
            skip = set()
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    for s in n.body:
                        skip.update(ast.walk(s))
            names |= mentioned(n for n in ast.walk(m.tree) if n not in skip)
        by_name = {}
        for f in self.funcs:
            by_name.setdefault(f.name, []).append(f)
            if not f.name.startswith("_") or f.name.startswith("__") and f.name.endswith("__"):
                todo.append(f)
        for n in names:
            todo += by_name.get(n, [])
        while todo:
            f = todo.pop()
            if f in live:
                continue
            live.add(f)
            for n in mentioned(x for x in ast.walk(f.node) if x not in self.dead_nodes(f)):
                todo += by_name.get(n, [])
        return live

    # -- functions that never return normally
    def never_returns(self, call, f):
        if self._raising is None:
            self._raising = {}
            for g in self.funcs:
                r = not g.is_abstract and not any(isinstance(n, (ast.Return, ast.Yield, ast.YieldFrom)) for n in self.nodes(g)) \
                    and isinstance(g.node.body[-1], ast.Raise) and not any(isinstance(n, (ast.If, ast.For, ast.While, ast.Try))
                                                                          for n in g.node.body)
                self._raising.setdefault(g.name, []).append(r)
        fn = call.func
        name = fn.attr if isinstance(fn, ast.Attribute) else fn.id if isinstance(fn, ast.Name) else None
        if name == "exit" or name == "_exit":
            return True
        return name in self._raising and all(self._raising[name])

    def check_locals(self, f):
        self.count("functions checked for definite assignment")
        for name, line in Flow(self, f).run():
            self.bad("local", f.qual, "line %d may read the local variable %r before anything is assigned to it" % (line, name))

    def run(self):
        self.live_set = self.live_functions()
        for m in self.mods.values():
            self.check_names(m)
        for f in self.funcs:
            if f not in self.live_set:
                self.count("functions nothing can reach (skipped)")
                continue
            self.check_function(f)
            self.check_locals(f)
        for c in self.classes:
            self.count("classes")
            if not c.subs and not c.is_open() and c.abstract() and c.bases:
                self.bad("abstract", c.qual, "no %s can be made: %s not implemented" % (c.name, ", ".join(sorted(c.abstract()))))


# ------------------------------------------------------------------ definite assignment

class State:
    __slots__ = ("have", "facts")

    def __init__(self, have, facts):
        self.have, self.facts = have, facts

    def key(self):
        return (self.have, frozenset(self.facts.items()))


def conds(t):
    return ast.dump(t)


class Flow:
    """Forward flow over sets of path states: which locals are assigned, which tests are known."""
    LIMIT = 400

    def __init__(self, pkg, f):
        self.pkg, self.f = pkg, f
        node = f.node
        a = node.args
        self.params = frozenset(p.arg for p in a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x])
        stored, free = set(), set()
        for n in pkg.nodes(f):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                free |= set(n.names)
        comp = set()
        for n in pkg.nodes(f):
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for g in n.generators:
                    for x in ast.walk(g.target):
                        comp.add(x)
        for n in pkg.nodes(f):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and n not in comp:
                stored.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                stored.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                stored |= {(al.asname or al.name).split(".")[0] for al in n.names}
            elif isinstance(n, ast.ExceptHandler) and n.name:
                stored.add(n.name)
            elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                stored.add(n.name)
        self.local = (stored | self.params) - free
        self.track = self.local
        self.found = {}
        self.precise = False

    def run(self):
        self.block(self.f.node.body, [State(self.params, {})])
        if not self.found:
            return []
        self.track = set(n for n, _ in self.found)
        self.found = {}
        self.precise = True
        self.block(self.f.node.body, [State(self.params & frozenset(self.track), {})])
        return sorted(self.found)

    # states
    def join(self, states):
        out = {}
        for s in states:
            out.setdefault(s.key(), s)
        if not self.precise:
            if not out:
                return []
            have = None
            for s in out.values():
                have = s.have if have is None else have & s.have
            return [State(have, {})]
        if len(out) > self.LIMIT:                 # forget the tests
            return list({s.have: State(s.have, {}) for s in out.values()}.values())
        return list(out.values())

    def read(self, e, states):
        """Report reads of unassigned locals in an expression."""
        if e is None:
            return states
        self.visit(e, states, frozenset())
        for n in ast.walk(e):
            if isinstance(n, ast.NamedExpr):
                states = self.write(n.target, states)
        return states

    def visit(self, e, states, bound):
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and e.id in self.track and e.id not in bound:
                for s in states:
                    if e.id not in s.have:
                        self.found[(e.id, e.lineno)] = True
            return
        if isinstance(e, ast.Lambda):
            for d in e.args.defaults + [d for d in e.args.kw_defaults if d]:
                self.visit(d, states, bound)
            return                               # the body runs later
        if isinstance(e, ast.BoolOp):            # later operands are only evaluated if earlier ones let them
            for v in e.values:
                self.visit(v, states, bound)
                yes, no = self.branch(v, self.named(v, states))
                states = yes if isinstance(e.op, ast.And) else no
            return
        if isinstance(e, ast.IfExp):
            self.visit(e.test, states, bound)
            yes, no = self.branch(e.test, self.named(e.test, states))
            self.visit(e.body, yes, bound)
            self.visit(e.orelse, no, bound)
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            b = bound
            for i, g in enumerate(e.generators):
                self.visit(g.iter, states, b if i else bound)
                b = b | {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                for c in g.ifs:
                    self.visit(c, states, b)
                    if not any(isinstance(x, ast.Name) and x.id in b for x in ast.walk(c)):
                        states = self.branch(c, states)[0]
            for p in [e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]:
                self.visit(p, states, b)
            return
        for c in ast.iter_child_nodes(e):
            self.visit(c, states, bound)
            states = self.named(c, states)

    def named(self, e, states):
        for n in ast.walk(e):
            if isinstance(n, ast.NamedExpr):
                states = self.write(n.target, states)
        return states

    def kill(self, facts, names):
        return {k: v for k, v in facts.items() if not any("id='%s'" % n in k for n in names)}

    def write(self, t, states, gone=False):
        names = {n.id for n in ast.walk(t) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))} \
            if isinstance(t, ast.AST) else set(t)
        attrs = {ast.dump(n).replace("Store()", "Load()") for n in ast.walk(t) if isinstance(n, ast.Attribute)
                 and isinstance(n.ctx, ast.Store)} if isinstance(t, ast.AST) else set()
        out = []
        tr = frozenset(names) & frozenset(self.track)
        for s in states:
            facts = self.kill(s.facts, names) if s.facts and names else s.facts
            if attrs and facts:
                facts = {k: v for k, v in facts.items() if not any(a in k for a in attrs)}
            out.append(State(s.have - tr if gone else s.have | tr, facts))
        return out

    # tests
    def constants(self, t):
        """The constants a comparison is with: x == c, x is c, x in (c, d)."""
        c = t.comparators[0]
        if isinstance(t.ops[0], (ast.Eq, ast.Is)) and isinstance(c, ast.Constant):
            return frozenset([repr(c.value)])
        if isinstance(t.ops[0], ast.In) and isinstance(c, (ast.List, ast.Tuple, ast.Set)) and \
                all(isinstance(x, ast.Constant) for x in c.elts):
            return frozenset(repr(x.value) for x in c.elts)
        return None

    def known(self, t, facts):
        if isinstance(t, ast.Constant):
            return bool(t.value)
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            r = self.known(t.operand, facts)
            return None if r is None else not r
        if isinstance(t, ast.BoolOp):
            vs = [self.known(v, facts) for v in t.values]
            stop = isinstance(t.op, ast.Or)
            if stop in vs:
                return stop
            if all(v is (not stop) for v in vs):
                return not stop
            return facts.get(conds(t))
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            op = t.ops[0]
            flip = {ast.NotEq: ast.Eq, ast.IsNot: ast.Is, ast.NotIn: ast.In}
            if type(op) in flip:
                r = self.known(ast.Compare(t.left, [flip[type(op)]()], t.comparators), facts)
                return None if r is None else not r
            r = facts.get(conds(t))
            if r is not None:
                return r
            some = facts.get("value of " + conds(t.left))         # the values it can have
            if some is not None:
                what = self.constants(t)
                if what is not None:
                    if some <= what:
                        return True
                    if not some & what:
                        return False
        return facts.get(conds(t))

    def assume(self, t, truth, facts):
        facts = dict(facts)
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.assume(t.operand, not truth, facts)
        if isinstance(t, ast.BoolOp):
            if truth == isinstance(t.op, ast.And):
                for v in t.values:
                    facts = self.assume(v, truth, facts)
                return facts
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            op = t.ops[0]
            flip = {ast.NotEq: ast.Eq, ast.IsNot: ast.Is, ast.NotIn: ast.In}
            if type(op) in flip:
                return self.assume(ast.Compare(t.left, [flip[type(op)]()], t.comparators), not truth, facts)
            what = self.constants(t)
            if what is not None:
                key = "value of " + conds(t.left)
                if truth:
                    facts[key] = facts.get(key, what) & what
                elif key in facts:
                    facts[key] = facts[key] - what
        facts[conds(t)] = truth
        return facts

    def branch(self, t, states):
        yes, no = [], []
        for s in states:
            r = self.known(t, s.facts)
            if r is not False:
                yes.append(State(s.have, self.assume(t, True, s.facts) if self.precise else {}))
            if r is not True:
                no.append(State(s.have, self.assume(t, False, s.facts) if self.precise else {}))
        return yes, no

    def closed_chain(self, s):
        """An if/elif chain without else that only compares one thing with constants: other values are undocumented."""
        subj, n = None, 0
        while True:
            t = s.test
            ok = isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Eq, ast.In, ast.Is)) and \
                (isinstance(t.comparators[0], ast.Constant) or isinstance(t.comparators[0], (ast.List, ast.Tuple, ast.Set)))
            iso = isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "isinstance" and len(t.args) == 2
            if not ok and not iso:
                return False
            d = conds(t.left if ok else t.args[0])
            if subj not in (None, d):
                return False
            subj = d
            n += 1
            if not s.orelse:
                return n >= 2
            if len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If):
                s = s.orelse[0]
            else:
                return False

    # statements; returns the states that fall through
    def block(self, stmts, states, loop=None, tried=None):
        for s in stmts:
            if not states:
                return []
            if tried is not None:
                tried.extend(states)
            states = self.join(self.stmt(s, states, loop, tried))
        if tried is not None:
            tried.extend(states)
        return states

    def stmt(self, s, states, loop, tried):
        if isinstance(s, ast.Assign):
            states = self.read(s.value, states)
            for t in s.targets:
                self.read_target(t, states)
                states = self.write(t, states)
            if len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Constant) and self.precise:
                t = ast.Name(s.targets[0].id, ast.Load())
                states = [State(x.have, dict(x.facts, **{"value of " + conds(t): frozenset([repr(s.value.value)])})) for x in states]
                if isinstance(s.value.value, bool) or s.value.value is None:
                    states = [State(x.have, dict(x.facts, **{conds(t): bool(s.value.value)})) for x in states]
            return states
        if isinstance(s, ast.AugAssign):
            states = self.read(s.value, states)
            if isinstance(s.target, ast.Name):
                self.read(ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target), states)
            self.read_target(s.target, states)
            return self.write(s.target, states)
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return states
            states = self.read(s.value, states)
            return self.write(s.target, states)
        if isinstance(s, ast.Return):
            self.read(s.value, states)
            return []
        if isinstance(s, ast.Raise):
            self.read(s.exc, states)
            self.read(s.cause, states)
            return []
        if isinstance(s, ast.Expr):
            states = self.read(s.value, states)
            if isinstance(s.value, ast.Call) and self.pkg.never_returns(s.value, self.f):
                return []
            return states
        if isinstance(s, ast.Assert):
            states = self.read(s.test, states)
            return self.branch(s.test, states)[0]
        if isinstance(s, ast.If):
            states = self.read(s.test, states)
            yes, no = self.branch(s.test, states)
            a = self.block(s.body, self.join(yes), loop, tried)
            if self.closed_chain(s):
                no = self.drop_last(s, no, loop, tried)
                return a + no
            b = self.block(s.orelse, self.join(no), loop, tried) if no else []
            return a + b
        if isinstance(s, (ast.For, ast.AsyncFor)):
            states = self.read(s.iter, states)
            lp = {"break": [], "continue": []}
            self.read_target(s.target, states)
            st = self.join(self.write(s.target, states))
            out = self.block(s.body, self.forget(s, st), lp, tried)
            out = self.join(out + lp["continue"])
            lp2 = {"break": lp["break"], "continue": []}
            again = self.block(s.body, self.forget(s, self.join(self.write(s.target, out))), lp2, tried)
            out = self.forget(s, self.join(out + again + lp2["continue"]))
            if s.orelse:
                out = self.block(s.orelse, out, loop, tried)
            return out + lp["break"]
        if isinstance(s, ast.While):
            states = self.read(s.test, states)
            lp = {"break": [], "continue": []}
            yes, _ = self.branch(s.test, states)
            out = self.block(s.body, self.forget(s, yes or states), lp, tried)
            out = self.join(out + lp["continue"])
            self.read(s.test, out)
            lp2 = {"break": lp["break"], "continue": []}
            again = self.block(s.body, self.forget(s, out), lp2, tried)
            out = self.forget(s, self.join(out + again + lp2["continue"]))
            forever = isinstance(s.test, ast.Constant) and s.test.value
            if forever:
                out = []
            if s.orelse and out:
                out = self.block(s.orelse, out, loop, tried)
            return out + lp["break"]
        if isinstance(s, ast.Break):
            loop["break"].extend(states)
            return []
        if isinstance(s, ast.Continue):
            loop["continue"].extend(states)
            return []
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                states = self.read(i.context_expr, states)
                if i.optional_vars is not None:
                    states = self.write(i.optional_vars, states)
            return self.block(s.body, self.join(states), loop, tried)
        if isinstance(s, ast.Try):
            mid = []
            out = self.block(s.body, states, loop, mid)
            if tried is not None:
                tried.extend(mid)
            ends = self.block(s.orelse, out, loop, tried) if s.orelse else list(out)
            # an exception inside a statement: it may be reached with any state before a statement
            for h in s.handlers:
                st = self.join(mid)
                if h.name:
                    st = self.write([h.name], st)
                r = self.block(h.body, self.join(st), loop, tried)
                if h.name:
                    r = self.write([h.name], r, gone=True)
                ends += r
            if s.finalbody:
                self.block(s.finalbody, self.join(mid + ends), loop, tried)
                return self.block(s.finalbody, self.join(ends), loop, tried) if ends else []
            return ends
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            for d in s.decorator_list:
                self.read(d, states)
            if not isinstance(s, ast.ClassDef):
                for d in s.args.defaults + [x for x in s.args.kw_defaults if x]:
                    self.read(d, states)
            return self.write([s.name], states)
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return self.write([(al.asname or al.name).split(".")[0] for al in s.names], states)
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.read(ast.copy_location(ast.Name(t.id, ast.Load()), t), states)
                    states = self.write([t.id], states, gone=True)
                else:
                    self.read_target(t, states)
            return states
        if isinstance(s, ast.Match):
            states = self.read(s.subject, states)
            out, wild = [], False
            for c in s.cases:
                names = {n.name for n in ast.walk(c.pattern) if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name}
                st = self.write(names, states)
                if c.guard is not None:
                    self.read(c.guard, st)
                elif isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None:
                    wild = True
                out += self.block(c.body, self.join(st), loop, tried)
            return out if wild or len(s.cases) >= 2 else out + states
        return states

    def drop_last(self, s, no, loop, tried):
        out = []
        while s.orelse:
            s = s.orelse[0]
            no = self.read(s.test, no)
            yes, no = self.branch(s.test, no)
            out += self.block(s.body, self.join(yes), loop, tried)
        # a value that matches none is undocumented; it is only followed where nothing else is
        return out if out or not no else out

    def forget(self, s, states):
        """Facts about what a loop changes are lost at its head."""
        names = {n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        return [State(x.have, self.kill(x.facts, names)) for x in states]

    def read_target(self, t, states):
        for n in ast.walk(t):
            if isinstance(n, (ast.Attribute, ast.Subscript)):
                self.read(n.value, states)
                if isinstance(n, ast.Subscript):
                    self.read(n.slice, states)
