"""Model of h5py (and the file-system calls around it).

A file is a tree of groups, attributes and data sets held in the abstract heap, so
that it takes part in joins like every other object.  Every change is appended to a
per-path write log (a heap cell), which the ordering rules read.
"""
from . import arr as AR
from . import expr as X
from .expr import ZERO, const, int_of, add, scale
from .arr import Arr, Undecided
from .interp import (ARef, Buf, CellC, DictC, DtypeV, ListC, PyFn, Ref, SliceV, Sym, TypeV, Unk, ExcV)

FILE_T, GROUP_T, DSET_T, ATTRS_T = (TypeV("File"), TypeV("Group"), TypeV("Dataset"), TypeV("AttributeManager"))


class DsetC:
    """Heap content of a data set."""
    __slots__ = ("arr", "maxshape", "chunked")

    def __init__(self, arr, maxshape, chunked):
        self.arr, self.maxshape, self.chunked = arr, maxshape, chunked


class GroupNode:
    __slots__ = ("children", "attrs", "path")

    def __init__(self, it, path):
        self.children = it.alloc(DictC({}))
        self.attrs = it.alloc(DictC({}))
        self.path = path


class DsetNode:
    __slots__ = ("oid", "attrs", "path")

    def __init__(self, it, content, path):
        self.oid = it.alloc(content)
        self.attrs = it.alloc(DictC({}))
        self.path = path


class Handle:
    """An open file: a cell that says whether it is still open, and its mode."""

    def __init__(self, it, key, mode):
        self.cell = it.alloc(CellC(True))
        self.key, self.mode = key, mode

    def check(self, it, write=False, fails=True):
        v = it.get(self.cell).v
        v = it.load(v)
        if v is False:
            it.throw("ValueError", "h5py: the file is closed (not a location)")
        if write and self.mode == "r":
            it.throw("OSError", "h5py: the file was opened for reading only")
        if write and fails:
            c = it.get(it.h5fault).v
            if c is not None:
                it.set(it.h5fault, CellC(c - 1 if c > 0 else None))
                if c == 0:
                    it.throw("OSError", "Can't write data (file write failed)")


def log(it, op, node, *more):
    c = it.get(it.h5log)
    it.set(it.h5log, CellC(c.v + ((op, node if isinstance(node, str) else node.path) + more + (it.where(),),)))


def text(it, k):
    k = it.load(k)
    if isinstance(k, str):
        return k
    if isinstance(k, Unk):
        raise Undecided("HDF5 name: " + k.reason)
    if isinstance(k, bytes):
        return k.decode()
    it.throw("TypeError", "Accessing a group is done with bytes or str, not %s" % it.type_name(k))


def snapshot(it, v):
    """The array stored when v is written."""
    v = it.load(v)
    if isinstance(v, Unk):
        return None
    if isinstance(v, (str, bytes)):
        return v
    if isinstance(v, (H5Dataset,)):
        return v.content(it).arr
    return it.arr(v)


class H5Node:
    def __init__(self, h, node):
        self.h, self.node = h, node

    def __eq__(self, o):
        return type(o) is type(self) and o.h is self.h and o.node is self.node

    def __hash__(self):
        return hash(id(self.node))

    @property
    def path(self):
        return self.node.path

    def common(self, it, name):
        if name == "attrs":
            return Attrs(self.h, self.node)
        if name == "name":
            return self.node.path
        if name == "file":
            return H5Group(self.h, it.get(it.fs).d[self.h.key], True)
        raise Undecided("h5py attribute " + name)


class Attrs:
    py_type = ATTRS_T

    def __init__(self, h, node):
        self.h, self.node = h, node

    def d(self, it):
        self.h.check(it)
        return it.get(self.node.attrs).d

    def getitem(self, it, o, key):
        k = text(it, key)
        d = self.d(it)
        if k not in d:
            it.throw("KeyError", "can't locate attribute: '%s'" % k)
        return self.out(it, d[k])

    def out(self, it, v):
        v = it.load(v)
        if isinstance(v, Arr):
            return it.new_array(v)
        return v

    def setitem(self, it, o, key, v):
        self.h.check(it, True)
        k = text(it, key)
        v = it.load(v)
        if isinstance(v, (ListC, Ref, ARef, tuple, H5Dataset)):
            if isinstance(v, Ref) and not isinstance(it.get(v.oid), ListC):
                it.throw("TypeError", "Object dtype dtype('O') has no native HDF5 equivalent")
            items = it.iterate(v) if isinstance(v, (Ref, tuple)) else None
            if items is not None and items and all(isinstance(it.load(x), str) for x in items):
                pass
            else:
                v = snapshot(it, v)
        elif v is None:
            it.throw("TypeError", "Object dtype dtype('O') has no native HDF5 equivalent")
        elif isinstance(v, Unk):
            pass
        elif not isinstance(v, (bool, int, float, str, bytes, Sym)):
            it.throw("TypeError", "Object dtype dtype('O') has no native HDF5 equivalent")
        d = dict(it.get(self.node.attrs).d)
        d[k] = v
        it.set(self.node.attrs, DictC(d))
        log(it, "attr", self.node, k)

    def contains(self, it, o, key):
        return text(it, key) in self.d(it)

    def iterate(self, it):
        return sorted(self.d(it))

    def getattr(self, it, o, name):
        if name == "get":
            def get(i2, a, k):
                key = text(i2, a[0])
                d = self.d(i2)
                if key in d:
                    return self.out(i2, d[key])
                return a[1] if len(a) > 1 else k.get("default")
            return PyFn("attrs.get", get)
        if name in ("keys", "values", "items"):
            def view(i2, a, k):
                d = self.d(i2)
                ks = sorted(d)
                if name == "keys":
                    return tuple(ks)
                if name == "values":
                    return tuple(self.out(i2, d[q]) for q in ks)
                return tuple((q, self.out(i2, d[q])) for q in ks)
            return PyFn("attrs." + name, view)
        if name in ("create", "modify"):
            def create(i2, a, k):
                self.setitem(i2, o, a[0], a[1] if len(a) > 1 else k.get("data", k.get("value")))
            return PyFn("attrs." + name, create)
        if name == "update":
            def update(i2, a, k):
                v = i2.load(a[0])
                for q, w in i2.get(v.oid).d.items():
                    self.setitem(i2, o, q, w)
            return PyFn("attrs.update", update)
        raise Undecided("h5py attrs." + name)

    def delitem(self, it, key):
        self.h.check(it, True)
        k = text(it, key)
        d = dict(self.d(it))
        if k not in d:
            it.throw("KeyError", "can't locate attribute")
        del d[k]
        it.set(self.node.attrs, DictC(d))
        log(it, "del_attr", self.node, k)


class H5Group(H5Node):
    def __init__(self, h, node, is_file=False):
        H5Node.__init__(self, h, node)
        self.is_file = is_file

    @property
    def py_type(self):
        return FILE_T if self.is_file else GROUP_T

    def children(self, it):
        self.h.check(it)
        return it.get(self.node.children).d

    def find(self, it, name):
        """(parent group, last part) for a slash separated name."""
        parts = [p for p in name.split("/") if p]
        if name.startswith("/"):
            cur = H5Group(self.h, it.get(it.fs).d[self.h.key], True)
        else:
            cur = self
        for p in parts[:-1]:
            n = cur.children(it).get(p)
            if not isinstance(n, GroupNode):
                return None, parts[-1]
            cur = H5Group(self.h, n)
        return cur, parts[-1] if parts else ""

    def lookup(self, it, name):
        g, last = self.find(it, name)
        if g is None:
            return None
        n = g.children(it).get(last)
        return it.load(n) if n is not None else None

    def wrap(self, node):
        return H5Dataset(self.h, node) if isinstance(node, DsetNode) else H5Group(self.h, node)

    def getitem(self, it, o, key):
        k = text(it, key)
        n = self.lookup(it, k)
        if n is None:
            it.throw("KeyError", "Unable to open object (object '%s' doesn't exist)" % k)
        if isinstance(n, Unk):
            return n
        return self.wrap(n)

    def contains(self, it, o, key):
        return self.lookup(it, text(it, key)) is not None

    def iterate(self, it):
        return sorted(self.children(it))

    def length(self, it):
        return len(self.children(it))

    def put(self, it, name, node_maker, what, err):
        self.h.check(it, True)
        g, last = self.find(it, name)
        if g is None:
            cur = self
            for p in [p for p in name.split("/") if p][:-1]:
                n = cur.children(it).get(p)
                cur = cur.put(it, p, lambda path: GroupNode(it, path), "create_group", "ValueError") \
                    if n is None else H5Group(self.h, n)
            g = cur
        d = g.children(it)
        if last in d:
            it.throw(err, "Unable to create %s (name already exists)" % ("group" if what == "create_group" else
                                                                        "dataset"))
        path = g.node.path.rstrip("/") + "/" + last
        node = node_maker(path)
        d2 = dict(d)
        d2[last] = node
        it.set(g.node.children, DictC(d2))
        log(it, what, node)
        return self.wrap(node)

    def create_group(self, it, a, k):
        return self.put(it, text(it, a[0] if a else k["name"]), lambda p: GroupNode(it, p), "create_group",
                        "ValueError")

    def require_group(self, it, a, k):
        name = text(it, a[0] if a else k["name"])
        n = self.lookup(it, name)
        if n is None:
            return self.create_group(it, [name], {})
        if not isinstance(n, GroupNode):
            it.throw("TypeError", "Incompatible object (Dataset) already exists")
        return self.wrap(n)

    def make_dset(self, it, name, arr, maxshape=None, chunked=False, err="ValueError", filled=True):
        def mk(path):
            return DsetNode(it, DsetC(arr, maxshape, chunked), path)
        return self.put(it, name, mk, "create_dataset" if filled else "create_empty", err)

    def create_dataset(self, it, a, k):
        names = ["name", "shape", "dtype", "data"]
        kw = dict(zip(names, a))
        kw.update(k)
        name = text(it, kw["name"])
        data = it.load(kw.get("data"))
        shape = kw.get("shape")
        dt = it.load(kw.get("dtype"))
        from . import npm
        code = npm.dtype_of(it, dt) if dt is not None else None
        chunked = bool(kw.get("chunks")) or kw.get("maxshape") is not None or kw.get("compression") is not None
        maxshape = None
        if kw.get("maxshape") is not None:
            ms = it.load(kw["maxshape"])
            ms = it.iterate(ms) if isinstance(ms, (tuple, Ref)) else [ms]
            maxshape = tuple(it.load(x) for x in ms)
        if isinstance(data, Unk):
            raise Undecided("HDF5 data: " + data.reason)
        if isinstance(data, (str, bytes)):
            return self.make_dset(it, name, data)
        if data is not None:
            arr = snapshot(it, data)
            if shape is not None:
                arr = AR.reshape(arr, npm.shape_arg(it, shape))
        else:
            if shape is None:
                it.throw("TypeError", "One of data, shape or dtype must be specified")
            sh = npm.shape_arg(it, shape)
            fill = it.num(kw["fillvalue"]) if kw.get("fillvalue") is not None else ZERO
            arr = Arr(sh, fill, code or "f4")
        if code is not None and arr.dtype != code:
            arr = it.cast(arr, code)
        return self.make_dset(it, name, arr, maxshape, chunked, filled=data is not None)

    def setitem(self, it, o, key, v):
        self.h.check(it, True)
        k = text(it, key)
        v = it.load(v)
        if isinstance(v, Unk):
            raise Undecided("HDF5 data: " + v.reason)
        if isinstance(v, H5Node) and not isinstance(v, H5Dataset):
            raise Undecided("HDF5 hard link")
        if v is None or isinstance(v, Ref) and not isinstance(it.get(v.oid), ListC):
            it.throw("TypeError", "Object dtype dtype('O') has no native HDF5 equivalent")
        if isinstance(v, H5Dataset):
            return self.put(it, k, lambda p: v.node, "create_dataset", "OSError")
        self.make_dset(it, k, snapshot(it, v), err="OSError")

    def delitem(self, it, key):
        self.h.check(it, True, False)
        k = text(it, key)
        g, last = self.find(it, k)
        if g is None or last not in g.children(it):
            it.throw("KeyError", "Couldn't delete link (name doesn't exist)")
        d = dict(g.children(it))
        n = d.pop(last)
        it.set(g.node.children, DictC(d))
        log(it, "delete", n)

    def move(self, it, a, k):
        src = text(it, a[0] if a else k["source"])
        dst = text(it, a[1] if len(a) > 1 else k["dest"])
        self.h.check(it, True, False)
        g, last = self.find(it, src)
        if g is None or last not in g.children(it):
            it.throw("ValueError", "Unable to move link (component not found)")
        g2, last2 = self.find(it, dst)
        if g2 is None:
            raise Undecided("move to a new group")
        if last2 in g2.children(it):
            it.throw("ValueError", "Unable to move link (an object with that name already exists)")
        d = dict(g.children(it))
        n = d.pop(last)
        it.set(g.node.children, DictC(d))
        d = dict(g2.children(it))
        import copy
        moved = copy.copy(n)      # the same content under its new name
        moved.path = g2.node.path.rstrip("/") + "/" + last2
        d[last2] = moved
        it.set(g2.node.children, DictC(d))
        log(it, "move", n, g2.node.path.rstrip("/") + "/" + last2)

    def getattr(self, it, o, name):
        if name == "move":
            return PyFn("Group.move", lambda i2, a, k: self.move(i2, a, k))
        if name in ("create_group", "require_group", "create_dataset"):
            return PyFn("Group." + name, lambda i2, a, k: getattr(self, name)(i2, a, k))
        if name == "require_dataset":
            def req(i2, a, k):
                nm = text(i2, a[0] if a else k["name"])
                n = self.lookup(i2, nm)
                return self.wrap(n) if n is not None else self.create_dataset(i2, a, {
                    q: w for q, w in k.items() if q != "exact"})
            return PyFn("Group.require_dataset", req)
        if name == "get":
            def get(i2, a, k):
                n = self.lookup(i2, text(i2, a[0]))
                if n is None:
                    return a[1] if len(a) > 1 else k.get("default")
                return self.wrap(n)
            return PyFn("Group.get", get)
        if name in ("keys", "values", "items"):
            def view(i2, a, k):
                d = self.children(i2)
                ks = sorted(d)
                if name == "keys":
                    return tuple(ks)
                if name == "values":
                    return tuple(self.wrap(i2.load(d[q])) for q in ks)
                return tuple((q, self.wrap(i2.load(d[q]))) for q in ks)
            return PyFn("Group." + name, view)
        if name in ("close", "flush", "__exit__", "__enter__"):
            def fin(i2, a, k):
                if name == "close" or name == "__exit__":
                    self.exit(i2)
                elif name == "flush":
                    log(i2, "flush", self.h.key if isinstance(self.h.key, str) else "file")
                elif name == "__enter__":
                    return self
            return PyFn("File." + name, fin)
        if name == "filename":
            return self.h.key
        if name == "mode":
            return "r" if self.h.mode == "r" else "r+"
        return self.common(it, name)

    def enter(self, it):
        return self

    def exit(self, it):
        it.set(self.h.cell, CellC(False))
        log(it, "close", "/")


class H5Dataset(H5Node):
    py_type = DSET_T

    def content(self, it):
        self.h.check(it)
        return it.get(self.node.oid)

    def as_arr(self, it):
        a = self.content(it).arr
        if not isinstance(a, Arr):
            raise Undecided("text data set")
        return a

    def getitem(self, it, o, key):
        c = self.content(it)
        key = it.load(key)
        if not isinstance(c.arr, Arr):
            if c.arr is None:
                return Unk("HDF5 data")
            return c.arr
        tmp = ARef(it.alloc(Buf(c.arr)))
        if c.arr.ndim == 0:
            if key is Ellipsis:
                return tmp
            if key == ():
                return it.new_array(c.arr)
        if isinstance(key, (str,)):
            it.throw("ValueError", "Field names only allowed for compound types")
        r = it.getitem(tmp, key)
        if isinstance(r, ARef):
            return ARef(it.alloc(Buf(it.arr(r))))
        return r

    def setitem(self, it, o, key, v):
        c = self.content(it)
        self.h.check(it, True)
        tmp = ARef(it.alloc(Buf(c.arr)))
        v = it.load(v)
        if isinstance(v, H5Dataset):
            v = ARef(it.alloc(Buf(v.as_arr(it))))
        it.set_array_item(tmp, key, v)
        new = it.arr(tmp)
        it.set(self.node.oid, DsetC(it.cast(new, c.arr.dtype), c.maxshape, c.chunked))
        log(it, "write", self.node)

    def iterate(self, it):
        tmp = ARef(it.alloc(Buf(self.as_arr(it))))
        return it.sequence(tmp)

    def length(self, it):
        a = self.as_arr(it)
        if a.ndim == 0:
            it.throw("TypeError", "Attempt to take len() of scalar dataset")
        return it.val(a.shape[0], "i")

    def getattr(self, it, o, name):
        if name == "shape":
            return tuple(it.val(s, "i") for s in self.as_arr(it).shape)
        if name == "ndim":
            return self.as_arr(it).ndim
        if name == "size":
            return it.val(self.as_arr(it).size(), "i")
        if name == "dtype":
            return DtypeV(self.as_arr(it).dtype)
        if name == "maxshape":
            c = self.content(it)
            return c.maxshape if c.maxshape is not None else tuple(it.val(s, "i") for s in c.arr.shape)
        if name == "len":
            return PyFn("Dataset.len", lambda i2, a, k: self.length(i2))
        if name == "resize":
            return PyFn("Dataset.resize", self.resize)
        if name in ("astype",):
            raise Undecided("Dataset.astype")
        return self.common(it, name)

    def resize(self, it, a, k):
        kw = dict(zip(("size", "axis"), a))
        kw.update(k)
        c = self.content(it)
        self.h.check(it, True)
        if not c.chunked:
            it.throw("TypeError", "Only chunked datasets can be resized")
        from . import npm
        axis = it.load(kw.get("axis"))
        new = list(c.arr.shape)
        if axis is not None:
            ax = int_of(it.num(axis))
            if ax is None or ax < 0 or ax >= len(new):
                it.throw("ValueError", "Invalid axis")
            size = it.load(kw["size"])
            if isinstance(size, (tuple, Ref)):
                it.throw("TypeError", "Argument must be a single int if axis is specified")
            new[ax] = it.num(size)
        else:
            size = it.load(kw["size"])
            if not isinstance(size, (tuple, Ref)):
                it.throw("TypeError", "resize needs a shape tuple or an axis")
            new = list(npm.shape_arg(it, size))
            if len(new) != c.arr.ndim:
                it.throw("TypeError", "New shape length must equal number of axes")
        if c.maxshape is not None:
            for n, m in zip(new, c.maxshape):
                if m is None:
                    continue
                if X.int_nonneg(add(n, scale(it.num(m), -1), const(-1))):
                    it.throw("ValueError", "Unable to set extent (dimension cannot exceed the maximum)")
        cur = c.arr
        for i, n in enumerate(new):
            old = cur.shape[i]
            diff = add(n, scale(old, -1))
            if diff is ZERO:
                continue
            if X.int_nonneg(diff):
                sh = list(cur.shape)
                sh[i] = diff
                cur = AR.concatenate([cur, Arr(tuple(sh), ZERO, cur.dtype)], i)
            elif X.int_nonneg(scale(diff, -1)):
                cur = AR.spec_get(cur, tuple(("s", ZERO, n if j == i else s, 1) for j, s in enumerate(cur.shape)))
            else:
                raise Undecided("resize by an unknown amount")
        it.set(self.node.oid, DsetC(cur, c.maxshape, c.chunked))
        log(it, "resize", self.node)


# ------------------------------------------------------------- file system

def file_key(it, v):
    v = it.load(v)
    t = getattr(v, "text", v)
    if isinstance(t, Unk):
        raise Undecided("file name: " + t.reason)
    if t is None or isinstance(t, (int, float, Sym, Ref, ARef)):
        it.throw("TypeError", "expected str, bytes or os.PathLike object, not %s" % it.type_name(v))
    return t


def open_file(it, a, k):
    kw = dict(zip(("name", "mode"), a))
    kw.update(k)
    key = file_key(it, kw["name"])
    mode = it.load(kw.get("mode", "r"))
    if mode is None:
        mode = "r"
    fs = it.get(it.fs).d
    there = key in fs
    if mode not in ("r", "r+", "w", "w-", "x", "a"):
        it.throw("ValueError", "Invalid mode; must be one of r, r+, w, w-, x, a")
    if mode in ("r", "r+") and not there:
        it.throw("FileNotFoundError", "Unable to open file (No such file or directory)")
    if mode in ("w-", "x") and there:
        it.throw("FileExistsError", "Unable to create file (file exists)")
    if mode == "w" or not there:
        d = dict(fs)
        d[key] = GroupNode(it, "/")
        it.set(it.fs, DictC(d))
        log(it, "truncate" if there else "create_file", "/", key)
    node = it.load(it.get(it.fs).d[key])
    if not isinstance(node, GroupNode):
        it.throw("OSError", "Unable to open file (file signature not found)")
    h = Handle(it, key, "r" if mode == "r" else "w")
    log(it, "open", "/", key, mode)
    return H5Group(h, node, True)


def install(it):
    it.h5log = it.alloc(CellC(()))
    it.h5fault = it.alloc(CellC(None))       # the number of write operations left before one that fails

    def fs_is_file(t):
        if isinstance(t, Unk):
            return Unk("is_file: " + t.reason)
        return t in it.get(it.fs).d
    it.fs_is_file = fs_is_file
    FILE_T.call = open_file
    GROUP_T.call = None
    it.ext["h5py"] = {"File": TypeV("File", open_file), "Group": TypeV("Group"), "Dataset": TypeV("Dataset")}

    def move(i2, a, k):
        s, d = file_key(i2, a[0]), file_key(i2, a[1])
        fs = dict(i2.get(i2.fs).d)
        if s not in fs:
            i2.throw("FileNotFoundError", "No such file")
        fs[d] = fs.pop(s)
        i2.set(i2.fs, DictC(fs))
        log(i2, "rename", "/", s, d)

    def remove(i2, a, k):
        s = file_key(i2, a[0])
        fs = dict(i2.get(i2.fs).d)
        if s not in fs:
            i2.throw("FileNotFoundError", "No such file")
        del fs[s]
        i2.set(i2.fs, DictC(fs))
        log(i2, "remove", "/", s)
    o = it.ext.setdefault("os", {})
    o.update(replace=PyFn("os.replace", move), rename=PyFn("os.rename", move), remove=PyFn("os.remove", remove),
             unlink=PyFn("os.unlink", remove))
