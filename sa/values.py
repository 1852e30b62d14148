"""Abstract values of the interpreter."""
from .term import P, Poly, as_const, as_int, ONE, Blowup, unk
from fractions import Fraction


class Top:
    """unknown value"""
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return "Top(%s)" % self.why


class Undef:
    __slots__ = ()

    def __repr__(self):
        return "Undef"


UNDEF = Undef()


class Num:
    """symbolic Python number; kind in int/float/bool/complex"""
    __slots__ = ("p", "kind")

    def __init__(self, p, kind):
        self.p, self.kind = p, kind

    def __repr__(self):
        return "Num<%s>(%r)" % (self.kind, self.p)


def num(p, kind):
    c = as_const(p)
    if c is not None:
        if kind == "bool":
            return c != 0
        if kind == "int" and c.denominator == 1:
            return int(c)
    return Num(p, kind)


def is_number(v):
    return isinstance(v, (int, float, Num)) or isinstance(v, bool)


def to_poly(v):
    if isinstance(v, Num):
        return v.p
    if isinstance(v, bool):
        return P(int(v))
    if isinstance(v, (int, float)):
        return P(v)
    return None


def kind_of(v):
    if isinstance(v, Num):
        return v.kind
    if isinstance(v, bool):
        return "bool"
    if isinstance(v, int):
        return "int"
    if isinstance(v, float):
        return "float"
    if isinstance(v, complex):
        return "complex"
    return None


class ArrV:
    """array / tensor: a view on a storage"""
    __slots__ = ("sid", "axes", "idx", "dtype", "dev", "grad", "taint", "be", "scalar", "extra")

    def __init__(self, sid, axes, idx, dtype, dev, grad, taint, be, scalar=False, extra=None):
        self.sid = sid
        self.axes = tuple(tuple(a) for a in axes)
        self.idx = tuple(idx)
        self.dtype, self.dev, self.grad, self.taint, self.be = dtype, dev, grad, taint, be
        self.scalar = scalar        # numpy scalar (result of full reduction)
        self.extra = extra          # dict of rare attributes

    def copy(self, **kw):
        r = ArrV(self.sid, self.axes, self.idx, self.dtype, self.dev, self.grad, self.taint, self.be,
                 self.scalar, self.extra)
        for k, v in kw.items():
            setattr(r, k, v)
        return r

    def shape(self):
        return tuple(ax_size(a) for a in self.axes)

    @property
    def ndim(self):
        return len(self.axes)

    def __repr__(self):
        return "ArrV<%s %s>(%s)" % (self.be, self.dtype, ", ".join(str(s) for s in self.shape()))


def ax_size(ax):
    r = ONE
    for v in ax:
        r = r * v.args[0]
    return r


class Lazy:
    __slots__ = ("f", "v")

    def __init__(self, f):
        self.f, self.v = f, None

    def get(self):
        if self.f is not None:
            try:
                self.v = self.f()
            except Blowup:
                self.v = unk("expression too large")
            self.f = None
        return self.v


class Storage:
    """body may be given as a thunk, evaluated when first needed"""
    __slots__ = ("vars", "_b", "origin", "saved", "req", "writes")

    def __init__(self, vars, body, origin=None, saved=(), req=False, writes=0):
        self.vars, self._b, self.origin, self.saved, self.req, self.writes = tuple(vars), body, origin or {}, saved, req, writes

    @property
    def body(self):
        b = self._b
        if isinstance(b, Lazy):
            b = self._b = b.get()
        return b

    @body.setter
    def body(self, v):
        self._b = v

    def repl(self, **kw):
        s = Storage(self.vars, self._b, self.origin, self.saved, self.req, self.writes)
        for k, v in kw.items():
            setattr(s, k, v)
        return s


class MaskSel:
    """1-D selection x[mask] of unknown length"""
    __slots__ = ("vars", "body", "mask", "dtype", "dev", "be", "grad", "taint")

    def __init__(self, vars, body, mask, dtype, dev, be, grad, taint):
        self.vars, self.body, self.mask, self.dtype, self.dev, self.be = vars, body, mask, dtype, dev, be
        self.grad, self.taint = grad, taint


class DT:
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return "dtype:" + self.n

    def __eq__(self, o):
        return isinstance(o, DT) and o.n == self.n

    def __hash__(self):
        return hash(("DT", self.n))


class Dev:
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, Dev) and o.n == self.n

    def __hash__(self):
        return hash(("Dev", self.n))

    def __repr__(self):
        return "device:" + self.n


class Stride:
    """stride of an axis of an array (opaque, remembers the axis)"""
    __slots__ = ("arr", "ax", "mul")

    def __init__(self, arr, ax, mul=1):
        self.arr, self.ax, self.mul = arr, ax, mul


class Flags:
    """numpy array flags"""
    __slots__ = ("arr",)

    def __init__(self, arr):
        self.arr = arr


class Func:
    __slots__ = ("node", "mod", "closure", "name", "qual", "defaults", "kwdefaults", "cls", "deco", "attrs", "uid")

    def __init__(self, node, mod, closure, name, qual, defaults, kwdefaults, cls=None):
        self.node, self.mod, self.closure, self.name, self.qual = node, mod, closure, name, qual
        self.defaults, self.kwdefaults, self.cls = defaults, kwdefaults, cls
        self.deco = ()
        self.attrs = {}
        self.uid = None

    def __repr__(self):
        return "Func(%s)" % self.qual


class Bound:
    __slots__ = ("func", "self_")

    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class Cls:
    __slots__ = ("name", "qual", "mod", "env", "bases", "node", "kind", "fields")

    def __init__(self, name, qual, mod, env, bases, node, kind=None, fields=None):
        self.name, self.qual, self.mod, self.env, self.bases, self.node = name, qual, mod, env, bases, node
        self.kind, self.fields = kind, fields

    def __repr__(self):
        return "Cls(%s)" % self.qual


class Inst:
    __slots__ = ("hid", "cls")

    def __init__(self, hid, cls):
        self.hid, self.cls = hid, cls

    def __repr__(self):
        return "Inst(%s)" % self.cls.name


class Mod:
    """module of the analysed repository"""
    __slots__ = ("name", "hid", "path", "tree")

    def __init__(self, name, hid, path, tree):
        self.name, self.hid, self.path, self.tree = name, hid, path, tree

    def __repr__(self):
        return "Mod(%s)" % self.name


class Ext:
    """external object by dotted path"""
    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return "Ext(%s)" % self.path

    def __eq__(self, o):
        return isinstance(o, Ext) and o.path == self.path

    def __hash__(self):
        return hash(("Ext", self.path))


class ExtM:
    """method of an abstract value"""
    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def __repr__(self):
        return "ExtM(%r.%s)" % (self.obj, self.name)


class Partial:
    __slots__ = ("f", "args", "kw")

    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, args, kw


class Exc:
    """exception instance"""
    __slots__ = ("cls", "args")

    def __init__(self, cls, args=()):
        self.cls, self.args = cls, args

    def name(self):
        return exc_name(self.cls)

    def __repr__(self):
        return "Exc(%s)" % self.name()


def exc_name(c):
    if isinstance(c, Ext):
        return c.path.split(".")[-1]
    if isinstance(c, Cls):
        return c.name
    return "?"


class ListV:
    """mutable list; content in heap (python list, or SymItems)"""
    __slots__ = ("hid",)

    def __init__(self, hid):
        self.hid = hid


class SymItems:
    """list of symbolic length: for var in range -> elem (value mentioning the ivars)"""
    __slots__ = ("vars", "elem", "size")

    def __init__(self, vars, elem, size):
        self.vars, self.elem, self.size = vars, elem, size


class DictV:
    __slots__ = ("hid",)

    def __init__(self, hid):
        self.hid = hid


class SetV:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = items


class SliceV:
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class RangeV:
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class NdIndexV:
    __slots__ = ("dims",)

    def __init__(self, dims):
        self.dims = dims


class IterV:
    """enumerate / zip / reversed / items over something symbolic"""
    __slots__ = ("kind", "parts")

    def __init__(self, kind, parts):
        self.kind, self.parts = kind, parts


class PhiV:
    """cond ? a : b for values that have no common numeric form"""
    __slots__ = ("cond", "a", "b")

    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b

    def __repr__(self):
        return "PhiV(%r, %r, %r)" % (self.cond, self.a, self.b)


class Super:
    __slots__ = ("cls", "obj")

    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Ctxm:
    """recognised context manager"""
    __slots__ = ("kind", "val")

    def __init__(self, kind, val=None):
        self.kind, self.val = kind, val


class VersionV:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t


class StrTop:
    """unknown string"""
    __slots__ = ()


class RangeTuple:
    pass
