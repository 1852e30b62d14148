"""Models of Python builtins, the standard library and the dispatch to the array library."""
import operator
from .term import *          # noqa
from . import term as tm
from .values import *        # noqa
from .arr import CAT, NAMES, WIDTH, flat_index, unflatten
from . import libarr as la
from .libarr import (FN, NTup, BadCall, bindsig, IGNORED_KW, arr_binop, arr_compare, masksel_binop, masksel_get, masksel_count, conv,
                     coerce, cast, concat, stack, real_part, imag_part, swap, numel, minmax, einsum, pow_poly, is_bool_poly)

H = Fraction(1, 2)
CODES = ("f32", "f64", "f16", "i64", "i32", "i16", "i8", "u8", "bool", "c64", "c128")
EPS = {"f32": 2.0 ** -23, "f64": 2.0 ** -52, "f16": 2.0 ** -10, "c64": 2.0 ** -23, "c128": 2.0 ** -52}
TINY = {"f32": 2.0 ** -126, "f64": 2.0 ** -1022, "f16": 2.0 ** -14, "c64": 2.0 ** -126, "c128": 2.0 ** -1022}
FMAX = {"f32": 3.4028234663852886e+38, "f64": 1.7976931348623157e+308, "f16": 65504.0}

BUILTINS = set("""abs all any bool bytes callable chr classmethod complex delattr dict dir divmod enumerate eval exec filter float format
frozenset getattr globals hasattr hash help hex id input int isinstance issubclass iter len list locals map max memoryview min next object
oct open ord pow print property range repr reversed round set setattr slice sorted staticmethod str sum super tuple type vars zip
__import__ bytearray""".split())

NP_METHODS = set("""all any argmax argmin argpartition argsort astype byteswap choose clip compress conj conjugate copy cumprod cumsum diagonal
dot dump dumps fill flatten getfield item itemset max mean min newbyteorder nonzero partition prod ptp put ravel repeat reshape resize round
searchsorted setfield setflags sort squeeze std sum swapaxes take tobytes tofile tolist tostring trace transpose var view""".split())
NP_ONLY = set("""astype itemset tobytes tofile newbyteorder byteswap ptp setflags compress concatenate expand_dims array asarray copyto broadcast_arrays
fill partition tostring""".split())
PT_INPLACE_EXTRA = set("add sub mul div clamp clip sqrt abs neg pow log log10 exp masked_fill clamp_min clamp_max square reciprocal rsqrt nan_to_num "
                       "multiply divide subtract true_divide floor round ceil logical_and logical_or logical_not bitwise_and bitwise_or bitwise_not tril triu "
                       "squeeze unsqueeze transpose t swapaxes remainder floor_divide sigmoid tanh lerp addcmul addcdiv eq ne lt le gt ge maximum minimum relu "
                       "cumsum index_add index_fill float_power where conj_physical sign".split())
MISSING_EXT = {"torch.rfft", "torch.irfft", "torch.solve", "torch.symeig", "torch.lstsq", "numpy.clamp", "numpy.cat"}


def is_builtin_exc(n):
    from .interp import BUILTIN_EXC
    return n in BUILTIN_EXC


def builtin(I, n):
    if n in BUILTINS or is_builtin_exc(n):
        return Ext("builtins." + n)
    if n == "Ellipsis":
        return Ellipsis
    if n == "NotImplemented":
        return Ext("builtins.NotImplemented")
    if n == "__name__":
        return I.frame().mod.name
    if n in ("__file__", "__doc__", "__package__"):
        return StrTop()
    if n == "__debug__":
        return True
    return None


# ------------------------------------------------------------------ dtypes
def as_dtype(I, x):
    if isinstance(x, DT):
        return x.n
    if isinstance(x, str):
        s = x.lstrip("<>=|")
        if s in NAMES:
            return NAMES[s]
        return {"f4": "f32", "f8": "f64", "f2": "f16", "i8": "i64", "i4": "i32", "i2": "i16", "i1": "i8", "u1": "u8", "b1": "bool", "?": "bool",
                "c8": "c64", "c16": "c128", "f": "f32", "d": "f64", "F": "c64", "D": "c128"}.get(s)
    if isinstance(x, Ext):
        head, _, leaf = x.path.rpartition(".")
        if head == "builtins":
            return {"float": "f64", "int": "i64", "bool": "bool", "complex": "c128"}.get(leaf)
        if head == "numpy":
            return NAMES.get(leaf) if leaf not in ("float", "int", "bool", "complex", "long") else None
        if head == "torch":
            if leaf == "float":
                return "f32"
            if leaf == "int":
                return "i32"
            return NAMES.get(leaf)
    if isinstance(x, Top):
        return None
    return None


TORCH_DT = set("float32 float float64 double float16 half bfloat16 int64 long int32 int int16 short int8 uint8 bool complex64 cfloat complex128 cdouble".split())


def ext_attr(I, e, name):
    p = e.path + "." + name
    if p in MISSING_EXT:
        I.crash("AttributeError", "module '%s' has no attribute '%s'" % (e.path, name))
    if e.path == "torch" and name in TORCH_DT:
        return DT("f16") if name == "bfloat16" else DT(as_dtype(I, Ext(p)))
    if p in ("numpy.newaxis",):
        return None
    if name == "inf" and e.path in ("numpy", "math", "torch"):
        return float("inf")
    if name in ("Inf", "Infinity", "PINF") and e.path == "numpy":
        return float("inf")
    if name == "NINF" and e.path == "numpy":
        return float("-inf")
    if name in ("nan", "NaN") and e.path in ("numpy", "math", "torch"):
        return float("nan")
    if name == "pi" and e.path in ("numpy", "math", "torch"):
        return Num(atom1(raw_atom("constp", ("pi",))), "float")
    if name == "e" and e.path in ("numpy", "math"):
        return Num(atom1(raw_atom("constp", ("e",))), "float")
    if p in ("torch.__version__", "torch.version.__version__"):
        return ".".join(str(k) for k in I.env.torch_version)
    if name == "__version__":
        return {"numpy": "1.26.4", "scipy": "1.11.4"}.get(e.path, StrTop())
    if p == "sys.version_info":
        return (3, 12, 3, "final", 0)
    if p in ("os.environ", "sys.argv", "sys.modules", "sys.path", "sys.flags", "sys.stdout", "sys.stderr"):
        if I.boundary is not None and p in ("os.environ", "sys.argv", "sys.modules"):
            I.event("readstate", "reads %s" % p)
        return Ext(p)
    return Ext(p)


# ------------------------------------------------------------------ numbers
def num_binop(I, op, a, b):
    con = not isinstance(a, Num) and not isinstance(b, Num)
    if con and not isinstance(a, complex) and not isinstance(b, complex):
        f = {"Add": operator.add, "Sub": operator.sub, "Mult": operator.mul, "Div": operator.truediv, "FloorDiv": operator.floordiv, "Mod": operator.mod,
             "Pow": operator.pow, "BitAnd": operator.and_, "BitOr": operator.or_, "BitXor": operator.xor, "LShift": operator.lshift,
             "RShift": operator.rshift}.get(op)
        try:
            r = f(a, b)
            if isinstance(r, complex):
                return I.top("complex power")
            return r
        except ZeroDivisionError:
            I.crash("ZeroDivisionError", "division by zero")
        except (OverflowError, ValueError) as ex:
            I.crash(type(ex).__name__, str(ex))
        except TypeError:
            I.crash("TypeError", "unsupported operand types for %s" % op)
    p, q = to_poly(a), to_poly(b)
    ka, kb = kind_of(a), kind_of(b)
    k = "float" if "float" in (ka, kb) else "int"
    if "complex" in (ka, kb):
        k = "complex"
    if p is None or q is None:
        return I.top("number operands")
    if op == "Add":
        return num(p + q, k)
    if op == "Sub":
        return num(p - q, k)
    if op == "Mult":
        return num(pmul(p, q), k)
    if op == "Div":
        if as_const(q) == 0:
            I.crash("ZeroDivisionError", "division by zero")
        return num(pmul(p, ppow(q, -1)), "float" if k == "int" else k)
    if op in ("FloorDiv", "Mod"):
        if as_const(q) == 0:
            I.crash("ZeroDivisionError", "division by zero")
        if k == "int" and is_index_poly(p) and is_index_poly(q):
            return num(mk_fdiv(p, q) if op == "FloorDiv" else mk_mod(p, q), "int")
        return num(mk_func("floordiv" if op == "FloorDiv" else "mod", [p, q]), k)
    if op == "Pow":
        c = as_const(q)
        if c is not None:
            r = ppow(p, c)
            kk = k if (c.denominator == 1 and c >= 0) else "float"
            return num(r, kk)
        kk = "int" if k == "int" and (is_index_poly(q) and nonneg(q)) else "float"
        if ka == "int" and kb == "int":
            kk = "int"
        return num(mk_powx(p, q), kk)
    if op == "LShift":
        return num(pmul(p, mk_powx(const(2), q)), "int")
    if op == "RShift":
        return num(mk_fdiv(p, mk_powx(const(2), q)), "int")
    if op in ("BitAnd", "BitOr", "BitXor"):
        if ka == "bool" and kb == "bool":
            r = {"BitAnd": band, "BitOr": bor, "BitXor": lambda x, y: x + y - pmul(x, y) * 2}[op](p, q)
            return num(r, "bool")
        c = as_int(q)
        if op == "BitAnd" and c is not None and c >= 0 and (c & (c + 1)) == 0 and is_index_poly(p):
            return num(mk_mod(p, const(c + 1)), "int")
        return num(mk_func(op, [p, q]), "int")
    return I.top("number operator " + op)


def scalar_of(I, x):
    """Python number denoted by a 0-d array, or x"""
    if isinstance(x, ArrV) and not any(x.axes):
        return FN["item"][2](I, x.be, {"x": x, "_kw": {}})
    return x


def mfun(I, x, f, kind="float"):
    if isinstance(x, PhiV):
        return I.split(x, lambda y: mfun(I, y, f, kind))
    x = scalar_of(I, x)
    if not is_number(x):
        if isinstance(x, Top):
            return x
        if x is None or isinstance(x, (str, ListV, tuple)):
            I.crash("TypeError", "must be a real number")
        return I.top("math function")
    return num(f(to_poly(x)), kind)


def to_int(I, x):
    if isinstance(x, PhiV):
        return I.split(x, lambda y: to_int(I, y))
    if isinstance(x, Top):
        return x
    if isinstance(x, (bool, int)):
        return int(x)
    if isinstance(x, float):
        try:
            return int(x)
        except (ValueError, OverflowError) as ex:
            I.crash(type(ex).__name__, str(ex))
    if isinstance(x, str):
        try:
            return int(x)
        except ValueError as ex:
            I.crash("ValueError", str(ex))
    x = scalar_of(I, x)
    if is_number(x):
        p = to_poly(x)
        if kind_of(x) in ("int", "bool") or is_index_poly(p):
            return num(p, "int")
        a = as_atom(p)
        if a is not None and a.op in ("ceil", "func") and (a.op == "ceil" or (a.args and a.args[0] in ("floor", "round", "trunc"))):
            return num(p, "int")
        if a is not None and a.op == "powx" and is_index_poly(a.args[0]):
            return num(p, "int")
        return num(mk_func("trunc", [p]), "int")
    if x is None or isinstance(x, (tuple, ListV)):
        I.crash("TypeError", "int() argument must be a number")
    return I.top("int()")


def to_float(I, x):
    if isinstance(x, PhiV):
        return I.split(x, lambda y: to_float(I, y))
    if isinstance(x, Top):
        return x
    if isinstance(x, str):
        try:
            return float(x)
        except ValueError as ex:
            I.crash("ValueError", str(ex))
    x = scalar_of(I, x)
    if isinstance(x, (bool, int, float)):
        return float(x)
    if isinstance(x, Num):
        return num(x.p, "float") if as_const(x.p) is None else Num(x.p, "float")
    if x is None or isinstance(x, (tuple, ListV)):
        I.crash("TypeError", "float() argument must be a number")
    return I.top("float()")


def extremum(I, op, args, kw):
    f = mk_max if op == "max" else mk_min
    kw = dict(kw)
    key = kw.pop("key", None)
    dflt = kw.pop("default", UNDEF)
    if len(args) == 1:
        v = args[0]
        if isinstance(v, PhiV):
            return I.split(v, lambda x: extremum(I, op, [x], dict(kw, **({"key": key} if key else {}))))
        if isinstance(v, ArrV) and v.ndim == 1:
            return minmax(I, v.be, {"x": v, "axis": None, "keepdims": False, "_kw": {}}, op)
        items = I.concrete_items(v)
        if items is None:
            if isinstance(v, ListV) and isinstance(I.st.heap[v.hid], SymItems):
                c = I.st.heap[v.hid]
                if is_number(c.elem):
                    return num(mk_red(op, c.vars, to_poly(c.elem), ONE), kind_of(c.elem))
            return I.top("%s of iterable" % op)
        if not items:
            if dflt is not UNDEF:
                return dflt
            I.crash("ValueError", "%s() arg is an empty sequence" % op)
    else:
        items = list(args)
    if any(isinstance(x, PhiV) for x in items):
        k = next(i for i, x in enumerate(items) if isinstance(x, PhiV))
        return I.split(items[k], lambda y: extremum(I, op, [tuple(items[:k] + [y] + items[k + 1:])], {"key": key} if key else {}))
    if len(items) == 1:
        return items[0]
    for x in items:
        if isinstance(x, Top):
            return x
    if key is not None:
        return I.top("%s with key" % op)
    if all(is_number(x) for x in items):
        if all(not isinstance(x, Num) for x in items):
            return (max if op == "max" else min)(items)
        ks = [kind_of(x) for x in items]
        return num(f([to_poly(x) for x in items]), "float" if "float" in ks else "int")
    if all(is_number(x) or (isinstance(x, ArrV) and not any(x.axes)) for x in items):
        r = items[0]
        for y in items[1:]:
            r = I.ew(lambda p, q: f([p, q]), [r, y], what="clamp")
        return r
    if all(isinstance(x, str) for x in items):
        return (max if op == "max" else min)(items)
    return I.top("%s() operands" % op)


# ------------------------------------------------------------------ sequences
def sequence_to_array(I, v, like=None, be="np"):
    if isinstance(like, ArrV):
        be = like.be
    if isinstance(v, ArrV):
        return v
    if isinstance(v, PhiV):
        return I.split(v, lambda x: sequence_to_array(I, x, like, be))
    if isinstance(v, RangeV):
        r = I.range_to_arr(v)
        return r.copy(be=be, dev="np" if be == "np" else "cpu") if r is not None else None
    dev = "np" if be == "np" else "cpu"
    if isinstance(v, ListV):
        c = I.st.heap[v.hid]
        if isinstance(c, SymItems):
            return sym_stack(I, c, be, dev)
    items = I.concrete_items(v)
    if items is None:
        return None
    if not items:
        return None
    if all(is_number(x) for x in items):
        ks = {kind_of(x) for x in items}
        dt = "bool" if ks == {"bool"} else ("i64" if "float" not in ks else ("f64" if be == "np" else I.env.default_dtype))
        if "complex" in ks:
            return None
        return I.items_arr(items, dt, be)
    if any(isinstance(x, (ListV, tuple)) for x in items):
        xs = [sequence_to_array(I, x, None, be) if isinstance(x, (ListV, tuple)) else x for x in items]
        if any(x is None for x in xs):
            return None
        items = xs
    if all(isinstance(x, ArrV) or is_number(x) for x in items):
        xs = [x if isinstance(x, ArrV) else coerce(I, x, be) for x in items]
        if any(x is None for x in xs):
            return None
        r = stack(I, be, tuple(xs), 0)
        return r if isinstance(r, ArrV) else None
    return None


def sym_stack(I, c, be, dev):
    """array from a list of symbolic length"""
    sub = {}
    vs = []
    for v in c.vars:
        w = ivar(v.args[0])
        sub[v] = atom1(w)
        vs.append(w)
    if is_number(c.elem):
        k = kind_of(c.elem)
        dt = {"bool": "bool", "int": "i64"}.get(k, "f64" if be == "np" else I.env.default_dtype)
        return I.fresh([tuple(vs)], subst(to_poly(c.elem), sub), dt, dev, False, frozenset(), be)
    if isinstance(c.elem, ArrV):
        axes, body = I.refresh(c.elem)
        r = I.fresh([tuple(vs)] + axes, subst(body, sub), c.elem.dtype, c.elem.dev, c.elem.grad, c.elem.taint, c.elem.be)
        return r
    if isinstance(c.elem, tuple) and c.elem and all(is_number(x) for x in c.elem):
        w = ivar(P(len(c.elem)))
        body = ZERO
        for i, x in enumerate(c.elem):
            body = body + pmul(delta(atom1(w) - i), subst(to_poly(x), sub))
        return I.fresh([tuple(vs), (w,)], body, "i64", dev, False, frozenset(), be)
    return None


def as_list(I, v, typ):
    """list(v) / tuple(v)"""
    if isinstance(v, PhiV):
        return I.split(v, lambda x: as_list(I, x, typ))
    if isinstance(v, Top):
        return v
    items = I.concrete_items(v)
    if items is not None:
        return tuple(items) if typ == "tuple" else ListV(I.alloc(list(items)))
    if isinstance(v, ListV):
        c = I.st.heap[v.hid]
        if isinstance(c, SymItems):
            return ListV(I.alloc(c))
    sy = I.sym_iter(v)
    if sy is not None:
        return ListV(I.alloc(SymItems(tuple(sy[0]), sy[1], sy[2])))
    if v is None or is_number(v):
        I.crash("TypeError", "'%s' object is not iterable" % (kind_of(v) or "NoneType"))
    return I.top("%s()" % typ)


def py_sum(I, v, start=0):
    items = I.concrete_items(v)
    if items is None:
        if isinstance(v, ListV) and isinstance(I.st.heap[v.hid], SymItems):
            c = I.st.heap[v.hid]
        else:
            sy = I.sym_iter(v)
            if sy is None:
                return I.top("sum of iterable")
            c = SymItems(tuple(sy[0]), sy[1], sy[2])
        if is_number(c.elem):
            k = kind_of(c.elem)
            return I.binop("Add", start, num(mk_sum(tuple(c.vars), to_poly(c.elem)), "int" if k == "bool" else k))
        if isinstance(c.elem, ArrV):
            axes, body = I.refresh(c.elem)
            try:
                b = mk_sum(tuple(c.vars), body)
            except Blowup:
                b = unk("sum")
            r = I.fresh(axes, b, c.elem.dtype, c.elem.dev, c.elem.grad, c.elem.taint, c.elem.be, c.elem.scalar)
            return I.binop("Add", start, r) if start != 0 else r
        return I.top("sum of symbolic list")
    r = start
    for x in items:
        r = I.binop("Add", r, x)
    return r


def py_all(I, v, isany):
    if isinstance(v, ArrV):
        return FN["any" if isany else "all"][2](I, v.be, {"x": v, "axis": None, "keepdims": False, "_kw": {}})
    items = I.concrete_items(v)
    if items is None:
        if isinstance(v, ListV) and isinstance(I.st.heap[v.hid], SymItems):
            c = I.st.heap[v.hid]
            t = I.truth_poly(c.elem)
            r = mk_any(tuple(c.vars), t) if isany else mk_all(tuple(c.vars), t)
            return num(r, "bool")
        return Num(unk("all/any"), "bool")
    r = ZERO if isany else ONE
    for x in items:
        t = I.truth_poly(x)
        r = bor(r, t) if isany else band(r, t)
    return num(r, "bool")


# ------------------------------------------------------------------ isinstance
def type_names(I, v):
    """set of dotted class names v belongs to, or None"""
    if v is None:
        return {"types.NoneType"}
    if isinstance(v, ArrV):
        if v.be == "pt":
            return {"torch.Tensor"}
        if v.scalar:
            s = {"numpy.generic", "numpy.number" if v.dtype != "bool" else "numpy.bool_", "numpy." + {"f32": "float32", "f64": "float64", "i64": "int64", "i16": "int16",
                 "i32": "int32", "bool": "bool_", "c64": "complex64", "c128": "complex128"}.get(v.dtype, "generic")}
            if CAT[v.dtype] == 2:
                s |= {"numpy.floating", "numpy.inexact", "numbers.Number", "numbers.Real"}
                if v.dtype == "f64":
                    s |= {"builtins.float"}
            if CAT[v.dtype] == 1:
                s |= {"numpy.integer", "numbers.Number", "numbers.Integral", "numbers.Real"}
            return s
        return {"numpy.ndarray"}
    if isinstance(v, MaskSel):
        return {"torch.Tensor"} if v.be == "pt" else {"numpy.ndarray"}
    k = kind_of(v)
    if k == "bool":
        return {"builtins.bool", "builtins.int", "numbers.Number", "numbers.Integral", "numbers.Real"}
    if k == "int":
        return {"builtins.int", "numbers.Number", "numbers.Integral", "numbers.Real"}
    if k == "float":
        return {"builtins.float", "numbers.Number", "numbers.Real"}
    if k == "complex":
        return {"builtins.complex", "numbers.Number"}
    if isinstance(v, (str, StrTop)):
        return {"builtins.str", "collections.abc.Sequence"}
    if isinstance(v, tuple):
        return {"builtins.tuple", "collections.abc.Sequence", "collections.abc.Iterable", "torch.Size"}
    if isinstance(v, ListV):
        return {"builtins.list", "collections.abc.Sequence", "collections.abc.Iterable"}
    if isinstance(v, DictV):
        return {"builtins.dict", "collections.abc.Mapping"}
    if isinstance(v, SetV):
        return {"builtins.set", "builtins.frozenset"}
    if isinstance(v, DT):
        return {"torch.dtype", "numpy.dtype"}
    if isinstance(v, Dev):
        return {"torch.device"}
    if isinstance(v, (Func, Bound, Partial, ExtM)):
        return {"collections.abc.Callable", "typing.Callable", "types.FunctionType"}
    if isinstance(v, SliceV):
        return {"builtins.slice"}
    if isinstance(v, RangeV):
        return {"builtins.range", "collections.abc.Sequence"}
    if isinstance(v, (Cls,)):
        return {"builtins.type"}
    return None


def isinstance_(I, v, c):
    if isinstance(v, PhiV):
        return I.split(v, lambda x: isinstance_(I, x, c))
    if isinstance(c, PhiV):
        return I.split(c, lambda x: isinstance_(I, v, x))
    if isinstance(v, Top):
        return Num(unk("isinstance"), "bool")
    if isinstance(c, (tuple,)):
        r = False
        for x in c:
            t = isinstance_(I, v, x)
            if t is True:
                return True
            if t is not False:
                r = t
        return r
    if isinstance(c, Ext) and c.path == "builtins.object":
        return True
    if isinstance(v, Inst):
        if isinstance(c, Ext) and c.path == "builtins.tuple":
            return v.cls.kind == "namedtuple"
        for k in I.mro(v.cls):
            if k is c or (isinstance(k, Ext) and isinstance(c, Ext) and k.path == c.path):
                return True
        return False
    if isinstance(v, Exc):
        m = I.exc_match(v, c)
        return m is True
    names = type_names(I, v)
    if isinstance(c, Cls):
        if names is not None:
            return False
        return Num(unk("isinstance"), "bool")
    if not isinstance(c, Ext):
        if isinstance(c, (ListV, str)) or c is None:
            I.crash("TypeError", "isinstance() arg 2 must be a type")
        return Num(unk("isinstance"), "bool")
    if names is None:
        return Num(unk("isinstance"), "bool")
    p = c.path
    if p == "torch.FloatTensor":
        return isinstance(v, ArrV) and v.be == "pt" and v.dtype == "f32" and v.dev == "cpu"
    if p == "torch.autograd.Variable":
        p = "torch.Tensor"
    if p.startswith("typing."):
        p = {"typing.Callable": "collections.abc.Callable", "typing.Sequence": "collections.abc.Sequence", "typing.List": "builtins.list", "typing.Tuple": "builtins.tuple",
             "typing.Dict": "builtins.dict", "typing.Mapping": "collections.abc.Mapping", "typing.Iterable": "collections.abc.Iterable"}.get(p, p)
    return p in names


def type_of(I, v):
    if isinstance(v, PhiV):
        return I.split(v, lambda x: type_of(I, x))
    if isinstance(v, Inst):
        return v.cls
    if isinstance(v, Exc):
        return v.cls
    n = type_names(I, v)
    if n is None:
        return I.top("type()")
    if isinstance(v, ArrV) and input_names(I, v):
        b = "torch.Tensor" if v.be == "pt" else "numpy.ndarray"
        return PhiV(facet(I, v, "subclass"), Ext("a subclass of " + b), Ext(b))
    for p in ("torch.Tensor", "numpy.ndarray", "builtins.bool", "builtins.int", "builtins.float", "builtins.complex", "builtins.str", "builtins.tuple", "builtins.list",
              "builtins.dict", "types.NoneType", "builtins.range", "builtins.slice", "torch.device"):
        if p in n:
            return Ext(p)
    for p in sorted(n):
        if p.startswith("numpy.") and p.split(".")[1] in NAMES:
            return Ext(p)
    return I.top("type()")


def py_len(I, v):
    if isinstance(v, PhiV):
        return I.split(v, lambda x: py_len(I, x))
    if isinstance(v, Top):
        return v
    if isinstance(v, ArrV):
        if v.ndim == 0:
            I.crash("TypeError", "len() of unsized object")
        return num(ax_size(v.axes[0]), "int")
    if isinstance(v, MaskSel):
        return num(masksel_count(v), "int")
    if isinstance(v, (tuple, str)):
        return len(v)
    if isinstance(v, ListV):
        c = I.st.heap[v.hid]
        if isinstance(c, list):
            return len(c)
        if isinstance(c, SymItems):
            return num(c.size, "int")
        return I.top("len")
    if isinstance(v, DictV):
        c = I.st.heap[v.hid]
        return len(c) if isinstance(c, dict) else I.top("len")
    if isinstance(v, SetV):
        return len(v.items)
    if isinstance(v, RangeV):
        sy = I.sym_iter(v)
        return num(sy[2], "int") if sy else I.top("len of range")
    if isinstance(v, Inst):
        if v.cls.kind == "namedtuple":
            return len(v.cls.fields)
        m = I.find_method(v.cls, "__len__")
        if m:
            return I.call(Bound(m, v), [], {})
        I.crash("TypeError", "object of type '%s' has no len()" % v.cls.name)
    if v is None or is_number(v):
        I.crash("TypeError", "object has no len()")
    return I.top("len")


def to_index(I, v):
    """value usable as a range bound"""
    if isinstance(v, ArrV) and not any(v.axes):
        return FN["item"][2](I, v.be, {"x": v, "_kw": {}})
    if kind_of(v) == "float":
        I.crash("TypeError", "'float' object cannot be interpreted as an integer")
    if kind_of(v) == "bool":
        return num(to_poly(v), "int") if isinstance(v, Num) else int(v)
    return v


def mk_iter(I, v):
    items = I.concrete_items(v)
    if items is not None:
        return ListV(I.alloc(list(items)))
    return IterV("list", (v,))


# ------------------------------------------------------------------ builtins
def call_builtin(I, n, args, kw):
    for k, a in enumerate(args):
        if isinstance(a, PhiV) and n not in ("print", "isinstance", "type", "tuple", "list", "getattr", "hasattr", "len", "max", "min", "id", "bool", "repr", "str", "setattr",
                                             "int", "float", "zip", "dict"):
            return I.split(a, lambda x: call_builtin(I, n, list(args[:k]) + [x] + list(args[k + 1:]), kw))
    if is_builtin_exc(n):
        return Exc(Ext("builtins." + n), tuple(args))
    if n == "len":
        return py_len(I, args[0])
    if n == "range":
        a = [to_index(I, x) for x in args]
        for x in a:
            if isinstance(x, Top):
                return x
            if not is_number(x):
                I.crash("TypeError", "range() arguments must be integers")
        if len(a) == 1:
            return RangeV(0, a[0], 1)
        return RangeV(a[0], a[1], a[2] if len(a) > 2 else 1)
    if n in ("min", "max"):
        return extremum(I, n, args, kw)
    if n == "abs":
        x = args[0]
        if isinstance(x, ArrV) or isinstance(x, MaskSel):
            return FN["abs"][2](I, x.be, {"x": x, "_kw": {}})
        if isinstance(x, (int, float, complex)) and not isinstance(x, Num):
            return abs(x)
        return mfun(I, x, abs_of, kind_of(x) or "float")
    if n == "sum":
        if isinstance(args[0], ArrV) and args[0].ndim >= 1:
            r = FN["sum"][2](I, args[0].be, {"x": args[0], "axis": 0, "keepdims": False, "dtype": None, "_kw": {}})
            s = args[1] if len(args) > 1 else kw.get("start", 0)
            return r if s == 0 else I.binop("Add", s, r)
        return py_sum(I, args[0], args[1] if len(args) > 1 else kw.get("start", 0))
    if n in ("tuple", "list"):
        if not args:
            return () if n == "tuple" else ListV(I.alloc([]))
        return as_list(I, args[0], n)
    if n in ("set", "frozenset"):
        if not args:
            return SetV(())
        it = I.concrete_items(args[0])
        if it is None:
            return I.top("set()")
        try:
            return SetV(tuple(dict.fromkeys(it)))
        except TypeError:
            return I.top("set()")
    if n == "dict":
        d = {}
        if args:
            v = args[0]
            if isinstance(v, DictV) and isinstance(I.st.heap[v.hid], dict):
                d.update(I.st.heap[v.hid])
            else:
                it = I.concrete_items(v)
                if it is None:
                    return I.top("dict()")
                for x in it:
                    p = I.concrete_items(x)
                    if p is None or len(p) != 2:
                        return I.top("dict()")
                    d[I.key(p[0])] = p[1]
        d.update(kw)
        return DictV(I.alloc(d))
    if n == "zip":
        if len(args) == 1:
            it = I.concrete_items(args[0])
            if it is not None:
                return ListV(I.alloc([(x,) for x in it]))
        return IterV("zip", tuple(args))
    if n == "enumerate":
        st = args[1] if len(args) > 1 else kw.get("start", 0)
        return IterV("enumerate", (args[0], st))
    if n == "reversed":
        return IterV("reversed", (args[0],))
    if n in ("iter",):
        return mk_iter(I, args[0])
    if n == "next":
        it = I.concrete_items(args[0])
        if it:
            if isinstance(args[0], ListV):
                I.st.heap[args[0].hid] = it[1:]
            return it[0]
        if it is not None and len(args) > 1:
            return args[1]
        return I.top("next()")
    if n == "map":
        f = args[0]
        if len(args) == 2:
            it = I.concrete_items(args[1])
            if it is not None:
                return ListV(I.alloc([I.call(f, [x], {}) for x in it]))
            sy = I.sym_iter(args[1])
            if sy is not None:
                return ListV(I.alloc(SymItems(tuple(sy[0]), I.call(f, [sy[1]], {}), sy[2])))
        else:
            its = [I.concrete_items(x) for x in args[1:]]
            if all(i is not None for i in its):
                return ListV(I.alloc([I.call(f, list(x), {}) for x in zip(*its)]))
        return I.top("map()")
    if n == "filter":
        it = I.concrete_items(args[1])
        if it is None:
            return I.top("filter()")
        out = []
        for x in it:
            t = I.truth(x if args[0] is None else I.call(args[0], [x], {}))
            if not isinstance(t, bool):
                return I.top("filter()")
            if t:
                out.append(x)
        return ListV(I.alloc(out))
    if n == "sorted":
        it = I.concrete_items(args[0])
        if it is not None and not kw.get("key") and all(isinstance(x, (int, float)) or isinstance(x, str) for x in it):
            return ListV(I.alloc(sorted(it, reverse=bool(kw.get("reverse", False)))))
        return I.top("sorted()")
    if n in ("all", "any"):
        return py_all(I, args[0], n == "any")
    if n == "print":
        I.event("print", "writes to the standard output")
        return None
    if n in ("open", "input", "exec", "eval", "__import__"):
        I.event("setting", "calls %s()" % n)
        return I.top(n)
    if n == "float":
        return to_float(I, args[0]) if args else 0.0
    if n == "int":
        return to_int(I, args[0]) if args else 0
    if n == "bool":
        if not args:
            return False
        t = I.truth(args[0])
        return t if isinstance(t, bool) else Num(t, "bool")
    if n == "complex":
        if all(isinstance(x, (int, float, complex)) for x in args):
            return complex(*args)
        return I.top("complex()")
    if n in ("str", "repr", "format", "hex", "oct", "chr", "bytes"):
        if n == "str" and args and isinstance(args[0], (str, int)) and not isinstance(args[0], bool):
            return str(args[0])
        return StrTop()
    if n == "isinstance":
        return isinstance_(I, args[0], args[1])
    if n == "issubclass":
        if isinstance(args[0], Cls):
            cs = args[1] if isinstance(args[1], tuple) else (args[1],)
            return any(k is c or (isinstance(k, Ext) and isinstance(c, Ext) and k == c) for k in I.mro(args[0]) for c in cs)
        return Num(unk("issubclass"), "bool")
    if n == "getattr":
        if not isinstance(args[1], str):
            return I.top("getattr with computed name")
        if len(args) > 2:
            o = args[0]
            if isinstance(o, Ext):
                return args[2] if o.path + "." + args[1] in MISSING_EXT else I.getattr(o, args[1])
            return I.getattr(o, args[1], args[2])
        return I.getattr(args[0], args[1])
    if n == "hasattr":
        o, nm = args[0], args[1]
        if isinstance(o, PhiV):
            return I.split(o, lambda x: call_builtin(I, "hasattr", [x, nm], {}))
        if not isinstance(nm, str) or isinstance(o, Top):
            return Num(unk("hasattr"), "bool")
        if isinstance(o, Ext):
            return o.path + "." + nm not in MISSING_EXT
        miss = Ext("?missing")
        r = I.getattr(o, nm, miss)
        return r is not miss
    if n == "setattr":
        I.setattr(args[0], args[1], args[2])
        return None
    if n == "type":
        if len(args) == 1:
            return type_of(I, args[0])
        return I.top("type()")
    if n == "round":
        x = args[0]
        if not isinstance(x, Num) and is_number(x) and all(isinstance(y, int) for y in args[1:]):
            return round(*args)
        if isinstance(x, ArrV):
            return I.ew(lambda p: mk_func("round", [p]), [x], what="round")
        if len(args) == 1 and kind_of(x) == "int":
            return x
        return mfun(I, x, lambda p: mk_func("round", [p]), "int" if len(args) == 1 else "float")
    if n == "pow":
        return I.binop("Pow", args[0], args[1]) if len(args) == 2 else I.top("pow")
    if n == "divmod":
        return (I.binop("FloorDiv", args[0], args[1]), I.binop("Mod", args[0], args[1]))
    if n == "slice":
        a = list(args)
        if len(a) == 1:
            return SliceV(None, a[0], None)
        return SliceV(a[0], a[1], a[2] if len(a) > 2 else None)
    if n == "object":
        return Ext("object()")
    if n == "callable":
        return isinstance(args[0], (Func, Bound, Partial, ExtM, Cls, Ext))
    if n in ("id", "hash"):
        I.event("readstate", "%s() of an object" % n)
        return num(unk(n), "int")
    if n == "ord":
        return ord(args[0]) if isinstance(args[0], str) else I.top("ord")
    if n == "vars":
        if args and isinstance(args[0], Inst):
            return DictV(args[0].hid)
        return I.top("vars")
    if n == "globals":
        return DictV(I.frame().mod.hid)
    if n == "property":
        f = args[0]
        if isinstance(f, Func):
            f.deco = f.deco + ("property",)
        return f
    if n in ("staticmethod", "classmethod"):
        f = args[0]
        if isinstance(f, Func):
            f.deco = f.deco + (n,)
        return f
    return I.top("builtin %s" % n)


# ------------------------------------------------------------------ external calls
def version_tuple(s):
    out = []
    for part in s.split("+")[0].split("."):
        d = ""
        for ch in part:
            if not ch.isdigit():
                break
            d += ch
        if d == "":
            break
        out.append(int(d))
        if len(d) != len(part):
            break
    while len(out) > 1 and out[-1] == 0:
        out.pop()
    return tuple(out)


STATE_READS = ("numpy.random.", "torch.rand", "torch.random.", "torch.cuda.", "torch.manual_seed", "torch.seed", "torch.initial_seed", "random.", "time.", "os.getenv", "os.environ.", "os.getpid",
               "torch.get_num_threads", "torch.normal", "torch.bernoulli", "torch.multinomial", "datetime.", "uuid.", "secrets.", "threading.get_ident", "torch.poisson", "torch.empty_strided",
               "tempfile.", "os.urandom", "torch.are_deterministic", "torch.backends.", "numpy.geterr", "numpy.get_printoptions", "gc.", "inspect.", "platform.", "socket.", "sys.getrefcount",
               "sys._getframe", "weakref.")
SETTINGS = ("numpy.seterr", "numpy.set_printoptions", "numpy.setbufsize", "numpy.seterrcall", "torch.set_", "torch.use_deterministic", "torch.manual_seed", "torch.autograd.set_detect", "warnings.simplefilter",
            "warnings.filterwarnings", "os.environ.", "os.putenv", "random.seed", "numpy.random.seed", "sys.set", "logging.basicConfig", "torch.autograd.set_grad", "os.", "sys.stdout.", "sys.stderr.",
            "sys.path.", "subprocess.", "shutil.", "atexit.", "signal.", "logging.", "torch.save", "numpy.save", "pickle.dump", "json.dump")
HARMLESS = {"warnings.warn", "logging.getLogger", "os.path.join", "os.path.dirname", "os.path.abspath", "os.fspath", "os.path.exists"}


def call_ext(I, path, args, kw):
    head, _, leaf = path.rpartition(".")
    if head == "builtins":
        return call_builtin(I, leaf, list(args), dict(kw))
    root = path.split(".")[0]
    if root in ("numpy", "torch", "scipy"):
        r = call_array(I, path, list(args), dict(kw))
        if r is not NotImplemented:
            return r
    elif root == "math":
        return call_math(I, leaf, args)
    elif root in ("packaging", "distutils", "pkg_resources"):
        return call_version(I, leaf, args)
    elif root == "functools":
        if leaf == "partial":
            return Partial(args[0], tuple(args[1:]), dict(kw))
        if leaf in ("lru_cache", "cache"):
            if args and isinstance(args[0], Func):
                return I.decorate(Ext(path), args[0])
            return Partial(Ext(path), tuple(args), dict(kw))
        if leaf in ("wraps", "singledispatch"):
            return Partial(Ext(path), tuple(args), dict(kw))
        if leaf == "reduce":
            it = I.concrete_items(args[1])
            if it is None:
                return I.top("reduce")
            if len(args) > 2:
                r = args[2]
            elif it:
                r, it = it[0], it[1:]
            else:
                I.crash("TypeError", "reduce() of empty iterable")
            for x in it:
                r = I.call(args[0], [r, x], {})
            return r
    elif root == "operator":
        return call_operator(I, leaf, args)
    elif root == "itertools":
        return call_itertools(I, leaf, args, kw)
    elif root == "copy":
        return py_copy(I, args[0], leaf == "deepcopy")
    elif root == "collections":
        if leaf == "namedtuple":
            fs = args[1]
            if isinstance(fs, str):
                fs = fs.replace(",", " ").split()
            else:
                fs = I.concrete_items(fs)
            env = {}
            df = kw.get("defaults")
            if df is not None:
                dv = I.concrete_items(df)
                env = dict(zip(fs[len(fs) - len(dv):], dv))
            return Cls(args[0] if isinstance(args[0], str) else "nt", "nt." + str(args[0]), I.frame().mod, I.alloc(env), [], None, "namedtuple", list(fs))
        if leaf == "OrderedDict":
            return call_builtin(I, "dict", list(args), kw)
        if leaf == "deque":
            return as_list(I, args[0], "list") if args else ListV(I.alloc([]))
    elif root == "typing":
        if leaf == "cast":
            return args[1]
        if leaf == "NamedTuple" and len(args) == 2:
            fs = [I.concrete_items(x)[0] for x in I.concrete_items(args[1])]
            return Cls(args[0], "nt." + str(args[0]), I.frame().mod, I.alloc({}), [], None, "namedtuple", fs)
        return Ext("typing.Any")
    elif root == "dataclasses":
        if leaf == "dataclass":
            return Partial(Ext(path), tuple(args), dict(kw))
        if leaf == "field":
            return Partial(Ext(path), tuple(args), dict(kw))
        if leaf == "replace" and isinstance(args[0], Inst):
            d = dict(I.st.heap[args[0].hid])
            d.update(kw)
            return Inst(I.alloc(d), args[0].cls)
    elif root == "warnings":
        if leaf == "catch_warnings":
            return Ctxm("plain")
    elif root == "contextlib":
        if leaf in ("nullcontext", "suppress", "ExitStack"):
            return Ctxm("plain", args[0] if args else None)
        return Partial(Ext(path), tuple(args), dict(kw))
    elif root == "importlib":
        if leaf == "import_module" and args and isinstance(args[0], str):
            return I.import_module(args[0])
        return I.top(path)
    elif root == "collections" or root == "abc":
        return I.top(path)
    elif root == "fractions" and leaf == "Fraction":
        return I.top(path)
    if path in HARMLESS:
        return None if path == "warnings.warn" else I.top(path)
    if any(path.startswith(p) for p in SETTINGS):
        I.event("setting", "calls %s" % path)
        return None if leaf.startswith("set") or leaf in ("seed", "manual_seed", "simplefilter", "filterwarnings") else I.top(path)
    if any(path.startswith(p) for p in STATE_READS):
        I.event("readstate", "calls %s" % path)
        return I.top(path)
    if leaf and leaf[0].isupper() and (leaf.endswith("Error") or leaf.endswith("Exception") or leaf.endswith("Warning")):
        return Exc(Ext(path), tuple(args))
    return I.top("call of %s" % path)


def call_math(I, n, args):
    if n == "log2":
        return mfun(I, args[0], lambda p: mk_log(p, "2"))
    if n == "log10":
        return mfun(I, args[0], lambda p: mk_log(p, "10"))
    if n == "log1p":
        return mfun(I, args[0], lambda p: mk_log(p + 1, "e"))
    if n == "log":
        if len(args) == 2:
            b = as_int(to_poly(args[1])) if is_number(args[1]) else None
            if b in (2, 10):
                return mfun(I, args[0], lambda p: mk_log(p, str(b)))
            return I.top("math.log base")
        return mfun(I, args[0], lambda p: mk_log(p, "e"))
    if n == "ceil":
        return mfun(I, args[0], mk_ceil, "int")
    if n == "floor":
        return mfun(I, args[0], lambda p: p if is_index_poly(p) else mk_func("floor", [p]), "int")
    if n == "trunc":
        return to_int(I, args[0])
    if n == "sqrt":
        return mfun(I, args[0], lambda p: ppow(p, H))
    if n == "exp":
        from .libarr import mk_exp
        return mfun(I, args[0], mk_exp)
    if n == "pow":
        return I.binop("Pow", to_float(I, args[0]), args[1])
    if n == "fabs":
        return mfun(I, args[0], abs_of)
    if n in ("isnan", "isinf", "isfinite"):
        f = {"isnan": isnan, "isinf": lambda x: isposinf(x) + isneginf(x), "isfinite": lambda x: ONE - isposinf(x) - isneginf(x) - isnan(x)}[n]
        return mfun(I, args[0], f, "bool")
    if n == "prod":
        it = I.concrete_items(args[0])
        if it is None:
            return I.top("math.prod")
        r = 1
        for x in it:
            r = I.binop("Mult", r, x)
        return r
    if n == "isqrt" or n in ("gcd", "lcm", "comb", "factorial", "isclose"):
        if all(isinstance(x, int) for x in args):
            import math
            return getattr(math, n)(*args)
        return I.top("math." + n)
    return I.top("math." + n)


def call_version(I, n, args):
    if n in ("Version", "parse", "LooseVersion", "StrictVersion", "parse_version"):
        if args and isinstance(args[0], str):
            return VersionV(version_tuple(args[0]))
        return VersionV(None)
    return I.top("packaging." + n)


OPS = {"add": "Add", "sub": "Sub", "mul": "Mult", "truediv": "Div", "floordiv": "FloorDiv", "mod": "Mod", "pow": "Pow", "matmul": "MatMult", "and_": "BitAnd", "or_": "BitOr",
       "xor": "BitXor", "lshift": "LShift", "rshift": "RShift"}
CMPS = {"eq": "Eq", "ne": "NotEq", "lt": "Lt", "le": "LtE", "gt": "Gt", "ge": "GtE", "is_": "Is", "is_not": "IsNot"}


def call_operator(I, n, args):
    if n in OPS:
        return I.binop(OPS[n], args[0], args[1])
    if n in CMPS:
        return I.compare(CMPS[n], args[0], args[1])
    if n == "neg":
        return I.unop("USub", args[0])
    if n == "not_":
        return I.unop("Not", args[0])
    if n == "getitem":
        return I.getsub(args[0], args[1])
    if n == "setitem":
        return I.setsub(args[0], args[1], args[2])
    if n == "contains":
        return I.compare("In", args[1], args[0])
    if n in ("itemgetter", "attrgetter"):
        return Partial(Ext("operator._" + n), tuple(args), {})
    if n == "_itemgetter":
        ks, o = args[:-1], args[-1]
        r = tuple(I.getsub(o, k) for k in ks)
        return r[0] if len(r) == 1 else r
    if n == "_attrgetter":
        ks, o = args[:-1], args[-1]
        r = tuple(I.getattr(o, k) for k in ks)
        return r[0] if len(r) == 1 else r
    if n in ("iadd", "isub", "imul", "itruediv", "ipow"):
        return I.inplace({"iadd": "Add", "isub": "Sub", "imul": "Mult", "itruediv": "Div", "ipow": "Pow"}[n], args[0], args[1])
    return I.top("operator." + n)


def call_itertools(I, n, args, kw):
    import itertools
    if n == "product":
        rep = kw.get("repeat", 1)
        if not isinstance(rep, int):
            return I.top("product repeat")
        args = list(args) * rep
        its = [I.concrete_items(a) for a in args]
        if all(i is not None for i in its):
            r = list(itertools.product(*its))
            if len(r) <= 256:
                return ListV(I.alloc(r))
        if all(isinstance(a, RangeV) and a.lo == 0 and a.step == 1 for a in args):
            return NdIndexV([a.hi for a in args])
        return IterV("product", tuple(args))
    if n == "chain":
        its = [I.concrete_items(a) for a in args]
        if all(i is not None for i in its):
            return ListV(I.alloc([x for i in its for x in i]))
        return I.top("chain")
    if n == "from_iterable":
        it = I.concrete_items(args[0])
        if it is not None:
            return call_itertools(I, "chain", it, {})
        return I.top("chain")
    if n == "permutations" or n == "combinations":
        it = I.concrete_items(args[0])
        if it is not None and len(it) <= 5:
            return ListV(I.alloc(list(getattr(itertools, n)(it, *args[1:]))))
        return I.top(n)
    if n == "repeat" and len(args) == 2 and isinstance(args[1], int):
        return ListV(I.alloc([args[0]] * args[1]))
    if n == "zip_longest":
        its = [I.concrete_items(a) for a in args]
        if all(i is not None for i in its):
            return ListV(I.alloc(list(itertools.zip_longest(*its))))
    if n == "accumulate":
        it = I.concrete_items(args[0])
        if it:
            out = [it[0]]
            for x in it[1:]:
                out.append(I.binop("Add", out[-1], x))
            return ListV(I.alloc(out))
    if n == "starmap":
        it = I.concrete_items(args[1])
        if it is not None:
            return ListV(I.alloc([I.call(args[0], I.concrete_items(x), {}) for x in it]))
    return I.top("itertools." + n)


def py_copy(I, v, deep):
    if isinstance(v, PhiV):
        return I.split(v, lambda x: py_copy(I, x, deep))
    if isinstance(v, ArrV):
        return I.copy_of(I.eff(v))
    if isinstance(v, ListV):
        c = I.st.heap[v.hid]
        if isinstance(c, list):
            return ListV(I.alloc([py_copy(I, x, True) if deep else x for x in c]))
        return ListV(I.alloc(c))
    if isinstance(v, DictV):
        c = I.st.heap[v.hid]
        return DictV(I.alloc({k: py_copy(I, x, True) if deep else x for k, x in c.items()})) if isinstance(c, dict) else I.top("copy")
    if isinstance(v, Inst):
        d = I.st.heap[v.hid]
        return Inst(I.alloc({k: py_copy(I, x, True) if deep else x for k, x in d.items()}), v.cls)
    if isinstance(v, tuple) and deep:
        return tuple(py_copy(I, x, True) for x in v)
    return v


# ------------------------------------------------------------------ arrays: dispatch
def has_top(I, v):
    return isinstance(v, Top)


def call_array(I, path, args, kw):
    root = path.split(".")[0]
    be = "pt" if root == "torch" else "np"
    name = path[len(root) + 1:]
    r = special(I, root, be, name, args, kw)
    if r is not NotImplemented:
        return r
    for p in ("numpy.random.", "torch.rand", "torch.random.", "torch.cuda.", "torch.backends.", "torch.normal", "torch.multinomial", "torch.bernoulli"):
        if path.startswith(p):
            if name.endswith("seed"):
                I.event("setting", "calls %s" % path)
            else:
                I.event("readstate", "calls %s" % path)
            return I.top(path)
    if any(path.startswith(p) for p in SETTINGS if not p.startswith("os.")):
        I.event("setting", "calls %s" % path)
        return None
    if root == "torch" and name.startswith("Tensor."):
        return call_method(I, args[0], name[7:], args[1:], kw) if args else I.top(path)
    if root == "numpy" and name.startswith("ndarray."):
        return call_method(I, args[0], name[8:], args[1:], kw) if args else I.top(path)
    for pre in ("nn.functional.", "special.", "_C._nn.", "functional.", "core.", "compat.", "_VF."):
        if name.startswith(pre) and name not in FN:
            name = name[len(pre):]
    entry = FN.get({"torch": "pt", "numpy": "np", "scipy": "scipy"}[root] + ":" + name)
    if entry is None and root == "scipy":
        entry = FN.get("np:" + name) if name.startswith("linalg.") else None
    if entry is None:
        entry = FN.get(name)
    if entry is None and be == "pt" and name.endswith("_") and FN.get(name[:-1]) is not None:
        return call_method(I, args[0], name, args[1:], kw)
    if entry is None:
        return NotImplemented
    return apply_fn(I, entry, be, name, args, kw, root, path)


SPLIT_OK = {"where"}


def apply_fn(I, entry, be, name, args, kw, lib, path):
    # unknown and path dependent arguments
    for k, a in enumerate(args):
        if isinstance(a, PhiV):
            return I.split(a, lambda x: apply_fn(I, entry, be, name, list(args[:k]) + [x] + list(args[k + 1:]), kw, lib, path))
        if isinstance(a, Top):
            I.escape(args, kw)
            return a
        if isinstance(a, (tuple, ListV)):
            c = a if isinstance(a, tuple) else I.st.heap[a.hid]
            if isinstance(c, Top):
                return c
            if isinstance(c, (tuple, list)):
                for j, x in enumerate(c):
                    if isinstance(x, PhiV):
                        def again(y, j=j, k=k, c=c):
                            return apply_fn(I, entry, be, name, list(args[:k]) + [tuple(list(c[:j]) + [y] + list(c[j + 1:]))] + list(args[k + 1:]), kw, lib, path)
                        return I.split(x, again)
                    if isinstance(x, Top):
                        return x
    for k, a in kw.items():
        if isinstance(a, PhiV):
            return I.split(a, lambda x: apply_fn(I, entry, be, name, args, dict(kw, **{k: x}), lib, path))
        if isinstance(a, Top):
            return a
    # numpy functions applied to tensors
    arrs = [a for a in args if isinstance(a, ArrV)] + [a for a in kw.values() if isinstance(a, ArrV)]
    if be == "np" and any(a.be == "pt" for a in arrs):
        I.event("mixbackend", "%s applied to a torch tensor" % path)
    if be == "pt" and name not in ("from_numpy", "as_tensor", "tensor", "asarray", "is_tensor") and any(a.be == "np" and not a.scalar for a in arrs):
        I.crash("TypeError", "%s(): argument must be Tensor, not ndarray" % path)
    kw = {k: v for k, v in kw.items() if k not in IGNORED_KW or any(k in ns for ns, d in entry[0])}
    try:
        b = bindsig(entry, args, kw)
    except BadCall as ex:
        if "numpy" in path or "torch" in path:
            return I.top("call of %s: %s" % (path, ex))
        return I.top(str(ex))
    b["_fname"], b["_lib"] = name.split(".")[-1], lib
    # 'keyword only' leftovers are consumed by the function
    if b["_kw"] and set(b["_kw"]) - {"out", "dtype", "device", "axis", "dim", "shape", "size", "where", "initial", "alpha", "rounding_mode", "as_tuple", "stop", "end", "start", "step",
                                     "requires_grad", "copy", "ndmin", "keepdims", "keepdim", "dims", "mean", "other", "weights", "retstep", "base", "value", "constant_values", "mode", "memory_format",
                                     "sizes", "endpoint", "num", "steps", "posinf", "neginf", "assume_a", "sym_pos", "lower", "upper", "hermitian", "left", "ndim", "correction", "ddof", "unbiased",
                                     "repeats", "reps", "shifts", "indices", "sections", "max", "min", "equal_nan", "dtype_", "descending", "stable", "full_matrices", "reduction"}:
        return I.top("%s(): unexpected keyword argument %s" % (path, sorted(b["_kw"])))
    try:
        r = entry[2](I, be, b)
    except Blowup:
        return I.top("expression too large")
    left = set(b["_kw"]) - {"_x"}
    if left:
        k = b["_kw"]
        if "dtype" in k and isinstance(r, ArrV) and k["dtype"] is not None:
            d = as_dtype(I, k["dtype"])
            if d is not None and d != r.dtype:
                r = cast(I, r, d)
            left.discard("dtype")
        left -= {"requires_grad", "copy", "stable", "memory_format", "device", "ndmin"}
        if any(k[x] is not None for x in left):
            return I.top("%s(): keyword %s not modelled" % (path, sorted(left)))
    return r


def special(I, root, be, name, args, kw):
    leaf = name.split(".")[-1]
    if name == "ndindex":
        if len(args) == 1 and not is_number(args[0]):
            v = args[0]
            if isinstance(v, PhiV):
                return I.split(v, lambda x: special(I, root, be, name, [x], kw))
            it = I.concrete_items(v)
            if it is None:
                return I.top("ndindex")
            return NdIndexV(list(it))
        return NdIndexV(list(args))
    if name in ("finfo", "iinfo"):
        d = None
        if args:
            d = args[0].dtype if isinstance(args[0], ArrV) else as_dtype(I, args[0])
        else:
            d = I.env.default_dtype if be == "pt" else "f64"
        return Ctxm("finfo", d)
    if root == "torch":
        if name in ("no_grad", "inference_mode", "autograd.no_grad", "autograd.grad_mode.no_grad"):
            if name == "inference_mode" and args and args[0] is False:
                return Ctxm("plain")
            return Ctxm("nograd")
        if name in ("enable_grad", "autograd.enable_grad"):
            return Ctxm("grad")
        if name in ("set_grad_enabled", "autograd.set_grad_enabled"):
            v = args[0] if args else kw.get("mode")
            t = I.truth(v)
            return Ctxm("gradset", bool(t) if isinstance(t, bool) else True)
        if name in ("autocast", "cuda.amp.autocast", "amp.autocast", "autograd.profiler.record_function", "autograd.detect_anomaly", "profiler.record_function", "device_"):
            return Ctxm("plain")
        if name == "get_default_dtype":
            return DT(I.env.default_dtype)
        if name == "get_default_device":
            return Dev("cpu")
        if name in ("jit.is_scripting", "jit.is_tracing", "is_inference_mode_enabled", "overrides.has_torch_function", "compiler.is_compiling", "is_autocast_enabled"):
            return False
        if name == "is_grad_enabled":
            return not I.st.nograd
        if name == "device":
            if args and isinstance(args[0], Dev):
                return args[0]
            if args and isinstance(args[0], str):
                return Dev("cpu" if args[0] == "cpu" else "dev:" + args[0])
            return I.top("torch.device")
        if name == "Size":
            return as_list(I, args[0], "tuple") if args else ()
        if name in ("Tensor", "FloatTensor"):
            return I.top("legacy tensor constructor")
        if name in ("jit.script", "compile", "jit.ignore", "jit.unused", "jit.export", "_dynamo.disable", "compiler.disable"):
            return args[0] if args else Ext("torch." + name)
        if name in ("utils.checkpoint.checkpoint",):
            kk = {k: v for k, v in kw.items() if k not in ("use_reentrant", "preserve_rng_state")}
            return I.call(args[0], args[1:], kk)
        if name in ("linalg.solve_ex", "linalg.inv_ex"):
            r = call_array(I, "torch.linalg." + name[7:-3], args, {})
            return (r, I.top("info"))
        if name in ("_assert", "_check"):
            t = I.truth(args[0])
            return None
        if name in ("promote_types", "result_type"):
            return NotImplemented
    if root == "numpy":
        if name in ("errstate", "printoptions"):
            return Ctxm("plain")
        if name == "dtype":
            d = as_dtype(I, args[0])
            return DT(d) if d is not None else I.top("dtype")
        if name in ("isscalar",):
            return NotImplemented
        if leaf in NAMES and "." not in name and args:
            d = as_dtype(I, Ext("numpy." + leaf))
            v = args[0]
            if d is not None:
                if isinstance(v, PhiV):
                    return I.split(v, lambda x: special(I, root, be, name, [x], kw))
                if isinstance(v, ArrV):
                    return cast(I, v, d, True)
                if is_number(v):
                    r = coerce(I, v, "np", d)
                    if isinstance(r, ArrV):
                        if CAT[d] == 1 and kind_of(v) == "float":
                            return num_arr_trunc(I, r, d)
                        r.scalar = True
                    return r
                return I.top("scalar constructor")
        if name in ("prod", "product"):
            if args and not isinstance(args[0], ArrV) and I.concrete_items(args[0]) is not None and len(args) == 1 and not kw:
                return call_math(I, "prod", args)
        if name in ("ceil", "floor", "sqrt", "log2", "log10", "log") and args and is_number(args[0]) and not kw:
            r = call_math(I, name, [args[0]])
            if is_number(r):
                return num(to_poly(r), "float") if not isinstance(r, (int, float)) else float(r)
            return r
        if name in ("power", "maximum", "minimum", "floor_divide", "mod", "add", "subtract", "multiply", "divide") and all(is_number(a) for a in args) and len(args) == 2:
            if name in ("maximum", "minimum"):
                return extremum(I, name[:3], args, {})
            return I.binop({"power": "Pow", "floor_divide": "FloorDiv", "mod": "Mod", "add": "Add", "subtract": "Sub", "multiply": "Mult", "divide": "Div"}[name], *args)
        if name in ("vectorize",):
            return I.top("np.vectorize")
        if name in ("ufunc", "set_printoptions"):
            return NotImplemented
        if name == "may_share_memory" or name == "shares_memory":
            return Num(unk("memory"), "bool")
        if name.endswith(".outer") or name.endswith(".reduce") or name.endswith(".accumulate") or name.endswith(".at"):
            return ufunc_method(I, name, args, kw)
    if root == "scipy":
        if name == "optimize.linear_sum_assignment":
            c = args[0] if args else kw.get("cost_matrix")
            mx = args[1] if len(args) > 1 else kw.get("maximize", False)
            return lsa(I, c, mx, "np")
        if name in ("linalg.toeplitz", "linalg.solve_toeplitz", "linalg.circulant"):
            return I.top("scipy." + name)
    return NotImplemented


def num_arr_trunc(I, r, d):
    return cast(I, r.copy(dtype="f64"), d, True)


def ufunc_method(I, name, args, kw):
    base, _, m = name.rpartition(".")
    if m == "outer" and base in la.BIN:
        a, b = coerce(I, args[0], "np"), coerce(I, args[1], "np")
        if a is None or b is None:
            return I.top("outer")
        a2 = a.copy(axes=a.axes + ((),) * b.ndim, scalar=False)
        return arr_binop(I, la.BIN[base], a2, b)
    if m == "reduce" and base in ("add", "maximum", "minimum", "logical_and", "logical_or", "multiply"):
        f = {"add": "sum", "maximum": "amax", "minimum": "amin", "logical_and": "all", "logical_or": "any", "multiply": "prod"}[base]
        if len(args) == 1 and "axis" not in kw:
            kw = dict(kw, axis=0)
        it = args[0]
        if not isinstance(it, ArrV):
            it = sequence_to_array(I, it)
            if it is None:
                return I.top("ufunc reduce")
        return call_array(I, "numpy." + f, [it] + list(args[1:]), kw)
    return I.top("numpy." + name)


def lsa(I, c, mx, be, strict=False):
    """linear sum assignment: rows / columns of an optimal pairing"""
    if isinstance(c, PhiV):
        return I.split(c, lambda x: lsa(I, x, mx, be, strict))
    if isinstance(mx, PhiV):
        return I.split(mx, lambda x: lsa(I, c, x, be, strict))
    if isinstance(c, Top):
        return (I.top("lsa of unknown"), I.top("lsa of unknown"))
    c = conv(I, c, "np") if be == "np" else c
    if not isinstance(c, ArrV):
        I.crash("ValueError", "expected a matrix")
    if c.ndim != 2:
        I.crash("ValueError", "expected a matrix (2-D array), got a %d array" % c.ndim)
    if be == "np" and c.be == "pt":
        I.event("mixbackend", "scipy.optimize.linear_sum_assignment applied to a torch tensor")
        if c.grad:
            I.crash("RuntimeError", "conversion of a tensor that requires grad")
    t = I.truth(mx)
    if not isinstance(t, bool):
        return (I.top("lsa maximize"), I.top("lsa maximize"))
    axes, body = I.refresh(I.eff(c))
    vs = []
    for ax in axes:
        if len(ax) == 1:
            vs.append(ax[0])
        else:
            w = ivar(ax_size(ax))
            if ax:
                body = subst(body, unflatten(ax, atom1(w)))
            vs.append(w)
    v1, v2 = vs
    n0, n1 = v1.args[0], v2.args[0]
    bad = bor(isnan(body), isneginf(body) if not t else isposinf(body))
    if strict:
        bad = bor(bor(isnan(body), isposinf(body)), isneginf(body))
    cond = mk_any((v1, v2), bad)
    if bool_const(cond) is not False:
        s0 = I.st
        try:
            I.st = s0.fork(cond)
            I.do_raise(Exc(Ext("builtins.ValueError"), ("matrix contains invalid numeric entries",)))
        except Exception as ex:
            if type(ex).__name__ != "Dead":
                raise
        I.st = s0
        s0.pc = s0.pc + (ONE - cond,)
    k = mk_min([n0, n1])
    ax = I.mk_axis(k)
    kk = flat_index(ax)
    dev = c.dev
    r = I.fresh([ax], mk_lsa("row", v1, v2, body, kk, t), "i64", dev, False, frozenset(), be)
    ax2 = I.mk_axis(k)
    q = I.fresh([ax2], mk_lsa("col", v1, v2, body, flat_index(ax2), t), "i64", dev, False, frozenset(), be)
    I.event("lsa", "linear sum assignment", cost=c, vars=(v1, v2), body=body, maximize=t)
    return (r, q)


def lsa_summary(I, f, args, kw):
    """summary of the pure torch solver (its own steps are checked separately, C16)"""
    env = I.bind(f, args, kw)
    names = [a.arg for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs]
    c = env[names[0]]
    mx = env[names[1]] if len(names) > 1 else False
    return lsa(I, c, mx, "pt", True)


# ------------------------------------------------------------------ attributes
def stride_tuple(I, a):
    return tuple(Stride(a, k) for k in range(a.ndim))


def val_attr(I, o, n, default=UNDEF):
    if isinstance(o, MaskSel):
        if n == "dtype":
            return DT(o.dtype)
        if n == "device":
            return Dev(o.dev)
        if n == "size" and o.be == "np":
            return num(masksel_count(o), "int")
        if n == "shape":
            return (num(masksel_count(o), "int"),)
        if n == "ndim":
            return 1
        return ExtM(o, n)
    if isinstance(o, ArrV):
        r = arr_attr(I, o, n)
        if r is not NotImplemented:
            return r
        if has_method(o, n):
            return ExtM(o, n)
        if default is not UNDEF:
            return default
        if n.startswith("__"):
            return ExtM(o, n)
        I.crash("AttributeError", "'%s' object has no attribute '%s'" % ("Tensor" if o.be == "pt" else "numpy.ndarray", n))
    if isinstance(o, tuple):
        fs = getattr(o, "fields", None)
        if fs and n in fs:
            return o[fs.index(n)]
        if n in ("count", "index", "numel") or n.startswith("__"):
            return ExtM(o, n)
    if isinstance(o, str) or isinstance(o, StrTop):
        if n in dir(str):
            return ExtM(o, n)
    if isinstance(o, (ListV,)):
        if n in dir(list) or n in ("popleft", "appendleft"):
            return ExtM(o, n)
    if isinstance(o, DictV):
        if n in dir(dict):
            return ExtM(o, n)
    if isinstance(o, SetV):
        if n in dir(set):
            return ExtM(o, n)
    if isinstance(o, SliceV):
        if n in ("start", "stop", "step"):
            return {"start": o.lo, "stop": o.hi, "step": o.step}[n]
    if isinstance(o, RangeV):
        if n in ("start", "stop", "step"):
            return {"start": o.lo, "stop": o.hi, "step": o.step}[n]
    k = kind_of(o)
    if k:
        if n == "real":
            return o if not isinstance(o, complex) else o.real
        if n == "imag":
            return 0 if not isinstance(o, complex) else o.imag
        if n in ("bit_length", "is_integer", "conjugate", "item", "numerator", "denominator", "as_integer_ratio") or n.startswith("__"):
            return ExtM(o, n)
        if default is not UNDEF:
            return default
        I.crash("AttributeError", "'%s' object has no attribute '%s'" % (k, n))
    if isinstance(o, DT):
        if n == "is_floating_point":
            return CAT[o.n] == 2
        if n == "is_complex":
            return CAT[o.n] == 3
        if n == "kind":
            return {0: "b", 1: "i" if o.n != "u8" else "u", 2: "f", 3: "c"}[CAT[o.n]]
        if n == "itemsize":
            return max(1, WIDTH[o.n] // 8)
        if n == "name":
            for nm in ("float32", "float64", "float16", "int64", "int32", "int16", "int8", "uint8", "bool", "complex64", "complex128"):
                if NAMES[nm] == o.n:
                    return nm
        if n == "type":
            return Ext("numpy." + {"f32": "float32", "f64": "float64", "i64": "int64", "i32": "int32", "i16": "int16", "bool": "bool_", "c64": "complex64", "c128": "complex128"}.get(o.n, "generic"))
        if n in ("char", "str"):
            return StrTop()
        return ExtM(o, n)
    if isinstance(o, Dev):
        if n == "type":
            return "cpu" if o.n == "cpu" else StrTop()
        if n == "index":
            return None if o.n == "cpu" else I.top("device index")
        return I.top("device attribute")
    if isinstance(o, Ctxm):
        if o.kind == "finfo" and o.val is not None:
            if n in ("eps", "resolution"):
                v = EPS.get(o.val)
                return Num(const(Fraction(v)), "float") if v is not None else I.top("finfo")
            if n in ("tiny", "smallest_normal"):
                v = TINY.get(o.val)
                return Num(const(Fraction(v)), "float") if v is not None else I.top("finfo")
            if n == "max":
                return Num(const(Fraction(FMAX[o.val])), "float") if o.val in FMAX else I.top("iinfo")
            if n == "min":
                return Num(const(-Fraction(FMAX[o.val])), "float") if o.val in FMAX else I.top("iinfo")
            if n == "dtype":
                return DT(o.val)
        return ExtM(o, n)
    if isinstance(o, VersionV):
        if n == "release":
            return o.t if o.t is not None else I.top("version")
        if n in ("major", "minor", "micro") and o.t is not None:
            k = ("major", "minor", "micro").index(n)
            return o.t[k] if k < len(o.t) else 0
        return I.top("version attribute")
    if isinstance(o, Exc):
        if n == "args":
            return tuple(o.args)
        if n in ("with_traceback", "add_note", "__class__"):
            return ExtM(o, n)
        return I.top("exception attribute")
    if isinstance(o, Partial):
        if n == "func":
            return o.f
        if n in ("args",):
            return tuple(o.args)
        return I.top("partial attribute")
    if isinstance(o, Stride):
        return I.top("stride attribute")
    if isinstance(o, Flags):
        return flag(I, o.arr, n)
    if isinstance(o, (Bound,)):
        if n == "__func__":
            return o.func
        if n == "__self__":
            return o.self_
        return I.getattr(o.func, n, default) if isinstance(o.func, Func) else I.top("method attribute")
    if isinstance(o, ExtM):
        return ExtM(o, n)
    if isinstance(o, IterV) and n in ("__next__", "__iter__"):
        return ExtM(o, n)
    if default is not UNDEF:
        return default
    if o is None or o is UNDEF or isinstance(o, (tuple, str, ListV, DictV, SetV, RangeV, SliceV)):
        I.crash("AttributeError", "'%s' object has no attribute '%s'" % ("NoneType" if o is None else type(o).__name__, n))
    return I.top("attribute %s of %s" % (n, type(o).__name__))


def has_method(a, n):
    if a.be == "np":
        return n in NP_METHODS
    if n in NP_ONLY:
        return False
    if "m:" + n in FN or "pt:" + n in FN:
        return True
    if n in FN and "." not in n:
        return True
    if n.endswith("_") and (n[:-1] in PT_INPLACE_EXTRA or n in FN):
        return True
    return n in ("backward", "register_hook", "tolist", "cpu", "cuda", "numpy", "t", "is_shared", "data_ptr", "element_size", "apply_", "map_", "share_memory_", "det", "logdet",
                 "qr", "svd", "eig", "lu", "sort", "new", "is_set_to", "untyped_storage", "storage", "histc", "index_copy", "scatter", "scatter_add")


def arr_attr(I, o, n):
    if n == "shape":
        return tuple(num(s, "int") for s in o.shape())
    if n == "ndim":
        return o.ndim
    if n == "T":
        if o.be == "np" or o.ndim == 2:
            return I.transpose(o, list(range(o.ndim))[::-1])
        return I.transpose(o, list(range(o.ndim))[::-1])
    if n == "mT":
        if o.be == "np":
            return NotImplemented
        if o.ndim < 2:
            I.crash("RuntimeError", "tensor.mT is only supported on matrices")
        return swap(I, o, -1, -2)
    if n in ("H", "mH"):
        if o.be == "np":
            return NotImplemented
        return la.unary(I, swap(I, o, -1, -2), conj, "conj")
    if n == "dtype":
        return DT(o.dtype)
    if n == "real":
        return real_part(I, o)
    if n == "imag":
        return imag_part(I, o)
    if n == "itemsize":
        return max(1, WIDTH[o.dtype] // 8)
    if o.be == "np":
        if n == "size":
            return numel(o)
        if n == "strides":
            return stride_tuple(I, o)
        if n == "nbytes":
            return I.top("nbytes")
        if n == "flat":
            return I.reshape(o, [-1]) if True else None
        if n == "flags":
            return Flags(o)
        if n in ("base", "data", "ctypes"):
            return I.top("array internals")
        if n in ("__array__", "__array_interface__"):
            return ExtM(o, n)
        return NotImplemented
    if n == "device":
        return Dev(o.dev)
    if n == "requires_grad":
        return bool(o.grad) and not I.st.nograd
    if n in ("data",):
        return FN["detach"][2](I, "pt", {"x": o, "_kw": {}})
    if n == "is_cuda":
        return Num(unk("is_cuda"), "bool") if o.dev != "cpu" else False
    if n in ("is_leaf", "is_sparse", "is_quantized", "is_mps", "is_xpu"):
        if n == "is_leaf":
            return Num(facet(I, o, "leaf"), "bool") if input_names(I, o) else not o.grad
        return False
    if n in ("grad", "grad_fn", "layout", "names", "_version", "_base"):
        return None if n == "_base" else I.top("tensor attribute " + n)
    return NotImplemented


def input_names(I, a):
    s = I.st.heap.get(a.sid)
    return sorted(k for k in (getattr(s, "origin", None) or {}) if k is not None) if s is not None else []


def facet(I, a, what):
    """a property of the memory or class of an input that its values do not determine: either answer is possible"""
    return gt0(param("layout:%s(%s)" % (what, "+".join(input_names(I, a)))))


def flag(I, a, n):
    """flags of a numpy array: free for the caller's arrays"""
    n = {"C": "C_CONTIGUOUS", "F": "F_CONTIGUOUS", "O": "OWNDATA", "W": "WRITEABLE", "A": "ALIGNED", "C_CONTIGUOUS": "C_CONTIGUOUS",
         "CONTIGUOUS": "C_CONTIGUOUS", "FORTRAN": "F_CONTIGUOUS"}.get(n.upper(), n.upper())
    own = not input_names(I, a)
    if n == "ALIGNED":
        return True
    if n in ("C_CONTIGUOUS", "F_CONTIGUOUS", "OWNDATA", "WRITEABLE", "FORC", "CARRAY", "FARRAY", "BEHAVED"):
        if own:
            return Num(unk("flags"), "bool")
        return Num(facet(I, a, n), "bool")
    return I.top("array flags")


def arr_setattr(I, o, n, v):
    if n == "shape":
        sh = la.shape_arg(I, v)
        if sh is not None:
            I.event("inplace", "assigns the shape of an array", origin=None)
        I.top("shape assignment")
        return
    if n in ("real", "imag", "data"):
        if n == "data":
            I.setitem(o, (Ellipsis,), v, None, "assignment to .data")
        elif n == "real" and o.dtype not in ("c64", "c128"):
            I.setitem(o, (Ellipsis,), v, None, "assignment to .real")
        else:
            I.setitem(o, (Ellipsis,), I.top("component assignment"), None, "assignment to ." + n)
        return
    if n == "requires_grad":
        I.event("inplace", "sets requires_grad", origin="requires_grad")
        return
    if n == "strides" or n == "dtype":
        I.top("assignment to ." + n)
        return
    if o.be == "np":
        I.crash("AttributeError", "'numpy.ndarray' object has no attribute '%s'" % n)


# ------------------------------------------------------------------ methods
def call_method(I, o, n, args, kw):
    args = list(args)
    if isinstance(o, PhiV):
        return I.split(o, lambda x: call_method(I, x, n, args, kw))
    if isinstance(o, Top):
        return o
    if isinstance(o, ArrV):
        return arr_method(I, o, n, args, dict(kw))
    if isinstance(o, MaskSel):
        return masksel_method(I, o, n, args, dict(kw))
    if isinstance(o, ListV):
        return list_method(I, o, n, args, kw)
    if isinstance(o, DictV):
        return dict_method(I, o, n, args, kw)
    if isinstance(o, (str, StrTop)):
        return str_method(I, o, n, args, kw)
    if isinstance(o, tuple):
        if n == "count" or n == "index":
            r = 0
            for i, x in enumerate(o):
                t = I.truth(I.compare("Eq", x, args[0]))
                if not isinstance(t, bool):
                    return I.top("tuple." + n)
                if t and n == "index":
                    return i
                r += t
            if n == "index":
                I.crash("ValueError", "tuple.index(x): x not in tuple")
            return r
        if n == "numel":
            return call_math(I, "prod", [o])
        return I.top("tuple method")
    if isinstance(o, SetV):
        if n == "union":
            s = list(o.items)
            for a in args:
                s += I.concrete_items(a) or []
            return SetV(tuple(dict.fromkeys(s)))
        return I.top("set method")
    k = kind_of(o)
    if k:
        if n == "bit_length":
            if isinstance(o, int):
                return int(o).bit_length()
            p = to_poly(o)
            return num(mk_ceil(mk_log(p + 1, "2")), "int")
        if n == "is_integer":
            p = to_poly(o)
            c = as_const(p)
            if c is not None:
                return c.denominator == 1
            return True if is_index_poly(p) else Num(unk("is_integer"), "bool")
        if n in ("conjugate", "item", "__pos__", "__int__", "__float__", "__index__"):
            return o
        return I.top("number method " + n)
    if isinstance(o, Super):
        return None
    if isinstance(o, Inst) and n == "_replace":
        d = dict(I.st.heap[o.hid])
        d.update(kw)
        return Inst(I.alloc(d), o.cls)
    if isinstance(o, Inst) and n == "_asdict":
        return DictV(I.alloc(dict(I.st.heap[o.hid])))
    if isinstance(o, Func):
        if n == "cache_clear":
            return None
        return I.top("function method")
    if isinstance(o, Exc):
        return o
    if isinstance(o, DT):
        if n == "type" or n == "newbyteorder":
            return I.top("dtype method")
        if n == "to_complex":
            return DT({"f32": "c64", "f64": "c128"}.get(o.n, o.n))
        if n == "to_real":
            return DT({"c64": "f32", "c128": "f64"}.get(o.n, o.n))
        return I.top("dtype method")
    if isinstance(o, Ctxm):
        if n in ("__enter__", "__exit__"):
            if o.kind in ("nograd", "grad", "gradset"):
                I.st.nograd = (o.kind == "nograd") if n == "__enter__" else False
                I.event("setting", "switches the gradient mode")
            return None
        return I.top("context manager method")
    return I.top("method %s of %s" % (n, type(o).__name__))


def arr_method(I, a, n, args, kw):
    if n.startswith("__") and n.endswith("__"):
        base = n[2:-2]
        for d, c in (("add", "Add"), ("sub", "Sub"), ("mul", "Mult"), ("truediv", "Div"), ("pow", "Pow"), ("matmul", "MatMult")):
            if base == d:
                return I.binop(c, a, args[0])
            if base == "r" + d:
                return I.binop(c, args[0], a)
            if base == "i" + d:
                return I.inplace(c, a, args[0])
        if base == "getitem":
            return I.getsub(a, args[0])
        if base == "setitem":
            return I.setsub(a, args[0], args[1])
        if base == "len":
            return py_len(I, a)
        return I.top("array method " + n)
    if n == "t" and a.be == "pt":
        return I.transpose(a, list(range(a.ndim))[::-1])
    if n == "backward":
        I.event("setting", "calls backward() inside the library")
        return None
    if a.be == "np":
        if n == "dot":
            return la.matmul(I, a, args[0]) if isinstance(args[0], ArrV) and (a.ndim <= 2 and args[0].ndim <= 2) else I.top("dot")
        if n in ("sort", "partition", "resize", "put", "itemset", "setflags", "setfield", "byteswap"):
            if n == "setflags":
                return None
            I.setitem(a, (Ellipsis,), Top("in-place " + n), None, n)
            return None
        if n == "fill":
            I.setitem(a, (Ellipsis,), args[0], None, "fill")
            return None
        if n == "view":
            if args or kw:
                return I.top("view as another dtype")
            return a
        if n == "repeat":
            return call_array(I, "numpy.repeat", [a] + args, kw)
        if n == "transpose":
            if not args:
                return I.transpose(a, list(range(a.ndim))[::-1])
            ax = args[0] if len(args) == 1 and not is_number(args[0]) else tuple(args)
            if ax is None:
                return I.transpose(a, list(range(a.ndim))[::-1])
            return call_array(I, "numpy.transpose", [a, ax], kw)
    else:
        if n in ("data_ptr", "element_size", "storage", "untyped_storage"):
            I.event("readstate", "tensor.%s()" % n)
            return I.top(n)
        if n == "apply_":
            return I.top("apply_")
        if n == "new":
            return I.top("new")
        if n == "float" or "m:" + n in FN:
            return apply_fn(I, FN["m:" + n], a.be, n, [a] + args, kw, "torch", "torch.Tensor." + n)
        if n.endswith("_") and not n.startswith("_") and n not in FN and n[:-1] in PT_INPLACE_EXTRA:
            base = n[:-1]
            if base in ("squeeze", "unsqueeze", "transpose", "t", "swapaxes"):
                I.event("inplace", "%s changes the shape of a tensor in place" % n, origin=None)
                return I.top("in-place shape change")
            r = arr_method(I, a, base, args, kw)
            if isinstance(r, (ArrV,)):
                I.check_inplace_cast(a, r, "in-place " + n)
                I.setitem(a, (Ellipsis,), r, None, "in-place " + n)
                return I.after_inplace(a, r)
            I.setitem(a, (Ellipsis,), r if isinstance(r, Top) else I.top("in-place " + n), None, "in-place " + n)
            return a
    entry = FN.get(("pt:" if a.be == "pt" else "np:") + n) or FN.get(n)
    root = "torch" if a.be == "pt" else "numpy"
    if entry is None:
        I.escape([a], {})
        return I.top("array method " + n)
    return apply_fn(I, entry, a.be, n, [a] + args, kw, root, (root + ".Tensor." if a.be == "pt" else "numpy.ndarray.") + n)


def masksel_method(I, o, n, args, kw):
    if n in ("min", "max", "sum", "mean", "any", "all", "abs", "neg", "amin", "amax", "numel", "nelement", "size", "clamp", "isnan", "sqrt", "log10", "square", "argmin", "argmax"):
        e = FN.get(n)
        try:
            b = bindsig(e, [o] + args, kw)
        except BadCall as ex:
            return I.top(str(ex))
        b["_fname"], b["_lib"] = n, "torch" if o.be == "pt" else "numpy"
        return e[2](I, o.be, b)
    if n in ("item",):
        return I.top("item of selection")
    if n in ("clone", "copy", "contiguous", "detach", "flatten", "ravel", "to"):
        return o
    if n == "dim":
        return 1
    return I.top("method %s of a selection" % n)


def list_method(I, o, n, args, kw):
    c = I.st.heap[o.hid]
    if n in ("append", "extend", "insert", "pop", "remove", "reverse", "clear", "sort", "popleft", "appendleft", "__setitem__"):
        I.mutate(o.hid, "list." + n)
    if not isinstance(c, list):
        if n == "copy":
            return ListV(I.alloc(c))
        if n in ("append", "extend", "insert", "pop", "remove", "reverse", "clear", "sort"):
            I.st.heap[o.hid] = I.top("list." + n)
            return None if n != "pop" else I.top("list.pop")
        return I.top("list." + n)
    if n == "append":
        I.st.heap[o.hid] = c + [args[0]]
        return None
    if n == "appendleft":
        I.st.heap[o.hid] = [args[0]] + c
        return None
    if n == "extend":
        it = I.concrete_items(args[0])
        I.st.heap[o.hid] = c + it if it is not None else I.top("list.extend")
        return None
    if n == "insert":
        k = as_int(to_poly(args[0]))
        if k is None:
            I.st.heap[o.hid] = I.top("list.insert")
            return None
        d = list(c)
        d.insert(k, args[1])
        I.st.heap[o.hid] = d
        return None
    if n in ("pop", "popleft"):
        if not c:
            I.crash("IndexError", "pop from empty list")
        k = (as_int(to_poly(args[0])) if args else -1) if n == "pop" else 0
        if k is None or k >= len(c) or k < -len(c):
            return I.top("list.pop")
        d = list(c)
        x = d.pop(k)
        I.st.heap[o.hid] = d
        return x
    if n == "copy":
        return ListV(I.alloc(list(c)))
    if n == "reverse":
        I.st.heap[o.hid] = c[::-1]
        return None
    if n == "clear":
        I.st.heap[o.hid] = []
        return None
    if n == "sort":
        if all(isinstance(x, (int, float, str)) for x in c) and not kw.get("key"):
            I.st.heap[o.hid] = sorted(c, reverse=kw.get("reverse") is True)
        else:
            I.st.heap[o.hid] = I.top("list.sort")
        return None
    if n in ("index", "count"):
        return call_method(I, tuple(c), n, args, kw)
    return I.top("list." + n)


def dict_method(I, o, n, args, kw):
    c = I.st.heap[o.hid]
    if n in ("update", "pop", "setdefault", "clear", "popitem", "__setitem__"):
        I.mutate(o.hid, "dict." + n)
    if not isinstance(c, dict):
        return I.top("dict." + n)
    live = {k: v for k, v in c.items() if v is not UNDEF}
    if n == "get":
        k = I.key(args[0])
        try:
            r = live.get(k, args[1] if len(args) > 1 else None)
        except TypeError:
            return I.top("dict.get")
        if isinstance(args[0], (StrTop, Top, PhiV)) or any(isinstance(x, Num) for x in (args[0] if isinstance(args[0], tuple) else (args[0],))):
            if k not in live:
                # a lookup with a symbolic key may hit an entry added earlier
                if o.hid <= (I.boundary or 0):
                    I.event("readstate", "reads a module level table")
                return r if not live else I.top("dict.get")
        return r
    if n == "items":
        return ListV(I.alloc([(I.unkey(k) if hasattr(I, "unkey") else k, v) for k, v in live.items()]))
    if n == "keys":
        return ListV(I.alloc(list(live)))
    if n == "values":
        return ListV(I.alloc(list(live.values())))
    if n == "copy":
        return DictV(I.alloc(dict(live)))
    if n == "update":
        d = dict(c)
        if args:
            s = args[0]
            if isinstance(s, DictV) and isinstance(I.st.heap[s.hid], dict):
                d.update(I.st.heap[s.hid])
            else:
                I.st.heap[o.hid] = I.top("dict.update")
                return None
        d.update(kw)
        I.st.heap[o.hid] = d
        return None
    if n == "pop":
        d = dict(live)
        k = I.key(args[0])
        if k in d:
            v = d.pop(k)
            I.st.heap[o.hid] = d
            return v
        if len(args) > 1:
            return args[1]
        I.crash("KeyError", "%r" % (args[0],))
    if n == "setdefault":
        k = I.key(args[0])
        if k in live:
            return live[k]
        d = dict(c)
        d[k] = args[1] if len(args) > 1 else None
        I.st.heap[o.hid] = d
        return d[k]
    if n == "clear":
        I.st.heap[o.hid] = {}
        return None
    return I.top("dict." + n)


def str_method(I, o, n, args, kw):
    if isinstance(o, StrTop):
        if n in ("startswith", "endswith", "isdigit", "isalpha", "islower"):
            return Num(unk("string"), "bool")
        if n in ("split", "rsplit", "partition", "splitlines"):
            return I.top("split of unknown string")
        return StrTop()
    conc = []
    for a in args:
        if isinstance(a, ListV):
            a = I.concrete_items(a)
        if isinstance(a, (list, tuple)):
            if not all(isinstance(x, str) for x in a):
                return StrTop()
            conc.append(a)
        elif isinstance(a, (str, int, float)) or a is None:
            conc.append(a)
        else:
            return StrTop() if n not in ("startswith", "endswith") else Num(unk("string"), "bool")
    if any(not isinstance(v, (str, int, float)) for v in kw.values()):
        return StrTop()
    try:
        r = getattr(o, n)(*conc, **kw)
    except Exception:
        return I.top("str." + n)
    if isinstance(r, list):
        return ListV(I.alloc(r))
    return r
