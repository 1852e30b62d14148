"""Models of numpy / torch / scipy array functions on the abstract arrays."""
from .term import *          # noqa
from . import term as tm
from .values import *        # noqa
from .arr import CAT, NAMES, C_OF, R_OF, flat_index, unflatten, np_promote2, pt_promote2

FN = {}          # name -> (signature, function)
H = Fraction(1, 2)


class NTup(tuple):
    def __new__(cls, fields, vals):
        o = tuple.__new__(cls, vals)
        o.fields = tuple(fields)
        return o


def reg(names, sig):
    ps = []
    star = None
    for s in sig.split(","):
        s = s.strip()
        if not s:
            continue
        if s.startswith("*"):
            star = s[1:]
            continue
        d = REQ
        if "=" in s:
            s, dv = s.split("=")
            d = {"None": None, "True": True, "False": False}.get(dv, None)
            if dv.lstrip("-").isdigit():
                d = int(dv)
            elif dv == "''":
                d = ""
        ps.append((s.split("|"), d))

    def deco(f):
        for n in names.split():
            FN[n] = (ps, star, f)
        return f
    return deco


class _Req:
    pass


REQ = _Req()


class BadCall(Exception):
    pass


def bindsig(entry, args, kw):
    ps, star, f = entry
    out = {}
    args = list(args)
    for i, (names, d) in enumerate(ps):
        if i < len(args):
            out[names[0]] = args[i]
    rest = args[len(ps):]
    if star:
        out[star] = rest
    elif rest:
        raise BadCall("too many arguments")
    kw = dict(kw)
    for names, d in ps:
        for n in names:
            if n in kw:
                if names[0] in out:
                    raise BadCall("duplicate argument " + n)
                out[names[0]] = kw.pop(n)
        if names[0] not in out:
            if d is REQ:
                raise BadCall("missing argument " + names[0])
            out[names[0]] = d
    out["_kw"] = kw
    return out


IGNORED_KW = {"order", "subok", "copy_", "memory_format", "non_blocking", "workers", "overwrite_x", "casting", "sparse_", "pin_memory",
              "check_finite", "overwrite_a", "overwrite_b", "optimize", "inplace_", "kind", "writeable", "plan", "like", "layout", "generator"}


# ------------------------------------------------------------------ helpers
def is_arr(v):
    return isinstance(v, ArrV)


def conv(I, v, be):
    """operand of an array function: sequences become arrays"""
    if isinstance(v, (ListV, tuple)) and be == "np":
        r = I.lib.sequence_to_array(I, v, None)
        return r if r is not None else v
    if isinstance(v, RangeV):
        r = I.range_to_arr(v)
        return r if r is not None else v
    return v


def coerce(I, v, be, dtype=None):
    """number / array -> array"""
    v = conv(I, v, be)
    if isinstance(v, ArrV):
        return v
    p = to_poly(v) if is_number(v) else None
    if p is not None:
        dt = dtype or {"bool": "bool", "int": "i64", "float": "f64" if be == "np" else I.env.default_dtype}.get(kind_of(v), "f64")
        a = I.fresh([], p, dt, "np" if be == "np" else "cpu", False, frozenset(), be)
        if be == "np":
            a.scalar = True
        return a
    return None


def axes_list(I, axis, nd):
    """None -> all axes; int or tuple -> list of ints"""
    if axis is None:
        return list(range(nd))
    if isinstance(axis, (tuple, ListV)):
        it = I.concrete_items(axis)
        if it is None:
            return None
        out = [I.norm_axis(a, nd) for a in it]
        return None if any(a is None for a in out) else out
    k = I.norm_axis(axis, nd)
    return None if k is None else [k]


def truthy(v):
    return v is True or v == 1


def shape_arg(I, shape):
    """-> list of Poly or None"""
    if isinstance(shape, ArrV) and shape.ndim == 0:
        return [I.body(shape)]
    if is_number(shape):
        return [to_poly(shape)]
    it = I.concrete_items(shape) if shape is not None else None
    if it is None:
        return None
    out = []
    for x in it:
        if isinstance(x, ArrV) and x.ndim == 0:
            out.append(I.body(x))
            continue
        p = to_poly(x) if is_number(x) else None
        if p is None:
            return None
        out.append(p)
    return out


def size_list(I, args):
    """varargs sizes or one sequence"""
    if len(args) == 1 and not is_number(args[0]):
        return shape_arg(I, args[0])
    return shape_arg(I, tuple(args))


def split_axes(a, red):
    keep = [ax for i, ax in enumerate(a.axes) if i not in red]
    rv = [v for i in red for v in a.axes[i]]
    return keep, rv


def reduce_(I, a, axis, keepdims, f, dtype=None, what="reduction", saves=False):
    red = axes_list(I, axis, a.ndim)
    if red is None:
        return I.top(what + " axis")
    a = I.eff(a)
    axes, body = I.refresh(a)
    b = a.copy(axes=tuple(axes))
    keep, rv = split_axes(b, red)
    try:
        r = f(rv, body, [ax_size(axes[i]) for i in red])
    except Blowup:
        r = unk("expression too large")
    out = [() if i in red else ax for i, ax in enumerate(axes)] if truthy(keepdims) else keep
    dev, be, grad, taint = I.join([a], what)
    dt = dtype or a.dtype
    if CAT[dt] < 2:
        grad = False
        taint = frozenset(t for t in taint if t[0] != "cut")
    if CAT[dt] == 2 and CAT[a.dtype] == 2 and tmw(dt) < tmw(a.dtype):
        taint = taint | {("lowp", "%s: %s of %s values in %s" % (I.locstr(), what, a.dtype, dt))}
    x = I.fresh(out, r, dt, dev, grad, taint, be)
    if be == "np" and not out:
        x.scalar = True
    if saves and grad:
        I.mark_saved(a, what)
    return x


def float_of(I, a):
    if CAT[a.dtype] >= 2:
        return a.dtype
    return "f64" if a.be == "np" else I.env.default_dtype


# ------------------------------------------------------------------ elementwise unary
def unary(I, a, f, what, dtype=None, saves=()):
    if isinstance(a, PhiV):
        return I.split(a, lambda x: unary(I, x, f, what, dtype, saves))
    if isinstance(a, MaskSel):
        dt = dtype or a.dtype
        return MaskSel(a.vars, f(a.body), a.mask, dt, a.dev, a.be, a.grad, a.taint)
    if isinstance(a, Top):
        return a
    if is_number(a):
        r = f(to_poly(a))
        return num(r, "bool" if dtype == "bool" else "float")
    if not isinstance(a, ArrV):
        return I.top("%s of %s" % (what, type(a).__name__))
    return I.ew(f, [I.eff(a)], dtype=dtype, what=what, saves=saves)


def out_arg(I, b, r):
    o = b["_kw"].pop("out", None)
    if o is not None and isinstance(o, tuple) and len(o) == 1:
        o = o[0]
    if o is None:
        return r
    if isinstance(o, ArrV) and isinstance(r, ArrV):
        I.check_inplace_cast(o, r, "out=")
        I.setitem(o, (Ellipsis,), r, None, "out=")
        return I.after_inplace(o, r)
    return I.top("out=")


def _floatify(I, be, a):
    return None if not isinstance(a, ArrV) else float_of(I, a)


def _un(names, f, what, saves=(), dtype=None, tofloat=False):
    @reg(names, "x|input|self|a")
    def g(I, be, b, f=f, what=what):
        a = conv(I, b["x"], be)
        dt = dtype
        if tofloat and isinstance(a, (ArrV, MaskSel)) and CAT[a.dtype] < 2:
            dt = "f64" if a.be == "np" else I.env.default_dtype
        return out_arg(I, b, unary(I, a, f, what, dt, saves))


_un("neg negative", lambda x: -x, "neg")
_un("positive", lambda x: x, "pos")
_un("square", lambda x: x * x, "power", saves=(0,))
_un("sqrt", lambda x: ppow(x, H), "sqrt", saves=("out",), tofloat=True)
_un("rsqrt", lambda x: ppow(x, -H), "sqrt", saves=("out",), tofloat=True)
_un("reciprocal", lambda x: ppow(x, -1), "div", saves=("out",))
_un("log10", lambda x: mk_log(x, "10"), "log", saves=(0,), tofloat=True)
_un("log", lambda x: mk_log(x, "e"), "log", saves=(0,), tofloat=True)
_un("log2", lambda x: mk_log(x, "2"), "log", saves=(0,), tofloat=True)
_un("log1p", lambda x: mk_log(x + 1, "e"), "log", saves=(0,), tofloat=True)
def mk_exp(x):
    """exp; a power of ten when the exponent is a multiple of ln 10"""
    x = P(x)
    if not x.terms:
        return ONE
    rest = []
    for m, c in x.terms:
        k = [e for a, e in m if a.op == "ln10"]
        if k != [1]:
            return mk_func("exp", [x])
        rest.append((tuple((a, e) for a, e in m if a.op != "ln10"), c))
    q = ZERO
    for m, c in rest:
        t = const(c)
        for a, e in m:
            t = pmul(t, ppow(atom1(a), e))
        q = q + t
    return tm.mk_powx(const(10), q)


_un("exp", mk_exp, "exp", saves=("out",), tofloat=True)
_un("exp2", lambda x: mk_func("exp2", [x]), "exp", saves=("out",), tofloat=True)
_un("isnan", isnan, "isnan", dtype="bool")
_un("isposinf", isposinf, "isposinf", dtype="bool")
_un("isneginf", isneginf, "isneginf", dtype="bool")
_un("isinf", lambda x: isposinf(x) + isneginf(x), "isinf", dtype="bool")
_un("isfinite", lambda x: ONE - isposinf(x) - isneginf(x) - isnan(x), "isfinite", dtype="bool")
_un("logical_not", lambda x: eq0(x) if not is_bool_poly(x) else ONE - x, "not", dtype="bool")
for _n in ("sign", "sin", "cos", "tan", "tanh", "floor", "trunc", "sigmoid", "expm1", "angle", "relu", "softplus", "erf", "rint"):
    _un(_n, (lambda n: lambda x: mk_func(n, [x]))(_n), _n)
_un("ceil", mk_ceil, "ceil")


@reg("round around round_", "x|input|self|a, decimals=0")
def _round(I, be, b):
    d = b["decimals"]
    if not isinstance(d, int):
        return I.top("round to %s decimals" % (d,))
    k = Fraction(10) ** d
    return out_arg(I, b, unary(I, conv(I, b["x"], be), lambda x: pscale(mk_func("round", [pscale(P(x), k)]), 1 / k), "round"))


def is_bool_poly(p):
    for m, c in p.terms:
        if c.denominator != 1:
            return False
        for a, e in m:
            if a.op not in BOOL_OPS or e != 1:
                return False
    return True


@reg("abs absolute fabs", "x|input|self|a")
def _abs(I, be, b):
    a = conv(I, b["x"], be)
    if isinstance(a, ArrV) and a.dtype in R_OF:
        return I.ew(abs_of, [I.eff(a)], dtype=R_OF[a.dtype], what="abs", saves=(0,))
    return out_arg(I, b, unary(I, a, abs_of, "abs", None, (0,)))


@reg("conj conjugate conj_physical", "x|input|self|a")
def _conj(I, be, b):
    a = b["x"]
    if isinstance(a, ArrV) and a.dtype not in R_OF:
        return a if a.be == "pt" else I.copy_of(I.eff(a))
    return unary(I, a, conj, "conj")


@reg("resolve_conj resolve_neg positive_ contiguous_", "x|input|self")
def _ident(I, be, b):
    return b["x"]


@reg("real", "x|input|self|val")
def _real(I, be, b):
    return real_part(I, b["x"])


@reg("imag", "x|input|self|val")
def _imag(I, be, b):
    return imag_part(I, b["x"])


def real_part(I, a):
    if isinstance(a, ArrV):
        if a.dtype not in R_OF:
            return a
        return I.ew(re_of, [I.eff(a)], dtype=R_OF[a.dtype], what="real")
    return a


def imag_part(I, a):
    if isinstance(a, ArrV):
        if a.dtype not in R_OF:
            if a.be == "pt":
                I.crash("RuntimeError", "imag is not implemented for real tensors")
            return I.ew(lambda x: ZERO, [a], what="imag")
        return I.ew(im_of, [I.eff(a)], dtype=R_OF[a.dtype], what="imag")
    return I.top("imag")


@reg("bitwise_not invert", "x|input|self|a")
def _bnot(I, be, b):
    return I.unop("Invert", b["x"])


# ------------------------------------------------------------------ elementwise binary
BIN = {"add": "Add", "sub": "Sub", "subtract": "Sub", "mul": "Mult", "multiply": "Mult", "div": "Div", "divide": "Div", "true_divide": "Div",
       "floor_divide": "FloorDiv", "remainder": "Mod", "mod": "Mod", "fmod": "Mod", "pow": "Pow", "power": "Pow", "float_power": "Pow", "matmul": "MatMult",
       "bitwise_and": "BitAnd", "bitwise_or": "BitOr", "bitwise_xor": "BitXor", "logical_and": "LAnd", "logical_or": "LOr", "logical_xor": "LXor"}

for _n, _o in BIN.items():
    @reg(_n, "x|x1|input|self|a, y|x2|other|exponent|b")
    def _b(I, be, b, op=_o):
        x, y = conv(I, b["x"], be), conv(I, b["y"], be)
        al = b["_kw"].pop("alpha", None)
        rm = b["_kw"].pop("rounding_mode", None)
        if rm is not None:
            return I.top("rounding_mode")
        if al is not None:
            y = I.binop("Mult", al, y)
        if isinstance(x, PhiV) or isinstance(y, PhiV):
            r = I.binop(op, x, y)
        elif op in ("LAnd", "LOr", "LXor"):
            r = logical(I, op, x, y)
        elif isinstance(x, ArrV) or isinstance(y, ArrV):
            r = arr_binop(I, op, x, y)
        else:
            r = I.binop(op, x, y)
        return out_arg(I, b, r)

CMP = {"eq": "Eq", "equal_": "Eq", "ne": "NotEq", "not_equal": "NotEq", "lt": "Lt", "less": "Lt", "le": "LtE", "less_equal": "LtE", "gt": "Gt",
       "greater": "Gt", "ge": "GtE", "greater_equal": "GtE"}
for _n, _o in CMP.items():
    @reg(_n, "x|x1|input|self, y|x2|other")
    def _c(I, be, b, op=_o):
        return I.compare(op, conv(I, b["x"], be), conv(I, b["y"], be))


@reg("equal array_equal", "x|a1|input|x1, y|a2|other|x2")
def _equal(I, be, b):
    x, y = b["x"], b["y"]
    if be == "np" and "x" in b and isinstance(x, ArrV):
        r = I.compare("Eq", x, y)
        return r
    return Num(unk("equal"), "bool")


@reg("allclose", "x|a|input, y|b|other, rtol=None, atol=None, equal_nan=None")
def _allclose(I, be, b):
    return close_(I, be, b, True)


@reg("isclose", "x|a|input, y|b|other, rtol=None, atol=None, equal_nan=None")
def _isclose(I, be, b):
    return close_(I, be, b, False)


def close_(I, be, b, every):
    x, y = conv(I, b["x"], be), conv(I, b["y"], be)
    rt, at = b["rtol"], b["atol"]
    rt = Fraction(1, 10 ** 5) if rt is None else to_poly(rt)
    at = Fraction(1, 10 ** 8) if at is None else to_poly(at)
    if rt is None or at is None or not isinstance(x, ArrV) and not isinstance(y, ArrV):
        return Num(unk("allclose"), "bool")
    d = I.ew(lambda p, q: gt0(abs_of(p - q) - P(at) - pmul(P(rt), abs_of(q))), [x, y], dtype="bool", what="isclose")
    if not isinstance(d, ArrV):
        return d
    if not every:
        return I.ew(lambda p: ONE - p, [d], dtype="bool", what="isclose")
    axes, body = I.refresh(d)
    return num(ONE - mk_any(tuple(v for a in axes for v in a), body), "bool")


def bval(x):
    return x if is_bool_poly(x) else ONE - eq0(x)


def logical(I, op, x, y):
    def f(p, q):
        p, q = bval(p), bval(q)
        if op == "LAnd":
            return band(p, q)
        if op == "LOr":
            return bor(p, q)
        return p + q - pmul(p, q) * 2
    return I.ew(f, [x, y], dtype="bool", what="logical")


@reg("maximum fmax", "x|x1|input|self, y|x2|other")
def _maximum(I, be, b):
    return out_arg(I, b, ext2(I, be, b["x"], b["y"], mk_max))


@reg("minimum fmin", "x|x1|input|self, y|x2|other")
def _minimum(I, be, b):
    return out_arg(I, b, ext2(I, be, b["x"], b["y"], mk_min))


def ext2(I, be, x, y, f):
    if isinstance(x, PhiV):
        return I.split(x, lambda q: ext2(I, be, q, y, f))
    if isinstance(y, PhiV):
        return I.split(y, lambda q: ext2(I, be, x, q, f))
    if isinstance(x, Top) or isinstance(y, Top):
        return x if isinstance(x, Top) else y
    if be == "pt" and (not isinstance(x, ArrV) or not isinstance(y, ArrV)):
        I.crash("TypeError", "torch.maximum / minimum require tensors")
    x, y = conv(I, x, be), conv(I, y, be)
    if is_number(x) and is_number(y):
        return num(f([to_poly(x), to_poly(y)]), "float" if "float" in (kind_of(x), kind_of(y)) else kind_of(x))
    return I.ew(lambda p, q: f([p, q]), [x, y], what="clamp", saves=(0, 1))


@reg("clip clamp", "x|input|self|a, lo|min|a_min=None, hi|max|a_max=None")
def _clip(I, be, b):
    r = clamp(I, b["x"], b["lo"], b["hi"])
    return out_arg(I, b, r)


@reg("clamp_min", "x|input|self, lo|min")
def _clampmin(I, be, b):
    return clamp(I, b["x"], b["lo"], None)


@reg("clamp_max", "x|input|self, hi|max")
def _clampmax(I, be, b):
    return clamp(I, b["x"], None, b["hi"])


def clamp(I, x, lo, hi):
    for k, v in enumerate((x, lo, hi)):
        if isinstance(v, PhiV):
            def g(q, k=k):
                a = [x, lo, hi]
                a[k] = q
                return clamp(I, *a)
            return I.split(v, g)
        if isinstance(v, Top):
            return v
    vals = [x]
    if lo is not None:
        vals.append(lo)
    if hi is not None:
        vals.append(hi)

    def f(p, *r):
        r = list(r)
        if lo is not None:
            p = mk_max([p, r.pop(0)])
        if hi is not None:
            p = mk_min([p, r.pop(0)])
        return p
    if isinstance(x, MaskSel):
        ps = [to_poly(v) for v in vals[1:] if is_number(v)]
        if len(ps) == len(vals) - 1:
            return unary(I, x, lambda q: f(q, *ps), "clamp")
        return I.top("clamp of selection")
    if not isinstance(x, ArrV) and not is_number(x):
        return I.top("clamp")
    return I.ew(f, vals, what="clamp", saves=(0,))


@reg("where", "c|condition|self, x|input=None, y|other=None")
def _where(I, be, b):
    c, x, y = (conv(I, b[k], be) for k in "cxy")
    if x is None and y is None:
        return nonzero_(I, c)
    return where_(I, c, x, y)


def where_(I, c, x, y):
    for k, v in enumerate((c, x, y)):
        if isinstance(v, PhiV):
            def g(q, k=k):
                a = [c, x, y]
                a[k] = q
                return where_(I, *a)
            return I.split(v, g)
        if isinstance(v, Top):
            return v
    if any(not isinstance(v, ArrV) and not is_number(v) for v in (c, x, y)):
        return I.top("where operand")
    arrs = [v for v in (x, y) if isinstance(v, ArrV)]
    if arrs:
        dt = I.promote([x, y], arrs[0].be)
    else:
        be = c.be if isinstance(c, ArrV) else "np"
        fl = "float" in (kind_of(x), kind_of(y))
        dt = ("f64" if be == "np" else I.env.default_dtype) if fl else ("i64" if kind_of(x) != "bool" else "bool")

    def f(p, q, r):
        p = bval(p)
        return r + pmul(p, q - r)
    return I.ew(f, [c, x, y], dtype=dt, what="where", saves=(0,))


@reg("masked_fill", "x|self|input, mask, value")
def _mfill(I, be, b):
    return where_keep(I, b["mask"], b["value"], b["x"])


def where_keep(I, m, v, x):
    r = where_(I, m, v, x)
    if isinstance(r, ArrV) and isinstance(x, ArrV):
        r.dtype = x.dtype
    return r


@reg("nan_to_num", "x|input|self, nan=0, posinf=None, neginf=None")
def _n2n(I, be, b):
    x = b["x"]
    if not isinstance(x, ArrV):
        return I.top("nan_to_num")
    nanv, pi, ni = to_poly(b["nan"] or 0), b["posinf"], b["neginf"]

    def f(p):
        r = p + pmul(isnan(p), nanv - p)
        for t, v, n in ((isposinf(p), pi, "posmax"), (isneginf(p), ni, "negmax")):
            q = to_poly(v) if v is not None else mk_func(n, [])
            r = r + pmul(t, q - p)
        return r
    return I.ew(f, [x], what="nan_to_num")


@reg("lerp addcmul addcdiv copysign hypot arctan2 atan2 nextafter", "*args")
def _misc(I, be, b):
    return I.top("elementwise function")


# ---- operators
def arr_binop(I, op, a, b):
    if isinstance(a, PhiV) or isinstance(b, PhiV):
        return I.binop(op, a, b)
    for v in (a, b):
        if isinstance(v, Top):
            return v
    be = a.be if isinstance(a, ArrV) else b.be
    a, b = conv(I, a, be), conv(I, b, be)
    for v in (a, b):
        if v is None:
            I.crash("TypeError", "unsupported operand: array %s None" % op)
        if isinstance(v, (str, ListV, DictV)):
            if be == "pt" and not isinstance(v, str):
                I.crash("TypeError", "unsupported operand types for a tensor: %s" % type(v).__name__)
            return I.top("array operand")
    a = I.eff(a) if isinstance(a, ArrV) else a
    b = I.eff(b) if isinstance(b, ArrV) else b
    if op == "MatMult":
        return matmul(I, a, b)
    cplx = [v for v in (a, b) if isinstance(v, complex)]
    if cplx:
        return arr_complex(I, op, a, b)
    if not all(isinstance(v, ArrV) or is_number(v) for v in (a, b)):
        return I.top("array %s %s" % (op, type(b).__name__))
    dt = None
    if op == "Div":
        dt = I.promote([a, b], be)
        if CAT[dt] < 2:
            dt = "f64" if be == "np" else I.env.default_dtype
    elif op == "Pow":
        dt = I.promote([a, b], be)
    if op in ("Add",):
        return I.ew(lambda x, y: x + y, [a, b], what="add")
    if op == "Sub":
        return I.ew(lambda x, y: x - y, [a, b], what="sub")
    if op == "Mult":
        return I.ew(pmul, [a, b], what="mul", saves=(0, 1))
    if op == "Div":
        return I.ew(lambda x, y: pmul(x, ppow(y, -1)), [a, b], dtype=dt, what="div", saves=(0, 1))
    if op == "Pow":
        return I.ew(pow_poly, [a, b], dtype=dt, what="power", saves=(0,))
    if op == "FloorDiv":
        return I.ew(lambda x, y: mk_fdiv(x, y) if is_index_poly(x) and is_index_poly(y) else mk_func("floordiv", [x, y]), [a, b], what="floordiv")
    if op == "Mod":
        return I.ew(lambda x, y: mk_mod(x, y) if is_index_poly(x) and is_index_poly(y) else mk_func("mod", [x, y]), [a, b], what="mod")
    if op in ("BitAnd", "BitOr", "BitXor"):
        dts = [v.dtype if isinstance(v, ArrV) else kind_of(v) for v in (a, b)]
        if all(d == "bool" for d in dts):
            f = {"BitAnd": band, "BitOr": bor, "BitXor": lambda x, y: x + y - pmul(x, y) * 2}[op]
            return I.ew(f, [a, b], dtype="bool", what="logical")
        return I.ew(lambda x, y: mk_func(op, [x, y]), [a, b], what=op)
    if op in ("LShift", "RShift"):
        return I.ew(lambda x, y: mk_func(op, [x, y]), [a, b], what=op)
    return I.top("array operator " + op)


def pow_poly(x, y):
    c = as_const(y)
    if c is not None:
        return ppow(x, c)
    return mk_powx(x, y)


def arr_complex(I, op, a, b):
    arr = a if isinstance(a, ArrV) else b
    z = b if isinstance(a, ArrV) else a
    dt = C_OF.get(arr.dtype, arr.dtype if arr.dtype in R_OF else "c128")
    if z == 0 and op in ("Add",) or (z == 0 and op == "Sub" and arr is a):
        return I.ew(lambda x: x, [arr], dtype=dt, what="add")
    if z.imag == 0:
        r = arr_binop(I, op, a, float(z.real)) if arr is a else arr_binop(I, op, float(z.real), b)
        if isinstance(r, ArrV):
            return r.copy(dtype=dt)
        return r
    j = atom1(raw_atom("imag_unit"))
    zp = const(z.real) + j * const(z.imag)
    if op in ("Add", "Sub", "Mult"):
        f = {"Add": lambda x, y: x + y, "Sub": lambda x, y: x - y, "Mult": pmul}[op]
        if arr is a:
            return I.ew(lambda x: f(x, zp), [arr], dtype=dt, what=op)
        return I.ew(lambda x: f(zp, x), [arr], dtype=dt, what=op)
    return I.top("complex operator")


def arr_compare(I, op, a, b):
    if a is None or b is None:
        return op == "NotEq" if op in ("Eq", "NotEq") else I.crash("TypeError", "comparison with None")
    be = a.be if isinstance(a, (ArrV, MaskSel)) else b.be
    a, b = conv(I, a, be), conv(I, b, be)

    def f(x, y):
        p = x - y
        if op in ("Eq", "NotEq") and is_bool_poly(x) and is_bool_poly(y):
            cx, cy = bool_const(x), bool_const(y)
            r = None
            if cy is not None:
                r = x if cy else ONE - x
            elif cx is not None:
                r = y if cx else ONE - y
            if r is not None:
                return r if op == "Eq" else ONE - r
        if op == "Eq":
            return eq0(p)
        if op == "NotEq":
            return ONE - eq0(p)
        if op == "Lt":
            return gt0(-p)
        if op == "LtE":
            return ge0(-p)
        if op == "Gt":
            return gt0(p)
        return ge0(p)
    if isinstance(a, MaskSel) or isinstance(b, MaskSel):
        r = masksel_ew(I, f, a, b, "bool")
        return r
    if not all(isinstance(v, ArrV) or is_number(v) for v in (a, b)):
        if isinstance(a, Top) or isinstance(b, Top):
            return Num(unk("comparison"), "bool")
        if op in ("Eq", "NotEq"):
            return op == "NotEq"
        return I.top("comparison with array")
    return I.ew(f, [a, b], dtype="bool", what="comparison")


def masksel_ew(I, f, a, b, dtype=None):
    m = a if isinstance(a, MaskSel) else b
    ps = []
    for v in (a, b):
        if isinstance(v, MaskSel):
            if v is m:
                ps.append(v.body)
            else:
                if len(v.vars) != len(m.vars):
                    return I.top("selections")
                ren = dict(zip(v.vars, [atom1(w) for w in m.vars]))
                if subst(v.mask, ren) is not m.mask:
                    return I.top("different selections")
                ps.append(subst(v.body, ren))
        elif isinstance(v, ArrV):
            if v.ndim:
                return I.top("selection with array")
            ps.append(I.body(v))
        elif is_number(v):
            ps.append(to_poly(v))
        else:
            return I.top("selection operand")
    dt = dtype or m.dtype
    return MaskSel(m.vars, f(*ps), m.mask, dt, m.dev, m.be, m.grad, m.taint)


def masksel_binop(I, op, a, b):
    f = {"Add": lambda x, y: x + y, "Sub": lambda x, y: x - y, "Mult": pmul, "Div": lambda x, y: pmul(x, ppow(y, -1)), "Pow": pow_poly,
         "BitAnd": band, "BitOr": bor}.get(op)
    if f is None:
        return I.top("selection operator")
    return masksel_ew(I, f, a, b)


def masksel_get(I, o, ix):
    return I.top("element of a selection")


def masksel_count(o):
    return mk_count(o.vars, o.mask)


def mk_count(vars, mask):
    if is_index_poly(mask):
        return mk_sum(tuple(vars), mask)
    used = tuple(v for v in vars if v in mask.fv)
    k = ONE
    for v in vars:
        if v not in mask.fv:
            k = k * v.args[0]
    if not used:
        return pmul(k, mask)
    return pmul(k, atom1(tm._best_perm("count", (), used, (mask,), ())))


# ------------------------------------------------------------------ reductions
@reg("sum nansum_", "x|input|self|a, axis|dim=None, keepdims|keepdim=False, dtype=None")
def _sum(I, be, b):
    a = b["x"]
    ax, kd, dtp = b["axis"], b["keepdims"], b["dtype"]
    # numpy: sum(a, axis, dtype, out, keepdims); torch: sum(x, dim, keepdim, dtype)
    if be == "np" and kd is not None and not isinstance(kd, (bool, Num)):
        dtp, kd = kd, False
    if isinstance(a, MaskSel):
        if a.dtype == "bool":
            return I.fresh([], mk_sum(a.vars, pmul(a.mask, a.body)), "i64", a.dev, False, frozenset(), a.be)
        return I.fresh([], mk_sum(a.vars, pmul(a.mask, a.body)), a.dtype, a.dev, a.grad, a.taint, a.be)
    a = conv(I, a, be)
    if isinstance(a, ListV) or isinstance(a, tuple):
        return I.top("sum of list")
    if not isinstance(a, ArrV):
        return I.top("sum")
    dt = I.lib.as_dtype(I, dtp) if dtp is not None else None
    if dt is None:
        dt = a.dtype if CAT[a.dtype] >= 2 else "i64"
    if a.dtype == "bool":
        return reduce_(I, a, ax, kd, lambda rv, body, n: mk_count_any(rv, body, n), dt, "sum")
    I.int_arith(dt, I.body(a), "sum")
    return out_arg(I, b, reduce_(I, a, ax, kd, lambda rv, body, n: mk_sum(tuple(rv), body), dt, "sum"))


def mk_count_any(rv, body, sizes):
    return mk_count(rv, body)


@reg("count_nonzero", "x|input|self|a, axis|dim=None, keepdims=False")
def _cnz(I, be, b):
    a = b["x"]
    if isinstance(a, MaskSel):
        return num(mk_count(a.vars, pmul(a.mask, bval(a.body))), "int")
    if not isinstance(a, ArrV):
        return I.top("count_nonzero")
    return reduce_(I, a, b["axis"], b["keepdims"], lambda rv, body, n: mk_count(rv, bval(body)), "i64", "count")


@reg("mean nanmean_", "x|input|self|a, axis|dim=None, keepdims|keepdim=False, dtype=None")
def _mean(I, be, b):
    a = b["x"]
    ax, kd, dtp = b["axis"], b["keepdims"], b["dtype"]
    if be == "np" and kd is not None and not isinstance(kd, (bool, Num)):
        dtp, kd = kd, False
    if isinstance(a, MaskSel):
        return I.fresh([], unk("mean of selection"), a.dtype, a.dev, a.grad, a.taint, a.be)
    a = conv(I, a, be)
    if not isinstance(a, ArrV):
        return I.top("mean")
    dt = I.lib.as_dtype(I, dtp) if dtp is not None else None
    if dt is None:
        if CAT[a.dtype] < 2 and a.be == "pt":
            I.crash("RuntimeError", "mean of an integer tensor")
        dt = float_of(I, a)

    def f(rv, body, n):
        k = ONE
        for s in n:
            k = k * s
        return pmul(mk_sum(tuple(rv), body), ppow(k, -1))
    I.int_arith(dt, I.body(a), "sum")
    return out_arg(I, b, reduce_(I, a, ax, kd, f, dt, "mean"))


@reg("any", "x|input|self|a, axis|dim=None, keepdims|keepdim=False")
def _any(I, be, b):
    a = conv(I, b["x"], be)
    if isinstance(a, MaskSel):
        return I.fresh([], mk_any(tuple(a.vars), band(a.mask, bval(a.body))), "bool", a.dev, False, frozenset(), a.be)
    if not isinstance(a, ArrV):
        return I.top("any")
    return reduce_(I, a, b["axis"], b["keepdims"], lambda rv, body, n: mk_any(tuple(rv), bval(body)), "bool", "any")


@reg("all", "x|input|self|a, axis|dim=None, keepdims|keepdim=False")
def _all(I, be, b):
    a = conv(I, b["x"], be)
    if isinstance(a, MaskSel):
        return I.fresh([], ONE - mk_any(tuple(a.vars), band(a.mask, ONE - bval(a.body))), "bool", a.dev, False, frozenset(), a.be)
    if not isinstance(a, ArrV):
        return I.top("all")
    return reduce_(I, a, b["axis"], b["keepdims"], lambda rv, body, n: mk_all(tuple(rv), bval(body)), "bool", "all")


def minmax(I, be, b, op):
    a = conv(I, b["x"], be)
    ax, kd = b["axis"], b["keepdims"]
    if isinstance(a, PhiV):
        return I.split(a, lambda q: minmax(I, be, dict(b, x=q), op))
    if isinstance(ax, ArrV):       # torch.max(a, b)
        return ext2(I, be, a, ax, mk_max if op == "redmax" else mk_min)
    if isinstance(a, MaskSel):
        c = eq0_count(a)
        pc = pmul(pcp(I), c)
        if pc.terms:
            I.event("emptyred", "minimum / maximum of an empty selection", cond=pc)
        return I.fresh([], mk_red(op, tuple(a.vars), a.body, a.mask), a.dtype, a.dev, a.grad, a.taint, a.be)
    if not isinstance(a, ArrV):
        return I.top("min/max")

    def f(rv, body, n):
        if not rv:
            return body
        return mk_red(op, tuple(rv), body)
    r = reduce_(I, a, ax, kd, f, None, op, saves=True)
    if be == "pt" and ax is not None and "am" not in b.get("_name", ""):
        idx = arg_(I, a, ax, kd, op)
        return NTup(("values", "indices"), (r, idx))
    return r


def eq0_count(m):
    return ONE - mk_any(tuple(m.vars), m.mask)


def pcp(I):
    from .interp import pc_poly
    return pc_poly(I.st.pc)


@reg("min", "x|input|self|a, axis|dim|other=None, keepdims|keepdim=False")
def _min(I, be, b):
    return minmax(I, be, b, "redmin")


@reg("max", "x|input|self|a, axis|dim|other=None, keepdims|keepdim=False")
def _max(I, be, b):
    return minmax(I, be, b, "redmax")


@reg("amin nanmin_", "x|input|self|a, axis|dim=None, keepdims|keepdim=False")
def _amin(I, be, b):
    return minmax(I, be, dict(b, _name="am"), "redmin")


@reg("amax nanmax_", "x|input|self|a, axis|dim=None, keepdims|keepdim=False")
def _amax(I, be, b):
    return minmax(I, be, dict(b, _name="am"), "redmax")


def arg_(I, a, ax, kd, op):
    def f(rv, body, n):
        if len(rv) == 1:
            return mk_argred(op, rv[0], body)
        return unk("argmin")
    if ax is None:
        return I.fresh([()] * 0, unk("argmin"), "i64", a.dev, False, frozenset(), a.be)
    return reduce_(I, a, ax, kd, f, "i64", "arg" + op)


@reg("argmin", "x|input|self|a, axis|dim=None, keepdims|keepdim=False")
def _argmin(I, be, b):
    return arg_(I, b["x"], b["axis"], b["keepdims"], "redmin") if isinstance(b["x"], ArrV) else I.top("argmin")


@reg("argmax", "x|input|self|a, axis|dim=None, keepdims|keepdim=False")
def _argmax(I, be, b):
    return arg_(I, b["x"], b["axis"], b["keepdims"], "redmax") if isinstance(b["x"], ArrV) else I.top("argmax")


def vecnorm(I, a, p, ax, kd, dt=None):
    if CAT[a.dtype] < 2:
        if a.be == "pt":
            I.crash("RuntimeError", "norm of an integer tensor")
        dtp = "f64"
    else:
        dtp = R_OF.get(a.dtype, a.dtype)
    if dt is not None:
        dtp = dt
    pk = p
    if isinstance(p, str):
        pk = {"fro": 2, "nuc": None}.get(p)
    if pk is None and p is not None:
        return I.top("norm order")
    pv = 2 if p is None else (float("inf") if p == float("inf") else pk)
    if isinstance(pv, Num):
        return I.top("norm order")

    def f(rv, body, n):
        if pv == float("inf"):
            return mk_red("redmax", tuple(rv), abs_of(body))
        if pv == 2:
            q = pmul(body, conj(body)) if body.cplx else pmul(body, body)
            return ppow(mk_sum(tuple(rv), q), H)
        if pv == 1:
            return mk_sum(tuple(rv), abs_of(body))
        if pv == 0:
            return mk_sum(tuple(rv), ONE - eq0(body))
        return ppow(mk_sum(tuple(rv), ppow(abs_of(body), Fraction(pv))), 1 / Fraction(pv))
    return reduce_(I, a, ax, kd, f, dtp, "norm", saves=True)


@reg("np:linalg.norm pt:linalg.norm scipy:linalg.norm", "x|A|input|a, ord=None, axis|dim=None, keepdims|keepdim=False, dtype=None")
def _lnorm(I, be, b):
    a = conv(I, b["x"], be)
    if not isinstance(a, ArrV):
        return I.top("norm")
    ax = b["axis"]
    red = axes_list(I, ax, a.ndim)
    if red is None:
        return I.top("norm axis")
    if len(red) == 2 and ax is not None and b["ord"] not in (None, "fro"):
        return I.top("matrix norm")
    if ax is None and b["ord"] not in (None, "fro") and a.ndim == 2:
        return I.top("matrix norm")
    dt = I.lib.as_dtype(I, b["dtype"]) if b["dtype"] is not None else None
    return vecnorm(I, a, b["ord"], ax, b["keepdims"], dt)


@reg("pt:linalg.vector_norm", "x, ord=2, axis|dim=None, keepdims|keepdim=False, dtype=None")
def _vnorm(I, be, b):
    a = b["x"]
    if not isinstance(a, ArrV):
        return I.top("norm")
    dt = I.lib.as_dtype(I, b["dtype"]) if b["dtype"] is not None else None
    return vecnorm(I, a, b["ord"], b["axis"], b["keepdims"], dt)


@reg("norm", "x|input|self, p='', axis|dim=None, keepdims|keepdim=False, dtype=None")
def _tnorm(I, be, b):
    a = b["x"]
    if not isinstance(a, ArrV):
        return I.top("norm")
    p = b["p"]
    if p == "" or p is None:
        p = 2
    dt = I.lib.as_dtype(I, b["dtype"]) if b["dtype"] is not None else None
    return vecnorm(I, a, p, b["axis"], b["keepdims"], dt)


@reg("var std", "x|input|self|a, axis|dim=None, a2|correction|unbiased|ddof=None, keepdims|keepdim=False")
def _var(I, be, b):
    a = b["x"]
    if not isinstance(a, ArrV):
        return I.top("var")
    return reduce_(I, a, b["axis"], b["keepdims"], lambda rv, body, n: mk_func("var", [unk("var")]), float_of(I, a), "var")


@reg("prod", "x|input|self|a, axis|dim=None, keepdims|keepdim=False")
def _prod(I, be, b):
    a = conv(I, b["x"], be)
    if isinstance(a, (ListV, tuple)):
        it = I.concrete_items(a)
        if it is not None and all(is_number(x) for x in it):
            r = ONE
            for x in it:
                r = pmul(r, to_poly(x))
            return num(r, "int")
    if not isinstance(a, ArrV):
        return I.top("prod")
    red = axes_list(I, b["axis"], a.ndim)
    if red is not None and all(as_int(ax_size(a.axes[i])) is not None and as_int(ax_size(a.axes[i])) <= 16 for i in red) and len(red) == 1:
        n = as_int(ax_size(a.axes[red[0]]))
        out = None
        for k in range(n):
            x = I.getitem(a, (slice_full(),) * red[0] + (k,))
            out = x if out is None else I.binop("Mult", out, x)
        return out
    return reduce_(I, a, b["axis"], b["keepdims"], lambda rv, body, n: unk("prod"), None, "prod")


def slice_full():
    return SliceV(None, None, None)


@reg("cumsum cumprod sort argsort median quantile percentile unique trace_ logsumexp softmax topk kthvalue", "x|input|self|a, *args")
def _opaque(I, be, b):
    b["_kw"].clear()
    return I.top("opaque array function")


@reg("cumsum", "x|input|self|a, axis|dim=None, dtype=None")
def _cumsum(I, be, b):
    a = b["x"]
    if not isinstance(a, ArrV) or b["axis"] is None:
        return I.top("cumsum")
    k = I.norm_axis(b["axis"], a.ndim)
    axes, body = I.refresh(I.eff(a))
    ax = axes[k]
    if not ax:
        return I.copy_of(a)
    if len(ax) > 1:
        return I.top("cumsum of composite axis")
    v = ax[0]
    w = ivar(v.args[0])
    t = ivar(v.args[0])
    nb = mk_sum((t,), pmul(step(atom1(w) - atom1(t)), subst(body, {v: atom1(t)})))
    axes[k] = (w,)
    return I.fresh(axes, nb, a.dtype if CAT[a.dtype] >= 2 else "i64", a.dev, a.grad, a.taint, a.be)


# ------------------------------------------------------------------ einsum and products
@reg("einsum", "eq|subscripts|equation, *ops|operands")
def _einsum(I, be, b):
    eq, ops = b["eq"], b["ops|operands"] if "ops|operands" in b else b.get("ops", [])
    for k in ("optimize", "dtype", "out"):
        b["_kw"].pop(k, None)
    if not isinstance(eq, str):
        return I.top("einsum expression")
    if len(ops) == 1 and isinstance(ops[0], (ListV,)):
        it = I.concrete_items(ops[0])
        if it is None:
            return I.top("einsum operands")
        ops = it
    return einsum(I, eq, list(ops))


def einsum(I, eq, ops):
    for k, o in enumerate(ops):
        if isinstance(o, PhiV):
            return I.split(o, lambda x: einsum(I, eq, ops[:k] + [x] + ops[k + 1:]))
        if isinstance(o, Top):
            return o
        if not isinstance(o, ArrV):
            return I.top("einsum operand %s" % type(o).__name__)
    eq = eq.replace(" ", "")
    if "->" in eq:
        lhs, out = eq.split("->")
    else:
        lhs, out = eq, None
    ins = lhs.split(",")
    if len(ins) != len(ops):
        I.crash("ValueError", "einsum: %d operands for %r" % (len(ops), eq))
    ops = [I.eff(o) for o in ops]
    labels = []
    parsed = []
    nell = 0
    for s, o in zip(ins, ops):
        if "..." in s:
            i = s.index("...")
            pre, post = s[:i], s[i + 3:]
            ne = o.ndim - len(pre) - len(post)
            if ne < 0:
                I.crash("ValueError", "einsum operand has too few dimensions")
            nell = max(nell, ne)
        else:
            pre, post, ne = s, "", 0
            if o.ndim != len(s):
                I.crash("ValueError", "einsum operand has %d dimensions, subscripts have %d" % (o.ndim, len(s)))
        parsed.append((pre, ne, post))
        for c in pre + post:
            if c not in labels:
                labels.append(c)
    if out is None:
        cnt = {}
        for s in ins:
            for c in s.replace("...", ""):
                cnt[c] = cnt.get(c, 0) + 1
        out = ("..." if nell else "") + "".join(sorted(c for c in labels if cnt[c] == 1))
    if "..." not in out and nell:
        I.crash("ValueError", "einsum: ellipsis missing in the output")
    for c in out.replace("...", ""):
        if c not in labels:
            I.crash("ValueError", "einsum: output label %s" % c)
    oi = out.index("...") if "..." in out else 0
    pseudo = []
    single_view = len(ops) == 1
    for (pre, ne, post), o in zip(parsed, ops):
        names = list(pre) + [("E", nell - ne + j) for j in range(ne)] + list(post)
        pos = {}
        sub = {}
        axs = {}
        for ax, n in zip(o.axes, names):
            if n in axs:
                # repeated label: diagonal
                if len(axs[n]) == len(ax):
                    for v, w in zip(ax, axs[n]):
                        sub[v] = atom1(w)
                elif not axs[n]:
                    axs[n] = ax
                elif ax:
                    sub.update(unflatten(ax, flat_index(axs[n])))
            else:
                axs[n] = ax
        v = I.view(o, o.axes, sub) if sub else o
        order = [("E", j) for j in range(nell)] + labels
        v = v.copy(axes=tuple(axs.get(n, ()) for n in order), scalar=False)
        pseudo.append(v)
    olab = [c for c in out[:oi]] + [("E", j) for j in range(nell)] + list(out[oi + 3:] if "..." in out else out[oi:])
    if "..." not in out:
        olab = list(out)
    order = [("E", j) for j in range(nell)] + labels
    if single_view and set(olab) == set(order):
        v = pseudo[0]
        return v.copy(axes=tuple(v.axes[order.index(n)] for n in olab))
    dev, be, grad, taint = I.join(pseudo, "einsum")
    axes, bodies = I.align(pseudo, "einsum")
    try:
        body = ONE
        for x in bodies:
            body = pmul(body, x)
        rv = [v for n, ax in zip(order, axes) if n not in olab for v in ax]
        if be == "pt" and len({o.dtype for o in ops}) > 1:
            I.event("dtmix", "einsum of operands with different dtypes %s" % sorted({o.dtype for o in ops}))
        body = mk_sum(tuple(rv), body)
    except Blowup:
        body = unk("expression too large")
    dt = ops[0].dtype
    for o in ops[1:]:
        dt = (np_promote2 if be == "np" else pt_promote2)(dt, o.dtype)
    I.int_arith(dt, body, "einsum")
    r = I.fresh([axes[order.index(n)] for n in olab], body, dt, dev, grad and CAT[dt] >= 2, taint, be)
    if be == "np" and not olab:
        r.scalar = True
    if grad and len(ops) > 1:
        for k, o in enumerate(ops):
            if any(p.grad for j, p in enumerate(ops) if j != k):
                I.mark_saved(o, "einsum")
    return r


def matmul(I, a, b):
    for v in (a, b):
        if isinstance(v, Top):
            return v
        if not isinstance(v, ArrV):
            return I.top("matmul")
    if a.ndim == 0 or b.ndim == 0:
        I.crash("ValueError", "matmul of a scalar")
    if a.ndim == 1 and b.ndim == 1:
        return einsum(I, "n,n->", [a, b])
    if a.ndim == 1:
        return einsum(I, "n,...nm->...m", [a, b])
    if b.ndim == 1:
        return einsum(I, "...mn,n->...m", [a, b])
    return einsum(I, "...mk,...kn->...mn", [a, b])


@reg("dot mm mv bmm inner_", "x|input|self|a, y|b|other|vec|mat2|tensor")
def _dot(I, be, b):
    x, y = b["x"], b["y"]
    if isinstance(x, ArrV) and isinstance(y, ArrV):
        if x.ndim > 2 and y.ndim > 2 and be == "np":
            return I.top("dot of high rank arrays")
        if y.ndim > 2 or (x.ndim > 2 and y.ndim > 1):
            if be == "np":
                return I.top("dot of high rank arrays")
        if x.ndim == 0 or y.ndim == 0:
            return I.binop("Mult", x, y)
        return matmul(I, x, y)
    return I.binop("Mult", x, y) if is_number(x) or is_number(y) else I.top("dot")


@reg("inner", "x|input|self|a, y|b|other")
def _inner(I, be, b):
    x, y = b["x"], b["y"]
    if isinstance(x, ArrV) and isinstance(y, ArrV) and x.ndim == 1 and y.ndim == 1:
        return einsum(I, "n,n->", [x, y])
    return I.top("inner")


@reg("outer ger", "x|input|self|a, y|b|vec2|other")
def _outer(I, be, b):
    x, y = b["x"], b["y"]
    if isinstance(x, ArrV) and isinstance(y, ArrV) and x.ndim == 1 and y.ndim == 1:
        return einsum(I, "n,m->nm", [x, y])
    return I.top("outer")


@reg("vecdot linalg.vecdot pt:linalg.vecdot np:linalg.vecdot", "x|x1, y|x2, axis|dim=-1")
def _vecdot(I, be, b):
    x, y = b["x"], b["y"]
    if isinstance(x, ArrV) and isinstance(y, ArrV):
        cx = _conj(I, be, {"x": x, "_kw": {}})
        r = arr_binop(I, "Mult", cx, y)
        return _sum(I, be, {"x": r, "axis": b["axis"], "keepdims": False, "dtype": None, "_kw": {}})
    return I.top("vecdot")


@reg("tensordot kron cross", "x, y, *args")
def _tdot(I, be, b):
    b["_kw"].clear()
    return I.top("tensordot")


@reg("trace", "x|input|self|a, offset=0, axis1=0, axis2=1")
def _trace(I, be, b):
    d = diagonal(I, b["x"], b["offset"], b["axis1"], b["axis2"])
    if not isinstance(d, ArrV):
        return d
    return _sum(I, be, {"x": d, "axis": -1, "keepdims": False, "dtype": None, "_kw": {}})


# ------------------------------------------------------------------ linear algebra
def _pad_axes(a, n):
    return a.copy(axes=((),) * (n - a.ndim) + a.axes)


@reg("np:linalg.solve pt:linalg.solve scipy:linalg.solve", "a|A, b|B, *args")
def _solve(I, be, bb):
    A, b = bb["a"], bb["b"]
    left = bb["_kw"].pop("left", True)
    for k in ("lower", "assume_a", "sym_pos", "check_finite", "overwrite_a", "overwrite_b", "transposed"):
        if bb["_kw"].pop(k, None) and k in ("transposed",):
            return I.top("solve variant")
    if left is not True:
        return I.top("solve from the right")
    return solve(I, A, b)


def solve(I, A, b):
    if isinstance(A, PhiV):
        return I.split(A, lambda x: solve(I, x, b))
    if isinstance(b, PhiV):
        return I.split(b, lambda x: solve(I, A, x))
    if not isinstance(A, ArrV) or not isinstance(b, ArrV):
        return A if isinstance(A, Top) else I.top("solve")
    A, b = I.eff(A), I.eff(b)
    be = A.be
    if A.ndim < 2:
        I.crash("LinAlgError", "solve: matrix must be at least 2-d")
    d = ax_size(A.axes[-1]) - ax_size(A.axes[-2])
    if as_const(d) != 0 and (nonneg(d - 1) or nonneg(-d - 1)):
        I.crash("LinAlgError", "solve: matrix is not square (%s x %s)" % (ax_size(A.axes[-2]), ax_size(A.axes[-1])))
    vec = b.ndim == A.ndim - 1
    if be == "pt" and b.ndim == A.ndim - 1 and b.ndim > 1:
        # torch: a batch of vectors only when the shapes agree
        if any(ax_size(x) is not ax_size(y) for x, y in zip(b.axes, A.axes[:-1])):
            vec = False
            dd = ONE
    nb = max(A.ndim - 2, b.ndim - (1 if vec else 2))
    Ap = A.copy(axes=((),) * (nb - (A.ndim - 2)) + A.axes + ((),), scalar=False)
    if vec:
        bp = b.copy(axes=((),) * (nb - (b.ndim - 1)) + b.axes + ((), ()), scalar=False)
    else:
        if b.ndim < 2:
            I.crash("ValueError", "solve: wrong number of dimensions")
        bp = b.copy(axes=((),) * (nb - (b.ndim - 2)) + b.axes[:-1] + ((), b.axes[-1]), scalar=False)
    dev, be, grad, taint = I.join([A, b], "solve")
    axes, (Ab, bbod) = I.align([Ap, bp], "solve")
    r, c, m = axes[-3], axes[-2], axes[-1]
    if [v.args[0].id for v in r] != [v.args[0].id for v in c]:
        r2, c2 = (ivar(ax_size(r)),), (ivar(ax_size(c)),)
        sub = unflatten(tuple(r), atom1(r2[0]))
        sub.update(unflatten(tuple(c), atom1(c2[0])))
        Ab, bbod = subst(Ab, sub), subst(bbod, sub)
        r, c = r2, c2
    xi = tuple(ivar(v.args[0]) for v in c)
    try:
        if not r:
            body = pmul(bbod, ppow(Ab, -1))
        else:
            body = mk_solve(r, c, Ab, bbod, [atom1(v) for v in xi])
    except Blowup:
        body = unk("expression too large")
    out = list(axes[:nb]) + [xi] + ([] if vec else [m])
    dt = (np_promote2 if be == "np" else pt_promote2)(A.dtype, b.dtype)
    if CAT[dt] < 2:
        dt = "f64"
    if be == "pt" and A.dtype != b.dtype:
        I.event("dtmix", "solve of operands with different dtypes %s, %s" % (A.dtype, b.dtype))
    x = I.fresh(out, body, dt, dev, grad, taint, be)
    return x


@reg("np:linalg.inv pt:linalg.inv pt:inverse inverse scipy:linalg.inv", "a|A|input|self")
def _inv(I, be, b):
    A = b["a"]
    if not isinstance(A, ArrV):
        return I.top("inv")
    A = I.eff(A)
    if A.ndim < 2:
        I.crash("LinAlgError", "inv: matrix must be at least 2-d")
    axes, body = I.refresh(A)
    r, c = axes[-2], axes[-1]
    if [v.args[0].id for v in r] != [v.args[0].id for v in c]:
        d = ax_size(r) - ax_size(c)
        if as_const(d) != 0 and (nonneg(d - 1) or nonneg(-d - 1)):
            I.crash("LinAlgError", "inv: matrix is not square")
        r2, c2 = (ivar(ax_size(r)),), (ivar(ax_size(c)),)
        sub = unflatten(tuple(r), atom1(r2[0]))
        sub.update(unflatten(tuple(c), atom1(c2[0])))
        body = subst(body, sub)
        r, c = r2, c2
    ri = tuple(ivar(v.args[0]) for v in r)
    ci = tuple(ivar(v.args[0]) for v in c)
    try:
        nb = ppow(body, -1) if not r else mk_inv(r, c, body, [atom1(v) for v in ri + ci])
    except Blowup:
        nb = unk("expression too large", A.dtype in R_OF)
    dt = A.dtype if CAT[A.dtype] >= 2 else "f64"
    return I.fresh(axes[:-2] + [ri, ci], nb, dt, A.dev, A.grad and not I.st.nograd, A.taint, A.be)


@reg("np:linalg.lstsq pt:linalg.lstsq np:linalg.pinv pt:linalg.pinv np:linalg.cholesky pt:linalg.cholesky cholesky pt:linalg.qr np:linalg.qr "
     "scipy:linalg.solve_toeplitz scipy:linalg.cho_solve scipy:linalg.cho_factor scipy:linalg.toeplitz pt:cholesky_solve np:linalg.eigh np:linalg.svd pt:linalg.svd "
     "np:linalg.det pt:linalg.det pt:linalg.solve_triangular np:linalg.matrix_rank np:linalg.cond pt:linalg.lu_factor pt:linalg.solve_ex pt:linalg.inv_ex np:linalg.slogdet", "*args")
def _la(I, be, b):
    b["_kw"].clear()
    return I.top("linear algebra function")


@reg("np:linalg.multi_dot pt:linalg.multi_dot", "xs")
def _mdot(I, be, b):
    it = I.concrete_items(b["xs"])
    if not it:
        return I.top("multi_dot")
    r = it[0]
    for x in it[1:]:
        r = matmul(I, r, x)
    return r


@reg("pt:linalg.matmul np:linalg.matmul", "x, y")
def _lmm(I, be, b):
    return matmul(I, b["x"], b["y"])


# ------------------------------------------------------------------ fft
def one_var(I, ax, body):
    """single variable for an axis: (var, body)"""
    if len(ax) == 1:
        return ax[0], body
    v = ivar(ax_size(ax))
    return v, subst(body, unflatten(ax, atom1(v)))


def fft_norm(norm, n, inverse):
    if norm in (None, "backward"):
        return ONE
    if norm == "ortho":
        return ppow(n, H if inverse else -H)
    if norm == "forward":
        return n if inverse else ppow(n, -1)
    return None


def fft_n(I, n, default):
    if n is None:
        return default
    if isinstance(n, ArrV) and n.ndim == 0:
        return I.body(n)
    return to_poly(n) if is_number(n) else None


@reg("fft.rfft", "x|input|a, n=None, axis|dim=-1, norm=None")
def _rfft(I, be, b):
    return rfft_(I, be, b["x"], b["n"], b["axis"], b["norm"], b.get("_lib"))


def rfft_(I, be, a, n, axis, norm, lib):
    if isinstance(n, PhiV):
        return I.split(n, lambda q: rfft_(I, be, a, q, axis, norm, lib))
    if isinstance(a, PhiV):
        return I.split(a, lambda q: rfft_(I, be, q, n, axis, norm, lib))
    if not isinstance(a, ArrV):
        return a if isinstance(a, Top) else I.top("rfft")
    a = I.eff(a)
    k = I.norm_axis(axis, a.ndim)
    if k is None:
        return I.top("rfft axis")
    if a.dtype in R_OF:
        I.crash("TypeError", "rfft of a complex array")
    axes, body = I.refresh(a)
    N = fft_n(I, n, ax_size(axes[k]))
    if N is None:
        return I.top("rfft length")
    v, body = one_var(I, axes[k], body) if axes[k] else (ivar(ONE), body)
    f = fft_norm(norm, N, False)
    if f is None:
        return I.top("fft norm")
    kv = ivar(mk_fdiv(N, 2) + 1)
    try:
        r = pmul(f, mk_rfft(v, N, body, atom1(kv)))
    except Blowup:
        r = unk("expression too large", True)
    axes[k] = (kv,)
    if lib == "numpy":
        dt = "c128"
    else:
        dt = C_OF.get(a.dtype) or ("c128" if be == "np" else C_OF[I.env.default_dtype])
    dev, be2, grad, taint = I.join([a], "rfft")
    return I.fresh(axes, r, dt, dev, grad, taint, a.be)


@reg("fft.irfft", "x|input|a, n=None, axis|dim=-1, norm=None")
def _irfft(I, be, b):
    return irfft_(I, be, b["x"], b["n"], b["axis"], b["norm"], b.get("_lib"))


def irfft_(I, be, a, n, axis, norm, lib):
    if isinstance(n, PhiV):
        return I.split(n, lambda q: irfft_(I, be, a, q, axis, norm, lib))
    if isinstance(a, PhiV):
        return I.split(a, lambda q: irfft_(I, be, q, n, axis, norm, lib))
    if not isinstance(a, ArrV):
        return a if isinstance(a, Top) else I.top("irfft")
    a = I.eff(a)
    k = I.norm_axis(axis, a.ndim)
    if k is None:
        return I.top("irfft axis")
    axes, body = I.refresh(a)
    nf = ax_size(axes[k])
    N = fft_n(I, n, (nf - 1) * 2)
    if N is None:
        return I.top("irfft length")
    f = fft_norm(norm, N, True)
    if f is None:
        return I.top("fft norm")
    v, body = one_var(I, axes[k], body) if axes[k] else (ivar(ONE), body)
    iv = ivar(N)
    try:
        if v.args[0] is not mk_fdiv(N, 2) + 1:
            r = atom1(mk_atom("irfftx", (), (v,), (body,), (N, atom1(iv))))
        else:
            r = pmul(f, mk_irfft(v, N, body, atom1(iv)))
    except Blowup:
        r = unk("expression too large")
    axes[k] = (iv,) if as_int(N) != 1 else ()
    if lib == "numpy":
        dt = "f64"
    else:
        dt = R_OF.get(a.dtype) or (a.dtype if a.dtype in C_OF else ("f64" if be == "np" else I.env.default_dtype))
    dev, be2, grad, taint = I.join([a], "irfft")
    return I.fresh(axes, r, dt, dev, grad, taint, a.be)


@reg("fft.fft fft.ifft fft.hfft fft.ihfft fft.fftn fft.ifftn fft.rfft2 fft.irfft2 fft.fftshift fft.rfftn fft.irfftn fft.fftfreq fft.rfftfreq fft.dct fft.fft2", "*args")
def _fft(I, be, b):
    b["_kw"].clear()
    return I.top("fft function")


@reg("fft.next_fast_len fftpack.next_fast_len", "target, real=None, kind=None")
def _nfl(I, be, b):
    p = to_poly(b["target"]) if is_number(b["target"]) else None
    return num(mk_fastlen(p), "int") if p is not None else I.top("next_fast_len")


def mk_fastlen(p):
    c = as_int(p)
    return atom1(raw_atom("fastlen", (), (), (), (p,)))


# ------------------------------------------------------------------ shape functions
@reg("reshape", "x|input|self|a, shape|newshape, *more")
def _reshape(I, be, b):
    sh = size_list(I, [b["shape"]] + list(b["more"]))
    b["_kw"].pop("order", None)
    if sh is None or not isinstance(b["x"], ArrV):
        return I.top("reshape")
    return reshape_(I, b["x"], sh)


def reshape_(I, a, sh):
    r = I.reshape(a, sh)
    if r is None:
        return I.top("reshape")
    # a reshape that cannot be expressed as a view copies
    return r


@reg("view", "x|self, *sizes")
def _view(I, be, b):
    s = b["sizes"]
    if len(s) == 1 and isinstance(s[0], (Ext, DT)):
        return I.top("dtype view")
    b["_kw"].clear()
    sh = size_list(I, s)
    if sh is None or not isinstance(b["x"], ArrV):
        return I.top("view")
    return reshape_(I, b["x"], sh)


@reg("view_as reshape_as", "x|self, other")
def _viewas(I, be, b):
    if isinstance(b["other"], ArrV) and isinstance(b["x"], ArrV):
        return reshape_(I, b["x"], [ax_size(a) for a in b["other"].axes])
    return I.top("view_as")


@reg("flatten ravel", "x|input|self|a, start_dim=0, end_dim=-1")
def _flatten(I, be, b):
    a = b["x"]
    if not isinstance(a, ArrV):
        return I.top("flatten")
    b["_kw"].pop("order", None)
    s, e = b["start_dim"], b["end_dim"]
    if isinstance(s, str) or be == "np":
        s, e = 0, -1
    if a.ndim == 0:
        return a.copy(axes=((),), scalar=False)
    s, e = I.norm_axis(s, a.ndim), I.norm_axis(e, a.ndim)
    ax = tuple(v for x in a.axes[s:e + 1] for v in x)
    return a.copy(axes=a.axes[:s] + (ax,) + a.axes[e + 1:], scalar=False)


@reg("squeeze", "x|input|self|a, axis|dim=None")
def _squeeze(I, be, b):
    a = b["x"]
    if not isinstance(a, ArrV):
        return I.top("squeeze")
    if b["axis"] is None:
        for ax in a.axes:
            s = ax_size(ax)
            if ax and not (nonneg(s - 2)):
                # size could be one: shape depends on the size
                I.event("squeeze", "squeeze() removes axes whose size happens to be one", size=s)
        return a.copy(axes=tuple(x for x in a.axes if x), scalar=False)
    ks = axes_list(I, b["axis"], a.ndim)
    if ks is None:
        return I.top("squeeze")
    for k in ks:
        if a.axes[k] and be == "np":
            if nonneg(ax_size(a.axes[k]) - 2):
                I.crash("ValueError", "cannot squeeze an axis of size %s" % ax_size(a.axes[k]))
    return a.copy(axes=tuple(x for i, x in enumerate(a.axes) if i not in ks or x), scalar=False)


@reg("unsqueeze expand_dims", "x|input|self|a, axis|dim")
def _unsq(I, be, b):
    a = b["x"]
    if not isinstance(a, ArrV):
        return I.top("unsqueeze")
    ks = axes_list(I, b["axis"], a.ndim + (1 if not isinstance(b["axis"], (tuple, ListV)) else len(I.concrete_items(b["axis"]) or [])))
    if ks is None:
        return I.top("unsqueeze")
    axes = list(a.axes)
    for k in sorted(ks):
        axes.insert(k, ())
    return a.copy(axes=tuple(axes), scalar=False)


@reg("transpose", "x|input|self|a, d0|dim0|axes=None, d1|dim1=None, *more")
def _transpose(I, be, b):
    a = b["x"]
    if not isinstance(a, ArrV):
        return I.top("transpose")
    if be == "pt":
        return swap(I, a, b["d0"], b["d1"])
    if b["d0"] is None:
        return I.transpose(a, list(range(a.ndim))[::-1])
    if isinstance(b["d0"], (tuple, ListV)):
        p = axes_list(I, b["d0"], a.ndim)
    else:
        p = axes_list(I, tuple([b["d0"], b["d1"]] + list(b["more"])) if b["d1"] is not None else (b["d0"],), a.ndim)
    if p is None:
        return I.top("transpose")
    if sorted(p) != list(range(a.ndim)):
        I.crash("ValueError", "axes don't match array")
    return I.transpose(a, p)


@reg("permute", "x|input|self, *dims")
def _permute(I, be, b):
    a = b["x"]
    d = b["dims"]
    if "dims" in b["_kw"]:
        d = [b["_kw"].pop("dims")]
    if not isinstance(a, ArrV):
        return I.top("permute")
    p = axes_list(I, d[0] if len(d) == 1 and not is_number(d[0]) else tuple(d), a.ndim)
    if p is None:
        return I.top("permute")
    if sorted(p) != list(range(a.ndim)):
        I.crash("RuntimeError", "permute dims don't match the tensor")
    return I.transpose(a, p)


def swap(I, a, i, j):
    i, j = I.norm_axis(i, a.ndim), I.norm_axis(j, a.ndim)
    if i is None or j is None:
        return I.top("swapaxes")
    p = list(range(a.ndim))
    p[i], p[j] = p[j], p[i]
    return I.transpose(a, p)


@reg("swapaxes swapdims", "x|input|self|a, i|axis1|axis0|dim0, j|axis2|dim1")
def _swap(I, be, b):
    if not isinstance(b["x"], ArrV):
        return I.top("swapaxes")
    return swap(I, b["x"], b["i"], b["j"])


@reg("moveaxis movedim rollaxis_", "x|input|self|a, s|source, d|destination")
def _moveaxis(I, be, b):
    a = b["x"]
    if not isinstance(a, ArrV):
        return I.top("moveaxis")
    s, d = axes_list(I, b["s"], a.ndim), axes_list(I, b["d"], a.ndim)
    if s is None or d is None or b["s"] is None:
        return I.top("moveaxis")
    if len(s) != len(d):
        I.crash("ValueError", "moveaxis: source and destination differ in length")
    order = [n for n in range(a.ndim) if n not in s]
    for dd, ss in sorted(zip(d, s)):
        order.insert(dd, ss)
    return I.transpose(a, order)


@reg("mT adjoint_ matrix_transpose linalg.matrix_transpose", "x")
def _mt(I, be, b):
    return swap(I, b["x"], -1, -2)


def neg_axes(I, a, ks):
    sub = {}
    axes = list(a.axes)
    for k in ks:
        ax = axes[k]
        if not ax:
            continue
        n = ax_size(ax)
        w = ivar(n)
        sub.update(unflatten(ax, n - 1 - atom1(w)))
        axes[k] = (w,)
    return axes, sub


@reg("flip", "x|input|self|m, axis|dims|dim=None, *more")
def _flip(I, be, b):
    a = b["x"]
    if not isinstance(a, ArrV):
        return I.top("flip")
    ax = b["axis"]
    if b["more"]:
        ax = tuple([ax] + list(b["more"]))
    ks = axes_list(I, ax, a.ndim)
    if ks is None:
        return I.top("flip")
    axes, sub = neg_axes(I, a, ks)
    v = I.view(a, axes, sub)
    return v if be == "np" else I.copy_of(I.eff(v))


@reg("flipud", "x")
def _flipud(I, be, b):
    axes, sub = neg_axes(I, b["x"], [0])
    v = I.view(b["x"], axes, sub)
    return v if be == "np" else I.copy_of(I.eff(v))


@reg("fliplr", "x")
def _fliplr(I, be, b):
    axes, sub = neg_axes(I, b["x"], [1])
    v = I.view(b["x"], axes, sub)
    return v if be == "np" else I.copy_of(I.eff(v))


@reg("roll", "x|input|self|a, shift|shifts, axis|dims|dim=None")
def _roll(I, be, b):
    a = b["x"]
    s = to_poly(b["shift"]) if is_number(b["shift"]) else None
    if not isinstance(a, ArrV) or s is None or b["axis"] is None:
        return I.top("roll")
    k = axes_list(I, b["axis"], a.ndim)
    if k is None or len(k) != 1:
        return I.top("roll")
    k = k[0]
    axes = list(a.axes)
    ax = axes[k]
    if not ax:
        return I.copy_of(I.eff(a))
    n = ax_size(ax)
    w = ivar(n)
    i = atom1(w) - s
    # wrap once
    if nonneg(s) and nonneg(n - s):
        i = i + n * (ONE - step(i))
    elif nonneg(-s) and nonneg(n + s):
        i = i - n * step(i - n)
    else:
        i = mk_mod(i, n)
    axes[k] = (w,)
    return I.copy_of(I.eff(I.view(a, axes, unflatten(ax, i))))


@reg("concatenate cat concat hstack_", "xs|tensors|arrays, axis|dim=0")
def _concat(I, be, b):
    b["_kw"].pop("dtype", None)
    return out_arg(I, b, concat(I, be, b["xs"], b["axis"]))


def concat(I, be, xs, axis):
    items = I.concrete_items(xs) if not isinstance(xs, ArrV) else None
    if items is None and isinstance(xs, ListV):
        c = I.st.heap[xs.hid]
        if isinstance(c, SymItems):
            return I.top("concatenation of a symbolic list")
    if items is None:
        if isinstance(xs, ArrV):
            return I.top("concatenation of an array")
        if isinstance(xs, PhiV):
            return I.split(xs, lambda q: concat(I, be, q, axis))
        return I.top("concatenation")
    items = [conv(I, x, be) for x in items]
    for k, x in enumerate(items):
        if isinstance(x, PhiV):
            return I.split(x, lambda q: concat(I, be, tuple(items[:k] + [q] + items[k + 1:]), axis))
        if isinstance(x, Top):
            return x
        if not isinstance(x, ArrV):
            return I.top("concatenation of %s" % type(x).__name__)
    if not items:
        I.crash("ValueError", "need at least one array to concatenate")
    items = [I.eff(x) for x in items]
    if axis is None:
        items = [x.copy(axes=(tuple(v for ax in x.axes for v in ax),)) for x in items]
        axis = 0
    nd = items[0].ndim
    if any(x.ndim != nd for x in items):
        I.crash("ValueError", "concatenation of arrays with different dimensions %s" % [x.ndim for x in items])
    k = I.norm_axis(axis, nd)
    if k is None:
        return I.top("concatenation axis")
    sizes = [ax_size(x.axes[k]) for x in items]
    for i in range(nd):
        if i == k:
            continue
        s0 = ax_size(items[0].axes[i])
        for x in items[1:]:
            s1 = ax_size(x.axes[i])
            if s1 is not s0:
                d = s1 - s0
                if nonneg(d - 1) or nonneg(-d - 1):
                    I.crash("ValueError", "concatenation of arrays of different sizes %s and %s" % (s0, s1))
                return I.top("concatenation sizes")
    tot = psum(sizes)
    ax = I.mk_axis(tot)
    w = flat_index(ax)
    # align the other axes
    pieces = []
    off = ZERO
    stripped = []
    for x, n in zip(items, sizes):
        sub = {}
        if x.axes[k]:
            sub = unflatten(x.axes[k], w - off)
        stripped.append(I.view(x, x.axes[:k] + x.axes[k + 1:], sub))
        off = off + n
    axes, bodies = I.align(stripped, "concatenation") if nd > 1 else ([], [I.body(s) for s in stripped])
    off = ZERO
    parts = []
    try:
        for i, (bd, n) in enumerate(zip(bodies, sizes)):
            c = ONE
            if i > 0:
                c = step(w - off)
            off = off + n
            if i < len(bodies) - 1:
                c = pmul(c, ONE - step(w - off))
            parts.append(pmul(c, bd))
        body = psum(parts)
    except Blowup:
        body = unk("expression too large")
    dev, be2, grad, taint = I.join(items, "concatenation")
    dt = items[0].dtype
    for x in items[1:]:
        dt = (np_promote2 if be2 == "np" else pt_promote2)(dt, x.dtype)
    axes = list(axes)
    axes.insert(k, ax)
    return I.fresh(axes, body, dt, dev, grad and CAT[dt] >= 2, taint, be2)


@reg("hstack", "xs")
def _hstack(I, be, b):
    it = I.concrete_items(b["xs"])
    if it and isinstance(it[0], ArrV) and it[0].ndim == 1:
        return concat(I, be, b["xs"], 0)
    return concat(I, be, b["xs"], 1)


@reg("vstack", "xs")
def _vstack(I, be, b):
    it = I.concrete_items(b["xs"])
    if it and all(isinstance(x, ArrV) and x.ndim >= 2 for x in it):
        return concat(I, be, b["xs"], 0)
    return stack(I, be, b["xs"], 0)


@reg("r_", "xs")
def _r(I, be, b):
    return concat(I, be, b["xs"], -1)


@reg("stack", "xs|tensors|arrays, axis|dim=0")
def _stack(I, be, b):
    return out_arg(I, b, stack(I, be, b["xs"], b["axis"]))


def stack(I, be, xs, axis):
    if isinstance(xs, PhiV):
        return I.split(xs, lambda q: stack(I, be, q, axis))
    if isinstance(xs, ArrV):
        a = xs
        # stacking the slices of the first axis
        p = swap_in(I, a, axis)
        return p
    items = I.concrete_items(xs)
    if items is None:
        if isinstance(xs, ListV) and isinstance(I.st.heap[xs.hid], SymItems):
            c = I.st.heap[xs.hid]
            e = c.elem
            if is_number(e):
                e = coerce(I, e, be)
            if isinstance(e, ArrV):
                k = I.norm_axis(axis, e.ndim + 1)
                vs = tuple(c.vars)
                n2 = tuple(ivar(v.args[0]) for v in vs)
                sub = dict(zip(vs, [atom1(v) for v in n2]))
                axes, body = I.refresh(e)
                axes = list(axes)
                axes.insert(k, n2)
                return I.fresh(axes, subst(body, sub), e.dtype, e.dev, e.grad, e.taint, e.be)
        return I.top("stack")
    items = [coerce(I, x, be) if be == "np" else x for x in items]
    ex = []
    for k, x in enumerate(items):
        if isinstance(x, PhiV):
            return I.split(x, lambda q: stack(I, be, tuple(items[:k] + [q] + items[k + 1:]), axis))
        if not isinstance(x, ArrV):
            return x if isinstance(x, Top) else I.top("stack of %s" % type(x).__name__)
        kk = I.norm_axis(axis, x.ndim + 1)
        ex.append(x.copy(axes=x.axes[:kk] + ((),) + x.axes[kk:], scalar=False))
    if not ex:
        I.crash("ValueError", "need at least one array to stack")
    return concat(I, be, tuple(ex), axis)


def swap_in(I, a, axis):
    k = I.norm_axis(axis, a.ndim)
    order = list(range(1, a.ndim))
    order.insert(k, 0)
    return I.copy_of(I.eff(I.transpose(a, order)))


@reg("pad nn.functional.pad", "x|array|input, pad|pad_width, mode=None, value|constant_values=None")
def _pad(I, be, b):
    a, pad = b["x"], b["pad"]
    if not isinstance(a, ArrV):
        return I.top("pad")
    if b["mode"] not in (None, "constant"):
        return I.top("pad mode")
    val = b["value"]
    if be == "pt":
        it = I.concrete_items(pad)
        if it is None:
            return I.top("pad widths")
        spec = {}
        for j in range(0, len(it), 2):
            spec[a.ndim - 1 - j // 2] = (it[j], it[j + 1])
    else:
        spec = {}
        if is_number(pad):
            spec = {i: (pad, pad) for i in range(a.ndim)}
        else:
            it = I.concrete_items(pad)
            if it is None:
                return I.top("pad widths")
            if len(it) == 2 and all(is_number(x) for x in it):
                spec = {i: (it[0], it[1]) for i in range(a.ndim)}
            else:
                rows = [I.concrete_items(x) if not is_number(x) else [x, x] for x in it]
                if any(r is None for r in rows):
                    return I.top("pad widths")
                if len(rows) == 1:
                    rows = rows * a.ndim
                if len(rows) != a.ndim:
                    I.crash("ValueError", "pad: wrong number of axes")
                for i, r in enumerate(rows):
                    spec[i] = (r[0], r[-1])
    out = a
    vp = ZERO if val is None else (to_poly(val) if is_number(val) else None)
    if vp is None:
        return I.top("pad value")
    for k, (lo, hi) in spec.items():
        lo, hi = (to_poly(lo) if is_number(lo) else None), (to_poly(hi) if is_number(hi) else None)
        if lo is None or hi is None:
            return I.top("pad width")
        if as_const(lo) == 0 and as_const(hi) == 0:
            continue
        if nonneg(-lo - 1) or nonneg(-hi - 1):
            if be == "np":
                I.crash("ValueError", "negative pad width")
            # torch crops
            n = ax_size(out.axes[k])
            s = SliceV(num(-lo, "int") if nonneg(-lo - 1) else None, num(n + hi, "int") if nonneg(-hi - 1) else None, None)
            out = I.getitem(out, (slice_full(),) * k + (s,))
            lo = ZERO if nonneg(-lo - 1) else lo
            hi = ZERO if nonneg(-hi - 1) else hi
        ax = out.axes[k]
        n = ax_size(ax)
        nax = I.mk_axis(n + lo + hi)
        w = flat_index(nax)
        v = I.view(out, out.axes[:k] + (nax,) + out.axes[k + 1:], unflatten(ax, w - lo))
        body = I.body(v)
        inr = pmul(step(w - lo), ONE - step(w - lo - n))
        try:
            body = vp + pmul(inr, body - vp)
        except Blowup:
            body = unk("expression too large")
        out = I.copy_of(I.eff(v), axes=v.axes, body=body)
    return out


def expand_to(I, a, sh, what="broadcast"):
    """broadcast view of a to sizes sh (list of Poly; -1 keeps)"""
    if len(sh) < a.ndim:
        I.crash("ValueError", "cannot %s %d dimensions to %d" % (what, a.ndim, len(sh)))
    axes = []
    src = ((),) * (len(sh) - a.ndim) + a.axes
    for ax, s in zip(src, sh):
        if as_int(s) == -1:
            axes.append(ax)
            continue
        n = ax_size(ax)
        if ax:
            if n is not s:
                d = n - s
                if nonneg(d - 1) or nonneg(-d - 1):
                    I.crash("ValueError", "cannot %s size %s to %s" % (what, n, s))
            axes.append(ax)
        else:
            axes.append(I.mk_axis(s))
    return a.copy(axes=tuple(axes), scalar=False)


@reg("broadcast_to", "x|input|self|array, shape|size")
def _bto(I, be, b):
    sh = shape_arg(I, b["shape"])
    if sh is None or not isinstance(b["x"], ArrV):
        return I.top("broadcast_to")
    return expand_to(I, b["x"], sh)


@reg("expand", "x|self, *sizes")
def _expand(I, be, b):
    s = b["sizes"]
    if "size" in b["_kw"]:
        s = [b["_kw"].pop("size")]
    sh = size_list(I, s)
    if sh is None or not isinstance(b["x"], ArrV):
        return I.top("expand")
    return expand_to(I, b["x"], sh, "expand")


@reg("expand_as", "x|self, other")
def _expas(I, be, b):
    if isinstance(b["x"], ArrV) and isinstance(b["other"], ArrV):
        return expand_to(I, b["x"], [ax_size(a) for a in b["other"].axes], "expand")
    return I.top("expand_as")


@reg("broadcast_tensors broadcast_arrays", "*xs")
def _bcast(I, be, b):
    xs = [conv(I, x, be) for x in b["xs"]]
    b["_kw"].clear()
    for k, x in enumerate(xs):
        if isinstance(x, PhiV):
            return I.split(x, lambda q: _bcast(I, be, {"xs": xs[:k] + [q] + xs[k + 1:], "_kw": {}}))
        if not isinstance(x, ArrV):
            return I.top("broadcast")
    axes, bodies = I.align(xs, "broadcasting")
    sh = [ax_size(a) for a in axes]
    out = tuple(expand_to(I, x, sh) for x in xs)
    return out if be == "pt" else ListV(I.alloc(list(out)))


@reg("broadcast_shapes", "*xs")
def _bshapes(I, be, b):
    shs = [shape_arg(I, x) for x in b["xs"]]
    if any(s is None for s in shs):
        return I.top("broadcast_shapes")
    nd = max([len(s) for s in shs] or [0])
    out = []
    for k in range(nd, 0, -1):
        c = ONE
        for s in shs:
            if len(s) >= k and as_int(s[-k]) != 1:
                if as_int(c) != 1 and c is not s[-k]:
                    d = c - s[-k]
                    if nonneg(d - 1) or nonneg(-d - 1):
                        I.crash("ValueError", "shape mismatch")
                c = s[-k]
        out.append(num(c, "int"))
    return tuple(out)


@reg("repeat tile", "x|self|input|a|A, *reps")
def _repeat(I, be, b):
    b["_kw"].clear()
    a = b["x"]
    nm = b.get("_fname")
    if isinstance(a, ArrV) and (nm == "tile" or be == "pt"):
        sh = size_list(I, b["reps"])
        if sh is not None:
            n = max(len(sh), a.ndim)
            sh = [ONE] * (n - len(sh)) + sh
            src = ((),) * (n - a.ndim) + a.axes
            axes = []
            for ax, s in zip(src, sh):
                if as_int(s) == 1:
                    axes.append(ax)
                elif not ax:
                    axes.append(I.mk_axis(s))
                else:
                    axes.append(I.mk_axis(s) + ax)
            return I.copy_of(I.eff(a.copy(axes=tuple(axes), scalar=False)))
    return I.top("repeat")


def diagonal(I, a, off, d1, d2):
    if isinstance(a, PhiV):
        return I.split(a, lambda q: diagonal(I, q, off, d1, d2))
    if not isinstance(a, ArrV):
        return I.top("diagonal")
    off = 0 if off is None else off
    o = to_poly(off) if is_number(off) else None
    d1, d2 = I.norm_axis(d1, a.ndim), I.norm_axis(d2, a.ndim)
    if o is None or d1 is None or d2 is None:
        return I.top("diagonal")
    A1, A2 = a.axes[d1], a.axes[d2]
    n1, n2 = ax_size(A1), ax_size(A2)
    if nonneg(o):
        m1, m2 = n1, n2 - o
        s1, s2 = ZERO, o
    else:
        m1, m2 = n1 + o, n2
        s1, s2 = -o, ZERO
    keep = [x for i, x in enumerate(a.axes) if i not in (d1, d2)]
    if o is ZERO and len(A1) == len(A2) and all(x.args[0] is y.args[0] for x, y in zip(A1, A2)):
        new = tuple(ivar(v.args[0]) for v in A1)
        sub = {}
        for x, y, w in zip(A1, A2, new):
            sub[x] = atom1(w)
            sub[y] = atom1(w)
        return I.view(a, keep + [new], sub)
    m = mk_min([m1, m2])
    new = I.mk_axis(m)
    w = flat_index(new)
    sub = unflatten(A1, w + s1)
    sub.update(unflatten(A2, w + s2))
    return I.view(a, keep + [new], sub)


@reg("diagonal linalg.diagonal pt:linalg.diagonal", "x|input|self|a|A, offset=0, d1|dim1|axis1=None, d2|dim2|axis2=None")
def _diagonal(I, be, b):
    d1 = b["d1"] if b["d1"] is not None else 0
    d2 = b["d2"] if b["d2"] is not None else 1
    r = diagonal(I, b["x"], b["offset"], d1, d2)
    if isinstance(r, ArrV) and be == "np":
        r.extra = dict(r.extra or {}, readonly=True)
    return r


@reg("pt:linalg.diagonal", "x|A, offset=0, d1|dim1=-2, d2|dim2=-1")
def _ldiag(I, be, b):
    return diagonal(I, b["x"], b["offset"], b["d1"], b["d2"])


@reg("diag", "x|input|self|v, k|diagonal=0")
def _diag(I, be, b):
    a = b["x"]
    if not isinstance(a, ArrV):
        return I.top("diag")
    if a.ndim == 2:
        return diagonal(I, a, b["k"], 0, 1)
    return diag_embed(I, a, b["k"])


def diag_embed(I, a, k):
    if as_int(to_poly(k)) != 0:
        return I.top("diag offset")
    axes, body = I.refresh(I.eff(a))
    ax = axes[-1]
    w1, w2 = I.mk_axis(ax_size(ax)), I.mk_axis(ax_size(ax))
    body = subst(body, unflatten(ax, flat_index(w1)))
    nb = pmul(delta(flat_index(w1) - flat_index(w2)), body)
    return I.fresh(list(axes[:-1]) + [w1, w2], nb, a.dtype, a.dev, a.grad, a.taint, a.be)


@reg("diag_embed", "x|input|self, offset=0")
def _diagembed(I, be, b):
    if not isinstance(b["x"], ArrV):
        return I.top("diag_embed")
    return diag_embed(I, b["x"], b["offset"])


@reg("fill_diagonal", "x|a, val, wrap=False")
def _filldiag(I, be, b):
    a = b["x"]
    if isinstance(a, ArrV) and a.ndim == 2:
        d = diagonal(I, a, 0, 0, 1)
        I.setitem(d, (Ellipsis,), b["val"], None, "fill_diagonal")
        return None
    return I.top("fill_diagonal")


@reg("tril triu", "x|input|self|m, k|diagonal=0")
def _tri(I, be, b):
    a = b["x"]
    k = to_poly(b["k"]) if is_number(b["k"]) else None
    if not isinstance(a, ArrV) or k is None:
        return I.top("tril")
    axes, body = I.refresh(I.eff(a))
    r, c = flat_index(axes[-2]), flat_index(axes[-1])
    m = step(r + k - c) if b.get("_fname") == "tril" else step(c - r - k)
    return I.fresh(axes, pmul(m, body), a.dtype, a.dev, a.grad, a.taint, a.be)


@reg("narrow", "x|input|self, dim, start, length")
def _narrow(I, be, b):
    a = b["x"]
    if not isinstance(a, ArrV):
        return I.top("narrow")
    k = I.norm_axis(b["dim"], a.ndim)
    end = I.binop("Add", b["start"], b["length"])
    return I.getitem(a, (slice_full(),) * k + (SliceV(b["start"], end, None),))


@reg("select", "x|input|self, dim, index")
def _select(I, be, b):
    a = b["x"]
    if not isinstance(a, ArrV):
        return I.top("select")
    k = I.norm_axis(b["dim"], a.ndim)
    return I.getitem(a, (slice_full(),) * k + (b["index"],))


@reg("index_select", "x|input|self, dim, index")
def _isel(I, be, b):
    a = b["x"]
    if not isinstance(a, ArrV):
        return I.top("index_select")
    k = I.norm_axis(b["dim"], a.ndim)
    return I.getitem(a, (slice_full(),) * k + (b["index"],))


@reg("take", "x|a|input|self, index|indices, axis|dim=None, mode=None")
def _take(I, be, b):
    a = b["x"]
    if not isinstance(a, ArrV):
        return I.top("take")
    if b["axis"] is None:
        a = a.copy(axes=(tuple(v for x in a.axes for v in x),), scalar=False)
        return I.getitem(a, (b["index"],))
    k = I.norm_axis(b["axis"], a.ndim)
    return I.getitem(a, (slice_full(),) * k + (b["index"],))


@reg("gather take_along_dim", "x|input|self, dim|indices, index|axis")
def _gather(I, be, b):
    x, i, d = b["x"], b["index"], b["dim"]
    if isinstance(d, ArrV):
        i, d = d, i
    return take_along(I, x, i, d)


@reg("take_along_axis", "x|arr, index|indices, axis")
def _taa(I, be, b):
    return take_along(I, b["x"], b["index"], b["axis"])


def take_along(I, x, i, d):
    if not isinstance(x, ArrV) or not isinstance(i, ArrV) or x.ndim != i.ndim:
        return I.top("take_along_axis")
    k = I.norm_axis(d, x.ndim)
    ix = []
    for j in range(x.ndim):
        if j == k:
            ix.append(i)
        else:
            n = ax_size(i.axes[j])
            v = I.mk_axis(n)
            axes = [()] * x.ndim
            axes[j] = v
            ix.append(I.fresh(axes, flat_index(v), "i64", i.dev, False, frozenset(), i.be))
    return I.getitem(x, tuple(ix))


@reg("unbind", "x|input|self, dim=0")
def _unbind(I, be, b):
    a = b["x"]
    if not isinstance(a, ArrV):
        return I.top("unbind")
    k = I.norm_axis(b["dim"], a.ndim)
    n = as_int(ax_size(a.axes[k]))
    if n is None:
        v = ivar(ax_size(a.axes[k]))
        return ListV(I.alloc(SymItems((v,), I.getitem(a, (slice_full(),) * k + (Num(atom1(v), "int"),)), ax_size(a.axes[k]))))
    return tuple(I.getitem(a, (slice_full(),) * k + (i,)) for i in range(n))


@reg("split chunk tensor_split array_split", "x|input|self|ary|tensor, n|split_size_or_sections|chunks|indices_or_sections|split_size, axis|dim=0")
def _split(I, be, b):
    a, n = b["x"], b["n"]
    if not isinstance(a, ArrV):
        return I.top("split")
    k = I.norm_axis(b["axis"], a.ndim)
    tot = ax_size(a.axes[k])
    it = I.concrete_items(n) if not is_number(n) else None
    fn = b.get("_fname")
    cuts = None
    if it is not None and all(is_number(x) for x in it):
        ps = [to_poly(x) for x in it]
        if be == "pt" and fn == "split":
            cuts = [ZERO]
            for p in ps:
                cuts.append(cuts[-1] + p)
        else:
            cuts = [ZERO] + ps + [tot]
    elif is_number(n):
        c = as_int(to_poly(n))
        if c is not None and (be == "np" or fn == "chunk"):
            h = mk_fdiv(tot, c)
            if h * c is tot:
                cuts = [h * j for j in range(c + 1)]
        elif be == "pt" and fn == "split":
            p = to_poly(n)
            q = tot / p
            c = as_int(q)
            if c is not None:
                cuts = [p * j for j in range(c + 1)]
    if cuts is None:
        return I.top("split sizes")
    out = [I.getitem(a, (slice_full(),) * k + (SliceV(num(lo, "int"), num(hi, "int"), None),)) for lo, hi in zip(cuts, cuts[1:])]
    return tuple(out) if be == "pt" else ListV(I.alloc(out))


def windows(I, a, k, size, stp, be, where):
    ax = a.axes[k]
    n = ax_size(ax)
    m = n - size
    if stp is not ONE:
        m = mk_fdiv(m, stp)
    m = m + 1
    if nonneg(-m):
        I.crash("ValueError", "window larger than the axis")
    o, w = I.mk_axis(m), I.mk_axis(size)
    sub = unflatten(ax, flat_index(o) * stp + flat_index(w))
    axes = list(a.axes)
    axes[k] = o
    axes.append(w)
    return I.view(a, axes, sub)


@reg("unfold", "x|input|self, dimension|dim, size, step")
def _unfold(I, be, b):
    a = b["x"]
    s, t = (to_poly(b[q]) if is_number(b[q]) else None for q in ("size", "step"))
    if not isinstance(a, ArrV) or s is None or t is None:
        return I.top("unfold")
    return windows(I, a, I.norm_axis(b["dimension"], a.ndim), s, t, be, "end")


@reg("lib.stride_tricks.sliding_window_view", "x, window|window_shape, axis=None, subok=None, writeable=None")
def _swv(I, be, b):
    a = b["x"]
    if not isinstance(a, ArrV):
        return I.top("sliding_window_view")
    w = shape_arg(I, b["window"])
    if w is None:
        return I.top("window shape")
    ks = axes_list(I, b["axis"], a.ndim)
    if ks is None or len(ks) != len(w):
        if b["axis"] is None and len(w) != a.ndim:
            I.crash("ValueError", "window_shape must have one entry per axis")
        return I.top("sliding_window_view")
    r = a
    for k, s in zip(ks, w):
        r = windows(I, r, k, s, ONE, be, "end")
    r.extra = dict(r.extra or {}, readonly=True)
    return r


@reg("as_strided lib.stride_tricks.as_strided", "x|input|self, shape|size=None, strides|stride=None, offset|storage_offset|subok=None, writeable=None")
def _as_strided(I, be, b):
    a = b["x"]
    if isinstance(a, PhiV):
        return I.split(a, lambda q: _as_strided(I, be, dict(b, x=q)))
    if not isinstance(a, ArrV):
        return I.top("as_strided")
    sh = shape_arg(I, b["shape"])
    st = I.concrete_items(b["strides"]) if b["strides"] is not None else None
    if sh is None or st is None or len(sh) != len(st):
        return I.top("as_strided")
    if be == "pt" and b["offset"] not in (None,):
        if not (isinstance(b["offset"], ExtM)):
            return I.top("as_strided offset")
    pos = {}
    axes = []
    for n, s in zip(sh, st):
        ax = I.mk_axis(n)
        axes.append(ax)
        if is_number(s) and as_int(to_poly(s)) == 0:
            continue
        if not isinstance(s, Stride):
            return I.top("as_strided strides")
        if not same_layout(s.arr, a):
            return I.top("as_strided of another array")
        pos[s.ax] = pos.get(s.ax, ZERO) + flat_index(ax) * s.mul
    sub = {}
    for k, ax in enumerate(a.axes):
        p = pos.get(k, ZERO)
        n = ax_size(ax)
        # the largest index reached
        if p.terms:
            hi = p
            mx = {}
            for v in p.fv:
                mx[v] = v.args[0] - 1
            top_ = subst(p, mx)
            if nonneg(top_ - n):
                I.event("oob", "as_strided reads past the end of an axis of size %s (index %s)" % (n, top_))
        sub.update(unflatten(ax, p))
    r = I.view(a, axes, sub)
    return r


def same_layout(x, y):
    if x is y:
        return True
    return x.sid == y.sid and x.axes == y.axes and x.idx == y.idx


# ------------------------------------------------------------------ creation
def full_(I, be, sh, p, dtype, dev, like=None, origin=None):
    axes = [I.mk_axis(s) for s in sh]
    return I.fresh(axes, p, dtype, dev, False, frozenset(), be)


def dt_arg(I, v, default):
    if v is None:
        return default
    if isinstance(v, Top):
        return default
    return I.lib.as_dtype(I, v) or default


def dev_arg(I, v, be, default=None):
    if be == "np":
        return "np"
    if v is None:
        return default or "cpu"
    if isinstance(v, Dev):
        return v.n
    if isinstance(v, str):
        return "cpu" if v == "cpu" else "dev:" + v
    return default or "cpu"


def fdef(I, be):
    return "f64" if be == "np" else I.env.default_dtype


def _creat(names, p):
    @reg(names, "*sizes")
    def g(I, be, b, p=p):
        s = b["sizes"]
        kw = b["_kw"]
        dt = kw.pop("dtype", None)
        if "shape" in kw:
            s = [kw.pop("shape")]
        if "size" in kw:
            s = [kw.pop("size")]
        if be == "np" and len(s) > 1 and dt is None:
            dt = s[1]
            s = s[:1]
        dv = kw.pop("device", None)
        kw.pop("requires_grad", None)
        sh = size_list(I, s)
        if sh is None:
            return I.top("array creation shape")
        body = const(p) if p is not None else unk("uninitialised")
        r = full_(I, be, sh, body, dt_arg(I, dt, fdef(I, be)), dev_arg(I, dv, be))
        if p is None:
            r.extra = {"uninit": True}
        return r


_creat("zeros", 0)
_creat("ones", 1)
_creat("empty", None)


@reg("full", "shape|size, v|fill_value, dtype=None, device=None, requires_grad=None")
def _full(I, be, b):
    sh = shape_arg(I, b["shape"])
    if sh is None:
        return I.top("full")
    return mkfull(I, be, sh, b["v"], b["dtype"], dev_arg(I, b["device"], be))


def mkfull(I, be, sh, v, dt, dev, like=None):
    if is_number(v):
        d = dt_arg(I, dt, like.dtype if like is not None else {"float": fdef(I, be), "int": "i64", "bool": "bool"}.get(kind_of(v)))
        return full_(I, be, sh, to_poly(v), d, dev)
    if isinstance(v, ArrV) and v.ndim == 0:
        return full_(I, be, sh, I.body(v), dt_arg(I, dt, like.dtype if like is not None else v.dtype), dev)
    return I.top("full value")


def _like(names, p):
    @reg(names, "x|input|self|a|prototype, dtype=None, *more")
    def g(I, be, b, p=p):
        a = conv(I, b["x"], be)
        if isinstance(a, PhiV):
            return I.split(a, lambda q: g(I, be, dict(b, x=q, _kw=dict(b["_kw"]))))
        kw = b["_kw"]
        sh = kw.pop("shape", None)
        dv = kw.pop("device", None)
        kw.pop("requires_grad", None)
        kw.pop("memory_format", None)
        kw.pop("subok", None)
        if isinstance(a, MaskSel):
            return MaskSel(a.vars, const(p or 0), a.mask, a.dtype, a.dev, a.be, False, frozenset())
        if not isinstance(a, ArrV):
            return I.top("like")
        dt = dt_arg(I, b["dtype"], a.dtype)
        s = shape_arg(I, sh) if sh is not None else None
        if sh is not None and s is None:
            return I.top("like shape")
        body = const(p) if p is not None else unk("uninitialised")
        dev = dev_arg(I, dv, be, a.dev)
        if s is None:
            axes = [tuple(ivar(v.args[0]) for v in ax) for ax in a.axes]
            return I.fresh(axes, body, dt, dev, False, frozenset(), a.be)
        return full_(I, be, s, body, dt, dev)


_like("zeros_like", 0)
_like("ones_like", 1)
_like("empty_like", None)


@reg("full_like", "x|input|self|a, v|fill_value, dtype=None, *more")
def _fulllike(I, be, b):
    a = b["x"]
    if not isinstance(a, ArrV):
        return I.top("full_like")
    sh = b["_kw"].pop("shape", None)
    dv = b["_kw"].pop("device", None)
    s = shape_arg(I, sh) if sh is not None else [ax_size(x) for x in a.axes]
    return mkfull(I, be, s, b["v"], b["dtype"], dev_arg(I, dv, be, a.dev), a)


def _newc(names, p):
    @reg(names, "x|self, *sizes")
    def g(I, be, b, p=p):
        a = b["x"]
        kw = b["_kw"]
        dt = kw.pop("dtype", None)
        dv = kw.pop("device", None)
        kw.pop("requires_grad", None)
        s = b["sizes"]
        if "size" in kw:
            s = [kw.pop("size")]
        sh = size_list(I, s)
        if sh is None or not isinstance(a, ArrV):
            return I.top("new tensor")
        body = const(p) if p is not None else unk("uninitialised")
        return full_(I, be, sh, body, dt_arg(I, dt, a.dtype), dev_arg(I, dv, be, a.dev))


_newc("new_zeros", 0)
_newc("new_ones", 1)
_newc("new_empty", None)


@reg("new_full", "x|self, size, v|fill_value, dtype=None, device=None")
def _newfull(I, be, b):
    sh = shape_arg(I, b["size"])
    a = b["x"]
    if sh is None or not isinstance(a, ArrV):
        return I.top("new_full")
    return mkfull(I, be, sh, b["v"], b["dtype"], dev_arg(I, b["device"], be, a.dev), a)


@reg("new_tensor", "x|self, data, dtype=None, device=None")
def _newtensor(I, be, b):
    a = b["x"]
    r = I.lib.sequence_to_array(I, b["data"], a)
    if not isinstance(r, ArrV):
        return I.top("new_tensor")
    return r.copy(dtype=dt_arg(I, b["dtype"], r.dtype), dev=dev_arg(I, b["device"], be, a.dev), be="pt")


@reg("eye identity", "n|N, m|M=None, k=None, dtype=None, device=None, requires_grad=None")
def _eye(I, be, b):
    n = to_poly(b["n"]) if is_number(b["n"]) else None
    mm = b["m"]
    dt = b["dtype"]
    if mm is not None and not is_number(mm):
        dt, mm = mm, None
    m = n if mm is None else to_poly(mm)
    if n is None:
        return I.top("eye")
    k = b["k"]
    if k is not None and as_int(to_poly(k)) != 0:
        return I.top("eye offset")
    r, c = I.mk_axis(n), I.mk_axis(m)
    d = flat_index(r) - flat_index(c)
    return I.fresh([r, c], delta(d), dt_arg(I, dt, fdef(I, be)), dev_arg(I, b["device"], be), False, frozenset(), be)


@reg("arange range_", "a|start|end|stop, b|end2|stop2=None, c|step=None, *more")
def _arange(I, be, b):
    kw = b["_kw"]
    lo, hi, st = b["a"], b["b"], b["c"]
    if "stop" in kw or "end" in kw:
        hi = kw.pop("stop", kw.pop("end", None))
    dt, dv = kw.pop("dtype", None), kw.pop("device", None)
    kw.pop("requires_grad", None)
    if be == "np" and st is not None and not is_number(st):
        dt, st = st, None
    if hi is None:
        lo, hi = 0, lo
    ks = [kind_of(x) if not isinstance(x, ArrV) else ("int" if CAT[x.dtype] == 1 else "float") for x in (lo, hi) + ((st,) if st is not None else ())]
    fl = "float" in ks
    d = dt_arg(I, dt, (fdef(I, be) if fl else "i64"))
    dev = dev_arg(I, dv, be)
    ps = []
    for x in (lo, hi, st if st is not None else 1):
        if isinstance(x, ArrV) and x.ndim == 0:
            ps.append(I.body(x))
        elif is_number(x):
            ps.append(to_poly(x))
        else:
            return I.top("arange")
    s = as_const(ps[2])
    if s is None or s == 0:
        return I.top("arange step")
    n = (ps[1] - ps[0]) / ps[2]
    if not is_index_poly(n):
        if all(is_index_poly(p) for p in ps) and s > 0:
            n = mk_fdiv(ps[1] - ps[0] + (ps[2] - 1), ps[2])
        elif all(is_index_poly(p) for p in ps):
            n = mk_fdiv(ps[0] - ps[1] + (-ps[2] - 1), -ps[2])
        else:
            n = mk_ceil(n)
            return I.top("arange of non integer length")
    if not nonneg(n):
        n = mk_max([n, ZERO])
    ax = I.mk_axis(n)
    return I.fresh([ax], ps[0] + flat_index(ax) * ps[2], d, dev, False, frozenset(), be)


@reg("linspace", "a|start, b|stop|end, n|num|steps=50, endpoint=True, *more")
def _linspace(I, be, b):
    kw = b["_kw"]
    dt, dv = kw.pop("dtype", None), kw.pop("device", None)
    kw.clear()
    if not all(is_number(b[k]) for k in "abn"):
        return I.top("linspace")
    lo, hi, n = to_poly(b["a"]), to_poly(b["b"]), to_poly(b["n"])
    ax = I.mk_axis(n)
    den = n - 1 if b["endpoint"] is True else n
    body = lo + pmul(flat_index(ax), pmul(hi - lo, ppow(den, -1))) if den.terms else lo
    return I.fresh([ax], body, dt_arg(I, dt, fdef(I, be)), dev_arg(I, dv, be), False, frozenset(), be)


@reg("indices meshgrid mgrid ix_ triu_indices tril_indices unravel_index ravel_multi_index", "*args")
def _idx(I, be, b):
    b["_kw"].clear()
    nm = b.get("_fname")
    if nm == "ix_":
        xs = [conv(I, x, "np") if not isinstance(x, ListV) else I.list_to_index(x) for x in b["args"]]
        if all(isinstance(x, ArrV) and x.ndim == 1 for x in xs):
            out = []
            for k, x in enumerate(xs):
                axes = [()] * len(xs)
                axes[k] = x.axes[0]
                out.append(x.copy(axes=tuple(axes)))
            return tuple(out)
    return I.top("index grid")


@reg("diag_indices diag_indices_from", "n, ndim=2")
def _diagidx(I, be, b):
    n = b["n"]
    if isinstance(n, ArrV):
        p = ax_size(n.axes[0])
        nd = n.ndim
    else:
        p = to_poly(n) if is_number(n) else None
        nd = as_int(to_poly(b["ndim"]))
    if p is None or nd is None:
        return I.top("diag_indices")
    ax = I.mk_axis(p)
    a = I.fresh([ax], flat_index(ax), "i64", "np", False, frozenset(), "np")
    return tuple(a for _ in range(nd))


@reg("array asarray asanyarray ascontiguousarray as_tensor tensor asfortranarray require", "x|data|obj|a|object, dtype=None, *more")
def _asarray(I, be, b):
    x = b["x"]
    kw = b["_kw"]
    nm = b.get("_fname", "asarray")
    dv = kw.pop("device", None)
    rg = kw.pop("requires_grad", None)
    cp = kw.pop("copy", None)
    for k in ("order", "ndmin", "subok", "like"):
        kw.pop(k, None)
    if isinstance(x, PhiV):
        return I.split(x, lambda q: _asarray(I, be, dict(b, x=q, _kw={})))
    if isinstance(x, Top):
        return x
    dt = I.lib.as_dtype(I, b["dtype"]) if b["dtype"] is not None else None
    if isinstance(x, ArrV):
        if be == "np" and x.be == "pt":
            if x.grad:
                I.crash("RuntimeError", "conversion of a tensor that requires grad to numpy")
            x = x.copy(be="np", dev="np", grad=False)
        elif be == "pt" and x.be == "np":
            x = x.copy(be="pt", dev="cpu", grad=False)
        cast = dt is not None and dt != x.dtype
        dev = dev_arg(I, dv, be, x.dev)
        if nm in ("array", "tensor") and cp is not False or cast:
            r = I.copy_of(I.eff(x), dtype=dt or x.dtype)
            if nm == "tensor":
                r.grad = False
                if x.grad:
                    r.taint = r.taint | {("cut", I.locstr() + " torch.tensor() detaches")}
            note_cast(I, x, dt)
            r.dev = dev
            return r
        if dv is not None and dev != x.dev:
            return I.copy_of(I.eff(x), dev=dev)
        return x
    if is_number(x):
        r = coerce(I, x, be, dt)
        r.scalar = False
        if be == "pt":
            r.dev = dev_arg(I, dv, be)
        return r
    r = I.lib.sequence_to_array(I, x, None, be)
    if isinstance(r, ArrV):
        if be == "np" and r.be == "np":
            return r.copy(dtype=dt or r.dtype)
        return r.copy(be=be, dtype=dt or r.dtype, dev=dev_arg(I, dv, be))
    return I.top("array construction")


def note_cast(I, x, dt):
    if dt is None or x.dtype == dt:
        return
    if CAT[dt] < CAT[x.dtype] and CAT[dt] == 1 and CAT[x.dtype] >= 2:
        I.event("trunc", "conversion of floating point values to %s" % dt)


@reg("from_numpy", "x|ndarray")
def _fromnp(I, be, b):
    x = b["x"]
    return x.copy(be="pt", dev="cpu") if isinstance(x, ArrV) else I.top("from_numpy")


# ------------------------------------------------------------------ casts, copies, devices
def cast(I, a, dt, copy=False):
    if isinstance(a, PhiV):
        return I.split(a, lambda x: cast(I, x, dt, copy))
    if isinstance(a, MaskSel):
        return MaskSel(a.vars, a.body, a.mask, dt, a.dev, a.be, a.grad, a.taint)
    if not isinstance(a, ArrV):
        return I.top("cast")
    a = I.eff(a)
    if a.dtype == dt:
        return I.copy_of(a) if copy else a
    note_cast(I, a, dt)

    def f(x):
        if dt == "bool":
            return bval(x)
        if CAT[dt] < 3 and CAT[a.dtype] == 3:
            return re_of(x)
        if CAT[dt] == 1 and CAT[a.dtype] >= 2 and not is_index_poly(x):
            return mk_func("trunc", [x])
        return x
    r = I.ew(f, [a], dtype=dt, what="cast")
    if isinstance(r, ArrV) and CAT[a.dtype] == 2 and CAT[dt] == 2:
        wa, wd = tmw(a.dtype), tmw(dt)
        if wd < wa:
            r.taint = r.taint | {("lowp", "%s: conversion of %s to %s" % (I.locstr(), a.dtype, dt))}
    if isinstance(r, ArrV):
        r.scalar = a.scalar
    return r


def tmw(d):
    from .arr import WIDTH
    return WIDTH[d]


@reg("astype", "x|self|a, dtype, order=None, casting=None, subok=None, copy=True")
def _astype(I, be, b):
    dt = I.lib.as_dtype(I, b["dtype"])
    if dt is None:
        return I.top("astype")
    return cast(I, b["x"], dt, b["copy"] is not False)


@reg("type", "x|self, dtype=None")
def _type(I, be, b):
    if b["dtype"] is None:
        return StrTop()
    dt = I.lib.as_dtype(I, b["dtype"])
    if dt is None:
        return I.top("type")
    return cast(I, b["x"], dt)


@reg("type_as", "x|self, other")
def _typeas(I, be, b):
    o = b["other"]
    if not isinstance(o, ArrV):
        return I.top("type_as")
    r = cast(I, b["x"], o.dtype)
    if isinstance(r, ArrV) and r.dev != o.dev:
        r = I.copy_of(r, dev=o.dev)
    return r


for _nm, _d in (("float", "f32"), ("double", "f64"), ("half", "f16"), ("int", "i32"), ("long", "i64"), ("bool", "bool"), ("short", "i16"), ("cfloat", "c64"),
                ("cdouble", "c128"), ("bfloat16", "f16")):
    @reg("m:" + _nm, "x|self")
    def _tc(I, be, b, d=_d):
        return cast(I, b["x"], d)


@reg("to", "x|self, *args")
def _to(I, be, b):
    a = b["x"]
    kw = b["_kw"]
    dt = dev = None
    items = list(b["args"])
    for k in ("dtype", "device", "other"):
        if k in kw:
            items.append(kw.pop(k))
    for k in ("non_blocking", "copy", "memory_format"):
        kw.pop(k, None)
    for x in items:
        if isinstance(x, PhiV) or isinstance(x, Top):
            return I.top("to")
        d = I.lib.as_dtype(I, x) if not isinstance(x, str) else None
        if d is not None:
            dt = d
        elif isinstance(x, (Dev, str)):
            dev = dev_arg(I, x, "pt")
        elif isinstance(x, ArrV):
            dt, dev = x.dtype, x.dev
    if isinstance(a, PhiV):
        return I.split(a, lambda q: _to(I, be, {"x": q, "args": [y for y in (DT(dt) if dt else None, Dev(dev) if dev else None) if y is not None], "_kw": {}}))
    if not isinstance(a, ArrV):
        return I.top("to")
    r = a
    if dt is not None and dt != a.dtype:
        r = cast(I, a, dt)
    if dev is not None and dev != r.dev:
        r = I.copy_of(I.eff(r), dev=dev)
    return r


@reg("cpu", "x|self")
def _cpu(I, be, b):
    a = b["x"]
    if not isinstance(a, ArrV):
        return I.top("cpu")
    return a if a.dev == "cpu" else I.copy_of(I.eff(a), dev="cpu")


@reg("cuda", "x|self, *args")
def _cuda(I, be, b):
    a = b["x"]
    return I.copy_of(I.eff(a), dev="dev:cuda") if isinstance(a, ArrV) else I.top("cuda")


@reg("clone copy", "x|self|input|a, order=None")
def _clone(I, be, b):
    a = b["x"]
    b["_kw"].clear()
    if isinstance(a, PhiV):
        return I.split(a, lambda q: _clone(I, be, {"x": q, "order": None, "_kw": {}}))
    if isinstance(a, MaskSel) or is_number(a):
        return a
    if not isinstance(a, ArrV):
        return a if isinstance(a, Top) else I.top("clone")
    return I.copy_of(I.eff(a))


@reg("contiguous", "x|self, *a")
def _contig(I, be, b):
    b["_kw"].clear()
    a = b["x"]
    return a


@reg("detach", "x|self|input")
def _detach(I, be, b):
    a = b["x"]
    if isinstance(a, PhiV):
        return I.split(a, lambda q: _detach(I, be, {"x": q, "_kw": {}}))
    if not isinstance(a, ArrV):
        return I.top("detach")
    a = I.eff(a)
    t = a.taint
    if a.grad:
        t = t | {("cut", I.locstr() + " detach()")}
    return a.copy(grad=False, taint=t)


@reg("detach_", "x|self")
def _detachi(I, be, b):
    return _detach(I, be, b)


@reg("requires_grad_ retain_grad", "x|self, *a")
def _rg(I, be, b):
    b["_kw"].clear()
    return b["x"]


@reg("numpy", "x|self, *a")
def _numpy(I, be, b):
    b["_kw"].clear()
    a = b["x"]
    if not isinstance(a, ArrV):
        return I.top("numpy")
    a = I.eff(a)
    if a.be == "pt" and a.grad:
        I.crash("RuntimeError", "Can't call numpy() on a tensor that requires grad")
    if a.be == "pt" and a.dev not in ("cpu",):
        I.crash("TypeError", "can't convert a device tensor to numpy")
    return a.copy(be="np", dev="np", grad=False)


@reg("item", "x|self")
def _item(I, be, b):
    a = b["x"]
    if not isinstance(a, ArrV):
        return a if is_number(a) else I.top("item")
    if any(a.axes):
        for ax in a.axes:
            if ax and nonneg(ax_size(ax) - 2):
                I.crash("ValueError", "item() of an array with several elements")
        return I.top("item of array")
    if a.be == "pt":
        I.event("sync", "item() reads a value")
        if a.grad:
            I.event("itemcut", "item() leaves the differentiable graph")
    return num(I.body(a), {0: "bool", 1: "int", 2: "float", 3: "complex"}[CAT[a.dtype]])


@reg("tolist", "x|self")
def _tolist(I, be, b):
    a = b["x"]
    if isinstance(a, ArrV) and a.ndim == 0:
        return _item(I, be, b)
    if isinstance(a, ArrV) and a.ndim == 1:
        n = as_int(ax_size(a.axes[0]))
        k = {0: "bool", 1: "int", 2: "float", 3: "complex"}[CAT[a.dtype]]
        if n is not None and n <= 64:
            return ListV(I.alloc([num(I.body(I.getitem(a, (i,))), k) for i in range(n)]))
        v = ivar(ax_size(a.axes[0]))
        e = I.getitem(a, (Num(atom1(v), "int"),))
        return ListV(I.alloc(SymItems((v,), num(I.body(e), k), ax_size(a.axes[0]))))
    return I.top("tolist")


@reg("fill_ fill", "x|self, v|value")
def _fill(I, be, b):
    a = b["x"]
    if not isinstance(a, ArrV):
        return I.top("fill")
    I.setitem(a, (Ellipsis,), b["v"], None, "fill")
    return a


@reg("zero_", "x|self")
def _zero(I, be, b):
    I.setitem(b["x"], (Ellipsis,), 0, None, "zero_")
    return b["x"]


@reg("copy_", "x|self, src|other, non_blocking=None")
def _copy_(I, be, b):
    I.setitem(b["x"], (Ellipsis,), b["src"], None, "copy_")
    return b["x"]


@reg("copyto", "dst, src, where=True")
def _copyto(I, be, b):
    I.setitem(b["dst"], (Ellipsis,) if b["where"] is True else b["where"], b["src"], None, "copyto")
    return None


@reg("index_put_ scatter_ index_fill_ index_add_ scatter_add_ put_ masked_scatter_ random_ normal_ uniform_ sort_ partition", "x|self, *a")
def _inpl(I, be, b):
    b["_kw"].clear()
    if isinstance(b["x"], ArrV):
        I.setitem(b["x"], (Ellipsis,), Top("in-place"), None, b.get("_fname", "in-place"))
    return b["x"]


@reg("place putmask", "x|arr|a, mask, vals|values")
def _place(I, be, b):
    if isinstance(b["x"], ArrV):
        I.setitem(b["x"], b["mask"], b["vals"], None, "putmask")
    return None


@reg("size", "x|self|input|a, dim|axis=None")
def _size(I, be, b):
    a = b["x"]
    if isinstance(a, MaskSel):
        return num(masksel_count(a), "int") if be == "np" else (num(masksel_count(a), "int"),)
    if not isinstance(a, ArrV):
        return I.top("size")
    if b["dim"] is not None:
        k = I.norm_axis(b["dim"], a.ndim)
        return num(ax_size(a.axes[k]), "int")
    if be == "np":
        return numel(a)
    return tuple(num(s, "int") for s in a.shape())


def numel(a):
    r = ONE
    for s in a.shape():
        r = r * s
    return num(r, "int")


@reg("numel nelement", "x|self|input")
def _numel(I, be, b):
    a = b["x"]
    if isinstance(a, MaskSel):
        return num(masksel_count(a), "int")
    return numel(a) if isinstance(a, ArrV) else I.top("numel")


@reg("dim ndimension ndim", "x|self|a")
def _dim(I, be, b):
    return b["x"].ndim if isinstance(b["x"], ArrV) else I.top("dim")


@reg("shape", "x|a")
def _shape(I, be, b):
    a = conv(I, b["x"], be)
    return tuple(num(s, "int") for s in a.shape()) if isinstance(a, ArrV) else I.top("shape")


@reg("stride", "x|self, dim=None")
def _stride(I, be, b):
    a = b["x"]
    if not isinstance(a, ArrV):
        return I.top("stride")
    t = tuple(Stride(a, k) for k in range(a.ndim))
    if b["dim"] is not None:
        return t[I.norm_axis(b["dim"], a.ndim)]
    return t


@reg("storage_offset", "x|self")
def _soff(I, be, b):
    return ExtM(b["x"], "storage_offset")


@reg("is_contiguous", "x|self, *a")
def _isc(I, be, b):
    if isinstance(b["x"], ArrV) and I.lib.input_names(I, b["x"]):
        return Num(I.lib.facet(I, b["x"], "contiguous"), "bool")
    return Num(unk("contiguity"), "bool")


@reg("is_complex iscomplexobj", "x|self|input")
def _iscx(I, be, b):
    return b["x"].dtype in R_OF if isinstance(b["x"], ArrV) else I.top("is_complex")


@reg("isrealobj", "x")
def _isre(I, be, b):
    return b["x"].dtype not in R_OF if isinstance(b["x"], ArrV) else I.top("isrealobj")


@reg("is_floating_point", "x|self|input")
def _isfp(I, be, b):
    return CAT[b["x"].dtype] == 2 if isinstance(b["x"], ArrV) else I.top("is_floating_point")


@reg("is_tensor", "x|obj")
def _ist(I, be, b):
    x = b["x"]
    return isinstance(x, ArrV) and x.be == "pt"


@reg("get_device", "x|self")
def _gd(I, be, b):
    return I.top("get_device")


@reg("numpy.ndim ndim_", "x")
def _nd(I, be, b):
    return b["x"].ndim


@reg("nonzero argwhere flatnonzero", "x|self|input|a, as_tuple=False")
def _nonzero(I, be, b):
    return nonzero_(I, b["x"], b["as_tuple"])


def nonzero_(I, a, as_tuple=False):
    if not isinstance(a, ArrV):
        return I.top("nonzero")
    h = getattr(I.env, "nonzero", None)
    if h is not None:
        return h(I, a, as_tuple)
    return I.top("nonzero")


@reg("view_as_complex complex", "x|input|real, imag=None")
def _vac(I, be, b):
    a = b["x"]
    j = atom1(raw_atom("imag_unit"))
    if b["imag"] is not None:
        return I.ew(lambda x, y: x + pmul(j, y), [a, b["imag"]], dtype=C_OF.get(a.dtype, "c128"), what="complex") if isinstance(a, ArrV) else I.top("complex")
    if not isinstance(a, ArrV):
        return I.top("view_as_complex")
    re, im = I.getitem(a, (Ellipsis, 0)), I.getitem(a, (Ellipsis, 1))
    return I.ew(lambda x, y: x + pmul(j, y), [re, im], dtype=C_OF.get(a.dtype, "c64"), what="complex")


@reg("view_as_real", "x|input")
def _var_(I, be, b):
    a = b["x"]
    if not isinstance(a, ArrV):
        return I.top("view_as_real")
    return stack(I, "pt", (real_part(I, a), imag_part(I, a)), -1)


@reg("apply_along_axis vectorize frompyfunc vmap func.vmap apply_over_axes", "*args")
def _vect(I, be, b):
    b["_kw"].clear()
    return I.top("vectorised python function")


@reg("atleast_1d", "x")
def _al1(I, be, b):
    a = coerce(I, b["x"], be)
    if a is None:
        return I.top("atleast_1d")
    return a if a.ndim else a.copy(axes=((),), scalar=False)


@reg("atleast_2d", "x")
def _al2(I, be, b):
    a = coerce(I, b["x"], be)
    if a is None:
        return I.top("atleast_2d")
    return a.copy(axes=((),) * (2 - a.ndim) + a.axes, scalar=False) if a.ndim < 2 else a


@reg("isscalar", "x")
def _iss(I, be, b):
    return is_number(b["x"]) or (isinstance(b["x"], ArrV) and b["x"].scalar)


@reg("isin in1d", "*a")
def _isin(I, be, b):
    b["_kw"].clear()
    return I.top("isin")


@reg("result_type promote_types", "*xs")
def _rt(I, be, b):
    ds = []
    for x in b["xs"]:
        if isinstance(x, ArrV):
            ds.append(x.dtype)
        else:
            d = I.lib.as_dtype(I, x)
            if d is None:
                if is_number(x):
                    continue
                return I.top("result_type")
            ds.append(d)
    if not ds:
        return I.top("result_type")
    r = ds[0]
    for d in ds[1:]:
        r = (np_promote2 if be == "np" else pt_promote2)(r, d)
    return DT(r)


@reg("convolve correlate signal.correlate signal.fftconvolve signal.convolve nn.functional.conv1d conv1d", "*a")
def _conv(I, be, b):
    b["_kw"].clear()
    return I.top("convolution")
