"""Array model: views on storages, indexing, broadcasting, in-place writes."""
from fractions import Fraction
from .term import *          # noqa
from . import term as tm
from .values import *        # noqa

# ------------------------------------------------------------------ dtypes
CAT = {"bool": 0, "u8": 1, "i8": 1, "i16": 1, "i32": 1, "i64": 1, "f16": 2, "f32": 2, "f64": 2, "c64": 3, "c128": 3}
WIDTH = {"bool": 1, "u8": 8, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "f16": 16, "f32": 32, "f64": 64, "c64": 64, "c128": 128}
C_OF = {"f32": "c64", "f64": "c128", "f16": "c64"}
R_OF = {"c64": "f32", "c128": "f64"}
NAMES = {
    "float32": "f32", "float": "f64", "float64": "f64", "double": "f64", "single": "f32", "half": "f16", "float16": "f16",
    "int": "i64", "int64": "i64", "long": "i64", "int32": "i32", "int16": "i16", "short": "i16", "int8": "i8", "uint8": "u8", "intp": "i64",
    "int_": "i64", "float_": "f64", "bool": "bool", "bool_": "bool", "complex64": "c64", "complex128": "c128", "cfloat": "c64",
    "cdouble": "c128", "complex": "c128", "complex_": "c128",
}


def np_promote2(a, b):
    if a == b:
        return a
    ca, cb = CAT[a], CAT[b]
    if ca > cb:
        a, b, ca, cb = b, a, cb, ca
    # a has the lower or equal category
    if ca == cb:
        if {a, b} == {"u8", "i8"}:
            return "i16"
        return a if WIDTH[a] >= WIDTH[b] else b
    if ca == 0:
        return b
    if ca == 1:
        w = WIDTH[a]
        need = {8: "f16", 16: "f32"}.get(w, "f64")
        if cb == 2:
            return need if WIDTH[need] > WIDTH[b] else b
        r = R_OF[b]
        r2 = need if WIDTH[need] > WIDTH[r] else r
        return C_OF[r2]
    # float, complex
    r = R_OF[b]
    r2 = a if WIDTH[a] > WIDTH[r] else r
    return C_OF[r2]


def pt_promote2(a, b):
    if a == b:
        return a
    ca, cb = CAT[a], CAT[b]
    if ca > cb:
        a, b, ca, cb = b, a, cb, ca
    if ca == cb:
        return a if WIDTH[a] >= WIDTH[b] else b
    if cb == 3 and ca == 2:
        return C_OF[a] if WIDTH[C_OF[a]] > WIDTH[b] else b
    return b


class ArrayMixin:
    # -------------------------------------------------------------- creation
    def new_storage(self, vars, body, origin=None):
        sid = self.new_id()
        self.st.heap[sid] = Storage(vars, body, origin)
        return sid

    def fresh(self, axes, body, dtype, dev, grad, taint, be, scalar=False, origin=None):
        vs = [v for ax in axes for v in ax]
        sid = self.new_storage(vs, body, origin)
        return ArrV(sid, axes, [atom1(v) for v in vs], dtype, dev, grad, taint, be, scalar)

    def body(self, a):
        s = self.st.heap[a.sid]
        if s.vars and len(s.vars) == len(a.idx):
            ident = True
            for v, i in zip(s.vars, a.idx):
                if as_atom(i) is not v:
                    ident = False
                    break
            if ident:
                return s.body
        return subst(s.body, dict(zip(s.vars, a.idx)))

    def unk_arr(self, shape, like, why, dtype=None):
        if shape is None:
            return Top(why)
        axes = [self.mk_axis(s) for s in shape]
        dt = dtype or like.dtype
        return self.fresh(axes, unk(why, dt in ("c64", "c128")), dt, like.dev, like.grad, like.taint, like.be)

    def mk_axis(self, size):
        size = P(size) if not isinstance(size, Poly) else size
        if as_int(size) == 1:
            return ()
        return (ivar(size),)

    def fresh_like(self, a, body, axes=None, **kw):
        return self.fresh(a.axes if axes is None else axes, body, kw.get("dtype", a.dtype), kw.get("dev", a.dev),
                          kw.get("grad", a.grad), kw.get("taint", a.taint), a.be)

    def refresh(self, a):
        """(axes, body) of a with fresh axis variables"""
        sub = {}
        axes = []
        for ax in a.axes:
            n = []
            for v in ax:
                w = ivar(v.args[0])
                sub[v] = atom1(w)
                n.append(w)
            axes.append(tuple(n))
        return axes, subst(self.body(a), sub)

    # -------------------------------------------------------------- aligning
    def align(self, arrs, what="elementwise"):
        """broadcast: (axes, [body...])"""
        nd = max(a.ndim for a in arrs)
        out_axes = []
        subs = [dict() for _ in arrs]
        for k in range(nd, 0, -1):
            cand = []
            for j, a in enumerate(arrs):
                if a.ndim >= k:
                    ax = a.axes[-k]
                    if ax:
                        cand.append((j, ax))
            if not cand:
                out_axes.append(())
                continue
            size = ax_size(cand[0][1])
            structs = [tuple(v.args[0].id for v in ax) for j, ax in cand]
            best = max(cand, key=lambda c: len(c[1]))[1]
            bstruct = tuple(v.args[0].id for v in best)
            new = tuple(ivar(v.args[0]) for v in best)
            ok = True
            for (j, ax), s in zip(cand, structs):
                sz = ax_size(ax)
                if sz is not ax_size(best):
                    d = sz - ax_size(best)
                    if nonneg(d - 1) or nonneg(-d - 1):
                        self.shape_error("%s of incompatible sizes %s and %s" % (what, sz, ax_size(best)))
                if s == bstruct:
                    for v, w in zip(ax, new):
                        subs[j][v] = atom1(w)
                elif len(ax) == 1:
                    subs[j][ax[0]] = flat_index(new)
                else:
                    ok = False
            if not ok:
                # different factorizations: flatten
                w = ivar(size)
                new = (w,)
                for j, ax in cand:
                    subs[j].update(unflatten(ax, atom1(w)))
            out_axes.append(new)
        bodies = []
        for j, a in enumerate(arrs):
            bodies.append(subst(self.body(a), subs[j]))
        return out_axes, bodies

    # -------------------------------------------------------------- attributes join
    def join_dev(self, arrs, what=""):
        devs = {}
        for a in arrs:
            if a.be == "pt":
                devs.setdefault(a.dev, []).append(a)
        if len(devs) <= 1:
            return next(iter(devs)) if devs else "np"
        big = {d for d, l in devs.items() if any(x.ndim > 0 for x in l)}
        if len(big) > 1:
            self.event("device", "%s combines tensors on different devices (%s)" % (what or "operation", ", ".join(sorted(big))))
            return "dev"
        if big:
            return big.pop()
        return "dev" if "dev" in devs else next(iter(devs))

    def join(self, arrs, what=""):
        dev = self.join_dev(arrs, what)
        be = "pt" if any(a.be == "pt" for a in arrs) else "np"
        if be == "pt" and any(a.be == "np" for a in arrs):
            self.event("mixbackend", "%s mixes numpy arrays and torch tensors" % what)
        grad = any(a.grad for a in arrs) and not self.st.nograd
        taint = frozenset().union(*[a.taint for a in arrs])
        if self.st.nograd and be == "pt":
            for a in arrs:
                if a.grad:
                    taint = taint | frozenset([("cut", self.locstr() + " computed under no_grad")])
                    break
        return dev, be, grad, taint

    def promote(self, vals, be):
        """result dtype of arrays / python scalars (already ArrV or python numbers)"""
        arrs = [v for v in vals if isinstance(v, ArrV)]
        nums = [v for v in vals if not isinstance(v, ArrV)]
        if be == "pt":
            dim = [a.dtype for a in arrs if a.ndim > 0]
            zero = [a.dtype for a in arrs if a.ndim == 0]
            r = None
            for d in dim:
                r = d if r is None else pt_promote2(r, d)
            z = None
            for d in zero:
                z = d if z is None else pt_promote2(z, d)
            if r is None:
                r = z
            elif z is not None and CAT[z] > CAT[r]:
                r = z if CAT[z] != 3 else pt_promote2(r, z)
                if CAT[z] == 2:
                    r = z
            for n in nums:
                k = kind_of(n)
                if k == "float" and CAT[r] < 2:
                    r = self.env.default_dtype
                elif k == "int" and CAT[r] < 1:
                    r = "i64"
                elif k == "complex" and CAT[r] < 3:
                    r = C_OF.get(r, C_OF[self.env.default_dtype])
            return r
        dim = [a.dtype for a in arrs if a.ndim > 0]
        zero = [a.dtype for a in arrs if a.ndim == 0]
        r = None
        for d in dim:
            r = d if r is None else np_promote2(r, d)
        if r is None:
            for d in zero:
                r = d if r is None else np_promote2(r, d)
        else:
            for d in zero:
                if CAT[d] > CAT[r] or (CAT[d] == 2 and CAT[r] < 2):
                    r = np_promote2(r, d)
        for n in nums:
            k = kind_of(n)
            if k == "float" and CAT[r] < 2:
                r = "f64"
            elif k == "int" and CAT[r] < 1:
                r = "i64"
            elif k == "complex" and CAT[r] < 3:
                r = C_OF.get(r, "c128")
        return r

    # -------------------------------------------------------------- elementwise
    def as_arr(self, v, like=None, be=None):
        """coerce python number to a 0-d pseudo array (weak)"""
        if isinstance(v, ArrV):
            return v
        p = to_poly(v)
        if p is None:
            return None
        a = ArrV(None, (), (), {"bool": "bool", "int": "i64", "float": "f64"}.get(kind_of(v), "f64"), "any", False,
                 frozenset(), be or (like.be if like else "np"))
        a.extra = {"weak": v, "p": p}
        return a

    def int_arith(self, dt, body, what):
        """arithmetic on samples in an integer type narrower than 64 bits wraps around"""
        if dt not in ("i8", "u8", "i16", "i32") or what not in ("add", "sub", "mul", "power", "neg", "abs", "einsum", "sum", "matmul"):
            return
        if any(a.op == "acc" and a.attrs[0] in ("ref", "est") for a in walk_atoms(body).values()):
            self.event("intarith", "%s of samples in %s arithmetic, which wraps around" % (what, dt))

    def ew(self, f, vals, dtype=None, what="operation", saves=()):
        """elementwise op on arrays / numbers; f(*polys) -> Poly"""
        vals = [self.eff(v) if isinstance(v, ArrV) else v for v in vals]
        arrs = [v for v in vals if isinstance(v, ArrV)]
        for v in vals:
            if isinstance(v, Top):
                return v
        if not arrs:
            ps = [to_poly(v) for v in vals]
            if any(p is None for p in ps):
                return Top("elementwise on %r" % (vals,))
            k = "float" if dtype is None else dtype
            return num(f(*ps), k)
        dev, be, grad, taint = self.join(arrs, what)
        axes, bodies = self.align(arrs, what)
        it = iter(bodies)
        ps = []
        for v in vals:
            if isinstance(v, ArrV):
                ps.append(next(it))
            else:
                p = to_poly(v)
                if p is None:
                    return Top("%s with operand %s" % (what, type(v).__name__))
                ps.append(p)
        try:
            body = f(*ps)
        except Blowup:
            body = unk("expression too large")
        dt = dtype if dtype is not None else self.promote(vals, be)
        if CAT[dt] < 2:
            if grad or any(t[0] == "cut" for t in taint):
                grad = False
                taint = frozenset(t for t in taint if t[0] != "cut")
        self.int_arith(dt, body, what)
        if len(arrs) > 1 and CAT[dt] in (2, 3) and CAT[min((a.dtype for a in arrs), key=lambda d: WIDTH[d])] >= 0:
            taint = taint | self.low_operands(arrs, bodies, dt, what)
        r = self.fresh(axes, body, dt, dev, grad, taint, be)
        r.scalar = be == "np" and r.ndim == 0
        if grad and saves:
            for k in saves:
                if k == "out":
                    self.mark_saved(r, what)
                else:
                    v = vals[k]
                    if isinstance(v, ArrV):
                        # operand k is needed to differentiate the others
                        others = [w for q, w in enumerate(vals) if q != k and isinstance(w, ArrV)]
                        if len(vals) == 1 or any(o.grad for o in others) or what in self.SAVES_SELF:
                            self.mark_saved(v, what)
        return r

    def low_operands(self, arrs, bodies, dt, what):
        """values computed inexactly in a precision below that of the signals that enter a result of theirs"""
        w = getattr(self.env, "prec", None)
        if w is None:
            return frozenset()
        r = set()
        for a, p in zip(arrs, bodies):
            if CAT[a.dtype] not in (2, 3):
                continue
            have = WIDTH[a.dtype] // (2 if CAT[a.dtype] == 3 else 1)
            if have < w and not exact_low(p):
                r.add(("lowp", "%s: %s operand of %s computed in %s" % (self.locstr(), a.dtype, what, a.dtype)))
        return frozenset(r)

    SAVES_SELF = {"power", "log", "clamp", "sqrt", "abs", "exp", "div"}

    def mark_saved(self, a, what):
        s = self.st.heap.get(a.sid)
        if s is not None:
            self.st.heap[a.sid] = s.repl(saved=s.saved + ((what, self.locstr(), s.writes),))

    # -------------------------------------------------------------- indexing
    def index_map(self, a, items, for_write=False):
        """resolve an index expression.
        returns (axes, sub, kind, extra) with sub: substitution for a's axis vars;
        kind in view / copy / mask / top"""
        if not isinstance(items, tuple):
            items = (items,)
        items = list(items)
        # expand lists
        for i, it in enumerate(items):
            if isinstance(it, ListV):
                arr = self.list_to_index(it)
                if arr is None:
                    return None
                items[i] = arr
            elif isinstance(it, RangeV):
                items[i] = self.range_to_arr(it)
            elif isinstance(it, ArrV) and it.dtype != "bool" and it.ndim == 0:
                items[i] = num(self.body(it), "int")
            elif isinstance(it, bool):
                return None
            elif isinstance(it, (Top, PhiV)):
                return None
        nidx = 0
        for it in items:
            if it is None or it is Ellipsis:
                continue
            if isinstance(it, ArrV) and it.dtype == "bool":
                nidx += it.ndim
            else:
                nidx += 1
        nell = sum(1 for it in items if it is Ellipsis)
        if nell > 1:
            return None
        if nidx > a.ndim:
            self.shape_error("too many indices (%d for a %d-d array)" % (nidx, a.ndim))
            return None
        fill = [SliceV(None, None, None)] * (a.ndim - nidx)
        if nell:
            k = next(i for i, it in enumerate(items) if it is Ellipsis)
            items = items[:k] + fill + items[k + 1:]
        else:
            items = items + fill
        # masks
        if any(isinstance(it, ArrV) and it.dtype == "bool" for it in items):
            return self.mask_index(a, items)
        adv = [i for i, it in enumerate(items) if isinstance(it, ArrV)]
        axes = []
        sub = {}
        kind = "view"
        advaxes, advbodies = None, None
        if adv:
            kind = "copy"
            arrs = [items[i] for i in adv]
            advaxes, advbodies = self.align(arrs, "indexing")
            ab = dict(zip(adv, advbodies))
            # integer scalars take part in the advanced block
            blk = [i for i, it in enumerate(items) if isinstance(it, ArrV) or (it is not None and not isinstance(it, SliceV))]
            contiguous = all(blk[i] + 1 == blk[i + 1] for i in range(len(blk) - 1))
            if not contiguous:
                axes.extend(advaxes)
                placed = True
            else:
                placed = False
        k = 0
        for i, it in enumerate(items):
            if it is None:
                axes.append(())
                continue
            ax = a.axes[k]
            k += 1
            n = ax_size(ax)
            if isinstance(it, SliceV):
                r = self.slice_axis(ax, n, it)
                if r is None:
                    return None
                nax, s = r
                axes.append(nax)
                sub.update(s)
            elif isinstance(it, ArrV):
                p = self.norm_index(ab[i], n)
                sub.update(unflatten(ax, p))
                if not placed:
                    axes.extend(advaxes)
                    placed = True
            else:
                p = to_poly(it)
                if p is None:
                    return None
                p = self.norm_index(p, n)
                if adv and not placed and blk[0] == i:
                    axes.extend(advaxes)
                    placed = True
                sub.update(unflatten(ax, p))
        return axes, sub, kind, None

    def norm_index(self, p, n):
        if nonneg(-p - 1):
            if nonneg(-p - n - 1):
                self.crash("IndexError", "index %s out of bounds for size %s" % (p, n))
            return p + n
        if nonneg(p - n):
            self.crash("IndexError", "index %s out of bounds for size %s" % (p, n))
        return p

    def slice_axis(self, ax, n, sl):
        """-> (new axis, substitution)"""
        step_ = 1 if sl.step is None else as_int(to_poly(sl.step)) if to_poly(sl.step) is not None else None
        if step_ is None or step_ == 0:
            return None

        def val(x):
            if x is None:
                return None
            if isinstance(x, ArrV) and x.ndim == 0:
                return self.body(x)
            return to_poly(x)
        lo, hi = val(sl.lo), val(sl.hi)
        if (sl.lo is not None and lo is None) or (sl.hi is not None and hi is None):
            return None
        if (lo is not None and lo.unk) or (hi is not None and hi.unk):
            return None

        def wrap(x):
            if nonneg(x):
                return x
            if nonneg(-x - 1):
                return x + n
            return x
        if step_ > 0:
            lo = ZERO if lo is None else wrap(lo)
            hi = n if hi is None else wrap(hi)
            if not nonneg(lo):
                lo = mk_max([lo, ZERO])
            if not nonneg(n - hi):
                hi = mk_min([hi, n])
            if lo is ZERO and hi is n and step_ == 1:
                return ax, {}
            m = hi - lo
            if step_ != 1:
                m = mk_fdiv(m + (step_ - 1), step_)
            if not nonneg(m):
                m = mk_max([m, ZERO])
            if as_int(m) == 0:
                z = ivar(ZERO)
                return (z,), unflatten(ax, lo)
            nax = self.mk_axis(m)
            g = flat_index(nax)
            return nax, unflatten(ax, lo + g * step_)
        lo = n - 1 if lo is None else wrap(lo)
        if hi is None:
            hi = const(-1)
        else:
            hi = wrap(hi)
            if not nonneg(hi) and not nonneg(hi + 1):
                hi = mk_max([hi, const(-1)])
        if not nonneg(n - 1 - lo):
            lo = mk_min([lo, n - 1])
        m = lo - hi
        if step_ != -1:
            m = mk_fdiv(m + (-step_ - 1), -step_)
        if not nonneg(m):
            m = mk_max([m, ZERO])
        nax = self.mk_axis(m)
        g = flat_index(nax)
        return nax, unflatten(ax, lo + g * step_)

    def view(self, a, axes, sub, **kw):
        return a.copy(axes=tuple(tuple(x) for x in axes), idx=tuple(subst(i, sub) for i in a.idx), scalar=False, **kw)

    def copy_of(self, a, axes=None, body=None, **kw):
        if axes is None:
            axes = a.axes
        if body is None:
            body = self.body(a)
        # rename the axis variables so that storages do not share names
        sub = {}
        nax = []
        for ax in axes:
            n = []
            for v in ax:
                w = ivar(v.args[0])
                sub[v] = atom1(w)
                n.append(w)
            nax.append(tuple(n))
        return self.fresh(nax, subst(body, sub), kw.get("dtype", a.dtype), kw.get("dev", a.dev),
                          kw.get("grad", a.grad and not self.st.nograd), kw.get("taint", a.taint), a.be)

    def getitem(self, a, items):
        r = self.index_map(a, items)
        if r is None:
            return Top("index")
        axes, sub, kind, extra = r
        if kind == "view":
            v = self.view(a, axes, sub)
            if a.be == "np" and not axes and a.ndim:
                # full integer indexing gives a scalar (copy)
                w = self.copy_of(a, axes=axes, body=self.body(v))
                w.scalar = True
                return w
            return v
        if kind == "copy":
            v = self.view(a, axes, sub)
            return self.copy_of(v)
        if kind == "mask":
            mvars, mask, body, rest = extra
            if rest is None:
                return MaskSel(mvars, body, mask, a.dtype, a.dev, a.be, a.grad, a.taint)
            return MaskSel(mvars, body, mask, a.dtype, a.dev, a.be, a.grad, a.taint) if not rest else self.masked_axis(a, self._mask_items)
        return Top("index")

    def masked_axis(self, a, items):
        """x[:, mask]: the axis runs over the positions the mask selects"""
        from .libarr import mk_count
        sub, axes, k = {}, [], 0
        for it in items:
            src = a.axes[k]
            k += 1
            if isinstance(it, SliceV):
                axes.append(src)
                continue
            if not isinstance(it, ArrV) or it.ndim != 1:
                return self.top("masked axis")
            axs, mb = self.refresh(it)
            vs = axs[0]
            if len(vs) != 1 or mb.unk:
                return self.top("masked axis")
            nax = self.mk_axis(mk_count(vs, mb))
            pos = tm.mk_nz(0, vs, mb, flat_index(nax))
            sub.update({src[0]: pos} if len(src) == 1 else unflatten(src, pos))
            axes.append(nax)
        axes += list(a.axes[k:])
        v = a.copy(axes=tuple(tuple(x) for x in axes), idx=tuple(subst(i, sub) for i in a.idx), scalar=False)
        return self.copy_of(v)

    def mask_index(self, a, items):
        """boolean mask covering consecutive axes; other items must be full slices"""
        self._mask_items = list(items)
        sub = {}
        k = 0
        mvars = []
        mask = ONE
        rest = []
        axes = []
        nm = 0
        for it in items:
            if isinstance(it, ArrV) and it.dtype == "bool":
                nm += 1
                axs, mb = self.refresh(it)
                for ax in axs:
                    src = a.axes[k]
                    k += 1
                    if len(src) == len(ax):
                        for v, w in zip(src, ax):
                            sub[v] = atom1(w)
                    else:
                        sub.update(unflatten(src, flat_index(ax)))
                    mvars.extend(ax)
                mask = pmul(mask, mb)
            elif isinstance(it, SliceV) and it.lo is None and it.hi is None and it.step is None:
                rest.append(k)
                axes.append(a.axes[k])
                k += 1
            elif it is None:
                return None
            else:
                p = to_poly(it) if not isinstance(it, (SliceV, ArrV)) else None
                if p is None:
                    return None
                sub.update(unflatten(a.axes[k], self.norm_index(p, ax_size(a.axes[k]))))
                k += 1
        if nm != 1:
            return None
        body = subst(self.body(a), sub)
        return axes, sub, "mask", (mvars, mask, body, rest or None)

    # -------------------------------------------------------------- writes
    def note_write(self, a, how):
        s = self.st.heap.get(a.sid)
        if s is None:
            return
        from .interp import pc_poly
        pc = pc_poly(self.st.pc)
        for o in sorted(s.origin):
            try:
                live = pmul(pc, P(s.origin[o])).terms
            except Blowup:
                live = True
            if live:
                self.event("inplace", "%s modifies %s in place" % (how, o), origin=o)
        if a.be == "pt" and (a.grad or s.req):
            for what, loc, w in s.saved:
                self.event("saved", "in-place %s overwrites a value needed by the backward pass of %s at %s" % (how, what, loc))
                break
        self.st.heap[a.sid] = s.repl(writes=s.writes + 1)

    def write_map(self, a, axes, sub, value_body, value_axes_sub, how="assignment", mask=None, aug=None):
        """write value (a function of the written axes) into the storage of a.
        axes: axes of the target view; value_body: Poly in these axes' vars.
        aug: function(old, val) for read-modify-write"""
        s = self.st.heap[a.sid]
        idx = [subst(i, sub) for i in a.idx]
        tvars = [v for ax in axes for v in ax]
        bind = {}
        cond = ONE if mask is None else mask
        solved = {}
        okay = True
        for bv, e in zip(s.vars, idx):
            b = atom1(bv)
            free = [v for v in tvars if v in e.fv]
            if mask is not None:
                free = [v for v in e.fv if v in mask.fv or v in tvars]
            if not free:
                cond = pmul(cond, delta(b - e)) if not e.unk else pmul(cond, unk("index"))
                continue
            if len(free) > 1:
                # composite index  l*R + r  -> div/mod
                r = self.solve_composite(e, free, b)
                if r is None or any(v in solved for v in free):
                    okay = False
                    break
                solved.update(r)
                continue
            v = free[0]
            cr = tm._coef_of(e, v)
            if cr is None:
                okay = False
                break
            co, rest = cr
            c = as_int(co)
            if v in solved:
                cond = pmul(cond, delta(subst(e, {v: solved[v]}) - b))
                continue
            if c in (1, -1):
                sol = (b - rest) * c
                solved[v] = sol
                n = v.args[0]
                if sol is not b or n is not bv.args[0]:
                    cond = pmul(cond, pmul(step(sol), ONE - step(sol - n)))
            elif c is not None and c > 1:
                q = mk_fdiv(b - rest, c)
                solved[v] = q
                cond = pmul(cond, pmul(eq0(mk_mod(b - rest, c)), pmul(step(q), ONE - step(q - v.args[0]))))
            else:
                okay = False
                break
        if okay:
            need = value_body.fv & frozenset(tvars)
            if any(v not in solved for v in need):
                okay = False
        self.note_write(a, how)
        s = self.st.heap[a.sid]
        if not okay:
            self.st.heap[a.sid] = s.repl(body=unk("unresolved write"))
            return
        cond = subst(cond, solved)
        val = subst(value_body, solved)
        if aug is not None:
            val = aug(s.body, val)
        try:
            if cond is ONE:
                nb = val
            else:
                nb = s.body + pmul(cond, val - s.body)
        except Blowup:
            nb = unk("expression too large")
        self.st.heap[a.sid] = s.repl(body=nb)

    def solve_composite(self, e, free, b):
        """e = sum stride_i v_i (+const): row-major digits of b"""
        items = []
        rest = e
        for v in free:
            cr = tm._coef_of(rest, v)
            if cr is None:
                return None
            co, rest = cr
            items.append((v, co))
        # order by stride: find v with coef 1, then next = size...
        out = {}
        stride = ONE
        todo = list(items)
        q = b - rest
        order = []
        while todo:
            hit = None
            for v, co in todo:
                if co is stride:
                    hit = v
            if hit is None:
                return None
            order.append((hit, stride))
            todo = [x for x in todo if x[0] is not hit]
            stride = stride * hit.args[0]
        for k, (v, st) in enumerate(order):
            x = mk_fdiv(q, st)
            if k < len(order) - 1:
                x = mk_mod(x, v.args[0])
            out[v] = x
        return out

    def setitem(self, a, items, value, aug=None, how="assignment"):
        if isinstance(value, Top) or isinstance(value, PhiV):
            value = None
        r = self.index_map(a, items, for_write=True)
        if r is None or value is None:
            self.note_write(a, how)
            s = self.st.heap[a.sid]
            self.st.heap[a.sid] = s.repl(body=unk("unresolved write", a.dtype in ("c64", "c128")))
            return
        axes, sub, kind, extra = r
        if isinstance(value, MaskSel):
            self.note_write(a, how)
            s = self.st.heap[a.sid]
            if kind == "mask" and as_const(value.mask - value.mask) is not None and len(value.vars) == len(extra[0]):
                mvars, mask, body, rest = extra
                ren = dict(zip(value.vars, [atom1(v) for v in mvars]))
                if subst(value.mask, ren) is mask and not rest:
                    self.write_map(a, [tuple(mvars)], sub, subst(value.body, ren), None, how, mask=mask, aug=aug)
                    return
            self.st.heap[a.sid] = s.repl(body=unk("masked write"))
            return
        if not isinstance(value, ArrV):
            p = to_poly(value)
            if p is None:
                if isinstance(value, (ListV, tuple)):
                    arr = self.to_array(value, a)
                    if isinstance(arr, ArrV):
                        return self.setitem(a, items, arr, aug, how)
                self.note_write(a, how)
                s = self.st.heap[a.sid]
                self.st.heap[a.sid] = s.repl(body=unk("unresolved write"))
                return
            vb = p
            varr = None
        else:
            varr = value
            if a.be == "pt" and varr.be == "pt":
                if varr.dev != a.dev and varr.ndim > 0:
                    self.event("device", "%s of a tensor on %s into a tensor on %s" % (how, varr.dev, a.dev)) if aug is not None else None
            if CAT[varr.dtype] > CAT[a.dtype] and CAT[a.dtype] < 2 and CAT[varr.dtype] >= 2:
                self.event("trunc", "%s stores floating point values in an integer array" % how)
            if varr.dtype == "f64" and a.dtype == "f32" and not a.be == "x":
                pass
        if kind == "mask":
            mvars, mask, body, rest = extra
            if rest is not None:
                # mask on some axes; scalar or broadcast along the others
                vaxes = list(axes)
                if varr is None:
                    self.write_map(a, [tuple(mvars)] + [tuple(x) for x in vaxes], sub, vb, None, how, mask=mask, aug=aug)
                    return
                if varr.ndim == 0:
                    self.write_map(a, [tuple(mvars)] + [tuple(x) for x in vaxes], sub, self.body(varr), None, how, mask=mask, aug=aug)
                    return
                self.note_write(a, how)
                s = self.st.heap[a.sid]
                self.st.heap[a.sid] = s.repl(body=unk("masked write"))
                return
            if varr is not None:
                if varr.ndim == 0:
                    vb = self.body(varr)
                    self.join_dev([a, varr], how)
                else:
                    self.note_write(a, how)
                    s = self.st.heap[a.sid]
                    self.st.heap[a.sid] = s.repl(body=unk("masked write"))
                    return
            self.write_map(a, [tuple(mvars)], sub, vb, None, how, mask=mask, aug=aug)
            self.after_write(a, varr)
            return
        if varr is not None:
            # broadcast the value to the target axes
            if varr.ndim > len(axes):
                lead = varr.axes[:varr.ndim - len(axes)]
                if any(lead):
                    self.shape_error("cannot assign a %d-d value to a %d-d target" % (varr.ndim, len(axes)))
                varr2 = varr.copy(axes=varr.axes[varr.ndim - len(axes):])
            else:
                varr2 = varr
            vsub = {}
            bad = False
            for k in range(1, varr2.ndim + 1):
                vax, tax = varr2.axes[-k], axes[-k]
                if not vax:
                    continue
                ns, ts = ax_size(vax), ax_size(tax)
                if ns is not ts:
                    d = ns - ts
                    if nonneg(d - 1) or nonneg(-d - 1):
                        self.shape_error("cannot assign size %s to size %s" % (ns, ts))
                        bad = True
                if len(vax) == len(tax) and all(x.args[0] is y.args[0] for x, y in zip(vax, tax)):
                    for x, y in zip(vax, tax):
                        vsub[x] = atom1(y)
                else:
                    vsub.update(unflatten(vax, flat_index(tax)))
            vb = subst(self.body(varr2), vsub)
            if bad:
                vb = unk("shape error")
        self.write_map(a, axes, sub, vb, None, how, aug=aug)
        self.after_write(a, varr)

    def after_write(self, a, varr):
        if varr is None:
            return
        s = self.st.heap[a.sid]
        tn = varr.taint
        if tn or varr.grad:
            self.st.sattr[a.sid] = (self.st.sattr.get(a.sid, (False, frozenset()))[0] or varr.grad,
                                    self.st.sattr.get(a.sid, (False, frozenset()))[1] | tn)

    def eff(self, a):
        """effective grad / taint including writes to the storage"""
        x = self.st.sattr.get(a.sid)
        if x is None or a.sid is None:
            return a
        if (x[0] and not a.grad) or (x[1] - a.taint):
            return a.copy(grad=a.grad or (x[0] and CAT[a.dtype] >= 2), taint=a.taint | (x[1] if CAT[a.dtype] >= 2 else frozenset()))
        return a

    # -------------------------------------------------------------- shape ops
    def norm_axis(self, ax, nd):
        k = as_int(to_poly(ax)) if to_poly(ax) is not None else None
        if k is None:
            return None
        if k < -nd or k >= nd:
            self.crash("IndexError", "axis %d out of range for %d dimensions" % (k, nd))
            return None
        return k % nd

    def transpose(self, a, perm):
        return a.copy(axes=tuple(a.axes[p] for p in perm), scalar=False)

    def reshape(self, a, shape):
        """shape: list of Poly / int (-1 allowed)"""
        sizes = []
        infer = None
        for i, s in enumerate(shape):
            p = to_poly(s) if not isinstance(s, Poly) else s
            if p is None:
                return None
            if as_int(p) == -1:
                infer = i
                sizes.append(None)
            else:
                sizes.append(p)
        tot = ONE
        for ax in a.axes:
            tot = tot * ax_size(ax)
        if infer is not None:
            k = ONE
            for s in sizes:
                if s is not None:
                    k = k * s
            if as_const(k) == 0:
                return None
            q = tot / k
            if any(e < 0 for m, c in q.terms for x, e in m) or any(c.denominator != 1 for m, c in q.terms):
                q2 = mk_fdiv(tot, k)
                q = q2
            sizes[infer] = q
        else:
            k = ONE
            for s in sizes:
                k = k * s
            if k is not tot:
                d = k - tot
                if nonneg(d - 1) or nonneg(-d - 1):
                    self.shape_error("cannot reshape size %s into %s" % (tot, k))
                    return None
        # greedy matching of factors
        facs = [v for ax in a.axes for v in ax]
        out = []
        i = 0
        ok = True
        sub = {}
        for s in sizes:
            if as_int(s) == 1:
                out.append(())
                continue
            cur = []
            size = ONE
            guard = 0
            while size is not s:
                if i >= len(facs):
                    ok = False
                    break
                v = facs[i]
                n2 = size * v.args[0]
                if n2 is s or _divides(n2, s):
                    cur.append(v)
                    size = n2
                    i += 1
                    continue
                # try to split factor v:  need = s/size ; v size = need*rest
                need = s / size
                if _is_size(need) and _divides(need, v.args[0]):
                    rest = v.args[0] / need
                    v1, v2 = ivar(need), ivar(rest)
                    sub[v] = atom1(v1) * rest + atom1(v2)
                    facs[i:i + 1] = [v1, v2]
                    continue
                ok = False
                break
            if not ok:
                break
            out.append(tuple(cur))
        if ok and i == len(facs):
            # resolve nested splits
            if sub:
                for _ in range(len(sub)):
                    sub = {k: subst(p, {q: r for q, r in sub.items() if q is not k}) for k, p in sub.items()}
                v = self.view(a, out, sub)
            else:
                v = a.copy(axes=tuple(out), scalar=False)
            return v
        # generic: flatten everything
        new = [self.mk_axis(s) for s in sizes]
        allnew = tuple(v for ax in new for v in ax)
        flat = flat_index(allnew)
        sub = {}
        if facs:
            sub = unflatten(tuple([v for ax in a.axes for v in ax]), flat)
        return self.view(a, new, sub)


def _is_size(p):
    return all(e.denominator == 1 and e > 0 for m, c in p.terms for x, e in m) and all(c.denominator == 1 for m, c in p.terms)


def _divides(x, y):
    """size polynomial x divides y (x != y allowed) structurally"""
    if x is y:
        return True
    q = y / x
    return _is_size(q) and q.terms and as_const(q) != 0


def flat_index(ax):
    r = ZERO
    for v in ax:
        r = r * v.args[0] + atom1(v)
    return r


def unflatten(ax, p):
    """substitution for the factor variables of an axis given the flat position"""
    if not ax:
        return {}
    if len(ax) == 1:
        return {ax[0]: p}
    out = {}
    stride = ONE
    strides = []
    for v in reversed(ax):
        strides.append((v, stride))
        stride = stride * v.args[0]
    for k, (v, s) in enumerate(strides):
        x = mk_fdiv(p, s)
        if k < len(strides) - 1:
            x = mk_mod(x, v.args[0])
        out[v] = x
    return out


def exact_low(p):
    """exactly representable in any float format: 0/1 values, indices and dyadic constants"""
    c = as_const(p)
    if c is not None:
        try:
            d = Fraction(c).denominator
        except Exception:
            return False
        return d & (d - 1) == 0 and d <= 1024 and abs(c) < 2048
    if p.unk:
        return True
    return is_index_poly(p)
