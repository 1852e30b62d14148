"""C03: the iterative solver."""
from .base import *          # noqa
from . import base, cg, drive, loops
from . import term as tm
from .interp import Env
from .reg import check
from .flow import bad_status, definite, const_opts
from .metric import chunked

NAME = {"np": "numpy", "pt": "torch"}


def opaque(be, nb, add, dt="f64"):
    syms = fresh_ctx([("B%d" % i, 2) for i in range(nb)] + [("N", 2), ("M", 2), ("n_iter", 1)])
    env = Env(default_dtype="f64")
    I = drive.load(env, ["fast_bss_eval", "fast_bss_eval.%s.cgd" % NAME[be], "sa_specs.pcg_" + be])
    dev = None if be == "np" else "dev"
    B = [syms["B%d" % i] for i in range(nb)]
    N, M = syms["N"], syms["M"]

    def mk(n, sh):
        return drive.input_array(I, n, sh, dt, be, dev=dev)
    A = mk("A", B + [N, N])
    b = mk("b", B + [N] + ([] if add else [M]))
    P_ = mk("P", B + [N, N])
    x = mk("x", B + [N, ONE if add else M])
    return I, A, b, x, P_, Num(syms["n_iter"], "int")


def exits(t, I, n0):
    """the number of iterations is not decided by the data"""
    r = []
    for e in I.events[n0:]:
        if e["kind"] == "loopexit" and ".cgd." in e["func"]:
            c = e["cond"]
            data = c.unk or any(a.op in ("acc", "state", "unk") for a in walk_atoms(c).values())
            if not c.unk and data:
                r.append(ob(t, BAD, "the iteration is left early on a condition over the data: %s" % show(c, 2)[:120], e["loc"]))
            elif data:
                r.append(ob(t, UND, "early exit under an unknown condition"))
    return r


def recomputed(p, trip):
    """iterations (of the first 16) whose step reads the right-hand side, for the one loop over the n_iter iterations; or None"""
    ls = {}
    for a in walk_atoms(p).values():
        if a.op == "loop" and not (loops.open_loop(a)[1] - trip).terms:
            ls[a.id] = a
    ks = set()
    for a in ls.values():
        epoch, _, sts, _, _ = loops.open_loop(a)
        k = []
        for n in range(16):
            for x in sts:
                q = subst(x.step, {epoch: const(n)})
                if q.unk:
                    return None
                if any(z.op == "acc" and z.attrs[0] == "b" for z in walk_atoms(q).values()):
                    k.append(n)
                    break
        ks.add(tuple(k))
    return ks.pop() if len(ks) == 1 else None


def c03_solver(be, nb, add, given):
    I, A, b, x, M, n = opaque(be, nb, add)
    f = drive.find(I, "fast_bss_eval.%s.cgd" % NAME[be], "conjugate_gradient")
    t = "conjugate_gradient recursion %s, %d batch axes%s%s" % (
        be, nb, ", vector right-hand side" if add else "", "".join(", %s given" % g for g in given))
    if f is None:
        return [ob(t, UND, "function not found")]
    spec = drive.find(I, "sa_specs.pcg_" + be, "pcg")
    kw = {"n_iter": n}
    if "x" in given:
        kw["x"] = x
    if "precond" in given:
        kw["precond"] = M
    n0 = len(I.events)
    o = drive.call(I, f, [A, b], kw)
    r = exits(t + ": number of iterations", I, n0)
    o.s = None
    if not o.ok:
        if undecided(o) or I.unknown:
            return r + [ob(t, UND, status(o))]
        e = exc_of(o.raises[-1][1]) if o.raises else o.why
        if e == "TypeError":
            return r + [ob(t, UND, "signature")]
        return r + [ob(t, BAD, "always raises %s" % e, o.raises[-1][2] if o.raises else f.qual)]
    if not isinstance(o.value, ArrV):
        return r + [ob(t, UND, "result not recognised")]
    v = I.eff(o.value)
    b2 = b
    if add:
        b2 = I.getitem(b, (Ellipsis, None))
    x2 = x if "x" in given else None
    if x2 is None:
        x2 = I.binop("Mult", b2, 0)
    s = drive.call(I, spec, [A, b2, x2, n, M if "precond" in given else None], {})
    if not s.ok:
        return r + [ob(t, UND, "reference: %s" % s.why)]
    w = I.eff(s.value)
    if add:
        w = I.eff(I.getitem(w, (Ellipsis, 0)))
    if same_shape(v, w) == DIFF:
        return r + [ob(t, BAD, "shape %s instead of %s" % (shape_str(v), shape_str(w)), f.qual)]
    o.value, s.value = v, w
    al = aligned(o, v, s, w)
    if al is None:
        return r + [ob(t, UND, "shapes")]
    c = compare(al[1], al[2])
    r.append(res(t, c, f.qual))
    if c.k not in (EQ, DIFF):
        # equal in real arithmetic: the residual may be recomputed at other iterations
        k1, k2 = recomputed(al[1], n.p), recomputed(al[2], n.p)
        if k1 is not None and k2 and k1 != k2:
            r.append(ob(t + ": recomputed residual", BAD, "the residual is recomputed from the solution at iterations %s instead of %s" % (
                ", ".join(map(str, k1)) or "none", ", ".join(map(str, k2))), f.qual))
    if v.dtype != w.dtype:
        r.append(ob(t, BAD, "result is %s for a %s system" % (v.dtype, w.dtype), f.qual))
    if not r:
        r.append(ob(t, OK))
    return r


def c03_precond(be, kind, nb, par):
    """preconditioner @ v for opaque columns and vectors"""
    block = kind == "block_circulant"
    n_ = [("n", 2)] if par == "sym" else [("h", 1)]
    syms = fresh_ctx([("B%d" % i, 2) for i in range(nb)] + n_ + [("C", 2), ("M", 2)])
    n = syms["n"] if par == "sym" else syms["h"] * 2 + (0 if par == "even" else 1)
    env = Env(default_dtype="f64")
    I = drive.load(env, ["fast_bss_eval", "fast_bss_eval.%s.cgd" % NAME[be], "sa_specs.precond_" + be])
    B = [syms["B%d" % i] for i in range(nb)]
    dev = None if be == "np" else "dev"
    C, M = syms["C"], syms["M"]
    t = "%s preconditioner, %d batch axes, %s size" % (kind, nb, par)
    k = drive.find(I, "fast_bss_eval.%s.cgd" % NAME[be], "BlockCirculantPreconditionerOperator" if block else "CirculantPreconditionerOperator")
    f = drive.find(I, "sa_specs.precond_" + be, kind)
    if k is None:
        return [ob(t, UND, "class not found")]
    col = drive.input_array(I, "A", B + ([n * 2, C, C] if block else [n]), "f64", be, dev=dev)
    v = drive.input_array(I, "x", B + [pmul(n, C) if block else n, M], "f64", be, dev=dev)
    o = drive.call(I, k, [col], {})
    if not o.ok:
        return [ob(t, UND, "constructor: %s" % o.why)]
    try:
        y = I.binop("MatMult", o.value, v)
    except Exception as ex:
        return [ob(t, UND, type(ex).__name__)]
    s = drive.call(I, f, [col, v], {})
    if not s.ok or not isinstance(y, ArrV) or not isinstance(s.value, ArrV):
        return [ob(t, UND, "not recognised")]
    o.value, s.value = I.eff(y), I.eff(s.value)
    if same_shape(o.value, s.value) == DIFF:
        return [ob(t, BAD, "shape %s" % shape_str(o.value), k.qual)]
    al = aligned(o, o.value, s, s.value)
    if al is None:
        return [ob(t, UND, "shapes")]
    return [res(t, compare(al[1], al[2]), "fast_bss_eval.%s.cgd.%s" % (NAME[be], k.name))]


def c03_case(be, fn, kws):
    r = []
    for kw in kws:
        o = dict(kw.get("opts", {}))
        o.pop("use_cg_iter", None)
        a = run(sc(be, fn, norm=True, modular=True, **dict(kw, opts=dict(o, use_cg_iter="iter"))))
        d = run(sc(be, fn, norm=True, modular=True, **dict(kw, opts=o)))
        t = "iterative system = direct system: " + a.s.key()
        if d.why == "missing":
            r.append(ob(t, UND, "function not found"))
            continue
        ev = [e for e in a.events if e["kind"] == "cg"]
        n = sym("n_iter")
        for e in ev:
            if e["n_iter"] is None:
                r.append(ob(t, BAD, "the number of iterations is not passed to the solver", e["loc"]))
            elif isinstance(e["n_iter"], Poly) and not e["n_iter"].unk and (e["n_iter"] - n).terms:
                r.append(ob(t, BAD, "the solver is given %s iterations" % show(e["n_iter"], 3)[:80], e["loc"]))
            if e["precond"] is None:
                r.append(ob(t, BAD, "the solver is called without a preconditioner", e["loc"]))
        r += exits(t, a.I, 0)
        loops_ = a.ok and any(isinstance(v, ArrV) and any(
            q.op == "loop" for q in walk_atoms(a.I.refresh(v)[1]).values()) for v in outs(a))
        if loops_ or not a.ok and a.I.unknown:
            r.append(ob(t, UND, "solver not recognised"))
            continue
        x = same_outcome(t, a, d, raises=False)
        r += x
        if a.ok and d.ok and as_int(a.L) != 1 and not ev:
            r.append(ob(t + ": uses the iterative solver", UND, "no call of conjugate_gradient found"))
    return r


def part(I, a, nb, batch, col):
    """the array for one batch item (batch) / one column (col), its indices free; returns (array, free batch indices, free column)"""
    axes, body = I.refresh(I.eff(a))
    out, sub, fb, fc = [], {}, [], None
    for k, ax in enumerate(axes):
        if batch and k < nb:
            fb.append(atom1(ax[0]))
            continue
        if col and k == len(axes) - 1 and ax:
            fc = atom1(ax[0])
            out.append(())
            continue
        out.append(ax)
    st = I.st.heap[a.sid]
    r = I.fresh(out, body, a.dtype, a.dev, a.grad, a.taint, a.be, origin=st.origin)
    return r, fb, fc


def item_solver(be, nb, what, given):
    """conjugate_gradient for one batch item / one right-hand side alone"""
    I, A, b, x, M, n = opaque(be, nb, False)
    f = drive.find(I, "fast_bss_eval.%s.cgd" % NAME[be], "conjugate_gradient")
    t = "conjugate_gradient %s: one %s alone, %d batch axes%s" % (be, "batch item" if what == "batch" else "column", nb,
                                                                  "".join(", %s given" % g for g in given))
    if f is None:
        return [ob(t, UND, "function not found")]
    batch, col = what == "batch", what == "column"
    kw = {"n_iter": n}
    if "x" in given:
        kw["x"] = x
    if "precond" in given:
        kw["precond"] = M
    o = drive.call(I, f, [A, b], kw)
    if not o.ok or not isinstance(o.value, ArrV):
        return [ob(t, UND, status(o))]
    v = I.eff(o.value)
    A1, fa, _ = part(I, A, nb, batch, False)
    b1, fb, cb = part(I, b, nb, batch, col)
    sub = dict(zip([as_atom(q) for q in fa], fb))
    names = {"A": A1}
    if "x" in given:
        x1, fx, cx = part(I, x, nb, batch, col)
        sub.update(zip([as_atom(q) for q in fx], fb))
        if col:
            sub[as_atom(cx)] = cb
        kw["x"] = x1
        names["x"] = x1
    if "precond" in given:
        M1, fm, _ = part(I, M, nb, batch, False)
        sub.update(zip([as_atom(q) for q in fm], fb))
        kw["precond"] = M1
        names["P"] = M1
    for a in names.values():
        st = I.st.heap[a.sid]
        I.st.heap[a.sid] = st.repl(_b=subst(st.body, sub))
    s = drive.call(I, f, [A1, b1], kw)
    if not s.ok or not isinstance(s.value, ArrV):
        return [ob(t, BAD, "fails: %s" % status(s), s.raises[-1][2] if s.raises else f.qual)] if not undecided(s) and not I.unknown else [ob(t, UND, status(s))]
    return [item_compare(t, I, v, I.eff(s.value), nb, batch, col, fb, cb, f.qual)]


def item_compare(t, I, v, w, nb, batch, col, fb, cb, where):
    ax, p = I.refresh(v)
    bx, q = I.refresh(w)
    sub = {}
    if batch:
        for a, z in zip(ax[:nb], fb):
            if len(a) != 1:
                return ob(t, UND, "batch axis")
            sub[a[0]] = z
        ax = ax[nb:]
    if len(ax) != len(bx):
        return ob(t, BAD, "shape", where)
    for k, (a, b_) in enumerate(zip(ax, bx)):
        if col and k == len(ax) - 1:
            if len(a) != 1 or b_:
                return ob(t, UND, "column axis")
            sub[a[0]] = cb
        elif len(a) == len(b_):
            for y, z in zip(a, b_):
                sub[y] = atom1(z)
        else:
            return ob(t, UND, "axes")
    return res(t, compare(subst(p, sub), q), where)


def item_precond(be, kind, nb, what):
    block = kind == "block_circulant"
    syms = fresh_ctx([("B%d" % i, 2) for i in range(nb)] + [("n", 2), ("C", 2), ("M", 2)])
    n, C, M = syms["n"], syms["C"], syms["M"]
    I = drive.load(Env(default_dtype="f64"), ["fast_bss_eval", "fast_bss_eval.%s.cgd" % NAME[be]])
    B = [syms["B%d" % i] for i in range(nb)]
    dev = None if be == "np" else "dev"
    t = "%s preconditioner %s: one %s alone, %d batch axes" % (kind, be, "batch item" if what == "batch" else "column", nb)
    k = drive.find(I, "fast_bss_eval.%s.cgd" % NAME[be], "BlockCirculantPreconditionerOperator" if block else "CirculantPreconditionerOperator")
    if k is None:
        return [ob(t, UND, "class not found")]
    batch, col = what == "batch", what == "column"
    c0 = drive.input_array(I, "A", B + ([n * 2, C, C] if block else [n]), "f64", be, dev=dev)
    v0 = drive.input_array(I, "x", B + [pmul(n, C) if block else n, M], "f64", be, dev=dev)
    c1, fa, _ = part(I, c0, nb, batch, False)
    v1, fb, cb = part(I, v0, nb, batch, col)
    st = I.st.heap[c1.sid]
    I.st.heap[c1.sid] = st.repl(_b=subst(st.body, dict(zip([as_atom(q) for q in fa], fb))))
    ys = []
    for c, v in ((c0, v0), (c1, v1)):
        o = drive.call(I, k, [c], {})
        if not o.ok:
            return [ob(t, UND, "constructor: %s" % o.why)]
        y = I.binop("MatMult", o.value, v)
        if not isinstance(y, ArrV):
            return [ob(t, UND, "not recognised")]
        ys.append(I.eff(y))
    return [item_compare(t, I, ys[0], ys[1], nb, batch, col, fb, cb, "fast_bss_eval.%s.cgd.%s" % (NAME[be], k.name))]


def item_jobs(what, tier):
    j = []
    for be in ("np", "pt"):
        for nb in ((0, 1, 2) if what == "column" else (1, 2)):
            for g in ((), ("x",), ("precond",), ("x", "precond")):
                j.append(("item_solver", (be, nb, what, g)))
            for kind in ("circulant", "block_circulant"):
                j.append(("item_precond", (be, kind, nb, what)))
    return j


def c03_jobs(tier):
    j = []
    for be in ("np", "pt"):
        for nb in ((0, 1, 2)):
            for add in (False, True):
                for g in ((), ("x",), ("precond",), ("x", "precond")):
                    j.append(("c03_solver", (be, nb, add, g)))
        for kind in ("circulant", "block_circulant"):
            for nb in (0, 1, 2):
                for par in ("sym", "even", "odd"):
                    j.append(("c03_precond", (be, kind, nb, par)))
    cs = []
    for be in ("np", "pt"):
        for fn in CORE:
            for o in ({}, {"load_diag": "param"}, {"zero_mean": True}, {"clamp_db": "param"}):
                cs.append((be, fn, dict(opts=o)))
            for f in ("even", "odd", 1, 3):
                cs.append((be, fn, dict(filt=f)))
            cs.append((be, fn, dict(time="short")))
            cs.append((be, fn, dict(opts={"load_diag": "param"}, filt="odd")))
            for nb in (0, 2):
                cs.append((be, fn, dict(nb=nb)))
            cs.append((be, fn, dict(chan="11", nb=0)))
            for o in const_opts(fn):
                cs.append((be, fn, dict(opts=o)))
                cs.append((be, fn, dict(opts=dict(o, load_diag="param"))))
            for o in [{}] + const_opts(fn):
                if unequal(fn, o):
                    for ch in ("LT", "GT"):
                        cs.append((be, fn, dict(opts=o, chan=ch)))
                    for ch in ("R1", "E1"):
                        cs.append((be, fn, dict(opts=o, chan=ch, nb=0)))
    return j + chunked("c03_case", cs, 3)


check("C03", "the recursion of conjugate_gradient over opaque matrix, preconditioner, right-hand side and start, for a symbolic number of "
      "iterations, is the preconditioned conjugate gradient recursion of sa/sa_specs (equal loop-carried terms); no loop exit depends on data; "
      "at every call path the matrix read off the operator and the right-hand side give the terms of the direct solver", c03_jobs)
