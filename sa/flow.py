"""C03 - C09, C18, C19, C21, C23: rules over events, dtypes, devices, shapes, control flow."""
from .base import *          # noqa
from . import base, cg
from .reg import check


def key_of(s, extra=""):
    return s.key() + extra


def bad_status(title, o, allowed=()):
    """[obligation] when the call does not return, else None"""
    if o.ok:
        return None
    if o.why == "missing":
        return [ob(title, UND, "function not found")]
    if undecided(o) or o.I.unknown:
        return [ob(title, UND, status(o))]
    e = exc_of(o.raises[-1][1]) if o.raises else o.why
    if e in allowed:
        return [ob(title, OK)]
    return [ob(title, BAD, "always raises %s" % e, o.raises[-1][2] if o.raises else drive_entry(o))]


def definite(e):
    return not e["pc"].unk and bool(e["pc"].terms)


def event_obs(title, o, kinds, filt=None):
    r = []
    seen = set()
    for e in o.events:
        if e["kind"] not in kinds or (filt and not filt(e)):
            continue
        k = (e["kind"], e["msg"], e["loc"])
        if k in seen:
            continue
        seen.add(k)
        if definite(e):
            r.append(ob(title, BAD, "%s (in %s)" % (e["msg"], e["func"]), e["loc"]))
        else:
            r.append(ob(title, UND, "%s under an unknown condition" % e["msg"]))
    return r


def all_opts(fn, cg=True):
    """option sets for the flow rules: cheap (iterative solver summarised)"""
    core = fn in CORE
    l = [{}, {"zero_mean": True}, {"clamp_db": "param"}, {"clamp_db": 0}, {"zero_mean": True, "clamp_db": "param"}]
    if core or fn == "si_bss_eval_sources":
        l += [{"load_diag": "param"}, {"load_diag": "param", "zero_mean": True, "clamp_db": "param"}]
    if core and cg:
        l += [{"use_cg_iter": "iter"}, {"use_cg_iter": "iter", "zero_mean": True, "clamp_db": "param"},
              {"use_cg_iter": "iter", "load_diag": "param"}]
    return l + const_opts(fn)


def contexts(fn, tier, cg=True):
    """(options, size context) pairs"""
    out = []
    for o in all_opts(fn, cg):
        out.append(dict(opts=o))
    for o in [{}] + const_opts(fn):
        for nb in (0, 2):
            out.append(dict(opts=o, nb=nb))
        if unequal(fn, o):
            for ch in ("LT", "GT"):
                out.append(dict(opts=o, chan=ch))
            for ch in ("R1", "E1"):
                out.append(dict(opts=o, chan=ch, nb=0))
        out.append(dict(opts=o, chan="11", nb=0))
    if fn in CORE:
        for o in ({}, {"load_diag": "param"}, {"use_cg_iter": "iter"}, {"use_cg_iter": "iter", "load_diag": "param"}):
            out.append(dict(opts=o, filt=1))
        out.append(dict(nb=0, opts={"use_cg_iter": 0}))
        out.append(dict(time="short"))
        out.append(dict(time="short", opts={"use_cg_iter": "iter"}))
        if fn in ("bss_eval_sources", "sdr_pit_loss", "sdr", "pairwise_sdr_loss"):
            for ch in ("LT", "GT"):
                out.append(dict(opts={"use_cg_iter": "iter"}, chan=ch))
    if tier == "thorough":
        for o in all_opts(fn, cg):
            for nb in (0, 2):
                out.append(dict(opts=o, nb=nb))
            if unequal(fn, o):
                for ch in ("LT", "GT"):
                    out.append(dict(opts=o, chan=ch, nb=2))
    seen, res = set(), []
    for c in out:
        k = repr(sorted(c.items(), key=str))
        if k not in seen:
            seen.add(k)
            res.append(c)
    return res


def mod(kw):
    """summarise the iterative solver in these contexts"""
    if kw.get("opts", {}).get("use_cg_iter"):
        return dict(kw, modular=True)
    return kw


# ---------------------------------------------------------------------- C04
def root_of(o, v):
    return o.I.st.heap.get(v.sid)


def c04_case(be, fn, kws):
    r = []
    for kw in kws:
        for dt in ("f32", "f64"):
            if dt == "f64" and len(kw.get("opts") or ()) > 1:
                continue
            r += c04_one(be, fn, dict(kw, dtype=dt))
            if be == "pt":
                # tensors that do not require a gradient may take other paths
                r += c04_one(be, fn, dict(kw, dtype=dt), False)
    return r


def c04_one(be, fn, kw, grad=True):
    o = run(sc(be, fn, **kw), grad=grad)
    t = "inputs untouched, results fresh: " + o.s.key() + ("" if grad or be == "np" else " without gradient")
    r = event_obs(t, o, ("inplace",), lambda e: e.get("origin") in ("ref", "est", "requires_grad", None))
    b = bad_status(t, o, ("ValueError", "AssertionError"))
    if b:
        return r + [x for x in b if x["k"] == UND]
    seen = {}
    for n, v in enumerate(o_raw(o)):
        if not isinstance(v, ArrV):
            continue
        for w in variants(v):
            s = root_of(o, w)
            if s is None or w.scalar:
                continue
            for nm, c in s.origin.items():
                if nm in ("ref", "est"):
                    cp = P(c)
                    if cp.unk or not cp.terms:
                        continue
                    r.append(ob(t, BAD, "result %d shares the memory of %s" % (n, nm), drive_entry(o)))
            if w.sid in seen and seen[w.sid] != n:
                r.append(ob(t, BAD, "results %d and %d share memory" % (seen[w.sid], n), drive_entry(o)))
            seen[w.sid] = n
    if not r:
        r.append(ob(t, OK))
    return r


def o_raw(o):
    v = o.value
    if isinstance(v, ListV):
        h = o.I.st.heap.get(v.hid, [])
        v = tuple(h) if isinstance(h, list) else (v,)
    if not isinstance(v, (tuple, list)):
        v = (v,)
    return list(v)


def variants(v):
    return [v]


def group_jobs(fname, tier, fns=FULL, cg=True, chunk=6, bes=("np", "pt"), pre=None):
    j = []
    for be in bes:
        for fn in fns:
            cs = [mod(c) for c in contexts(fn, tier, cg)]
            if pre:
                cs = pre(fn, cs)
            if fname not in ("c04_case", "c05_case"):
                cs = widen(fn, cs, nograd=fname != "c07_case")
            for i in range(0, len(cs), chunk):
                j.append((fname, (be, fn, cs[i:i + chunk])))
    return j


check("C04", "effect analysis: no write reaches a storage that can be (a view of) an input on a feasible path, and the storages "
      "of the returned arrays are neither input storages nor shared with one another", lambda tier: group_jobs("c04_case", tier))


# ---------------------------------------------------------------------- C05
def c05_case(be, fn, kws):
    r = []
    for kw in kws:
        for dt, dd in (("f32", "f32"), ("f32", "f64"), ("f64", "f32"), ("f64", "f64")):
            if be == "np" and dd != "f32":
                continue
            r += c05_one(be, fn, dict(kw, dtype=dt, dd=dd))
    return r


def is_index(fn, opts, n, total):
    if "bss_eval" in fn:
        return n == 3
    return bool(opts.get("return_perm")) and n == 1


def c05_one(be, fn, kw):
    o = run(sc(be, fn, **kw))
    t = "precision: " + o.s.key()
    b = bad_status(t, o, ("AssertionError",))
    dtm = event_obs(t, o, ("dtmix",))
    if b:
        return [x for x in b if x["k"] != BAD] + dtm if not dtm else dtm
    r = list(dtm)
    vs = outs(o)
    for n, v in enumerate(vs):
        if not isinstance(v, ArrV):
            r.append(ob(t, UND, "unknown result"))
            continue
        want = "i64" if is_index(fn, kw.get("opts", {}), n, len(vs)) else kw["dtype"]
        if v.dtype in (None, "?", "unk"):
            r.append(ob(t, UND, "dtype of result %d" % n))
        elif v.dtype != want:
            r.append(ob(t, BAD, "result %d is %s for %s signals (default dtype %s)" % (n, v.dtype, kw["dtype"], kw["dd"]), drive_entry(o)))
        elif kw["dtype"] == "f64" and want == "f64":
            low = [m for k, m in v.taint if k == "lowp"]
            if low:
                r.append(ob(t, BAD, "result %d went through a lower precision: %s" % (n, low[0]), low[0].split(" ")[0].rstrip(":")))
            else:
                r.append(ob(t, OK))
        else:
            r.append(ob(t, OK))
    return r


check("C05", "dtype propagation (NumPy and PyTorch promotion rules) over every path: results carry the dtype of the signals for both "
      "default dtypes, the permutation is int64, float64 data is never converted to a lower precision",
      lambda tier: group_jobs("c05_case", tier, chunk=4))


# ---------------------------------------------------------------------- C06
def c06_case(be, fn, kws):
    r = []
    for kw in kws:
        o = run(sc(be, fn, **kw))
        t = "device: " + o.s.key()
        ev = event_obs(t, o, ("device", "mixbackend"))
        r += ev
        b = bad_status(t, o, ("ValueError", "AssertionError"))
        if b:
            r += [x for x in b if x["k"] == UND]
            continue
        for n, v in enumerate(outs(o)):
            if not isinstance(v, ArrV):
                r.append(ob(t, UND, "unknown result"))
            elif v.be != "pt":
                r.append(ob(t, BAD, "result %d is not a tensor" % n, drive_entry(o)))
            elif v.dev in (None, "?"):
                r.append(ob(t, UND, "device of result %d" % n))
            elif v.dev != "dev":
                r.append(ob(t, BAD, "result %d lives on %s, not on the device of the inputs" % (n, v.dev), drive_entry(o)))
            else:
                r.append(ob(t, OK))
    return r


check("C06", "device propagation: tensors combined with the input live on its device (symbolic device), results included",
      lambda tier: group_jobs("c06_case", tier, bes=("pt",)) + [("c06_inline", (fn, kw)) for fn in CORE for kw in (
          dict(opts={"use_cg_iter": "iter"}), dict(opts={"use_cg_iter": "iter"}, filt="odd", nb=0))] + [
              ("c06_hungarian", ())])


def c06_inline(fn, kw):
    return c06_case("pt", fn, [kw])


def c06_hungarian():
    """the assignment routine itself, its loops over unknown states"""
    o = run(sc("pt", "sdr_pit_loss", nb=0, tag="inlsa"), summaries=False)
    return event_obs("device in the assignment: " + o.s.key(), o, ("device", "mixbackend")) or [
        ob("device in the assignment: " + o.s.key(), OK if not undecided(o) else UND, status(o))]


# ---------------------------------------------------------------------- C07
def c07_case(be, fn, kws):
    r = []
    for kw in kws:
        o = run(sc(be, fn, **kw))
        t = "differentiable: " + o.s.key()
        r += event_obs(t, o, ("saved",))
        b = bad_status(t, o, ("ValueError", "AssertionError"))
        if b:
            r += [x for x in b if x["k"] == UND]
            continue
        vs = outs(o)
        for n, v in enumerate(vs):
            if is_index(fn, kw.get("opts", {}), n, len(vs)):
                continue
            if not isinstance(v, ArrV):
                r.append(ob(t, UND, "unknown result"))
                continue
            cut = sorted(m for k, m in v.taint if k == "cut")
            if cut:
                r.append(ob(t, BAD, "result %d depends on values cut from the graph: %s" % (n, cut[0]), cut[0].split(" ")[0]))
            elif not v.grad:
                if o.I.unknown:
                    r.append(ob(t, UND, "gradient of result %d" % n))
                else:
                    r.append(ob(t, BAD, "result %d does not require gradients" % n, drive_entry(o)))
            else:
                r.append(ob(t, OK))
    return r


check("C07", "gradient flow: every float result requires gradients and carries no value that left the graph (detach, no_grad, "
      "item, data, numpy conversion); no in-place write overwrites a tensor saved for the backward pass",
      lambda tier: group_jobs("c07_case", tier, bes=("pt",)) + [("c07_inline", (fn, kw)) for fn in CORE for kw in (
          dict(opts={"use_cg_iter": "iter"}), dict(opts={"use_cg_iter": "iter"}, filt=1))])


def c07_inline(fn, kw):
    return c07_case("pt", fn, [kw])


# ---------------------------------------------------------------------- C08
def only_own(p, bat, names=("ref", "est")):
    """first access to another batch item, or None"""
    for a in walk_atoms(p).values():
        if a.op == "acc" and a.attrs[0] in names:
            for k, b in enumerate(bat):
                if a.args[k] is not b:
                    return a
    return None


def body_of(o, v):
    """(axes, body) with abbreviations opened so that every access is visible under the output's own indices"""
    axes, b = o.I.refresh(v)
    return axes, b


def foreign(p, bat, seen=None):
    """an access of p to another batch item, looking through abbreviations"""
    seen = set() if seen is None else seen
    if p.id in seen:
        return None
    seen.add(p.id)
    for m, c in p.terms:
        for a, e in m:
            if a.op == "acc" and a.attrs[0] in ("ref", "est"):
                for k, b in enumerate(bat):
                    if a.args[k] is not b:
                        return a
            if a.op == "def":
                r = foreign(def_body(a), bat, seen)
                if r is not None:
                    return r
                continue
            bs = tm.open_atom(a)[1] if a.bvars else list(a.bodies)
            for x in bs + [y for y in a.args if y is not None]:
                r = foreign(x, bat, seen)
                if r is not None:
                    return r
    return None


def c08_case(be, fn, kws):
    r = []
    for kw in kws:
        nb = kw.get("nb", 1)
        o = run(sc(be, fn, **kw))
        t = "batch items independent: " + o.s.key()
        z = run(sc(be, fn, **dict(kw, nb=0)))
        if o.ok != z.ok:
            if undecided(o) or undecided(z) or o.I.unknown or z.I.unknown:
                r.append(ob(t, UND, "%s / %s" % (status(o), status(z))))
            else:
                w = (o if not o.ok else z)
                r.append(ob(t, BAD, "%d batch dimensions: %s, none: %s" % (nb, status(o), status(z)),
                            w.raises[-1][2] if w.raises else ""))
            continue
        if not o.ok:
            r.append(ob(t, OK if not (undecided(o) or o.I.unknown) else UND, status(o)))
            continue
        vo, vz = outs(o), outs(z)
        if len(vo) != len(vz):
            r.append(ob(t, UND, "number of results"))
            continue
        for n, (v, w) in enumerate(zip(vo, vz)):
            tn = "%s: result %d" % (t, n)
            if not isinstance(v, ArrV) or not isinstance(w, ArrV):
                r.append(ob(tn, UND, "unknown result"))
                continue
            axes, p = o.I.refresh(v)
            if len(axes) != w.ndim + nb or any(len(a) > 1 for a in axes):
                if len(axes) == w.ndim + nb:
                    r.append(ob(tn, UND, "shape %s" % shape_str(v)))
                else:
                    r.append(ob(tn, BAD, "shape %s with %d batch dimensions, %s without" % (shape_str(v), nb, shape_str(w)), drive_entry(o)))
                continue
            bat = [atom1(a[0]) if a else ZERO for a in axes[:nb]]
            if any((ax_size(a) - b).terms for a, b in zip(axes[:nb], o.B)):
                r.append(ob(tn, BAD, "shape %s" % shape_str(v), drive_entry(o)))
                continue
            # drop the batch indices of the accesses
            f = foreign(p, bat)
            if f is not None:
                if p.unk:
                    r.append(ob(tn, UND, "unknown parts"))
                else:
                    q = same_without(p, bat, f)
                    if q:
                        r.append(ob(tn, UND, "reads another batch item: %s" % tm.show_atom(f, 3)[:60]))
                    else:
                        r.append(ob(tn, BAD, "the value for one batch item reads %s" % tm.show_atom(f, 3)[:80], drive_entry(o)))
                continue
            p0 = drop_batch(p, nb)
            ax0, q = z.I.refresh(w)
            sub = {}
            good = True
            for a, b in zip(axes[nb:], ax0):
                if len(a) != len(b):
                    good = False
                for x, y in zip(a, b):
                    sub[y] = atom1(x)
            if not good:
                r.append(ob(tn, UND, "shapes"))
                continue
            c = compare(p0, subst(q, sub))
            r.append(res(tn, c, drive_entry(o)))
    return r


def drop_batch(p, nb):
    def f(a):
        if a.op == "acc" and a.attrs[0] in ("ref", "est"):
            return acc(a.attrs[0], [drop_batch(x, nb) for x in a.args[nb:]])
        if a.op == "def":
            return drop_batch(def_body(a), nb)
        return None
    return map_atoms(p, f)


def same_without(p, bat, a):
    """does the foreign access not matter (identity test with other data for the other items)?"""
    from . import ident

    def f(x):
        if x.op == "acc" and x.attrs[0] in ("ref", "est"):
            if all(x.args[k] is b for k, b in enumerate(bat)):
                return None
            same = ONE
            for k, b in enumerate(bat):
                same = pmul(same, delta(x.args[k] - b))
            return pmul(same, atom1(x)) + pmul(ONE - same, acc("other_" + x.attrs[0], list(x.args)))
        if x.op == "def":
            return map_atoms(def_body(x), f)
        return None
    try:
        q = map_atoms(p, f)
    except Blowup:
        return True
    w = ident.witness(p, q)
    return w is None or w == "same"


def c08_ctx(fn, cs):
    out = []
    for c in cs:
        if c.get("nb", 1) == 0 or c.get("opts", {}).get("use_cg_iter"):
            continue
        out.append(c)
        if c.get("nb", 1) == 1 and not c.get("opts"):
            out.append(dict(c, nb=2))
            out.append(dict(c, nb=3)) if c.get("chan", "EQ") == "EQ" else None
    return out


check("C08", "every access a result makes to the signals uses the result's own batch indices, and dropping them leaves the term of the "
      "unbatched call (so values and control flow are those of the item alone); the same for conjugate_gradient and the preconditioners over opaque systems",
      lambda tier: c08_jobs(tier))


def c08_jobs(tier):
    from .solver import item_jobs
    it = {"use_cg_iter": "iter"}
    j = item_jobs("batch", tier)
    for be in ("np", "pt"):
        # the iterative solver itself, not summarised
        j.append(("c08_case", (be, "bss_eval_sources", [dict(opts=dict(it, compute_permutation=False))])))
        j.append(("c08_case", (be, "sdr_loss", [dict(opts=it)])))
        if tier == "thorough":
            j.append(("c08_case", (be, "bss_eval_sources", [dict(opts=dict(it, compute_permutation=False), nb=2)])))
            for fn in CORE:
                if fn != "bss_eval_sources":
                    for nb in (1, 2):
                        j.append(("c08_case", (be, fn, [dict(opts=it, nb=nb)])))
        for fn in CORE:
            for nb in (1, 2):
                j.append(("c08_case", (be, fn, [dict(opts=it, nb=nb, modular=True)])))
    return j + group_jobs("c08_case", tier, pre=c08_ctx, chunk=3)


# ---------------------------------------------------------------------- C09
def c09_case(be, fn, kws):
    r = []
    for kw in kws:
        r += c09_one(be, fn, kw)
    return r


def c09_one(be, fn, kw):
    o = run(sc(be, fn, **kw))
    opts = kw.get("opts", {})
    t = "shapes: " + o.s.key()
    ch = kw.get("chan", "EQ")
    reject = ch in ("LT", "GT", "R1", "E1") and not unequal(fn, opts)
    r = event_obs(t, o, ("squeeze", "oob"))
    if reject:
        if "bss_eval" in fn:
            if o.ok and not o.I.unknown:
                r.append(ob(t, BAD, "accepts different numbers of references and estimates without permutation", drive_entry(o)))
            else:
                r.append(ob(t, OK if not o.ok and not undecided(o) else UND, status(o)))
        return r
    b = bad_status(t, o)
    if b:
        return r + b
    crash = event_obs(t, o, ("crash",))
    if crash:
        return r + crash
    # rejected inputs may only be those with invalid matching costs
    for st, e, l in o.raises:
        n = exc_of(e)
        from .interp import pc_poly
        c = pc_poly(st.pc)
        if n == "ValueError" and fn in PERMUTING:
            continue
        if c.unk or not c.terms:
            continue
        r.append(ob(t, BAD, "raises %s when %s" % (n, show(c, 3)[:120]), l))
    K = o.R if nonneg(o.E - o.R) else o.E
    pw = fn.startswith("pairwise") or opts.get("pairwise")
    want = list(o.B) + ([o.R, o.E] if pw else [K])
    n_out = 1
    if "bss_eval" in fn:
        n_out = 4 if opts.get("compute_permutation", True) else 3
    elif opts.get("return_perm"):
        n_out = 2
    vs = outs(o)
    if isinstance(o.value, Top) or any(isinstance(v, Top) for v in vs):
        return r + [ob(t, UND, "unknown result")]
    if len(vs) != n_out:
        return r + [ob(t, BAD, "%d results instead of %d" % (len(vs), n_out), drive_entry(o))]
    for n, v in enumerate(vs):
        if not isinstance(v, ArrV):
            r.append(ob(t, UND if not isinstance(v, (Num, int, float, type(None))) else BAD, "result %d is no array" % n, drive_entry(o)))
            continue
        s = v.shape()
        if any(x.unk for x in s):
            r.append(ob(t, UND, "shape of result %d" % n))
        elif len(s) != len(want) or any((x - y).terms for x, y in zip(s, want)):
            if len(s) == len(want) and not all(decides(x - y) for x, y in zip(s, want)):
                r.append(ob(t, UND, "shape of result %d: %s" % (n, shape_str(v))))
            else:
                r.append(ob(t, BAD, "result %d has shape %s instead of (%s)" % (
                    n, shape_str(v), ", ".join(show(x, 3) for x in want)), drive_entry(o)))
        else:
            r.append(ob(t, OK))
    return r


def decides(d):
    return not d.terms or nonneg(d - 1) or nonneg(-d - 1) or all(a.op in ("sym", "slk") for m, c in d.terms for a, e in m)


def c09_ctx(fn, cs):
    out = list(cs)
    for o in [{}] + const_opts(fn):
        for ch in ("EQ", "LT", "GT", "R1", "E1"):
            for nb in (0, 1, 2):
                out.append(dict(opts=o, chan=ch, nb=nb))
        out.append(dict(opts=o, chan="11", nb=1))
        if fn in CORE:
            out.append(dict(opts=o, filt=1, chan="LT" if unequal(fn, o) else "EQ"))
            out.append(dict(opts=o, filt=1, chan="GT" if unequal(fn, o) else "EQ", nb=0))
    seen, res_ = set(), []
    for c in out:
        k = repr(sorted(c.items(), key=str))
        if k not in seen:
            seen.add(k)
            res_.append(c)
    return res_


check("C09", "symbolic shape propagation for R < E, R = E, R > E, single channels and 0-3 batch dimensions: documented shapes, no "
      "shape error on any path, unequal channel counts rejected only without permutation",
      lambda tier: group_jobs("c09_case", tier, pre=c09_ctx))


# ---------------------------------------------------------------------- C18
def c18_case(be, fn, kws):
    r = []
    for kw in kws:
        a = run(sc(be, fn, **kw), top=True)
        b = run(sc(be, fn, **kw))
        if a.why == "missing":
            r.append(ob("top-level %s exists" % fn, BAD, "no top-level function", "fast_bss_eval/__init__.py"))
            continue
        t = "top-level = %s backend: %s" % ("torch" if be == "pt" else "numpy", a.s.key())
        x = same_outcome(t, a, b, dtype=True, ca="top-level", cb="backend")
        for y in x:
            if y["k"] == BAD and not y["where"].startswith("fast_bss_eval/"):
                y["where"] = "fast_bss_eval." + fn
        r += x
    return r


def c18_ctx(fn, cs):
    out = []
    for o in all_opts(fn):
        o2 = dict(o)
        out.append(mod(dict(opts=o2)))
    if fn in CORE:
        out.append(dict(filt=1))
        out.append(dict(nb=0, opts={"use_cg_iter": 0}))
        out.append(mod(dict(opts={"use_cg_iter": "iter", "load_diag": "param", "zero_mean": True, "clamp_db": "param"})))
    if unequal(fn, {}):
        out += [dict(chan="LT"), dict(chan="GT")]
    # signals without a channel axis
    flat = [dict(opts=o, nb=0, flat=True, tag="no channel axis") for o in [{}] + const_opts(fn)]
    return widen(fn, out) + flat


def c18_signatures():
    from .checks import sig_of
    from .interp import Func
    fresh_ctx([])
    I = load(Env(), ["fast_bss_eval"])
    r = []
    for fn in TOP:
        f = find(I, "fast_bss_eval", fn)
        for be in ("numpy", "torch"):
            g = find(I, "fast_bss_eval." + be, fn)
            nm = "signature of %s agrees with %s" % (fn, be)
            if not isinstance(f, Func) or not isinstance(g, Func):
                r.append(ob(nm, UND, "not a plain function"))
                continue
            s, t = sig_of(f), sig_of(g)
            if s == t:
                r.append(ob(nm, OK))
            elif any(n.startswith("*") for n, _ in s + t):
                r.append(ob(nm, UND, "variadic"))
            else:
                r.append(ob(nm, BAD, "top-level %s, %s %s" % ([x for x in s if x not in t] or [x[0] for x in s], be,
                                                              [x for x in t if x not in s] or [x[0] for x in t]), f.qual))
    return r


def c18_jobs(tier):
    j = [("c18_signatures", ())]
    for be in ("np", "pt"):
        for fn in TOP:
            cs = c18_ctx(fn, None)
            for i in range(0, len(cs), 5):
                j.append(("c18_case", (be, fn, cs[i:i + 5])))
    return j


check("C18", "for every option the term returned by the top-level function is the term returned by the backend function of the same "
      "name for the type of the first argument; signatures and defaults agree", c18_jobs)


# ---------------------------------------------------------------------- C19
OPTIONAL = ("torch", "packaging", "distutils", "torch_complex", "torchaudio")


def c19_import(missing, mods, version=None):
    fresh_ctx([])
    env = Env(missing=missing)
    if version:
        env.torch_version = version
    t = "import %s without %s%s" % (", ".join(mods), ", ".join(missing) or "nothing", " (torch %s)" % (version,) if version else "")
    from .interp import Interp, Dead
    I = Interp(env)
    I.raise_sink = []
    try:
        for m in mods:
            I.import_module(m)
    except Dead:
        n = [exc_of(e) for _, e, _ in I.raise_sink]
        if not n:
            return [ob(t, UND, "import fails")]
        if n[-1] in ("ImportError", "ModuleNotFoundError"):
            if mods == ["fast_bss_eval"] and "torch" in missing:
                return [ob(t, BAD, "the import fails with %s" % n[-1], I.raise_sink[-1][2])]
            return [ob(t, OK)]
        if I.unknown:
            return [ob(t, UND, "raises %s" % n[-1])]
        return [ob(t, BAD, "the import fails with %s" % n[-1], I.raise_sink[-1][2])]
    return event_obs(t, _E(I), ("crash",)) or [ob(t, OK)]


class _E:
    def __init__(self, I):
        self.events = I.events
        self.I = I


def c19_use(fn, kws):
    r = []
    for kw in kws:
        kw = dict(kw)
        ms = kw.pop("miss", ("torch",))
        a = run(sc("np", fn, missing=ms, tag="without " + " ".join(ms), **kw), top=True)
        b = run(sc("np", fn, **kw))
        t = "without PyTorch: " + a.s.key()
        if a.why == "missing":
            r.append(ob(t, BAD, "no top-level function without PyTorch", "fast_bss_eval/__init__.py"))
            continue
        x = same_outcome(t, a, b, raises=False)
        known = {exc_of(z[1]) for z in b.raises}
        for z in a.raises:
            if exc_of(z[1]) in ("ImportError", "ModuleNotFoundError", "AttributeError", "NameError", "TypeError") and exc_of(z[1]) not in known:
                x.append(ob(t, BAD, "%s without %s" % (exc_of(z[1]), ", ".join(ms)), z[2]))
                break
        for y in x:
            if y["k"] == BAD and not y["where"].startswith("fast_bss_eval/"):
                y["where"] = "fast_bss_eval." + fn
        r += x
    return r


def c19_jobs(tier):
    j = []
    for ms in ((), ("torch",), ("torch", "packaging"), ("packaging",), ("packaging", "distutils"), ("distutils",), ("torch_complex",),
               ("torch", "packaging", "distutils", "torch_complex", "torchaudio")):
        j.append(("c19_import", (ms, ["fast_bss_eval"])))
        j.append(("c19_import", (ms, ["fast_bss_eval.numpy"])))
    for ms in (("packaging",), ("torch_complex",), ("packaging", "torch_complex")):
        for v in ((1, 7, 0), (1, 8, 0), (1, 13, 1), (2, 0, 0)):
            j.append(("c19_import", (ms, ["fast_bss_eval.torch"], v)))
    for fn in TOP:
        cs = [dict(opts=o) for o in [{}, {"zero_mean": True}] + const_opts(fn)]
        if fn in CORE:
            cs.append(dict(opts={"use_cg_iter": "iter"}, modular=True))
        if unequal(fn, {}):
            cs += [dict(chan="LT")]
        j.append(("c19_use", (fn, cs)))
        j.append(("c19_use", (fn, [dict(c, miss=("torch", "packaging", "distutils", "torch_complex", "torchaudio")) for c in cs])))
    return j


check("C19", "abstract import of the package with each optional dependency absent, and analysis of every top-level function on NumPy "
      "arrays with torch absent: no exception but ImportError can leave the import, results are those of the NumPy backend", c19_jobs)


# ---------------------------------------------------------------------- C21
def c21_case(be, fn, kws):
    r = []
    for kw in kws:
        for top in ((False, True) if fn in TOP and not kw.get("chan") else (False,)):
            o = run(sc(be, fn, **kw), top=top)
            t = "pure: " + o.s.key() + (" (top-level)" if top else "")
            r += event_obs(t, o, ("global", "setting", "print", "readstate"))
            if undecided(o):
                r.append(ob(t, UND, status(o)))
            else:
                r.append(ob(t, OK))
    return r


def c21_inline(be, fn, kw):
    r = []
    o = run(sc(be, fn, **kw), summaries=not kw.get("nosum"))
    t = "pure: " + o.s.key()
    r += event_obs(t, o, ("global", "setting", "print", "readstate"))
    r.append(ob(t, OK if not undecided(o) else UND, status(o)))
    return r


check("C21", "effect analysis over every reachable statement: no write to module-level objects, default values, library settings, random "
      "generators or streams, and no read of such state",
      lambda tier: group_jobs("c21_case", tier) + [("c21_inline", (be, fn, dict(opts={"use_cg_iter": "iter"})))
                                                   for be in ("np", "pt") for fn in CORE] + [
                                                       ("c21_inline", ("pt", "sdr_pit_loss", dict(nb=0, nosum=True, tag="inlsa")))])


# ---------------------------------------------------------------------- C23
def c23_case(fn, kws):
    r = []
    for kw in kws:
        for dt in ("i16", "i32", "u8"):
            a = run(sc("np", fn, **dict(kw, dtype=dt)))
            t = "integer signals: " + a.s.key()
            ev = event_obs(t, a, ("trunc", "intarith"))
            r += ev
            b = bad_status(t, a, ("AssertionError",))
            if b:
                r += b
                continue
            f = run(sc("np", fn, **dict(kw, dtype="f64")))
            vs = outs(a)
            for n, v in enumerate(vs):
                if not isinstance(v, ArrV):
                    continue
                want = "i64" if is_index(fn, kw.get("opts", {}), n, len(vs)) else "f64"
                if v.dtype != want:
                    r.append(ob(t, BAD, "result %d is %s" % (n, v.dtype), drive_entry(a)))
            low = [m for v in vs if isinstance(v, ArrV) for k, m in v.taint if k == "lowp"]
            if low:
                r.append(ob(t, BAD, "goes through a lower precision: %s" % low[0], low[0].split(" ")[0].rstrip(":")))
            if f.ok:
                r += same_outcome(t, a, f, raises=False)
    return r


def c23_jobs(tier):
    j = []
    for fn in FULL:
        cs = [mod(c) for c in contexts(fn, tier) if c.get("nb", 1) == 1]
        for i in range(0, len(cs), 5):
            j.append(("c23_case", (fn, cs[i:i + 5])))
    return j


check("C23", "dtype propagation from 16 and 32 bit integer signals: arithmetic on samples happens in floating point, nothing is stored "
      "back into integers, float64 results equal to those of float64 signals", c23_jobs)
