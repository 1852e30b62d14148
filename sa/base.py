"""Obligations, verdicts and helpers shared by the checks."""
import itertools
from .scen import *          # noqa
from . import scen, unify, drive, lib
from . import term as tm
from .interp import pc_poly
from .unify import compare, EQ, DIFF, UNK

OK, BAD, UND = "ok", "bad", "und"


def ob(name, k, why="", where=""):
    return {"ob": name, "k": k, "why": why, "where": where}


def res(name, r, where=""):
    return ob(name, {EQ: OK, DIFF: BAD, UNK: UND}[r.k], r.why, where)


def aligned(oa, va, ob_, vb):
    """(axes, body of va, body of vb over the same index variables) or None"""
    ax, ba = oa.I.refresh(va)
    bx, bb = ob_.I.refresh(vb)
    if len(ax) != len(bx):
        return None
    sub = {}
    for a, b in zip(ax, bx):
        if len(a) == len(b) and all(x.args[0] is y.args[0] for x, y in zip(a, b)):
            for x, y in zip(a, b):
                sub[y] = atom1(x)
        else:
            sa_ = ax_size(a) - ax_size(b)
            if sa_.terms:
                return None
            from .arr import flat_index, unflatten
            try:
                sub.update(unflatten(b, flat_index(a)))
            except Exception:
                return None
    return ax, ba, subst(bb, sub)


def shape_str(v):
    return "(%s)" % ", ".join(show(s, 3)[:40] for s in v.shape())


def same_shape(a, b):
    """EQ/DIFF/UNK"""
    s, t = a.shape(), b.shape()
    if any(x.unk for x in s + t):
        return UNK
    if len(s) != len(t):
        return DIFF
    r = EQ
    for x, y in zip(s, t):
        d = x - y
        if d.terms:
            if nonneg(d - 1) or nonneg(-d - 1) or all(a_.op in ("sym", "slk") for m, c in d.terms for a_, e in m):
                return DIFF
            r = UNK
    return r


def funcs(o):
    return set(getattr(o.I, "funcs_seen", ()))


def exc_of(e):
    n = e.name
    return n() if callable(n) else n


def raise_set(o):
    """{exception name: condition} of the exceptions leaving the call"""
    d = {}
    for st, e, l in o.raises:
        c = pc_poly(st.pc)
        n = exc_of(e)
        d.setdefault(n, []).append((c, l))
    return d


def status(o):
    if o.ok:
        return "returns"
    return o.why


def undecided(o):
    return o.why in ("budget", "expression too large") or o.why is None and not o.ok


def same_outcome(name, a, b, dtype=False, neg=None, pick=None, raises=True, ca="", cb=""):
    """obligations that two analysed calls have the same outcome.
    neg: tuple of bool, outputs of b to negate; pick: list of (i, j) output pairs"""
    la, lb = ca or a.s.key(), cb or b.s.key()
    if not a.ok or not b.ok:
        if undecided(a) or undecided(b):
            return [ob(name, UND, "%s / %s" % (status(a), status(b)))]
        if a.ok != b.ok:
            bad = a if not a.ok else b
            if bad.I.unknown:
                return [ob(name, UND, status(bad))]
            w = bad.raises[-1][2] if bad.raises else ""
            e = exc_of(bad.raises[-1][1]) if bad.raises else bad.why
            return [ob(name, BAD, "%s: %s; %s: %s (%s)" % (la, status(a), lb, status(b), e), w)]
        ea = {exc_of(e) for _, e, _ in a.raises}
        eb = {exc_of(e) for _, e, _ in b.raises}
        if ea != eb:
            return [ob(name, BAD, "raises %s against %s" % (sorted(ea), sorted(eb)), a.raises[-1][2])]
        return [ob(name + ": both reject", OK)]
    va, vb = outs(a), outs(b)
    if pick is None:
        if len(va) != len(vb):
            if any(isinstance(v, Top) for v in va + vb):
                return [ob(name, UND, "unknown result")]
            return [ob(name, BAD, "%d results against %d" % (len(va), len(vb)))]
        pick = [(i, i) for i in range(len(va))]
    r = []
    for n, (i, j) in enumerate(pick):
        if i >= len(va) or j >= len(vb):
            r.append(ob("%s: result %d" % (name, n), BAD, "missing result"))
            continue
        x, y = va[i], vb[j]
        nm = "%s: result %d" % (name, i)
        if not isinstance(x, ArrV) or not isinstance(y, ArrV):
            if isinstance(x, Top) or isinstance(y, Top):
                r.append(ob(nm, UND, "unknown result"))
            elif type(x) is not type(y) or x is not y and x != y:
                r.append(ob(nm, UND, "%r / %r" % (x, y)))
            else:
                r.append(ob(nm, OK))
            continue
        s = same_shape(x, y)
        if s == DIFF:
            r.append(ob(nm, BAD, "shape %s against %s" % (shape_str(x), shape_str(y))))
            continue
        al = aligned(a, x, b, y)
        if s == UNK or al is None:
            r.append(ob(nm, UND, "shapes"))
            continue
        ax, p, q = al
        if neg and neg[n]:
            q = -q
        c = compare(p, q)
        r.append(res(nm, c, locate(a, b)))
        if dtype and x.dtype != y.dtype:
            r.append(ob(nm + " dtype", BAD, "%s against %s" % (x.dtype, y.dtype)))
    r += same_iterations(name, a, b, la, lb)
    if raises:
        r += same_raises(name, a, b)
    return r


def same_iterations(name, a, b, la, lb):
    """the iterative solver is asked for the same number of iterations"""
    def get(o):
        return {e["n_iter"].id: e["n_iter"] for e in o.I.events if e["kind"] == "cg" and isinstance(e["n_iter"], tm.Poly)}
    x, y = get(a), get(b)
    if not x or not y or set(x) == set(y):
        return []
    if len(x) == 1 and len(y) == 1:
        c = compare(list(x.values())[0], list(y.values())[0])
        if c.k == EQ:
            return []
        return [ob(name + ": iterations", BAD if c.k == DIFF else UND, "%s asks for %s iterations, %s for %s" % (
            la, tm.show(list(x.values())[0], 3), lb, tm.show(list(y.values())[0], 3)), locate(a, b))]
    return [ob(name + ": iterations", UND, "several iteration counts")]


def same_raises(name, a, b):
    da, db = raise_set(a), raise_set(b)
    if set(da) != set(db):
        for k in sorted(set(da) ^ set(db)):
            d = da if k in da else db
            if all(c.unk for c, l in d[k]):
                return [ob(name + ": rejected inputs", UND, "%s under an unknown condition" % k)]
            return [ob(name + ": rejected inputs", BAD, "only %s raises %s" % (
                "the first" if k in da else "the second", k), d[k][0][1])]
        return []
    r = []
    for k in sorted(da):
        ca, cb = [c for c, _ in da[k]], [c for c, _ in db[k]]
        if len(ca) != len(cb):
            r.append(ob(name + ": rejected inputs", UND, k))
            continue
        rest = list(cb)
        w = None
        for c in ca:
            hit = None
            for x in rest:
                z = compare(c, x)
                if z.k == EQ:
                    hit = x
                    break
                w = z
            if hit is None:
                # boolean conditions: undecided unless a leaf differs
                r.append(ob(name + ": rejected inputs", UND, "%s: %s" % (k, w.why if w else "")))
                break
            rest.remove(hit)
        else:
            r.append(ob(name + ": rejected inputs (%s)" % k, OK))
    return r


def locate(*os):
    for o in os:
        f = drive_entry(o)
        if f:
            return f
    return ""


def drive_entry(o):
    s = o.s
    return "fast_bss_eval.%s.%s" % ("numpy" if s["be"] == "np" else "torch", s["fn"])


def opt_sets(fn, deep=False, cg=True):
    """option combinations for one entry point"""
    core = fn in CORE
    l = [{}, {"zero_mean": True}, {"clamp_db": "param"}]
    if core:
        l += [{"load_diag": "param"}]
        if cg:
            l += [{"use_cg_iter": "iter"}]
    if fn == "si_bss_eval_sources":
        l += [{"load_diag": "param"}]
    if deep:
        l += [{"zero_mean": True, "clamp_db": "param"}]
        if core:
            l += [{"load_diag": "param", "zero_mean": True, "clamp_db": "param"}]
            if cg:
                l += [{"use_cg_iter": "iter", "zero_mean": True, "clamp_db": "param"}]
                if fn not in ("bss_eval_sources",):
                    l += [{"use_cg_iter": "iter", "load_diag": "param"}]
    return l


def const_opts(fn):
    """option flags that select another way of returning the result"""
    if fn in ("bss_eval_sources", "si_bss_eval_sources"):
        return [{"compute_permutation": False}]
    if fn in ("sdr", "si_sdr"):
        return [{"return_perm": True}, {"change_sign": True}, {"return_perm": True, "change_sign": True}]
    if fn in ("sdr_loss", "si_sdr_loss"):
        return [{"pairwise": True}]
    return []


def unequal(fn, o):
    """does this call accept different numbers of references and estimates"""
    if fn in ("bss_eval_sources", "si_bss_eval_sources"):
        return o.get("compute_permutation", True)
    if fn in ("sdr_loss", "si_sdr_loss"):
        return bool(o.get("pairwise"))
    return True


def widen(fn, kws, prec=True, chans=True, nograd=True):
    """the same contexts in double precision (without gradient), and with single references / estimates"""
    out = list(kws)
    for k in kws:
        o = k.get("opts", {})
        plain = not (set(k) - {"opts", "modular", "filt"})
        if prec and plain and "dtype" not in k and len(o) <= 1:
            out.append(dict(k, dtype="f64", grad=False) if nograd else dict(k, dtype="f64"))
            if nograd and not k:
                out.append(dict(grad=False))
        if chans and plain and len(o) <= 1 and "use_cg_iter" not in o and "filt" not in k:
            cl = ["11"] + (["R1", "E1"] if unequal(fn, o) else [])
            out += [dict(k, chan=c, nb=0) for c in cl]
    seen, res_ = set(), []
    for k in out:
        r = repr(sorted(k.items(), key=str))
        if r not in seen:
            seen.add(r)
            res_.append(k)
    return res_
