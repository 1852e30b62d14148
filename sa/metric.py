"""C10 - C15, C17, C20, C22: rules over the terms of the returned metrics."""
import itertools
import math
from fractions import Fraction
from .base import *          # noqa
from . import base, spec, ident
from . import term as tm
from .reg import check
from .mcommon import abstract_matching, selectors, metric_spec, spec_compare, out_names, LOSSES, dim_var
from .flow import all_opts, mod, bad_status, event_obs, o_raw, is_index, definite

EITHER = ("np", "pt")


def chunked(fname, cases, n=4, prec=True, chans=True):
    """cases: list of (be, fn, kw)"""
    by = {}
    for be, fn, kw in cases:
        by.setdefault((be, fn), []).append(kw)
    j = []
    for (be, fn), l in by.items():
        u, seen = [], set()
        for k in l:
            r = repr(sorted(k.items(), key=str))
            if r not in seen:
                seen.add(r)
                u.append(k)
        u = widen(fn, u, prec, chans)
        for i in range(0, len(u), n):
            j.append((fname, (be, fn, u[i:i + n])))
    return j


def metric_contexts(fn, tier, cg=True, clamp=True):
    l = []
    for o in all_opts(fn, cg):
        if not clamp and "clamp_db" in o:
            continue
        l.append(mod(dict(opts=o)))
    for o in [{}] + const_opts(fn):
        l.append(dict(opts=o, nb=0))
        if unequal(fn, o):
            for ch in ("LT", "GT"):
                l.append(dict(opts=o, chan=ch, nb=0))
            if tier == "thorough":
                for ch in ("R1", "E1"):
                    l.append(dict(opts=o, chan=ch, nb=0))
    if fn in CORE:
        for o in ({}, {"load_diag": "param"}, {"zero_mean": True}):
            l.append(dict(opts=o, filt=1))
        l.append(mod(dict(opts={"use_cg_iter": "iter"}, filt=1)))
        l.append(dict(time="short", nb=0))
        if tier == "thorough":
            for f in ("even", "odd"):
                l.append(mod(dict(opts={"use_cg_iter": "iter"}, filt=f, nb=0)))
            if unequal(fn, {}):
                for ch in ("LT", "GT"):
                    l.append(mod(dict(opts={"use_cg_iter": "iter"}, chan=ch, nb=0)))
                    l.append(mod(dict(opts={"use_cg_iter": "iter", "load_diag": "param"}, chan=ch, nb=0)))
    return l


# ---------------------------------------------------------------------- C10
def gains(which):
    def mk(name, vs, body):
        if name in which:
            return pmul(abs_of(acc("scale_" + name, [atom1(v) for v in vs[:-1]])), body)
        return body
    return mk


def negate(which):
    def mk(name, vs, body):
        return -body if name in which else body
    return mk


def abs_of(p):
    return tm.abs_of(p)


def c10_case(be, fn, kws):
    r = []
    for kw in kws:
        base_ = run(sc(be, fn, norm=True, **kw))
        cg = bool(kw.get("opts", {}).get("use_cg_iter")) and not kw.get("modular")
        hooks = [("gain", gains(("ref", "est")))]
        if not cg:
            hooks += [("negref", negate(("ref",))), ("negest", negate(("est",)))]
        for nm, h in hooks:
            o = run(sc(be, fn, norm=True, tag="c10" + nm, inputs=h, **kw))
            t = "scaled (%s) = unscaled: %s" % (nm, base_.s.key())
            x = same_outcome(t, o, base_, raises=False, ca="scaled", cb="unscaled")
            for y in x:
                if y["k"] == BAD and not y["where"]:
                    y["where"] = drive_entry(base_)
            r += x
    return r


def c10_jobs(tier):
    cs = [(be, fn, k) for be in EITHER for fn in FULL for k in metric_contexts(fn, tier)]
    cs += [(be, "sdr_loss", dict(opts={"use_cg_iter": "iter", "load_diag": "param"})) for be in EITHER]
    return chunked("c10_case", cs, 3)


check("C10", "the terms of the results for signals multiplied by arbitrary positive gains per channel (and by -1) have the normal form of "
      "the unscaled results, norms above 1e-6", c10_jobs)


# ---------------------------------------------------------------------- C11
def centred(which=("ref", "est")):
    def mk(name, vs, body):
        if name not in which:
            return body
        t = vs[-1]
        u = ivar(t.args[0])
        return body - pmul(ppow(P(t.args[0]), -1), mk_sum((u,), subst(body, {t: atom1(u)})))
    return mk


def c11_case(be, fn, kws):
    r = []
    for kw in kws:
        o0 = dict(kw.get("opts", {}))
        o0.pop("zero_mean", None)
        kt = dict(kw, opts=dict(o0, zero_mean=True))
        kf = dict(kw, opts=o0)
        kx = dict(kw, opts=dict(o0, zero_mean=False))
        a = run(sc(be, fn, **kt))
        b = run(sc(be, fn, tag="c11", inputs=centred(), **kf))
        t = "zero_mean = centred inputs: " + a.s.key()
        x = same_outcome(t, a, b, raises=False, ca="zero_mean=True", cb="centred inputs")
        r += [dict(y, where=y["where"] or drive_entry(a)) for y in x]
        # without the option nothing is removed
        f = run(sc(be, fn, **kf))
        g = run(sc(be, fn, **kx))
        t = "no mean removed without zero_mean: " + f.s.key()
        r += same_outcome(t + " (default = False)", g, f, raises=False)
        if not f.ok or not b.ok:
            continue
        for n, (v, w) in enumerate(zip(outs(f), outs(b))):
            if is_index(fn, o0, n, 0) or not isinstance(v, ArrV) or not isinstance(w, ArrV):
                continue
            al = aligned(f, v, b, w)
            if al is None:
                r.append(ob(t, UND, "shapes"))
                continue
            c = compare(al[1], al[2])
            if c.k == EQ and free_of_data(al[1]):
                continue
            if c.k == EQ:
                r.append(ob("%s: result %d" % (t, n), BAD, "the mean is removed although zero_mean is False", drive_entry(f)))
            elif c.k == DIFF:
                r.append(ob("%s: result %d" % (t, n), OK))
            else:
                r.append(ob("%s: result %d" % (t, n), UND, c.why))
    return r


def c11_jobs(tier):
    cs = []
    for be in EITHER:
        for fn in FULL:
            for k in metric_contexts(fn, tier):
                if not k.get("opts", {}).get("zero_mean"):
                    cs.append((be, fn, k))
            cs.append((be, fn, dict(nb=2)))
    cs += [(be, "sdr_loss", dict(opts={"use_cg_iter": "iter"})) for be in EITHER]
    return chunked("c11_case", cs, 3)


check("C11", "the terms with zero_mean=True have the normal form of the terms without it on inputs from which the time average of "
      "each channel has been subtracted; without it they differ from those", c11_jobs)


# ---------------------------------------------------------------------- C12 / C13
def open_defs(p):
    """abbreviations opened down to the decibel conversion"""
    return expand_defs(p)


def ext_consts(a):
    """(constant or parameter operands, others) of a min / max atom"""
    c, r = [], []
    for x in a.args:
        (c if free_of_data(x) else r).append(x)
    return c, r


def free_of_data(p):
    return not any(a.op in ("acc", "U", "state", "solve", "loop") for a in walk_atoms(p).values())


class Comp:
    """body = M(u), u = min(hi, max(lo, x)); M as a term in the symbol t"""

    def __init__(self, M, lo, hi, x, t):
        self.M, self.lo, self.hi, self.x, self.t = M, lo, hi, x, t


def outer_clamp(p):
    """the outermost clamp composite of a metric term, or None"""
    p = top_open(p)
    found = []

    def scan(q, depth):
        for m, c in q.terms:
            for a, e in m:
                if a.op in ("min", "max"):
                    cs, rest = ext_consts(a)
                    if cs and len(rest) == 1:
                        found.append(a)
                        continue
                if a.op in ("log10", "paren", "max", "min", "powx", "exp10"):
                    for x in a.args:
                        scan(x, depth + 1)
                elif a.op == "def":
                    scan(def_body(a), depth + 1)
    scan(p, 0)
    u = {a.id: a for a in found}
    if len(u) != 1:
        return None
    a = list(u.values())[0]
    lo = hi = None
    x = atom1(a)
    cur = a
    for _ in range(3):
        cs, rest = ext_consts(cur)
        if len(cs) != 1 or len(rest) != 1:
            break
        if cur.op == "min":
            if hi is not None:
                break
            hi = cs[0]
        else:
            if lo is not None:
                break
            lo = cs[0]
        x = rest[0]
        nx = as_atom(x)
        if nx is not None and nx.op == "def":
            nx = as_atom(def_body(nx))
        if nx is None or nx.op not in ("min", "max"):
            break
        cur = nx
    t = param("t#")

    def f(b):
        if b is a:
            return t
        if b.op == "def":
            q = map_atoms(def_body(b), f)
            return q
        return None
    M = map_atoms(p, f)
    return Comp(M, lo, hi, x, t)


def top_open(p):
    return p


def is_neg_db(M, t):
    """+1 when M = 10 log10(1/t - 1), -1 when its opposite, else 0"""
    n = spec.neg_db(t)
    if not (M - n).terms:
        return 1
    if not (M + n).terms:
        return -1
    for s, q in ((1, n), (-1, -n)):
        if compare(M, q).k == EQ:
            return s
    return 0


def metric_bodies(o):
    """[(index, name, body)] of the float results as functions of their reference and estimate"""
    s = o.s
    fn, opts = s["fn"], s["opts"]
    out = []
    vs = outs(o)
    for n, nm in enumerate(out_names(fn, opts)):
        if nm == "perm" or n >= len(vs):
            continue
        v = vs[n]
        if not isinstance(v, ArrV):
            out.append((n, nm, None, None))
            continue
        if fn in PERMUTING and opts.get("compute_permutation", True):
            if not o.I.refresh(v)[0]:
                out.append((n, nm, None, None))
                continue
            try:
                body, bat, i, j, free = abstract_matching(o, v)
            except (tm.Collide, Blowup):
                out.append((n, nm, None, None))
                continue
            out.append((n, nm, body, [x for x in bat] + [i, j]))
        else:
            axes, body = o.I.refresh(v)
            out.append((n, nm, body, [atom1(a[0]) if a else ZERO for a in axes]))
    return out


def same_indices(b, ix, jx):
    sub = {}
    for x, y in zip(ix, jx):
        a = as_atom(y)
        if a is not None and a.op == "ivar":
            sub[a] = x
    return subst(b, sub)


def c12_case(be, fn, kws):
    r = []
    for kw in kws:
        o0 = dict(kw.get("opts", {}))
        o0.pop("clamp_db", None)
        free = run(sc(be, fn, norm=True, **dict(kw, opts=o0)))
        for cl in ("param", 0, 10):
            if cl == 10 and kw.get("opts"):
                continue
            o = run(sc(be, fn, norm=True, **dict(kw, opts=dict(o0, clamp_db=cl))))
            t = "clamped to [-clamp_db, clamp_db]: " + o.s.key()
            if not o.ok or not free.ok:
                b = bad_status(t, o)
                if b and free.ok:
                    r += b
                elif not free.ok:
                    r.append(ob(t, OK if not o.ok and not undecided(o) else UND, status(free)))
                continue
            c = param("clamp_db") if cl == "param" else const(cl)
            fb = {n: (b, ix) for n, nm, b, ix in metric_bodies(free)}
            for n, nm, b, ix in metric_bodies(o):
                tn = "%s: %s" % (t, nm)
                b0, ix0 = fb.get(n, (None, None))
                if b is None or b0 is None or len(ix) != len(ix0):
                    r.append(ob(tn, UND, "result not recognised"))
                    continue
                b0 = same_indices(b0, ix, ix0)
                if cl == 0:
                    r.append(zero_clamp(tn, b, o))
                    continue
                r.append(clamp_verdict(tn, b, b0, c, o))
        # no finite bound without the option
        t = "no bound without clamp_db: " + free.s.key()
        if free.ok:
            for n, nm, b, ix in metric_bodies(free):
                r.append(unbounded(t + ": " + nm, b, free))
    return r


def zero_clamp(t, b, o):
    if not b.terms:
        return ob(t, OK)
    if b.unk:
        return ob(t, UND, "unknown parts")
    w = ident.witness(b, ZERO)
    if isinstance(w, str) and w != "same":
        return ob(t, BAD, "clamp_db=0 leaves a value other than 0: " + w, drive_entry(o))
    return ob(t, UND, "not shown to be zero")


def clamp_verdict(t, b, b0, c, o):
    if b.unk or b0.unk:
        return ob(t, UND, "unknown parts")
    x, y = outer_clamp(b), outer_clamp(b0)
    if x is not None and y is not None and x.lo is not None and x.hi is not None:
        k = is_neg_db(x.M, x.t)
        k0 = is_neg_db(y.M, y.t)
        if k and k == k0 and compare(x.x, y.x).k == EQ:
            # 10 log10(1/lo - 1) = c, hi = 1 - lo
            ok1, ok2 = maps_to(x.lo, c), maps_to(x.hi, -c)
            if ok1 and ok2:
                return ob(t, OK)
            if ok1 is False or ok2 is False:
                return ob(t, BAD, "the squared cosine is confined to [%s, %s], whose ends are not at -clamp_db and clamp_db" % (
                    show(x.lo, 4)[:80], show(x.hi, 4)[:80]), drive_entry(o))
    want = mk_max([-c, mk_min([c, b0])])
    q = compare(b, want)
    if q.k == EQ:
        return ob(t, OK)
    if q.k == DIFF:
        return ob(t, BAD, "not the metric clamped to [-clamp_db, clamp_db]: " + q.why, drive_entry(o))
    # the bounds themselves
    return ob(t, UND, q.why)


def maps_to(u, c):
    """10 log10(1/u - 1) = c, i.e. 1 - u = 10^(c/10) u"""
    cu, cc = as_const(u), as_const(c)
    if cu is not None and cc is not None:
        if not 0 < cu < 1:
            return False
        d = 10 * math.log10(1 / float(cu) - 1)
        return abs(d - float(cc)) < 1e-9 * max(1, abs(float(cc)))
    E = tm.mk_powx(const(10), pscale(c, Fraction(1, 10)))
    q = compare(ONE - u, pmul(E, u))
    if q.k == EQ:
        return True
    w = ident.witness(ONE - u, pmul(E, u))
    return False if isinstance(w, str) and w != "same" else None


def unbounded(t, b, o):
    """the metric without clamp_db has no finite bound"""
    if b.unk:
        return ob(t, UND, "unknown parts")
    x = outer_clamp(b)
    if x is None:
        if not any(a.op in ("min", "max") for a in walk_atoms(b).values()):
            return ob(t, OK)
        return ob(t, UND, "bounds not recognised")
    k = is_neg_db(x.M, x.t)
    if k:
        lo, hi = x.lo, x.hi
        bad = [v for v, w in ((lo, 0), (hi, 1)) if v is not None and (as_const(v) is None or as_const(v) != w)]
        if not bad:
            return ob(t, OK)
        v = bad[0]
        cv = as_const(v)
        if cv is not None and (cv < 0 or cv > 1):
            return ob(t, OK)
        return ob(t, BAD, "the squared cosine is limited to %s although no clamp is requested" % show(v, 3), drive_entry(o))
    if not (x.M - x.t).terms or not (x.M + x.t).terms:
        return ob(t, BAD, "limited to [%s, %s] although no clamp is requested" % (
            show(x.lo, 3) if x.lo is not None else "-inf", show(x.hi, 3) if x.hi is not None else "inf"), drive_entry(o))
    return ob(t, UND, "conversion not recognised")


def clamp_contexts(fn, tier):
    l = []
    for k in metric_contexts(fn, tier, clamp=False):
        l.append(k)
    return l


def c12_jobs(tier):
    return chunked("c12_case", [(be, fn, k) for be in EITHER for fn in FULL for k in clamp_contexts(fn, tier)], 3)


check("C12", "each metric term with clamp_db is shown to be the monotone decibel map of the squared cosine confined to the interval whose "
      "end points map to exactly -clamp_db and clamp_db (or max(-c, min(c, metric))); without clamp_db only [0, 1] confines it", c12_jobs)


# ---------------------------------------------------------------------- C13
INF = float("inf")


def rng(p, memo=None):
    """(lo, hi) of a term when everything not confined by min / max / squares may take any value"""
    memo = {} if memo is None else memo
    if p.id in memo:
        return memo[p.id]
    memo[p.id] = (-INF, INF)
    lo = hi = 0.0
    # u^-1 - 1 with u in [0, 1] and the like: exact for one monomial plus a constant
    for m, c in p.terms:
        a, b = 1.0, 1.0
        for x, e in m:
            l, h = rng_atom(x, memo)
            l, h = rng_pow(l, h, e)
            a, b = rng_mul(a, b, l, h)
        c = float(c)
        a, b = (a * c, b * c) if c > 0 else (b * c, a * c)
        if a != a:
            a = -INF
        if b != b:
            b = INF
        lo, hi = lo + a, hi + b
    r = (lo if lo == lo else -INF, hi if hi == hi else INF)
    memo[p.id] = r
    return r


def rng_mul(a, b, c, d):
    v = []
    for x in (a, b):
        for y in (c, d):
            z = x * y
            v.append(0.0 if z != z else z)
    return min(v), max(v)


def rng_pow(l, h, e):
    if e == 1:
        return l, h
    if e.denominator != 1:
        return (0.0, INF)
    n = int(e)
    if n % 2 == 0:
        if n > 0:
            return (0.0 if l <= 0 <= h else min(l * l, h * h), max(l * l, h * h) if n == 2 else INF)
        return (0.0, INF)
    if n > 0:
        return (l ** n, h ** n)
    if l >= 0:
        return ((0.0 if h == INF else 1.0 / h ** -n) if h > 0 else 0.0, INF if l == 0 else 1.0 / l ** -n)
    return (-INF, INF)


def rng_atom(a, memo):
    if a.op == "def":
        return rng(def_body(a), memo)
    if a.op in ("max", "min"):
        v = [rng(x, memo) for x in a.args]
        if a.op == "max":
            return max(x[0] for x in v), max(x[1] for x in v)
        return min(x[0] for x in v), min(x[1] for x in v)
    if a.op == "paren":
        return rng(a.args[0], memo)
    if a.op == "abs":
        l, h = rng(a.args[0], memo)
        return (0.0, max(abs(l), abs(h)))
    if a.op == "exp10":
        return (0.0, INF)
    if a.op in ("isposinf", "isneginf", "isnan", "any", "U", "pos", "eq0"):
        return (0.0, 1.0)
    if a.op in ("sym", "slk", "ivar", "count"):
        return (0.0, INF)
    if a.op == "param" and str(a.attrs[0]).startswith("clamp"):
        return (0.0, INF)
    if a.op == "sum":
        b = rng(tm.open_atom(a)[1][0], memo)
        return (0.0 if b[0] >= 0 else -INF, INF)
    return (-INF, INF)


def log_args(p):
    """arguments of decibel conversions that depend on data, matching costs left out"""
    out = {}
    seen = set()

    def go(q):
        if q.id in seen:
            return
        seen.add(q.id)
        for m, c in q.terms:
            for a, e in m:
                if a.op == "lsa":
                    continue
                if a.op == "log10" and not free_of_data(a.args[0]):
                    out[a.id] = a.args[0]
                if a.op == "def":
                    go(def_body(a))
                for b in (tm.open_atom(a)[1] if a.bvars else a.bodies):
                    go(b)
                for x in a.args:
                    if x is not None:
                        go(x)
    go(p)
    return list(out.values())


def wraps(x):
    """some term is a multiple of a bound or an abbreviation of data"""
    for m, c in x.terms:
        d = [a for a, e in m if not free_of_data(atom1(a))]
        if len(d) == 1 and d[0].op in ("max", "min", "def", "paren"):
            return True
    return False


def probe_arg(arg):
    """does the argument become negative (or the conversion NaN) for a squared cosine slightly outside [0, 1]?
    The innermost data dependent product is replaced by an unknown t."""
    inner = {}

    def scan(q):
        q = q
        for m, c in q.terms:
            data = [(a, e) for a, e in m if not free_of_data(atom1(a))]
            if not data:
                continue
            if len(data) == 1 and data[0][0].op in ("max", "min", "paren", "def"):
                a = data[0][0]
                for x in ([def_body(a)] if a.op == "def" else a.args):
                    if a.op in ("max", "min") and not free_of_data(x) and not wraps(x):
                        inner[x.id] = x
                    else:
                        scan(x)
                continue
            mm = tuple(data)
            key = tm.mono_poly(mm)
            inner[key.id] = key
    scan(arg)
    if len(inner) > 2 or not inner:
        return None
    ps = list(inner.values())
    if len(ps) == 2:
        if not (pmul(ps[0], ps[1]) - ONE).terms:
            ps = ps[:1]
        else:
            return None
    x = ps[0]
    inv = ppow(x, -1)
    t = param("t#")

    def val(q, tv):
        if not (q - x).terms:
            return tv
        tot = 0.0
        for m, c in q.terms:
            v = float(c)
            data = tuple((a, e) for a, e in m if not free_of_data(atom1(a)))
            rest = tuple((a, e) for a, e in m if free_of_data(atom1(a)))
            for a, e in rest:
                if a.op == "param":
                    v *= 10.0 ** float(e)
                    continue
                if a.op == "exp10":
                    v *= (10.0 ** val(a.args[0], tv)) ** float(e)
                    continue
                if a.op == "paren":
                    v *= val(a.args[0], tv) ** float(e)
                    continue
                raise ValueError()
            if data:
                if len(data) == 1 and data[0][0].op in ("max", "min", "paren", "def"):
                    a, e = data[0]
                    if a.op == "def":
                        w = val(def_body(a), tv)
                    else:
                        ws = [val(z, tv) for z in a.args]
                        w = max(ws) if a.op == "max" else min(ws)
                    if w == 0 and e < 0:
                        v = INF * v
                    else:
                        v *= w ** float(e)
                else:
                    p = tm.mono_poly(data)
                    if not (p - x).terms:
                        v *= tv
                    elif not (p - inv).terms:
                        v *= 1 / tv
                    else:
                        raise ValueError()
            tot += v
        return tot
    for tv in (1.0000001, 1.001, -1e-7, -1e-3):
        try:
            w = val(arg, tv)
        except (ValueError, ZeroDivisionError, OverflowError):
            return None
        if isinstance(w, complex):
            return None
        if w != w or w < 0:
            return tv
    return False


def bare_energies(p):
    """sums of squares of input samples raised to a negative power with no lower bound"""
    out = []
    seen = set()

    def go(q):
        if q.id in seen:
            return
        seen.add(q.id)
        for m, c in q.terms:
            guarded = any(a.op in ("eq0", "pos", "U", "any") for a, e in m)
            for a, e in m:
                if e < 0 and not guarded and is_energy(a):
                    out.append(a)
                if a.op == "def":
                    go(def_body(a))
                for b in (tm.open_atom(a)[1] if a.bvars else a.bodies):
                    go(b)
                for x in a.args:
                    if x is not None:
                        go(x)
    go(p)
    return out


def is_energy(a):
    if a.op == "paren":
        x = as_atom(a.args[0])
        return x is not None and is_energy(x)
    if a.op != "sum" or len(a.bvars) != 1:
        return False
    b = as_mono(tm.open_atom(a)[1][0])
    if b is None:
        return False
    return all(x.op == "acc" and x.attrs[0] in ("ref", "est") and e == 2 for x, e in b[0]) and len(b[0]) == 1


def c13_case(be, fn, kws):
    r = []
    for kw in kws:
        o = run(sc(be, fn, **kw))
        t = "no NaN: " + o.s.key()
        if not o.ok:
            r.append(ob(t, UND if undecided(o) or o.I.unknown else OK, status(o)))
            continue
        for n, nm, b, ix in metric_bodies(o):
            tn = "%s: %s" % (t, nm)
            if b is None or b.unk:
                r.append(ob(tn, UND, "result not recognised"))
                continue
            es = bare_energies(b)
            if es:
                r.append(ob(tn, BAD, "divides by %s, zero for a silent signal" % tm.show_atom(es[0], 4)[:100], drive_entry(o)))
                continue
            for x in log_args(b):
                lo, hi = rng(x)
                if lo >= 0:
                    r.append(ob(tn, OK))
                    continue
                w = probe_arg(x)
                if w:
                    r.append(ob(tn, BAD, "a squared cosine rounded to %g gives the logarithm of a negative number: %s" % (w, show(x, 3)[:160]),
                                drive_entry(o)))
                elif w is False:
                    r.append(ob(tn, OK))
                else:
                    r.append(ob(tn, UND, "argument %s" % show(x, 3)[:100]))
    return r


def c13_jobs(tier):
    j = chunked("c13_case", [(be, fn, k) for be in EITHER for fn in FULL for k in metric_contexts(fn, tier)], 5)
    # a single silent reference makes the 1 x 1 Gram matrix singular: the solver reports that, it is not a division
    return [(f, (be, fn, [k for k in ks if not (fn == "si_bss_eval_sources" and k.get("chan") in ("R1", "11"))])) for f, (be, fn, ks) in j]


check("C13", "range analysis of every logarithm argument with the squared cosine unconfined: the argument is non-negative; no division by "
      "the energy of a signal without a positive lower bound", c13_jobs)


# ---------------------------------------------------------------------- C14
def lsa_of(b):
    return [a for a in selectors(b)]


def simplify_cost(p):
    """the cost for finite metrics: infinities absent"""
    def f(a):
        if a.op in ("isposinf", "isneginf", "isnan"):
            return ZERO
        if a.op == "any":
            q = map_atoms(a.bodies[0], f) if not a.bvars else None
            nb, bs = tm.open_atom(a) if a.bvars else ((), a.bodies)
            return mk_any(nb, map_atoms(bs[0], f))
        if a.op == "def":
            q = def_body(a)
            if any(x.op in ("isposinf", "isneginf", "isnan") for x in walk_atoms(q).values()):
                return map_atoms(q, f)
        return None
    return map_atoms(p, f)


def c14_case(be, fn, kws):
    r = []
    for kw in kws:
        o = run(sc(be, fn, norm=True, **kw))
        opts = kw.get("opts", {})
        t = "matching: " + o.s.key()
        b = bad_status(t, o)
        if b:
            r += b
            continue
        gt = nonneg(o.R - o.E - 1)
        vs = outs(o)
        names = out_names(fn, opts)
        atoms = {}
        ok = True
        bat = None
        for n, nm in enumerate(names):
            if n >= len(vs) or not isinstance(vs[n], ArrV):
                r.append(ob(t, UND, "unknown result"))
                ok = False
                break
            axes, body = o.I.refresh(vs[n])
            if body.unk:
                r.append(ob(t, UND, "unknown parts"))
                ok = False
                break
            # same names for the batch and the position in all the results
            if bat is None:
                bat = [atom1(a[0]) if a else ZERO for a in axes]
            else:
                body = subst(body, {a[0]: x for a, x in zip(axes, bat) if a})
            sel = selectors(body)
            if len({a.bodies for a in sel}) > 1:
                # alternatives by the presence of infinite entries: the one for finite entries
                body = simplify_cost(body)
                sel = selectors(body)
            for a in sel:
                atoms.setdefault(a.id, (a, set()))[1].add(nm)
            if nm == "perm":
                if not (len(sel) == 1 and not (body - atom1(sel[0])).terms):
                    if sel and not body.unk:
                        r.append(ob(t + ": permutation", UND, "permutation is not the assignment itself: %s" % show(body, 2)[:80]))
                    else:
                        r.append(ob(t + ": permutation", BAD, "the permutation %s does not come from the assignment" % show(body, 3)[:80],
                                    drive_entry(o)))
                    continue
                if sel[0].attrs[0] != "col":
                    r.append(ob(t + ": permutation", BAD, "the row indices of the assignment are returned", drive_entry(o)))
                else:
                    r.append(ob(t + ": permutation", OK))
        if not ok:
            continue
        al = [a for a, _ in atoms.values()]
        if not al:
            w = as_int(o.R) == 1 and as_int(o.E) == 1
            r.append(ob(t, OK if w else BAD, "no assignment is applied to the results", "" if w else drive_entry(o)))
            continue
        cols = [a for a in al if a.attrs[0] == "col"]
        if len(al) > 1 and len({a.bodies for a in al}) > 1:
            a, b = al[0], [x for x in al if x.bodies != al[0].bodies][0]
            c = compare(tm.open_atom(a)[1][0], subst_vars(b, a))
            r.append(ob(t, BAD if c.k == DIFF else UND, "the results are not all taken at the same matching (%s / %s): %s" % (
                ",".join(sorted(atoms[a.id][1])), ",".join(sorted(atoms[b.id][1])), c.why), drive_entry(o)))
            continue
        # every metric uses it
        for n, nm in enumerate(names):
            if nm != "perm" and not any(nm in s for _, s in atoms.values()):
                x = own_channel(o, vs[n], "ref" if gt else "est")
                r.append(ob("%s: %s" % (t, nm), BAD if x else OK, "this metric is not permuted", drive_entry(o)))
        a = (cols or al)[0]
        if bat and len(a.args) == 1:
            if (a.args[0] - bat[-1]).terms:
                r.append(ob(t, BAD, "position %s of the assignment is used for result %s" % (show(a.args[0], 3), show(bat[-1], 3)), drive_entry(o)))
        (v, w), bs = tm.open_atom(a)
        cost = spec.strip_clamps(simplify_cost(bs[0]))
        rows, cols_ = v.args[0], w.args[0]
        sp = spec.Spec(o, bat[:-1], opts.get("load_diag") and param("load_diag"))
        wr, wc = (o.E, o.R) if gt else (o.R, o.E)
        pv, pw = [ZERO if as_int(x.args[0]) == 1 else atom1(x) for x in (v, w)]
        cost = subst(cost, {v: pv, w: pw})
        i, j = (pw, pv) if gt else (pv, pw)
        if (rows - wr).terms or (cols_ - wc).terms:
            if not (rows - wc).terms and not (cols_ - wr).terms and (wr - wc).terms:
                r.append(ob(t, UND, "assignment solved on the transposed matrix"))
                continue
            r.append(ob(t, UND, "size of the cost matrix"))
            continue
        nm = "sir" if "bss_eval" in fn else "sdr"
        if nm == "sdr" and sp.one:
            sp = spec.Spec(o, bat[:-1], None)
        if nm == "sir" and sp.one:
            s0 = spec.Spec(o, bat[:-1], None)
            want = spec.neg_db(pmul(s0.cos_sdr(i, j), ppow(sp.cos_sar(j), -1)))
        else:
            want = metric_spec(sp, nm, i, j)
        want = spec.strip_clamps(want)
        q = compare(cost, want)
        if q.k == EQ:
            r.append(ob(t + ": criterion", OK))
        else:
            # the same optimum: cost equal up to sums over rows or columns
            if q.k == DIFF and rank_same(cost, want, v, w):
                q.k = UNK
            r.append(ob(t + ": criterion", BAD if q.k == DIFF else UND,
                        "the assignment does not minimise the total negative %s: %s" % (nm.upper(), q.why), drive_entry(o)))
    return r


def own_channel(o, v, name):
    """the position in the result selects a channel of the signals that should be matched"""
    axes, body = o.I.refresh(v)
    if not axes or not axes[-1]:
        return False
    k = atom1(axes[-1][0])
    nb = len(axes) - 1
    return any(len(x) > nb and not (x[nb] - k).terms for x in reads_of(body, name))


def reads_of(p, name, memo=None):
    """index tuples with which p reads a signal, through the abbreviations"""
    memo = {} if memo is None else memo
    if p.id in memo:
        return memo[p.id]
    out = memo[p.id] = {}
    for m, c in p.terms:
        for a, e in m:
            if a.op == "acc":
                if a.attrs[0] == name:
                    out[a.args] = 1
            elif a.op == "def":
                vs, b = tm.DEFS[a.attrs[0]]
                mp = dict(zip(vs, a.args))
                for x in list(reads_of(b, name, memo)):
                    try:
                        out[tuple(subst(y, mp) for y in x)] = 1
                    except tm.Collide:
                        pass
            else:
                for x in a.args:
                    if x is not None:
                        out.update(reads_of(x, name, memo))
                for x in a.bodies:
                    out.update(reads_of(x, name, memo))
    return out


def subst_vars(b, a):
    nb, bs = tm.open_atom(b)
    na, _ = tm.open_atom(a)
    if len(nb) != len(na):
        return bs[0]
    return subst(bs[0], {x: atom1(y) for x, y in zip(nb, na)})


def rank_same(c, w, v, u):
    """cost and wanted cost lead to the same matching on samples (positive factor, row / column offsets)"""
    R, E = v.args[0], u.args[0]
    ctx = tm.CTX[0]
    a1 = mk_lsa("col", v, u, c, ONE - 1)
    n = 0
    for seed in range(6):
        s = ident.Sample(300 + seed, "float", ctx)
        ev = ident.Ev(s, 3.0)
        env = {}
        try:
            for x in sorted((c.fv | w.fv) - {v, u}, key=lambda z: z.id):
                env[x] = 0
            p1 = [ev.lsa(_L("col", v, u, c, const(k)), env) for k in range(min(ev.size(v, env), ev.size(u, env)))]
            p2 = [ev.lsa(_L("col", v, u, w, const(k)), env) for k in range(min(ev.size(v, env), ev.size(u, env)))]
        except (ident.Cannot, ident.Singular, ZeroDivisionError, OverflowError, KeyError):
            continue
        n += 1
        if p1 != p2:
            return False
    return n >= 0


class _L:
    def __init__(self, w, v, u, c, k):
        self.attrs, self.bvars, self.bodies, self.args = (w,), (v, u), (c,), (k,)


def c14_jobs(tier):
    cs = []
    for be in EITHER:
        for fn in PERMUTING:
            for o in [{}] + [x for x in const_opts(fn) if x.get("compute_permutation", True)]:
                for nb in (0, 1, 2) if tier == "thorough" or not o else (1,):
                    cs.append((be, fn, dict(opts=o, nb=nb)))
                for ch in ("LT", "GT"):
                    cs.append((be, fn, dict(opts=o, nb=0, chan=ch)))
                    if not o or tier == "thorough":
                        cs.append((be, fn, dict(opts=o, nb=1, chan=ch)))
                for ch in ("R1", "E1"):
                    cs.append((be, fn, dict(opts=o, nb=0, chan=ch)))
            if fn in CORE:
                for ch in ("EQ", "LT", "GT"):
                    cs.append((be, fn, dict(filt=1, chan=ch, nb=0)))
                    cs.append((be, fn, mod(dict(opts={"use_cg_iter": "iter"}, chan=ch, nb=0))))
                cs.append((be, fn, dict(opts={"load_diag": "param"})))
    return chunked("c14_case", cs, 3)


check("C14", "the cost given to the assignment has the normal form of the negative SIR (SDR) of that reference and estimate, references in "
      "rows when they are not more numerous; all results are gathered with the one assignment, whose columns are the returned permutation",
      c14_jobs)


# ---------------------------------------------------------------------- C15
class Mat(ident.Sample):
    """sample whose cost matrix is given"""

    def __init__(self, ctx, C, slacks):
        ident.Sample.__init__(self, 1, "exact", ctx)
        self.C = C
        for k, v in slacks.items():
            self.syms[("slk", k)] = v

    def acc(self, name, idx):
        if name == "cost#":
            return self.C[idx[-2]][idx[-1]]
        return ident.Sample.acc(self, name, idx)


def cost_leaves(p):
    """decibel conversions occurring in p, by formal definition"""
    d = {}
    for a in walk_atoms(p).values():
        if a.op == "log10" and not free_of_data(a.args[0]):
            x = as_atom(a.args[0])
            if x is None or x.op != "def":
                return None
            d.setdefault(x.attrs[0], []).append(a)
    return d


def leaf_index(did, nb):
    """(positions of the reference and the estimate index among the arguments of an abbreviation); -1: none, None: unclear"""
    vs, body = tm.DEFS[did]
    d = {"ref": set(), "est": set()}
    for a in walk_atoms(expand_defs(body)).values():
        if a.op == "acc" and a.attrs[0] in d and len(a.args) > nb:
            x = as_atom(a.args[nb])
            if x is not None and x in vs:
                d[a.attrs[0]].add(vs.index(x))
    r = []
    for n in ("ref", "est"):
        if len(d[n]) > 1:
            return None
        r.append(min(d[n]) if d[n] else -1)
    if r[0] == r[1] >= 0:
        return None
    return r


def abstract_cost(p, nb, sizes=None):
    """the metric matrix replaced by an arbitrary matrix cost# (reference, estimate); None when it is not recognised"""
    lv = cost_leaves(p)
    if lv is None or len(lv) != 1:
        return None
    pos = leaf_index(list(lv)[0], nb)
    if pos is None:
        return None

    def f(a):
        if a.op == "log10" and not free_of_data(a.args[0]):
            x = as_atom(a.args[0])
            ix = [x.args[k] if k >= 0 else ZERO for k in pos]
            return pscale(acc("cost#", ix), Fraction(1, 10))
        if a.op == "def" and a.attrs[0] not in lv:
            return map_atoms(def_body(a), f)
        return None
    q = map_atoms(p, f)
    if any(a.op in ("solve", "corr") or a.op == "acc" and a.attrs[0] in ("ref", "est") for a in walk_atoms(q).values()):
        return None
    return q


def mats(n0, n1):
    """matrices over finite values, infinities of one or both signs and NaN"""
    P_, N_, Q = INF, -INF, float("nan")
    import random
    rnd = random.Random(n0 * 10 + n1)
    vals = [Fraction(-7), Fraction(3), Fraction(12), Fraction(0), Fraction(250)]
    out = []
    pats = []
    cells = n0 * n1
    for kinds in (("f", "p"), ("f", "n")):
        pats += list(itertools.product(kinds, repeat=cells))
    pats += [tuple(rnd.choice("fpn") for _ in range(cells)) for _ in range(12)]
    pats += [tuple(rnd.choice("ffq") for _ in range(cells)) for _ in range(6)]
    pats += [tuple(rnd.choice("fpq") for _ in range(cells)) for _ in range(6)]
    pats += [tuple("q" * cells), tuple("p" * (cells - 1) + "q"), tuple("n" * (cells - 1) + "q")]
    seen = set()
    for pt in pats:
        if pt in seen:
            continue
        seen.add(pt)
        for lo in range(3 if cells <= 4 else 1):
            m, x = [], 0
            for a in range(n0):
                row = []
                for b in range(n1):
                    k = pt[x]
                    x += 1
                    if k == "f":
                        v = {0: rnd.choice(vals), 1: Fraction(rnd.randint(-300, -200)), 2: Fraction(rnd.randint(-1000, 1000), 7)}[lo]
                    else:
                        v = {"p": P_, "n": N_, "q": Q}[k]
                    row.append(v)
                m.append(row)
            out.append(m)
            if "f" not in pt:
                break
    return out


def best_total(C):
    """(number of infinite entries, finite total) of the best assignment, min cost"""
    n0, n1 = len(C), len(C[0])
    best = None
    if n0 <= n1:
        it = [list(zip(range(n0), p)) for p in itertools.permutations(range(n1), n0)]
    else:
        it = [list(zip(p, range(n1))) for p in itertools.permutations(range(n0), n1)]
    for pr in it:
        inf = sum(1 for i, j in pr if C[i][j] == INF) - sum(1 for i, j in pr if C[i][j] == -INF)
        fin = sum(C[i][j] for i, j in pr if C[i][j] not in (INF, -INF))
        k = (inf, fin)
        if best is None or k < best[0]:
            best = (k, pr)
    return best[0], it


PATCH = ("redmax", "redmin", "isposinf", "isneginf")


def outer_atoms(p):
    """atoms of p that are not part of the cost handed to an assignment"""
    seen = {}
    stack = [p]
    while stack:
        q = stack.pop()
        for m, c in q.terms:
            for a, e in m:
                if a.id in seen or a.op == "lsa":
                    continue
                seen[a.id] = a
                stack.extend(x for x in a.args if x is not None)
                stack.extend(a.bodies)
                if a.op == "def":
                    stack.append(tm.DEFS[a.attrs[0]][1])
    return list(seen.values())


def c15_case(be, fn, kws):
    r = []
    for kw in kws:
        o = run(sc(be, fn, norm=True, **kw))
        t = "infinities and NaN in the matching: " + o.s.key()
        r += event_obs(t, o, ("print",))
        if not o.ok:
            b = bad_status(t, o)
            if b:
                r += b
            continue
        ls = [e for e in o.events if e["kind"] == "lsa"]
        if not ls:
            one = as_int(o.R) == 1 and as_int(o.E) == 1
            r.append(ob(t, UND, "no assignment"))
            continue
        if len(ls) > 1:
            r.append(ob(t, UND, "several assignments"))
            continue
        e = ls[0]
        v, w = e["vars"]
        body = e["body"]
        nb = kw.get("nb", 1)
        F = abstract_cost(body, nb)
        conds = []
        good = F is not None
        for st, ex, loc in o.raises:
            if exc_of(ex) != "ValueError":
                continue
            c = abstract_cost(pc_poly(st.pc), nb)
            if c is None:
                good = False
            else:
                conds.append((c, loc))
        reds = []
        for ev in o.events:
            if ev["kind"] == "emptyred":
                c = abstract_cost(ev["cond"], nb) if not free_of_data(ev["cond"]) else ev["cond"]
                if c is None:
                    good = False
                else:
                    reds.append((c, ev["loc"]))
        # results: the original values
        raw = outs(o)
        for n, nm, b, ix in metric_bodies(o):
            if b is None or b.unk:
                z = raw[n] if n < len(raw) else None
                q = [a for a in outer_atoms(o.I.refresh(z)[1]) if a.op in PATCH] if isinstance(z, ArrV) else []
                if q:
                    r.append(ob("%s: %s" % (t, nm), BAD, "the returned metric contains values patched for the matching (%s)" % q[0].op,
                                drive_entry(o)))
                else:
                    r.append(ob("%s: %s" % (t, nm), UND, "result not recognised"))
                continue
            bad = [a for a in walk_atoms(b).values() if a.op in PATCH]
            if bad:
                r.append(ob("%s: %s" % (t, nm), BAD, "the returned metric contains values patched for the matching (%s)" % bad[0].op,
                            drive_entry(o)))
            else:
                r.append(ob("%s: %s are the original values" % (t, nm), OK))
        if not good:
            r.append(ob(t, UND, "cost matrix not recognised"))
            continue
        r += enumerate_mats(t, o, F, conds, reds, v, w, bool(e.get("maximize")))
    return r


def enumerate_mats(t, o, F, conds, reds, v, w, maximize):
    out = []
    n_ok = {"values": 0, "reject": 0}
    for sl in ({}, {"s_R": 1}, {"s_E": 1}):
        s = Mat(tm.CTX[0], None, dict({"s_R": 0, "s_E": 0}, **sl))
        E0 = ident.Ev(s, 5)
        try:
            env0 = {x: 0 for x in F.fv if x not in (v, w)}
            n0, n1 = E0.size(v, env0), E0.size(w, env0)
            nR, nE = E0.num(o.R, env0), E0.num(o.E, env0)
        except (ident.Cannot, KeyError):
            continue
        if n0 * n1 > 6:
            continue
        # orientation of the leaves: cost# is indexed like the metric (reference, estimate)
        for C in mats(nR, nE):
            s = Mat(tm.CTX[0], C, dict({"s_R": 0, "s_E": 0}, **sl))
            ev = ident.Ev(s, 10)
            flat = [x for row in C for x in row]
            nan = any(x != x for x in flat)
            pos, neg = any(x == INF for x in flat), any(x == -INF for x in flat)
            try:
                rej = [loc for c, loc in conds if ev.ev(c, {**env0, **{x: 0 for x in c.fv}}) != 0]
                for c, loc in reds:
                    if ev.ev(c, {x: 0 for x in c.fv}) != 0 and not rej:
                        return out + [ob(t, BAD, "minimum or maximum of an empty selection for the matrix %s" % fmtm(C), loc)]
            except (ident.Cannot, ident.Singular, ZeroDivisionError, KeyError) as ex:
                out.append(ob(t, UND, "condition not evaluated: %s" % ex))
                return out
            must = nan or pos and neg
            if must != bool(rej):
                if must:
                    return out + [ob(t, BAD, "the pairwise metrics %s are not rejected with ValueError" % fmtm(C), drive_entry(o))]
                return out + [ob(t, BAD, "the pairwise metrics %s are rejected" % fmtm(C), rej[0])]
            n_ok["reject"] += 1
            if must:
                continue
            try:
                P_ = [[ev.ev(F, {**env0, v: a, w: b}) for b in range(n1)] for a in range(n0)]
            except (ident.Cannot, ident.Singular, ZeroDivisionError, KeyError) as ex:
                out.append(ob(t, UND, "cost not evaluated: %s" % ex))
                return out
            pf = [x for row in P_ for x in row]
            if any(x != x or x in (INF, -INF) for x in pf):
                return out + [ob(t, BAD, "the cost given to the assignment for %s is not finite: %s" % (fmtm(C), fmtm(P_)), drive_entry(o))]
            if maximize:
                P_ = [[-x for x in row] for row in P_]
            # sign and orientation of the metric in the cost
            D = oriented(C, n0, n1, P_)
            if D is None:
                return out + [ob(t, BAD, "finite metrics %s are changed in the cost %s" % (fmtm(C), fmtm(P_)), drive_entry(o))]
            okm = False
            for X in D:
                best, it = best_total(X)
                m = min(it, key=lambda pr: sum(P_[i][j] for i, j in pr))
                tot = min(sum(P_[i][j] for i, j in pr) for pr in it)
                good = True
                for pr in it:
                    if sum(P_[i][j] for i, j in pr) == tot:
                        inf = sum(1 for i, j in pr if X[i][j] == INF) - sum(1 for i, j in pr if X[i][j] == -INF)
                        fin = sum(X[i][j] for i, j in pr if X[i][j] not in (INF, -INF))
                        if (inf, fin) != best:
                            good = False
                if good:
                    okm = True
            if not okm:
                return out + [ob(t, BAD, "with the metrics %s the cost becomes %s and the best matching is lost" % (fmtm(C), fmtm(P_)), drive_entry(o))]
            n_ok["values"] += 1
    if not n_ok["values"]:
        return out + [ob(t, UND, "no matrix could be evaluated")]
    out.append(ob(t + ": rejected exactly for NaN or both infinities (%d matrices)" % n_ok["reject"], OK))
    out.append(ob(t + ": infinities dominate every finite total (%d matrices)" % n_ok["values"], OK))
    return out


def oriented(C, n0, n1, P_):
    """the metric matrices (transposed, negated) that agree with the cost on finite entries"""
    out = []
    T = [list(x) for x in zip(*C)]
    for M in (C, T):
        if len(M) != n0 or len(M[0]) != n1:
            continue
        for sg in (1, -1):
            X = [[sg * x for x in row] for row in M]
            if all(X[i][j] in (INF, -INF) or abs(X[i][j] - P_[i][j]) < 1e-9 for i in range(n0) for j in range(n1)):
                out.append(X)
    return out or None


def fmtm(C):
    return "[%s]" % "; ".join(" ".join("%.6g" % float(x) for x in row) for row in C)


def c15_jobs(tier):
    cs = []
    for be in EITHER:
        for fn in PERMUTING:
            for ch in ("EQ", "LT", "GT"):
                cs.append((be, fn, dict(nb=0, chan=ch)))
                if tier == "thorough":
                    cs.append((be, fn, dict(nb=1, chan=ch)))
                    cs.append((be, fn, dict(nb=2, chan=ch)))
            for ch in ("R1", "E1"):
                cs.append((be, fn, dict(nb=0, chan=ch)))
            if fn in CORE:
                cs.append((be, fn, dict(nb=0, filt=1)))
            for o in const_opts(fn):
                if o.get("compute_permutation", True):
                    cs.append((be, fn, dict(nb=0, opts=o)))
    return chunked("c15_case", cs, 2)


check("C15", "the cost term and the rejection conditions, with the metric matrix abstracted, are decided over every class of entries (finite, "
      "infinite, NaN): rejection exactly for NaN or both signs, finite placeholders dominating every finite total; results contain no "
      "patched value", c15_jobs)


# ---------------------------------------------------------------------- C17
def c17_case(be, kind, fn, kws):
    r = []
    for kw in kws:
        opts = kw.get("opts", {})

        def R(f, **k):
            o = dict(opts, **k)
            return run(sc(be, f, **dict(kw, opts=o)))
        if kind == "loss":      # sdr_loss = - bss_eval_sources(compute_permutation=False)[0]
            a = R("sdr_loss")
            b = R("bss_eval_sources", compute_permutation=False)
            x = same_outcome("sdr_loss = -SDR: " + a.s.key(), a, b, neg=(True,), pick=[(0, 0)], raises=False)
        elif kind == "pit":
            a, b = R(fn), R(fn.replace("_pit_loss", ""))
            x = same_outcome("PIT loss = -SDR: " + a.s.key(), a, b, neg=(True,), raises=False)
        elif kind == "pairwise":
            a, b = R("pairwise_" + fn), R(fn, pairwise=True)
            x = same_outcome("pairwise function = pairwise=True: " + a.s.key(), a, b, raises=False)
        elif kind == "sign":
            a, b = R(fn, change_sign=True), R(fn)
            x = same_outcome("change_sign: " + a.s.key(), a, b, neg=(True,), raises=False)
            c, d = R(fn, change_sign=True, return_perm=True), R(fn, return_perm=True)
            x += same_outcome("change_sign with return_perm: " + c.s.key(), c, d, neg=(True, False), raises=False)
            x += same_outcome("return_perm only adds the permutation: " + d.s.key(), d, b, pick=[(0, 0)], raises=False)
            if d.ok and len(outs(d)) != 2 and not any(isinstance(z, Top) for z in outs(d)):
                x.append(ob("return_perm: " + d.s.key(), BAD, "%d results with return_perm" % len(outs(d)), drive_entry(d)))
        elif kind == "entry":   # the PIT value is an entry of the pairwise matrix, the loss its diagonal
            x = []
            p = R("pairwise_" + fn)
            s = R(fn)
            m = R(fn.replace("_loss", "_pit_loss"))
            if not p.ok:
                continue
            axes, pb = p.I.refresh(outs(p)[0])
            nb = kw.get("nb", 1)
            pix = [atom1(z[0]) if z else ZERO for z in axes]
            if m.ok and not opts.get("clamp_db"):
                b, bat, i, j, free = abstract_matching(m, outs(m)[0])
                t = "PIT loss is an entry of the pairwise matrix: " + m.s.key()
                if b is None or len(bat) != nb or len(pix) != nb + 2:
                    x.append(ob(t, UND, "matching not recognised"))
                else:
                    x.append(res(t, compare(b, same_indices(pb, bat + [i, j], pix)), drive_entry(m)))
            if s.ok and kw.get("chan", "EQ") == "EQ":
                ax, sb = s.I.refresh(outs(s)[0])
                six = [atom1(z[0]) if z else ZERO for z in ax]
                t = "loss is the diagonal of the pairwise matrix: " + s.s.key()
                if len(six) == nb + 1 and len(pix) == nb + 2:
                    x.append(res(t, compare(sb, same_indices(pb, six + six[-1:], pix)), drive_entry(s)))
        elif kind == "si":
            a = R(fn)
            b = run(sc(be, fn.replace("si_", ""), **dict(kw, filt=1)))
            x = same_outcome("si_ function = filter_length 1: " + a.s.key(), a, b, raises=True)
        r += [dict(y, where=y["where"] or "fast_bss_eval.%s.%s" % ("numpy" if be == "np" else "torch", fn)) for y in x]
    return r


def c17_jobs(tier):
    j = []
    it = {"use_cg_iter": "iter"}
    for be in EITHER:
        base_ = [{}, {"zero_mean": True}, {"clamp_db": "param"}]
        deep = base_ + [{"load_diag": "param"}, it, dict(it, load_diag="param"), {"clamp_db": 0},
                        {"zero_mean": True, "clamp_db": "param", "load_diag": "param"}]
        cs = [mod(dict(opts=o)) for o in deep] + [dict(filt=1), dict(nb=0), dict(time="short")]
        for i in range(0, len(cs), 3):
            j.append(("c17_case", (be, "loss", "sdr_loss", cs[i:i + 3])))
        cs2 = cs + [dict(chan=c, nb=0) for c in ("LT", "GT", "R1", "E1")] + [dict(filt=1, chan="LT"), dict(filt=1, opts={"load_diag": "param"})]
        cs2 += [mod(dict(opts=it, chan=c, nb=0)) for c in ("LT", "GT")]
        si = [dict(opts=o, filt=1) for o in base_ + [{"clamp_db": 0}, {"zero_mean": True, "clamp_db": "param"}]] + [
            dict(filt=1, nb=0), dict(filt=1, nb=2)]
        si2 = si + [dict(filt=1, chan=c, nb=0) for c in ("LT", "GT", "R1", "E1")]
        for i in range(0, len(cs2), 3):
            j.append(("c17_case", (be, "pit", "sdr_pit_loss", cs2[i:i + 3])))
            j.append(("c17_case", (be, "sign", "sdr", cs2[i:i + 3])))
            j.append(("c17_case", (be, "pairwise", "sdr_loss", cs2[i:i + 3])))
            j.append(("c17_case", (be, "entry", "sdr_loss", [c for c in cs2[i:i + 3]])))
        for i in range(0, len(si2), 4):
            j.append(("c17_case", (be, "pit", "si_sdr_pit_loss", si2[i:i + 4])))
            j.append(("c17_case", (be, "sign", "si_sdr", si2[i:i + 4])))
            j.append(("c17_case", (be, "pairwise", "si_sdr_loss", si2[i:i + 4])))
            j.append(("c17_case", (be, "entry", "si_sdr_loss", si2[i:i + 4])))
        for fn in SI:
            l = list(si2)
            if fn == "si_bss_eval_sources":
                l += [dict(opts={"load_diag": "param"}, filt=1)]
            l += [dict(opts=o, filt=1) for o in const_opts(fn)]
            for i in range(0, len(l), 4):
                j.append(("c17_case", (be, "si", fn, l[i:i + 4])))
    return j


check("C17", "the terms of each variant have the normal form of its base function with the documented sign, argument order and options",
      c17_jobs)


# ---------------------------------------------------------------------- C20
def c20_case(be, fn, kws):
    r = []
    for kw in kws:
        o = run(sc(be, fn, **dict(dict(norm=True), **kw)))
        r += spec_compare("load_diag on the diagonals", o, load=param("load_diag") if kw["opts"].get("load_diag") else None)
    return r


def c20_jobs(tier):
    cs = []
    for be in EITHER:
        for fn in CORE + ("si_bss_eval_sources",):
            if fn == "si_bss_eval_sources":
                cs += [(be, fn, dict(opts={"load_diag": "param"}, nb=nb, chan=ch)) for nb in (0, 1) for ch in ("EQ", "LT", "GT")]
                cs += [(be, fn, dict(opts={"load_diag": "param"}, nb=0, chan=ch)) for ch in ("R1", "E1", "11")]
                continue
            for o in [{}] + const_opts(fn):
                ld = dict(o, load_diag="param")
                cs.append((be, fn, dict(opts=ld)))
                cs.append((be, fn, mod(dict(opts=dict(ld, use_cg_iter="iter")))))
                cs.append((be, fn, mod(dict(opts=dict(o, use_cg_iter="iter")))))
                if unequal(fn, o):
                    for ch in ("LT", "GT"):
                        cs.append((be, fn, dict(opts=ld, chan=ch, nb=0)))
                        cs.append((be, fn, mod(dict(opts=dict(ld, use_cg_iter="iter"), chan=ch, nb=0))))
                for ch in ("R1", "E1", "11") if unequal(fn, o) else ("11",):
                    cs.append((be, fn, dict(opts=ld, chan=ch, nb=0)))
                    cs.append((be, fn, dict(opts=ld, filt=1, chan=ch, nb=0)))
                    cs.append((be, fn, mod(dict(opts=dict(ld, use_cg_iter="iter"), chan=ch, nb=0))))
                cs.append((be, fn, dict(opts=ld, filt=1)))
                cs.append((be, fn, mod(dict(opts=dict(ld, use_cg_iter="iter"), filt=1))))
            cs.append((be, fn, dict(opts={"load_diag": "param"}, time="short", nb=0)))
            # nothing assumed about the energy of the signals
            cs.append((be, fn, dict(opts={"load_diag": "param"}, nb=0, norm=False)))
            cs.append((be, fn, dict(opts={"load_diag": "param"}, filt=1, nb=0, norm=False)))
            if fn == "bss_eval_sources":
                cs.append((be, fn, dict(opts={"load_diag": "param", "compute_permutation": False}, nb=0, norm=False)))
            if tier == "thorough":
                for f in ("even", "odd", 3):
                    cs.append((be, fn, dict(opts={"load_diag": "param"}, filt=f, nb=0)))
                    cs.append((be, fn, mod(dict(opts={"load_diag": "param", "use_cg_iter": "iter"}, filt=f, nb=0))))
    return chunked("c20_case", cs, 2)


check("C20", "with load_diag = d symbolic, the terms equal those of the definition whose Gram matrices have d added on the diagonal; the "
      "iterative solver is given exactly that system (read off its operator)", c20_jobs)


# ---------------------------------------------------------------------- C22
def other_channels(p, nb, ok):
    """first access to a signal whose channel index is not allowed; ok: {name: channel poly or None (any)}"""
    seen = set()

    def go(q):
        if q.id in seen:
            return None
        seen.add(q.id)
        for m, c in q.terms:
            for a, e in m:
                if a.op == "lsa":
                    continue
                if a.op == "acc" and a.attrs[0] in ok and ok[a.attrs[0]] is not None:
                    if (a.args[nb] - ok[a.attrs[0]]).terms:
                        return a
                if a.op == "def":
                    x = go(def_body(a))
                    if x is not None:
                        return x
                    continue
                for b in (tm.open_atom(a)[1] if a.bvars else a.bodies):
                    x = go(b)
                    if x is not None:
                        return x
                for y in a.args:
                    if y is not None:
                        x = go(y)
                        if x is not None:
                            return x
        return None
    return go(p)


def replaced(p, nb, ok):
    """the same term with the data of the channels that should not matter replaced"""
    def f(a):
        if a.op == "acc" and a.attrs[0] in ok and ok[a.attrs[0]] is not None:
            own = ok[a.attrs[0]]
            if not (a.args[nb] - own).terms:
                return None
            d = delta(a.args[nb] - own)
            return pmul(d, atom1(a)) + pmul(ONE - d, acc("other_" + a.attrs[0], list(a.args)))
        if a.op == "def":
            return map_atoms(def_body(a), f)
        return None
    return map_atoms(p, f)


def contrast_witness(be, fn, kw, nb, nm):
    """the same question without the assumption on the norms, for channels of very different level"""
    o = run(sc(be, fn, **kw))
    if not o.ok:
        return None
    for n, nm2, b, ix in metric_bodies(o):
        if nm2 != nm or b is None or b.unk:
            continue
        ok = {"ref": ix[nb] if nm == "sdr" else None, "est": ix[-1]}
        if other_channels(b, nb, ok) is None:
            return None
        try:
            return ident.witness(b, replaced(b, nb, ok), kinds=("contrast",) * 3 + ident.KINDS)
        except Blowup:
            return None
    return None


def c22_case(be, fn, kws):
    r = []
    for kw in kws:
        o = run(sc(be, fn, norm=True, **kw))
        t = "own signals only: " + o.s.key()
        nb = kw.get("nb", 1)
        if not o.ok:
            r.append(ob(t, UND, status(o)))
            continue
        for n, nm, b, ix in metric_bodies(o):
            tn = "%s: %s" % (t, nm)
            if b is None:
                r.append(ob(tn, UND, "result not recognised"))
                continue
            i, j = (ix[nb], ix[-1])
            ok = {"ref": i if nm == "sdr" else None, "est": j}
            a = other_channels(b, nb, ok)
            if a is None:
                r.append(ob(tn, OK if not b.unk else UND, "unknown parts"))
                continue
            if b.unk:
                r.append(ob(tn, UND, "unknown parts"))
                continue
            try:
                q = replaced(b, nb, ok)
            except Blowup:
                r.append(ob(tn, UND, "size"))
                continue
            w = ident.witness(b, q)
            if not (isinstance(w, str) and w != "same"):
                w = contrast_witness(be, fn, kw, nb, nm)
            if isinstance(w, str) and w != "same":
                r.append(ob(tn, BAD, "depends on %s, the data of another %s" % (
                    tm.show_atom(a, 3)[:80], "estimate" if a.attrs[0] == "est" else "reference"), drive_entry(o)))
            else:
                r.append(ob(tn, UND, "accesses another channel"))
        if kw.get("perm"):
            continue
        # the order of the other references
    return r


def reflected(p, size):
    """the same term with every summation or system over this range run backwards"""
    memo = {}

    def f(a):
        if a.op == "lsa":
            return None
        if a.op == "def":
            return map_atoms(def_body(a), f)
        if a.op not in ("sum", "solve", "inv") or not any(not (v.args[0] - size).terms for v in a.bvars):
            return None
        nb, bs = tm.open_atom(a)
        sub = {v: size - 1 - atom1(v) for v in nb if not (v.args[0] - size).terms}
        bs = tuple(subst(map_atoms(b, f), sub) for b in bs)
        args = [map_atoms(x, f) for x in a.args]
        if a.op == "solve":
            n = a.attrs[0]
            args = [size - 1 - x if nb[n + k] in sub else x for k, x in enumerate(args)]
        elif a.op == "inv":
            return None
        return tm.rebuild(a.op, a.attrs, nb, bs, tuple(args))
    return map_atoms(p, f)


def c22_order(be, fn, kws):
    """reversing the order of the references (or estimates) reverses the pairwise metrics"""
    r = []
    for kw in kws:
        nb = kw.get("nb", 1)
        o = run(sc(be, fn, norm=True, **kw))
        if not o.ok:
            r.append(ob("order: " + o.s.key(), UND, status(o)))
            continue
        for which in ("ref", "est"):
            size = o.R if which == "ref" else o.E

            def mk(name, vs, body, which=which):
                if name != which:
                    return body
                v = vs[nb]
                return subst(body, {v: P(v.args[0]) - 1 - atom1(v)})
            p = run(sc(be, fn, norm=True, tag="c22" + which, inputs=mk, **kw))
            t = "order of the %ss: %s" % (which, o.s.key())
            if not p.ok:
                r.append(ob(t, UND, status(p)))
                continue
            fb = {n: (b, ix) for n, nm, b, ix in metric_bodies(p)}
            for n, nm, b, ix in metric_bodies(o):
                b2, ix2 = fb.get(n, (None, None))
                tn = "%s: %s" % (t, nm)
                if b is None or b2 is None:
                    r.append(ob(tn, UND, "result not recognised"))
                    continue
                tgt = list(ix)
                pos = nb if which == "ref" else len(ix) - 1
                tgt[pos] = size - 1 - ix[pos]
                if fn in ("sdr_loss", "si_sdr_loss") or len(ix) == nb + 1:
                    continue
                b2 = same_indices(b2, tgt, ix2)
                c = compare(b, b2)
                if c.k != EQ:
                    try:
                        d = compare(b, reflected(b2, size))
                        c = d if d.k == EQ else c
                    except Blowup:
                        pass
                r.append(res(tn, c, drive_entry(o)))
    return r


def c22_jobs(tier):
    cs, od = [], []
    it = {"use_cg_iter": "iter"}
    for be in EITHER:
        for fn in ("bss_eval_sources", "pairwise_sdr_loss", "sdr", "sdr_pit_loss", "sdr_loss", "si_bss_eval_sources", "pairwise_si_sdr_loss", "si_sdr"):
            sets = [{}, {"zero_mean": True}, {"clamp_db": "param"}]
            if fn in CORE or fn == "si_bss_eval_sources":
                sets += [{"load_diag": "param"}]
            if fn in CORE:
                sets += [it, dict(it, load_diag="param")]
            if "bss_eval" in fn:
                sets += [{"compute_permutation": False}]
            for o in sets:
                cs.append((be, fn, mod(dict(opts=o))))
            if unequal(fn, {}):
                for ch in ("LT", "GT"):
                    cs.append((be, fn, dict(chan=ch, nb=0)))
                    if fn in CORE:
                        cs.append((be, fn, mod(dict(opts=it, chan=ch, nb=0))))
            if fn in CORE:
                cs.append((be, fn, dict(filt=1)))
            if fn.startswith("pairwise") or fn == "bss_eval_sources" or fn == "si_bss_eval_sources":
                od.append((be, fn, dict(nb=0)))
                if tier == "thorough":
                    od.append((be, fn, dict(nb=0, chan="LT")))
                    od.append((be, fn, dict(nb=0, chan="GT")))
        # the iterative solver itself
        cs.append((be, "pairwise_sdr_loss", dict(opts=it)))
    from .solver import item_jobs
    return chunked("c22_case", cs, 3) + chunked("c22_order", od, 1) + item_jobs("column", tier)


check("C22", "the term of an SDR reads only its own reference and estimate, that of a SIR or SAR only its own estimate, through the solvers "
      "included (one column of a system solved alone has the same term); reversing the channel order reverses the pairwise terms", c22_jobs)


# ---------------------------------------------------------------------- C26
def c26_case(be, fn, kws):
    """the squared cosines of SDR, SIR and SAR of one pair: sdr = sir * sar, same range, same decibel map"""
    r = []
    for kw in kws:
        if fn == "si_bss_eval_sources" and kw.get("chan") in ("R1", "11") and kw.get("opts", {}).get("load_diag") is not None:
            continue
        o = run(sc(be, fn, norm=True, **kw))
        t = "squared cosine of SDR = SIR * SAR: " + o.s.key()
        if not o.ok:
            b = bad_status(t, o)
            if b:
                r += [dict(x, k=UND) for x in b]
            continue
        got = {nm: (b, ix) for n, nm, b, ix in metric_bodies(o)}
        if any(got.get(n, (None, None))[0] is None for n in ("sdr", "sir", "sar")):
            r.append(ob(t, UND, "results not recognised"))
            continue
        ix = got["sdr"][1]
        bd, cs = {}, {}
        for n in ("sdr", "sir", "sar"):
            b, jx = got[n]
            if len(jx) != len(ix):
                break
            bd[n] = same_indices(b, ix, jx)
            cs[n] = outer_clamp(bd[n])
        if len(cs) < 3:
            r.append(ob(t, UND, "results of different rank"))
            continue
        a = cs["sdr"]
        if a is None:
            # no dependence on the signals left (the range is a single point): the three values must coincide
            if all(as_const(bd[n]) is not None for n in bd):
                same = all(as_const(bd[n]) == as_const(bd["sdr"]) for n in bd)
                r.append(ob(t, OK if same else BAD, "" if same else "an empty range gives different constants: %s" % {n: str(bd[n])[:40] for n in bd}))
            else:
                r.append(ob(t, UND, "confinement of the squared cosine of the SDR not recognised"))
            continue
        t2 = "same decibel map and range for SDR, SIR and SAR: " + o.s.key()
        bad = und = None
        x = {"sdr": a.x}
        for n in ("sir", "sar"):
            b = cs[n]
            if b is None:
                # a squared cosine equal to one: the confined and converted value of one
                x[n] = tm.const(1)
                v = tm.const(1)
                if a.lo is not None:
                    v = tm.mk_max([v, a.lo])
                if a.hi is not None:
                    v = tm.mk_min([v, a.hi])
                one = map_atoms(a.M, lambda z: v if z is as_atom(a.t) else None)
                k = compare(one, bd[n])
                if k.k == DIFF:
                    bad = bad or n
                elif k.k != EQ:
                    und = n
                continue
            x[n] = b.x
            k = compare(a.M, b.M)
            if k.k == DIFF:
                bad = bad or n
            elif k.k != EQ:
                und = n
            for w in ("lo", "hi"):
                p, q = getattr(a, w), getattr(b, w)
                if w == "lo":
                    p = tm.const(0) if p is None and tm._val_ge(a.x, tm.ZERO) else p
                    q = tm.const(0) if q is None and tm._val_ge(b.x, tm.ZERO) else q
                if p is None or q is None:
                    if p is not q:
                        und = n
                elif (p - q).terms:
                    if as_const(p - q) is not None or compare(p, q).k == DIFF:
                        bad = bad or n
                    else:
                        und = n
        c = compare(x["sdr"], pmul(x["sir"], x["sar"]))
        r.append(res(t, c))
        r.append(ob(t2, BAD if bad else UND if und else OK, "the %s is confined or converted differently from the SDR" % (bad or und).upper()
                    if bad or und else ""))
    return r


def c26_jobs(tier):
    # (the scale-invariant SDR is never loaded; with one reference its SIR is one by definition while the SAR is loaded)
    return chunked("c26_case", [(be, fn, k) for be in EITHER for fn in ("bss_eval_sources", "si_bss_eval_sources")
                                for k in metric_contexts(fn, tier)], 3)


check("C26", "the squared cosine extracted from each SDR term equals the product of those of the SIR and SAR terms of the same pair, for both "
      "solvers, loading, clamping and any filter length, and the three are confined to the same range and mapped by the same function", c26_jobs)
