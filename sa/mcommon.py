"""Result terms as functions of their reference and estimate; comparison with the definition."""
from .base import *          # noqa
from . import base, spec


def lsa_atoms(*ps):
    d = {}
    for p in ps:
        for a in walk_atoms(p).values():
            if a.op == "lsa":
                d[a.id] = a
    return list(d.values())


def dim_var(n):
    return ZERO if as_int(n) == 1 else atom1(ivar(n))


def abstract_matching(o, v):
    """(M, batch indices, i, j): the metric returned in v as a function of its reference i and estimate j,
    whatever the matching; M None when the matching is not recognised; last item True when it does not occur"""
    axes, body = o.I.refresh(v)
    last = axes[-1]
    k = atom1(last[0]) if last else ZERO
    bat = [(atom1(ax[0]) if ax else ZERO) for ax in axes[:-1]]
    i, j = dim_var(o.R), dim_var(o.E)
    gt = nonneg(o.R - o.E - 1)
    sel = selectors(body)
    cols = [a for a in sel if a.attrs[0] == "col"]
    if len(cols) != len(sel) or len(cols) > 1:
        return None, bat, i, j, False
    if cols:
        a = cols[0]
        if len(a.args) != 1 or a.args[0] is not k:
            return None, bat, i, j, False

        def f(x):
            if x is a:
                return i if gt else j
            if x.op == "def":
                return map_atoms(def_body(x), f)
            return None
        body = map_atoms(body, f)
    if last:
        body = subst(body, {last[0]: j if gt else i})
    return body, bat, i, j, not cols


def selectors(p):
    """lsa atoms occurring in p outside of other lsa atoms"""
    seen, out = set(), {}

    def goP(q):
        if q.id in seen:
            return
        seen.add(q.id)
        for m, c in q.terms:
            for a, e in m:
                goA(a)

    def goA(a):
        if a.id in seen:
            return
        seen.add(a.id)
        if a.op == "lsa":
            out[a.id] = a
            for x in a.args:
                goP(x)
            return
        if a.op == "def":
            goP(def_body(a))
        for b in a.bodies:
            goP(b)
        for x in a.args:
            if x is not None:
                goP(x)
    goP(p)
    return list(out.values())


NORM_FLOOR = const(Fraction(1, 10 ** 6))


def metric_spec(sp, name, i, j, clamp=None):
    """negative dB metric"""
    if name == "sdr":
        c = sp.cos_sdr(i, j)
    elif name == "sar":
        c = sp.cos_sar(j)
    else:
        c = pmul(sp.cos_sdr(i, j), ppow(sp.cos_sar(j), -1))
    return spec.neg_db(c)


LOSSES = ("sdr_loss", "sdr_pit_loss", "pairwise_sdr_loss", "si_sdr_loss", "si_sdr_pit_loss", "pairwise_si_sdr_loss")


def out_names(fn, opts):
    if "bss_eval" in fn:
        return ["sdr", "sir", "sar"] + (["perm"] if opts.get("compute_permutation", True) else [])
    return ["sdr"] + (["perm"] if opts.get("return_perm") else [])


def spec_compare(title, o, load=None, strip=True, load_one=None, transform=None):
    """each float result of o against the time-domain definition"""
    r = []
    s = o.s
    fn, opts = s["fn"], s["opts"]
    key = s.key()
    if not o.ok:
        if undecided(o) or o.I.unknown:
            return [ob("%s: %s" % (title, key), UND, status(o))]
        w = o.raises[-1][2] if o.raises else drive_entry(o)
        e = exc_of(o.raises[-1][1]) if o.raises else ""
        return [ob("%s: %s" % (title, key), BAD, "always raises %s" % e, w)]
    neg = (fn in LOSSES) or bool(opts.get("change_sign"))
    names = out_names(fn, opts)
    vs = outs(o)
    for n, nm in enumerate(names):
        if nm == "perm":
            continue
        t = "%s: %s: %s" % (title, nm, key)
        if n >= len(vs) or not isinstance(vs[n], ArrV):
            r.append(ob(t, UND, "unknown result"))
            continue
        v = vs[n]
        pairwise = fn.startswith("pairwise") or opts.get("pairwise")
        axes, body = o.I.refresh(v)
        nb = s["nb"]
        want = nb + (2 if pairwise else 1)
        if len(axes) != want or any(len(a) > 1 for a in axes):
            r.append(ob(t, UND, "result shape %s" % shape_str(v)))
            continue
        ix = [atom1(a[0]) if a else ZERO for a in axes]
        bat = ix[:nb]
        if pairwise:
            i, j = ix[nb], ix[nb + 1]
        elif fn in PERMUTING and opts.get("compute_permutation", True):
            body, bat, i, j, free = abstract_matching(o, v)
            if body is None:
                r.append(ob(t, UND, "matching not recognised"))
                continue
        else:
            i = j = ix[nb]
        if transform:
            body = transform(body)
        fl = None if s.get("norm") else NORM_FLOOR
        sp = spec.Spec(o, bat, load, floor=fl)
        if load is not None and sp.one and nm == "sdr":
            sp = spec.Spec(o, bat, None, floor=fl)
        if sp.one and load is not None and nm == "sir":
            s0 = spec.Spec(o, bat, None, floor=fl)
            want = spec.neg_db(pmul(s0.cos_sdr(i, j), ppow(sp.cos_sar(j), -1)))
        else:
            want = metric_spec(sp, nm, i, j)
        if not neg:
            want = -want
        if strip:
            body = spec.strip_clamps(body)
            want = spec.strip_clamps(want)
        r.append(res(t, compare(body, want), drive_entry(o)))
    return r


