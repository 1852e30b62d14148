"""The properties: which contexts are analysed and what must hold in each."""
from .base import *          # noqa
from . import base, spec

ASSUMPTIONS = [
    "documented semantics of the numpy / torch / scipy functions used (summaries in sa/lib.py, sa/libarr.py)",
    "real arithmetic (rounding is out of scope); an undecided comparison is not an alarm",
]
from .reg import CHECKS, check          # noqa
from .mcommon import *          # noqa


# ---------------------------------------------------------------------- C01
def c01_pair(fn, kw):
    kw = {k: v for k, v in kw.items() if k != "grad"}
    a = run(sc("np", fn, **kw))
    b = run(sc("pt", fn, **kw))
    if a.why == "missing" or b.why == "missing":
        if a.why == b.why:
            return []
        return [ob("%s exists in both backends" % fn, BAD, "missing in one backend", drive_entry(a))]
    r = same_outcome("numpy = torch: " + a.s.key(), a, b)
    if not kw.get("opts") or kw.get("dtype") == "f64":
        c = run(sc("pt", fn, **kw), grad=False)
        r += same_outcome("torch without gradient = torch: " + a.s.key(), c, b, ca="no gradient", cb="gradient")
    return r


def sig_of(f):
    """[(name, default)] of an interpreted function"""
    from .interp import Func
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    d = list(f.defaults or ())
    out = []
    for i, n in enumerate(names):
        k = i - (len(names) - len(d))
        out.append((n, defval(d[k]) if k >= 0 else "required"))
    if a.vararg:
        out.append(("*" + a.vararg.arg, ""))
    for x in a.kwonlyargs:
        v = (f.kwdefaults or {}).get(x.arg, "required")
        out.append(("kw " + x.arg, defval(v) if v != "required" else v))
    if a.kwarg:
        out.append(("**" + a.kwarg.arg, ""))
    return out


def defval(v):
    if isinstance(v, Num):
        return "%s" % show(v.p)
    return repr(v)


def c01_signatures():
    syms = fresh_ctx([])
    I = load(Env(), ["fast_bss_eval"])
    r = []
    for fn in FULL:
        f, g = find(I, "fast_bss_eval.numpy", fn), find(I, "fast_bss_eval.torch", fn)
        nm = "signature of %s" % fn
        if f is None or g is None:
            if f is None and g is None:
                continue
            r.append(ob(nm, BAD, "exists only in one backend", "fast_bss_eval." + ("torch" if f is None else "numpy")))
            continue
        if not (isinstance(f, Func) and isinstance(g, Func)):
            r.append(ob(nm, UND, "not a plain function"))
            continue
        s, t = sig_of(f), sig_of(g)
        if s == t:
            r.append(ob(nm, OK))
        elif any(n.startswith("*") for n, _ in s + t):
            r.append(ob(nm, UND, "variadic"))
        else:
            r.append(ob(nm, BAD, "numpy %s, torch %s" % ([x for x in s if x not in t] or s, [x for x in t if x not in s] or t), f.qual))
    return r


def c01_jobs(tier):
    j = [("c01_signatures", ())]
    deep = tier == "thorough"
    for fn in FULL:
        for o in opt_sets(fn, True) + const_opts(fn):
            j.append(("c01_pair", (fn, dict(opts=o))))
            if unequal(fn, o) and (deep or not o):
                for ch in ("LT", "GT"):
                    j.append(("c01_pair", (fn, dict(opts=o, chan=ch, nb=0 if not deep else 1))))
        if not deep and unequal(fn, {}):
            pass
        if fn in CORE:
            for o in ({}, {"load_diag": "param"}, {"use_cg_iter": "iter"}):
                j.append(("c01_pair", (fn, dict(filt=1, opts=o))))
            j.append(("c01_pair", (fn, dict(time="short"))))
            j.append(("c01_pair", (fn, dict(nb=0, opts={"use_cg_iter": 0}))))
        for nb in (0, 2):
            j.append(("c01_pair", (fn, dict(nb=nb))))
        if not unequal(fn, {}):
            j.append(("c01_pair", (fn, dict(chan="LT", nb=0))))
        for o in const_opts(fn):
            if not unequal(fn, o):
                j.append(("c01_pair", (fn, dict(chan="LT", nb=0, opts=o))))
        mine = [x[1][1] for x in j if x[0] == "c01_pair" and x[1][0] == fn]
        j += [("c01_pair", (fn, k)) for k in widen(fn, mine) if k not in mine]
    return j


check("C01", "for every public function and option set, the terms of the results extracted from the NumPy and from the "
      "PyTorch implementation have the same normal form, and both reject inputs under the same conditions", c01_jobs)


# ---------------------------------------------------------------------- C02
def c02_case(be, fn, kw):
    return spec_compare("metric = projection definition", run(sc(be, fn, norm=True, **kw)))


def c02_jobs(tier):
    j = []
    for be in ("np", "pt"):
        for fn in FULL:
            ol = [{}] + const_opts(fn)
            for o in ol:
                j.append(("c02_case", (be, fn, dict(opts=o))))
                if unequal(fn, o):
                    for ch in ("LT", "GT"):
                        j.append(("c02_case", (be, fn, dict(opts=o, chan=ch, nb=0))))
            if unequal(fn, {}):
                for ch in ("R1", "E1"):
                    j.append(("c02_case", (be, fn, dict(chan=ch, nb=0))))
            j.append(("c02_case", (be, fn, dict(chan="11", nb=0))))
            if fn in CORE:
                for o in ol:
                    j.append(("c02_case", (be, fn, dict(opts=o, filt=1))))
                    j.append(("c02_case", (be, fn, dict(opts=o, time="short"))))
                for f in (2, 3):
                    j.append(("c02_case", (be, fn, dict(filt=f, nb=0, time="any"))))
            mine = [x[1][2] for x in j if x[1][:2] == (be, fn)]
            j += [("c02_case", (be, fn, k)) for k in widen(fn, mine) if k not in mine]
            if tier == "thorough":
                for nb in (0, 2, 3):
                    j.append(("c02_case", (be, fn, dict(nb=nb))))
                if fn in CORE:
                    for f in ("even", "odd", 4, 5, 6, 7, 8):
                        j.append(("c02_case", (be, fn, dict(filt=f, nb=0))))
    return j


check("C02", "the term of every returned metric equals the term of its bss_eval definition built from the normal equations "
      "of the shifted references (clamps to [0,1] and norms above 1e-6 set aside)", c02_jobs)


from .flow import *          # noqa
from .metric import *          # noqa
from .solver import *          # noqa
from .munkres import *          # noqa
