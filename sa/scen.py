"""Entry points, contexts (sizes, options, dtypes) and the runs the properties are decided on."""
import time
from .drive import *          # noqa
from . import drive, lib
from . import term as tm
from .interp import Env

LSA = "fast_bss_eval.torch.hungarian.linear_sum_assignment"

FULL = ("bss_eval_sources", "sdr", "sdr_loss", "sdr_pit_loss", "pairwise_sdr_loss",
        "si_bss_eval_sources", "si_sdr", "si_sdr_loss", "si_sdr_pit_loss", "pairwise_si_sdr_loss")
TOP = ("bss_eval_sources", "sdr", "sdr_loss", "sdr_pit_loss",
       "si_bss_eval_sources", "si_sdr", "si_sdr_loss", "si_sdr_pit_loss")
EST_FIRST = ("sdr_loss", "sdr_pit_loss", "pairwise_sdr_loss",
             "si_sdr_loss", "si_sdr_pit_loss", "pairwise_si_sdr_loss")
CORE = ("bss_eval_sources", "sdr", "sdr_loss", "sdr_pit_loss", "pairwise_sdr_loss")
SI = ("si_bss_eval_sources", "si_sdr", "si_sdr_loss", "si_sdr_pit_loss", "pairwise_si_sdr_loss")
PERMUTING = ("bss_eval_sources", "sdr", "sdr_pit_loss", "si_bss_eval_sources", "si_sdr", "si_sdr_pit_loss")
RET_PERM = ("sdr", "si_sdr")


class Sc(dict):
    """a scenario: be fn nb chan len filt opts dtype default_dtype"""
    def key(self):
        o = self["opts"]
        return "%s.%s[batch=%d chan=%s time=%s L=%s %s dtype=%s/%s]" % (
            self["be"], self["fn"], self["nb"], self["chan"], self["time"], self["filt"],
            ",".join("%s=%s" % (k, o[k]) for k in sorted(o)) + ("" if self.get("grad", True) else " nograd"), self["dtype"], self["dd"])


def sc(be, fn, nb=1, chan="EQ", time="long", filt="sym", opts=None, dtype="f32", dd="f32", dev="dev", **kw):
    s = Sc(be=be, fn=fn, nb=nb, chan=chan, time=time, filt=filt, opts=dict(opts or {}), dtype=dtype, dd=dd, dev=dev)
    s.update(kw)
    if be == "np":
        s.pop("grad", None)
    return s


def bounds_of(s):
    """size symbols of a scenario"""
    b = [("B%d" % i, 2) for i in range(s["nb"])]
    c = s["chan"]
    if c == "EQ":
        b += [("R", 2)]
    elif c == "LT":
        b += [("R", 2), ("E", sym("R") + slk("s_E") + 1)]
    elif c == "GT":
        b += [("E", 2), ("R", sym("E") + slk("s_R") + 1)]
    elif c == "R1":
        b += [("E", 2)]
    elif c == "E1":
        b += [("R", 2)]
    f = s["filt"]
    if f == "sym":
        b += [("L", 2)]
        L = sym("L")
    elif f == "even":
        b += [("l", 1)]
        L = sym("l") * 2
    elif f == "odd":
        b += [("l", 1)]
        L = sym("l") * 2 + 1
    else:
        L = P(f)
    if s["time"] == "long":
        b += [("T", L + slk("s_T"))]
    elif s["time"] == "short":      # fewer samples than taps
        if f == "sym":
            b = [x for x in b if x[0] != "L"] + [("T", 2), ("L", sym("T") + slk("s_L") + 1)]
        else:
            b += [("T", 2)]
    else:
        b += [("T", 2)]
    return b


def sizes_of(s, syms):
    c = s["chan"]
    R = {"R1": ONE, "11": ONE}.get(c)
    E = {"E1": ONE, "11": ONE}.get(c)
    if R is None:
        R = syms["R"]
    if E is None:
        E = syms["R"] if c == "EQ" else syms["E"]
    f = s["filt"]
    L = {"sym": lambda: syms["L"], "even": lambda: syms["l"] * 2, "odd": lambda: syms["l"] * 2 + 1}.get(f, lambda: P(f))()
    B = [syms["B%d" % i] for i in range(s["nb"])]
    return R, E, L, syms["T"], B


def opt_value(k, v):
    if isinstance(v, str):
        if v == "param":
            return Num(param(k), "float")
        if v == "iter":
            return Num(sym("n_iter"), "int")
    if isinstance(v, bool) or v is None:
        return v
    if isinstance(v, int):
        return v
    return v


_CACHE = {}
RUNS = []      # (context, functions analysed, unmodelled constructs, statements)


def run(s, top=False, summaries=True, grad=True, keep=True):
    """analyse one scenario; returns Out with .s .R .E .L .T .B .ref .est"""
    grad = grad and s.get("grad", True)
    k = (s.key(), s["dev"], top, summaries, grad, s.get("tag"), s.get("norm", False), s.get("modular", False))
    tm.ASSUME_NORM[0] = bool(s.get("norm", False))
    if keep and k in _CACHE:
        o = _CACHE[k]
        tm.set_ctx(o.ctx)
        return o
    b = bounds_of(s)
    if any(v == "iter" for v in s["opts"].values()):
        b = b + [("n_iter", 1)]
    syms = fresh_ctx(b)
    ctx = tm.CTX[0]
    env = Env(default_dtype=s["dd"], missing=s.get("missing", ()))
    env.prec = {"f16": 16, "bf16": 16, "f32": 32, "f64": 64}.get(s["dtype"])
    if summaries:
        env.summaries[LSA] = lib.lsa_summary
    if s.get("modular"):
        from . import cg
        for q in cg.QUALS:
            env.summaries[q] = cg.summary
    I = load(env, ["fast_bss_eval"])
    be = s["be"]
    mod = "fast_bss_eval" if top else "fast_bss_eval." + ("numpy" if be == "np" else "torch")
    f = find(I, mod, s["fn"])
    R, E, L, T, B = sizes_of(s, syms)
    t0 = time.time()
    if f is None:
        o = Out()
        o.I = I
        o.ok = False
        o.why = "missing"
    else:
        mk = s.get("inputs")
        x = input_array(I, "ref", B + ([] if s.get("flat") else [R]) + [T], s["dtype"], be, dev=s["dev"] if be == "pt" else None, grad=grad)
        y = input_array(I, "est", B + ([] if s.get("flat") else [E]) + [T], s["dtype"], be, dev=s["dev"] if be == "pt" else None, grad=grad)
        if mk is not None:
            for nm, a in (("ref", x), ("est", y)):
                st = I.st.heap[a.sid]
                I.st.heap[a.sid] = st.repl(_b=mk(nm, st.vars, st.body))
        kw = {}
        if s["fn"] in CORE:
            kw["filter_length"] = int(tm.as_int(L)) if tm.as_int(L) is not None else Num(L, "int")
        for ok, ov in s["opts"].items():
            kw[ok] = opt_value(ok, ov)
        args = [y, x] if s["fn"] in EST_FIRST else [x, y]
        o = call(I, f, args, kw)
        o.ref, o.est = x, y
    o.s, o.R, o.E, o.L, o.T, o.B, o.ctx = s, R, E, L, T, B, ctx
    o.wall = time.time() - t0
    RUNS.append((s.key(), frozenset(getattr(o.I, "funcs_seen", ())), dict(o.I.unknown), getattr(o.I, "steps", 0)))
    if keep:
        _CACHE[k] = o
    return o


def outs(o):
    """the returned arrays as a flat tuple"""
    v = o.value
    if isinstance(v, ListV):
        v = tuple(o.I.st.heap.get(v.hid, [])) if isinstance(o.I.st.heap.get(v.hid), list) else (v,)
    if not isinstance(v, (tuple, list)):
        v = (v,)
    return tuple(o.I.eff(x) if isinstance(x, ArrV) else x for x in v)


def expand(o, v):
    """(axis variables, body) of a returned array over fresh index variables"""
    axes, body = o.I.refresh(v)
    return axes, body


def matrix(fns=TOP, bes=("np", "pt"), **fix):
    pass
