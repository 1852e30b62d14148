"""Runs the abstract interpreter on entry points of /repo under a given context."""
import sys
from .term import *          # noqa
from . import term as tm
from .values import *        # noqa
from . import interp as ip
from .interp import Interp, Env, Dead, Budget, State
from . import lib

PKG = "fast_bss_eval"
sys.setrecursionlimit(20000)


class Out:
    """result of one analysed call"""
    def __init__(self):
        self.value = None
        self.I = None
        self.raises = []
        self.events = []
        self.ok = True
        self.why = None


def fresh_ctx(bounds):
    """bounds: list of (symbol name, lower bound int) or (symbol name, Poly)"""
    c = tm.Ctx()
    tm.set_ctx(c)
    syms = {}
    for n, lo in bounds:
        if isinstance(lo, int):
            if lo > 0 or lo == 0:
                c.declare(sym(n), slk("s_" + n) + lo)
            syms[n] = sym(n)
        else:
            c.declare(sym(n), lo)
            syms[n] = sym(n)
    return syms


def input_array(I, name, sizes, dtype, be, dev=None, grad=True, origin=None):
    axes = [I.mk_axis(P(s)) for s in sizes]
    idx = []
    for ax in axes:
        idx.append(atom1(ax[0]) if ax else ZERO)
    body = acc(name, idx)
    a = I.fresh(axes, body, dtype, dev or ("np" if be == "np" else "dev"), grad and be == "pt", frozenset(), be, origin={(origin or name): ONE})
    s = I.st.heap[a.sid]
    I.st.heap[a.sid] = s.repl(req=True)
    return a


def load(env, mods):
    """interpreter with modules imported"""
    I = Interp(env)
    for m in mods:
        I.import_module(m)
    I.boundary = I.nid
    return I


def find(I, mod, name):
    m = I.modules.get(mod)
    if m is None:
        return None
    v = I.st.heap[m.hid].get(name, UNDEF)
    return None if v is UNDEF else v


def call(I, f, args, kw):
    o = Out()
    o.I = I
    I.raise_sink = []
    fr = None
    try:
        o.value = I.call(f, list(args), dict(kw))
    except Dead:
        o.ok = False
        o.why = "always raises"
    except Budget:
        o.ok = False
        o.why = "budget"
    except Blowup as ex:
        o.ok = False
        o.why = "expression too large"
    o.raises = I.raise_sink
    o.events = I.events
    return o
