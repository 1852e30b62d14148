"""C16: the assignment routine of the torch backend.

Every step of the state machine is interpreted once on an opaque state (the
attributes of the state object hold arbitrary values), its effect is one term
per attribute plus the next step.  The terms are compared with those of the
reference steps; terms that differ are evaluated over states met by a small
Munkres model kept here, and the conditions that make the step sound for the
algorithm (stars on zeros and independent, primes, covers, dual changes) are
checked on the values of the terms.
"""
import random
import time
from fractions import Fraction

from .base import *          # noqa
from . import base, drive, ident, unify
from . import term as tm
from .libarr import mk_count
from .interp import Env
from .values import *        # noqa
from .reg import check

MOD = "fast_bss_eval.torch.hungarian"
SPEC = "sa_specs.hungarian_pt"
BOOLS = ("row_uncovered", "col_uncovered")
ARRAYS = ("C", "row_uncovered", "col_uncovered", "marked")
STEPS = ("_step1", "_step3", "_step4", "_step5", "_step6")
# passes followed through the while / for loops of the two searching steps
PASSES = {"_step1": (None,), "_step3": ((4, 4),), "_step4": ((2, 3), (3, 4), (5, 5)), "_step5": ((2, 3), (3, 5), (4, 7)), "_step6": ((4, 4),)}


def nonzero(I, a, as_tuple):
    """positions of the non-zero entries, in row-major order"""
    ax, body = I.refresh(I.eff(a))
    if any(len(x) > 1 for x in ax) or body.unk:
        return I.top("nonzero")
    vs = [x[0] if x else ivar(ONE) for x in ax]
    if a.dtype != "bool":
        body = ONE - eq0(body)
    n = mk_count(vs, body)
    if as_tuple or a.be == "np":
        out = []
        for d in range(len(vs)):
            k = I.mk_axis(n)
            out.append(I.fresh([k], tm.mk_nz(d, vs, body, atom1(k[0]) if k else ZERO), "i64", a.dev, False, a.taint, a.be))
        return tuple(out)
    k, c = I.mk_axis(n), I.mk_axis(const(len(vs)))
    kk, cc = (atom1(k[0]) if k else ZERO), (atom1(c[0]) if c else ZERO)
    b = ZERO
    for d in range(len(vs)):
        b = b + pmul(delta(cc - d), tm.mk_nz(d, vs, body, kk))
    return I.fresh([k, c], b, "i64", a.dev, False, a.taint, a.be)


class St:
    pass


def machine(wide=True):
    syms = fresh_ctx([("N", 2), ("M", sym("N") + slk("s_M"))])
    env = Env(default_dtype="f32")
    env.nonzero = nonzero
    I = drive.load(env, ["fast_bss_eval", MOD, SPEC])
    s = St()
    s.I, s.N, s.M = I, syms["N"], syms["M"]
    s.cls = drive.find(I, MOD, "_Hungary")
    s.cost = drive.input_array(I, "cost", [s.N, s.M], "f64", "pt", grad=False)
    return s


def opaque(s):
    """a state object whose attributes hold arbitrary values of the shapes the constructor gives them; None if not recognised"""
    I = s.I
    if s.cls is None:
        return None
    obj = I.call(s.cls, [s.cost], {})
    if not isinstance(obj, Inst):
        return None
    d = dict(I.st.heap[obj.hid])
    want = {"C": (s.N, s.M), "row_uncovered": (s.N,), "col_uncovered": (s.M,), "marked": (s.N, s.M)}
    for n, sh in want.items():
        v = d.get(n)
        if not isinstance(v, ArrV) or v.ndim != len(sh) or any((x - y).terms for x, y in zip(v.shape(), sh)):
            return None
        if (n in BOOLS) != (v.dtype == "bool"):
            return None
    for n, v in list(d.items()):
        if isinstance(v, ArrV):
            a = drive.input_array(I, "s." + n, v.shape(), v.dtype, "pt", grad=False)
            if v.dtype == "bool":
                z = I.st.heap[a.sid]
                I.st.heap[a.sid] = z.repl(_b=ONE - eq0(z.body))
            d[n] = a
        elif isinstance(v, int) and not isinstance(v, bool) or isinstance(v, Num) and v.kind == "int":
            d[n] = Num(acc("s." + n, []), "int")
    I.st.heap[obj.hid] = d
    return obj


def effect(s, f, passes):
    """run one step; -> namespace with the value of every attribute, next step and raising paths"""
    I = s.I
    obj = opaque(s)
    r = St()
    if obj is None:
        r.ok, r.why = False, "state attributes not recognised"
        return r
    I.unknown.clear()
    I.env.unroll, I.env.unroll_for, I.env.cut = (passes + ([],)) if passes else (0, 0, [])
    st0 = I.st.fork()
    n0 = len(I.events)
    o = drive.call(I, f, [obj], {})
    r.passes = passes
    r.ok, r.why, r.value, r.raises, r.cut = o.ok, o.why, o.value, list(o.raises), list(I.env.cut)
    r.events = I.events[n0:]
    r.at = {}
    if r.ok:
        for n, v in I.st.heap[obj.hid].items():
            if isinstance(v, ArrV):
                ax, b = I.refresh(v)
                r.at[n] = (tuple(x for z in ax for x in z), b)
            else:
                r.at[n] = ((), self_poly(I, v))
    r.unknown = dict(I.unknown)
    I.env.unroll = I.env.unroll_for = 0
    I.st = st0
    return r


def self_poly(I, v):
    if isinstance(v, PhiV):
        a, b = self_poly(I, v.a), self_poly(I, v.b)
        if a is None or b is None:
            return None
        return b + pmul(v.cond, a - b)
    if isinstance(v, ArrV):
        v = I.eff(v)
        return I.body(v) if all(as_int(ax_size(x)) == 1 for x in v.axes) and not I.refresh(v)[0] else \
            (subst(I.refresh(v)[1], {}) if not v.ndim else None)
    return to_poly(v)


def nexts(v):
    """leaves of the returned value: [(list of (cond, taken), name or None or '?')]"""
    if isinstance(v, PhiV):
        return [([(v.cond, True)] + c, n) for c, n in nexts(v.a)] + [([(v.cond, False)] + c, n) for c, n in nexts(v.b)]
    if v is None:
        return [([], None)]
    if isinstance(v, str):
        return [([], v)]
    if isinstance(v, Func):
        return [([], v.name)]
    return [([], "?")]


# ------------------------------------------------------------------ model
def _step4(S):
    n, m = len(S["C"]), len(S["C"][0])
    while True:
        z = [(i, j) for i in range(n) for j in range(m) if S["C"][i][j] == 0 and S["row_uncovered"][i] and S["col_uncovered"][j]]
        if not z:
            return "_step6"
        i, j = z[0]
        S["marked"][i][j] = 2
        st = [k for k in range(m) if S["marked"][i][k] == 1]
        if not st:
            S["Z0"] = (i, j)
            return "_step5"
        S["row_uncovered"][i], S["col_uncovered"][st[0]] = 0, 1


def _step5(S):
    n, m = len(S["C"]), len(S["C"][0])
    path = [S["Z0"]]
    while True:
        st = [i for i in range(n) if S["marked"][i][path[-1][1]] == 1]
        if not st:
            break
        path.append((st[0], path[-1][1]))
        pr = [j for j in range(m) if S["marked"][st[0]][j] == 2]
        path.append((st[0], pr[0]))
    for i, j in path:
        S["marked"][i][j] = 0 if S["marked"][i][j] == 1 else 1
    S["marked"] = [[0 if x == 2 else x for x in r] for r in S["marked"]]
    S["row_uncovered"], S["col_uncovered"] = [1] * n, [1] * m
    return "_step3"


def clone(S):
    return {k: [list(r) if isinstance(r, list) else r for r in v] if isinstance(v, list) else v for k, v in S.items()}


def trace(cost):
    """states before each step when the algorithm solves cost"""
    n, m = len(cost), len(cost[0])
    S = {"C": [list(r) for r in cost], "row_uncovered": [1] * n, "col_uncovered": [1] * m,
         "marked": [[0] * m for _ in range(n)], "Z0": (0, 0)}
    out = [("_step1", clone(S))]
    for r in S["C"]:
        k = min(r)
        r[:] = [x - k for x in r]
    for i in range(n):
        for j in range(m):
            if S["C"][i][j] == 0 and all(S["marked"][i][b] == 0 for b in range(m)) and all(S["marked"][a][j] == 0 for a in range(n)):
                S["marked"][i][j] = 1
    nx = "_step3"
    while nx is not None and len(out) < 60:
        out.append((nx, clone(S)))
        if nx == "_step3":
            S["col_uncovered"] = [0 if any(S["marked"][i][j] == 1 for i in range(n)) else 1 for j in range(m)]
            nx = "_step4" if sum(x == 1 for r in S["marked"] for x in r) < n else None
        elif nx == "_step4":
            nx = _step4(S)
        elif nx == "_step5":
            nx = _step5(S)
        else:
            k = min(S["C"][i][j] for i in range(n) for j in range(m) if S["row_uncovered"][i] and S["col_uncovered"][j])
            for i in range(n):
                for j in range(m):
                    S["C"][i][j] += (0 if S["row_uncovered"][i] else k) - (k if S["col_uncovered"][j] else 0)
            nx = "_step4"
    return out


_samples = {}


def samples(step, most=60):
    if not _samples:
        seen = set()
        for seed in range(520):
            r = random.Random(seed)
            n = r.choice((2, 2, 3, 3, 4)) if seed < 400 else r.choice((4, 5, 6))
            m = n + r.choice((0, 0, 1))
            hi = r.choice((1, 2, 3, 6))
            scale = r.choice((1, 1, 1, Fraction(1, 10 ** 5), 10 ** 5))
            near = Fraction(1, 10 ** 7) if seed % 5 == 0 else 0
            cost = [[r.randint(-hi, hi) * scale + r.randint(-2, 2) * near for _ in range(m)] for _ in range(n)]
            for st, S in trace(cost):
                k = (st, repr(sorted(S.items())))
                if k not in seen:
                    seen.add(k)
                    _samples.setdefault(st, []).append(S)
    r = random.Random(7)
    x = list(_samples.get(step, []))
    r.shuffle(x)
    return x[:most]


class Given(ident.Sample):
    """the opaque state holds the values of a given state"""

    def __init__(self, S, ctx):
        ident.Sample.__init__(self, 1, "exact", ctx)
        self.S = S
        self.nz0 = True

    def slack(self, name):
        n, m = len(self.S["C"]), len(self.S["C"][0])
        if name == "s_N":
            return n - 2
        if name == "s_M":
            return m - n
        return 0

    def acc(self, name, idx):
        v = self.S.get(name[2:], 0)
        if name == "s.Z0_r":
            v = self.S["Z0"][0]
        elif name == "s.Z0_c":
            v = self.S["Z0"][1]
        for i in idx:
            if not isinstance(v, list):
                break
            v = v[int(i)] if 0 <= int(i) < len(v) else 0
        return Fraction(v if not isinstance(v, list) else 0)


def after(r, S, ctx, limit=3.0):
    """attribute values after the step from state S, or None when its loops run longer than followed"""
    E = ident.Ev(Given(S, ctx), limit)
    for c in r.cut:
        if E.ev(c, {}) != 0:
            return {"cut": True} if r.passes and r.passes[0] > len(S["C"]) + 1 and r.passes[1] > 2 * len(S["C"]) else None
    n, m = len(S["C"]), len(S["C"][0])
    out = {}
    for st, exc, loc in r.raises:
        pc = ONE
        for c in st.pc:
            pc = pmul(pc, c)
        if E.ev(pc, {}) != 0:
            return {"raise": (exc_of(exc), loc)}
    for cs, name in nexts(r.value):
        if all((E.ev(c, {}) != 0) == t for c, t in cs):
            out["next"] = name
            break
    if out.get("next", "?") == "?":
        raise ident.Cannot("next step")
    for k in ARRAYS:
        vs, b = r.at[k]
        if len(vs) == 1:
            out[k] = [E.ev(b, {vs[0]: i}) for i in range(n if k == "row_uncovered" else m)]
        elif len(vs) == 2:
            out[k] = [[E.ev(b, {vs[0]: i, vs[1]: j}) for j in range(m)] for i in range(n)]
        else:
            raise ident.Cannot("axes")
    if out["next"] == "_step5" and "Z0_r" in r.at and "Z0_c" in r.at:
        a, b = r.at["Z0_r"][1], r.at["Z0_c"][1]
        if a is None or b is None:
            raise ident.Cannot("Z0")
        out["Z0"] = (int(E.ev(a, {})), int(E.ev(b, {})))
    return out


# ------------------------------------------------------------- conditions
def stars(S):
    return [(i, j) for i, r in enumerate(S["marked"]) for j, x in enumerate(r) if x == 1]


def primes(S):
    return [(i, j) for i, r in enumerate(S["marked"]) for j, x in enumerate(r) if x == 2]


def independent(S):
    st = stars(S)
    if len({i for i, j in st}) < len(st) or len({j for i, j in st}) < len(st):
        return "two starred zeros share a row or a column"
    for i, j in st:
        if S["C"][i][j] != 0:
            return "a cell that is not zero is starred"


def covers(S):
    """column of a star covered unless its row is covered (then primed)"""
    st = {i: j for i, j in stars(S)}
    pr = {i for i, j in primes(S)}
    for i, u in enumerate(S["row_uncovered"]):
        if not u and (i not in st or i not in pr):
            return "a row is covered that has no starred and primed zero"
    for j, u in enumerate(S["col_uncovered"]):
        own = [i for i in st if st[i] == j]
        if not u and not own:
            return "a column without a starred zero is covered"
        if own and bool(u) == bool(S["row_uncovered"][own[0]]):
            return "a starred zero is covered twice or not at all"


def unchanged(S, T, *ks):
    for k in ks:
        if S[k] != T[k]:
            return "%s changes" % {"C": "the cost", "marked": "the marks"}.get(k, "the cover")


def duals(S, T):
    """the costs differ by a constant per row and per column, none for columns when there are more columns than rows"""
    n, m = len(S["C"]), len(S["C"][0])
    D = [[T["C"][i][j] - S["C"][i][j] for j in range(m)] for i in range(n)]
    for i in range(n):
        for j in range(m):
            if D[i][j] - D[i][0] != D[0][j] - D[0][0]:
                return "the cost changes by something else than constants per row and column"
    if any(x < 0 for r in T["C"] for x in r):
        return "a reduced cost becomes negative"
    return None


def sound(step, S, T):
    """reason why going from S to T is not a step of the algorithm, or None"""
    if "raise" in T:
        return "raises %s" % (T["raise"][0],)
    n, m = len(S["C"]), len(S["C"][0])
    all1 = all(T["row_uncovered"]) and all(T["col_uncovered"])
    if any(x not in (0, 1, 2) for r in T["marked"] for x in r):
        return "marks other than star and prime"
    if step == "_step1":
        for i in range(n):
            if n < m and any(T["C"][i][j] - S["C"][i][j] != T["C"][i][0] - S["C"][i][0] for j in range(m)):
                return "the first reduction subtracts different values within one row"
        w = duals(S, T)
        if w:
            return w
        if any(min(r) != 0 for r in T["C"]):
            return "a row has no zero after the reduction"
        return independent(T) or ("primes" if primes(T) else None) or (None if all1 else "lines stay covered") \
            or (None if T["next"] == "_step3" else "next step is %s" % T["next"])
    if step == "_step3":
        w = unchanged(S, T, "C", "marked", "row_uncovered")
        if w:
            return w
        st = stars(S)
        for j in range(m):
            if bool(T["col_uncovered"][j]) == any(j == b for a, b in st):
                return "the covered columns are not those of the starred zeros"
        want = None if len(st) == n else "_step4"
        return None if T["next"] == want else "%s with %d of %d rows matched" % (
            "stops" if T["next"] is None else "continues with %s" % T["next"], len(st), n)
    if step == "_step4":
        w = unchanged(S, T, "C")
        if w:
            return w
        if stars(S) != stars(T):
            return "the starred zeros change"
        if not set(primes(S)) <= set(primes(T)):
            return "primes are lost"
        for i, j in set(primes(T)) - set(primes(S)):
            if T["C"][i][j] != 0:
                return "a cell that is not zero is primed"
            if not S["row_uncovered"][i]:
                return "a cell in a covered row is primed"
            if not T["col_uncovered"][j] and not S["col_uncovered"][j]:
                return "a cell in a covered column is primed"
        if len({i for i, j in primes(T)}) < len(primes(T)):
            return "two primes in a row"
        st = {i for i, j in stars(T)}
        if T["next"] == "_step5":
            z = T.get("Z0")
            if z is not None and (z not in primes(T) or z[0] in st):
                return "the augmenting path does not start at a primed zero of a row without star"
            fresh = [p for p in primes(T) if p[0] not in st]
            if len(fresh) != 1:
                return "no primed zero in a row without star"
            X = T
        elif T["next"] == "_step6":
            for i in range(n):
                for j in range(m):
                    if T["C"][i][j] == 0 and T["row_uncovered"][i] and T["col_uncovered"][j]:
                        return "goes on with an uncovered zero left"
            X = T
        else:
            return "next step is %s" % T["next"]
        return covers(X)
    if step == "_step5":
        w = unchanged(S, T, "C") or independent(T)
        if w:
            return w
        if len(stars(T)) != len(stars(S)) + 1:
            return "%d matched rows after augmenting %d" % (len(stars(T)), len(stars(S)))
        if primes(T):
            return "primes are not erased"
        if not all1:
            return "lines stay covered"
        return None if T["next"] == "_step3" else "next step is %s" % T["next"]
    if step == "_step6":
        w = unchanged(S, T, "marked", "row_uncovered", "col_uncovered") or duals(S, T)
        if w:
            return w
        for i, j in stars(T) + primes(T):
            if T["C"][i][j] != 0:
                return "a starred or primed zero is no longer zero"
        if not any(T["C"][i][j] == 0 for i in range(n) for j in range(m) if S["row_uncovered"][i] and S["col_uncovered"][j]):
            return "no new uncovered zero"
        if n < m:
            for j in range(m):
                # columns without a match keep the column constant zero
                if not any(j == b for a, b in stars(S)):
                    k = [i for i in range(n) if not S["row_uncovered"][i]]
                    if k and T["C"][k[0]][j] != S["C"][k[0]][j]:
                        return "the constant of an unmatched column changes"
        return None if T["next"] == "_step4" else "next step is %s" % T["next"]


# ------------------------------------------------------------ obligations
def same_effect(a, b):
    for k in ARRAYS:
        if k not in a.at or k not in b.at or len(a.at[k][0]) != len(b.at[k][0]):
            return False
        p = a.at[k][1]
        q = subst(b.at[k][1], {y: atom1(x) for x, y in zip(a.at[k][0], b.at[k][0])})
        if p.unk or q.unk:
            return False
        if p is not q and unify.Cmp(60000).cmp(p, q).k != EQ:
            return False
    x, y = nexts(a.value), nexts(b.value)
    if len(x) != len(y):
        return False
    for (c, n), (d, k) in zip(x, y):
        if n != k or len(c) != len(d):
            return False
        for (p, t), (q, u) in zip(c, d):
            if t != u or p.unk or p is not q and unify.Cmp(20000).cmp(p, q).k != EQ:
                return False
    if any(n == "_step5" for c, n in x):
        for k in ("Z0_r", "Z0_c"):
            p, q = a.at.get(k, ((), None))[1], b.at.get(k, ((), None))[1]
            if p is None or q is None or p.unk or p is not q and unify.Cmp(20000).cmp(p, q).k != EQ:
                return False
    return True


def progress(step, S, T):
    """reason why the step does not bring the algorithm closer to its end, or None"""
    if "raise" in T:
        return None
    if "cut" in T:
        return "a loop of the step still runs after more passes than there are rows"
    n, m = len(S["C"]), len(S["C"][0])
    if step == "_step3":
        if len(stars(S)) == n and T["next"] is not None:
            return "goes on with %s although every row is matched" % T["next"]
        if len(stars(S)) < n and T["next"] is not None and [bool(x) for x in T["col_uncovered"]] != [
                not any(j == b for a, b in stars(S)) for j in range(m)]:
            return "the covered columns are not those of the starred zeros"
        return None if T["next"] in (None, "_step4") else "next step is %s" % T["next"]
    if step == "_step5":
        if len(stars(T)) <= len(stars(S)):
            return "%d matched rows after augmenting %d" % (len(stars(T)), len(stars(S)))
        if primes(T) or not all(T["row_uncovered"]) or not all(T["col_uncovered"]):
            return "primes or covers are left for the next phase"
        return None if T["next"] == "_step3" else "next step is %s" % T["next"]
    if step == "_step4":
        if len({i for i, j in primes(T)}) < len(primes(T)):
            return "two primes in a row: the augmenting path may return to a cell"
        if T["next"] == "_step6":
            for i in range(n):
                for j in range(m):
                    if T["C"][i][j] == 0 and T["row_uncovered"][i] and T["col_uncovered"][j]:
                        return "asks for a new zero although an uncovered one is left"
            return None
        if T["next"] == "_step5":
            z = T.get("Z0")
            return None if z is None or T["marked"][z[0]][z[1]] == 2 else "no primed zero to start the augmenting path from"
        return "next step is %s" % T["next"]
    if step == "_step6":
        if not any(T["C"][i][j] == 0 for i in range(n) for j in range(m) if S["row_uncovered"][i] and S["col_uncovered"][j]):
            return "no new uncovered zero"
        for i, j in primes(T) + stars(T):
            if T["C"][i][j] != 0:
                return "a starred or primed zero is no longer zero"
        if T["row_uncovered"] != S["row_uncovered"] or T["col_uncovered"] != S["col_uncovered"]:
            return "the covers change"
        return None if T["next"] == "_step4" else "next step is %s" % T["next"]
    return None if T["next"] == "_step3" else "next step is %s" % T["next"]


def c27_step(name):
    return c16_step(name, progress, "termination %s", "progress towards the end")


def c16_step(name, judge=sound, title="assignment %s", what="effect on costs, marks, covers and the next step"):
    old, tm.MAXTERMS = tm.MAXTERMS, 4000
    try:
        return one_step(name, judge, title, what)
    finally:
        tm.MAXTERMS = old


def one_step(name, judge, title, what):
    t = title % name
    s = machine()
    I = s.I
    f = drive.find(I, MOD, name)
    if not isinstance(f, Func) or s.cls is None:
        return [ob(t, UND, "step function not found")]
    t0 = time.time()
    r = []
    w = t + ": " + what
    for passes in PASSES[name]:
        if time.time() - t0 > 60:
            break
        a = effect(s, f, passes)
        if not a.ok:
            break
        b = effect(s, drive.find(I, SPEC, name[1:]), passes)
        if b.ok and same_effect(a, b):
            r.append(ob(w + (", %d passes" % passes[0] if passes else ""), OK))
            continue
        bad, tested, why = evaluate(name, a, judge)
        left = [x for x in r if x["k"] == UND]
        if not bad and left:
            continue
        if bad:
            r = [x for x in r if x["k"] != UND]
            r.append(ob(w, BAD, "%s, from the state C=%s marked=%s rows uncovered %s columns %s" % (
                bad[0], [[float(x) for x in q] for q in bad[1]["C"]], bad[1]["marked"], bad[1]["row_uncovered"], bad[1]["col_uncovered"]), f.qual))
        else:
            r.append(ob(w, UND, "differs from the reference step; sound on %d states%s" % (tested, "" if why is None else ", " + why)))
            continue
        break
    note(I, t)
    if not a.ok:
        if a.why == "always raises":
            r.append(ob(t, BAD, "always raises", f.qual))
        else:
            r.append(ob(t, UND, a.why or "not analysed"))
    return r


def evaluate(name, a, judge):
    bad, tested, why = None, 0, None
    ctx = tm.CTX[0]
    t0 = time.time()
    for S in samples(name):
        if time.time() - t0 > 60:
            break
        try:
            T = after(a, S, ctx)
            if T is None or "cut" in T and judge is not progress:
                continue
            w = judge(name, S, T)
        except ident.Cannot as ex:
            why = str(ex)
            continue
        except (ident.Singular, ZeroDivisionError, OverflowError, RecursionError, tm.Blowup):
            continue
        tested += 1
        if w:
            bad = (w, S)
            break
    return bad, tested, why


def note(I, t):
    from . import scen
    scen.RUNS.append((t, frozenset(x for x in getattr(I, "funcs_seen", ())),
                      dict(I.unknown), getattr(I, "steps", 0)))


def c16_driver(shape, dt):
    """the routine around the steps: private copy, orientation, indices"""
    t = "assignment driver, %s, %s" % (shape, dt)
    syms = fresh_ctx([("N", 2), ("M", sym("N") + (slk("s_M") + 1))])
    env = Env(default_dtype="f32")
    env.nonzero = nonzero
    I = drive.load(env, ["fast_bss_eval", MOD])
    n, m = syms["N"], syms["M"]
    dims = [m, n] if shape == "tall" else [n, n] if shape == "square" else [n, m]
    rows, cols = (n, n) if shape == "square" else (n, m)
    f = drive.find(I, MOD, "linear_sum_assignment")
    s1 = drive.find(I, MOD, "_step1")
    if not isinstance(f, Func) or not isinstance(s1, Func):
        return [ob(t, UND, "functions not found")]
    cost = drive.input_array(I, "cost", dims, dt, "pt", grad=True)
    r, seen, flip = [], [], []

    def stub(I_, f_, args, kw):
        x = args[0] if args else None
        if not isinstance(x, Inst):
            return NotImplemented
        seen.append(1)
        d = dict(I_.st.heap[x.hid])
        bodies = {}
        for k in ARRAYS:
            v = d.get(k)
            if isinstance(v, ArrV):
                ax, b = I_.refresh(v)
                bodies[k] = (ax, b, v, I_.st.heap.get(v.sid))
        i, j = ivar(rows), ivar(cols)

        def at(k, *ix):
            ax, b, v, st = bodies[k]
            vs = [x_[0] if x_ else None for x_ in ax]
            if len(vs) != len(ix) or any(len(x_) > 1 for x_ in ax):
                return None
            return subst(b, {p: atom1(q) for p, q in zip(vs, ix) if p is not None})
        w = t + ": state before the first step"
        if any(k not in bodies for k in ARRAYS):
            r.append(ob(w, UND, "state attributes not recognised"))
            return NotImplemented
        for k, sh in (("C", (rows, cols)), ("marked", (rows, cols)), ("row_uncovered", (rows,)), ("col_uncovered", (cols,))):
            v = bodies[k][2]
            if v.ndim == len(sh) and all(nonneg(x_ - y_ - 1) or nonneg(y_ - x_ - 1) for x_, y_ in zip(v.shape(), sh) if (x_ - y_).terms) \
                    and any((x_ - y_).terms for x_, y_ in zip(v.shape(), sh)):
                r.append(ob(w, BAD, "%s has shape %s for %s rows and %s columns" % (k, shape_str(v), show(rows, 2), show(cols, 2)), f.qual))
                return NotImplemented
        C = at("C", i, j)
        want = acc("cost", [atom1(j), atom1(i)] if shape == "tall" else [atom1(i), atom1(j)])
        if C is None or C.unk:
            r.append(ob(w + ", cost", UND, "not recognised"))
        else:
            c = unify.compare(C, want)
            if shape == "square" and c.k != EQ and unify.Cmp(20000).cmp(C, acc("cost", [atom1(j), atom1(i)])).k == EQ:
                flip.append(1)
                c = unify.Res(EQ, "")
            r.append(ob(w + ", cost", {EQ: OK, DIFF: BAD, UNK: UND}[c.k], c.why, f.qual))
        org = bodies["C"][3]
        src = I_.st.heap.get(cost.sid)
        if bodies["C"][2].sid == cost.sid:
            r.append(ob(t + ": works on a copy of the caller's matrix", BAD, "the state holds the caller's matrix itself, which the steps modify in place", f.qual))
        else:
            r.append(ob(t + ": works on a copy of the caller's matrix", OK))
        if bodies["C"][2].dtype != dt:
            lower = (bodies["C"][2].dtype, dt) in (("f32", "f64"), ("f16", "f32"), ("f16", "f64")) or bodies["C"][2].dtype.startswith("i")
            r.append(ob(t + ": precision", BAD if lower else UND, "the cost is kept as %s" % bodies["C"][2].dtype, f.qual))
        for k, c0, ix in (("marked", ZERO, (i, j)), ("row_uncovered", ONE, (i,)), ("col_uncovered", ONE, (j,))):
            b = at(k, *ix)
            if b is None or b.unk:
                r.append(ob(w + ", " + k, UND, "not recognised"))
            elif b is c0:
                r.append(ob(w + ", " + k, OK))
            else:
                k_ = as_const(b)
                r.append(ob(w + ", " + k, BAD if k_ is not None else UND, "initial %s is %s" % (k, show(b, 2)[:60]), f.qual))
        p = d.get("path")
        if isinstance(p, ArrV) and p.ndim == 2:
            short = rows * 2 - 1 - p.shape()[0]
            if all(x_.op in ("sym", "slk") for x_ in walk_atoms(short).values()):
                lack = None
                for q in range(2, 8):
                    for e_ in range(0, 3):
                        g = ident.Sample(1, "exact", tm.CTX[0])
                        g.slack = lambda nm, q=q, e_=e_: q - 2 if nm == "s_N" else e_
                        if ident.Ev(g, 1.0).ev(short, {}) > 0:
                            lack = lack or q
                k_ = t + ": room for the longest path"
                if lack:
                    r.append(ob(k_, BAD, "%s path entries for up to %s , N = %d" % (show(p.shape()[0], 3), show(rows * 2 - 1, 3), lack), f.qual))
                else:
                    r.append(ob(k_, OK))
        # the marks any run may leave behind
        v = bodies["marked"][2]
        a = drive.input_array(I_, "s.marked", v.shape(), v.dtype, "pt", grad=False)
        d["marked"] = a
        I_.st.heap[x.hid] = d
        return None

    env.summaries[s1.qual] = stub
    w0 = I.st.heap[cost.sid].writes
    o = drive.call(I, f, [cost], {})
    note(I, t)
    if not o.ok:
        if undecided(o) or not seen or I.unknown or any(x["k"] == UND for x in r):
            return r + [ob(t, UND, status(o))]
        return r + [ob(t, BAD, "always raises", f.qual)]
    if not seen:
        return r + [ob(t, UND, "the first step is not called with a state object")]
    if I.st.heap[cost.sid].writes != w0:
        r.append(ob(t + ": the caller's matrix is not written", BAD, "the matrix passed in is modified in place", f.qual))
    else:
        r.append(ob(t + ": the caller's matrix is not written", OK))
    # rejected matrices
    rej = t + ": raises ValueError for NaN and nothing else"
    i, j = ivar(dims[0]), ivar(dims[1])
    full = tm.mk_any([i, j], tm.isnan(acc("cost", [atom1(i), atom1(j)])))
    pcs = []
    for st, exc, loc in o.raises:
        pc = ONE
        for c in st.pc:
            pc = pmul(pc, c)
        pcs.append((pc, exc_of(exc), loc))
    tot = ZERO
    for pc, e, loc in pcs:
        tot = tot + pc
    if len(pcs) == 1 and unify.Cmp(20000).cmp(pcs[0][0], full).k == EQ:
        r.append(ob(rej, OK if pcs[0][1] == "ValueError" else BAD, "raises %s" % pcs[0][1], pcs[0][2]))
    elif tot.unk:
        r.append(ob(rej, UND, "condition not recognised"))
    else:
        r.append(rejections(rej, tot, dims, shape, f.qual))
    # indices
    w = t + ": row and column indices of the starred cells, row-major in the caller's orientation"
    v = o.value
    if not isinstance(v, tuple) or len(v) != 2 or not all(isinstance(x, ArrV) and x.ndim == 1 for x in v):
        r.append(ob(w, UND, "result not recognised"))
        return r
    i, j = ivar(dims[0]), ivar(dims[1])
    mk = acc("s.marked", [atom1(j), atom1(i)] if shape == "tall" or flip else [atom1(i), atom1(j)])
    mask = eq0(mk - 1)
    for d in (0, 1):
        ax, b = I.refresh(I.eff(v[d]))
        k = atom1(ax[0][0]) if ax[0] else ZERO
        want = tm.mk_nz(d, [i, j], mask, k)
        if b.unk:
            r.append(ob(w, UND, "index %d not recognised" % d))
            continue
        c = unify.Cmp(50000).cmp(b, want)
        if c.k == EQ:
            r.append(ob(w, OK))
            continue
        bad = None
        tested = 0
        for n_ in range(2, 4):
            for seed in range(6):
                x = differ(b, want, ax[0][0] if ax[0] else None, n_, shape, seed)
                tested += x is not None
                if x:
                    bad = x
        r.append(ob(w, BAD if bad else UND, "%s index: %s" % (("row", "column")[d], bad or c.why), f.qual))
    return r


def c16_empty(n, m):
    """a matrix without rows or columns: no step runs, both index arrays are empty"""
    t = "assignment driver, %d x %d matrix" % (n, m)
    fresh_ctx([])
    env = Env(default_dtype="f32")
    env.nonzero = nonzero
    I = drive.load(env, ["fast_bss_eval", MOD])
    f = drive.find(I, MOD, "linear_sum_assignment")
    s1 = drive.find(I, MOD, "_step1")
    if not isinstance(f, Func) or not isinstance(s1, Func):
        return [ob(t, UND, "functions not found")]
    seen = []

    def stub(I_, f_, args, kw):
        seen.append(1)
        return None
    env.summaries[s1.qual] = stub
    o = drive.call(I, f, [drive.input_array(I, "cost", [n, m], "f32", "pt", grad=False)], {})
    note(I, t)
    if not o.ok:
        return [ob(t, UND if undecided(o) or I.unknown else BAD, "always raises", f.qual)]
    if seen:
        return [ob(t, BAD, "the steps run on an empty matrix: the row minimum of nothing raises", f.qual)]
    v = o.value
    if not isinstance(v, tuple) or len(v) != 2 or not all(isinstance(x, ArrV) and x.ndim == 1 for x in v) or I.unknown:
        return [ob(t, UND, "result not recognised")]
    z = [x.shape()[0] for x in v]
    if all(not x.terms for x in z):
        return [ob(t, OK)]
    return [ob(t, BAD if all(as_int(x) is not None for x in z) else UND, "returns %s indices" % show(z[0], 2)[:60], f.qual)]


def rejections(t, tot, dims, shape, where):
    n, m = (2, 2) if shape == "square" else (3, 2) if shape == "tall" else (2, 3)
    try:
        for cell in [None] + [(i, j) for i in range(n) for j in range(m)]:
            g = Given({"C": [[0] * 3] * 2, "marked": [], "Z0": (0, 0)}, tm.CTX[0])
            g.slack = lambda nm: 0
            g.acc = lambda name, idx: float("nan") if idx == cell else Fraction(idx[0] * 3 + idx[1] * 5 % 4)
            v = ident.Ev(g, 1.0).ev(tot, {})
            if bool(v) != (cell is not None):
                return ob(t, BAD, "a %d x %d matrix %s is %s" % (n, m, "without NaN" if cell is None else "with NaN at %s" % (cell,),
                                                                  "rejected" if v else "accepted"), where)
    except (ident.Cannot, ident.Singular, ZeroDivisionError, OverflowError, RecursionError, tm.Blowup) as ex:
        return ob(t, UND, "condition not evaluated: %s" % ex)
    return ob(t, UND, "condition differs from: any entry is NaN")


def differ(b, want, var, n, shape, seed):
    r = random.Random(seed)
    m = n if shape == "square" else n + 1
    cols = list(range(m))
    r.shuffle(cols)
    S = {"C": [[0] * m for _ in range(n)], "marked": [[1 if cols[i] == j else 0 for j in range(m)] for i in range(n)], "Z0": (0, 0)}
    g = Given(S, tm.CTX[0])
    if shape != "square":
        g.slack = lambda name: n - 2 if name == "s_N" else m - n - 1 if name == "s_M" else 0
    E = ident.Ev(g, 2.0)
    try:
        for k in range(n):
            e = {} if var is None else {var: k}
            x, y = E.ev(b, e), E.ev(want, e)
            if x != y:
                return "entry %d is %s instead of %s for the stars %s" % (k, x, y, S["marked"])
    except (ident.Cannot, ident.Singular, ZeroDivisionError, OverflowError, RecursionError, tm.Blowup):
        return None
    return ""


def c16_jobs(tier):
    j = [("c16_step", (n,)) for n in STEPS]
    for shape in ("square", "wide", "tall"):
        for dt in ("f32", "f64"):
            j.append(("c16_driver", (shape, dt)))
    for n, m in ((0, 2), (2, 0), (0, 0)):
        j.append(("c16_empty", (n, m)))
    return j


def c27_jobs(tier):
    return [("c27_step", (n,)) for n in STEPS] + [("c16_empty", (n, m)) for n, m in ((0, 2), (2, 0), (0, 0))]


check("C16", "every step of the assignment routine, as one term per state attribute from an arbitrary state, equals the corresponding "
      "reference step of Munkres' algorithm (sa/sa_specs/hungarian_pt.py; loops of steps 4 and 5 followed for a fixed number of "
      "passes); the driver hands a private copy in the right orientation to the first step and returns the starred cells", c16_jobs)

check("C27", "every step, as terms from an arbitrary state, equals the reference step, whose progress is known: step 3 stops when all rows "
      "are matched, step 4 covers one more row per pass and leaves no uncovered zero, step 5 adds one matched row, step 6 creates an "
      "uncovered zero and keeps the marked ones", c27_jobs)
