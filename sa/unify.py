"""Comparison of two terms: equal, definitely different, or undecided.

EQ   : the terms have the same normal form (possibly after opening abbreviations,
       clearing denominators, merging logarithms, pairing loop states).
DIFF : they are built from fully understood operations and a first difference is
       located (another constant, index, operand, operation or factor).
UNK  : anything else; an undecided comparison never raises an alarm.
"""
from fractions import Fraction
from . import term as tm
from . import loops
from .term import (Poly, Atom, P, ZERO, ONE, F1, _poly, pmul, ppow, pscale, psum, as_const, as_atom, as_mono,
                   atom1, subst, ivar, open_atom, walk_atoms, def_body, show, mono_poly, is_index_poly,
                   Blowup, nonneg, map_atoms)

EQ, DIFF, UNK = "EQ", "DIFF", "UNK"


class Res:
    __slots__ = ("k", "why")

    def __init__(self, k, why=""):
        self.k, self.why = k, why

    def __repr__(self):
        return "%s %s" % (self.k, self.why)


R_EQ = Res(EQ)

# operations whose arguments can be recovered from the value for generic data
INJ = {"acc", "log10", "exp10", "corr", "sum", "solve", "inv", "rfft", "irfft", "max", "min", "lsa", "param",
       "loop", "state", "paren", "conj", "re", "im", "abs", "def", "sym", "ivar", "slk", "U", "pow2", "redmin",
       "redmax", "any", "isposinf", "isneginf", "isnan", "infc", "nanc", "ln10", "log2_10", "powx", "fn"}
WEAK = {"U", "isposinf", "isneginf", "isnan", "any", "pos", "eq0", "argred", "redmin", "redmax", "ceil",
        "fdiv", "mod", "fastlen", "bsym", "beq", "count", "isym"}


class Cmp:
    def __init__(self, budget=200000):
        self.n = budget
        self.pairs = {}      # slot of q -> slot of p
        self.inv = {}
        self.trail = []
        self.todo = []
        self.lp = {}         # slot -> St (both sides)
        self.memo = {}
        self.depth = 0

    # ------------------------------------------------------------------ polys
    def cmp(self, p, q):
        if p is q and (not p.states or not self.lp):
            return R_EQ
        if p is q and all(self.inv.get(s, s) == s for s in p.states):
            return R_EQ
        k = (p.id, q.id)
        st = bool(p.states or q.states)
        if not st and k in self.memo:
            return self.memo[k]
        self.n -= 1
        if self.n < 0:
            return Res(UNK, "budget")
        self.depth += 1
        if self.depth > 60:
            self.depth -= 1
            return Res(UNK, "depth")
        try:
            r = self._cmp(p, q)
        except Blowup:
            r = Res(UNK, "expression too large")
        self.depth -= 1
        if not st:
            self.memo[k] = r
        return r

    def _cmp(self, p, q):
        dp, dq = dict(p.terms), dict(q.terms)
        st = bool(p.states or q.states)
        tp, tq = [], []
        if st:
            tp, tq = list(p.terms), list(q.terms)
        else:
            for m, c in p.terms:
                if dq.get(m) != c:
                    tp.append((m, c))
            for m, c in q.terms:
                if dp.get(m) != c:
                    tq.append((m, c))
        if not tp and not tq:
            return R_EQ
        r = self.match(tp, tq)
        if r.k == EQ:
            return r
        # other normal forms
        a, b = as_atom(p), as_atom(q)
        alt = None
        if not st:
            alt = self.normal(p, q)
            if alt is not None:
                r2 = self.cmp(*alt)
                if r2.k != UNK or r.k == UNK:
                    r = r2
        if r.k == DIFF:
            if any(self.weak(t) for t in tp + tq):
                return Res(UNK, "undecided: " + r.why)
        return r

    def weak(self, t):
        return any(a.unk for a, e in t[0])

    def normal(self, p, q):
        """a pair of equivalent simpler / more expanded terms, or None"""
        # logarithms: combine
        d = p - q
        lg = [(m, c) for m, c in d.terms if any(a.op == "log10" for a, e in m)]
        if len(lg) >= 1 and (len(lg) != 2 or len(p.terms) != 1 or len(q.terms) != 1):
            ok = all(len(m) == 1 and m[0][0].op == "log10" and m[0][1] == 1 for m, c in lg)
            if ok and len(lg) <= 6:
                g = min(abs(c) for m, c in lg)
                if all((c / g).denominator == 1 and abs(c / g) <= 4 for m, c in lg):
                    rest = [(m, c) for m, c in d.terms if (m, c) not in lg]
                    rc = None
                    if not rest:
                        rc = F1
                    elif len(rest) == 1 and rest[0][0] == ():
                        x = rest[0][1] / g          # log10(10^x)
                        if x.denominator == 1 and abs(x) < 40:
                            rc = Fraction(10) ** int(x)
                    if rc is not None:
                        num, den = P(rc), ONE
                        for m, c in lg:
                            arg = open_defs(m[0][0].args[0])
                            k = int(c / g)
                            if k > 0:
                                num = pmul(num, ppow(arg, k))
                            else:
                                den = pmul(den, ppow(arg, -k))
                        if num is not p or den is not q:
                            return num, den
        p2, q2 = open_top(p), open_top(q)
        if p2 is not p or q2 is not q:
            return p2, q2
        # denominators
        dens = []
        for t in (p, q):
            for m, c in t.terms:
                for a, e in m:
                    if e < 0 and e.denominator == 1 and a.op in ("paren",):
                        dens.append((a, e))
        if dens and len(p.terms) + len(q.terms) > 2:
            best = {}
            for a, e in dens:
                best[a] = min(best.get(a, 0), e)
            if len(best) <= 4:
                f = ONE
                for a, e in best.items():
                    f = pmul(f, _poly({((a, -e),): F1}))
                p2, q2 = ZERO, ZERO
                for m, c in p.terms:
                    p2 = p2 + mulpow(m, c, best)
                for m, c in q.terms:
                    q2 = q2 + mulpow(m, c, best)
                if not (p2 is p and q2 is q):
                    return p2, q2
        return None

    # ------------------------------------------------------------------ terms
    def match(self, tp, tq):
        """match the monomials of two sums"""
        if len(tp) == 1 and len(tq) == 1:
            return self.mono(tp[0], tq[0])
        if len(tp) != len(tq):
            t = (tp if len(tp) > len(tq) else tq)
            und = any(self.weak(x) for x in tp + tq)
            return Res(UNK if und else DIFF, "%d terms against %d: %s" % (len(tp), len(tq), self.extra(tp, tq)))
        rest = list(range(len(tq)))
        worst = None
        for t in sorted(tp, key=lambda t: (len(t[0]), t[1])):
            sig = self.sig(t)
            cands = [j for j in rest if self.sig(tq[j]) == sig]
            got = None
            for j in cands:
                mark = len(self.trail)
                r = self.mono(t, tq[j])
                if r.k == EQ:
                    got = j
                    break
                self.undo(mark)
                if worst is None or r.k == UNK or (worst.k == DIFF and len(cands) == 1):
                    worst = r
            if got is None:
                if not cands:
                    und = any(self.weak(x) for x in tp + tq)
                    # loosely: same operations with another coefficient?
                    return Res(UNK if und else DIFF, "no counterpart for %s" % short(t))
                return worst
            rest.remove(got)
        return R_EQ

    def extra(self, tp, tq):
        s1 = {}
        for t in tp:
            s1.setdefault(self.sig(t), []).append(t)
        for t in tq:
            l = s1.get(self.sig(t))
            if l:
                l.pop()
            else:
                return "extra " + short(t)
        for l in s1.values():
            for t in l:
                return "extra " + short(t)
        return "?"

    def sig(self, t):
        m, c = t
        return (c, tuple(sorted((a.op, e) for a, e in m)))

    def mono(self, t1, t2):
        (m1, c1), (m2, c2) = t1, t2
        st = any(a.states for a, e in m1) or any(a.states for a, e in m2)
        if st:
            a1, a2 = list(m1), list(m2)
        else:
            s2 = dict(m2)
            s1 = dict(m1)
            a1 = [(a, e) for a, e in m1 if s2.get(a) != e]
            a2 = [(a, e) for a, e in m2 if s1.get(a) != e]
        if not a1 and not a2:
            if c1 == c2:
                return R_EQ
            return Res(DIFF, "coefficient %s against %s" % (num(c1), num(c2)))
        u = any(a.unk for a, e in a1 + a2)
        o1 = sorted((a.op, e) for a, e in a1)
        o2 = sorted((a.op, e) for a, e in a2)
        if o1 != o2:
            # abbreviations and parenthesised factors
            if not st and (any(a.op in ("def", "paren") for a, e in a1 + a2)):
                p1, p2 = open_top(mono_poly(tuple(a1), c1)), open_top(mono_poly(tuple(a2), c2))
                p1, p2 = clear(p1, p2)
                if p1 is p2:
                    return R_EQ
                if not (as_mono(p1) and as_mono(p2)):
                    return self.cmp(p1, p2)
                (m1, c1), (m2, c2) = as_mono(p1), as_mono(p2)
                if sorted((a.op, e) for a, e in m1) == sorted((a.op, e) for a, e in m2):
                    return self.cmp(p1, p2)
                o1 = sorted((a.op, e) for a, e in m1)
                o2 = sorted((a.op, e) for a, e in m2)
            if u:
                return Res(UNK, "unknown operand")
            x1 = [x for x in o1 if x not in o2]
            x2 = [x for x in o2 if x not in o1]
            return Res(DIFF, "%s against %s" % (ops(x1) or "nothing", ops(x2) or "nothing") + " (%s | %s)" % (
                short((tuple(a1), c1)), short((tuple(a2), c2))))
        rest = list(a2)
        worst = None
        for a, e in sorted(a1, key=lambda x: (x[0].op in WEAK, x[0].op)):
            cands = [x for x in rest if x[0].op == a.op and x[1] == e]
            got = None
            for x in cands:
                mark = len(self.trail)
                r = self.atom(a, x[0])
                if r.k == EQ:
                    got = x
                    break
                self.undo(mark)
                if worst is None or worst.k == EQ or r.k == UNK:
                    worst = r
            if got is None:
                return worst or Res(UNK, "no candidate")
            rest.remove(got)
        if c1 != c2:
            return Res(DIFF, "coefficient %s against %s" % (num(c1), num(c2)))
        return R_EQ

    # ------------------------------------------------------------------ atoms
    def atom(self, a, b):
        if a is b and not a.states:
            return R_EQ
        op = a.op
        if op != b.op:
            return Res(UNK if a.unk or b.unk else DIFF, "%s against %s" % (op, b.op))
        if op in ("unk", "cunk"):
            return Res(UNK, "unknown value")
        if op == "def":
            return self.cmp(def_body(a), def_body(b))
        if op in ("max", "min"):
            return self.multiset(list(a.args), list(b.args), op)
        if op == "state":
            return self.state(a, b)
        if op == "loop":
            return self.loop(a, b)
        if a.attrs != b.attrs:
            return Res(DIFF, "%s against %s" % (short1(a), short1(b)))
        if len(a.bvars) != len(b.bvars) or len(a.args) != len(b.args):
            return Res(UNK if a.unk or b.unk or op in WEAK else DIFF, "%s of another rank" % op)
        if a.bvars:
            return self.binder(a, b)
        und = None
        for x, y in zip(a.args, b.args):
            if x is None or y is None:
                if x is not y:
                    return Res(UNK, op)
                continue
            r = self.index(x, y) if is_index_poly(x) and is_index_poly(y) else self.cmp(x, y)
            if r.k == DIFF:
                w = Res(DIFF, r.why if op not in ("acc", "U") else "%s against %s" % (short1(a), short1(b)))
                if op in WEAK and op != "U":
                    return Res(UNK, "in %s: %s" % (op, r.why))
                return w
            if r.k == UNK:
                und = r
        return und or R_EQ

    def index(self, x, y):
        if x is y:
            return R_EQ
        d = x - y
        if not d.terms:
            return R_EQ
        simple = all(a.op in ("sym", "ivar", "slk") for m, c in d.terms for a, e in m)
        if simple:
            return Res(DIFF, "index %s against %s" % (show(x, 3)[:60], show(y, 3)[:60]))
        return self.cmp(x, y)

    def multiset(self, xs, ys, op):
        ys = list(ys)
        left = []
        for x in xs:
            for y in ys:
                if x is y:
                    ys.remove(y)
                    break
            else:
                left.append(x)
        if not left and not ys:
            return R_EQ
        c1 = [as_const(x) for x in left if as_const(x) is not None]
        c2 = [as_const(y) for y in ys if as_const(y) is not None]
        if c1 != c2:
            return Res(DIFF, "%s with %s against %s" % (op, [num(c) for c in c1], [num(c) for c in c2]))
        l = [x for x in left if as_const(x) is None]
        r = [y for y in ys if as_const(y) is None]
        if len(l) != len(r):
            return Res(UNK, op)
        worst = None
        for x in l:
            got = None
            for y in r:
                mark = len(self.trail)
                z = self.cmp(x, y)
                if z.k == EQ:
                    got = y
                    break
                self.undo(mark)
                if worst is None or z.k == UNK:
                    worst = z
            if got is None:
                return worst
            r.remove(got)
        return R_EQ

    def binder(self, a, b):
        import itertools
        op = a.op
        na, ba = open_atom(a)
        sizes = lambda vs: [v.args[0].id for v in vs]
        r0 = None
        if len(a.args) == len(b.args):
            for x, y in zip(a.args, b.args):
                r = self.index(x, y) if is_index_poly(x) and is_index_poly(y) else self.cmp(x, y)
                if r.k != EQ:
                    r0 = r if r0 is None or r.k == UNK else r0
        nb = list(b.bvars)
        perms = [tuple(range(len(nb)))]
        if op in ("sum", "any", "redmin", "redmax"):
            perms = [p for n, p in enumerate(itertools.permutations(range(len(nb)))) if n < 24]
        best = None
        tried = False
        for pm in perms:
            if [nb[k].args[0].id for k in pm] != sizes(na):
                # symbolic sizes that are equal only through the context
                if any((nb[k].args[0] - v.args[0]).terms for k, v in zip(pm, na)):
                    continue
            tried = True
            sub = {nb[k]: atom1(v) for k, v in zip(pm, na)}
            mark = len(self.trail)
            worst = r0
            for x, y in zip(ba, b.bodies):
                r = self.cmp(x, subst(y, sub))
                if r.k != EQ:
                    worst = r if worst is None or r.k == UNK else worst
                    break
            if worst is None:
                return R_EQ
            self.undo(mark)
            if best is None or worst.k == UNK:
                best = worst
        if not tried:
            und = a.unk or b.unk
            return Res(UNK if und or op in WEAK else DIFF, "%s over %s against %s" % (
                op, [show(v.args[0], 3)[:40] for v in na], [show(v.args[0], 3)[:40] for v in nb]))
        if op in WEAK and best.k == DIFF:
            return Res(UNK, "in %s: %s" % (op, best.why))
        return best

    # ------------------------------------------------------------------ loops
    def undo(self, mark):
        while len(self.trail) > mark:
            k = self.trail.pop()
            v = self.pairs.pop(k)
            self.inv.pop(v, None)
            self.todo = [t for t in self.todo if t != (v, k)]

    def state(self, a, b):
        sa, sb = a.attrs[0], b.attrs[0]
        if len(a.args) != len(b.args):
            return Res(DIFF if not (a.unk or b.unk) else UNK, "state of another rank")
        for x, y in zip(a.args, b.args):
            r = self.index(x, y) if is_index_poly(x) and is_index_poly(y) else self.cmp(x, y)
            if r.k != EQ:
                return r
        if sb in self.pairs or sa in self.inv:
            if self.pairs.get(sb) == sa:
                return R_EQ
            return Res(DIFF, "another loop-carried value")
        if sa not in self.lp or sb not in self.lp:
            return R_EQ if sa == sb else Res(UNK, "free state")
        self.pairs[sb] = sa
        self.inv[sa] = sb
        self.trail.append(sb)
        self.todo.append((sa, sb))
        # refuse at once when the initial values differ
        r = self.check_init(sa, sb)
        return r

    def check_init(self, sa, sb):
        A, B = self.lp[sa], self.lp[sb]
        if [v.args[0].id for v in A.vars] != [v.args[0].id for v in B.vars]:
            return Res(UNK, "state axes")
        return self.cmp(A.init, subst(B.init, dict(zip(B.vars, [atom1(v) for v in A.vars]))))

    def loop(self, a, b):
        ea, ta, sta, sela, ia = loops.open_loop(a)
        eb, tb, stb, selb, ib = loops.open_loop(b)
        r = self.cmp(ta, tb)
        if r.k != EQ:
            return Res(r.k, "iterations %s against %s" % (show(ta, 3)[:50], show(tb, 3)[:50]))
        if len(ia) != len(ib):
            return Res(UNK, "loop result rank")
        for x, y in zip(ia, ib):
            r = self.index(x, y) if is_index_poly(x) and is_index_poly(y) else self.cmp(x, y)
            if r.k != EQ:
                return r
        und = len(sta) != len(stb)
        for s in sta:
            self.lp[s.slot] = s
        for s in stb:
            s.init, s.step = (subst(t, {eb: atom1(ea)}) for t in (s.init, s.step))
            self.lp[s.slot] = s
        save = self.todo
        self.todo = []
        mark = len(self.trail)
        self.pairs[selb] = sela
        self.inv[sela] = selb
        self.trail.append(selb)
        self.todo.append((sela, selb))
        r = self.check_init(sela, selb)
        done = set()
        while r.k == EQ and self.todo:
            sa, sb = self.todo.pop(0)
            if (sa, sb) in done:
                continue
            done.add((sa, sb))
            A, B = self.lp[sa], self.lp[sb]
            y = subst(B.step, dict(zip(B.vars, [atom1(v) for v in A.vars])))
            r = self.cmp(A.step, y)
        self.todo = save
        if r.k != EQ:
            self.undo(mark)
            if und and r.k == DIFF:
                return Res(UNK, "loops with %d and %d carried values: %s" % (len(sta), len(stb), r.why))
            return Res(r.k, "in the loop: " + r.why)
        return r


# ---------------------------------------------------------------------- helpers
def open_defs(p):
    a = as_atom(p)
    if a is not None and a.op == "def":
        return def_body(a)
    return p


def open_top(p):
    """open the abbreviations occurring directly in the monomials of p"""
    if not any(a.op == "def" for m, c in p.terms for a, e in m):
        return p
    out = []
    tm.NODEF[0] += 1
    try:
        for m, c in p.terms:
            r = P(c)
            for a, e in m:
                r = pmul(r, ppow(def_body(a) if a.op == "def" else atom1(a), e))
            out.append(r)
        return psum(out)
    finally:
        tm.NODEF[0] -= 1


def mulpow(m, c, best):
    d = dict(m)
    out = P(c)
    for a, e in best.items():
        d[a] = d.get(a, 0) - e
    for a, e in sorted(d.items(), key=lambda x: x[0].id):
        if e != 0:
            if a.op == "paren" and e > 0 and e.denominator == 1:
                out = pmul(out, ppow(a.args[0], e))
            else:
                out = pmul(out, _poly({((a, e),): F1}))
    return out


def clear(p, q):
    """move the factors with negative exponent of the two monomials to the other side"""
    mp, mq = as_mono(p), as_mono(q)
    if mp is None or mq is None:
        return p, q
    f = []
    for m, c in (mp, mq):
        for a, e in m:
            if e < 0 and a.op in ("paren", "def"):
                f.append((a, -e))
    for a, e in f:
        x = ppow(a.args[0] if a.op == "paren" else def_body(a), e)
        p, q = (pmul(strip_(p, a, e), ONE) if has(p, a, -e) else pmul(p, x)), (strip_(q, a, e) if has(q, a, -e) else pmul(q, x))
    return p, q


def has(p, a, e):
    m = as_mono(p)
    return m is not None and dict(m[0]).get(a) == e


def strip_(p, a, e):
    m, c = as_mono(p)
    return _poly({tuple(x for x in m if x[0] is not a): c})


def num(c):
    return tm._num(c)


def ops(xs):
    return ", ".join("%s%s" % (o, "" if e == 1 else "^%s" % e) for o, e in xs)


def short(t):
    try:
        return show(_poly({t[0]: t[1]}), 4)[:110]
    except Exception:
        return "?"


def short1(a):
    return tm.show_atom(a, 4)[:80]


TESTED = {}


def compare(p, q, budget=200000):
    r = Cmp(budget).cmp(p, q)
    if r.k == EQ or p.unk or q.unk:
        return r if r.k != DIFF else Res(UNK, r.why)
    k = (p.id, q.id, tm.CTX[0], tm.ASSUME_NORM[0])
    if k not in TESTED:
        from . import ident
        TESTED[k] = ident.witness(p, q)
    w = TESTED[k]
    if w is None:
        return Res(UNK, "unconfirmed difference: " + r.why if r.k == DIFF else r.why)
    if w == "same":
        return Res(UNK, "normal forms differ, no sample point separates them: " + r.why)
    return Res(DIFF, "%s; %s" % (r.why, w))
