"""Index-notation value graph: hash-consed scalar terms with algebraic normal forms.

Every array value of the analysed program is described by the scalar term of its
generic element, a polynomial (`Poly`) over atoms (`Atom`).  Atoms are inputs
(`acc`), sizes (`sym`), index variables (`ivar`), and applications of the
operations the library is made of (`sum`, `corr`, `rfft`, `irfft`, `solve`, `inv`,
`max`, `min`, `log`, `lsa`, `loop`, ...).  Binders are canonically named, so that
alpha-equivalent terms are the same object.  No term is ever evaluated.
"""
import itertools
import zlib
from fractions import Fraction

F0, F1 = Fraction(0), Fraction(1)
MAXTERMS = 400

_tab = {}
_count = itertools.count(1)
_fresh = itertools.count(1)

# ops whose value is 0/1 (idempotent in products)
BOOL_OPS = {"U", "pos", "eq0", "any", "isnan", "isposinf", "isneginf", "bsym", "beq"}
INT_OPS = {"sym", "ivar", "pow2", "fastlen", "count", "fdiv", "mod", "lsa", "argred", "isym", "slk", "U", "nz"}
COMPLEX_OPS = {"rfft", "cunk", "fftv", "imag_unit"}


class Blowup(Exception):
    pass


class Collide(Exception):
    """a canonical binder name is already free in the body"""


class Atom:
    __slots__ = ("op", "attrs", "bvars", "bodies", "args", "id", "fv", "bh", "unk",
                 "states", "loc", "cplx")

    def __repr__(self):
        return show_atom(self)


class Poly:
    __slots__ = ("terms", "id", "fv", "bh", "unk", "states", "cplx")

    def __repr__(self):
        return show(self)

    def __add__(self, o):
        return padd(self, P(o))

    __radd__ = __add__

    def __sub__(self, o):
        return padd(self, pscale(P(o), -F1))

    def __rsub__(self, o):
        return padd(P(o), pscale(self, -F1))

    def __mul__(self, o):
        return pmul(self, P(o))

    __rmul__ = __mul__

    def __neg__(self):
        return pscale(self, -F1)

    def __truediv__(self, o):
        return pmul(self, ppow(P(o), -1))

    def __rtruediv__(self, o):
        return pmul(P(o), ppow(self, -1))

    def __pow__(self, e):
        return ppow(self, e)


LOC = [None]        # current source location, set by the interpreter


# ------------------------------------------------------------------ contexts
class Ctx:
    """Assumptions on sizes: slack substitution used by the sign prover only."""

    def __init__(self, name=""):
        self.name = name
        self.slack = {}      # sym atom id -> Poly over slk atoms (all >= 0)
        self.memo = {}

    def declare(self, sympoly, expr):
        self.slack[as_atom(sympoly).id] = expr
        self.memo.clear()


CTX = [Ctx("default")]


def set_ctx(c):
    CTX[0] = c


# ------------------------------------------------------------------ builders
def _poly(d):
    """intern a Poly from {mono(tuple of (atom, exp)) : coef}"""
    items = [(m, c) for m, c in d.items() if c != 0]
    if len(items) > MAXTERMS:
        raise Blowup()
    key = ("P", frozenset((tuple((a.id, e) for a, e in m), c) for m, c in items))
    p = _tab.get(key)
    if p is not None:
        return p
    p = Poly()
    items.sort(key=lambda mc: tuple((a.id, e) for a, e in mc[0]))
    p.terms = tuple(items)
    p.id = next(_count)
    fv = frozenset()
    st = frozenset()
    bh = 0
    unk = False
    cx = False
    for m, c in items:
        for a, e in m:
            if a.fv:
                fv |= a.fv
            if a.states:
                st |= a.states
            if a.bh > bh:
                bh = a.bh
            unk = unk or a.unk
            cx = cx or a.cplx
    p.fv, p.states, p.bh, p.unk, p.cplx = fv, st, bh, unk, cx
    _tab[key] = p
    return p


def raw_atom(op, attrs=(), bvars=(), bodies=(), args=()):
    """intern an atom without renaming binders (bvars already canonical)."""
    key = ("A", op, attrs, tuple(b.id for b in bvars), tuple(b.id for b in bodies),
           tuple(b.id if b is not None else None for b in args))
    a = _tab.get(key)
    if a is not None:
        return a
    a = Atom()
    a.op, a.attrs, a.bvars, a.bodies, a.args = op, attrs, tuple(bvars), tuple(bodies), tuple(args)
    a.id = next(_count)
    fv = frozenset()
    st = frozenset()
    bh = 0
    unk = op in ("unk", "cunk") or op == "def" and DEFS[attrs[0]][1].unk
    for b in bodies:
        fv |= b.fv
        st |= b.states
        bh = max(bh, b.bh)
        unk = unk or b.unk
    if bvars:
        fv = fv - frozenset(bvars)
        bh += 1
        for b in bvars:
            n = b.attrs[0]
            if n[0] == "b":
                bh = max(bh, n[1])
    for b in bvars:
        fv |= b.fv - frozenset([b]) if b.op == "ivar" else frozenset()
    for b in args:
        if b is None:
            continue
        fv |= b.fv
        st |= b.states
        bh = max(bh, b.bh)
        unk = unk or b.unk
    if op == "ivar":
        fv = frozenset([a])
    if op == "state":
        st = st | frozenset([attrs[0]])
    if op == "loop":
        st = st - frozenset(attrs[0])
    a.fv, a.states, a.bh, a.unk = fv, st, bh, unk
    a.cplx = _is_complex(a)
    a.loc = LOC[0]
    _tab[key] = a
    return a


def _is_complex(a):
    op = a.op
    if op in COMPLEX_OPS:
        return True
    if op in ("conj",):
        return True
    if op in ("paren", "sum", "inv", "solve"):
        return any(b.cplx for b in a.bodies) or any(x is not None and x.cplx for x in a.args)
    if op == "state":
        return False
    return False


def atom1(a):
    return _poly({((a, F1),): F1})


def const(c):
    if not isinstance(c, Fraction):
        if isinstance(c, bool):
            c = Fraction(int(c))
        elif isinstance(c, int):
            c = Fraction(c)
        elif isinstance(c, float):
            if c != c:
                return atom1(raw_atom("nanc"))
            if c in (float("inf"), float("-inf")):
                p = atom1(raw_atom("infc"))
                return p if c > 0 else -p
            c = Fraction(repr(c))
        else:
            raise TypeError(c)
    if c == 0:
        return _poly({})
    return _poly({(): c})


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return atom1(x)
    return const(x)


ZERO = const(0)
ONE = const(1)


def sym(name):
    return atom1(raw_atom("sym", (name,)))


def slk(name):
    return atom1(raw_atom("slk", (name,)))


def param(name, kind="float"):
    """a symbolic scalar parameter (clamp_db, load_diag ...)"""
    return atom1(raw_atom("param", (name, kind)))


def unk(reason, cplx=False):
    return atom1(raw_atom("cunk" if cplx else "unk", (reason, next(_fresh))))


def ivar(size, name=None):
    """fresh index variable ranging over [0, size)"""
    return raw_atom("ivar", (name if name is not None else ("f", next(_fresh)),), (), (), (P(size),))


def acc(name, idx):
    return atom1(raw_atom("acc", (name,), (), (), tuple(P(i) for i in idx)))


def as_const(p):
    if not p.terms:
        return F0
    if len(p.terms) == 1 and p.terms[0][0] == ():
        return p.terms[0][1]
    return None


def as_int(p):
    c = as_const(p)
    if c is not None and c.denominator == 1:
        return int(c)
    return None


def as_atom(p):
    """the atom when p is exactly one atom with coefficient and exponent 1"""
    if len(p.terms) == 1:
        m, c = p.terms[0]
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return None


def as_mono(p):
    if len(p.terms) == 1:
        return p.terms[0]
    return None


# ------------------------------------------------------------------ arithmetic
def padd(p, q):
    if not p.terms:
        return q
    if not q.terms:
        return p
    d = dict(p.terms)
    for m, c in q.terms:
        d[m] = d.get(m, F0) + c
    r = _poly(d)
    return _post_add(r)


def psum(ps):
    d = {}
    for p in ps:
        for m, c in p.terms:
            d[m] = d.get(m, F0) + c
    return _post_add(_poly(d))


def pscale(p, c):
    c = Fraction(c)
    if c == 1:
        return p
    return _poly({m: k * c for m, k in p.terms})


def _post_add(r):
    """Re(z)^2 + Im(z)^2 -> z conj(z)"""
    for m, c in r.terms:
        for a, e in m:
            if a.op == "im" and e == 2:
                z = a.args[0]
                ra = re_of(z)
                rm = as_mono(ra)
                if rm is None or rm[1] != 1 or len(rm[0]) != 1:
                    continue
                rest = tuple(x for x in m if x[0] is not a)
                pm = _mono_mul(rest, ((rm[0][0][0], Fraction(2)),))
                if pm is None:
                    continue
                d = dict(r.terms)
                if d.get(pm) == c:
                    del d[m]
                    del d[pm]
                    return _post_add(padd(_poly(d), pmul(_poly({rest: c}), pmul(z, conj(z)))))
    hascorr = False
    usums = None
    for m, c in r.terms:
        u = i = False
        for a, e in m:
            o = a.op
            if o == "corr":
                i = True
            elif o == "U":
                u = True
            elif o == "sum" and e == 1:
                if not _NOUP[0] and any(x.op == "U" for bm, bc in a.bodies[0].terms for x, xe in bm):
                    if usums is None:
                        usums = []
                    usums.append((m, c, a))
        if u and i:
            hascorr = True
    if usums is not None and len(usums) > 1:
        d = dict(r.terms)
        for m, c, a in usums:
            for pa, v, val in _upartners(a):
                rest = tuple(x for x in m if x[0] is not a)
                if any(x[0] is pa for x in rest):
                    continue
                pm = _mono_mul(rest, ((pa, F1),))
                oth = d.get(pm)
                if oth is None or (oth > 0) == (c > 0) or pm == m:
                    continue
                k = c if abs(c) <= abs(oth) else -oth
                d[m] = c - k
                d[pm] = oth + k
                return padd(_poly(d), pmul(_poly({rest: k}), val()))
    if hascorr:
        r2 = _merge_lag0(r)
        if r2 is not r:
            return r2
    return r


def _sift(r):
    """([q >= 0] - [q - 1 >= 0]) f(v) = ([q >= 0] - [q - 1 >= 0]) f(v0), where q(v0) = 0"""
    d = dict(r.terms)
    for m, c in r.terms:
        for u, ue in m:
            if u.op != "U" or len(u.args[0].fv) < 2:
                continue
            q = u.args[0]
            lo = as_mono(step(q - 1))
            if lo is None or lo[1] != 1 or not lo[0]:
                continue
            rest = tuple(x for x in m if x[0] is not u)
            if not rest:
                continue
            pm = _mono_mul(rest, lo[0])
            oth = d.get(pm)
            if oth is None or (oth > 0) == (c > 0) or pm == m:
                continue
            v = max(q.fv, key=lambda x: x.id)
            s = _lin_coef(q, v)
            if s not in (1, -1):
                continue
            p = mono_poly(rest)
            if v not in p.fv:
                continue
            v0 = pscale(q - atom1(v) * s, -s)
            p2 = subst(p, {v: v0})
            if p2 is p:
                continue
            k = c if abs(c) <= abs(oth) else -oth
            d[m] = c - k
            d[pm] = oth + k
            return padd(_poly(d), pscale(pmul(p2, mono_poly(((u, F1),)) - mono_poly(lo[0])), k))
    return r


_UP = {}
_NOUP = [0]


def _upartners(a):
    _NOUP[0] += 1
    try:
        return _upartners1(a)
    finally:
        _NOUP[0] -= 1


def _upartners1(a):
    """[(sum with [q-1 >= 0] in place of [q >= 0], variable, collapsed value)] of a sum"""
    r = _UP.get(a.id)
    if r is not None:
        return r
    _UP[a.id] = r = ()
    if len(a.bodies[0].terms) == 1:
        m, c = a.bodies[0].terms[0]
        us = [x for x, e in m if x.op == "U"]
        if us and c == 1:
            bset = frozenset(a.bvars)
            r = []
            for u in us:
                q = u.args[0]
                for v in a.bvars:
                    if v not in q.fv:
                        continue
                    s = _lin_coef(q, v)
                    if s not in (1, -1):
                        continue
                    rest = tuple(x for x in m if x[0] is not u)
                    lo = as_mono(step(q - 1))
                    if lo is None or lo[1] != 1 or lo[0] == ():
                        continue
                    nb, bodies = open_atom(a)
                    ren = {x: atom1(y) for x, y in zip(a.bvars, nb)}
                    pmp = pmul(mono_poly(rest), mono_poly(lo[0]))
                    pp = mk_sum(tuple(nb), subst(pmp, ren))
                    pa = as_atom(pp)
                    if pa is None or pa is a:
                        continue

                    def val(nb=nb, ren=ren, rest=rest, q=q, v=v, s=s):
                        w = as_atom(ren[v])
                        q2 = subst(q, ren)
                        v0 = pscale(q2 - atom1(w) * s, -s)
                        f = subst(subst(mono_poly(rest), ren), {w: v0})
                        f = pmul(f, pmul(step(v0), step(w.args[0] - 1 - v0)))
                        return mk_sum(tuple(x for x in nb if x is not w), f)
                    r.append((pa, v, val))
                    break
    _UP[a.id] = r
    return r


def is_inner(a):
    """sum over one variable of a product of two signals: a correlation at lag 0"""
    r = _INNER.get(a.id)
    if r is None:
        r = False
        if a.op == "sum" and len(a.bvars) == 1 and len(a.bodies[0].terms) == 1:
            v = a.bvars[0]
            m, c = a.bodies[0].terms[0]
            tot = 0
            r = c == 1
            for x, e in m:
                if x.op != "acc" or e.denominator != 1 or e < 0 or as_atom(x.args[-1]) is not v or any(v in y.fv for y in x.args[:-1]):
                    r = False
                tot += e
            r = r and tot == 2
        _INNER[a.id] = r
    return r


_INNER = {}


def _lag0(a):
    """the inner product a correlation is at lag 0 (None: different lengths)"""
    k = (a.bvars, a.bodies)
    if k not in _LAG0:
        v, w = a.bvars
        r = None
        if v.args[0] is w.args[0]:
            nb, (f, g) = open_atom(a)
            r = mk_sum((nb[0],), pmul(f, subst(g, {nb[1]: atom1(nb[0])})))
        _LAG0[k] = r
    return _LAG0[k]


_LAG0 = {}


def _merge_lag0(r):
    """[q >= 0] corr(q) = [q - 1 >= 0] corr(q) + ([q >= 0] - [q - 1 >= 0]) corr(0)"""
    for m, c in r.terms:
        for a, e in m:
            if a.op != "corr" or e != 1:
                continue
            lag = a.args[0]
            if not lag.fv:
                continue
            for u, ue in m:
                if u.op != "U":
                    continue
                q = u.args[0]
                if q is not lag and (q + lag).terms:
                    continue
                z = _lag0(a)
                if z is None:
                    continue
                d = dict(r.terms)
                del d[m]
                x = tuple(y for y in m if y[0] is not u)
                y = tuple(y for y in x if y[0] is not a)
                lo = step(q - 1)
                add = pmul(mono_poly(x), lo) + pmul(pmul(mono_poly(y), z), mono_poly(((u, F1),)) - lo)
                return padd(_poly(d), pscale(add, c))
    return r


def _mono_mul(m1, m2):
    """plain merge of two monomials (tuple or None when it vanishes)"""
    d = {}
    for a, e in m1:
        d[a] = e
    for a, e in m2:
        if a in d:
            if a.op in BOOL_OPS:
                d[a] = F1
            else:
                d[a] = d[a] + e
        else:
            d[a] = e
    items = [(a, e) for a, e in d.items() if e != 0]
    items.sort(key=lambda x: x[0].id)
    return tuple(items)


def _fix_mono(m, c):
    """normal form of a monomial: combine step functions, expand paren powers.
    Returns a Poly."""
    us = [a for a, e in m if a.op == "U"]
    if len(us) > 1:
        for i in range(len(us)):
            for j in range(len(us)):
                if i != j:
                    q1, q2 = us[i].args[0], us[j].args[0]
                    d = q1 - q2
                    dv = as_const(d)
                    # q1 >= q2 always: q2>=0 implies q1>=0, drop us[i]
                    if (dv is not None and dv >= 0) or (dv is None and nonneg(d)):
                        m2 = tuple(x for x in m if x[0] is not us[i])
                        return _fix_mono(m2, c)
                    # q1>=0 and q2>=0 contradictory?
                    s = q1 + q2
                    sv = as_const(s)
                    if (sv is not None and sv < 0) or (sv is None and nonneg(-s - 1)):
                        return ZERO
    for a, e in m:
        if a.op == "paren" and e > 0 and e.denominator == 1 and e <= 4:
            rest = tuple(x for x in m if x[0] is not a)
            out = _fix_mono(rest, c)
            for _ in range(int(e)):
                out = pmul(out, a.args[0])
            return out
    return _poly({m: c})


def pmul(p, q):
    if not p.terms or not q.terms:
        return ZERO
    if p is ONE:
        return q
    if q is ONE:
        return p
    if len(p.terms) * len(q.terms) > MAXTERMS * 4:
        raise Blowup()
    d = {}
    extra = []
    for m1, c1 in p.terms:
        for m2, c2 in q.terms:
            m = _mono_mul(m1, m2)
            c = c1 * c2
            need = False
            nu = 0
            for a, e in m:
                if a.op == "U":
                    nu += 1
                elif a.op == "paren" and e > 0 and e.denominator == 1 and e <= 4:
                    need = True
            if need or nu > 1:
                extra.append(_fix_mono(m, c))
            else:
                d[m] = d.get(m, F0) + c
    r = _post_add(_poly(d))
    for x in extra:
        r = padd(r, x)
    return r


def _frac_root(c, e):
    """c**e for Fraction c>0, exact or None"""
    if e.denominator == 1:
        return c ** int(e)
    import math
    k = e.denominator

    def root(n):
        r = round(n ** (1.0 / k))
        for t in (r - 1, r, r + 1):
            if t >= 0 and t ** k == n:
                return t
        return None
    a, b = root(c.numerator), root(c.denominator)
    if a is None or b is None:
        return None
    return Fraction(a, b) ** e.numerator


def ppow(p, e):
    e = Fraction(e)
    if e == 1:
        return p
    if e == 0:
        return ONE
    if not p.terms:
        return ZERO if e > 0 else atom1(raw_atom("infc"))
    mono = as_mono(p)
    if mono is not None:
        m, c = mono
        out = {}
        res = ONE
        cc = F1
        if c < 0 and e.denominator != 1:
            return atom1(raw_atom("paren", (), (), (), (p,))) if False else _paren_pow(p, e)
        sgn = 1
        if c < 0:
            sgn = -1 if int(e) % 2 else 1
            c = -c
        r = _frac_root(c, e)
        if r is not None:
            cc = r
        else:
            res = _poly({((raw_atom("constp", (str(c),)), e),): F1})
        lst = []
        for a, k in m:
            if a.op in BOOL_OPS and e > 0:
                lst.append((a, F1))
                continue
            ke = k * e
            if e.denominator != 1 and k.denominator == 1 and int(k) % 2 == 0 and not atom_nonneg(a):
                # (a^2)^(1/2) = |a|
                ab = abs_of(atom1(a))
                res = pmul(res, ppow(ab, ke)) if as_mono(ab) is None or as_atom(ab) is not None and as_atom(ab).op == "abs" else pmul(res, ppow(ab, ke))
                continue
            lst.append((a, ke))
        lst.sort(key=lambda x: x[0].id)
        base = _fix_mono(tuple(lst), cc * sgn)
        return pmul(base, res)
    if e.denominator == 1 and 1 < e <= 4:
        r = p
        for _ in range(int(e) - 1):
            r = pmul(r, p)
        return r
    return _paren_pow(p, e)


def _paren_pow(p, e):
    # content: factor positive numeric content and common atom factors
    k = abs(p.terms[0][1])
    if e.denominator == 1 and lead_sign(p) < 0:
        k = -k
    q = pscale(p, 1 / k)
    # common factors
    common = None
    for m, c in q.terms:
        dm = dict(m)
        if common is None:
            common = dm
        else:
            common = {a: _common_exp(x, dm[a]) for a, x in common.items() if a in dm}
            common = {a: x for a, x in common.items() if x != 0}
    res = ONE
    if common:
        common = {a: x for a, x in common.items() if a.op not in BOOL_OPS}
        if e.denominator != 1:
            common = {a: x for a, x in common.items() if atom_nonneg(a)}
        if common:
            cm = tuple(sorted(common.items(), key=lambda x: x[0].id))
            inv = tuple((a, -x) for a, x in cm)
            q2 = psum([_poly({_mono_mul(m, inv): c}) for m, c in q.terms])
            res = ppow(_poly({cm: F1}), e)
            q = q2
            if as_mono(q) is not None:
                return pmul(pmul(res, ppow(const(k), e)), ppow(q, e))
    a = raw_atom("paren", (), (), (), (q,))
    r = _poly({((a, e),): F1})
    return pmul(pmul(res, r), ppow(const(k), e))


def _common_exp(x, y):
    if x > 0 and y > 0:
        return min(x, y)
    if x < 0 and y < 0:
        return max(x, y)
    return F0


# ------------------------------------------------------------------ sign facts
def atom_nonneg(a):
    op = a.op
    if op in ("sym", "slk", "ivar", "pow2", "mod", "abs", "constp", "lsa", "infc", "fastlen", "count", "nz"):
        return True
    if op in BOOL_OPS:
        return True
    if op == "isym":
        return True
    if op == "paren":
        return poly_val_nonneg(a.args[0])
    if op == "sum":
        return poly_val_nonneg(a.bodies[0])
    if op == "max":
        return any(poly_val_nonneg(x) for x in a.args)
    if op == "min":
        return all(poly_val_nonneg(x) for x in a.args)
    if op == "exp10":
        return True
    if op == "powx":
        return poly_val_nonneg(a.args[0])
    if op == "fdiv":
        return nonneg(a.args[0])
    if op == "redmin" or op == "redmax":
        return poly_val_nonneg(a.bodies[0])
    return False


def poly_val_nonneg(p):
    """value of p is >= 0 (sufficient syntactic test)"""
    if p.cplx:
        # z*conj(z) products only
        pass
    for m, c in p.terms:
        if c < 0:
            return _sum_of_squares(p)
        if not _mono_nonneg(m):
            return _sum_of_squares(p)
    return True


def _sum_of_squares(p):
    # variance pattern  S2 - n^-1 S1^2  with S2 = sum x^2, S1 = sum x (Cauchy-Schwarz)
    if len(p.terms) != 2:
        return False
    (m1, c1), (m2, c2) = p.terms
    if c1 < 0:
        (m1, c1), (m2, c2) = (m2, c2), (m1, c1)
    if not (c1 > 0 and c2 == -c1):
        return False
    if len(m1) == 1 and m1[0][0].op == "sum" and m1[0][1] == 1:
        s2 = m1[0][0]
        for a, e in m2:
            if a.op == "sum" and e == 2:
                sq = pmul(a.bodies[0], a.bodies[0]) if len(a.bvars) == 1 else None
                if sq is s2.bodies[0]:
                    return True
    return False


def _mono_nonneg(m):
    cj = {}
    for a, e in m:
        if a.op == "conj":
            z = as_atom(a.args[0])
            if z is not None:
                cj[z] = e
    for a, e in m:
        if e.denominator == 1 and int(e) % 2 == 0 and not a.cplx:
            continue
        if a.op == "conj":
            z = as_atom(a.args[0])
            if z is not None and any(x is z and k == e for x, k in m):
                continue
            return False
        if a in cj and cj[a] == e:
            continue
        if not atom_nonneg(a):
            return False
    return True


def nonneg(q):
    """prove q >= 0 for all index values and sizes allowed by the context"""
    ctx = CTX[0]
    r = ctx.memo.get(q.id)
    if r is None:
        r = _nonneg(q, 12)
        ctx.memo[q.id] = r
    return r


def positive(q):
    return nonneg(q - 1)


def _coef_of(q, a):
    """(coef, rest) of q as linear in atom a; None when nonlinear"""
    co, rest = {}, {}
    for m, c in q.terms:
        e = None
        for x, k in m:
            if x is a:
                e = k
        if e is None:
            if any(a in x.fv or _mentions(x, a) for x, k in m if x is not a):
                return None
            rest[m] = c
        elif e == 1:
            mm = tuple(y for y in m if y[0] is not a)
            if any(a in x.fv or _mentions(x, a) for x, k in mm):
                return None
            co[mm] = c
        else:
            return None
    return _poly(co), _poly(rest)


def _mentions(x, a):
    if x is a:
        return True
    for p in x.args:
        if p is not None:
            for m, c in p.terms:
                for y, k in m:
                    if _mentions(y, a):
                        return True
    return False


def _nonneg(q, depth):
    c = as_const(q)
    if c is not None:
        return c >= 0
    if depth <= 0:
        return False
    if q.unk:
        return False
    ctx = CTX[0]
    # composite atoms that mention index variables block the elimination of these
    atoms = []
    for m, k in q.terms:
        for a, e in m:
            if a not in atoms:
                atoms.append(a)
    # 1. composite integer atoms
    for a in atoms:
        if a.op in ("max", "min", "pow2", "fastlen", "count", "fdiv", "mod", "abs", "U", "lsa", "argred", "nz"):
            cr = _coef_of(q, a)
            if cr is None:
                return False
            co, rest = cr
            if _nonneg(co, depth - 1):
                sgn = 1
            elif _nonneg(-co, depth - 1):
                sgn = -1
            else:
                return False
            if a.op == "U":
                lo, hi = [ZERO], [ONE]
            elif a.op == "pow2":
                lo, hi = [a.args[0]], [a.args[0] * 2 - 1]
            elif a.op == "fastlen":
                lo, hi = [a.args[0]], [a.args[0] * 2]
            elif a.op == "count":
                n = ONE
                for v in a.bvars:
                    n = n * v.args[0]
                lo, hi = [ZERO], [n]
            elif a.op == "nz":
                lo, hi = [ZERO], [a.bvars[a.attrs[0]].args[0] - 1]
            elif a.op == "fdiv":
                x, k = a.args
                lo, hi = [(x - k + 1) / k, ZERO], [x / k]
            elif a.op == "mod":
                lo, hi = [ZERO], [a.args[1] - 1]
            elif a.op == "abs":
                lo, hi = [ZERO, a.args[0], -a.args[0]], None
            elif a.op in ("lsa", "argred"):
                lo, hi = [ZERO], [P(a.bvars[0 if a.attrs[0] == "row" else 1].args[0]) - 1] if a.op == "lsa" else None
            elif a.op == "max":
                lo, hi = list(a.args), "all"
            else:
                lo, hi = "all", list(a.args)
            if sgn > 0:
                if lo == "all":
                    return all(_nonneg(rest + co * b, depth - 1) for b in a.args)
                return any(_nonneg(rest + co * b, depth - 1) for b in lo)
            if hi is None:
                return False
            if hi == "all":
                return all(_nonneg(rest + co * b, depth - 1) for b in a.args)
            return any(_nonneg(rest + co * b, depth - 1) for b in hi)
    # 2. index variables
    for a in atoms:
        if a.op == "ivar":
            cr = _coef_of(q, a)
            if cr is None:
                return False
            co, rest = cr
            if _nonneg(co, depth - 1):
                return _nonneg(rest, depth - 1)
            if _nonneg(-co, depth - 1):
                return _nonneg(rest + co * (a.args[0] - 1), depth - 1)
            return False
    # 3. sizes -> slack variables
    q2 = q
    for _ in range(8):
        sub = {}
        for m, k in q2.terms:
            for a, e in m:
                if a.op in ("sym", "isym") and a not in sub:
                    s = ctx.slack.get(a.id)
                    if s is None:
                        if a.op == "isym":
                            return False
                        s = slk("d_" + str(a.attrs[0])) + 1
                    sub[a] = s
        if not sub:
            break
        q2 = subst(q2, sub)
    for m, k in q2.terms:
        if k < 0:
            return False
        for a, e in m:
            if a.op != "slk" or e < 0:
                return False
    return True


# ------------------------------------------------------------------ substitution
def subst(p, sub, memo=None):
    """simultaneous substitution {ivar/sym atom: Poly} through smart constructors"""
    if not sub:
        return p
    if memo is None:
        memo = {}
    keys = frozenset(sub)
    syms = any(k.op != "ivar" for k in sub)
    return _subst(p, sub, keys, syms, memo)


def _subst(p, sub, keys, syms, memo):
    if not syms and not (p.fv & keys):
        return p
    r = memo.get(p.id)
    if r is not None:
        return r
    out = []
    acc0 = {}
    for m, c in p.terms:
        keep = []
        fac = []
        for a, e in m:
            if a in sub:
                fac.append(ppow(sub[a], e))
            elif syms or (a.fv & keys):
                fac.append(ppow(_subst_atom(a, sub, keys, syms, memo), e))
            else:
                keep.append((a, e))
        if not fac:
            acc0[m] = acc0.get(m, F0) + c
            continue
        t = _poly({tuple(keep): c})
        for f in fac:
            t = pmul(t, f)
        out.append(t)
    r = psum([_poly(acc0)] + out)
    memo[p.id] = r
    return r


def _subst_atom(a, sub, keys, syms, memo):
    r = memo.get(a.id)
    if r is not None:
        return r
    if a in sub:
        return sub[a]
    if a.op in ("ivar",):
        if syms:
            sz = _subst(a.args[0], sub, keys, syms, memo)
            if sz is not a.args[0]:
                r = atom1(raw_atom("ivar", a.attrs, (), (), (sz,)))
                memo[a.id] = r
                return r
        return atom1(a)
    if not a.args and not a.bodies and a.op != "def":
        return atom1(a)
    if syms and a.op == "def":
        r = _subst(def_body(a), sub, keys, syms, memo)
        memo[a.id] = r
        return r
    args = tuple(_subst(x, sub, keys, syms, memo) if x is not None else None for x in a.args)
    if a.bvars:
        fvs = memo.get("fv")
        if fvs is None:
            fvs = frozenset().union(*[x.fv for x in sub.values()])
            memo["fv"] = fvs
        bset = frozenset(a.bvars)
        r = None
        if not (fvs & bset) and not (keys & bset):
            ok = True
            for v in a.bvars:
                if _subst(v.args[0], sub, keys, syms, memo) is not v.args[0]:
                    ok = False
                    break
            if ok:
                try:
                    bodies = tuple(_subst(b, sub, keys, syms, memo) for b in a.bodies)
                    r = rebuild(a.op, a.attrs, a.bvars, bodies, args)
                except Collide:
                    r = None
        if r is None:
            inner = dict(sub)
            nb = []
            for v in a.bvars:
                nv = ivar(_subst(v.args[0], sub, keys, syms, memo))
                nb.append(nv)
                inner[v] = atom1(nv)
            k2 = frozenset(inner)
            m2 = {}
            LAX[0] += 1
            try:
                bodies = tuple(_subst(b, inner, k2, syms, m2) for b in a.bodies)
                r = rebuild(a.op, a.attrs, tuple(nb), bodies, args)
            finally:
                LAX[0] -= 1
    else:
        r = rebuild(a.op, a.attrs, (), (), args)
    memo[a.id] = r
    return r


def map_atoms(p, f, memo=None):
    """rebuild p bottom-up; f(atom)-> Poly or None to recurse"""
    if memo is None:
        memo = {}
    if p.id in memo:
        return memo[p.id]
    out = []
    for m, c in p.terms:
        t = const(c)
        for a, e in m:
            t = pmul(t, ppow(_map_atom(a, f, memo), e))
        out.append(t)
    r = psum(out) if out else ZERO
    memo[p.id] = r
    return r


def _map_atom(a, f, memo):
    if a.id in memo:
        return memo[a.id]
    r = f(a)
    if r is None:
        if a.op == "def":
            r = map_atoms(def_body(a), f, memo)
        elif not a.args and not a.bodies or a.op == "ivar":
            r = atom1(a)
        else:
            args = tuple(map_atoms(x, f, memo) if x is not None else None for x in a.args)
            r = None
            if a.bvars:
                try:
                    bodies = tuple(map_atoms(b, f, memo) for b in a.bodies)
                    r = rebuild(a.op, a.attrs, a.bvars, bodies, args)
                except Collide:
                    sub = {}
                    nb = []
                    for v in a.bvars:
                        nv = ivar(v.args[0])
                        nb.append(nv)
                        sub[v] = atom1(nv)
                    bodies = tuple(map_atoms(subst(b, sub), f, memo) for b in a.bodies)
                    r = rebuild(a.op, a.attrs, tuple(nb), bodies, args)
            else:
                r = rebuild(a.op, a.attrs, (), (), args)
    memo[a.id] = r
    return r


def walk_atoms(p, seen=None):
    """all atoms reachable from p (including inside binders)"""
    if seen is None:
        seen = {}
    stack = [p]
    while stack:
        q = stack.pop()
        for m, c in q.terms:
            for a, e in m:
                if a.id in seen:
                    continue
                seen[a.id] = a
                stack.extend(x for x in a.args if x is not None)
                stack.extend(a.bodies)
                if a.op == "def":
                    stack.append(DEFS[a.attrs[0]][1])
                if a.op != "ivar":
                    stack.extend(v.args[0] for v in a.bvars)
    return seen


# ------------------------------------------------------------------ binders
LAX = [0]       # bound names escaped from their binder by a walk: skip heights in use instead of failing


def mk_atom(op, attrs, bvars, bodies, args):
    """atom with canonical bound names"""
    if not bvars:
        return raw_atom(op, attrs, (), bodies, args)
    h = max([b.bh for b in bodies] + [0]) + 1
    vs = tuple(bvars)
    for _ in range(40):
        # a variable free in the bodies with a name of this height would be captured
        bset = frozenset(vs)
        if any(v.attrs[0][0] == "b" and v.attrs[0][1] == h and v not in bset for b in bodies for v in b.fv):
            if not LAX[0]:
                raise Collide()
            h += 1
            continue
        nv = tuple(raw_atom("ivar", (("b", h, i),), (), (), v.args) for i, v in enumerate(vs))
        if nv != vs:
            sub = {v: atom1(w) for v, w in zip(vs, nv)}
            try:
                bodies = tuple(subst(b, sub) for b in bodies)
            except Collide:
                h += 1
                continue
            vs = nv
        h2 = max([b.bh for b in bodies] + [0]) + 1
        if h2 == h or LAX[0] and h2 < h:
            return raw_atom(op, attrs, vs, bodies, args)
        h = h2
    raise Blowup()


def open_atom(a):
    """(fresh vars, bodies) of a binder"""
    sub = {}
    nb = []
    for v in a.bvars:
        nv = ivar(v.args[0])
        nb.append(nv)
        sub[v] = atom1(nv)
    return nb, [subst(b, sub) for b in a.bodies]


def split_by(m, vs):
    """split a monomial in (independent of vs, dependent on vs)"""
    ind, dep = [], []
    for a, e in m:
        (dep if (a.fv & vs) else ind).append((a, e))
    return tuple(ind), tuple(dep)


def mono_poly(m, c=F1):
    return _poly({m: F1 * c}) if m or c != 0 else ZERO


def mk_sum(bvars, body):
    """sum over index variables; linear, independent factors pulled out"""
    bvars = tuple(bvars)
    if not bvars:
        return body
    out = []
    if len(body.terms) > 1:
        body, col = _collapse(bvars, body)
        for bv, b in col:
            out.append(mk_sum(bv, b))
    for m, c in body.terms:
        out.append(pscale(_sum_mono(bvars, m), c))
    return psum(out) if out else ZERO


def _collapse(bvars, body):
    """sum_v [q(v) == 0] f(v) = f(v0): (remaining body, [(remaining variables, collapsed body)])"""
    bset = frozenset(bvars)
    cand = [(m, c) for m, c in body.terms if any(a.op == "U" and (a.args[0].fv & bset) for a, e in m)]
    if len(cand) < 2:
        return body, ()
    d = dict(body.terms)
    got = {}
    for m, c in cand:
        if d.get(m, F0) == 0:
            continue
        for a, e in m:
            if a.op != "U" or not (a.args[0].fv & bset):
                continue
            q = a.args[0]
            v = s = None
            for w in bvars:
                if w in q.fv:
                    k = _lin_coef(q, w)
                    if k in (1, -1):
                        v, s = w, k
                        break
            if v is None:
                continue
            rest = tuple(x for x in m if x[0] is not a)
            lo = step(q - 1)
            lm = as_mono(lo)
            if lm is None or lm[1] != 1:
                continue
            pm = as_mono(pmul(mono_poly(rest), lo))
            if pm is None or pm[1] != 1:
                continue
            cur = d.get(m, F0)
            oth = d.get(pm[0], F0)
            if cur == 0 or oth == 0 or (cur > 0) == (oth > 0) or pm[0] == m:
                continue
            k = cur if abs(cur) <= abs(oth) else -oth
            d[m] = cur - k
            d[pm[0]] = oth + k
            v0 = pscale(q - atom1(v) * s, -s)
            n = v.args[0]
            val = pmul(subst(mono_poly(rest, k), {v: v0}), pmul(step(v0), step(n - 1 - v0)))
            bv = tuple(w for w in bvars if w is not v)
            got[bv] = got.get(bv, ZERO) + val
            break
    if not got:
        return body, ()
    return _poly(d), list(got.items())


def _lin_coef(q, v):
    """coefficient of v when q is linear in it, else None"""
    k = None
    for m, c in q.terms:
        for a, e in m:
            if a is v:
                if len(m) != 1 or e != 1:
                    return None
                k = c
            elif v in a.fv:
                return None
    return k


def _sum_mono(bvars, m):
    vs = frozenset(bvars)
    ind, dep = split_by(m, vs)
    used = frozenset().union(*[a.fv for a, e in dep]) if dep else frozenset()
    res = mono_poly(ind)
    rem = []
    for v in bvars:
        if v in used:
            rem.append(v)
        else:
            res = pmul(res, v.args[0])
    if not rem:
        return pmul(res, mono_poly(dep))
    # flatten nested sums with exponent 1
    for a, e in dep:
        if a.op == "sum" and e == 1 and not is_inner(a):
            nb, bodies = open_atom(a)
            rest = tuple(x for x in dep if x[0] is not a)
            return pmul(res, mk_sum(tuple(rem) + tuple(nb), pmul(mono_poly(rest), bodies[0])))
    # single ivar polynomial sums: sum_{v<n} v
    if len(rem) == 1 and len(dep) == 1 and dep[0][0] is rem[0]:
        n = rem[0].args[0]
        if dep[0][1] == 1:
            return pmul(res, n * (n - 1) * Fraction(1, 2))
    # step-function ranges: sum_v U(v - c) f(v) etc. stay opaque
    body = mono_poly(dep)
    at = _best_perm("sum", (), tuple(rem), (body,), ())
    if len(at.bodies[0].terms) > 1 and len(body.terms) == 1 and _SPLIT[0] < 4:
        # the canonical names turned a step function round: sum its parts
        _SPLIT[0] += 1
        try:
            return pmul(res, mk_sum(at.bvars, at.bodies[0]))
        finally:
            _SPLIT[0] -= 1
    return pmul(res, atom1(at))


_SPLIT = [0]


def _best_perm(op, attrs, bvars, bodies, args):
    """canonical order of symmetric bound variables"""
    bvars = tuple(sorted(bvars, key=lambda v: v.args[0].id))
    if len(bvars) == 1:
        return mk_atom(op, attrs, bvars, bodies, args)
    groups = []
    for k, g in itertools.groupby(bvars, key=lambda v: v.args[0].id):
        groups.append(list(g))
    if all(len(g) == 1 for g in groups):
        return mk_atom(op, attrs, bvars, bodies, args)
    n = 1
    best = None
    for combo in itertools.product(*[itertools.permutations(g) for g in groups]):
        n += 1
        if n > 30:
            break
        a = mk_atom(op, attrs, tuple(v for g in combo for v in g), bodies, args)
        if best is None or a.id < best.id:
            best = a
    return best


def common_factor(body, vs):
    """monomial of atoms independent of vs common to all terms of body"""
    common = None
    for m, c in body.terms:
        ind, dep = split_by(m, vs)
        d = dict(ind)
        if common is None:
            common = d
        else:
            common = {a: _common_exp(x, d[a]) for a, x in common.items() if a in d}
    if not common:
        return ()
    return tuple(sorted([(a, e) for a, e in common.items() if e != 0 and a.op not in BOOL_OPS],
                        key=lambda x: x[0].id))


def divide_mono(body, cm):
    inv = tuple((a, -e) for a, e in cm)
    return psum([_fix_mono(_mono_mul(m, inv), c) for m, c in body.terms])


def numeric_content(body):
    """positive leading magnitude used to normalise linear operators"""
    if not body.terms:
        return F1
    if len(body.terms) == 1:
        return body.terms[0][1]
    c0 = abs(body.terms[0][1])
    s = lead_sign(body)
    if all(abs(c) == c0 for m, c in body.terms):
        return c0 * s
    return F1 * s


_SHAPE = {}


def shape(a):
    """a number for the structure of an atom that does not depend on the names of its variables"""
    r = _SHAPE.get(a.id)
    if r is None:
        if a.op == "ivar":
            r = 7
        else:
            at = shape_poly(DEFS[a.attrs[0]][1]) if a.op == "def" else repr(a.attrs)
            args = [shape_poly(x) if x is not None else 0 for x in a.args]
            if a.op in ("max", "min"):
                args.sort()
            bodies = [shape_poly(b) for b in a.bodies]
            if a.op == "corr":
                bodies.sort()
            r = zlib.crc32(repr((a.op, at, bodies, args, len(a.bvars))).encode())
        _SHAPE[a.id] = r
    return r


def shape_poly(p):
    r = _SHAPE.get(("p", p.id))
    if r is None:
        r = zlib.crc32(repr(sorted((sorted((shape(a), e) for a, e in m), abs(c)) for m, c in p.terms)).encode())
        _SHAPE["p", p.id] = r
    return r


def lead_sign(p):
    """sign of the leading coefficient in an order that does not depend on the names of variables"""
    best = None
    for m, c in p.terms:
        k = sorted((shape(a), e) for a, e in m)
        if best is None or k < best[0]:
            best = (k, c)
    return 1 if best[1] > 0 else -1


def mk_rfft(v, n, body, k):
    """sum over the samples of body(v) zero padded / truncated to n, at frequency k"""
    if not body.terms:
        return ZERO
    vs = frozenset([v])
    cf = common_factor(body, vs)
    out = ONE
    if cf:
        out = mono_poly(cf)
        body = divide_mono(body, cf)
    nc = numeric_content(body)
    if nc != 1:
        out = pscale(out, nc)
        body = pscale(body, 1 / nc)
    return pmul(out, atom1(mk_atom("rfft", (), (v,), (body,), (P(n), P(k)))))


def zero_ext(size, f, k):
    """f(k) for 0 <= k < size, else 0"""
    k = P(k)
    g = pmul(step(k), ONE - step(k - size))
    if not g.terms:
        return ZERO
    return pmul(g, f(k))


def mk_irfft(v, n, body, i):
    """inverse transform over frequency variable v, length n, at sample i"""
    n, i = P(n), P(i)
    if not body.terms:
        return ZERO
    vs = frozenset([v])
    out = []
    for m, c in body.terms:
        ind, dep = split_by(m, vs)
        out.append(pscale(pmul(mono_poly(ind), _irfft_mono(v, n, dep, i)), c))
    return psum(out)


def _rfft_parts(dep, v, n):
    """factors of dep as (conj?, rfft atom) evaluated at v with length n; None otherwise"""
    parts = []
    for a, e in dep:
        cj = False
        b = a
        if a.op == "conj":
            b = as_atom(a.args[0])
            cj = True
        if b is None or b.op != "rfft" or e.denominator != 1 or e < 1:
            return None
        nn, k = b.args
        if nn is not n or as_atom(k) is not v:
            return None
        for _ in range(int(e)):
            parts.append((cj, b))
    return parts


def _irfft_mono(v, n, dep, i):
    # push through sums over other variables
    for a, e in dep:
        if a.op == "sum" and e == 1:
            nb, bodies = open_atom(a)
            rest = tuple(x for x in dep if x[0] is not a)
            return mk_sum(nb, mk_irfft(v, n, pmul(mono_poly(rest), bodies[0]), i))
    parts = _rfft_parts(dep, v, n)
    if parts is not None and 1 <= len(parts) <= 2:
        ok = True
        for cj, b in parts:
            if not nonneg(n - b.bvars[0].args[0]):
                ok = False
        if ok:
            def sig(b):
                def f(k):
                    return subst(b.bodies[0], {b.bvars[0]: P(k)})
                return f
            if len(parts) == 1:
                cj, b = parts[0]
                T = b.bvars[0].args[0]
                if not cj:
                    return zero_ext(T, sig(b), i)
                return zero_ext(T, sig(b), -i) + zero_ext(T, sig(b), n - i)
            (c1, b1), (c2, b2) = parts
            if c1 != c2:
                if c2:
                    b1, b2 = b2, b1
                # conj(b1) b2 : correlation  sum_t b1[t] b2[t+i]  (circular)
                return mk_corr_atoms(b1, b2, i) + mk_corr_atoms(b1, b2, i - n)
            if not c1:
                return _conv(b1, b2, i) + _conv(b1, b2, i + n)
    body = mono_poly(dep)
    if not (frozenset([v]) & body.fv):
        # constant over frequency: n * delta -> value at 0
        return pmul(body, delta(i))
    return atom1(mk_atom("irfft", (), (v,), (body,), (n, i)))


def mk_corr_atoms(b1, b2, lag):
    return mk_corr(b1.bvars[0], b1.bodies[0], b2.bvars[0], b2.bodies[0], lag)


def mk_corr(v1, a, v2, b, lag):
    """sum_t a(t) b(t + lag), signals zero outside their range"""
    lag = P(lag)
    if not a.terms or not b.terms:
        return ZERO
    Ta, Tb = v1.args[0], v2.args[0]
    # outside of the support
    if nonneg(lag - Tb) or nonneg(-lag - Ta):
        return ZERO
    out = ONE
    for w in (0, 1):
        body, v = ((a, v1), (b, v2))[w]
        cf = common_factor(body, frozenset([v]))
        if cf:
            out = pmul(out, mono_poly(cf))
            body = divide_mono(body, cf)
        nc = numeric_content(body)
        if nc != 1:
            out = pscale(out, nc)
            body = pscale(body, 1 / nc)
        if w == 0:
            a = body
        else:
            b = body
    if as_const(lag) == 0 and Ta is Tb:
        t = ivar(Ta)
        return pmul(out, mk_sum((t,), pmul(subst(a, {v1: atom1(t)}), subst(b, {v2: atom1(t)}))))
    # canonical orientation: corr(a,b)[k] = corr(b,a)[-k]
    la = raw_atom("ivar", (("b", 1000, 0),), (), (), (Ta,))
    lb = raw_atom("ivar", (("b", 1000, 0),), (), (), (Tb,))
    ka = subst(a, {v1: atom1(la)})
    kb = subst(b, {v2: atom1(lb)})
    swap = False
    if ka is kb:
        if canon_sign(lag) < 0:
            lag = -lag
    elif ka.id > kb.id:
        swap = True
    if swap:
        v1, a, v2, b, lag = v2, b, v1, a, -lag
    if v1 is v2:
        nv = ivar(v2.args[0])
        b = subst(b, {v2: atom1(nv)})
        v2 = nv
    return pmul(out, atom1(mk_atom("corr", (), (v1, v2), (a, b), (lag,))))


def canon_sign(q):
    """+1/-1: sign of the first non-constant monomial in canonical order"""
    best = None
    for m, c in q.terms:
        if m == ():
            continue
        k = (0 if any(a.op == "ivar" or a.fv for a, e in m) else 1, tuple((a.id, e) for a, e in m))
        if best is None or k < best[0]:
            best = (k, c)
    if best is None:
        c = as_const(q)
        return -1 if c is not None and c < 0 else 1
    return 1 if best[1] > 0 else -1


def _conv(b1, b2, i):
    """sum_j b1[j] b2[i-j] with zero extension; the shorter signal is enumerated"""
    T1, T2 = b1.bvars[0].args[0], b2.bvars[0].args[0]
    if T1 is not T2 and nonneg(T1 - T2) and not nonneg(T2 - T1):
        b1, b2, T1, T2 = b2, b1, T2, T1
    elif T1 is T2 and b1.id > b2.id:
        b1, b2, T1, T2 = b2, b1, T2, T1
    if nonneg(i - (T1 + T2 - 1)) or nonneg(-i - 1):
        return ZERO
    j = ivar(T1)
    f = subst(b1.bodies[0], {b1.bvars[0]: atom1(j)})
    g = zero_ext(T2, lambda k: subst(b2.bodies[0], {b2.bvars[0]: k}), i - atom1(j))
    return mk_sum((j,), pmul(f, g))


# ---- index predicates
BIGS = set()        # large constants sizes are compared with
RESCALE = {}        # constant -> replacement, for the analysis with reduced thresholds


def note_big(q):
    for m, c in q.terms:
        if not m and 24 <= abs(c) < 10 ** 12 and c.denominator == 1 and len(q.terms) > 1:
            BIGS.add(int(abs(c)))


def step(q):
    """[q >= 0] for an integer index expression q"""
    q = P(q)
    note_big(q)
    if nonneg(q):
        return ONE
    if nonneg(-q - 1):
        return ZERO
    if q.unk:
        return atom1(raw_atom("U", (), (), (), (q,)))
    if canon_sign(q) < 0:
        # [q>=0] = 1 - [-q-1>=0]
        return ONE - atom1(raw_atom("U", (), (), (), (-q - 1,)))
    return atom1(raw_atom("U", (), (), (), (q,)))


def delta(q):
    """[q == 0]"""
    q = P(q)
    if not q.terms:
        return ONE
    if canon_sign(q) < 0:
        q = -q
    return step(q) - step(q - 1)


def int_abs(q):
    q = P(q)
    if nonneg(q):
        return q
    if nonneg(-q):
        return -q
    s = step(q)
    return s * q * 2 - q


# ---- bool algebra on 0/1 polynomials
def bnot(p):
    return ONE - p


def band(p, q):
    return pmul(p, q)


def bor(p, q):
    if p is q:
        return p
    return p + q - pmul(p, q)


def bool_const(p):
    c = as_const(p)
    if c is None:
        return None
    return c != 0


def is_index_poly(q):
    """integer polynomial over sizes / index variables (no data)"""
    for m, c in q.terms:
        if c.denominator != 1:
            # allow fractional only if harmless
            return False
        for a, e in m:
            if e.denominator != 1 or e < 0:
                return False
            if a.op in ("sym", "ivar", "isym", "slk"):
                continue
            if a.op in ("pow2", "fastlen", "fdiv", "mod", "max", "min"):
                if all(is_index_poly(x) for x in a.args):
                    continue
                return False
            if a.op in ("lsa", "argred", "count", "nz"):
                continue
            if a.op == "U":
                continue
            return False
    return True


def inf_part(q):
    """(sign, rest) when q = +-k*inf + rest with rest free of the constant inf"""
    hit = [(m, c) for m, c in q.terms if any(a.op == "infc" for a, e in m)]
    if len(hit) != 1 or len(hit[0][0]) != 1 or len(q.terms) < 2:
        return None
    (m, c), = hit
    return (1 if c > 0 else -1), q - mono_poly(m, c)


def gt0(q):
    """[q > 0]"""
    q = P(q)
    c = as_const(q)
    if c is not None:
        return ONE if c > 0 else ZERO
    ip = inf_part(q)
    if ip is not None:
        if ip[0] < 0:
            return ZERO
        return (ONE - isneginf(ip[1])) * (ONE - isnan(ip[1]))
    m = as_mono(q)
    if m is not None and m[1] > 0 and any(a.op == "count" for a, e in m[0]):
        return ONE - eq0(q)
    if is_index_poly(q):
        return step(q - 1)
    note_big(q)
    k = abs(q.terms[0][1])
    return atom1(raw_atom("pos", (), (), (), (pscale(q, 1 / k),)))


def ge0(q):
    q = P(q)
    c = as_const(q)
    if c is not None:
        return ONE if c >= 0 else ZERO
    if is_index_poly(q):
        return step(q)
    ip = inf_part(q)
    if ip is not None:
        return isposinf(ip[1]) if ip[0] < 0 else ONE - isnan(ip[1])
    return ONE - gt0(-q)


def eq0(q):
    q = P(q)
    c = as_const(q)
    if c is not None:
        return ONE if c == 0 else ZERO
    ip = inf_part(q)
    if ip is not None:
        return isneginf(ip[1]) if ip[0] > 0 else isposinf(ip[1])
    m = as_mono(q)
    if m is not None and any(a.op == "count" for a, e in m[0]):
        r = ZERO
        for a, e in m[0]:
            if a.op == "count":
                vs, bs = open_atom(a)
                r = bor(r, ONE - mk_any(vs, bs[0]))
            else:
                r = bor(r, eq0(atom1(a)))
        return r
    if is_index_poly(q):
        return delta(q)
    k = q.terms[0][1]
    return atom1(raw_atom("eq0", (), (), (), (pscale(q, 1 / k),)))


# ---- max / min
def mk_max(items):
    return _mk_ext("max", items)


def mk_min(items):
    return _mk_ext("min", items)


def _mk_ext(op, items):
    flat = []
    for x in items:
        x = P(x)
        a = as_atom(x)
        if a is not None and a.op == op:
            flat.extend(a.args)
        else:
            flat.append(x)
    cst = None
    rest = []
    for x in flat:
        c = as_const(x)
        if c is not None:
            cst = c if cst is None else (max(cst, c) if op == "max" else min(cst, c))
        elif x not in rest:
            rest.append(x)
    if cst is not None:
        rest.append(const(cst))
        if rest[:-1] and 24 <= abs(cst) < 10 ** 12 and cst.denominator == 1:
            BIGS.add(int(abs(cst)))
    if op == "max" and ASSUME_NORM[0] and cst is not None and len(rest) == 2 and 0 < cst and norm_dominates(rest[0], cst):
        return rest[0]
    # prune with sign proofs (integers) / value signs
    changed = True
    while changed and len(rest) > 1:
        changed = False
        for x in list(rest):
            for y in list(rest):
                if x is y:
                    continue
                dom = _val_ge(x, y)      # x >= y
                if dom:
                    rest.remove(y if op == "max" else x)
                    changed = True
                    break
            if changed:
                break
    if len(rest) == 1:
        return rest[0]
    rest.sort(key=lambda p: p.id)
    if op == "max" and len(rest) == 2:
        # max(min(x, hi), lo) with constants lo <= hi -> min(max(x, lo), hi)
        for i in (0, 1):
            lo = as_const(rest[i])
            a = as_atom(rest[1 - i])
            if lo is not None and a is not None and a.op == "min" and len(a.args) == 2:
                for j in (0, 1):
                    hi = as_const(a.args[j])
                    if hi is not None and lo <= hi:
                        return _mk_ext("min", [_mk_ext("max", [a.args[1 - j], rest[i]]), a.args[j]])
    return atom1(raw_atom(op, (), (), (), tuple(rest)))


# the norm of every signal is assumed to exceed 1e-6 (when set)
ASSUME_NORM = [False]


def norm_dominates(p, c):
    """p is a signal norm raised to some power k and c <= (1e-6)^k"""
    m = as_mono(p)
    if m is None or m[1] <= 0:
        return False
    k = F0
    for a, e in m[0]:
        if a.op in ("sum", "corr", "paren") and e > 0 and poly_val_nonneg(atom1(a)):
            k += 2 * e
        elif a.op == "abs" and e > 0 and as_atom(a.args[0]) is not None and as_atom(a.args[0]).op == "acc" \
                and str(as_atom(a.args[0]).attrs[0]).startswith("scale_"):
            continue
        elif a.op == "param" and str(a.attrs[0]).startswith("scale_"):
            continue
        else:
            return False
    if k == 0:
        return False
    return float(c) <= 1.0000001 * (1e-6 / float(m[1] ** (1 / k) if k == 1 else 1.0)) ** float(k)


def _val_ge(x, y):
    d = x - y
    c = as_const(d)
    if c is not None:
        return c >= 0
    if is_index_poly(d):
        return nonneg(d)
    cy = as_const(y)
    if cy is not None and cy <= 0 and poly_val_nonneg(x):
        return True
    cx = as_const(x)
    if cx is not None and cx >= 0 and poly_val_nonneg(-y):
        return True
    a = as_atom(x)
    if a is not None and a.op == "max" and any(_val_ge(t, y) for t in a.args if as_const(t) is not None):
        return True
    a = as_atom(y)
    if a is not None and a.op == "min" and any(_val_ge(x, t) for t in a.args if as_const(t) is not None):
        return True
    return False


def mk_fdiv(x, k):
    x, k = P(x), P(k)
    kc = as_const(k)
    if kc == 1:
        return x
    # exact parts
    q, r = _divmod_split(x, k)
    if r is not None:
        if not r.terms:
            return q
        if nonneg(r) and nonneg(k - r - 1):
            return q
        if q.terms:
            return q + mk_fdiv_raw(r, k)
    return mk_fdiv_raw(x, k)


def mk_fdiv_raw(x, k):
    a, c = as_int(x), as_int(k)
    if a is not None and c:
        return const(a // c)
    return atom1(raw_atom("fdiv", (), (), (), (x, k)))


def _divmod_split(x, k):
    """x = k*q + r, q collecting the monomials divisible by k"""
    km = as_mono(k)
    if km is None:
        # sums such as T+1: only exact equality
        if x is k:
            return ONE, ZERO
        return ZERO, x
    m0, c0 = km
    d0 = dict(m0)
    qd, rd = {}, {}
    for m, c in x.terms:
        d = dict(m)
        ok = all(d.get(a, F0) >= e for a, e in d0.items())
        cc = c / c0
        if ok and cc.denominator == 1:
            mm = _mono_mul(m, tuple((a, -e) for a, e in m0))
            qd[mm] = qd.get(mm, F0) + cc
        elif ok and not m0 and c0.denominator == 1 and c.denominator == 1:
            qq = c.numerator // c0.numerator
            if qq:
                qd[m] = qd.get(m, F0) + qq
            rr = c - qq * c0
            if rr:
                rd[m] = rr
        else:
            rd[m] = c
    return _poly(qd), _poly(rd)


def mk_mod(x, k):
    x, k = P(x), P(k)
    if as_const(k) == 1:
        return ZERO
    q, r = _divmod_split(x, k)
    if r is not None:
        x = r
    if not x.terms:
        return ZERO
    if nonneg(x) and nonneg(k - x - 1):
        return x
    a, c = as_int(x), as_int(k)
    if a is not None and c:
        return const(a % c)
    return atom1(raw_atom("mod", (), (), (), (x, k)))


def mk_pow2(x):
    """smallest power of two >= x"""
    x = P(x)
    c = as_int(x)
    if c is not None and c >= 1:
        return const(1 << (c - 1).bit_length())
    # pow2(k*2^a) = 2^a pow2(k): normalise common factor 2
    if x.terms and all(k.denominator == 1 and int(k) % 2 == 0 for m, k in x.terms):
        return mk_pow2(pscale(x, Fraction(1, 2))) * 2
    return atom1(raw_atom("pow2", (), (), (), (x,)))


# ---- complex
def conj(p):
    if not p.cplx:
        return p
    out = []
    for m, c in p.terms:
        t = const(c)
        for a, e in m:
            if a.op == "conj":
                t = pmul(t, ppow(a.args[0], e))
            elif not a.cplx:
                t = pmul(t, _poly({((a, e),): F1}))
            elif a.op == "sum":
                nb, bodies = open_atom(a)
                t = pmul(t, ppow(mk_sum(nb, conj(bodies[0])), e))
            elif a.op == "paren":
                t = pmul(t, ppow(conj(a.args[0]), e))
            else:
                t = pmul(t, _poly({((raw_atom("conj", (), (), (), (atom1(a),)), e),): F1}))
        out.append(t)
    return psum(out)


def _split_real(m):
    re, cx = [], []
    for a, e in m:
        (cx if a.cplx else re).append((a, e))
    return tuple(re), tuple(cx)


def _is_self_conj(cx):
    p = mono_poly(cx)
    return conj(p) is p


def re_of(p):
    return _reim("re", p)


def im_of(p):
    return _reim("im", p)


def _reim(op, p):
    if not p.cplx:
        return p if op == "re" else ZERO
    out = []
    for m, c in p.terms:
        r, cx = _split_real(m)
        if not cx or _is_self_conj(cx):
            if op == "re":
                out.append(_poly({m: c}))
            continue
        z = mono_poly(cx)
        zc = conj(z)
        sg = 1
        if zc.id < z.id and as_mono(zc) is not None:
            z = zc
            sg = 1 if op == "re" else -1
        out.append(pmul(_poly({r: c * sg}), atom1(raw_atom(op, (), (), (), (z,)))))
    return psum(out) if out else ZERO


def abs_of(p):
    if p.cplx:
        return ppow(pmul(p, conj(p)), Fraction(1, 2))
    c = as_const(p)
    if c is not None:
        return const(abs(c))
    if is_index_poly(p):
        return int_abs(p)
    if poly_val_nonneg(p):
        return p
    mono = as_mono(p)
    if mono is not None:
        m, c = mono
        out = const(abs(c))
        for a, e in m:
            if atom_nonneg(a) or (e.denominator == 1 and int(e) % 2 == 0):
                out = pmul(out, _poly({((a, e),): F1}))
            else:
                out = pmul(out, _poly({((raw_atom("abs", (), (), (), (atom1(a),)), e),): F1}))
        return out
    k = p.terms[0][1]
    return pscale(atom1(raw_atom("abs", (), (), (), (pscale(p, 1 / k),))), abs(k))


# ---- transcendental
def mk_log(p, base):
    """log in base 10 as the canonical base; base in ('10','e','2')"""
    c = as_const(p)
    if base == "2" and c is not None and c > 0:
        n = c.numerator * c.denominator
        if n & (n - 1) == 0:
            k = c.numerator.bit_length() - c.denominator.bit_length()
            return const(k)
    if base == "10" and c is not None and c > 0:
        x, k = c, 0
        while x > 1 and x.denominator == 1 and x % 10 == 0:
            x /= 10
            k += 1
        if x == 1:
            return const(k)
    l = mk_log10(p)
    if base == "10":
        return l
    b = {"e": raw_atom("ln10"), "2": raw_atom("log2_10")}[base]
    return pmul(l, atom1(b))


def mk_log10(p):
    m = as_mono(p)
    if m is not None:
        # log(x^-1) = -log(x) for a single factor
        mm, c = m
        if c == 1 and len(mm) == 1 and mm[0][1] < 0 and mm[0][1].denominator == 1:
            return -mk_log10(ppow(p, -1))
    return atom1(raw_atom("log10", (), (), (), (mk_def(p),)))


# ---- abbreviations: a large closed term over its free index variables, shared
DEFS = {}
NODEF = [0]


def mk_def(p):
    """abbreviate p as def<id>(free index variables)"""
    if NODEF[0] or p.states or p.cplx or as_atom(p) is not None and as_atom(p).op == "def":
        return p
    if p.bh < 1 and len(p.terms) < 4:
        return p
    vs = [v for v in p.fv]
    if any(v.args[0].fv for v in vs):
        return p
    vs.sort(key=lambda v: (v.args[0].id, str(v.attrs)))
    groups = [list(g) for k, g in itertools.groupby(vs, key=lambda v: v.args[0].id)]
    best = None
    NODEF[0] += 1
    try:
        for n, combo in enumerate(itertools.product(*[itertools.permutations(g) for g in groups])):
            if n > 24:
                break
            order = [v for g in combo for v in g]
            cv = [raw_atom("ivar", (("d", i),), (), (), v.args) for i, v in enumerate(order)]
            body = subst(p, {v: atom1(w) for v, w in zip(order, cv)})
            if best is None or body.id < best[0].id:
                best = (body, cv, order)
    finally:
        NODEF[0] -= 1
    body, cv, order = best
    DEFS.setdefault(body.id, (tuple(cv), body))
    a = raw_atom("def", (body.id,), (), (), tuple(atom1(v) for v in order))
    return atom1(a)


def def_body(a):
    vs, body = DEFS[a.attrs[0]]
    NODEF[0] += 1
    try:
        return subst(body, dict(zip(vs, a.args)))
    finally:
        NODEF[0] -= 1


def expand_defs(p, memo=None):
    """replace the abbreviations in p (recursively)"""
    def f(a):
        return None
    if not any(a.op == "def" for a in walk_atoms(p).values()):
        return p
    return map_atoms(p, lambda a: expand_defs(def_body(a)) if a.op == "def" else None)


def mk_powx(base, expo):
    """base ** expo with a symbolic exponent"""
    c = as_const(expo)
    if c is not None:
        return ppow(base, c)
    b = as_const(base)
    if b == 10:
        # 10**(-x) = (10**x)^-1
        k = expo.terms[0][1]
        s = 1 if k > 0 else -1
        return ppow(atom1(raw_atom("exp10", (), (), (), (pscale(expo, s),))), s)
    if b == 2:
        a = as_atom(expo)
        if a is not None and a.op == "ceil":
            l = _as_log2(a.args[0])
            if l is not None:
                return mk_pow2(l)
    return atom1(raw_atom("powx", (), (), (), (base, expo)))


def _as_log2(p):
    m = as_mono(p)
    if m is None or m[1] != 1:
        return None
    ats = dict(m[0])
    l = [a for a in ats if a.op == "log10"]
    if len(l) == 1 and len(ats) == 2 and any(a.op == "log2_10" and e == 1 for a, e in ats.items()) and ats[l[0]] == 1:
        return l[0].args[0]
    return None


# ---- linear systems
def mk_solve(rv, cv, A, b, idx):
    """x[idx] where sum_cv A(rv,cv) x(cv) = b(rv)"""
    rv, cv, idx = list(rv), list(cv), [P(i) for i in idx]
    if not b.terms:
        return ZERO
    rs, cs = frozenset(rv), frozenset(cv)
    out = ONE
    if len(A.terms) > 3:
        for _ in range(20):
            A2 = _sift(A)
            if A2 is A:
                break
            A = A2
    # common factors of A: independent, row-only, column-only
    if A.terms:
        changed = True
        common = None
        for m, c in A.terms:
            d = dict(m)
            if common is None:
                common = d
            else:
                common = {a: _common_exp(x, d[a]) for a, x in common.items() if a in d}
        for a, e in sorted((common or {}).items(), key=lambda x: x[0].id):
            if e == 0 or a.op in BOOL_OPS:
                continue
            if (a.fv & rs) and (a.fv & cs):
                continue
            A = divide_mono(A, ((a, e),))
            if a.fv & cs:
                out = pmul(out, ppow(subst(atom1(a), dict(zip(cv, idx))), -e))
            else:
                b = pmul(b, _poly({((a, -e),): F1}))
        nc = numeric_content(A)
        if nc != 1:
            A = pscale(A, 1 / nc)
            out = pscale(out, 1 / nc)
    # factors of b independent of the rows
    cf = common_factor(b, rs)
    if cf:
        out = pmul(out, mono_poly(cf))
        b = divide_mono(b, cf)
    nc = numeric_content(b)
    if nc != 1:
        out = pscale(out, nc)
        b = pscale(b, 1 / nc)
    n = len(rv)
    order = sorted(range(n), key=lambda i: rv[i].args[0].id)
    best = None
    perms = [order]
    ids = [rv[i].args[0].id for i in order]
    if len(set(ids)) != len(ids):
        perms = [list(p) for p in itertools.permutations(range(n))
                 if [rv[i].args[0].id for i in p] == ids]
    for p in perms:
        a = mk_atom("solve", (n,), tuple(rv[i] for i in p) + tuple(cv[i] for i in p), (A, b),
                    tuple(idx[i] for i in p))
        if best is None or a.id < best.id:
            best = a
    return pmul(out, atom1(best))


def mk_inv(rv, cv, A, idx):
    """inv(A)[idx_rows, idx_cols]; rv row vars, cv col vars of A"""
    rv, cv, idx = list(rv), list(cv), [P(i) for i in idx]
    cf = common_factor(A, frozenset(rv + cv))
    out = ONE
    if cf:
        out = ppow(mono_poly(cf), -1)
        A = divide_mono(A, cf)
    nc = numeric_content(A)
    if nc != 1:
        A = pscale(A, 1 / nc)
        out = pscale(out, 1 / nc)
    return pmul(out, atom1(mk_atom("inv", (len(rv),), tuple(rv) + tuple(cv), (A,), tuple(idx))))


# ---- reductions
def mk_any(bvars, body):
    bvars = tuple(v for v in bvars)
    if not body.terms:
        return ZERO
    used = body.fv
    bvars = tuple(v for v in bvars if v in used)
    if not bvars:
        return body
    # nested any
    a = as_atom(body)
    if a is not None and a.op == "any":
        nb, bodies = open_atom(a)
        return mk_any(bvars + tuple(nb), bodies[0])
    # disjoint sums (isposinf + isneginf)
    if len(body.terms) == 2 and all(c == 1 and len(m) == 1 for m, c in body.terms):
        (m1, _), (m2, _) = body.terms
        if {m1[0][0].op, m2[0][0].op} == {"isposinf", "isneginf"}:
            return bor(mk_any(bvars, mono_poly(m1)), mk_any(bvars, mono_poly(m2)))
    return atom1(_best_perm("any", (), bvars, (body,), ()))


def mk_all(bvars, body):
    return ONE - mk_any(bvars, ONE - body)


def mk_red(op, bvars, body, mask=ONE):
    """redmin / redmax over bvars (restricted to mask)"""
    if not bvars:
        return body
    if not any(v in body.fv or v in mask.fv for v in bvars) and mask is ONE:
        return body
    bvars, body, mask = unselect(tuple(bvars), body, mask)
    a = as_atom(body)
    if a is not None and a.op == op:
        vs, bs = open_atom(a)
        return mk_red(op, bvars + tuple(vs), bs[0], pmul(mask, bs[1]) if len(bs) > 1 else mask)
    return atom1(_best_perm(op, (), tuple(bvars), (body, mask), ()))


def unselect(bvars, body, mask):
    """a bound position in the list of entries selected by a mask: bind the entry itself, under the mask"""
    for v in bvars:
        c = as_atom(v.args[0])
        if c is None or c.op != "count":
            continue
        nz = [a for a in walk_atoms(body).values() if a.op == "nz" and not (a.args[0] - atom1(v)).terms]
        if not nz or any(a.op == "nz" and v in a.fv and a not in nz for a in walk_atoms(body).values()):
            continue
        if len({(a.bodies, tuple(x.args[0].id for x in a.bvars)) for a in nz}) != 1 or len(nz[0].bvars) != 1:
            continue
        (w,), (m,) = open_atom(nz[0])
        n = [0]

        def f(a):
            if a in nz:
                return atom1(w)
            return None
        b2 = map_atoms(body, f)
        if v in b2.fv:
            continue
        return unselect(tuple(w if x is v else x for x in bvars), b2, pmul(mask, m))
    return bvars, body, mask


def mk_argred(op, bvar, body):
    return atom1(mk_atom("argred", (op,), (bvar,), (body,), ()))


def mk_lsa(which, v1, v2, cost, k, maximize=False):
    """row / column index of the k-th matched pair"""
    n0, n1 = v1.args[0], v2.args[0]
    if which == "row" and nonneg(n1 - n0):
        return P(k)      # rows are sorted and all matched
    if maximize:
        cost = -cost
    return atom1(mk_atom("lsa", (which,), (v1, v2), (cost,), (P(k),)))


def isposinf(p):
    return _isinf("isposinf", p)


def isneginf(p):
    return _isinf("isneginf", p)


def _isinf(op, p):
    c = as_const(p)
    if c is not None:
        return ZERO
    m = as_mono(p)
    if m is not None:
        k = m[1]
        a = as_atom(pscale(p, 1 / k))
        if a is not None and a.op == "infc":
            return ONE if (k > 0) == (op == "isposinf") else ZERO
        if a is not None and a.op == "abs":
            return isposinf(a.args[0]) + isneginf(a.args[0]) if (k > 0) == (op == "isposinf") else ZERO
        if k < 0:
            op = {"isposinf": "isneginf", "isneginf": "isposinf"}[op]
        p = pscale(p, 1 / k)
    if is_index_poly(p) or _patched_finite(p):
        return ZERO
    return atom1(raw_atom(op, (), (), (), (p,)))


def _masks(p):
    """atoms x with isposinf(x) / isneginf(x) occurring directly in p"""
    d = {}
    for m, c in p.terms:
        for a, e in m:
            if a.op in ("isposinf", "isneginf") and as_atom(a.args[0]) is not None:
                d[as_atom(a.args[0])] = 1
    return list(d)


def _plain_finite(p, ok):
    for m, c in p.terms:
        for a, e in m:
            if a in ok or a.op in BOOL_OPS or a.op in ("sym", "slk", "param", "ivar", "isposinf", "isneginf"):
                continue
            if a.op in ("abs", "max", "min") and all(_plain_finite(x, ok) for x in a.args):
                continue
            if a.op in ("redmin", "redmax") and len(a.bodies) == 2:
                # extremum over the finite entries
                ms = _masks(a.bodies[1])
                if len(ms) == 1:
                    z = ms[0]
                    if a.bodies[1] is ONE - atom1(raw_atom("isposinf", (), (), (), (atom1(z),))) - atom1(
                            raw_atom("isneginf", (), (), (), (atom1(z),))) and _plain_finite(a.bodies[0], {z}):
                        continue
            return False
    return True


def _covers(a, b):
    """any(f) whose elements include the flag b"""
    if len(a.bodies[0].terms) != 1:
        return False
    y = as_atom(a.bodies[0])
    if y is None or y.op != b.op:
        return False
    n = len(a.bvars)
    cand = sorted(b.fv, key=lambda v: v.id)
    if len(cand) > 6 or n > len(cand):
        return False
    for pr in itertools.permutations(cand, n):
        if all(v.args[0] is w.args[0] for v, w in zip(a.bvars, pr)):
            if as_atom(subst(a.bodies[0], {v: atom1(w) for v, w in zip(a.bvars, pr)})) is b:
                return True
    return False


def _patched_finite(p):
    """no infinite value whatever the masked atom is (infinite values replaced)"""
    if len(p.terms) < 3:
        return False
    ms = _masks(p)
    if len(ms) != 1:
        return False
    x = ms[0]
    key = p.id
    if key in _PF:
        return _PF[key]
    P_ = raw_atom("isposinf", (), (), (), (atom1(x),))
    N_ = raw_atom("isneginf", (), (), (), (atom1(x),))
    r = True
    for pv, nv in ((0, 0), (1, 0), (0, 1)):
        terms = []
        for m, c in p.terms:
            k = c
            rest = []
            for a, e in m:
                if a is P_:
                    k *= pv
                elif a is N_:
                    k *= nv
                elif a.op == "any" and pv and _covers(a, P_) or a.op == "any" and nv and _covers(a, N_):
                    pass
                else:
                    rest.append((a, e))
            if k:
                terms.append(_poly({tuple(rest): k}))
        q = psum(terms) if terms else ZERO
        if not _plain_finite(q, {x} if (pv, nv) == (0, 0) else ()):
            r = False
            break
    _PF[key] = r
    return r


_PF = {}


def isnan(p):
    if as_const(p) is not None or is_index_poly(p):
        return ZERO
    m = as_mono(p)
    if m is not None:
        p = pscale(p, 1 / m[1])
    return atom1(raw_atom("isnan", (), (), (), (p,)))


def mk_func(name, args):
    """uninterpreted elementwise function"""
    return atom1(raw_atom("fn", (name,), (), (), tuple(P(a) for a in args)))


# ------------------------------------------------------------------ rebuild
def rebuild(op, attrs, bvars, bodies, args):
    if op == "acc":
        return atom1(raw_atom(op, attrs, (), (), args))
    if op == "sum":
        return mk_sum(bvars, bodies[0])
    if op == "rfft":
        return mk_rfft(bvars[0], args[0], bodies[0], args[1])
    if op == "irfft":
        return mk_irfft(bvars[0], args[0], bodies[0], args[1])
    if op == "corr":
        return mk_corr(bvars[0], bodies[0], bvars[1], bodies[1], args[0])
    if op == "solve":
        n = attrs[0]
        return mk_solve(bvars[:n], bvars[n:], bodies[0], bodies[1], args)
    if op == "inv":
        n = attrs[0]
        return mk_inv(bvars[:n], bvars[n:], bodies[0], args)
    if op == "U":
        return step(args[0])
    if op == "pos":
        return gt0(args[0])
    if op == "eq0":
        return eq0(args[0])
    if op in ("max", "min"):
        return _mk_ext(op, args)
    if op == "paren":
        return args[0]
    if op == "fdiv":
        return mk_fdiv(*args)
    if op == "mod":
        return mk_mod(*args)
    if op == "pow2":
        return mk_pow2(args[0])
    if op == "conj":
        return conj(args[0])
    if op == "re":
        return re_of(args[0])
    if op == "im":
        return im_of(args[0])
    if op == "abs":
        return abs_of(args[0])
    if op == "log10":
        return mk_log10(args[0])
    if op == "powx":
        return mk_powx(*args)
    if op == "exp10":
        return mk_powx(const(10), args[0])
    if op == "any":
        return mk_any(bvars, bodies[0])
    if op in ("redmin", "redmax"):
        return mk_red(op, bvars, bodies[0], bodies[1] if len(bodies) > 1 else ONE)
    if op == "argred":
        return mk_argred(attrs[0], bvars[0], bodies[0]) if bvars else ZERO
    if op == "lsa":
        return mk_lsa(attrs[0], bvars[0], bvars[1], bodies[0], args[0])
    if op in ("isposinf", "isneginf"):
        return _isinf(op, args[0])
    if op == "isnan":
        return isnan(args[0])
    if op == "ivar":
        return atom1(raw_atom(op, attrs, (), (), args))
    if op == "loop":
        from . import loops
        return loops.rebuild_loop(attrs, bvars, bodies, args)
    if op == "ceil":
        return mk_ceil(args[0])
    if op == "count":
        from .libarr import mk_count
        return mk_count(bvars, bodies[0])
    if op == "fastlen":
        from .libarr import mk_fastlen
        return mk_fastlen(args[0])
    if bvars:
        return atom1(mk_atom(op, attrs, bvars, bodies, args))
    return atom1(raw_atom(op, attrs, (), bodies, args))


def mk_nz(d, bvars, mask, k):
    """coordinate d of the k-th position (in row-major order) where mask holds"""
    return atom1(mk_atom("nz", (d,), tuple(bvars), (mask,), (k,)))


def mk_ceil(p):
    c = as_const(p)
    if c is not None:
        return const(-((-c.numerator) // c.denominator))
    if is_index_poly(p):
        return p
    return atom1(raw_atom("ceil", (), (), (), (p,)))


# ------------------------------------------------------------------ printing
def show(p, d=6):
    if not p.terms:
        return "0"
    out = []
    for m, c in p.terms:
        fs = []
        for a, e in m:
            s = show_atom(a, d)
            if e != 1:
                s += "^%s" % (e if e.denominator == 1 else "(%s)" % e)
            fs.append(s)
        if not fs:
            out.append(_num(c))
        elif c == 1:
            out.append("*".join(fs))
        elif c == -1:
            out.append("-" + "*".join(fs))
        else:
            out.append(_num(c) + "*" + "*".join(fs))
    s = " + ".join(out).replace("+ -", "- ")
    return s


def _num(c):
    if c.denominator == 1:
        return str(c)
    f = float(c)
    return repr(f) if Fraction(repr(f)) == c else str(c)


def show_var(v):
    n = v.attrs[0]
    if isinstance(n, tuple):
        if n[0] == "b":
            return "i%d%s" % (n[1], "" if n[2] == 0 else "abcdefgh"[n[2] % 8])
        return "v%s" % n[1]
    return str(n)


def show_atom(a, d=6):
    if d <= 0:
        return "…"
    op = a.op
    if op == "ivar":
        return show_var(a)
    if op in ("sym", "isym", "slk", "param", "bsym"):
        return str(a.attrs[0])
    if op == "acc":
        return "%s[%s]" % (a.attrs[0], ",".join(show(x, d - 1) for x in a.args))
    if op == "paren":
        return "(%s)" % show(a.args[0], d - 1)
    if op == "U":
        return "[%s>=0]" % show(a.args[0], d - 1)
    if op == "unk" or op == "cunk":
        return "?%s" % (a.attrs[0],)
    if op == "state":
        return "S%s[%s]" % (a.attrs[0], ",".join(show(x, d - 1) for x in a.args))
    s = op
    if a.attrs:
        s += "<%s>" % ",".join(str(x) for x in a.attrs)
    inner = []
    if a.bvars:
        inner.append(",".join("%s<%s" % (show_var(v), show(v.args[0], d - 1)) for v in a.bvars) + ":")
    inner.append("; ".join(show(b, d - 1) for b in a.bodies))
    r = s + "{" + " ".join(x for x in inner if x) + "}" if a.bvars else s
    if a.args:
        r += "(" + ", ".join(show(x, d - 1) if x is not None else "-" for x in a.args) + ")"
    return r
