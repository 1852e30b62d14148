"""Identity test of two terms whose normal forms differ.

The normaliser is incomplete: two ways of writing the same function can keep
different normal forms.  Before a difference is reported as a violation the two
terms are evaluated as mathematical functions at sample points (small index
ranges, rational data, including silent, tiny and duplicated channels); when no
sample separates them the comparison is undecided and stays quiet.  No code of
the repository runs here: the operands are the terms the analysis extracted.
"""
import cmath
import itertools
import math
import random
import time
from fractions import Fraction
from . import term as tm
from . import loops
from .term import def_body, BOOL_OPS

INF = float("inf")


class Cannot(Exception):
    pass


class Singular(Exception):
    pass


SQUARES = [(3, 4, 0, 0), (1, 2, 2, 0), (2, 3, 6, 0), (1, 4, 8, 0), (2, 4, 4, 0), (1, 1, 1, 1), (4, 4, 7, 0), (2, 6, 9, 0), (1, 1, 3, 5),
           (2, 2, 2, 2), (5, 5, 1, 7), (1, 3, 3, 9), (6, 6, 7, 0), (1, 5, 7, 5), (3, 3, 3, 3), (2, 10, 11, 0), (4, 8, 19, 0)]


class Sample:
    def __init__(self, seed, kind, ctx):
        self.rng = random.Random(seed)
        self.seed, self.kind, self.ctx = seed, kind, ctx
        self.syms, self.data, self.par = {}, {}, {}
        self.rows = {}

    def slack(self, name):
        k = ("slk", name)
        if k not in self.syms:
            r = random.Random("%s %s" % (self.seed, name))
            if name == "s_T":
                v = r.choice((5, 6, 7))
            elif name.startswith("s_B"):
                v = 0
            elif name.startswith("s_n_iter"):
                v = r.choice((0, 1))
            else:
                v = r.choice((0, 0, 0, 1)) if name in ("s_R", "s_E") else r.choice((0, 1))
            self.syms[k] = v
        return self.syms[k]

    def acc(self, name, idx):
        k = (name,) + idx
        v = self.data.get(k)
        if v is None:
            row = k[:-1]
            kind = self.kind
            r = random.Random("%s %s" % (self.seed, row))
            if row not in self.rows:
                self.rows[row] = r.choice(SQUARES)
                if r.random() < 0.5:
                    x = list(self.rows[row])
                    r.shuffle(x)
                    self.rows[row] = tuple(x)
            t = idx[-1] if idx else 0
            if kind in ("exact", "dup", "zero", "zeroref", "dup2") and name in ("ref", "est") and 0 <= t:
                if name == "est" and kind == "zero" and idx[-2:-1] == (0,) or name == "ref" and kind == "zeroref" and idx[-2:-1] == (0,):
                    v = 0
                elif name == "est" and kind in ("dup", "dup2") and (len(idx) < 2 or idx[-2] == 0 or kind == "dup2"):
                    ref = ("ref",) + idx[:-2] + ((1 if idx[-2] == 0 and kind == "dup" else 0),) if len(idx) > 1 else ("ref",)
                    self.acc("ref", ref[1:] + (0,))
                    v = -2 * self.pat(ref, t)
                else:
                    v = self.pat(row, t)
            else:
                v = Fraction(random.Random("%s %s" % (self.seed, k)).randint(-999, 999), 1000)
                if kind == "spread":
                    v = v * Fraction(1, 10 ** 5) if name in ("b", "x") and idx[-1] % 2 else v
                elif kind == "small":
                    v = v * Fraction(2, 10 ** 5)
                elif kind == "tiny":
                    v = v * Fraction(1, 10 ** 7)
                elif kind == "contrast" and name in ("ref", "est") and len(idx) > 1:
                    v = v * (Fraction(1, 10 ** 4) if idx[-2] == 0 else Fraction(10 ** 5))
                elif kind == "mixed" and name == "est":
                    v = v * Fraction(1, 10 ** 7)
                elif kind == "mixedref" and name == "ref":
                    v = v * Fraction(1, 10 ** 7)
                elif kind == "faint" and idx and name == "ref":
                    v = v if t < 3 else 0
                elif kind == "faint" and idx and name == "est":
                    v = v * Fraction(1, 10 ** 3) if t < 4 else v
            self.data[k] = v = v if isinstance(v, Fraction) else Fraction(v)
        return v

    def pat(self, row, t):
        p = self.rows[row]
        s = 1 if random.Random("%s %s %s s" % (self.seed, row, t)).random() < 0.6 else -1
        return p[t] * s if t < len(p) else 0

    def param(self, name):
        if name not in self.par:
            r = random.Random("%s %s" % (self.seed, name))
            if "clamp" in name:
                v = Fraction(r.choice((5, 20, 60)), 10)
            elif name.startswith("layout:"):
                v = Fraction(r.choice((-1, 1)))
            elif self.kind == "par0":
                v = 0
            elif self.kind == "parneg":
                v = Fraction(-r.randint(5, 300), 1000)
            else:
                v = Fraction(r.randint(5, 300), 100)
            self.par[name] = v
        return self.par[name]


REAL_FN = {
    ("exp", 1): lambda x: math.exp(x), ("exp2", 1): lambda x: 2.0 ** float(x), ("expm1", 1): lambda x: math.expm1(x),
    ("sin", 1): lambda x: math.sin(x), ("cos", 1): lambda x: math.cos(x), ("tan", 1): lambda x: math.tan(x),
    ("tanh", 1): lambda x: math.tanh(x), ("erf", 1): lambda x: math.erf(x),
    ("sign", 1): lambda x: (x > 0) - (x < 0), ("floor", 1): lambda x: math.floor(x), ("trunc", 1): lambda x: math.trunc(x),
    ("round", 1): lambda x: round(x), ("rint", 1): lambda x: round(x), ("relu", 1): lambda x: max(x, 0),
    ("sigmoid", 1): lambda x: 1 / (1 + math.exp(-x)), ("softplus", 1): lambda x: math.log1p(math.exp(x)),
    ("floordiv", 2): lambda x, y: x // y, ("mod", 2): lambda x, y: x % y,
}


class Ev:
    def __init__(self, sample, limit=4.0):
        self.s = sample
        self.memo = {}
        self.t0 = time.time()
        self.limit = limit
        self.n = 0
        self.states = {}
        self.depth = 0

    def tick(self):
        self.n += 1
        if self.n & 255 == 0 and time.time() - self.t0 > self.limit:
            raise Cannot("time")

    def ev(self, p, env):
        """value of a Poly; infinite factors combine only after their coefficients are summed"""
        self.depth += 1
        if self.depth > 400:
            self.depth -= 1
            raise Cannot("depth")
        try:
            return self._ev(p, env)
        finally:
            self.depth -= 1

    def _ev(self, p, env):
        tot = Fraction(0)
        infs = None
        for m, c in p.terms:
            k = c
            order = m if len(m) < 2 else sorted(m, key=lambda x: 0 if x[0].op in BOOL_OPS else 1)
            big = None
            for a, e in order:
                v = self.at(a, env)
                if not isinstance(v, complex) and (v == INF or v == -INF or v != v):
                    if v != v:
                        big = (big or ()) + ((a.id, "nan"),)
                        continue
                    if e < 0:
                        k = k * 0
                        continue
                    big = (big or ()) + ((a.id, v),)
                    continue
                if e == 1:
                    k = k * v
                else:
                    k = self.mulpow(k, v, e)
                    if isinstance(k, tuple):
                        big = (big or ()) + ((a.id, INF),)
                        k = k[0]
                if k == 0 and a.op in BOOL_OPS:
                    big = None
                    break
            if big is None:
                if isinstance(k, float) and (k != k or k in (INF, -INF)):
                    big = (("k", k),)
                    k = 1
            if big is None:
                tot = tot + k
            else:
                if k == 0:
                    # zero over zero: an equal factor may have been cancelled on the other side
                    raise Cannot("0/0")
                infs = infs or {}
                infs[big] = infs.get(big, 0) + k
        if infs:
            for b, k in infs.items():
                if k == 0:
                    continue
                if isinstance(k, complex):
                    return float("nan")
                v = 1.0
                for _, x in b:
                    v = v * (float("nan") if x == "nan" else x)
                tot = float(tot) + float(k) * v if not isinstance(tot, complex) else float("nan")
        return tot

    def mulpow(self, k, v, e):
        if isinstance(v, complex):
            if v == 0 and e < 0:
                raise Singular()
            return k * v ** (int(e) if e.denominator == 1 else float(e))
        if v == 0:
            if e < 0:
                return (k, INF)
            return k * 0
        if e.denominator == 1:
            if isinstance(v, int):
                v = Fraction(v)
            return k * v ** int(e)
        if isinstance(v, Fraction) and e.denominator == 2 and v > 0:
            a, b = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if a * a == v.numerator and b * b == v.denominator:
                return k * Fraction(a, b) ** e.numerator
        if v < 0:
            return float("nan")
        f = float(v) ** float(e)
        return (float(k) if not isinstance(k, complex) else k) * f

    def num(self, p, env):
        v = self.ev(p, env)
        if isinstance(v, complex):
            v = v.real
        if isinstance(v, float) and v == v and abs(v) < 1e15 and v == int(v):
            return int(v)
        if isinstance(v, Fraction) and v.denominator == 1:
            return int(v)
        raise Cannot("size")

    def size(self, v, env):
        n = self.num(v.args[0], env)
        if n > 64:
            raise Cannot("range")
        return n

    def at(self, a, env):
        op = a.op
        if op == "ivar":
            if a in env:
                return env[a]
            raise Cannot("free index")
        if a.states:
            return self.at1(a, env)
        if a.fv:
            try:
                k = (a.id,) + tuple(env[v] for v in sorted(a.fv, key=lambda v: v.id))
            except KeyError:
                raise Cannot("free index")
        else:
            k = a.id
        if k in self.memo:
            return self.memo[k]
        self.tick()
        v = self.at1(a, env)
        self.memo[k] = v
        return v

    def each(self, vs, env):
        ns = [self.size(v, env) for v in vs]
        for ix in itertools.product(*[range(n) for n in ns]):
            e = dict(env)
            e.update(zip(vs, ix))
            yield e

    def at1(self, a, env):
        op = a.op
        s = self.s
        if op == "sym":
            b = s.ctx.slack.get(a.id)
            if b is not None:
                return self.ev(b, env)
            if a not in s.syms:
                s.syms[a] = 2
            return s.syms[a]
        if op == "slk":
            return s.slack(a.attrs[0])
        if op == "param":
            return s.param(a.attrs[0])
        if op == "acc":
            return s.acc(a.attrs[0], tuple(self.num(x, env) for x in a.args))
        if op in ("paren", "re", "im", "conj", "abs", "log10", "exp10", "ceil", "pow2", "fastlen", "U", "pos", "eq0",
                  "isposinf", "isneginf", "isnan"):
            x = a.args[0]
            v = self.ev(x, env)
            if op == "paren":
                return v
            if op == "re":
                return v.real
            if op == "im":
                return v.imag if isinstance(v, complex) else 0
            if op == "conj":
                return v.conjugate() if isinstance(v, complex) else v
            if op == "abs":
                return abs(v)
            if isinstance(v, complex):
                v = v.real
            if op == "log10":
                if v == 0:
                    return -INF
                if v < 0 or v != v:
                    return float("nan")
                if v == INF:
                    return INF
                return math.log10(v)
            if op == "exp10":
                return 10.0 ** float(v)
            if op == "ceil":
                return math.ceil(v)
            if op == "pow2":
                n = math.ceil(v)
                return 1 << max(0, (int(n) - 1).bit_length()) if n >= 1 else 1
            if op == "fastlen":
                return int(math.ceil(v))
            if op == "U":
                return 1 if v >= 0 else 0
            if op == "pos":
                return 1 if v > 0 else 0
            if op == "eq0":
                return 1 if v == 0 else 0
            if op == "isposinf":
                return 1 if v == INF else 0
            if op == "isneginf":
                return 1 if v == -INF else 0
            if op == "isnan":
                return 1 if v != v else 0
        if op in ("max", "min"):
            vs = [self.ev(x, env) for x in a.args]
            vs = [v.real if isinstance(v, complex) else v for v in vs]
            if any(v != v for v in vs):
                return float("nan")
            return max(vs) if op == "max" else min(vs)
        if op in ("fdiv", "mod"):
            x, y = self.ev(a.args[0], env), self.ev(a.args[1], env)
            if y == 0:
                raise Singular()
            return x // y if op == "fdiv" else x % y
        if op == "powx":
            b, e = self.ev(a.args[0], env), self.ev(a.args[1], env)
            try:
                if isinstance(e, Fraction) and e.denominator == 1 and abs(e) < 200:
                    return b ** int(e)
                return float(b) ** float(e)
            except ZeroDivisionError:
                return INF
        if op == "def":
            vs, body = tm.DEFS[a.attrs[0]]
            g = dict(env)
            for v, x in zip(vs, a.args):
                g[v] = self.num(x, env)
            return self.ev(body, g)
        if op == "sum":
            t = Fraction(0)
            b = a.bodies[0]
            for e in self.each(a.bvars, env):
                t = t + self.ev(b, e)
            return t
        if op == "count":
            return sum(1 for e in self.each(a.bvars, env) if self.ev(a.bodies[0], e) != 0)
        if op == "nz":
            k, n = self.num(a.args[0], env), -1
            for e in self.each(a.bvars, env):
                if self.ev(a.bodies[0], e) != 0:
                    n += 1
                    if n == k:
                        return e[a.bvars[a.attrs[0]]]
            if getattr(self.s, "nz0", False):
                return 0
            raise Cannot("no such position")
        if op == "any":
            return 1 if any(self.ev(a.bodies[0], e) != 0 for e in self.each(a.bvars, env)) else 0
        if op in ("redmin", "redmax"):
            vs = [self.ev(a.bodies[0], e) for e in self.each(a.bvars, env)
                  if len(a.bodies) < 2 or self.ev(a.bodies[1], e) != 0]
            if not vs:
                return Fraction(0)
            if any(v != v for v in vs):
                return float("nan")
            return min(vs) if op == "redmin" else max(vs)
        if op == "argred":
            vs = [self.ev(a.bodies[0], e) for e in self.each(a.bvars, env)]
            f = min if "min" in a.attrs[0] else max
            return vs.index(f(vs))
        if op == "corr":
            v, w = a.bvars
            lag = self.num(a.args[0], env)
            n, m = self.size(v, env), self.size(w, env)
            t = Fraction(0)
            for i in range(max(0, -lag), min(n, m - lag)):
                e = dict(env)
                e[v], e[w] = i, i + lag
                t = t + self.ev(a.bodies[0], e) * self.ev(a.bodies[1], e)
            return t
        if op == "rfft":
            v = a.bvars[0]
            n, k = self.num(a.args[0], env), self.num(a.args[1], env)
            t = 0j
            for i in range(min(n, self.size(v, env))):
                e = dict(env)
                e[v] = i
                t += complex(self.ev(a.bodies[0], e)) * cmath.exp(-2j * cmath.pi * ((k * i) % n) / n)
            return t
        if op == "irfft":
            v = a.bvars[0]
            n, i = self.num(a.args[0], env), self.num(a.args[1], env)
            t = 0.0
            for k in range(n // 2 + 1):
                e = dict(env)
                e[v] = k
                x = complex(self.ev(a.bodies[0], e)) * cmath.exp(2j * cmath.pi * ((k * i) % n) / n)
                if k == 0 or 2 * k == n:
                    x0 = complex(self.ev(a.bodies[0], e)).real * math.cos(2 * math.pi * ((k * i) % n) / n)
                    t += x0
                else:
                    t += 2 * x.real
            return t / n
        if op == "imag_unit":
            return 1j
        if op == "constp":
            n = a.attrs[0]
            if n == "pi":
                return math.pi
            if n == "e":
                return math.e
            return Fraction(n)
        if op == "ln10":
            return math.log(10)
        if op == "log2_10":
            return math.log2(10)
        if op == "infc":
            return INF
        if op == "nanc":
            return float("nan")
        if op == "fn":
            xs = [self.ev(x, env) for x in a.args]
            f = REAL_FN.get((a.attrs[0], len(xs)))
            if f is not None and not any(isinstance(x, complex) or x != x or x in (INF, -INF) for x in xs):
                try:
                    return f(*xs)
                except (ValueError, OverflowError, ZeroDivisionError):
                    raise Cannot(a.attrs[0])
            vs = tuple(round(float(abs(x)), 7) for x in xs)
            return Fraction(random.Random("%s %s %s" % (self.s.seed, a.attrs[0], vs)).randint(1, 999), 500)
        if op in ("solve", "inv"):
            return self.linear(a, env)
        if op == "lsa":
            return self.lsa(a, env)
        if op == "loop":
            return self.loop(a, env)
        if op == "state":
            arr = self.states.get(a.attrs[0])
            if arr is None:
                raise Cannot("state")
            return self.entry(arr, a.args, env)
        raise Cannot(op)

    def linear(self, a, env):
        n = a.attrs[0]
        rv, cv = a.bvars[:n], a.bvars[n:]
        fv = sorted(a.fv, key=lambda v: v.id)
        free = frozenset().union(*[b.fv for b in a.bodies]) - frozenset(a.bvars)
        key = ("lin", a.op, a.attrs, tuple(b.id for b in a.bodies), tuple(v.id for v in a.bvars)) + tuple(
            env[v] for v in fv if v in free)
        sol = None if a.states else self.memo.get(key)
        if sol is None:
            rs = list(self.each(rv, env))
            cs = list(self.each(cv, env))
            if len(rs) != len(cs) or len(rs) > 16:
                raise Cannot("system")
            rix = [tuple(e[v] for v in rv) for e in rs]
            cix = [tuple(e[v] for v in cv) for e in cs]
            M = []
            for e in rs:
                row = []
                for f in cix:
                    g = dict(e)
                    g.update(zip(cv, f))
                    row.append(self.ev(a.bodies[0], g))
                if a.op == "solve":
                    row.append(self.ev(a.bodies[1], e))
                else:
                    row += [1 if x == len(M) else 0 for x in range(len(rs))]
                M.append(row)
            x = gauss(M)
            if a.op == "solve":
                sol = {c: x[k][0] for k, c in enumerate(cix)}
            else:
                sol = {(c, r): x[k][l] for k, c in enumerate(cix) for l, r in enumerate(rix)}
            if not a.states:
                self.memo[key] = sol
        ix = tuple(self.num(x, env) for x in a.args)
        if a.op == "solve":
            return sol[ix]
        return sol[(ix[:n], ix[n:])]

    def lsa(self, a, env):
        v, w = a.bvars
        n0, n1 = self.size(v, env), self.size(w, env)
        C = {}
        for e in self.each(a.bvars, env):
            x = self.ev(a.bodies[0], e)
            if isinstance(x, complex):
                x = x.real
            if x != x or x in (INF, -INF):
                raise Cannot("infinite cost")
            C[e[v], e[w]] = x
        best = None
        if n0 <= n1:
            it = (list(zip(range(n0), p)) for p in itertools.permutations(range(n1), n0))
        else:
            it = (sorted(zip(p, range(n1))) for p in itertools.permutations(range(n0), n1))
        for pr in it:
            t = sum(C[x] for x in pr)
            if len(a.attrs) > 1 and a.attrs[1]:
                t = -t
            if best is None or t < best[0] - 1e-12:
                best = (t, pr)
        k = self.num(a.args[0], env)
        return best[1][k][0 if a.attrs[0] == "row" else 1]

    def loop(self, a, env):
        slots, sel, nl = a.attrs
        trip = self.num(a.args[0], env)
        if trip > 12:
            raise Cannot("iterations")
        key = ("loop", a.bodies, a.attrs[0], a.bvars, trip)
        free = frozenset().union(*[b.fv for b in a.bodies]) - frozenset(a.bvars)
        key = ("loop", tuple(b.id for b in a.bodies), slots, tuple(v.id for v in a.bvars), trip) + tuple(
            env[v] for v in sorted(free, key=lambda v: v.id))
        outer = frozenset().union(*[b.states for b in a.bodies]) - frozenset(slots)
        cur = None if outer else self.memo.get(key)
        if cur is None:
            epoch = a.bvars[0]
            k = 1
            vs = []
            for n in nl:
                vs.append(a.bvars[k:k + n])
                k += n
            cur = {}
            for i, sl in enumerate(slots):
                cur[sl] = {tuple(e[v] for v in vs[i]): self.ev(a.bodies[2 * i], e) for e in self.each(vs[i], env)}
            save = self.states
            try:
                for ep in range(trip):
                    e0 = dict(env)
                    e0[epoch] = ep
                    self.states = dict(save)
                    self.states.update(cur)
                    nxt = {}
                    for i, sl in enumerate(slots):
                        nxt[sl] = {tuple(e[v] for v in vs[i]): self.ev(a.bodies[2 * i + 1], e) for e in self.each(vs[i], e0)}
                    cur = nxt
            finally:
                self.states = save
            if not outer:
                self.memo[key] = cur
        return self.entry(cur[sel], a.args[1:], env)

    def entry(self, arr, args, env):
        ix = tuple(self.num(x, env) for x in args)
        if ix not in arr:
            raise Cannot("index outside the loop variable")
        return arr[ix]


def gauss(M):
    n = len(M)
    w = len(M[0])
    for i in range(n):
        p = max(range(i, n), key=lambda r: abs(M[r][i]))
        if abs(M[p][i]) < 1e-300:
            raise Singular()
        if isinstance(M[p][i], (float, complex)) and abs(M[p][i]) < 1e-13 * max(abs(x) for r in M for x in r[:n]):
            raise Singular()
        M[i], M[p] = M[p], M[i]
        d = M[i][i]
        if isinstance(d, int):
            d = Fraction(d)
        M[i] = [x / d for x in M[i]]
        for r in range(n):
            if r != i and M[r][i] != 0:
                f = M[r][i]
                M[r] = [x - f * y for x, y in zip(M[r], M[i])]
    return [row[n:w] for row in M]


def close(x, y, tol=1e-7):
    if x == y:
        return True
    if x != x and y != y:
        return True
    if x != x or y != y:
        return False
    try:
        if abs(x) == INF or abs(y) == INF:
            return False
        return abs(x - y) <= tol * max(1e-9, abs(x), abs(y))
    except OverflowError:
        return False


KINDS = ("exact", "float", "spread", "float", "dup", "zero", "tiny", "mixed", "mixedref", "zeroref", "exact")
KINDS_NORM = ("exact", "float", "float", "small", "exact", "float", "faint")
GUARD_OPS = ("pos", "eq0", "U")


def param_guards(p, q):
    """names of the parameters a comparison in p or q reads"""
    for z in (p, q):
        for a in tm.walk_atoms(z).values():
            if a.op in ("max", "min", "abs") and any(y.op == "param" for x in a.args for m, c in x.terms for y, e in m):
                return True
            if a.op in GUARD_OPS and any(b.op == "param" for x in a.args for b in tm.walk_atoms(x).values()):
                return True
    return False


def witness(p, q, ctx=None, norm=None, limit=6.0, kinds=None):
    """'same' (no sample separates p and q), a description of a separating sample, or None (not evaluable)"""
    ctx = ctx or tm.CTX[0]
    norm = tm.ASSUME_NORM[0] if norm is None else norm
    t0 = time.time()
    tested = 0
    fv = sorted(p.fv | q.fv, key=lambda v: v.id)
    why = None
    kinds = kinds or (KINDS_NORM if norm else KINDS)
    if param_guards(p, q):
        kinds = ("par0", "parneg") + kinds
    for n, kind in enumerate(kinds):
        if time.time() - t0 > limit:
            break
        if kind == "spread" and not any(a.op == "acc" and a.attrs[0] == "b" for z in (p, q) for a in tm.walk_atoms(z).values()):
            continue
        s = Sample(100 + n, kind, ctx)
        E = Ev(s, max(0.5, limit - (time.time() - t0)))
        try:
            envs = [{}]
            for v in fv:
                m = E.size(v, envs[0]) if not v.args[0].fv else None
                if m is None:
                    raise Cannot("index range")
                envs = [dict(e, **{}) | {v: i} for e in envs for i in range(m)]
                if len(envs) > 40:
                    s.rng.shuffle(envs)
                    envs = envs[:40]
            s.rng.shuffle(envs)
            for e in envs[:10]:
                x, y = E.ev(p, e), E.ev(q, e)
                if not close(x, y):
                    return "at a sample point (%s data) %s against %s" % (kind, fmt(x), fmt(y))
                if x == x:
                    tested += 1
        except Cannot as ex:
            why = str(ex)
            continue
        except (Singular, ZeroDivisionError, OverflowError, RecursionError, tm.Blowup):
            continue
    return "same" if tested >= 3 else None


def fmt(x):
    if isinstance(x, complex):
        return "%.6g%+.6gj" % (x.real, x.imag)
    try:
        return "%.9g" % float(x)
    except OverflowError:
        return "large"
