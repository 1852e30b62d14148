"""The time-domain definition of the metrics, as terms.

span_ref(i)   : the first L shifts of reference i
cos2_sdr(i,j) : squared cosine of the angle between estimate j and span_ref(i)
cos2_sar(j)   : squared cosine of the angle between estimate j and all spans
written with the normal equations G h = b, G the Gram matrix of the shifted
references, b their inner products with the estimate: cos2 = b' h / |est|^2.
"""
from .term import *       # noqa
from . import term as tm


def sig(name, idx, t):
    return acc(name, list(idx) + [t])


def corr2(T, n1, i1, n2, i2, lag, f1=None, f2=None):
    """sum_t x1(t) x2(t + lag)"""
    v, w = ivar(T), ivar(T)
    a = (f1 or sig)(n1, i1, atom1(v))
    b = (f2 or sig)(n2, i2, atom1(w))
    return mk_corr(v, a, w, b, lag)


def energy(T, name, idx, f=None):
    t = ivar(T)
    x = (f or sig)(name, idx, atom1(t))
    return mk_sum((t,), pmul(x, x))


class Spec:
    """o: analysed call (gives sizes); bat: batch index polys; load: Poly added to the diagonals or None"""

    def __init__(self, o, bat, load=None, load_one=None, f=None, floor=None):
        # floor: signals are normalised by max(floor, norm); None when every norm is known to exceed it
        self.floor = floor
        self.T, self.L, self.R, self.E = o.T, o.L, o.R, o.E
        self.bat = list(bat)
        self.load = ZERO if load is None else load
        # filter length 1: only the joint system is solved
        self.one = as_int(self.L) == 1 or o.s["fn"].replace("pairwise_", "").startswith("si_")
        if self.one:
            self.L = ONE
        self.f = f

    def G(self, i, k, j, l):
        """inner product of reference i delayed by k and reference j delayed by l"""
        return corr2(self.T, "ref", self.bat + [i], "ref", self.bat + [j], P(k) - P(l), self.f, self.f)

    def b(self, i, k, j):
        """inner product of reference i delayed by k and estimate j"""
        return corr2(self.T, "ref", self.bat + [i], "est", self.bat + [j], P(k), self.f, self.f)

    def nrm(self, name, i):
        n = ppow(energy(self.T, name, self.bat + [i], self.f), Fraction(1, 2))
        return n if self.floor is None else mk_max([n, self.floor])

    def nrm2(self, name, i):
        if self.floor is None:
            return energy(self.T, name, self.bat + [i], self.f)
        return ppow(self.nrm(name, i), 2)

    def cos_sdr(self, i, j):
        ne2 = self.nrm2("est", j)
        if self.one:
            b = self.b(i, ZERO, j)
            return pmul(pmul(b, b), ppow(pmul(ne2, self.nrm2("ref", i)), -1))
        L = self.L
        r, c, k = ivar(L), ivar(L), ivar(L)
        ni = self.nrm("ref", i)
        nn = ppow(ni, -2)
        A = pmul(self.G(i, atom1(r), i, atom1(c)), nn) + pmul(self.load, delta(atom1(r) - atom1(c)))
        rhs = pmul(self.b(i, atom1(r), j), ppow(ni, -1))
        h = mk_solve((r,), (c,), A, rhs, (atom1(k),))
        s = mk_sum((k,), pmul(pmul(self.b(i, atom1(k), j), ppow(ni, -1)), h))
        return pmul(s, ppow(ne2, -1))

    def cos_sar(self, j):
        L, R = self.L, self.R
        ne2 = self.nrm2("est", j)

        def axes():
            # (index vars, (channel, tap))
            if self.one:
                i = ivar(R)
                return (i,), atom1(i), ZERO
            if as_int(R) == 1:
                k = ivar(L)
                return (k,), ZERO, atom1(k)
            i, k = ivar(R), ivar(L)
            return (i, k), atom1(i), atom1(k)
        if self.one and as_int(R) == 1:
            b = pmul(self.b(ZERO, ZERO, j), ppow(self.nrm("ref", ZERO), -1))
            d = ONE if self.floor is None else pmul(energy(self.T, "ref", self.bat + [ZERO], self.f), ppow(self.nrm2("ref", ZERO), -1))
            return pmul(pmul(b, b), ppow(pmul(ne2, d + self.load), -1))
        rv, ri, rk = axes()
        cv, ci, ck = axes()
        kv, ki, kk = axes()
        A = pmul(self.G(ri, rk, ci, ck), pmul(ppow(self.nrm("ref", ri), -1), ppow(self.nrm("ref", ci), -1)))
        A = A + pmul(self.load, pmul(delta(ri - ci), delta(rk - ck)))
        rhs = pmul(self.b(ri, rk, j), ppow(self.nrm("ref", ri), -1))
        h = mk_solve(rv, cv, A, rhs, [atom1(v) for v in kv])
        s = mk_sum(kv, pmul(pmul(self.b(ki, kk, j), ppow(self.nrm("ref", ki), -1)), h))
        return pmul(s, ppow(ne2, -1))


def neg_db(c):
    """10 log10((1 - c) / c)"""
    return pscale(mk_log10(ppow(c, -1) - 1), 10)


def strip_clamps(p, lo=0, hi=1, memo=None):
    """min(max(x, 0), 1) -> x"""
    def f(a):
        if a.op == "def":
            return strip_clamps(def_body(a), lo, hi)
        if a.op in ("max", "min"):
            k = lo if a.op == "max" else hi
            rest = [x for x in a.args if as_const(x) != k]
            if len(rest) == 1 and len(a.args) == 2:
                return strip_clamps(rest[0], lo, hi)
        return None
    return map_atoms(p, f)
