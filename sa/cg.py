"""Modular treatment of the iterative solver.

`conjugate_gradient(A, b, ...)` is checked on its own against the textbook
recursion (C03).  At its call sites the system it is given is what matters: the
matrix is read off the operator by applying it to an opaque vector, and the call
is replaced by the exact solution of that system.
"""
from .term import *          # noqa
from .values import *        # noqa
from . import term as tm

QUALS = ("fast_bss_eval.torch.cgd.conjugate_gradient", "fast_bss_eval.numpy.cgd.conjugate_gradient")


class NotLinear(Exception):
    pass


def read_matrix(I, body, probe, batch, row, colv, cv):
    """A[row, cv] such that body = sum_cv A * probe[batch, cv, col]"""
    nb, nr = len(batch), len(cv)

    def coef(rest, args, bound):
        if len(args) != nb + nr + len(colv):
            raise NotLinear()
        for x, y in zip(args[:nb], batch):
            if (x - y).terms:
                raise NotLinear()
        for x, y in zip(args[nb + nr:], colv):
            if (x - y).terms:
                raise NotLinear()
        sub = {}
        out = rest
        for x, c in zip(args[nb:nb + nr], cv):
            v = as_atom(x)
            if v is not None and v in bound and v not in sub:
                sub[v] = atom1(c)
            else:
                if any(w in x.fv for w in bound):
                    raise NotLinear()
                out = pmul(out, delta(x - atom1(c)))
        out = subst(out, sub)
        left = [v for v in bound if v not in sub]
        return mk_sum(tuple(left), out) if left else out
    def lin(body, bound):
        A = ZERO
        for m, c in body.terms:
            hit = [(a, e) for a, e in m if mentions(a)]
            if len(hit) != 1 or hit[0][1] != 1:
                raise NotLinear()
            a = hit[0][0]
            rest = mono_poly(tuple(x for x in m if x[0] is not a), c)
            if a.op == "acc":
                A = A + coef(rest, a.args, bound)
            elif a.op == "sum":
                bv, bs = open_atom(a)
                A = A + lin(pmul(rest, bs[0]), bound + list(bv))
            elif a.op == "def":
                A = A + lin(pmul(rest, def_body(a)), bound)
            else:
                raise NotLinear()
        return A
    return lin(body, [])


_MEN = {}


def mentions(a):
    r = _MEN.get(a.id)
    if r is None:
        r = any(x.op == "acc" and x.attrs[0] == "probe#" for x in walk_atoms(atom1(a)).values())
        _MEN[a.id] = r
    return r


def summary(I, f, args, kw):
    try:
        env = I.bind(f, args, kw)
    except Exception:
        return NotImplemented
    if not all(n in env for n in ("A", "b", "n_iter")):
        return NotImplemented
    A, b = env["A"], env["b"]
    if env.get("x_true") is not None or not isinstance(b, ArrV):
        return NotImplemented
    s0 = I.st.copy() if hasattr(I.st, "copy") else None
    nd = I.getattr(A, "ndim")
    n = as_int(to_poly(nd)) if not isinstance(nd, Top) else None
    if n is None:
        return NotImplemented
    add = n - 1 == b.ndim
    if not add and n != b.ndim or b.ndim < 1:
        return NotImplemented
    axes, bb = I.refresh(I.eff(b))
    batch = axes[:-1] if add else axes[:-2]
    rowax = axes[-1] if add else axes[-2]
    colax = () if add else axes[-1]
    vs = [v for ax in axes for v in ax]
    paxes = list(axes) + ([()] if add else [])
    pb = acc("probe#", [atom1(v) for ax in batch for v in ax] + [atom1(v) for v in rowax] + [atom1(v) for v in colax])
    probe = I.fresh(paxes, pb, b.dtype, b.dev, False, frozenset(), b.be)
    ev0 = len(I.events)
    y = I.binop("MatMult", A, probe)
    if not isinstance(y, ArrV):
        return NotImplemented
    ax, yb = I.refresh(I.eff(y))
    if len(ax) != len(paxes):
        return NotImplemented
    # rename the axes of the product to those of b
    sub = {}
    for p, q in zip(ax, paxes):
        if len(p) == len(q) and all(u.args[0] is w.args[0] for u, w in zip(p, q)):
            for u, w in zip(p, q):
                sub[u] = atom1(w)
        else:
            if (ax_size(p) - ax_size(q)).terms:
                return NotImplemented
            from .arr import flat_index, unflatten
            sub.update(unflatten(p, flat_index(q)))
    yb = subst(yb, sub)
    if yb.unk:
        return NotImplemented
    cv = [ivar(v.args[0]) for v in rowax]
    try:
        M = read_matrix(I, yb, pb, [atom1(v) for a in batch for v in a], rowax, [atom1(v) for v in colax], cv)
    except NotLinear:
        return NotImplemented
    idx = [atom1(v) for v in rowax]
    if rowax:
        x = mk_solve(list(rowax), cv, M, bb, idx)
        fr = {v: ivar(v.args[0]) for v in rowax}
        M2 = subst(M, {v: atom1(w) for v, w in fr.items()})
        b2 = subst(bb, {v: atom1(w) for v, w in fr.items()})
        x = mk_solve([fr[v] for v in rowax], cv, M2, b2, idx)
    else:
        x = pmul(bb, ppow(M, -1))
    ye = I.eff(y)
    be_ = I.eff(b)
    from .interp import PhiV
    ni = env["n_iter"]
    x0 = env.get("x")
    I.event("cg", "conjugate gradient", n_iter=to_poly(ni) if isinstance(ni, (int, Num)) else ni,
            x0=(I.shape_of(x0) if hasattr(I, "shape_of") else None) if isinstance(x0, ArrV) else x0, b=b, add=add,
            batch=batch, precond=env.get("precond"))
    # the preconditioner changes no solution but its dtype, device and history reach the iterates
    parts = [be_, ye]
    pre = env.get("precond")
    if pre is not None:
        z = I.binop("MatMult", pre, probe)
        if isinstance(z, ArrV):
            parts.append(I.eff(z))
    dts = [v.copy(scalar=False) if hasattr(v, "copy") else v for v in parts]
    dt = I.promote(dts, b.be)
    taint = frozenset().union(*(v.taint for v in parts))
    taint |= I.low_operands([v for v in parts], [v_body(I, v) for v in parts], dt, "the iterative solver")
    I.join(parts, "the iterative solver")
    return I.fresh(axes, x, dt, b.dev, any(v.grad for v in parts) and not I.st.nograd, taint, b.be)


def v_body(I, v):
    return I.refresh(v)[1]
