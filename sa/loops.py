"""Loop summaries: the value carried by a counted loop as one canonical term.

A loop carries named states, each an array over local index variables, with an
initial and a step term.  The summary is normalised by (1) dropping invariant and
unreachable states, (2) resolving induction variables, (3) lifting every index
that the loop treats pointwise out of the loop, and (4) partition refinement of
the states, so that equal loops are the same term whatever their names and order.
"""
import itertools
from .term import (Fraction, F1, P, ZERO, ONE, as_atom, as_const, atom1, ivar, map_atoms,
                   mk_atom, mk_def, raw_atom, subst, open_atom, walk_atoms)

_uid = itertools.count(1)


def new_slot():
    return ("n", next(_uid))


def state_acc(slot, idx):
    return atom1(raw_atom("state", (slot,), (), (), tuple(P(i) for i in idx)))


class St:
    __slots__ = ("slot", "vars", "init", "step")

    def __init__(self, slot, vars, init, step):
        self.slot, self.vars, self.init, self.step = slot, list(vars), init, step


def state_atoms(p, slots):
    return [a for a in walk_atoms(p).values() if a.op == "state" and a.attrs[0] in slots]


def replace_states(p, f, slots):
    """f(slot, idx polys) -> Poly for state atoms with slot in slots"""
    if not (p.states & slots):
        return p

    def g(a):
        if a.op == "state" and a.attrs[0] in slots:
            return f(a.attrs[0], [replace_states(x, f, slots) for x in a.args])
        if not (a.states & slots):
            return atom1(a)
        return None
    return map_atoms(p, g)


def simplify_states(states, epoch, trip, finals):
    """remove invariant / induction states.  finals: dict slot -> fn(idx)->Poly"""
    changed = True
    while changed:
        changed = False
        for s in states:
            selfacc = state_acc(s.slot, s.vars)
            f = None
            if s.step is selfacc:
                init, vs = s.init, s.vars

                def f(slot, idx, init=init, vs=vs):
                    return subst(init, dict(zip(vs, idx)))
                fin = f
            elif not s.vars:
                d = s.step - selfacc
                c = as_const(d)
                if c is not None and not (s.init.states):
                    init = s.init

                    def f(slot, idx, init=init, c=c):
                        return init + atom1(epoch) * c

                    def fin(slot, idx, init=init, c=c):
                        return init + trip * c
                elif not (s.step.states & frozenset(x.slot for x in states)) and epoch not in s.step.fv and s.step is s.init:
                    init = s.init

                    def f(slot, idx, init=init):
                        return init
                    fin = f
            elif s.step is s.init:
                init, vs = s.init, s.vars

                def f(slot, idx, init=init, vs=vs):
                    return subst(init, dict(zip(vs, idx)))
                fin = f
            if f is not None:
                states = [x for x in states if x is not s]
                fs = frozenset([s.slot])
                for x in states:
                    x.step = replace_states(x.step, f, fs)
                finals[s.slot] = lambda idx, fin=fin: fin(None, idx)
                changed = True
                break
    return states


def lift(states, sel, idx):
    """make the axes handled pointwise free variables; returns new idx"""
    slots = frozenset(s.slot for s in states)
    by = {s.slot: s for s in states}
    # union find over (slot, axis)
    par = {}

    def find(x):
        while par[x] != x:
            x = par[x]
        return x
    for s in states:
        for k in range(len(s.vars)):
            par[(s.slot, k)] = (s.slot, k)
    bad = set()
    for s in states:
        for a in state_atoms(s.step, slots):
            for k, e in enumerate(a.args):
                v = as_atom(e)
                if v is not None and v in s.vars:
                    x, y = find((a.attrs[0], k)), find((s.slot, s.vars.index(v)))
                    if x != y:
                        par[x] = y
                else:
                    bad.add((a.attrs[0], k))
    cls = {}
    for x in par:
        cls.setdefault(find(x), []).append(x)
    badroots = {find(x) for x in bad}
    nidx = list(idx)
    lifted = []
    for root, mem in cls.items():
        if root in badroots:
            continue
        slotsin = [m[0] for m in mem]
        if len(set(slotsin)) != len(slotsin):
            continue
        selm = [m for m in mem if m[0] == sel]
        if not selm:
            continue
        # states without the class must not access states with it (guaranteed: not bad)
        ok = True
        for s in states:
            if s.slot in slotsin:
                continue
            if any(a.attrs[0] in slotsin for a in state_atoms(s.step, slots)):
                ok = False
        if not ok:
            continue
        lifted.append((mem, selm[0][1]))
    if not lifted:
        return states, nidx, {}
    drop = {s.slot: set() for s in states}
    fresh = {}
    for mem, selk in lifted:
        size = by[sel].vars[selk].args[0]
        fv = ivar(size)
        fresh[fv] = idx[selk]
        for slot, k in mem:
            drop[slot].add((k, fv))
    dropk = {sl: {k for k, _ in d} for sl, d in drop.items()}

    def f(slot, ix):
        return state_acc(slot, [e for k, e in enumerate(ix) if k not in dropk[slot]])
    out = []
    for s in states:
        sub = {s.vars[k]: atom1(fv) for k, fv in drop[s.slot]}
        init = subst(s.init, sub)
        step = subst(replace_states(s.step, f, slots), sub)
        out.append(St(s.slot, [v for k, v in enumerate(s.vars) if k not in dropk[s.slot]], init, step))
    nidx = [e for k, e in enumerate(idx) if k not in dropk[sel]]
    return out, nidx, fresh


def canon(states, epoch, trip, sel, idx):
    slots = frozenset(s.slot for s in states)
    ep = raw_atom("ivar", (("ep",),), (), (), (trip,))
    color = {}
    steps = {}
    inits = {}
    lv = {}
    for s in states:
        vs = [raw_atom("ivar", (("lc", i),), (), (), v.args) for i, v in enumerate(s.vars)]
        lv[s.slot] = vs
        sub = dict(zip(s.vars, [atom1(v) for v in vs]))
        inits[s.slot] = subst(s.init, sub)
        sub[epoch] = atom1(ep)
        steps[s.slot] = subst(s.step, sub)
        color[s.slot] = raw_atom("colr", ("i", inits[s.slot].id, len(vs)) + tuple(v.args[0].id for v in vs))
    for _ in range(len(states) + 1):
        new = {}
        for s in states:
            st = replace_states(steps[s.slot], lambda slot, ix: atom1(
                raw_atom("scol", (color[slot].id,), (), (), tuple(ix))), slots)
            new[s.slot] = raw_atom("colr", (color[s.slot].id, st.id))
        n_old, n_new = len(set(color.values())), len(set(new.values()))
        color = new
    # merge bisimilar states, order by colour
    reps = {}
    for s in states:
        reps.setdefault(color[s.slot].id, s.slot)
    order = sorted(reps)
    # selected state first for stable printing
    h = 1
    for s in states:
        for a in walk_atoms(s.step).values():
            if a.op == "loop":
                h = max(h, a.attrs[0][0][1] + 1)
        for a in walk_atoms(s.init).values():
            if a.op == "loop":
                h = max(h, a.attrs[0][0][1] + 1)
    name = {}
    for j, c in enumerate(order):
        name[c] = ("s", h, j)
    slotname = {s.slot: name[color[s.slot].id] for s in states}
    bvars = [ep]
    bodies = []
    nl = []
    cnt = 0
    for c in order:
        sl = reps[c]
        vs = []
        for v in lv[sl]:
            vs.append(raw_atom("ivar", (("lv", cnt),), (), (), v.args))
            cnt += 1
        sub = dict(zip(lv[sl], [atom1(v) for v in vs]))
        bvars.extend(vs)
        bodies.append(subst(inits[sl], sub))
        stp = replace_states(steps[sl], lambda slot, ix: state_acc(slotname[slot], ix), slots)
        bodies.append(subst(stp, sub))
        nl.append(len(vs))
    attrs = (tuple(name[c] for c in order), slotname[sel], tuple(nl))
    return atom1(mk_atom("loop", attrs, tuple(bvars), tuple(bodies), (trip,) + tuple(idx)))


def mk_loop(states, epoch, trip, sel, idx):
    """value of state `sel` at `idx` after `trip` iterations"""
    tc = as_const(trip)
    states = [St(s.slot, s.vars, s.init, s.step) for s in states]
    if tc == 0:
        for s in states:
            if s.slot == sel:
                return subst(s.init, dict(zip(s.vars, idx)))
    finals = {}
    states = simplify_states(states, epoch, trip, finals)
    if sel in finals:
        return finals[sel](idx)
    # reachability
    by = {s.slot: s for s in states}
    slots = frozenset(by)
    seen = [sel]
    for s in seen:
        for x in by[s].step.states & slots:
            if x not in seen:
                seen.append(x)
    states = [by[s] for s in by if s in seen]
    states, idx, fresh = lift(states, sel, idx)
    r = mk_def(canon(states, epoch, trip, sel, idx))
    if fresh:
        r = subst(r, fresh)
    return r


def open_loop(a):
    """(epoch, trip, {slot: St}, sel, idx) with fresh variables and slots"""
    slots, sel, nl = a.attrs
    nb, bodies = open_atom(a)
    ren = {s: new_slot() for s in slots}
    fs = frozenset(slots)
    bodies = [replace_states(b, lambda slot, ix: state_acc(ren[slot], ix), fs) for b in bodies]
    epoch = nb[0]
    k = 1
    sts = []
    for i, s in enumerate(slots):
        vs = nb[k:k + nl[i]]
        k += nl[i]
        sts.append(St(ren[s], vs, bodies[2 * i], bodies[2 * i + 1]))
    return epoch, a.args[0], sts, ren[sel], list(a.args[1:])


def rebuild_loop(attrs, bvars, bodies, args):
    slots, sel, nl = attrs
    ren = {s: new_slot() for s in slots}
    fs = frozenset(slots)
    bodies = [replace_states(b, lambda slot, ix: state_acc(ren[slot], ix), fs) for b in bodies]
    epoch = bvars[0]
    k = 1
    sts = []
    for i, s in enumerate(slots):
        vs = bvars[k:k + nl[i]]
        k += nl[i]
        sts.append(St(ren[s], list(vs), bodies[2 * i], bodies[2 * i + 1]))
    return mk_loop(sts, epoch, args[0], ren[sel], list(args[1:]))
