"""Reference definitions read by the analyser (never executed): the steps of Munkres' algorithm."""
import torch


def step1(s):
    s.C -= torch.min(s.C, dim=-1).values[:, None]
    for i, j in (s.C == 0).nonzero():
        if s.col_uncovered[j] and s.row_uncovered[i]:
            s.marked[i, j] = 1
            s.col_uncovered[j] = False
            s.row_uncovered[i] = False
    s.row_uncovered[:] = True
    s.col_uncovered[:] = True
    return "_step3"


def step3(s):
    star = s.marked == 1
    s.col_uncovered[torch.any(star, dim=0)] = False
    if torch.sum(star) < s.C.shape[0]:
        return "_step4"
    return None


def step4(s):
    zero = s.C == 0
    free = zero * s.row_uncovered[:, None]
    free *= s.col_uncovered
    while True:
        z = free.nonzero()
        if len(z) == 0:
            return "_step6"
        i, j = z[0]
        s.marked[i, j] = 2
        st = (s.marked[i] == 1).nonzero()
        if len(st) == 0:
            s.Z0_r = i
            s.Z0_c = j
            return "_step5"
        j = st[0, 0]
        s.row_uncovered[i] = False
        s.col_uncovered[j] = True
        free[:, j] = zero[:, j] * (s.row_uncovered.to(int))
        free[i] = 0


def step5(s):
    n = 0
    path = s.path
    path[n, 0] = s.Z0_r
    path[n, 1] = s.Z0_c
    while True:
        z = (s.marked[:, path[n, 1]] == 1).nonzero()
        if len(z) == 0:
            break
        i = z[0]
        n += 1
        path[n, 0] = i
        path[n, 1] = path[n - 1, 1]
        z = (s.marked[path[n, 0]] == 2).nonzero()
        j = z[0]
        n += 1
        path[n, 0] = path[n - 1, 0]
        path[n, 1] = j
    for k in range(n + 1):
        if s.marked[path[k, 0], path[k, 1]] == 1:
            s.marked[path[k, 0], path[k, 1]] = 0
        else:
            s.marked[path[k, 0], path[k, 1]] = 1
    s.row_uncovered[:] = True
    s.col_uncovered[:] = True
    s.marked[s.marked == 2] = 0
    return "_step3"


def step6(s):
    if torch.any(s.row_uncovered) and torch.any(s.col_uncovered):
        low = torch.min(s.C[s.row_uncovered], dim=0).values
        low = torch.min(low[s.col_uncovered])
        s.C[~s.row_uncovered] += low
        s.C[:, s.col_uncovered] -= low
    return "_step4"
