"""Helpers shared by the checks (no oracle lives here except where a TLA+ module re-checks it)."""
from fractions import Fraction as F


def split(events):
    out = []
    for e in events:
        if e["ev"] == "Reset":
            out.append([])
        else:
            if not out:
                out.append([])
            out[-1].append(e)
    return out


def hungarian(a):
    """Integer dual prices (u, v) of a square assignment problem: a certificate whose feasibility TLC evaluates."""
    n = len(a)
    INF = 10 ** 9
    u = [0] * (n + 1); v = [0] * (n + 1); p = [0] * (n + 1); way = [0] * (n + 1)
    for i in range(1, n + 1):
        p[0] = i
        j0 = 0
        minv = [INF] * (n + 1)
        used = [False] * (n + 1)
        while True:
            used[j0] = True
            i0, delta, j1 = p[j0], INF, 0
            for j in range(1, n + 1):
                if not used[j]:
                    cur = a[i0 - 1][j - 1] - u[i0] - v[j]
                    if cur < minv[j]:
                        minv[j] = cur; way[j] = j0
                    if minv[j] < delta:
                        delta = minv[j]; j1 = j
            for j in range(n + 1):
                if used[j]:
                    u[p[j]] += delta; v[j] -= delta
                else:
                    minv[j] -= delta
            j0 = j1
            if p[j0] == 0:
                break
        while j0:
            j1 = way[j0]
            p[j0] = p[j1]
            j0 = j1
    return u[1:], v[1:]
