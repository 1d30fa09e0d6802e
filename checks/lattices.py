"""Random lattices that respect the symmetry of a tabulated setting (inputs only; every verdict is TLC's)."""
import os
from checks import crystal as X
from math import gcd
_S = None
P6 = {"P": (6, 0, 0, 0, 6, 0, 0, 0, 6), "I": (-3, 3, 3, 3, -3, 3, 3, 3, -3), "F": (0, 3, 3, 3, 0, 3, 3, 3, 0), "A": (6, 0, 0, 0, 3, -3, 0, 3, 3),
      "B": (3, 0, -3, 0, 6, 0, 3, 0, 3), "C": (3, 3, 0, -3, 3, 0, 0, 0, 6), "R": (4, -2, -2, 2, 2, -4, 2, 2, 2)}


def settings():
    """(number, letter, has inversion, rotations)"""
    global _S
    if _S is None:
        _S = []
        for l in open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "rotations.tsv")):
            t = l.rstrip("\n").split("\t")
            _S.append((int(t[0]), t[1], t[2] == "1", [tuple(map(int, m.split(","))) for m in t[3:]]))
    return _S


def tr(a):
    return (a[0], a[3], a[6], a[1], a[4], a[7], a[2], a[5], a[8])


def det(a):
    return X.det(a)


def adj(a):
    return (a[4]*a[8]-a[5]*a[7], a[2]*a[7]-a[1]*a[8], a[1]*a[5]-a[2]*a[4], a[5]*a[6]-a[3]*a[8], a[0]*a[8]-a[2]*a[6], a[2]*a[3]-a[0]*a[5],
            a[3]*a[7]-a[4]*a[6], a[1]*a[6]-a[0]*a[7], a[0]*a[4]-a[1]*a[3])


def gram(r, rots, top=40, span=3):
    """a positive definite integer metric kept by the rotations: the orbit average of a random one"""
    while True:
        m = tuple(r.randint(-span, span) for _ in range(9))
        if r.random() < .3:
            m = tuple(x if i in (0, 4, 8) else (x if r.random() < .3 else 0) for i, x in enumerate(m))
        if det(m) == 0:
            continue
        g0 = X.mul(tr(m), m)
        s = [0] * 9
        for w in rots:
            s = [a + b for a, b in zip(s, X.mul(X.mul(tr(w), g0), w))]
        k = 0
        for v in s:
            k = gcd(k, v)
        s = [v // k for v in s]
        if max(s) <= top and det(s) > 0 and s[0] * s[4] - s[1] * s[1] > 0:
            k = r.choice([1, 1, 1, 2, 3])
            if max(s) * k <= top:
                s = [v * k for v in s]
            return tuple(s)


def six(g):
    return (g[0], g[4], g[8], g[5], g[2], g[1])


def quaternion(r):
    while True:
        q = [r.randint(-3, 3) for _ in range(4)]
        if any(q):
            return q
