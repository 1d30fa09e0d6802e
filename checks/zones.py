"""Scripts about Brillouin zones (inputs only)."""
from checks import lattices as B, crystal as X

K = {"P": 1, "A": 2, "B": 2, "C": 2, "I": 2, "R": 3, "F": 4}
I3 = (1, 0, 0, 0, 1, 0, 0, 0, 1)


def allowed(L, h):
    a, b, c = h
    return {"P": True, "A": (b+c) % 2 == 0, "B": (a+c) % 2 == 0, "C": (a+b) % 2 == 0, "I": (a+b+c) % 2 == 0,
            "F": (a+b) % 2 == 0 and (b+c) % 2 == 0, "R": (-a+b+c) % 3 == 0}[L]


def dot(g, a, b):
    return sum(g[3*i+j]*a[i]*b[j] for i in range(3) for j in range(3))


_box = [(a, b, c) for a in range(-3, 4) for b in range(-3, 4) for c in range(-3, 4) if (a, b, c) != (0, 0, 0)]


def classof(L, h):
    p = X.mv(B.tr(B.P6[L]), h)
    return tuple((x // 6) % 2 for x in p)


def enough(g, L):
    """is the metric so little skewed that the specification's search for faces is complete"""
    A, D, best = B.adj(g), B.det(g), {}
    for h in _box:
        if allowed(L, h):
            c = classof(L, h)
            if any(c):
                best[c] = min(best.get(c, 10**9), dot(g, h, h))
    return len(best) == 7 and all(m * A[i] < 16 * D for m in best.values() for i in (0, 4, 8))


def metric(r, s, top=30, dmax=3000):
    """metric of the reciprocal lattice of a crystal with the rotations of the setting"""
    while True:
        g = B.gram(r, [B.tr(w) for w in s[3]], top)
        if B.det(g) <= dmax and enough(g, s[1]):
            return g


def zone(r, s, prim=None, tr=None, search=1, dmax=3000):
    g = metric(r, s, dmax=dmax)
    prim = r.choice([1, 1, 1, 0]) if prim is None else prim
    tr = r.choice([0, 0, 1]) if tr is None else tr
    L = s[1] if prim else "P"
    if not enough(g, L):
        return zone(r, s, prim, tr, search, dmax)
    n = len(set(s[3])) * (2 if tr and not s[2] else 1)
    k = K[L]
    sc = r.choice([(1, 1), (1, 2), (1, 5), (3, 2), (1, 1)])
    ext = r.choice([1, 1, 1, 2, 3])
    return g, L, f"Zone {s[0]} {' '.join(map(str, B.six(g)))} {r.choice(['q', 'real', 'cols'])} {sc[0]} {sc[1]} {prim} {tr} {search} {r.choice([1, 1, 0])} {ext} {4*k*B.det(g)} {n}"


def points(r, k, m, far=False):
    out = []
    for _ in range(k):
        t = r.random()
        hi = m if t < .5 else (3 * m if t < .8 else (40 * m if far else 2 * m))
        v = [r.randint(-hi, hi) for _ in range(3)]
        if r.random() < .35:
            for i in range(3):
                if r.random() < .5:
                    v[i] = r.choice([0, m // 2, -(m // 2), m, v[0]])
        if r.random() < .1:
            v = [m * x // 2 for x in (r.randint(-2, 2), r.randint(-2, 2), r.randint(-2, 2))]
        out.append(" ".join(map(str, v)))
    return " ".join(out)


def act(r, op, k, far=False):
    m = r.choice([2, 4, 5, 6, 8, 12, 12, 20])
    return f"{op} {m} {r.choice([0, 1, 1, 2, 3, 8])} {k} {points(r, k, m, far)}"
