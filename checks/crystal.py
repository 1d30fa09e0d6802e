"""Random crystallographic material for scripts (inputs only; every verdict is TLC's)."""
I = (1, 0, 0, 0, 1, 0, 0, 0, 1)
INV = tuple(-x for x in I)
C4 = (0, -1, 0, 1, 0, 0, 0, 0, 1)
C6 = (1, -1, 0, 1, 0, 0, 0, 0, 1)
C3D = (0, 0, 1, 1, 0, 0, 0, 1, 0)
C2D = (0, 1, 0, 1, 0, 0, 0, 0, -1)
C2X = (1, 0, 0, 0, -1, 0, 0, 0, -1)


def mul(a, b):
    return tuple(sum(a[3 * i + k] * b[3 * k + j] for k in range(3)) for i in range(3) for j in range(3))


def mv(a, v):
    return tuple(sum(a[3 * i + k] * v[k] for k in range(3)) for i in range(3))


def det(a):
    return a[0] * (a[4] * a[8] - a[5] * a[7]) - a[1] * (a[3] * a[8] - a[5] * a[6]) + a[2] * (a[3] * a[7] - a[4] * a[6])


def inv(a):
    d = det(a)
    c = (a[4] * a[8] - a[5] * a[7], a[2] * a[7] - a[1] * a[8], a[1] * a[5] - a[2] * a[4],
         a[5] * a[6] - a[3] * a[8], a[0] * a[8] - a[2] * a[6], a[2] * a[3] - a[0] * a[5],
         a[3] * a[7] - a[4] * a[6], a[1] * a[6] - a[0] * a[7], a[0] * a[4] - a[1] * a[3])
    return tuple(d * x for x in c)


def closure(gens, unit=I, times=mul, top=10 ** 6):
    g, new = {unit}, [unit]
    while new:
        nn = []
        for x in new:
            for y in gens:
                z = times(y, x)
                if z not in g:
                    g.add(z)
                    nn.append(z)
                    if len(g) > top:
                        return None
        new = nn
    return g


def mmul(a, b):
    return (mul(a[0], b[0]), tuple((x + y) % 24 for x, y in zip(mv(a[0], b[1]), a[1])))


CUBIC = sorted(closure([C4, C3D, INV]))
HEX = sorted(closure([C6, C2D, INV]))


def order(a):
    n, x = 1, a
    while x != I:
        x = mul(a, x)
        n += 1
    return n


def axis(a):
    """primitive vector left alone by the proper part, zero for +-1"""
    p = a if det(a) > 0 else tuple(-x for x in a)
    if p == I:
        return (0, 0, 0)
    s, x = [0] * 9, I
    for _ in range(order(p)):
        s = [u + v for u, v in zip(s, x)]
        x = mul(p, x)
    for j in range(3):
        v = (s[j], s[3 + j], s[6 + j])
        if any(v):
            from math import gcd
            g = gcd(gcd(v[0], v[1]), v[2])
            return tuple(t // g for t in v)


def unimodular(r, steps):
    u = I
    for _ in range(steps):
        i, j = r.sample(range(3), 2)
        t = list(I)
        k = r.random()
        if k < .6:
            t[3 * i + j] = r.choice([-1, 1])
        elif k < .8:
            t[4 * i] = t[4 * j] = 0
            t[3 * i + j], t[3 * j + i] = 1, -1
        else:
            t = [-x for x in t]
        u = mul(u, tuple(t))
    return u


def conj(u, a):
    return mul(mul(u, a), inv(u))


def holohedry(r):
    """all operations of a maximal point group in a random basis with short axes"""
    while True:
        h = r.choice([CUBIC, HEX, HEX])
        u = unimodular(r, r.choice([0, 0, 1, 2, 3]))
        g = [conj(u, a) for a in h]
        # the library tabulates axes; those of other lengths it calls (0,0,0), about which nothing is claimed
        if all(sum(x * x for x in axis(a)) in (0, 1, 2, 3, 5, 6, 11, 14) for a in g):
            r.shuffle(g)
            return g
