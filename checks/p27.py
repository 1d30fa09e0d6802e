"""P27 exact integer and small-matrix arithmetic"""
TECHNIQUE = "TLA+ definitions of the operations with their laws checked by TLC; answers of the real functions validated against the definitions"
NOTE = ("TLC checks the laws tying the definitions together on every pair of 2x2 matrices with entries {-1,0,2} and derived 3x3 ones; the real functions are "
        "called with seeded and systematic integer arguments under every element type and overload, TLC recomputes each answer.")
from checks.common import split


def run(c):
    c.model("ExactMathModel", "ExactMathModel", min_states=1000, constants={"Lo": 1, "Hi": 3} if c.thorough else None)
    exe = c.build("math", "drv_math.cpp", libs=["debug", "process_id"])
    r = c.rng
    out = []

    def j(x):
        return " ".join(map(str, x))

    def v(n, top=5):
        return [r.randint(-top, top) for _ in range(n)]
    scale = 8 if c.thorough else 1
    for _ in range(300 * scale):
        out.append("Reset")
        n = r.choice([1, 2, 2, 3, 3, 3, 4, 5])
        a = v(n * n, r.choice([1, 2, 5]))
        k = r.random()
        if n > 1 and k < .25:   # singular
            a[n:2 * n] = [2 * x for x in a[:n]]
        elif n > 1 and k < .6:  # unimodular: a product of elementary matrices
            m = [[int(x == y) for y in range(n)] for x in range(n)]
            for _ in range(2 * n):
                p, q = r.sample(range(n), 2)
                t = r.choice([-1, 1])
                m[p] = [x + t * y for x, y in zip(m[p], m[q])]
            if r.random() < .5:
                m[0], m[1] = m[1], m[0]
            a = [x for row in m for x in row]
        out.append(f"Matrix {n} {j(a)}")
        dims = r.choice([(3, 3, 3), (2, 2, 2), (3, 3, 1), (1, 3, 3), (2, 3, 4), (4, 3, 2), (4, 4, 4), (1, 4, 1), (2, 1, 3), (5, 5, 1), (1, 5, 5)])
        n, k, m = dims
        out.append(f"Product {n} {k} {m} {j(v(n*k, 9))} {j(v(k*m, 9))}")
        out.append(f"Complex {n} {k} {m} {j(v(n*k))} {j(v(n*k))} {j(v(k*m))} {j(v(k*m))}")
        n = r.choice([2, 3])
        b = v(n * n, 2)
        if r.random() < .2:
            b[:n] = b[n:2 * n]
        out.append(f"Similar {n} {j(v(n*n))} {j(b)}")
        a = v(9)
        b = list(a)
        if r.random() < .7:
            b[r.randrange(9)] += r.choice([-1, 1])
        out.append(f"Sums {j(a)} {j(b)}")
        n, m = r.choice([(2, 3), (3, 2), (1, 4), (4, 3)])
        out.append(f"TransposeNM {n} {m} {j(v(n*m))}")
        n = r.choice([1, 2, 3, 3, 3, 4, 6])
        a, b = v(n, 7), v(n, 7)
        if r.random() < .2:
            b = [x * r.choice([1, -1]) * 2 for x in a]
        out.append(f"Vectors {n} {j(a)} {j(b)}")
        out.append(f"Hermitian {n} {j(v(n))} {j(v(n))} {j(v(n))} {j(v(n))}")
        out.append(f"Number {r.randint(-60, 60)} {r.choice([1, 2, 3, 4, 6, 8, 12, 24])}")
        out.append(f"Number {r.randint(-9, 9)*2+1} 2")
        out.append(f"Gcd {r.randrange(0, 400)} {r.randrange(0, 400)}")
        out.append(f"Convert {r.choice([0, 1, 126, 127, 128, 300, r.randrange(1000)])} {r.randint(-5, 1000)}")
    for n in range(0, 68 if c.thorough else 68):
        if n % 10 == 0:
            out.append("Reset")
        for k in range(0, n + 2):
            if n <= 12 or c.thorough or r.random() < .35:
                out.append(f"Binom {n} {k}")
    for k in range(-40, 41):
        if k % 20 == 0:
            out.append("Reset")
        out.append(f"Angle {k}")
    tr = split(c.drive_json(exe, out))
    c.report(c.validate("ExactMathTrace", tr, what="call list"), tr)
