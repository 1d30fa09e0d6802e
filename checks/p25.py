"""P25 tolerant comparisons"""
TECHNIQUE = "TLA+ integer statement of the tolerance rule checked by TLC for consistency; verdicts of the real comparisons validated against it"
NOTE = ("TLC exhausts all pairs of small dyadic numbers and tolerances for the laws of the rule; the real scalar, array, vector, matrix and operator forms are called "
        "for the element types and mixtures with dyadic numbers and tolerances for which the rule is exact in floating point, including the boundary itself.")
from checks.common import split


def run(c):
    c.model("ToleranceModel", "ToleranceModel", min_states=10000, constants={"Max": 40, "MaxK": 5} if c.thorough else None)
    exe = c.build("tolerance", "drv_tolerance.cpp", libs=["debug", "process_id", "comparisons"])
    r = c.rng
    out = ["Reset", "Names"]

    def j(x):
        return " ".join(map(str, x))
    n = 0

    def add(s):
        nonlocal n
        if n % 40 == 0:
            out.append("Reset")
        n += 1
        out.append(s)
    rep = 6 if c.thorough else 1
    for _ in range(2500 * rep):
        m, k = r.randrange(0, 7), r.choice([0, 1, 2, 3, 5, 7, 9, 10, 12])
        a = r.choice([r.randint(-6, 6), r.randint(-200, 200), r.randint(-3000, 3000) * 2 ** m])
        a = max(-60000, min(60000, a))
        # on, just inside and just outside the boundary: |a-b| 2^k = 2^m + |a+b|
        t = (2 ** m + abs(2 * a)) / 2 ** k
        b = a + r.choice([0, 1, -1, int(t), int(t) + 1, -int(t), -int(t) - 1, int(t) - 1, r.randint(-50, 50), -2 * a])
        if abs(a - b) * 2 ** k >= 2 ** 31:
            continue
        add(f"Pair {a} {b} {m} {k}")
    for a in range(-4, 5):
        for b in range(-4, 5):
            add(f"Pair {a} {b} {r.randrange(0, 3)} {r.randrange(0, 4)}")
            add(f"Int {a} {b}")
    for _ in range(300 * rep):
        a = r.choice([r.randint(-30, 30), r.randint(-32000, 32000)])
        add(f"Int {a} {a + r.choice([0, 0, 1, -1, r.randint(-5, 5)]) if abs(a) < 31000 else a}")
    for _ in range(500 * rep):
        f = r.choice([1, 1, 1, 2, 5])
        b = r.choice([r.randint(2, 4000) * 256, r.randint(1000, 300000)])
        t = f * 625 * 2 * b / 524288
        d = int(t * r.choice([0, .3, .9, .97, 1.05, 1.3, 2]))
        d = r.choice([-1, 1]) * max(0, min(d, 3900))
        if abs(abs(d) - f * 625 * abs(2 * b + d) / 524288) < .01 + 2e-4 * abs(d):
            continue
        s = r.choice([1, 1, -1])
        if f * 625 * abs(2 * b + d) < 2 ** 31 and b + d > 0:
            add(f"DefFloat {s*(b+d)} {s*b} {f}" if r.random() < .5 else f"DefFloat {s*b} {s*(b+d)} {f}")
    for f in (1, 2, 3, 10):
        for d in sorted({0, 1, int(311 * f), int(312 * f), int(313 * f), int(314 * f), 312, 313, 311, int(320 * f), r.randrange(0, 700)}):
            if abs(2 * d - 625 * f) < .9:
                continue
            for s in (1, -1):
                e = r.choice([0, 0, 5, -3, 40])
                add(f"DefRel {s*d} 0 {f} {e}")
                add(f"DefRel 0 {s*d} {f} {e}")
    for f in (1, 7):
        for d in (0, 1, 1000, 5000, 5700, 5763, 5764, 5765, 5766, 5800, 9000, 20000):
            for s in (1, -1):
                add(f"DefAbs {s*d} 0 {f}")
                add(f"DefAbs 0 {s*d} {f}")
    for _ in range(1200 * rep):
        z = r.choice([0, 1, 2, 3, 3, 4, 6, 9, 9])
        m, k = r.randrange(0, 5), r.choice([0, 1, 2, 3, 5, 8])
        a = [r.choice([r.randint(-5, 5), r.randint(-100, 100)]) for _ in range(z)]
        inty = r.random() < .35
        if inty and r.random() < .5:
            a = [abs(x) for x in a]
        mode = r.choice(["same", "one", "less", "more", "any"])
        b = list(a)
        if z and mode == "one":
            i = r.randrange(z)
            b[i] += r.choice([-1, 1]) * (1 if inty else r.choice([1, 3, 40]))
        elif mode == "less":
            b = [x - r.choice([1, 5, 100]) for x in a]
        elif mode == "more":
            b = [x + r.choice([0, 1, 5, 100]) for x in a]
        elif mode == "any":
            b = [x + r.randint(-20, 20) for x in a]
        add(f"List {z} {m} {k} {int(inty)} {r.choice([1, 2, 3])} {r.choice([1, 2, 4])} {j(a)} {j(b)}")
    for _ in range(10):
        add(f"Lengths {r.randrange(0, 4)} {r.randrange(0, 4)}")
    for _ in range(60 * rep):
        z = r.choice([1, 2, 3, 5])
        add(f"Binary {z} {j([r.randint(-50, 50) for _ in range(z)])} {j([r.choice([-7, -2, -1, 1, 3, 10]) for _ in range(z)])}")
    tr = split(c.drive_json(exe, out))
    c.report(c.validate("ToleranceTrace", tr, what="call list"), tr)
