"""P14 subscript iteration, broadcasting and linear positions"""
TECHNIQUE = "TLA+ model of the stepping iterator checked by TLC against the definition; complete walks of the real iterators validated against it"
NOTE = ("TLC exhausts every shape of up to 3 dimensions of size 0..2 (thorough: 0..3) and every choice of fixed subscripts; the real "
        "SubIt, SubIt2, BroadcastIt, BroadcastIt2, lin2sub and sub2lin are walked over the same family plus seeded larger shapes of up to 5 dimensions.")
import itertools
from checks.common import split


def run(c):
    c.model("SubscriptModel", "SubscriptModel", min_states=300, constants={"MaxSize": 3} if c.thorough else None)
    exe = c.build("subscript", "drv_subscript.cpp", libs=["debug", "process_id"])
    r = c.rng
    out = []

    def j(x):
        return " ".join(map(str, x))
    top = 3
    for n in (1, 2, 3):
        for s in itertools.product(range(top + 1) if n < 3 else range(3), repeat=n):
            out.append("Reset")
            out.append(f"Walk {n} {j(s)} {j([0]*n)} 0")
            gs = list(itertools.product(range(-1, top), repeat=n))
            for g in (gs if n < 3 else r.sample(gs, 12)):
                out.append(f"Walk {n} {j(s)} {j(g)} 1")
    for n in (1, 2, 3):
        shapes = list(itertools.product(range(top + 1) if n < 3 else range(4), repeat=n))
        pairs = list(itertools.product(shapes, shapes))
        if len(pairs) > 600:
            pairs = r.sample(pairs, 300)
            for _ in range(300):    # compatible ones
                o = [r.randrange(0, 5) for _ in range(n)]
                pairs.append(([x if r.random() < .6 else 1 for x in o], [x if r.random() < .6 else 1 for x in o]))
        for k, (a, b) in enumerate(pairs):
            if k % 20 == 0:
                out.append("Reset")
            out.append(f"Broadcast {n} {j(a)} {j(b)}")
    for _ in range(4000 if c.thorough else 400):
        n = r.choice([2, 2, 3, 4, 5])
        s = [r.choice([1, 1, 2, 3, 4]) for _ in range(n)]
        if r.random() < .1:
            s[r.randrange(n)] = 0
        out.append("Reset")
        out.append(f"Walk {n} {j(s)} {j([r.choice([-1, 7, r.randrange(max(x, 1))]) for x in s])} 1")
        o = [r.choice([1, 2, 3, 4]) for _ in range(n)]
        out.append(f"Broadcast {n} {j([x if r.random() < .6 else 1 for x in o])} {j([x if r.random() < .6 else 1 for x in o])}")
        o = [r.choice([1, 2, 2, 3, 4]) for _ in range(n)]
        p = 1
        out.append(f"Linear {n} {j(o)} row")
        for x in o[:-1]:
            p *= x
        if p > 1:       # otherwise the strides alone do not tell the order
            out.append(f"Linear {n} {j(o)} col")
        for order in ("row", "col"):    # strides of a view: gaps at any level
            st, q = [0] * n, r.randrange(1, 4)
            for d in (range(n - 1, -1, -1) if order == "row" else range(n)):
                st[d] = q
                q *= o[d] * r.choice([1, 1, 2, 3])
            if order == "row" or st[-1] > st[0]:
                out.append(f"Strided {n} {j(o)} {j(st)}")
        out.append(f"Strided 1 {r.randrange(1, 6)} {r.randrange(1, 4)}")
        m = r.randrange(1, 6)
        out.append(f"Linear 1 {m} row")
    tr = split(c.drive_json(exe, out))
    c.report(c.validate("SubscriptTrace", tr, what="walk"), tr)
