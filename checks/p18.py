"""P18 motions and their text"""
TECHNIQUE = "TLA+ specification of the group of motions and of a character-by-character reader of their text, model-checked; random compositions and random texts, written by and read by the real code, validated by TLC"
NOTE = ("Texts given to be read use lower-case letters, each letter at most once per component, at most one constant term per component, in any order, with any spacing, as a fraction or decimal; "
        "whatever the library writes is read by the specification's own reader.")
from fractions import Fraction as F
from checks.common import split
from checks import crystal as X
from vlib import SYMM


def text(r, m):
    """one of the many ways to write a motion"""
    rows = []
    for k in range(3):
        terms = []
        for x, ch in zip(m[0][3 * k:3 * k + 3], "xyz"):
            if x:
                terms.append((x < 0, (str(abs(x)) if abs(x) != 1 or r.random() < .2 else "") + ch))
        w = F(m[1][k], 24)
        if w or r.random() < .1:
            a = abs(w)
            f = r.choice([1, 1, 1, 2, 3, 12])
            t = f"{a.numerator * f}/{a.denominator * f}"
            if 1000 % a.denominator == 0 and r.random() < .4:
                t = f"{float(a):.{r.choice([3, 4, 5])}f}"
                if t.startswith("0.") and r.random() < .4:
                    t = t[1:]
            terms.append((w < 0, t))
        r.shuffle(terms)
        s = ""
        sp = lambda: "_" * r.choice([0, 0, 0, 0, 1, 2])
        for i, (neg, t) in enumerate(terms):
            s += ("-" if neg else "+" if i or r.random() < .3 else "") + sp() + t + sp()
        rows.append(sp() + s)
    return ",".join(rows)


def script(r, steps):
    out = ["Reset"]
    H = X.holohedry(r) if r.random() < .7 else [X.unimodular(r, r.choice([1, 2, 3])) for _ in range(12)]
    M = lambda a: " ".join(map(str, a))
    n = 0

    def motion():
        a = r.choice(H) if r.random() < .9 else X.I
        k = r.choice([1, 2, 3, 4, 6, 8, 12, 24])
        w = tuple(r.randrange(-48, 49) // k * k if r.random() < .7 else 0 for _ in range(3))
        return a, w
    for _ in range(2):
        out.append("Make %s %s %d" % (*map(M, motion()), r.randrange(4)))
        n += 1
    small = {0, 1}                        # those whose entries cannot have grown
    for _ in range(steps):
        k = r.random()
        pick = lambda: r.choice(sorted(small))
        if k < .15:
            out.append("Make %s %s %d" % (*map(M, motion()), r.randrange(4)))
            small.add(n)
            n += 1
        elif k < .35:
            out.append(f"Times {pick()} {pick()}")
            if len(H) > 12:
                small.add(n)
            n += 1
        elif k < .45:
            out.append(f"Inverse {pick()}")
            if len(H) > 12:
                small.add(n)
            n += 1
        elif k < .65:
            out.append(f"Ask {r.randrange(n)} {r.randrange(n)} {M([r.randrange(-60, 61) for _ in range(3)])}")
        elif k < .75:
            out.append(f"Write {r.randrange(n)}")
        elif k < .85:
            out.append(f"Read {r.randrange(3)} {text(r, motion())}")
            small.add(n)
            n += 1
        elif k < .9:
            t = ";".join(text(r, motion()) for _ in range(r.randrange(1, 6))) + r.choice(["", ";"])
            out.append(f"ReadMany {t}")
        elif k < .95:
            q = [(r.randrange(-10 ** 6, 10 ** 6), r.randrange(1, 10 ** 6)) for _ in range(3)]
            out.append(f"Decimal {M(r.choice(H))} " + " ".join(f"{a} {b}" for a, b in q))
        else:
            q = []
            for _ in range(3):
                b = r.choice([r.randrange(1, 100), r.randrange(100, 1000)])
                q.append((r.randrange(0, min(b, 250)) * r.choice([-1, 1]), b))
            out.append(f"Ratio {M(r.choice(H))} " + " ".join(f"{a} {b}" for a, b in q))
    # associativity, inverses and lattice translations, by the real comparison
    i, j, k = (r.choice(sorted(small)) for _ in range(3))
    out += [f"Times {i} {j}", f"Times {n} {k}", f"Times {j} {k}", f"Times {i} {n + 2}", f"Ask {n + 1} {n + 3} 1 2 3",
            f"Inverse {i}", f"Times {i} {n + 4}", f"Make {M(X.I)} 0 0 0 0", f"Ask {n + 5} {n + 6} 1 2 3"]
    return out


def run(c):
    c.model("CifModel", "CifModel", min_states=20000)
    exe = c.build("cif", "drv_cif.cpp", libs=SYMM)
    lines = []
    for _ in range(4000 if c.thorough else 400):
        lines += script(c.rng, 30)
    tr = split(c.drive_json(exe, lines))
    c.report(c.validate("CifTrace", tr, what="history"), tr)
