"""P20 primitive descriptions of centred lattices"""
TECHNIQUE = "TLA+ specification of centred lattices and their primitive bases, model-checked over all centrings and small metrics; primitive lattices and transformed vectors of the real code validated by TLC in integers"
NOTE = "Any primitive basis is accepted, provided everything is consistent with it. Integer vectors are claimed only where the components are integers in both descriptions."
from vlib import SYMM
from checks import lattices as B, crystal as X
from checks.p19 import lat, split, vec


def trans(r, i, letter):
    rec, to, T = r.randrange(2), r.randrange(2), r.choice(["int", "double", "double"])
    n = r.choice([1, 1, 2, 3, 5])
    out = []
    for _ in range(n):
        v = [r.randint(-4, 4) for _ in range(3)] if T == "int" else [r.choice([r.randint(-30, 30), 12 * r.randint(-3, 3), 0]) for _ in range(3)]
        if T == "int" and r.random() < .85:     # made to be a lattice point in both descriptions
            if rec and to:
                v = X.mv(B.tr(ip(letter)), v)
            elif not rec and not to:
                v = X.mv(ip(letter), v)
        out.append(" ".join(map(str, v)))
    return f"Trans {i} {rec} {T} {to} {r.randrange(2)} {r.choice([0, 1, 2, 3, 8, -1])} {r.choice([0, 0, 1])} {n} " + " ".join(out)


def ip(letter):
    p = B.P6[letter]
    d = B.det(p)
    return tuple(6 * x // d for x in B.adj(p))


def run(c):
    c.model("LatticesModel", "LatticesModel", min_states=9000, constants={"Low": 1, "High": 2} if c.thorough else {"Low": 1, "High": 1}, coverage=False)
    exe = c.build("lattices", "drv_lattices.cpp", libs=SYMM)
    r, S = c.rng, B.settings()
    by = {l: [s for s in S if s[1] == l] for l in "PABCIFR"}
    lines = []
    order = list(S)
    for rep in range(2 if c.thorough else 1):     # every setting
        r.shuffle(order)
        for j in range(0, 530, 10):
            lines.append("Reset")
            for k, s in enumerate(order[j:j + 10]):
                lines += [lat(r, k, s), f"Prim {k}", trans(r, k, s[1])]
    for _ in range(500 if c.thorough else 70):
        lines.append("Reset")
        k = r.choice([2, 3, 4])
        ls = []
        for i in range(k):
            s = r.choice(by[r.choice("PABCIFRR")])
            if i and r.random() < .3:     # the same lattice once more
                o = r.randrange(i)
                t = [x for x in lines if x.startswith(f"Lat {o} ")][-1].split()
                lines.append(" ".join(["Lat", str(i)] + t[2:]))
                s = (0, ls[o])
            else:
                lines.append(lat(r, i, s, scales=((1, 1), (1, 1), (3, 2))))
            ls.append(s[1])
            lines.append(f"Prim {i}")
            lines += [trans(r, i, s[1]) for _ in range(r.choice([3, 6]))]
            if i:
                lines.append(f"Wrong {i} {r.randrange(i)} {r.randrange(2)} {r.randrange(2)} {r.randrange(2)}")
    tr = split(c.drive_json(exe, lines))
    c.report(c.validate("LatticesTrace", tr, what="history"), tr)
