"""P26 crystal classes"""
TECHNIQUE = "TLA+ specification of the 32 crystal classes, model-checked over every subgroup of m-3m and 6/mmm; groups in random bases, orders and with repetitions, and all tabulated settings, classified by the real code and by TLC"
NOTE = "The change of basis to the standard setting is decided for the tabulated settings (the library searches a fixed list of axes): positive determinant, whole-number operations, and the standard form of the class's Laue group."
from checks import crystal as X
from checks.p17 import libs, batches


def run(c):
    for s in (4, 6):
        c.model("CrystalClassModel", "CrystalClassModel", min_states=50, constants={"System": s, "Depth": 4}, coverage=False)
    exe = c.build("spacegroups", "drv_spacegroups.cpp", libs=libs())
    r = c.rng
    lines = []
    for i in range(1, 531):
        lines += [f"Change|{i}|{k}" for k in [0] + ([r.randrange(1, 48)] if i % 2 or c.thorough else [])]
    classes = {}
    for _ in range(1500 if c.thorough else 260):
        h = r.choice([X.CUBIC, X.HEX])
        g = None
        while g is None:
            g = X.closure([r.choice(h) for _ in range(r.choice([1, 2, 2, 3, 4]))])
        u = X.unimodular(r, r.choice([0, 1, 2, 3, 5]))
        g = [X.conj(u, a) for a in g]
        r.shuffle(g)
        for _ in range(r.choice([0, 0, 1, 3])):
            g.insert(r.randrange(len(g)), r.choice(g))
        lines.append(f"Class|{len(g)} " + " ".join(" ".join(map(str, a)) for a in g))
    tr = batches(c.drive_json(exe, lines), 10)
    c.report(c.validate("SpaceGroupsTrace", tr, what="batch"), tr)
