"""P16 symmetry sets"""
TECHNIQUE = "TLA+ specification of lists of operations and their closure; the generator search model-checked from every short list; random edit histories of the real sets validated by TLC"
NOTE = ("TLC follows the search for generators from every list of up to two operations of 4/mmm, 6/mmm and m-3m and compares closure, minimality and order; the real "
        "PointSymmetry and Symmetry are driven through random edits on random subsets of all point groups in random bases and of space groups with random origins, every answer recomputed by TLC.")
from checks.common import split
from checks import crystal as X


def script(r, steps):
    out = ["Reset"]
    H = X.holohedry(r)
    M = lambda a: " ".join(map(str, a))
    O = lambda m: M(m[0]) + " " + M(m[1])
    some = lambda: r.choice(H)
    np = 0                                   # how many there are at most is tracked only to pick indices
    shift = [r.randrange(24) for _ in range(3)] if r.random() < .5 else [0, 0, 0]
    step = r.choice([12, 12, 6, 8])

    def motions(k, top):
        for _ in range(50):
            g = []
            for _ in range(k):
                a = some()
                w = [r.choice(range(0, 24, step)) if r.random() < .5 else 0 for _ in range(3)]
                if r.random() < .2:
                    a = X.I
                w = [x + s - t for x, s, t in zip(w, shift, X.mv(a, shift))]    # about another origin
                g.append((a, tuple(x % 24 + (24 * r.choice([-1, 0, 1]) if r.random() < .15 else 0) for x in w)))
            c = X.closure([(a, tuple(x % 24 for x in w)) for a, w in g], (X.I, (0, 0, 0)), X.mmul, top)
            if c:
                return g, sorted(c)
        return [], []
    gens, group = motions(r.choice([1, 2, 2, 3, 4]), r.choice([8, 24, 48, 96]))
    if gens and r.random() < .8:
        out.append(f"SMake {len(gens)} " + " ".join(map(O, gens)))
        ns = len(gens)
    else:
        ns = 0
        group = [(X.I, (0, 0, 0))]
    k = r.choice([0, 1, 2, 3, 4, 6])
    out.append(f"PMake {k} " + " ".join(M(some()) for _ in range(k)))
    np = k
    for _ in range(steps):
        op = r.choice(["PAdd", "PSet", "PErase", "PPop", "PSort", "PSort", "PPermute", "PAsk", "PAsk", "PGenerate", "PGenerators", "PAddInv", "PHigher",
                       "PNfolds", "SAdd", "SErase", "SPop", "SAsk", "SGenerate", "SGenerators", "SAddInv", "SEqual", "PResize"])
        i = r.randrange(max(1, np)) if r.random() < .9 else np + r.randrange(2)
        j = r.randrange(max(1, ns)) if r.random() < .9 else ns + r.randrange(2)
        if op == "PAdd":
            k = r.choice([1, 1, 2])
            out.append(f"PAdd {r.randrange(3)} {k} " + " ".join(M(some()) for _ in range(k)))
            np += k
        elif op == "PSet":
            out.append(f"PSet {i} {M(some())}")
        elif op in ("PErase", "PPop"):
            out.append(f"{op} {i}")
            np -= i < np
        elif op == "PResize":
            if r.random() < .5:
                k = r.randrange(0, np + 1)
                out.append(f"PResize {k}")
                np = k
        elif op == "PSort":
            out.append(f"PSort {r.choice([-2, -1, 0, 1, 2])}")
        elif op == "PPermute":
            p = list(range(np))
            r.shuffle(p)
            if r.random() < .15 and np:
                p[0] = p[-1] if np > 1 else 1
            out.append(f"PPermute {len(p)} {M(p)}")
        elif op == "PAsk":
            v = [r.randrange(-2, 3) for _ in range(3)]
            a = some()
            w = r.choice([X.mv(a, v), X.mv(tuple(a[3 * (k % 3) + k // 3] for k in range(9)), v), v])
            m = r.choice([some(), some(), X.I, X.INV])
            out.append(f"PAsk {i} {M(m)} {M(v)} {M(w)}")
        elif op in ("PGenerate", "PGenerators", "PAddInv"):
            out.append(f"{op} 0")
        elif op in ("PHigher", "PNfolds"):
            out.append(f"{op} {r.choice([0, 0, 1, 2, 3])}")
        elif op == "SAdd":
            k = r.choice([1, 2])
            ms = [r.choice(group) for _ in range(k)]
            out.append(f"SAdd {r.randrange(4)} {k} " + " ".join(map(O, ms)))
            ns += k
        elif op in ("SErase", "SPop"):
            out.append(f"{op} {j}")
            ns -= j < ns
        elif op == "SAsk":
            m = r.choice(group)
            m = (m[0], tuple(x + 24 * r.choice([-1, 0, 0, 1]) for x in m[1]))
            out.append(f"SAsk {j} {O(m)}")
        elif op in ("SGenerate", "SGenerators"):
            out.append(f"{op} 0")
        elif op == "SAddInv":
            if X.closure(group + [(X.INV, (0, 0, 0))], (X.I, (0, 0, 0)), X.mmul, 96):
                out.append("SAddInv 0")
        elif op == "SEqual":
            g2 = [r.choice(group) for _ in range(ns)]
            out.append(f"SEqual {ns} " + " ".join(map(O, g2)))
    # the whole group: written in some order, asked, reduced to generators and regenerated
    k = r.random()
    if k < .5:
        out += ["PGenerate 1", f"PAsk 0 {M(X.I)} 1 0 0 1 0 0", "PNfolds 0", "PNfolds 1", "PSort 2", "PAddInv 1", "PGenerators 1", "PSort -1", "PGenerate 0"]
    if k > .3 and len(group) <= 48:
        out += ["SGenerate 1", f"SAsk 0 {O(group[0])}"]
        p = list(group)
        r.shuffle(p)
        out += [f"SEqual {len(p)} " + " ".join(map(O, p)), "SGenerators 1", "SGenerate 0"]
    return out


def run(c):
    for s, d in ((6, 2), (4, 2), (3, 2)) if not c.thorough else ((6, 3), (4, 3), (3, 2)):
        c.model("SymOpsModel", "SymOpsModel", min_states=500, constants={"System": s, "MaxLen": d})
    exe = c.build("symops", "drv_symops.cpp", libs=["hall_symbol", "spg_database", "symmetry", "pointsymmetry", "pointgroup", "approx_config", "debug", "process_id",
                                                    "bravais", "comparisons", "hdf_interface"])
    lines = []
    for _ in range(1200 if c.thorough else 160):
        lines += script(c.rng, 25)
    tr = split(c.drive_json(exe, lines))
    c.report(c.validate("SymOpsTrace", tr, what="history"), tr)
