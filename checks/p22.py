"""P22 objects written and read back"""
TECHNIQUE = "TLA+ specification of objects and files as pasts of what was done, model-checked; its behaviours and seeded ones replayed with the real objects of every storable kind, all replies validated by TLC"
NOTE = "HDF5 is not installed here: files are those of an in-memory stand-in for its C++ interface, which is as strict about names, shapes and types. Nests cannot be stored (the library refuses)."
from vlib import LIBCPP
from checks.common import split
from checks.p28 import solid
from checks import lattices as B, zones as Z


def box(r):
    lo, hi, l = solid(r)
    cuts = [x.split()[1:] for x in l if x.startswith("Cut")]
    return " ".join(map(str, lo + hi)) + f" {len(cuts)} " + " ".join(" ".join(c) for c in cuts)


def lat(r, S):
    s = r.choice(S)
    g = Z.metric(r, s)
    while not Z.enough(g, s[1]):
        g = Z.metric(r, s)
    return f"{s[0]} {' '.join(map(str, B.six(g)))} {r.choice(['1 1', '1 5'])}"


def zone(r, S):
    return f"{lat(r, S)} {r.choice([1, 1, 0])} {r.choice([0, 1])} 1 {r.choice([0, 0, 1])}"


def thing(r, S):
    k = r.choice(["array", "array", "basis", "symmetry", "point", "motion", "config", "table", "table", "lattice", "lattice", "vectors", "zone", "zone",
                  "poly", "faces", "zonepoly", "grid", "grid", "grid", "grid", "zonegrid", "zonegrid", "zonegrid"])
    h = f"{k} {r.getrandbits(20)} "
    if k == "array":
        return h + f"{r.randint(0, 3)} {r.choice([0, 1, 2, 5])} {r.choice([0, 1, 3, 9])} {r.randint(0, 2)}"
    if k == "basis":
        return h + f"{r.choice([0, 1, 2, 6])}"
    if k == "symmetry":
        return h + f"{r.randint(1, 530)} {r.choice([0, 1, 2, 5, 200])}"
    if k == "point":
        return h + f"{r.randint(1, 530)} {r.choice([0, 1, 2, 5, 200])} {r.randint(0, 1)}"
    if k == "motion":
        return h + f"{r.randint(1, 530)}"
    if k == "config":
        return h
    if k == "table":
        return h + f"{r.randint(2, 5)} {r.choice([0, 1, 2, 4])} {r.randint(0, 6)}"
    if k == "lattice":
        return h + f"{r.randint(0, 1)} " + lat(r, S)
    if k == "vectors":
        return h + f"{r.randint(0, 1)} {r.choice([0, 1, 2, 5])} {r.randint(0, 1)} " + lat(r, S)
    if k == "zone":
        return h + zone(r, S)
    if k in ("poly", "faces"):
        return h + box(r)
    if k == "zonepoly":
        return h + f"{r.randint(0, 1)} " + zone(r, S)
    w = f"{r.choice(['trellis', 'mesh'])} {r.randint(0, 2)} {r.choice([10, 30, 80])} {r.randint(0, 3)} "
    return h + w + (box(r) if k == "grid" else zone(r, S))


def history(r, b, S):
    """a behaviour of the specification; wherever it loads, what was stored and what came back go through the same"""
    makes = {k: thing(r, S) for k in (1, 2, 3)}
    seeds = {o: r.getrandbits(20) for o in (1, 2, 3, 4)}
    out, past, disk = ["Reset"], {}, {}

    def emit(op, s, k):
        if op == "Make":
            out.append(f"Make {s} {makes[k]}"); past[s] = (k,)
        elif op == "Do":
            out.append(f"Do {s} {k} {seeds[k]}")
            if s in past:
                past[s] += (("did", k),)
        elif op == "Save":
            out.append(f"Save {s} {k}")
            if s in past:
                disk[k] = past[s]
        else:
            out.append(f"Load {s} {k}")
            if k in disk:
                past[s] = disk[k]
    for op, s, k in b:
        emit(op, s, k)
    # twins
    for _ in range(2):
        k = r.choice([1, 2, 3])
        emit("Make", 4, k)
        for o in r.sample([1, 2, 3], r.randint(0, 3)) if r.random() < .5 else [1, 2, 3][:r.randint(0, 3)]:
            emit("Do", 4, o)
        e = r.choice([1, 2, 3])
        emit("Save", 4, e); emit("Load", 5, e)
        for o in [4] + r.choices([1, 2, 3, 4], k=2) + [3, 4]:
            emit("Do", 4, o); emit("Do", 5, o)
    return out


def run(c):
    r = c.rng
    c.model("Store", "Store", min_states=2000, constants={"Most": 4 if c.thorough else 3})
    beh = c.behaviours("Store", "StoreGen", num=1500 if c.thorough else 150, depth=22)
    S = B.settings()
    exe = c.build("store", "drv_store.cpp", libs=LIBCPP, tetgen=True)
    lines = []
    for b in beh:
        lines += history(r, b, S)
    tr = split(c.drive_json(exe, lines))
    c.report(c.validate("StoreTrace", tr, what="history"), tr)
