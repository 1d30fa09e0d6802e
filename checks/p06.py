"""P06 values anywhere are those of the irreducible zone, transformed as the data demand"""
TECHNIQUE = "TLA+ specification of how scalars, vectors, axial vectors, tensors and atomic displacements transform, model-checked for consistency; grids over zones of every kind filled with known fields by the real code and interpolated anywhere, validated by TLC in exact integers"
NOTE = "Fields are linear in q (real data) or constant (complex data), so that their interpolation is exact. Atomic displacements are checked for crystals of up to 8 atoms and wavevectors in 24ths, without time reversal unless the group has an inversion."
from vlib import LIBCPP
from checks import zones as Z, lattices as B
from checks.common import split

KINDS = [(0, 3), (0, 3), (1, 3), (0, 4), (0, 3), (0, 4), (1, 3)]


def field(r, cplx, atoms=0, other=False):
    lin = 0 if cplx else 1
    s, v, m = r.choice([(1, 0, 0), (0, 1, 0), (0, 2, 0), (0, 0, 1), (1, 1, 0), (1, 1, 1), (0, 1, 1), (2, 0, 1), (3, 2, 0)])
    rl, lu = r.choice(KINDS)
    if atoms:
        rl, lu = 2, r.choice([1, 3])
        s, v, m = r.choice([(0, atoms, 0), (0, atoms, 0), (1, atoms, 0)] + ([(0, 0, atoms * atoms), (0, atoms, atoms * atoms)] if atoms <= 3 else []))
    if other:
        rl, lu = r.choice([(1, 4), (0, 1), (0, 2), (1, 1), (2, 4), (2, 2), (2, 3)])
    b = r.choice([1, 2, 2, 3])
    n = b * (s + 3 * v + 9 * m)
    c = " ".join(" ".join(str(r.randint(-3, 3)) if j == 3 or lin or j < 2 else "0" for j in range(4)) for _ in range(n))
    return f"{b} {s} {v} {m} {rl} {lu} {lin} {c}", b


def fields(r, ty, atoms):
    while True:
        x, b = field(r, ty == 2)
        y, d = field(r, ty > 0, atoms, other=not atoms and r.random() < .04)
        if b == d:
            return f"Fill {r.choice([2, 2, 3])} {x} {y}"


def script(c, n, kk):
    r, S, lines = c.rng, B.settings(), []
    by = {}
    for s in S:
        by.setdefault((s[1], len(set(s[3]))), []).append(s)
    kinds = sorted(by)
    for j in range(n):
        s = r.choice(by[kinds[j % len(kinds)]] if r.random() < .5 else S)
        gamma = r.random() < .35
        prim = r.choice([1, 1, 1, 0])
        tr = r.choice([0, 0, 1]) if not gamma or s[2] else 0
        search = 0 if r.random() < .12 else 1
        g = Z.metric(r, s)
        while not Z.enough(g, s[1] if prim else "P"):
            g = Z.metric(r, s)
        sc = r.choice(["1 1", "1 2", "1 5", "3 2", "1 1"])
        atoms = []
        if gamma:
            k = r.choice([1, 2, 3])
            for _ in range(k):
                t = r.choice([0, 12, 6, 8, 16, 18, 4, 1, 5])
                p = r.choice([(0, 0, 0), (0, 0, t), (t, 0, 0), (12, 12, 12), (12, 0, 0), (8, 16, t), (0, 12, 6), (6, 6, 6), (t, t, t), (0, t, t), (t, 2 * t, 3), (r.randint(0, 23), r.randint(0, 23), r.randint(0, 23))])
                atoms.append(f"{r.choice([0, 1])} {r.choice([0, 0, 1, 2])} {p[0]} {p[1]} {p[2]}")
        lines += ["Reset", f"Zone {s[0]} {' '.join(map(str, B.six(g)))} {sc} {prim} {tr} {search} {len(atoms)} {' '.join(atoms)}"]
        ty = r.choice([1, 2]) if gamma else r.choice([0, 0, 1, 2])
        kind = r.choice(["trellis", "trellis", "nest", "mesh"])
        lines.append(f"Grid {kind} {ty} {r.choice([1, 3, 8, 20])} {r.choice([0, 1]) if kind == 'trellis' else r.choice([0, 2, 5]) if kind == 'nest' else r.choice([-1, 0, 1])}")
        for _ in range(2):
            lines.append(("G " if gamma else "F ") + str(ty))
            for _ in range(2):
                m = r.choice([1, 2, 3, 4, 6, 8, 12, 24]) if gamma else r.choice([2, 4, 5, 6, 8, 12, 12, 20])
                lines.append(f"{'At' if search or kind != 'trellis' or r.random() < .5 else 'Flat'} {m} {r.choice([0, 1, 1, 2, 3, 8])} {kk} {Z.points(r, kk, m, far=True)}")
    return lines


def fill(c, exe, lines):
    """the fields of a crystal depend on how many atoms it has: ask the driver"""
    import json
    r, out, n, k = c.rng, [], 0, 0
    zs = [l for l in lines if l.startswith("Zone ")]
    sizes = [len(json.loads(e)["atoms"]) for e in c.drive(exe, [x for l in zs for x in ("Reset", l)]) if e.startswith('{"ev":"Zone"')]
    k = -1
    for l in lines:
        if l.startswith("Zone "):
            k += 1
        out.append(fields(r, int(l[2:]), sizes[k] if l[0] == "G" else 0) if l[:2] in ("G ", "F ") else l)
    return out


def run(c):
    c.model("IrGridsModel", "IrGridsModel", min_states=20000, coverage=False)
    exe = c.build("irgrids", "drv_irgrids.cpp", libs=LIBCPP, tetgen=True)
    tr = split(c.drive_json(exe, fill(c, exe, script(c, 1200 if c.thorough else 160, 5))))
    c.report(c.validate("IrGridsTrace", tr, what="history"), tr)
