"""P08 mode sorting"""
TECHNIQUE = "TLA+ specification of sorting modes (costs, least-cost matchings, consistency, mixing), model-checked exhaustively for small graphs; the real sorting and interpolation of graphs and grids of modes validated by TLC, which finds the least cost over all permutations itself"
NOTE = "Modes have small Gaussian-integer elements, phases that are powers of i and at most four branches; costs are compared to thousandths, so that matchings closer in cost than that are not told apart."
from vlib import LIBCPP
from checks.common import split


def what(r, vec, cplx, B):
    """which elements a mode has, the cost functions and the shape of the array"""
    f = r.choice([0, 1, 2, 3, 4, 5, 6]) if vec else r.choice([0, 1, 2])
    e = (r.randint(0, 2), r.choice([1, 1, 1, 2]) if f < 3 and vec else r.choice([0, 0, 1]), r.choice([0, 0, 0, 1]))
    if f >= 3:
        e = (e[0], 1, e[2])
    if sum(e) == 0:
        e = (1, 0, 0)
    if cplx:        # the phase is that of the whole mode
        e = r.choice([(0, 1, 0), (0, 1, 0), (1, 0, 0), (0, 2, 0), (0, 0, 1), (1, 1, 0)]) if f < 3 else (0, 1, 0)
    return f, e


def fill(r, vec, B, f, e):
    return f"Fill {vec} {r.getrandbits(30)} {B} {r.choice([0, 1, 1])} {e[0]} {e[1]} {e[2]} {f} {r.choice([2, 2, 3])}"


def script(c, n):
    r, lines = c.rng, []
    for _ in range(n):
        t, B = r.randint(0, 2), r.choice([1, 2, 2, 3, 3, 4])
        kind = r.choice(["graph", "graph", "graph", "trellis", "nest", "mesh"])
        if kind == "graph":
            k = r.randint(2, 6)
            pairs = sorted({tuple(sorted(r.sample(range(k), 2))) for _ in range(r.randint(1, 7))})
            make = f"Make {t} graph {k} {len(pairs)} " + " ".join(f"{a} {b}" for a, b in pairs)
        elif kind == "trellis":
            make = f"Make {t} trellis {r.randint(0, 1)} {r.randint(0, 1)} {r.randint(0, 1)} {r.choice([8000, 1000, 1000, 500])} {r.randint(0, 1)}"
        else:
            make = f"Make {t} {kind} {r.randint(0, 1)} {r.randint(0, 1)} 0 {r.choice([8000, 1000, 500])} {r.randint(2, 3)}"
        lines += ["Reset", make]
        for _ in range(r.choice([1, 1, 2, 3])):
            both = [what(r, v, t == 2 if v == 0 else t >= 1, B) for v in (0, 1)]
            order = [0, 1]
            r.shuffle(order)
            if r.random() < .1:
                order = order[:1]
            for v in order:
                lines.append(fill(r, v, B, *both[v]))
            for v in (0, 1):
                f = both[v][0] if v in order else 0
                lines.append(f"Cost {v} {f} {r.choice([0, 1, 1, 2])} {r.choice([0, 1, 1, 3])} {r.choice([0, 1, 1])}")
            if r.random() < .5:
                lines += ["Look", f"At {r.randint(1, 4)} {r.getrandbits(30)}"]
            for _ in range(r.choice([1, 1, 2])):
                lines.append(f"Sort {r.choice([1, 2, 4])}")
                lines += [f"At {r.randint(1, 4)} {r.getrandbits(30)}" for _ in range(3)]
            if r.random() < .3:
                lines += [f"Cost 1 {both[1][0] if 1 in order else 0} {r.randint(0, 2)} {r.randint(0, 2)} {r.randint(0, 1)}", "Look", f"Sort {r.choice([1, 2, 4])}"]
            if r.random() < .3:        # new data, as many modes or not
                B = r.choice([B, B, r.randint(1, 4)])
    return lines


def run(c):
    c.model("ModesModel", "ModesModel", min_states=700, constants={"Weight": c.rng.choice([1, 2])}, coverage=False)
    if c.thorough:
        c.model("ModesModel", "ModesModel", min_states=4000, constants={"Largest": 3}, coverage=False)
    exe = c.build("modes", "drv_modes.cpp", libs=LIBCPP, tetgen=True)
    tr = split(c.drive_json(exe, script(c, 1500 if c.thorough else 200)))
    c.report(c.validate("ModesTrace", tr, what="set of modes"), tr)
