"""P05 interpolation is a weighted mean of one cell, exact for linear functions"""
TECHNIQUE = "TLA+ specification of cell weights, model-checked to reproduce linear functions; the real trellis, nest and mesh filled with linear fields and with tables, interpolated at probe points and at their own points, validated by TLC in exact integers"
NOTE = "Complex vectors are checked for fields in phase (an arbitrary phase between grid points is removed by design). Points outside are at least 1/24 away from the solid."
from vlib import LIBCPP
from checks.common import split
from checks.p28 import solid, points, within, grid


def outside(r, lo, hi, k):
    o = []
    for _ in range(k):
        p = [r.randint(lo[i] - 30, hi[i] + 30) for i in range(3)]
        if r.random() < .5:
            i = r.randrange(3)
            p = [r.randint(lo[j], hi[j]) for j in range(3)]
            p[i] = r.choice([lo[i] - r.randint(1, 60), hi[i] + r.randint(1, 60)])
        o += p
    return f"{k} " + " ".join(map(str, o))


def script(c, n):
    r, lines = c.rng, []
    th = lambda: r.choice([-1, -1, 0, 1, 2, 4])
    for _ in range(n):
        lo, hi, l = solid(r)
        lines += ["Reset"] + l + [grid(r), "Where " + within(r, lo, hi, l, 6)]
        sh = lambda: f"{r.choice([1, 1, 2, 3])} {r.choice([1, 2, 3, 3, 4, 9, 13])} {r.choice([1, 2, 3, 3, 6, 9, 10])} {r.randint(1, 9999)} {r.choice([0, 0, 1, 2, 3])}"
        for _ in range(2):
            lines += ["Fill " + sh()] + [f"At {within(r, lo, hi, l, 10) if r.random() < .9 else points(r, lo, hi, 3)} {th()}" for _ in range(3)]
            lines += [f"Outside {outside(r, lo, hi, 6)} {th()}"]
        lines += ["Table " + sh(), f"Own {th()}"]
    return lines


def run(c):
    c.model("GridsModel", "GridsModel", min_states=50, coverage=False)
    exe = c.build("grids", "drv_grids.cpp", libs=LIBCPP, tetgen=True)
    tr = split(c.drive_json(exe, script(c, 1500 if c.thorough else 150)))
    c.report(c.validate("GridsTrace", tr, what="interpolation"), tr)
