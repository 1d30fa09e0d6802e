"""P28 grids partition the zone"""
TECHNIQUE = "TLA+ specification of grids over solids, model-checked for small solids; trellises, nests and meshes built by the real code over cut boxes and validated by TLC: exact volumes, conforming tetrahedra, distinct corners"
NOTE = "Solids are boxes cut by planes with normal components -1, 0, 1; the points a mesher adds inside nests and meshes are known to the specification to 1/2400 only."
from vlib import LIBCPP
from checks.common import split
from checks.p23 import plane


def solid(r):
    """a box around or beside the origin, cut a few times, and the sizes that divide it"""
    while True:
        lo = [24 * r.randint(-2, 0) for _ in range(3)]
        hi = [x + 24 * r.randint(1, 3) for x in lo]
        lines = ["Box " + " ".join(map(str, lo + hi))]
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            # the parity of the distance of a plane decides whether the corners are on the grid
            n3 = plane(r, [x // 2 for x in lo], [x // 2 for x in hi])
            lines.append("Cut " + " ".join(str(2 * int(x)) for x in n3.split()))
        return lo, hi, lines


def inside(lines, p):
    """in all of the half spaces (a cut that would leave nothing is not made, which this does not notice)"""
    for l in lines[1:]:
        v = [int(x) for x in l.split()[1:]]
        a, u, w = v[:3], [v[3+i]-v[i] for i in range(3)], [v[6+i]-v[i] for i in range(3)]
        n = [u[1]*w[2]-u[2]*w[1], u[2]*w[0]-u[0]*w[2], u[0]*w[1]-u[1]*w[0]]
        if sum(n[i]*(p[i]-a[i]) for i in range(3)) > 0:
            return False
    return True


def within(r, lo, hi, lines, k):
    """points of the solid, many of them on its surface"""
    o = []
    for _ in range(60*k):
        p = [int(x) for x in points(r, lo, hi, 1).split()[1:]]
        if inside(lines, p):
            o.append(p)
        if len(o) == k:
            break
    return f"{len(o)} " + " ".join(str(x) for p in o for x in p) if o else points(r, lo, hi, k)


def points(r, lo, hi, k):
    return f"{k} " + " ".join(str(r.choice([lo[i], hi[i], (lo[i]+hi[i])//2, 0, 12*r.randint(lo[i]//12, hi[i]//12), r.randint(lo[i], hi[i])])) for _ in range(k) for i in range(3))


def grid(r):
    kind = r.choice(["trellis", "trellis", "nest", "mesh"])
    if kind == "trellis":
        return f"Grid trellis {r.choice([27000, 8000, 8000, 1000, 1000, 3375, 500])} {r.choice([0, 0, 1])}"
    if kind == "nest":
        return f"Grid nest {r.choice([4000, 1000, 400, 200, 100])} {r.choice([1, 2, 3, 5])} {r.choice([0, 0, 1])}"
    return f"Grid mesh {r.choice([4000, 1000, 400, 200])} {r.choice([1, 2, 3, 5])}"


def script(c, n):
    r, lines = c.rng, []
    for _ in range(n):
        lo, hi, l = solid(r)
        lines += ["Reset"] + l
        for _ in range(2):
            lines += [grid(r), "Where " + within(r, lo, hi, l, 12)]
    return lines


def run(c):
    c.model("GridsModel", "GridsModel", min_states=50, coverage=False)
    if c.thorough:
        c.model("GridsModel", "GridsModel", min_states=200, constants={"Depth": 2}, coverage=False)
    exe = c.build("grids", "drv_grids.cpp", libs=LIBCPP, tetgen=True)
    tr = split(c.drive_json(exe, script(c, 1500 if c.thorough else 250)))
    c.report(c.validate("GridsTrace", tr, what="grid"), tr)
