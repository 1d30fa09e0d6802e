"""P23 polyhedra cut by planes"""
TECHNIQUE = "TLA+ specification of convex solids cut by half-spaces, model-checked over all cuts of small boxes; histories of cuts by the real code, in Cartesian and in skewed lattice coordinates, validated by TLC in exact integers"
NOTE = "Cutting planes have normals with components -1, 0, 1, so that every corner is a multiple of 1/12 and all numbers are exact; convex hulls are of any integer points."
from vlib import LIBCPP
from checks import lattices as B
from checks.common import split

NORMALS = [(a, b, c) for a in (-1, 0, 1) for b in (-1, 0, 1) for c in (-1, 0, 1) if (a, b, c) != (0, 0, 0)]
IN_PLANE = {}
for n in NORMALS:
    IN_PLANE[n] = [(a, b, c) for a in range(-2, 3) for b in range(-2, 3) for c in range(-2, 3) if a*n[0]+b*n[1]+c*n[2] == 0 and (a, b, c) != (0, 0, 0)]


def cross(a, b):
    return (a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0])


def plane(r, lo, hi, near=None, n=None):
    """three points of the plane, in units of 1/12; cuts often touch corners, edges and faces"""
    n = n or r.choice(NORMALS)
    p = near or tuple(r.choice([a, b, (a+b)//2, r.randint(a-3, b+3)]) for a, b in zip(lo, hi))
    p = tuple(12 * (x // 12) for x in p)
    while True:
        u, v = r.choice(IN_PLANE[n]), r.choice(IN_PLANE[n])
        c = cross(u, (v[0]-u[0], v[1]-u[1], v[2]-u[2]))
        d = sum(x*y for x, y in zip(c, n))
        if d > 0:
            break
    k = 12
    return " ".join(str(x) for q in ((0, 0, 0), u, v) for x in (p[i]+k*q[i] for i in range(3)))


def hull_points(r):
    k = r.choice([4, 5, 6, 8, 10, 12])
    w = r.choice([1, 1, 2, 3])
    while True:
        pts = [tuple(r.randint(-w, w) for _ in range(3)) for _ in range(k)]
        s = list(dict.fromkeys(pts))
        b = [tuple(x-y for x, y in zip(q, s[0])) for q in s[1:]]
        if any(sum(x*y for x, y in zip(cross(u, v), t)) for u in b for v in b for t in b):
            break
    if r.random() < .4:
        pts += [r.choice(pts) for _ in range(r.randint(1, 3))]
    return pts


def lattice(r):
    how = r.choice(["bare", "bare", "real", "recip"])
    if how == "bare":
        return "Reset bare", None
    s = r.choice(B.settings())
    g = B.gram(r, [B.tr(w) for w in s[3]], 12)
    return f"Reset {how} " + " ".join(map(str, B.six(g))), (how, s)


def script(c, n):
    r, lines = c.rng, []
    for _ in range(n):
        reset, lat = lattice(r)
        lines += [reset, f"Tol {1 if lat else r.randrange(2)}"]
        hull = r.random() < .2
        lo = tuple(12 * r.randint(-3, 0) for _ in range(3))
        hi = tuple(x + 12 * r.randint(1, 3) for x in lo)
        P = lambda **k: plane(r, lo, hi, **k)

        def pts(k=8):
            return f"Contains {k} " + " ".join(str(r.choice([lo[i], hi[i], (lo[i]+hi[i])//2, r.randint(lo[i]-2, hi[i]+2), 12*r.randint(lo[i]//12, hi[i]//12)])) for _ in range(k) for i in range(3))

        def lat_op():
            W = r.choice(lat[1][3])
            return "Lattice " + " ".join(map(str, list(W) + [12 * r.randint(-3, 3) for _ in range(3)]))
        box = lambda: f"Box {r.choice(['plain', 'plain', 'hull', 'proto'] + (['bound'] if not lat else []))} " + " ".join(map(str, lo + hi))
        if hull:
            for _ in range(3):
                p = hull_points(r)
                lines.append(f"Hull {len(p)} " + " ".join(str(12*x) for q in p for x in q) + f" {r.randrange(2)}")
                lo, hi = (-24, -24, -24), (24, 24, 24)
                ops = ["Query", "Moved", pts(), f"Equal {r.randint(0, 999)} {r.choice([0, 0, 1, 2, 3])}", f"Rand 5 {r.randint(1, 99)}"] + ([lat_op()] if lat else [])
                lines += r.sample(ops, 3)
            continue
        lines.append(box())
        if r.random() < .5:
            lines += ["Save", f"Cut 1 0 {P()}", "Swap"] if r.random() < .5 else ["Save"]
        for _ in range(r.choice([3, 6, 9])):
            x = r.random()
            if x < .3:
                k = r.choice([1, 1, 1, 2, 3, 5])
                lines.append(f"Cut {k} {r.randrange(2)} " + " ".join(P() for _ in range(k)))
            elif x < .42:
                lines.append("Halves " + P())
            elif x < .5:
                lines.append("Divide " + P())
            elif x < .6:
                lines.append(pts())
            elif x < .68:
                lines.append("Query")
            elif x < .74:
                lines.append("Moved")
            elif x < .8 and lat:
                lines.append(lat_op())
            elif x < .86:
                lines.append(f"Equal {r.randint(0, 999)} {r.choice([0, 0, 0, 1, 2, 3])}")
            elif x < .9:
                lines.append("Face " + P(n=r.choice(NORMALS)))
            elif x < .93:
                lines.append(f"Rand {r.choice([1, 6])} {r.randint(1, 99)}")
            elif x < .97:
                lines.append(f"Meets {r.randrange(2)}")
            else:
                lines += [r.choice(["Save", "Swap", "Save"])]
    return lines


def run(c):
    c.model("PolyhedraModel", "PolyhedraModel", min_states=250, coverage=False)
    if c.thorough:
        c.model("PolyhedraModel", "PolyhedraModel", min_states=1000, constants={"Side": 2}, coverage=False)
    exe = c.build("polyhedra", "drv_polyhedra.cpp", libs=LIBCPP, tetgen=True)
    tr = split(c.drive_json(exe, script(c, 6000 if c.thorough else 900)))
    c.report(c.validate("PolyhedraTrace", tr, what="history"), tr)
