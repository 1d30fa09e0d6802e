"""P19 direct and reciprocal lattices"""
TECHNIQUE = "TLA+ specification of lattices by their integer metric, identities model-checked over small bases; lattices of the real code built in every way over all tabulated symmetries, their parameters and vector algebra validated by TLC in integers"
NOTE = "Floating-point results are turned into integers by the exact scale of each quantity; a result that is not an integer to 1e-6 (1e-9 relative) is rejected. Lattices are right-handed."
from vlib import SYMM
from checks import lattices as B, crystal as X

HOWS = ["deg", "rad", "pi", "nonedeg", "nonerad", "col", "row"]


def lat(r, i, s, hows=HOWS, snap=None, scales=((1, 1), (1, 1), (1, 2), (11, 2), (3, 1)), g=None, q=None, recip=None):
    no, letter, inv, rots = s
    recip = r.randrange(2) if recip is None else recip
    if g is None:
        g = B.gram(r, rots if not recip else [B.tr(w) for w in rots])
    sn, sd = r.choice(scales)
    return f"Lat {i} {r.choice(hows)} {r.choice(['ops', 'ops', 'hall', 'xyz', 'name'])} {recip} {r.randrange(2) if snap is None else snap} {no} {sn} {sd} " + " ".join(map(str, B.six(g))) + " " + " ".join(map(str, q or B.quaternion(r)))


def vec(r):
    return " ".join(str(r.randint(-3, 3)) for _ in range(3))


def vecs(r, i):
    n, mode = r.choice([1, 2, 3, 4]), r.choice([0, 0, 1, 2, 3])
    na, nb = (1 if mode == 1 else n), (1 if mode == 2 else n)
    return f"Vec {i} {r.randrange(2)} {n} {mode} " + " ".join(vec(r) for _ in range(na + nb))


def script(r, k, settings):
    lines = ["Reset"]
    for i in range(k):
        s = r.choice(settings) if r.random() < .85 else settings[r.randrange(2)]
        lines.append(lat(r, i, s))
        for _ in range(r.choice([1, 2, 3])):
            lines.append(f"Again {i} {r.choice(HOWS)} {r.choice(['ops', 'hall', 'name'])} {r.randrange(2)} {r.randrange(2)}")
        lines += [vecs(r, i) for _ in range(2)]
        if r.random() < .3:
            lines.append(f"Turn {i} {r.randrange(2)} " + " ".join(map(str, r.choice(X.CUBIC + X.HEX))) + f" {vec(r)} {vec(r)}")
        if i and r.random() < .5:   # a near copy of an earlier one
            o = r.randrange(i)
            t = [x for x in lines if x.startswith(f"Lat {o} ")][0].split()
            lines.append(" ".join(["Lat", str(100 + i)] + t[2:]))
            u = list(t)
            if r.random() < .7:
                if t[2] not in ("col", "row"):
                    u[2] = r.choice(HOWS[:5])
                elif t[2] in ("col", "row"):
                    u[2] = r.choice(["col", "row"])
                if r.random() < .3:
                    u[7], u[8] = "2", "1"
            lines.append(" ".join(["Lat", str(200 + i)] + u[2:]))
            lines += [f"Same {t[1]} {100 + i}", f"Same {t[1]} {200 + i}", f"Mixed {t[1]} {r.choice([100, 200]) + i} {r.randrange(2)} {r.randrange(2)}"]
        if i:
            lines += [f"Same {i} {r.randrange(i)}", f"Mixed {i} {r.randrange(i)} {r.randrange(2)} {r.randrange(2)}"]
    return lines


def split(ev):
    out = []
    for e in ev:
        if e["ev"] == "Reset":
            out.append([])
        else:
            out[-1].append(e)
    return out


def run(c):
    c.model("LatticesModel", "LatticesModel", min_states=9000, constants={"Low": 1, "High": 2} if c.thorough else {"Low": 1, "High": 1}, coverage=False)
    exe = c.build("lattices", "drv_lattices.cpp", libs=SYMM)
    r, S = c.rng, B.settings()
    lines = []
    order = list(S)
    for rep in range(3 if c.thorough else 1):     # every setting, snapped to its symmetry, from parameters and from vectors
        r.shuffle(order)
        for j in range(0, 530, 10):
            lines.append("Reset")
            for k, s in enumerate(order[j:j + 10]):
                lines.append(lat(r, 2 * k, s, HOWS[:5], 1))
                lines.append(lat(r, 2 * k + 1, s, HOWS[5:], 1))
                lines.append(vecs(r, 2 * k + 1))
    for _ in range(400 if c.thorough else 60):
        lines += script(r, r.choice([2, 4, 6]), S)
    tr = split(c.drive_json(exe, lines))
    c.report(c.validate("LatticesTrace", tr, what="history"), tr)
