"""P21 symmetry permutes equivalent atoms"""
TECHNIQUE = "TLA+ specification of atoms under space groups (permutations, lattice vectors, displacement tables, putting displaced atoms back), model-checked for small groups; crystals of all 530 settings built by the real code and every reported map, vector and moved atom validated by TLC"
NOTE = "Atoms sit at 240ths of the cell, at most 16 of them; displaced atoms are followed to 1e-9 of the cell. The composition of the maps is shown on the specification, whose maps the implementation's are compared with one by one."
from vlib import SYMM
from checks.common import split
from checks import lattices as B, zones as Z, crystal as X


def script(c, n):
    r, S, lines = c.rng, B.settings(), []
    by = {}
    for s in S:
        by.setdefault((s[1], len(set(s[3]))), []).append(s)
    kinds = sorted(by)
    for j in range(n):
        s = r.choice(by[kinds[j % len(kinds)]] if r.random() < .5 else S)
        orbits = []
        for _ in range(r.choice([1, 1, 2, 3])):
            t = r.choice([0, 120, 60, 80, 160, 180, 40, 10, r.randint(1, 239)])
            p = r.choice([(0, 0, 0), (0, 0, t), (t, 0, 0), (120, 120, 120), (120, 0, 0), (80, 160, t), (0, 120, 60), (60, 60, 60), (t, t, t), (0, t, t), (t, 2 * t, 30), (t, -t, t), tuple(r.randint(0, 239) for _ in range(3))])
            orbits.append(f"{r.choice([0, 0, 1, 2])} {r.choice([0, 0, 1, 2])} {p[0]} {p[1]} {p[2]}")
        lines += ["Reset", f"Crystal {s[0]} {' '.join(map(str, B.six(Z.metric(r, s))))} {r.choice([6, 12, 16])} {len(orbits)} {1 if r.random() < .08 else 0} {' '.join(orbits)}", "Maps"]
        lines += ["Gamma 0"] + (["Gamma 1"] if r.random() < .4 else [])
        m = r.choice(X.CUBIC + X.HEX)
        lines.append("Point " + " ".join(map(str, m)))
        for _ in range(4):
            k = r.choice([-1, 0, 1, 2, 3])
            p = [240 * r.randint(-2, 2) + r.choice([0, 0, 0, 1, -1, 7]) for _ in range(3)] if k >= 0 else [r.choice([0, 60, 120, 160, r.randint(-300, 300)]) for _ in range(3)]
            lines.append(f"Where {r.choice([0, 0, 1, 2, -1, -1, -1]) if k >= 0 else r.choice([0, 1, 2])} {k} {p[0]} {p[1]} {p[2]}")
        for _ in range(2):
            d = [r.choice([0, 240, 480, -4800, 2400]) for _ in range(3)]
            lines.append(f"Snap {r.choice([0, 1])} {1 if r.random() < .2 else 0} {d[0]} {d[1]} {d[2]} {r.randint(0, 20)}")
    return lines


def run(c):
    for g in range(1, 6) if c.thorough else [c.rng.choice([1, 2, 3]), c.rng.choice([4, 5])]:
        c.model("BasisModel", "BasisModel", min_states=20, constants={"Group": g}, coverage=False)
    exe = c.build("basis", "drv_basis.cpp", libs=SYMM)
    tr = split(c.drive_json(exe, script(c, 2500 if c.thorough else 300)))
    c.report(c.validate("BasisTrace", tr, what="crystal"), tr)
