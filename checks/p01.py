"""P01 moving into the first zone"""
TECHNIQUE = "TLA+ specification of reciprocal lattices, their Wigner-Seitz cells and their reduction, model-checked over lattices of every system; points moved into zones by the real code validated by TLC in exact integers"
NOTE = "Points are rational, so that membership of the closed zone is decided exactly, surfaces included; lattices are those with integer metric tensors of moderate size."
from vlib import LIBCPP
from checks import zones as Z, lattices as B
from checks.common import split


def script(c, n, acts, prims=(None,), search=None, k=8):
    r, S, lines = c.rng, B.settings(), []
    by = {}
    for s in S:
        by.setdefault((s[1], len(set(s[3]))), []).append(s)
    kinds = sorted(by)
    for j in range(n):
        s = r.choice(by[kinds[j % len(kinds)]] if r.random() < .5 else S)
        g, L, line = Z.zone(r, s, prim=r.choice(prims), search=r.choice([0, 0, 1]) if search is None else search)
        lines += ["Reset", line]
        for op in acts(r, L):
            lines.append(Z.act(r, op, k, far=True))
    return lines


def go(c, lines, libs=LIBCPP):
    c.model("ZonesModel", "ZonesModel", min_states=2700, constants={"M": 4 if c.thorough else 3}, coverage=False)
    exe = c.build("zones", "drv_zones.cpp", libs=libs, tetgen=True)
    tr = split(c.drive_json(exe, lines))
    c.report(c.validate("ZonesTrace", tr, what="history"), tr)


def run(c):
    def acts(r, L):
        return ["Move", "Move", "Member", "Move"] + (["MoveP", "MemberP"] if L != "P" else []) + (["Foreign"] if r.random() < .3 else [])
    go(c, script(c, 1500 if c.thorough else 240, acts))
