"""P04 the first zone is the Wigner-Seitz cell"""
TECHNIQUE = "TLA+ specification of Wigner-Seitz cells (faces from the shortest vectors of every class modulo two), model-checked over lattices of every system; faces, vertices, volume and membership of zones found by the real code validated by TLC in exact integers"
NOTE = "Lattices are those with integer metric tensors of moderate size; the metric need not be reduced, and general triclinic lattices are included."
from checks import zones as Z, lattices as B
from checks.p01 import go


def run(c):
    r, S, lines = c.rng, B.settings(), []
    by = {}
    for s in S:
        by.setdefault((s[1], len(set(s[3]))), []).append(s)
    kinds = sorted(by)
    for j in range(2500 if c.thorough else 330):
        s = r.choice([s for s in S if len(set(s[3])) <= 2]) if j % 3 == 0 else r.choice(by[kinds[j % len(kinds)]])
        g, L, line = Z.zone(r, s, search=0)
        lines += ["Reset", line, Z.act(r, "Member", 10)]
        if L != "P":
            lines.append(Z.act(r, "MemberP", 5))
    go(c, lines)
