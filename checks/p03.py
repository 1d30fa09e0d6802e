"""P03 the irreducible zone covers the zone once"""
TECHNIQUE = "TLA+ specification of Wigner-Seitz cells, point groups and wedges, model-checked over lattices of every system; irreducible zones found by the real code for crystals of every class validated by TLC in exact integers"
NOTE = "Crystals for which no irreducible zone is found are outside of the claim. Volumes are compared to 1e-6."
from checks import zones as Z, lattices as B
from checks.common import split
from checks.p01 import go


def run(c):
    r, S, lines = c.rng, list(B.settings()), []
    r.shuffle(S)
    seen, pick = {}, []
    for s in S:                       # every kind of crystal, with and without time reversal
        k = (s[1], frozenset(s[3]))
        if k not in seen:
            seen[k] = 1
            pick.append(s)
    jobs = [(s, tr) for s in pick for tr in (0, 1)]
    r.shuffle(jobs)
    if not c.thorough:
        jobs = jobs[:220]
    else:
        jobs = jobs * 3
    for s, tr in jobs:
        g, L, line = Z.zone(r, s, tr=tr, search=1)
        lines += ["Reset", line, Z.act(r, "Member", 12)]
    go(c, lines)
