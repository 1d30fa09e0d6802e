"""P02 moving into the irreducible zone"""
TECHNIQUE = "TLA+ specification of Wigner-Seitz cells, point groups and wedges, model-checked over lattices of every system; irreducible reductions of the real code (point, lattice vector and operations) validated by TLC in exact integers"
NOTE = "Points are rational. The wedge is the one the library found, made integer; the specification checks that it covers every direction exactly once."
from checks import zones as Z
from checks.p01 import script, go


def run(c):
    def acts(r, L):
        return ["Ir", "Wedge", "Ir", "Member"] + (["Foreign"] if r.random() < .2 else [])
    go(c, script(c, 1300 if c.thorough else 220, acts, search=1))
