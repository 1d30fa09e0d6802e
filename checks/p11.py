"""P11 permutation table"""
TECHNIQUE = "TLA+ model of the table as a partial map checked by TLC; recorded histories of the real table validated against it"
NOTE = ("Exhaustive small model; covering and random histories replayed in the real table, every reply decided by TLC.")
import itertools
from checks.common import split


class Gen:
    """Seeded histories. Indices handed out are tracked so that only valid ones are used again; what they denote is
    judged by the specification."""

    def __init__(self, r):
        self.r = r

    def history(self, length):
        r = self.r
        n, b = r.randrange(2, 5), r.randrange(1, 4)
        perms = list(itertools.permutations(range(b)))
        out = ["Reset", self.new(n, b)]
        seen = 1
        perms_seen = {tuple(range(b))}
        known = set(self.known0)
        for _ in range(length):
            k = r.random()
            i = r.randrange(n)
            j = r.choice([x for x in range(n) if x != i])
            if k < .35:
                p = r.choice(perms)
                out.append(f"Set {i} {j} " + " ".join(map(str, p)))
                if (i, j) not in known:
                    known.add((i, j)); perms_seen.add(p)
            elif k < .6:
                p = r.choice(perms)
                out.append(f"Replace {i} {j} " + " ".join(map(str, p)))
                if (i, j) in known:
                    perms_seen.add(p)
            elif k < .72:
                out.append(f"ReplaceIndex {i} {j} {r.randrange(len(perms_seen))}")
            elif k < .86:
                m = r.randrange(0, 4)
                ps = []
                for _ in range(m):
                    a = r.randrange(n); c = r.choice([x for x in range(n) if x != a]); ps.append((a, c)); known.add((a, c))
                out.append(f"Reserve {m} " + " ".join(f"{a} {c}" for a, c in ps))
            elif k < .95:
                n2 = n if r.random() < .6 else r.randrange(2, 5)
                b2 = b if r.random() < .5 else r.randrange(1, 4)
                out.append(f"Refresh {n2} {b2}")
                if n2 != n:
                    known = set()
                if b2 != b:
                    perms_seen = {tuple(range(b2))}
                n, b = n2, b2
                perms = list(itertools.permutations(range(b)))
            else:
                m = r.randrange(1, 5)
                out.append(f"KeysFrom {n} {m} " + " ".join(str(r.randrange(n)) for _ in range(m)))
        return out

    def new(self, n, b):
        r = self.r
        m = r.choice([0, 0, 1, 2])
        ps = []
        for _ in range(m):
            a = r.randrange(n); c = r.choice([x for x in range(n) if x != a]); ps.append((a, c))
        self.known0 = set(ps)
        return f"New {n} {b} {m} " + " ".join(f"{a} {c}" for a, c in ps)


def run(c):
    c.model("PermTable", "PermTable", min_states=1000)
    exe = c.build("permtable", "drv_permtable.cpp", libs=["hdf_interface", "approx_config", "debug", "process_id", "comparisons", "bravais"])
    g = Gen(c.rng)
    script = []
    for _ in range(3000 if c.thorough else 500):
        script += g.history(c.rng.randrange(4, 40))
    tr = split(c.drive_json(exe, script))
    c.report(c.validate("PermTableTrace", tr, what="history"), tr)
