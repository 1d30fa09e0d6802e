"""P29 errors of parallel workers reach the caller"""
TECHNIQUE = "TLA+ model of workers and the collector, all interleavings and failing subsets checked by TLC; recorded parallel loops validated against it"
NOTE = ("TLC exhausts every subset of failing iterations and every interleaving of 3 workers over 5 iterations (thorough 4 over 5); the real collector is run under OpenMP "
        "and std::thread loops for seeded failing sets, thread counts 1-16 and error types, including errors that are no std::exception.")
import itertools
from checks.common import split


def run(c):
    c.model("ThreadErrors", "ThreadErrors", min_states=10000, constants={"NWorkers": 4, "Items": 5} if c.thorough else None)
    exe = c.build("threaderr", "drv_threaderr.cpp", libs=[])
    r = c.rng
    out = []

    def add(t, s, kinds):
        out.append("Reset")
        out.append(f"Loop {t} {s} {len(kinds)} {' '.join(map(str, kinds))}")
    # every pattern of two or three iterations over a kind of each sort
    for n in (1, 2, 3):
        for kinds in itertools.product((0, 1, 2, 5), repeat=n):
            add(r.choice([1, 2, 4]), r.randrange(4), kinds)
    for k in range(7):
        for s in range(4):
            add(3, s, [0, 0, k, 0])
    for _ in range(3000 if c.thorough else 400):
        n = r.choice([0, 1, 4, 9, 30, 100])
        p = r.choice([0, .05, .3, .7, 1])
        sort = r.choice([(1,), (1, 2, 3, 4), (5,), (5, 6), (1, 5), (1, 2, 3, 4, 5, 6)])
        add(r.choice([1, 2, 3, 4, 8, 16]), r.randrange(4), [r.choice(sort) if r.random() < p else 0 for _ in range(n)])
    tr = split(c.drive_json(exe, out))
    c.report(c.validate("ThreadErrorsTrace", tr, what="loop"), tr)
