"""P07 results do not depend on threads or schedules"""
TECHNIQUE = "TLA+ specification of parallel regions, model-checked over all interleavings; its behaviours (and further seeded ones) replayed as schedules of the real code's threads by a controlled OpenMP runtime, and runs of real threads, all validated by TLC against the result of one thread"
NOTE = "Threads are interleaved where they share out iterations, lock, meet, and at function entries, not between single memory accesses; further runs use real threads of the machine. Grids are compared up to the numbering of their points."
from vlib import LIBCPP
from checks.common import split
from checks.p28 import solid
from checks import lattices as B, zones as Z

HOOKED = ["-fno-threadsafe-statics", "-finstrument-functions", "-DSHIM",
          "-finstrument-functions-exclude-file-list=/usr/,gomp_shim,emit.hpp,gram.hpp,motions.hpp,drv_threads"]


def grid(r, z):
    kind = r.choice(["trellis", "trellis", "trellis", "nest", "mesh"])
    a = r.choice([0, 0, 1]) if kind == "trellis" else r.choice([2, 3]) if kind == "nest" else r.choice([-1, 1])
    return f"{'ZGrid' if z else 'Grid'} {kind} {r.randint(0, 2)} {r.choice([10, 30, 80, 200])} {a}"


def fill(r, most):
    return f"Fill {r.getrandbits(20)} {r.randint(1, most)} {r.choice([0, 1])} {r.randint(0, 2)} {r.randint(0, 1)} {r.choice([0, 1, 2])}"


def work(r, S):
    """set-up lines, and lines that are done again for every schedule"""
    if r.random() < .5:
        lo, hi, l = solid(r)
        if r.random() < .4:   # so that the origin is inside of the node of a trellis, or on its face
            lo = [-24 * r.randint(1, 2) + r.choice([0, 0, 5]) for _ in range(3)]
            hi = [24 * r.randint(1, 2) + r.choice([0, 0, 3]) for _ in range(3)]
            l = ["Box " + " ".join(map(str, lo + hi))]
        ops = [grid(r, False)]
        for _ in range(r.choice([1, 2])):
            ops += [fill(r, 3), f"At {r.getrandbits(20)} {r.choice([3, 12])} {r.choice([2, 7, 24])} 0"]
        return l, ops
    s = r.choice(S)
    prim = r.choice([1, 1, 0])
    g = Z.metric(r, s)
    while not Z.enough(g, s[1] if prim else "P"):
        g = Z.metric(r, s)
    ops = [f"Zone {s[0]} {' '.join(map(str, B.six(g)))} {r.choice(['1 1', '1 5'])} {prim} {r.choice([0, 0, 1])} 1"]
    ops += [f"Move {r.getrandbits(20)} {r.choice([1, 5, 16])} {r.choice([2, 5, 12])} {r.choice([0, 1, 1, 2])}" for _ in range(2)]
    if r.random() < .7:
        ops += [grid(r, True), fill(r, 2), f"ZAt {r.getrandbits(20)} {r.choice([3, 10])} {r.choice([5, 12])} {r.choice([0, 1, 1])}"]
    return [], ops


def again(ops):
    """without building anything anew: the last modes that were stored, asked again"""
    k = max([i for i, o in enumerate(ops) if o.startswith("Fill")], default=0)
    return [o for i, o in enumerate(ops) if o.split()[0] in ("Move", "At", "ZAt") and (i > k or o.startswith("Move"))]


def script(r, n, behaviours, rounds, S):
    lines = []
    for _ in range(n):
        l, ops = work(r, S)
        lines += ["Reset"] + l + ["Sched 1 1 0 0"] + ops
        for _ in range(rounds):
            b = r.choice(behaviours) if r.random() < .7 else []
            b = b * r.choice([1, 2, 5])
            t = max([3] if b else [r.choice([2, 3, 4, 5, 8, 16])])
            lines += [f"Sched {t} {r.getrandbits(20)} {r.choice([0, 1, 3, 17, 100, 400])} {len(b)} {' '.join(map(str, b))}"] + (again(ops) if r.random() < .4 else ops)
    return lines


def run(c):
    r = c.rng
    c.model("Regions", "Regions", min_states=15000, constants={"Items": 5 if c.thorough else 4}, coverage=False)
    beh = c.behaviours("Regions", "RegionsGen", num=400, depth=80)
    S = B.settings()
    exe = c.build("scheduled", ["drv_threads.cpp", "gomp_shim.cpp"], libs=LIBCPP, tetgen=True, defs=HOOKED)
    tr = split(c.drive_json(exe, script(r, 600 if c.thorough else 150, beh, 12 if c.thorough else 5, S)))
    c.report(c.validate("RegionsTrace", tr, what="schedule"), tr)
    exe = c.build("threads", ["drv_threads.cpp"], libs=LIBCPP, tetgen=True)
    tr = split(c.drive_json(exe, script(r, 600 if c.thorough else 130, [[]], 12 if c.thorough else 6, S)))
    c.report(c.validate("RegionsTrace", tr, what="run of threads"), tr)
