"""P09 assignment solvers and permutation application"""
TECHNIQUE = "TLC model of the assignment algorithm and optimality certificates; replies of every solver validated against a TLA+ trace specification"
NOTE = ("TLC exhausts small Munkres instances; all 2x2 (entries 0..3) and a sample (thorough: all) of 3x3 matrices plus seeded larger ones are solved by the real code and TLC decides optimality by dual certificates and stability by enumeration of blocking pairs.")
from checks.common import split, hungarian

SOLVERS = ["munkres", "munkresint", "munkresfill", "munkrestwice", "lapjv", "lapjvfloat", "lapjvunsigned", "jvperm",
           "jvfill", "jvfill1", "smp"]


def cases(c):
    r = c.rng
    out = []
    # every 2x2 matrix with entries 0..3 and a systematic sample of 3x3 with entries 0..2
    for k in range(4 ** 4):
        out.append([[k % 4, k // 4 % 4], [k // 16 % 4, k // 64 % 4]])
    step = 1 if c.thorough else 13
    for k in range(r.randrange(step), 3 ** 9, step):
        m, x = [], k
        for i in range(3):
            row = []
            for j in range(3):
                row.append(x % 3)
                x //= 3
            m.append(row)
        out.append(m)
    for _ in range(4000 if c.thorough else 500):
        n = r.choice([1, 2, 3, 4, 4, 5, 5, 6, 7, 8] + ([10, 12, 15] if r.random() < .3 else []))
        top = r.choice([1, 2, 3, 5, 9])
        kind = r.randrange(5)
        m = [[r.randrange(top + 1) for _ in range(n)] for _ in range(n)]
        if kind == 1:       # a hidden cheap permutation
            p = list(range(n)); r.shuffle(p)
            for i in range(n):
                m[i][p[i]] = 0
        elif kind == 2:     # equal rows / columns
            m = [list(m[0]) for _ in range(n)]
            if n > 1:
                m[r.randrange(n)][r.randrange(n)] = 0
        elif kind == 3:     # rank one: the worst case for the algorithms (all augmentations long)
            a = [r.randrange(4) for _ in range(n)]; b = [r.randrange(4) for _ in range(n)]
            m = [[a[i] * b[j] for j in range(n)] for i in range(n)]
        elif kind == 4:     # sparse
            m = [[0 if r.random() < .6 else x for x in row] for row in m]
        out.append(m)
    return out


def run(c):
    c.model("Munkres", "Munkres", min_states=1000)
    c.model("Munkres", "MunkresLive", min_states=500)
    c.model("StableMatch", "StableMatch", min_states=1000)
    exe = c.build("assign", "drv_assign.cpp", libs=["hdf_interface", "approx_config", "debug", "process_id", "comparisons", "bravais"])
    script = []
    for i, m in enumerate(cases(c)):
        n = len(m)
        u, v = hungarian(m)
        body = " ".join(str(x) for x in [n] + sum(m, []) + u + v)
        script.append("Reset")
        for s in SOLVERS:
            # the lapjv family breaks ties with a tolerance proportional to the mean cost: keep it below one unit
            tot = sum(map(sum, m))
            if s[0] in "lj" and tot * n > 4000:
                continue
            script.append(f"{s} {body}")
    for _ in range(400):
        n = c.rng.randrange(1, 9)
        p = list(range(n)); c.rng.shuffle(p)
        obj = [c.rng.randrange(100, 200) for _ in range(n)]
        script += ["Reset", f"Apply {n} " + " ".join(map(str, obj + p)), f"ApplyInverse {n} " + " ".join(map(str, obj + p))]
    tr = split(c.drive_json(exe, script))
    c.report(c.validate("AssignmentTrace", tr, what="problem"), tr)
