"""P12 sorting status word"""
TECHNIQUE = "TLA+ model of the status word; TLC-generated covering histories replayed and validated"
NOTE = ("Every distinct model state is reached by a shortest history, replayed in the real class; random long histories on top.")
MAXV = (1 << 28) - 1


def line(op):
    k = op["ev"]
    if k == "Make":
        return f"Make {int(op['s'])} {int(op['k'])} {op['v']}"
    if k == "SetFlag":
        return f"SetFlag {op['f']} {int(op['b'])}"
    if k == "AddVisit":
        return k
    return f"{k} {op['v']}"


def all_ops():
    vs = [0, 1, 2, 3, 5, MAXV - 1, MAXV, MAXV + 1]
    o = [{"ev": "Make", "s": s, "k": k, "v": v} for s in (0, 1) for k in (0, 1) for v in vs]
    o += [{"ev": "SetFlag", "f": f, "b": b} for f in ("sorted", "locked", "queued", "claimed") for b in (0, 1)]
    o += [{"ev": k, "v": v} for k in ("SetVisits", "AddVisitUpTo", "TryVisit") for v in vs]
    return o + [{"ev": "AddVisit"}]


def split(events):
    out = []
    for e in events:
        if e["ev"] == "Reset":
            out.append([])
        else:
            out[-1].append(e)
    return out


def run(c):
    c.model("SortingStatus", "SortingStatus", min_states=100)
    exe = c.build("sorting", "drv_sorting.cpp")
    cover = c.behaviours_bfs("SortingStatusGen", "SortingStatusGen")
    ops = all_ops()
    script = []
    for h in cover:                       # one implementation test per (state, operation)
        for o in ops:
            script.append("Reset")
            script += [line(x) for x in h] + [line(o)]
    for _ in range(3000 if c.thorough else 400):   # long random histories
        script.append("Reset")
        for _ in range(c.rng.randrange(5, 40)):
            o = dict(c.rng.choice(ops))
            if "v" in o and c.rng.random() < .4:
                o["v"] = c.rng.randrange(0, MAXV)
            script.append(line(o))
    tr = split(c.drive_json(exe, script))
    c.report(c.validate("SortingStatusTrace", tr, what="history"), tr)
