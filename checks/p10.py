"""P10 merging of per-worker vertex registries"""
TECHNIQUE = "TLA+ model of per-worker registries and merge order checked by TLC; recorded serial and parallel merges validated against it"
NOTE = ("Every merge order of small registries is exhausted in the model; hundreds of seeded histories per run are replayed through the real registries and both reductions, and TLC accepts or rejects each recorded trace.")
from checks.common import split


def history(r, big=False):
    np_ = r.choice([1, 2, 3, 4, 6, 8] + ([20] if big else []))
    w = r.choice([1, 2, 2, 3, 4, 5, 7, 8])
    nv = np_ + r.choice([0, 1, 2, 4, 8, 12])
    out = ["Reset", f"Begin {np_} {w} {r.choice([1, 2, 4, 8])}"]
    nnodes = r.randrange(0, 3 * w + 2)
    nodes = list(range(nnodes))
    r.shuffle(nodes)
    owner = {n: r.randrange(1, w + 1) for n in nodes}
    adds = []
    for n in nodes:
        m = r.randrange(1, 7)
        vs = [r.randrange(nv) for _ in range(m)] if r.random() < .3 else r.sample(range(nv), min(m, nv))
        adds.append([(owner[n], n, v) for v in vs])
    for w_ in range(1, w + 1):
        if r.random() < .2:
            adds.append([(w_, -1, r.randrange(nv))])
    # interleave the workers' work, keeping each node's vertices together as the workers do
    r.shuffle(adds)
    for grp in adds:
        for (o, n, v) in grp:
            how = r.choice([0, 0, 1, 3]) if v < np_ else r.choice([0, 1, 2, 2])
            out.append(f"Add {o} {n} {v} {how} {r.choice([0, 0, 1, -1])}")
    if not adds:
        out.append(f"Add 1 -1 {r.randrange(nv)} 0 0")
    out.append("Merge")
    return out


def run(c):
    c.model("VertexKnit", "VertexKnit", min_states=1000, constants=None if c.thorough else {"Verts": "{0, 1, 2}", "NodeIds": "{1, 2}"})
    c.model("VertexKnit", "VertexKnit", min_states=1000, constants={"NP": 1, "MaxPerNode": 1, "Verts": "{0, 1, 2}"})
    exe = c.build("knit", "drv_knit.cpp", libs=["vertex_map_set", "hdf_interface", "approx_config", "debug", "process_id", "comparisons", "bravais"])
    script = []
    for i in range(4000 if c.thorough else 600):
        script += history(c.rng, i % 5 == 0)
    tr = split(c.drive_json(exe, script))
    c.report(c.validate("VertexKnitTrace", tr, what="history"), tr)
