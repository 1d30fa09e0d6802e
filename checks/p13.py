"""P13 array views, copies and selections"""
TECHNIQUE = "TLA+ model of arrays over a store of cells (aliasing), exhaustively checked; random histories of the real arrays validated against it by TLC"
NOTE = ("TLC exhausts short histories of three arrays of up to 2x2 elements; random histories of seven Array2<int>/Array<int> handles over row-ordered, "
        "column-ordered and strided arrays of one to four dimensions are replayed with every live array read back after every step.")
from checks.common import split


class Shadow:
    """shapes, number of dimensions kind and storage group of the live arrays: what a legal script needs to know"""
    def __init__(self, r):
        self.r, self.a, self.n = r, {}, 0

    def free(self):
        f = [h for h in range(7) if h not in self.a]
        return self.r.choice(f) if f else None


def script(r, steps):
    s = Shadow(r)
    out = ["Reset"]
    L = lambda v: " ".join(map(str, [len(v)] + list(v)))
    prod = lambda v: 1 if not v else v[0] * prod(v[1:])
    val = lambda: r.choice([-3, -2, -1, 0, 0, 1, 1, 2, 3])

    def new(kind=None, sh=None):
        h = s.free()
        if h is None:
            return None
        kind = kind or r.choice([2, 2, 3])
        if sh is None:
            if kind == 2:
                sh = [r.randrange(1, 5), r.randrange(1, 4)]
            else:
                sh = [r.randrange(1, 4) for _ in range(r.choice([1, 2, 3, 3, 4]))]
                while prod(sh) > 18:
                    sh[sh.index(max(sh))] -= 1
        col = r.random() < .35
        v = [val() for _ in range(prod(sh))]
        if r.random() < .4 and len(sh) > 1 and sh[0] > 1:      # repeated rows
            w = prod(sh[1:])
            i, j = r.randrange(sh[0]), r.randrange(sh[0])
            v[i * w:(i + 1) * w] = v[j * w:(j + 1) * w]
        s.n += 1
        s.a[h] = dict(sh=list(sh), k=kind, g=s.n, plain=not col)
        out.append(f"New {h} {kind} {int(col)} {L(sh)} {L(v)}")
        return h
    def corner(g):
        """a view with gaps"""
        h, sh = s.free(), s.a[g]["sh"]
        v = [r.randrange(2) if x > 1 else 0 for x in sh]
        out.append(f"From {h} {g} {L(v)}")
        s.a[h] = dict(sh=[n - x for x, n in zip(v, sh)], k=s.a[g]["k"], g=s.a[g]["g"], plain=s.a[g]["plain"] and not any(v[1:]))
    corner(new())
    corner(new())
    for _ in range(steps):
        hs = list(s.a)
        if not hs:
            new()
            continue
        odd = [x for x in hs if not s.a[x]["plain"] and prod(s.a[x]["sh"]) > 1]
        g = r.choice(odd if odd and r.random() < .4 else hs)
        a = s.a[g]
        sh = a["sh"]
        op = r.choice(["New", "Copy", "View", "ViewAll", "Range", "From", "Slice", "Squeeze", "Extract", "ExtractOne", "Mask", "Decouple",
                       "Contig", "RowContig", "Conv", "To2", "ToN", "SetRow", "SetFrom", "SetElem", "SetElem", "SetElem", "Scalar", "Scalar",
                       "InPlace", "InPlace", "Bin", "Bin", "BinScalar", "Resize", "Append", "Append", "Cat", "Cat", "Reshape", "Permute", "Swap", "SwapIn",
                       "Ask", "Ask", "AskRows", "AskPair", "AskPair", "Drop"])
        h = s.free()
        if op in ("New",):
            new()
            continue
        if op == "Drop" or h is None and r.random() < .8:
            if len(odd) <= 2 and g in odd:
                g = r.choice([x for x in hs if x not in odd] or hs)
            out.append(f"Drop {g}")
            del s.a[g]
            continue
        def mate(same_shape=.5):
            """another array of the same kind in other storage, made to fit now and then"""
            c = [x for x in s.a if s.a[x]["k"] == a["k"] and s.a[x]["g"] != a["g"] and len(s.a[x]["sh"]) == len(sh)]
            if r.random() < same_shape or not c:
                t = list(sh)
                for d in range(len(t)):
                    if r.random() < .3:
                        t[d] = 1
                x = new(a["k"], t)
                if x is not None:
                    return x
            return r.choice(c) if c else None
        mk = lambda shape, group, plain: s.a.__setitem__(h, dict(sh=list(shape), k=a["k"], g=group, plain=plain))
        fresh = lambda: setattr(s, "n", s.n + 1) or s.n
        if h is None and op in ("Copy", "View", "ViewAll", "Range", "From", "Slice", "Squeeze", "Extract", "ExtractOne", "Mask", "Decouple", "Contig",
                                "RowContig", "Conv", "To2", "ToN", "Bin", "BinScalar", "Cat"):
            continue
        if op in ("Copy", "ViewAll", "Decouple", "Contig", "RowContig", "Conv"):
            out.append(f"{op} {h} {g}")
            mk(sh, fresh() if op == "Conv" else a["g"], a["plain"] or op in ("RowContig", "Conv"))
        elif op == "View":
            i = r.randrange(sh[0] + 1)
            out.append(f"View {h} {g} {i}")
            if i < sh[0]:
                mk([1] + sh[1:], a["g"], a["plain"])
        elif op == "Range":
            i = r.randrange(sh[0])
            j = r.randrange(i + 1, sh[0] + 2)
            out.append(f"Range {h} {g} {i} {j}")
            if j <= sh[0]:
                mk([j - i] + sh[1:], a["g"], a["plain"])
        elif op == "From":
            v = [r.randrange(x + 1) for x in sh]
            out.append(f"From {h} {g} {L(v)}")
            u = [x if x < n else 0 for x, n in zip(v, sh)]
            mk([n - x for x, n in zip(u, sh)], a["g"], a["plain"] and not any(u[1:]))
        elif op == "Slice" and a["k"] == 3:
            i = r.randrange(sh[0] + 1)
            out.append(f"Slice {h} {g} {i}")
            if i < sh[0]:
                mk(sh[1:] or [1], a["g"], a["plain"])
        elif op == "Squeeze" and a["k"] == 3:
            out.append(f"Squeeze {h} {g}")
            mk([x for x in sh if x != 1] or [1], a["g"], a["plain"])
        elif op == "Extract":
            idx = [r.randrange(sh[0]) for _ in range(r.choice([1, 2, 2, 3, 4]))]
            if r.random() < .12:
                idx[r.randrange(len(idx))] = r.choice([-1, sh[0]])
            out.append(f"Extract {h} {g} {L(idx)}")
            if all(0 <= x < sh[0] for x in idx):
                mk([len(idx)] + sh[1:], fresh(), True)
        elif op == "ExtractOne":
            i = r.randrange(sh[0] + 1)
            out.append(f"ExtractOne {h} {g} {i}")
            if i < sh[0]:
                mk([1] + sh[1:], fresh(), a["plain"])
        elif op == "Mask":
            m = [r.choice([0, 1]) for _ in range(r.choice([sh[0], sh[0], max(1, sh[0] - 1), sh[0] + 1]))]
            if not any(m):
                m[0] = 1
            out.append(f"Mask {h} {g} {L(m)}")
            if len(m) <= sh[0]:
                mk([sum(m)] + sh[1:], fresh(), True)
        elif op == "To2" and a["k"] == 3:
            out.append(f"To2 {h} {g}")
            s.a[h] = dict(sh=[sh[0], prod(sh[1:])], k=2, g=a["g"], plain=True)
        elif op == "ToN" and a["k"] == 2:
            n = prod(sh)
            t = r.choice([[n], sh, [sh[0], 1, sh[1]], [1, n], sh[::-1], [n, 1, 1]])
            out.append(f"ToN {h} {g} {L(t)}")
            s.a[h] = dict(sh=list(t), k=3, g=a["g"], plain=True)
        elif op == "SetRow":
            w = prod(sh[1:]) + (1 if r.random() < .15 else 0)
            out.append(f"SetRow {g} {r.randrange(sh[0])} {L([val() for _ in range(w)])}")
        elif op == "SetElem":
            out.append(f"SetElem {g} {L([r.randrange(x) for x in sh])} {val()}")
        elif op == "Scalar":
            out.append(f"Scalar {g} {r.choice('+-*' if r.random() < .3 else '+-')} {r.choice([-1, 1, 2])}")
        elif op in ("InPlace", "Append", "SetFrom"):
            x = mate()
            if x is None:
                continue
            if op == "InPlace":
                out.append(f"InPlace {g} {x} {r.choice('+-')}")
            elif op == "SetFrom":
                out.append(f"SetFrom {g} {x} {r.randrange(sh[0])}")
            else:
                d = r.randrange(len(sh))
                t = s.a[x]["sh"]
                if prod([p + q if e == d else max(p, q) for e, (p, q) in enumerate(zip(sh, t))]) > 24:
                    continue
                out.append(f"Append {g} {x} {d}")
                out.append("#append")
        elif op in ("Bin", "Cat"):
            if op == "Cat" and a["k"] != 2:
                continue
            x = mate()
            if x is None or x == h:
                continue
            t = s.a[x]["sh"]
            if op == "Bin":
                out.append(f"Bin {h} {g} {x} {r.choice('+-')}")
                if all(p == q or p == 1 or q == 1 for p, q in zip(sh, t)):
                    mk([max(p, q) for p, q in zip(sh, t)], fresh(), True)
            else:
                d = r.randrange(2)
                out.append(f"Cat {h} {g} {x} {d}")
                out.append("#cat")
        elif op == "BinScalar" and a["k"] == 2:
            left = r.random() < .4
            out.append(f"BinScalar {h} {g} {r.choice('+*' if left else '+-*')} {r.choice([-1, 1, 2])} {int(left)}")
            mk(sh, fresh(), a["plain"])
        elif op == "Resize":
            t = [r.choice([x, x, max(1, x - 1), x + 1]) for x in sh]
            if prod(t) > 24:
                continue
            out.append(f"Resize {g} {L(t)} {val()}")
            out.append("#resize")
        elif op == "Reshape" and a["plain"]:
            n = prod(sh)
            if a["k"] == 2:
                t = r.choice([[x, n // x] for x in range(1, n + 1) if n % x == 0])
            else:
                t = r.choice([[n], sh[::-1], [1, n], [n, 1]])
            out.append(f"Reshape {g} {L(t)}")
            a["sh"] = list(t)
        elif op == "Permute":
            p = list(range(sh[0]))
            r.shuffle(p)
            out.append(f"Permute {g} {L(p)}")
        elif op == "Swap":
            out.append(f"Swap {g} {r.randrange(sh[0])} {r.randrange(sh[0])}")
        elif op == "SwapIn" and len(sh) == 2:
            out.append(f"SwapIn {g} {r.randrange(sh[0])} {r.randrange(sh[1])} {r.randrange(sh[1])}")
        elif op == "Ask":
            out.append(f"Ask {g} {r.choice(['lt','gt','le','ge','eq','neq'])} {val()}")
        elif op == "AskRows" and a["k"] == 2 and prod(sh) <= 12:
            out.append(f"AskRows {g} {r.choice(['lt','gt','le','ge','eq','neq'])} {val()} {L([val() for _ in range(sh[1])])} {L([val() for _ in range(prod(sh))])}")
        elif op == "AskPair" and a["k"] == 2:
            c = [x for x in s.a if s.a[x]["k"] == 2]
            if h is not None and r.random() < .6:     # a permutation, or one of its rows
                p = list(range(sh[0]))
                r.shuffle(p)
                p = p if r.random() < .6 else p[:1] if r.random() < .6 else [r.randrange(sh[0]) for _ in p]
                out.append(f"Extract {h} {g} {L(p)}")
                mk([len(p)] + sh[1:], fresh(), True)
                c = [h]
            out.append(f"AskPair {g} {r.choice(c)} {r.choice(['lt','gt','le','ge','eq','neq'])}")
        # operations which may be refused: nothing may depend on their result, so the array is dropped after a look at it
        if out[-1] in ("#append", "#resize", "#cat"):
            k = out.pop()
            x = h if k == "#cat" else g
            if k == "#cat":
                if all(p == q for e, (p, q) in enumerate(zip(sh, t)) if e != d):
                    mk([p + q if e == d else p for e, (p, q) in enumerate(zip(sh, t))], fresh(), False)
            elif k == "#append":
                if all(p == q for e, (p, q) in enumerate(zip(sh, t)) if e != d):
                    if r.random() < .5 and not a.get("off", False):
                        out.append(f"SetElem {[y for y in s.a if y != g and s.a[y]['g'] == a['g']][0] if [y for y in s.a if y != g and s.a[y]['g'] == a['g']] else g} " +
                                   (lambda q: L([0] * len(s.a[q]["sh"])))([y for y in s.a if y != g and s.a[y]['g'] == a['g']][0] if [y for y in s.a if y != g and s.a[y]['g'] == a['g']] else g) + " 7")
                    out.append(f"Drop {g}")
                    del s.a[g]
            else:
                if all(p <= q for p, q in zip(t, sh)) or all(p >= q for p, q in zip(t, sh)):
                    o = [y for y in s.a if y != g and s.a[y]["g"] == a["g"]]
                    if o:
                        out.append(f"SetElem {o[0]} {L([0] * len(s.a[o[0]]['sh']))} 5")
                    out.append(f"Drop {g}")
                    del s.a[g]
    return out


def run(c):
    c.model("ArraysModel", "ArraysModel", min_states=1000, constants={"MaxSteps": 5} if c.thorough else None)
    exe = c.build("arrays", "drv_arrays.cpp", libs=["hdf_interface", "approx_config", "debug", "process_id", "comparisons", "bravais"],
                  flags=["-fsanitize=address", "-fno-omit-frame-pointer"])
    n, steps = (1500, 60) if c.thorough else (260, 50)
    lines = []
    for _ in range(n):
        lines += script(c.rng, steps)
    tr = split(c.drive_json(exe, lines, env={"ASAN_OPTIONS": "detect_leaks=0"}))
    c.report(c.validate("ArraysTrace", tr, what="history"), tr)
