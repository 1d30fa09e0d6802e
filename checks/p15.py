"""P15 Hall symbols"""
TECHNIQUE = "TLA+ specification of Hall's notation as a character-by-character reader and interpreter, model-checked; all 530 tabulated symbols, random symbols and damaged symbols decoded by the real code and re-decoded by TLC"
NOTE = ("A screw on an axis that is not one of the cell's has no agreed translation: of such symbols only validity is decided. Symbols whose closure exceeds 400 operations are compared by their generators only.")
import os
from checks.common import split
from vlib import SYMM, VERIF as V

GL, SC = "abcnuvwd", "12345"


def table():
    return [l.rstrip("\n").split("\t") for l in open(os.path.join(V, "data/spacegroups.tsv"))]


def one(r, first, marked):
    n = r.choice([1, 2, 2, 2, 3, 4, 6])
    axis = ""
    k = r.random()
    if k < .45:
        axis = r.choice(["x", "y", "z", "x", "y", "z", "'", '"', "''", "*", "'''"]) if n in (2, 3) else r.choice("xyz")
    tran = "".join(r.sample(GL, r.choice([0, 0, 1, 1, 2, 3])))
    if n > 1 and r.random() < .3:
        s = str(r.randrange(1, n))
        i = r.randrange(len(tran) + 1)
        tran = tran[:i] + s + tran[i:]
    if marked:
        parts = ["^" + a for a in axis] + ["_" + t for t in tran]
        if r.random() < .3:
            r.shuffle(parts)
        body = "".join(parts)
    else:
        body = list(axis + tran)
        if r.random() < .2:
            r.shuffle(body)
        body = "".join(body)
    return r.choice(["", "", "-"]) + str(n) + body


def symbol(r):
    marked = r.random() < .3
    s = r.choice(["", "-"]) + r.choice("PABCIRF")
    for i in range(r.choice([0, 1, 1, 2, 2, 3, 3, 4])):
        sep = r.choice([" ", " ", " ", "  "]) if i or not marked or r.random() < .7 else ""
        if marked and i and r.random() < .3:
            sep = ""
        x = one(r, i == 0, marked)
        s += (sep if sep or not x.startswith("-") else " ") + x
    if r.random() < .25:
        s += r.choice([" ", "", "  "]) + "(" + " ".join(str(r.randrange(-11, 12)) for _ in range(3)) + r.choice(["", " "]) + ")"
    return s


def marks(r, s):
    """the same symbol with explicit superscripts and subscripts"""
    out, first = "", True
    for tok in s.split(" ("):
        if out:
            out += " (" + tok
            break
        for t in tok.split(" "):
            k = t.lstrip("-")
            if k[:1] in "12346":
                body = "".join(("^" if ch in "xyz'\"*" else "_") + ch for ch in k[1:])
                t = t[:len(t) - len(k)] + k[0] + body
            out += (" " if not first else "") + t
            first = False
    return out


def run(c):
    c.model("HallModel", "HallModel", min_states=20000, constants={"Wide": "TRUE" if c.thorough else "FALSE"}, coverage=False)
    exe = c.build("hall", "drv_hall.cpp", libs=SYMM)
    r = c.rng
    texts = [t[3] for t in table()]
    known = list(dict.fromkeys(texts))
    lines = ["." + t for t in known]
    for _ in range(6000 if c.thorough else 700):
        k = r.random()
        t = r.choice(known) if k < .3 else symbol(r)
        if k < .12 and "(" not in t:
            t = marks(r, t)
        elif k < .2 and "(" not in t:
            t += " (%d %d %d)" % tuple(r.randrange(-12, 13) for _ in range(3))
        if r.random() < .45:              # damaged
            for _ in range(r.choice([1, 1, 2])):
                i = r.randrange(len(t) + 1)
                ch = r.choice("PABCIRFQpxyz'\"*abcnuvwd1234567890-- ()^_S@,")
                j = r.random()
                t = t[:i] + ch + t[i:] if j < .4 else t[:i] + t[i + 1:] if j < .7 else t[:i] + ch + t[i + 1:]
        if "," not in t:
            lines.append("." + t)
    for _ in range(600 if c.thorough else 80):
        k = r.randrange(0, 4)
        p = []
        for i in range(k):
            x = one(r, i == 0, False)
            n = x[:2] if x[0] == "-" else x[:1]
            p.append((n, "".join(ch for ch in x[len(n):] if ch in GL + SC) or ".", "".join(ch for ch in x[len(n):] if ch not in GL + SC) or "."))
        lines.append(f"#{r.choice('PABCIRF')} {r.randrange(2)} {k} " + " ".join(" ".join(q) for q in p))
    ev = c.drive_json(exe, lines)
    n = 12
    tr = [ev[i:i + n] for i in range(0, len(ev), n)]
    c.report(c.validate("HallTrace", tr, what="batch"), tr)
