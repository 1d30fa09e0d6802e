"""P17 the table of space groups"""
TECHNIQUE = "TLA+ specification of the 530 tabulated settings (parsed, closed and classified by TLC; a description-independent signature ties settings of one group together); every entry and random look-ups of the real code validated by TLC"
NOTE = ("The specification has its own copy of the table, of which TLC proves: the symbol decodes, its group has the class of its number, the centring of its letter, no further translations, and the signature of the other "
        "settings of the same number. The real table is compared entry by entry, and look-ups follow first-match over it.")
from vlib import SYMM
from checks.p15 import table


def libs():
    return SYMM


def batches(ev, n):
    return [ev[i:i + n] for i in range(0, len(ev), n)]


def run(c):
    c.model("SpaceGroupsModel", "SpaceGroupsModel", min_states=3000, coverage=False)
    exe = c.build("spacegroups", "drv_spacegroups.cpp", libs=libs())
    r, t = c.rng, table()
    lines = [f"Entry|{i}" for i in list(range(1, 531)) + [0, -1, 531, 532, 1000]]
    choices = sorted({e[7] for e in t})
    alln = {"Hall": [e[3] for e in t], "Name": [x for e in t for x in e[4:7]]}
    look = [f"Hall|{e[3]}" for e in t] + [f"Name|{x}|{e[7]}" for e in t for x in e[4:7]] + [f"Number|{n}|" for n in range(-2, 234)] + [f"Number|{e[1]}|{e[7]}" for e in t]
    look += [f"Text|{x}|{ch}" for e in t for x in e[3:7] for ch in {"", e[7]}]
    for _ in range(3000 if c.thorough else 600):
        k = r.random()
        s = r.choice(alln[r.choice(["Hall", "Name"])])
        if r.random() < .5:
            i = r.randrange(len(s) + 1)
            ch = r.choice("PABCIFR -_1234/mnabcde=xz'\"() ")
            j = r.random()
            s = s[:i] + ch + s[i:] if j < .4 else s[:i] + s[i + 1:] if j < .7 else s[:i] + ch + s[i + 1:]
            if r.random() < .1:
                s = r.choice([s.lower(), s.upper(), s + " ", " " + s, s.replace(" ", ""), ""])
        ch = r.choice(choices + ["", "", "", "q"])
        look.append(f"Hall|{s}" if k < .2 else f"Name|{s}|{ch}" if k < .5 else f"Text|{s}|{ch}" if k < .85 else f"Number|{r.choice([r.randrange(1, 231), r.randrange(-5, 300)])}|{ch}")
    if not c.thorough:
        r.shuffle(look)
    ev = c.drive_json(exe, lines)
    tr = batches(ev, 6)
    c.report(c.validate("SpaceGroupsTrace", tr, what="batch of entries", weight=lambda t: sum(len(e.get("ops", [])) ** 2 + 50 for e in t)), tr)
    tr = batches(c.drive_json(exe, look), 40)
    c.report(c.validate("SpaceGroupsTrace", tr, what="batch of look-ups"), tr)
