import sys, json
import numpy as np
import importlib.util
spec = importlib.util.spec_from_file_location("codes", sys.argv[1])
codes = importlib.util.module_from_spec(spec)
spec.loader.exec_module(codes)


def ev(name, **k):
    print(json.dumps(dict(ev=name, **k)), flush=True)


ev("Reset")
for kind in ("Bravais", "AngleUnit", "LengthUnit", "NodeType", "RotatesLike"):
    m = sorted(getattr(codes, kind).__members__.items(), key=lambda kv: int(kv[1]))
    ev("Enum", kind=kind, members=[k for k, v in m], values=[int(v) for k, v in m])
ways = {"flags": lambda f: codes.flags(np.array(f, dtype=np.int32)),
        "data": lambda f: codes.filled(np.array([1, 0, 0] + f, dtype=np.int32), False),
        "weighted data": lambda f: codes.filled(np.array([1, 0, 0] + f, dtype=np.int32), True)}
for w, fn in ways.items():
    ev("Reset")
    r = fn([])
    ev("Default", way=w, rl=r[0], lu=r[1])
    for n in list(range(-3, 9)) + [255, 256, -256, 65536]:
        try:
            r = fn([n])[0]
        except RuntimeError:
            r = -1
        ev("Decode", way=w, kind="RotatesLike", n=n, out=r)
        for rl in range(3):
            try:
                r = fn([rl, n])
                if r[0] != rl:
                    r = (-2, -2)
            except RuntimeError:
                r = (-1, -1)
            ev("Decode", way=w, kind="LengthUnit", n=n, out=r[1])
