#!/usr/bin/env python3
"""Write /verif/seeded/<id>/ from the descriptions in tools/bugs/*.py.

Each description file defines BUGS = [dict(id, property, needs, what, edits=[(file, old, new)...],
demo=<C++ text>, libs=[...cpp], stub=bool, flags=str)].  The patch is produced in a scratch clone.
With --check the patch is also confirmed: it builds, passes the stable tests, and the demonstration
exits 0 without and nonzero with it (this applies it to /repo for a moment and undoes it)."""
import importlib.util, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"

def load():
    bugs = []
    d = os.path.join(V, "tools", "bugs")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py"):
            s = importlib.util.spec_from_file_location(f[:-3], os.path.join(d, f))
            m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
            bugs += m.BUGS
    return bugs

def sh(*a, **k): return subprocess.run(a, capture_output=True, text=True, **k)

DEMO = """#!/bin/bash
# exit 0: the property holds; nonzero: it is broken (or the demonstration does not build)
d=$(cd "$(dirname "$0")" && pwd)
r=$(pwd)
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf -- "$t"' EXIT
cd "$t" || exit 2
g++ -std=c++17 -O1 -w %(flags)s -I"$r/src" -I"$r/lib/tetgen" %(stubinc)s"$d/demo.cpp" %(libs)s -o demo -lpthread || exit 3
timeout 200 ./demo
"""

def write(b):
    out = os.path.join(V, "seeded", b["id"])
    os.makedirs(out, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="plant.")
    try:
        sh("git", "clone", "-q", REPO, scratch + "/r")
        for f, old, new in b["edits"]:
            p = scratch + "/r/" + f
            s = open(p).read()
            if s.count(old) != 1: raise SystemExit(f"{b['id']}: {s.count(old)} matches in {f}: {old[:60]!r}")
            open(p, "w").write(s.replace(old, new))
        diff = sh("git", "-C", scratch + "/r", "diff").stdout
        open(out + "/patch.diff", "w").write(diff)
    finally:
        shutil.rmtree(scratch)
    open(out + "/meta.json", "w").write(json.dumps({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]}, indent=1) + "\n")
    open(out + "/demo.cpp", "w").write(b["demo"])
    libs = b.get("libs", [])
    l = " ".join('"$r/src/%s.cpp"' % x for x in libs)
    if b.get("tetgen"): l += ' -DTETLIBRARY "$r/lib/tetgen/tetgen.cxx" "$r/lib/tetgen/predicates.cxx"'
    stub = b.get("stub", False)
    if stub:
        if os.path.exists(out + "/stub"): shutil.rmtree(out + "/stub")
        shutil.copytree(V + "/harness/stub", out + "/stub")
    if "demo_sh" in b: text = b["demo_sh"]
    else: text = DEMO % dict(flags=b.get("flags", ""), stubinc='-I"$d/stub" ' if stub else "", libs=l)
    open(out + "/demo.sh", "w").write(text)
    os.chmod(out + "/demo.sh", 0o755)

def check(b):
    out = os.path.join(V, "seeded", b["id"])
    assert not sh("git", "-C", REPO, "status", "--porcelain").stdout, "repo not clean"
    r0 = sh("bash", out + "/demo.sh", cwd=REPO)
    try:
        a = sh("git", "-C", REPO, "apply", out + "/patch.diff")
        if a.returncode: return "DOES NOT APPLY " + a.stderr
        bld = sh("bash", "/opt/vp/build.sh")
        tst = sh("bash", "/opt/vp/test.sh", "/tmp/plant.json")
        try: res = json.load(open("/tmp/plant.json")); npass = sum(1 for x in (res["passed"] if isinstance(res["passed"], list) else [])) or res["passed"]
        except Exception as e: npass = str(e)
        r1 = sh("bash", out + "/demo.sh", cwd=REPO)
    finally:
        sh("git", "-C", REPO, "checkout", "--", ".")
    return f"clean={r0.returncode} build={bld.returncode} tests={npass} patched={r1.returncode}  {r0.stdout[-200:]!r} {r0.stderr[-300:] if r0.returncode else ''!r} {r1.stdout[-200:]!r} {r1.stderr[-200:]!r}"

if __name__ == "__main__":
    want = [a for a in sys.argv[1:] if not a.startswith("--")]
    for b in load():
        if want and b["id"] not in want: continue
        write(b)
        if "--check" in sys.argv: print(b["id"], b["property"], check(b), flush=True)
    if "--check" in sys.argv: sh("bash", "/opt/vp/build.sh")
