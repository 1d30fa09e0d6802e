"""Shared machinery of the checks: build a driver from /repo's working tree, run it, and let TLC decide.

Every check does the same four things:
  1. model-check the specification module of the property (exhaustively, small constants),
  2. obtain scripts: behaviours printed by TLC from that specification and/or seeded random scripts,
  3. run them through the real code (a driver compiled from /repo's sources) which records a trace,
  4. let TLC decide whether each recorded trace is a behaviour of the specification.
Exit code 0: held.  1: violation (with a VIOLATION line).  2: the machinery itself failed.
"""
import concurrent.futures as cf
import hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
JAVA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = max(2, min(8, os.cpu_count() or 2))

LIBCPP = ["approx_config", "bravais", "bz", "bz_move", "bz_wedge", "comparisons", "debug", "hall_symbol",
          "hdf_interface", "neighbours", "pointgroup", "pointsymmetry", "polyhedron_faces", "process_id",
          "spg_database", "symmetry", "vertex_map_set"]
SYMM = ["hall_symbol", "symmetry", "pointsymmetry", "pointgroup", "spg_database", "hdf_interface", "bravais", "debug",
        "process_id", "approx_config"]


class MachineryError(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, detail=None):
        super().__init__(what)
        self.what, self.detail = what, detail


class Ctx:
    def __init__(self, pid, tier, level="model_checking"):
        self.pid, self.tier, self.level = pid, tier, level
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.thorough = tier == "thorough"
        self.rng = random.Random(f"{pid}-{self.seed}-{tier}")
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix=f"verif_{pid}_")
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [],
                    "events_validated": 0, "models": [], "driver_runs": 0}
        self.violations = []
        self.known = []
        self.notes = []

    # ------------------------------------------------------------------ logging
    def log(self, *a):
        print(f"[{self.pid} {time.time()-self.t0:6.1f}s]", *a, flush=True)

    # ------------------------------------------------------------------ building
    def build(self, name, driver, libs=(), extra=(), opt="-O1", tetgen=False, defs=(), flags=(), timeout=800, shared=False):
        """Compile harness/<driver> plus the named /repo/src/*.cpp and link them. Returns the binary's path.
        A driver that does not compile against a tree whose own build works is a failure of the machinery
        (not a violation): the exported interface moved."""
        out = os.path.join(self.work, "build_" + name)
        os.makedirs(out, exist_ok=True)
        base = ["g++", "-std=c++17", opt, "-g0", "-fopenmp", "-w", f"-I{REPO}/src", f"-I{REPO}/lib/tetgen",
                f"-I{HARN}/stub", f"-I{HARN}"] + list(defs) + list(flags)
        jobs = []
        drivers = [driver] if isinstance(driver, str) else list(driver)
        for d in drivers + list(extra):
            src = d if os.path.isabs(d) else os.path.join(HARN, d)
            jobs.append((src, base))
        for l in libs:
            src = os.path.join(REPO, "src", l + ".cpp")
            if os.path.exists(src):
                jobs.append((src, base))
        if libs:  # a source file a change adds to the library
            listed = set(re.findall(r"([A-Za-z0-9_]+)\.cpp", open(f"{REPO}/src/CMakeLists.txt").read()))
            for l in sorted(listed - set(LIBCPP) - {"logger"}):
                src = os.path.join(REPO, "src", l + ".cpp")
                if os.path.exists(src) and l not in libs:
                    jobs.append((src, base))
        if tetgen:
            for f in ("tetgen.cxx", "predicates.cxx"):
                jobs.append((f"{REPO}/lib/tetgen/{f}", ["g++", "-O0" if f == "predicates.cxx" else "-O1", "-w",
                                                      "-DTETLIBRARY", f"-I{REPO}/lib/tetgen"]))
        t = time.time()

        def comp(i_job):
            i, (src, cmd) = i_job
            obj = os.path.join(out, f"{i}_{os.path.basename(src)}.o")
            p = subprocess.run(cmd + ["-c", "-o", obj, src], capture_output=True, text=True, timeout=timeout)
            return obj, p
        objs = []
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for obj, p in ex.map(comp, list(enumerate(jobs))):
                if p.returncode:
                    raise MachineryError(f"compile failed: {obj}\n{p.stderr[-4000:]}")
                objs.append(obj)
        exe = os.path.join(out, name)
        sanlink = [f for f in flags if f.startswith("-fsanitize")]
        p = subprocess.run(["g++", "-fopenmp"] + (["-shared"] if shared else []) + sanlink + ["-o", exe] + objs + ["-lpthread"], capture_output=True, text=True)
        if p.returncode:
            raise MachineryError(f"link failed\n{p.stderr[-4000:]}")
        for o in objs:
            os.unlink(o)
        self.log(f"built {name} ({len(objs)} objects) in {time.time()-t:.1f}s")
        return exe

    # ------------------------------------------------------------------ running the real code
    def drive(self, exe, script, args=(), timeout=300, env=None, mem_gb=8, what="driver"):
        """Feed a script (list of lines) to the driver; return its stdout lines.
        A crash or a hang of the real code on a legal script is itself a violation, if it repeats."""
        text = script if isinstance(script, str) else "\n".join(script) + "\n"
        e = dict(os.environ)
        e.setdefault("OMP_NUM_THREADS", "4")
        e.update(env or {})

        def once():
            try:
                p = subprocess.run([exe] + [str(a) for a in args], input=text, capture_output=True, text=True,
                                   timeout=timeout, env=e, cwd=self.work, errors="replace")
                return p.returncode, p.stdout, p.stderr
            except subprocess.TimeoutExpired as x:
                return "timeout", (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or ""), ""
        rc, out, err = once()
        self.cov["driver_runs"] += 1
        if rc == 77:
            raise MachineryError(f"{what}: driver rejected its script: {err[-500:]}")
        if rc != 0:
            rc2, out2, err2 = once()
            if rc2 == 0:
                self.log(f"{what}: ended with {rc} once, but not when repeated; using the repeat")
                out = out2
            else:
                last = [l for l in out2.splitlines() if l.strip()][-1:] or [""]
                raise Violation(f"{what}: the implementation ended abnormally ({rc2}) on a legal script",
                                {"rc": rc2, "stderr": err2[-1500:], "last_line": last[0][-500:],
                                 "script": text[:20000]})
        return [l for l in out.splitlines() if l.strip()]

    def drive_json(self, exe, script, **kw):
        out = self.drive(exe, script, **kw)
        ev = []
        for l in out:
            if l.startswith("{"):
                try:
                    ev.append(json.loads(l))
                except ValueError as x:
                    raise MachineryError(f"driver wrote a malformed event: {l[:300]}: {x}")
        return ev

    # ------------------------------------------------------------------ TLC
    def _tlc(self, module, cfg_text, workers, extra=(), env=None, timeout=600, heap="3g", files=None, dfs=False):
        d = tempfile.mkdtemp(prefix="tlc_", dir=self.work)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        for n, c in (files or {}).items():
            p = os.path.join(d, n)
            if os.path.lexists(p):
                os.unlink(p)
            with open(p, "w") as h:
                h.write(c)
        with open(os.path.join(d, "M.cfg"), "w") as h:
            h.write(cfg_text)
        java = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", f"-Djava.io.tmpdir={d}"]
        if workers == 1:
            java = ["java", "-XX:+UseSerialGC", f"-Xmx{heap}", "-Xss64m", "-XX:TieredStopAtLevel=4", f"-Djava.io.tmpdir={d}"]
        if dfs:
            java.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
        cmd = java + ["-cp", JAVA_CP, "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(d, "meta"),
                      "-noGenerateSpecTE", "-config", "M.cfg"] + list(extra) + [module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=d, capture_output=True, text=True, timeout=timeout, env=e, errors="replace")
        except subprocess.TimeoutExpired:
            raise MachineryError(f"TLC on {module} did not finish in {timeout}s")
        out = p.stdout + p.stderr
        m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out)
        gen, dist = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
        ok = "Model checking completed. No error has been found." in out
        shutil.rmtree(d, ignore_errors=True)
        return ok, out, gen, dist

    def model(self, module, cfg, workers=NCPU, timeout=800, heap="6g", extra=(), min_states=2, constants=None,
              require_actions=True, coverage=True):
        """Exhaustively model-check spec/<module>.tla with spec/<cfg>.cfg. The design must satisfy the property.
        coverage: count how often each action is taken (slow for definitions that recurse deeply)."""
        text = open(os.path.join(SPEC, cfg + ".cfg")).read()
        for k, v in (constants or {}).items():
            text = re.sub(rf"(?m)^(\s*{k}\s*=).*$", rf"\g<1> {v}", text)
        t = time.time()
        ok, out, gen, dist = self._tlc(module, text, workers, timeout=timeout, heap=heap, extra=(["-coverage", "60"] if coverage else []) + list(extra))
        if not ok:
            raise MachineryError(f"the specification {module}/{cfg} does not satisfy its own properties:\n{out[-6000:]}")
        if dist < min_states:
            raise MachineryError(f"{module}/{cfg}: only {dist} states: vacuous")
        acts = {}
        for a, d_, t_ in re.findall(r"<(\w+) line \d+[^>]*>: (\d+):(\d+)", out):
            acts[a] = (int(d_), int(t_))
        dead = sorted(a for a, (d_, t_) in acts.items() if t_ == 0)
        if dead and require_actions:
            raise MachineryError(f"{module}/{cfg}: actions never taken: {dead}")
        self.cov["states"] += dist
        self.cov["transitions"] += gen
        self.cov["models"].append({"module": module, "config": cfg, "distinct": dist, "generated": gen,
                                   "actions": {a: t_ for a, (d_, t_) in acts.items()},
                                   "wall_s": round(time.time() - t, 1)})
        self.log(f"TLC {module}/{cfg}: {dist} distinct states, {gen} generated, ok")

    def behaviours(self, module, cfg, num=200, depth=30, seed=None, timeout=300, tag="BEH", constants=None):
        """Behaviours of the specification: lines printed as '<tag> <json>' by the module under -simulate."""
        text = open(os.path.join(SPEC, cfg + ".cfg")).read()
        for k, v in (constants or {}).items():
            text = re.sub(rf"(?m)^(\s*{k}\s*=).*$", rf"\g<1> {v}", text)
        s = self.seed if seed is None else seed
        ok, out, gen, dist = self._tlc(module, text, 1, timeout=timeout,
                                       extra=["-simulate", f"num={num}", "-depth", str(depth), "-seed", str(s)])
        res = self._printed(out, tag)
        if not res:
            raise MachineryError(f"{module}/{cfg}: no behaviours printed:\n{out[-3000:]}")
        seen, uniq = set(), []
        for r in res:
            k = json.dumps(r)
            if k not in seen:
                seen.add(k)
                uniq.append(r)
        self.log(f"TLC generated {len(uniq)} distinct behaviours of {module}")
        return uniq

    def behaviours_bfs(self, module, cfg, timeout=600, tag="BEH", constants=None, workers=1):
        """One shortest history per distinct abstract state, printed by an invariant of a *Gen module."""
        text = open(os.path.join(SPEC, cfg + ".cfg")).read()
        for k, v in (constants or {}).items():
            text = re.sub(rf"(?m)^(\s*{k}\s*=).*$", rf"\g<1> {v}", text)
        ok, out, gen, dist = self._tlc(module, text, workers, timeout=timeout)
        if not ok:
            raise MachineryError(f"{module}/{cfg}:\n{out[-4000:]}")
        res = self._printed(out, tag)
        if not res:
            raise MachineryError(f"{module}/{cfg}: no behaviours printed")
        self.log(f"TLC {module}: {len(res)} covering histories")
        return res

    @staticmethod
    def _printed(out, tag):
        res = []
        for l in out.splitlines():
            if l.startswith('"' + tag + " "):
                res.append(json.loads(json.loads(l)[len(tag) + 1:]))
            elif l.startswith(tag + " "):
                res.append(json.loads(l[len(tag) + 1:]))
        return res

    def report(self, bad, traces, describe=None, limit=5):
        for b in bad[:limit]:
            t = traces[b["trace"]]
            k = b["event_index"]
            self.violation(f"{b['why']}: event {k} of trace {b['trace']}: {json.dumps(b['event'])[:600]}",
                           {"trace_up_to_rejection": t[max(0, k - 60):k + 1], "why": b["why"]})

    def _trace_once(self, module, cfg_text, events, timeout, heap, dfs, env=None):
        nd = "\n".join(json.dumps(e, separators=(",", ":")) for e in events) + "\n"
        ok, out, gen, dist = self._tlc(module, cfg_text, 1, timeout=timeout, heap=heap, dfs=dfs,
                                       files={"trace.ndjson": nd}, env=env)
        if ok:
            return True, None, gen, dist, out
        m = re.search(r'"?FURTHEST"?,? *(\d+)', out)
        # distinguish rejection from machinery trouble
        if re.search(r"Invariant \w+ is violated|Temporal properties were violated|property \w+ (is|was) violated|Action property", out):
            st = re.findall(r"/\\ l = (\d+)", out)
            at = int(st[-1]) - 1 if st else None
            inv = re.search(r"Invariant (\w+) is violated", out)
            return False, {"at": at, "why": inv.group(0) if inv else "property violated", "tail": out[-3000:]}, gen, dist, out
        if "Postcondition" in out or "POSTCONDITION" in out or "postcondition" in out.lower():
            d = re.search(r"REJECTED at line (\d+)", out)
            if d:
                return False, {"at": int(d.group(1)), "why": "not a step of the specification", "tail": out[-800:]}, gen, dist, out
        why = [x for x in out.split("\n") if x.startswith(("Error", "The ", "Attempted", "In ", "Evaluating", "@!@", "Overflow")) or "overflow" in x.lower()]
        raise MachineryError(f"TLC failed on {module}:\n" + "\n".join(why[:20])[:3000] + f"\n{out[-3000:]}")

    def validate(self, module, traces, cfg=None, what="trace", timeout=800, heap="2g", parallel=NCPU, dfs=False,
                 confirm=None, constants=None, weight=None, stop_after=None):
        """Check that each trace (a list of event dicts) is a behaviour of spec/<module>.tla.
        Traces are independent; they are joined into a few files separated by 'reset' events handled by the
        module's Reset action, one TLC per file, so that the JVM start-up is paid a few times only."""
        cfgname = cfg or module
        text = open(os.path.join(SPEC, cfgname + ".cfg")).read()
        for k, v in (constants or {}).items():
            text = re.sub(rf"(?m)^(\s*{k}\s*=).*$", rf"\g<1> {v}", text)
        traces = [t for t in traces if t]
        if not traces:
            raise MachineryError(f"{what}: no events recorded")
        n = min(parallel, len(traces))
        bins = [[] for _ in range(n)]
        load = [0] * n
        w = weight or (lambda t: len(t))
        for i, t in sorted(enumerate(traces), key=lambda x: -w(x[1])):
            k = load.index(min(load))
            bins[k].append(i)
            load[k] += w(t) + 1
        for b in bins:
            b.sort()
        bad = []

        def work(b):
            """validate all traces of the bin, continuing after a rejected trace"""
            todo, found, tg, td, done, nev = list(b), [], 0, 0, 0, 0
            while todo:
                ev, owner = [], []
                for i in todo:
                    ev.append({"ev": "Reset"}); owner.append((i, -1))
                    for k, e in enumerate(traces[i]):
                        ev.append(e); owner.append((i, k))
                ok, info, g, d, out = self._trace_once(module, text, ev, timeout, heap, dfs)
                tg += g; td += d
                if ok:
                    done += len(todo); nev += len(ev)
                    break
                at = info["at"]
                if at is None or not (1 <= at <= len(owner)):
                    raise MachineryError(f"{module}: rejection without a position\n{info['tail']}")
                i, k = owner[at - 1]
                info.update(trace=i, event_index=k, event=traces[i][k] if k >= 0 else None)
                found.append(info)
                done += todo.index(i)
                todo = todo[todo.index(i) + 1:]
                if len(found) >= 5:
                    break
            return found, tg, td, done, nev
        t = time.time()
        with cf.ThreadPoolExecutor(n) as ex:
            for found, tg, td, done, nev in ex.map(work, [b for b in bins if b]):
                bad += found
                self.cov["states"] += td
                self.cov["transitions"] += tg
                self.cov["traces_validated_against_impl"] += done
                self.cov["events_validated"] += nev
        self.log(f"TLC {module}: {len(traces)} {what}s, {sum(map(len, traces))} events, {len(bad)} rejected, {time.time()-t:.1f}s")
        for s in traces[:: max(1, len(traces) // 2)][:2]:
            if len(self.cov["samples"]) < 6:
                self.cov["samples"].append({"trace_of": module, "events": s[:6]})
        return bad

    # ------------------------------------------------------------------ verdicts
    def violation(self, what, detail=None):
        self.violations.append((what, detail))
        self.log("VIOLATED:", what)

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = dict(self.cov)
        cov["notes"] = self.notes
        cov["known_findings_seen"] = [k["id"] for k in self.known]
        cov["violations"] = len(self.violations)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "wall_s": round(time.time() - self.t0, 2)}
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as h:
            json.dump(ev, h, indent=1)
        for k in self.known:
            print(f"KNOWN-FINDING: property={self.pid} {k['what']}", flush=True)
        if self.violations:
            os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
            path = os.path.join(VERIF, "replay", f"{self.pid}.json")
            with open(path, "w") as h:
                json.dump([{"what": w, "detail": d} for w, d in self.violations], h, indent=1, default=str)
            for w, d in self.violations[:5]:
                print("  ", str(w)[:400])
            print(f"VIOLATION property={self.pid} replay={path}", flush=True)
            return 1
        self.log("held on everything explored")
        return 0

    def known_findings(self):
        """Findings listed for this property: [{'id','match',...}] from /verif/known-findings.json"""
        try:
            j = json.load(open(os.path.join(VERIF, "known-findings.json")))
        except FileNotFoundError:
            return []
        return [k for k in j.get("findings", []) if k["property"] == self.pid]

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)


def main(pid, fn, tier, level="model_checking"):
    ctx = Ctx(pid, tier, level)
    try:
        try:
            fn(ctx)
        except Violation as v:
            ctx.violation(v.what, v.detail)
        return ctx.finish()
    except MachineryError as x:
        if ctx.violations:      # what was already shown stands
            ctx.log("machinery error after a violation:", str(x)[:300])
            return ctx.finish()
        print(f"ERROR: {x}", file=sys.stderr, flush=True)
        return 2
    except Exception:
        if ctx.violations:
            return ctx.finish()
        traceback.print_exc()
        return 2
    finally:
        ctx.cleanup()
