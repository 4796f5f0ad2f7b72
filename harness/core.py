"""Runs TLC and the drivers, and turns their verdicts into exit codes.

A check is a sequence of stages (see plans.py):
  mc       TLC checks a specification on its own (design check)
  gen      TLC generates behaviours of a specification (printed as JSON)
  drive    a driver steps the code in /repo through them and records traces
  validate TLC checks the recorded traces against the specification
Every verdict on the code comes from TLC evaluating a trace specification; a
trace specification never stops at a failing line, but collects the names of
the failing clauses and prints them once it consumed the whole trace.
"""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
SPEC = VERIF / "spec"
REPO = Path(os.environ.get("MEDIL_REPO", "/repo"))
PY = "/opt/venv/bin/python"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
WORKERS = min(8, os.cpu_count() or 1)


class MachineryError(Exception):
    pass


def clean_env(**extra):
    env = {
        k: v
        for k, v in os.environ.items()
        if k in ("PATH", "HOME", "LANG", "LC_ALL", "TMPDIR", "VERIF_SEED", "VERIF_TIER")
    }
    env.update(
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONNOUSERSITE="1",
        PYTHONHASHSEED="0",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        MPLBACKEND="Agg",
        CUDA_VISIBLE_DEVICES="",
    )
    env.update({k: str(v) for k, v in extra.items()})
    return env


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.work = Path(tempfile.mkdtemp(prefix=f"medilverif-{prop}-"))
        self.t0 = time.time()
        self.states = self.transitions = 0
        self.sessions = self.lines = 0
        self.coverage = {}
        self.samples = []
        self.assumptions = []
        self.exhaustive = []
        self.bad = []  # (session, clause names)
        self._n = 0

    quick = property(lambda self: self.tier == "quick")

    def note(self, msg):
        print(f"[{self.prop} {time.time() - self.t0:6.1f}s] {msg}", flush=True)

    # ---------------------------------------------------------------- TLC
    def _tlc(self, module, cfg, args=(), env=None, workers=1, mem="3g", timeout=800):
        self._n += 1
        meta = self.work / f"tlc{self._n}-{hashlib.md5(os.urandom(8)).hexdigest()[:6]}"
        meta.mkdir()
        cmd = [
            "java", "-XX:+UseParallelGC", f"-XX:ParallelGCThreads={max(1, min(workers, 4))}",
            f"-Xmx{mem}", "-Xss64m", "-cp", JARS, "tlc2.TLC",
            "-metadir", str(meta), "-noGenerateSpecTE", "-deadlock",
            "-workers", str(workers), "-config", str(SPEC / cfg), *args,
            str(SPEC / f"{module}.tla"),
        ]
        try:
            r = subprocess.run(
                cmd, cwd=meta, env=clean_env(**(env or {})), timeout=timeout,
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
            )
        except subprocess.TimeoutExpired as e:
            raise MachineryError(f"TLC timed out on {module}/{cfg}") from e
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        return r.returncode, r.stdout

    def _stats(self, out):
        m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states", out)
        if m:
            gen, dist = (int(x.replace(",", "")) for x in m[-1])
            return gen, dist
        m = re.findall(r"(\d[\d,]*) states (?:checked|generated)", out)
        if m:
            n = int(m[-1].replace(",", ""))
            return n, n
        return 0, 0

    def mc(self, module, cfg=None, workers=None, timeout=800, env=None, idle=(), mem="6g"):
        """Check a specification by itself; it does not depend on the code, so
        that a failure is one of the machinery."""
        cfg = cfg or f"{module}.cfg"
        t = time.time()
        rc, out = self._tlc(module, cfg, ["-coverage", "1"], env, workers or WORKERS, mem, timeout)
        gen, dist = self._stats(out)
        if rc != 0 or "No error has been found" not in out:
            raise MachineryError(f"model check of {module}/{cfg} failed (rc {rc}):\n{out[-3000:]}")
        never = self._never_taken(out)
        never = [a for a in never if a not in idle]
        if never:
            raise MachineryError(f"{module}/{cfg}: actions never taken: {never}")
        self.states += dist
        self.transitions += gen
        self.coverage.setdefault("model_checked", []).append(
            {"spec": module, "config": cfg, "distinct_states": dist, "generated": gen,
             "wall_s": round(time.time() - t, 1)}
        )
        self.note(f"model check {cfg}: {dist} distinct states, {gen} transitions")

    def refuted(self, module, cfg, inv, timeout=300):
        """A deliberately wrong variant of a specification has to violate the
        property: otherwise the property says nothing."""
        rc, out = self._tlc(module, cfg, [], None, 1, "3g", timeout)
        if f"Invariant {inv} is violated" not in out and "violated" not in out:
            raise MachineryError(f"{module}/{cfg} does not violate {inv} (rc {rc}):\n{out[-2000:]}")
        self.note(f"refuted {cfg}")
        self.coverage.setdefault("refuted_variants", []).append({"spec": module, "config": cfg})

    @staticmethod
    def _never_taken(out):
        last = {}
        for m in re.finditer(r"^<(\w+) line (\d+).*?>: (\d+):(\d+)$", out, re.M):
            last[(m[1], m[2])] = int(m[4])
        return sorted({k[0] for k, n in last.items() if n == 0 and k[0] != "Init"})

    def gen(self, module, cfg=None, num=None, depth=None, env=None, timeout=400, seed=None,
            bfs=False):
        """Behaviours of a specification, printed as `SCN <json>` lines."""
        cfg = cfg or f"{module}.cfg"
        if bfs:
            rc, out = self._tlc(module, cfg, [], env, 1, "4g", timeout)
        else:
            rc, out = self._tlc(
                module, cfg,
                ["-simulate", f"num={num}", "-depth", str(depth), "-seed", str(seed or self.seed)],
                env, 1, "3g", timeout,
            )
        # when simulating, TLC evaluates the invariant that prints on every
        # possible last step; keep one of each such family of behaviours
        family = {}
        for line in out.splitlines():
            if line.startswith('"SCN ') and line.endswith('"'):
                scn = json.loads(json.loads(line)[4:])
                key = json.dumps(scn if bfs or not isinstance(scn, list) else scn[:-1])
                fam = family.setdefault(key, [])
                if scn not in fam:
                    fam.append(scn)
        pick = int(hashlib.md5(str(self.seed).encode()).hexdigest(), 16)
        scns = [fam[(pick + i) % len(fam)] for i, fam in enumerate(family.values())]
        if rc != 0 or not scns:
            raise MachineryError(f"generation with {module}/{cfg} failed (rc {rc}):\n{out[-3000:]}")
        g, d = self._stats(out)
        self.states += d
        self.transitions += g
        self.coverage.setdefault("generated", []).append(
            {"spec": module, "config": cfg, "behaviours": len(scns), "states": d}
        )
        self.note(f"generated {len(scns)} behaviours with {cfg}")
        return scns

    # ------------------------------------------------------------- driver
    def drive(self, driver=None, scenarios=None, timeout=700, part=None, **params):
        """Run a driver on the code in /repo; returns its sessions (lists of
        trace lines)."""
        driver = driver or self.prop.lower()
        self._n += 1
        d = self.work / f"drv{self._n}"
        d.mkdir()
        out = d / "trace.ndjson"
        (d / "job.json").write_text(
            json.dumps(
                {"prop": self.prop, "tier": self.tier, "seed": self.seed, "out": str(out),
                 "scratch": str(d), "scenarios": scenarios, "params": params,
                 "workers": WORKERS}
            )
        )
        t = time.time()
        try:
            r = subprocess.run(
                [PY, str(VERIF / "harness" / "drive.py"), driver, str(d / "job.json")],
                cwd=d, env=clean_env(MEDIL_REPO=REPO, **(params.get("env") or {})), timeout=timeout,
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
            )
        except subprocess.TimeoutExpired:
            # every call of the code under test has a time limit of its own, so
            # this is only reached if the code is stuck where no limit works
            self.note("driver did not finish")
            return [[{"e": "driver", "ok": False, "what": "driver did not finish"}]]
        if not out.exists() or r.returncode != 0:
            raise MachineryError(f"driver {driver} failed (rc {r.returncode}):\n{r.stdout[-4000:]}")
        sessions = [json.loads(line) for line in out.read_text().splitlines()]
        for s in sessions:
            for ev in s:
                if ev.get("e") == "info":
                    self.coverage.update(ev["coverage"])
        sessions = [[ev for ev in s if ev.get("e") != "info"] for s in sessions]
        sessions = [s for s in sessions if s]
        self.note(
            f"driver {driver}: {len(sessions)} sessions, "
            f"{sum(map(len, sessions))} trace lines in {time.time() - t:.1f}s"
        )
        shutil.rmtree(d, ignore_errors=True)
        return sessions

    # --------------------------------------------------------- validation
    def validate(self, module, sessions, cfg=None, chunks=None, timeout=800, mem="3g", env=None,
                 count=True):
        """Check recorded sessions against a trace specification with TLC."""
        cfg = cfg or f"{module}.cfg"
        # uncaught exceptions and hangs are violations whatever the spec says
        ok = []
        for s in sessions:
            if any(ev.get("e") == "driver" and not ev["ok"] for ev in s):
                self.bad.append((s, [next(ev["what"] for ev in s if ev.get("e") == "driver")]))
            else:
                ok.append(s)
        sessions = ok
        if not sessions:
            if not self.bad:
                raise MachineryError("no traces to validate")
            return
        chunks = max(1, min(chunks or WORKERS, len(sessions)))
        size = lambda s: sum(ev.get("cost", 1) for ev in s)
        order = sorted(range(len(sessions)), key=lambda i: -size(sessions[i]))
        parts = [[] for _ in range(chunks)]
        load = [0] * chunks
        for i in order:
            c = load.index(min(load))
            parts[c].append(i)
            load[c] += size(sessions[i])
        parts = [sorted(p) for p in parts if p]

        def one(part):
            self._n += 1
            f = self.work / f"trace{hashlib.md5(repr(part).encode()).hexdigest()}.ndjson"
            owner = []
            with open(f, "w") as h:
                for i in part:
                    for ev in sessions[i]:
                        ev = {k: v for k, v in ev.items() if k not in ("cost", "note")}
                        h.write(json.dumps(ev) + "\n")
                        owner.append(i)
            rc, out = self._tlc(module, cfg, [], {"TRACE": str(f), **(env or {})}, 1, mem, timeout)
            f.unlink()
            m = re.findall(r'^"TRACE_DONE (.*)"$', out, re.M)
            if not m and re.search(r"^Error: .*evaluat|Attempted to|Overflow|was evaluating", out, re.M):
                # some recorded line is nothing the specification has a
                # meaning for; find the first session with such a line
                if len(part) == 1:
                    self.bad.append((sessions[part[0]], ["values are such as the specification knows"]))
                    self.note(f"no meaning under {module}: " + " ".join(out.split())[-400:])
                    return (0, 0), {"bad": [], "lines": 0}, []
                first = one(part[: len(part) // 2])
                if any(b[1] == ["values are such as the specification knows"] for b in self.bad):
                    return first
                return one(part[len(part) // 2 :])
            if not m:
                raise MachineryError(f"validation with {module} gave no verdict (rc {rc}):\n{out[-3000:]}")
            verdict = json.loads(json.loads('"' + m[-1] + '"'))
            if verdict["lines"] != len(owner):
                raise MachineryError(f"{module}: {verdict['lines']} of {len(owner)} lines consumed")
            return self._stats(out), verdict, owner

        t = time.time()
        with ThreadPoolExecutor(WORKERS) as ex:
            results = list(ex.map(one, parts))
        stats = {}
        for (gen, dist), verdict, owner in results:
            self.states += dist
            self.transitions += gen
            failing = {}
            for b in verdict["bad"]:
                failing.setdefault(owner[b["line"] - 1], []).extend(b["clauses"])
            for i, clauses in failing.items():
                self.bad.append((sessions[i], sorted(set(clauses))))
            for k, v in verdict.get("counts", {}).items():
                stats[k] = stats.get(k, 0) + v
        if count:
            self.sessions += len(sessions)
            self.lines += sum(map(len, sessions))
        entry = {"spec": module, "traces": len(sessions), "lines": sum(map(len, sessions)),
                 "wall_s": round(time.time() - t, 1)}
        if stats:
            entry["clause_evaluations"] = stats
        self.coverage.setdefault("validated", []).append(entry)
        for s in (sessions[0], sessions[len(sessions) // 2]):
            text = json.dumps(s[:4])
            self.samples.append(s[:4] if len(text) < 3000 else text[:3000])
        self.note(
            f"validated {len(sessions)} traces with {module} in {time.time() - t:.1f}s"
        )
        return stats

    # ------------------------------------------------------------ verdict
    def finish(self):
        known = load_known(self.prop)
        new = []
        for session, clauses in self.bad:
            hit = next((k for k in known if k.matches(session, clauses)), None)
            if hit:
                hit.seen = True
            else:
                new.append((session, clauses))
        for k in known:
            print(f"KNOWN-FINDING: property={self.prop} {k.what}")
        cov = dict(self.coverage)
        cov.update(
            states=self.states, transitions=self.transitions,
            traces_validated_against_impl=self.sessions, trace_lines=self.lines,
            samples=self.samples[:6],
        )
        if self.exhaustive:
            cov["exhaustive_spaces"] = self.exhaustive
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed,
            "level": "model_checking", "coverage": cov, "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2), "violations": len(new),
        }
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / f"{self.prop}.json").write_text(json.dumps(ev, indent=1))
        if new:
            rdir = VERIF / "evidence" / "replays"
            rdir.mkdir(exist_ok=True)
            tally = {}
            for _, clauses in new:
                for c in clauses:
                    tally[c] = tally.get(c, 0) + 1
            self.note(f"failing clauses: {tally}")
            session, clauses = min(new, key=lambda x: len(json.dumps(x[0])))
            path = rdir / f"{self.prop}-{self.tier}-{self.seed}.json"
            path.write_text(
                json.dumps(
                    {"property": self.prop, "failing_clauses": clauses, "trace": session,
                     "rerun": f"cd /verif && VERIF_SEED={self.seed} ./check {self.prop} {self.tier}",
                     "all_failing_clauses": tally, "failing_traces": len(new)},
                    indent=1,
                )
            )
            print(f"VIOLATION property={self.prop} replay={path}")
            return 1
        self.note(f"held on everything explored ({self.states} states, {self.sessions} traces)")
        return 0


class Known:
    """A line `finding: property=<id> key=<key> clause=<clause> <what fails>`
    of known_findings.txt: one input, call site or history that fails."""

    def __init__(self, key, clause, what):
        self.key, self.clause, self.what = key, clause, what
        self.seen = False

    def matches(self, session, clauses):
        return set(clauses) == {self.clause} and any(ev.get("key") == self.key for ev in session)


def load_known(prop):
    f = VERIF / "known_findings.txt"
    out = []
    if f.exists():
        for line in f.read_text().splitlines():
            m = re.match(r"finding: property=(\S+) key=(\S+) clause=(\S+) (.*)", line)
            if m and m[1] == prop:
                out.append(Known(m[2], m[3], m[4]))
    return out


def main(argv):
    import plans

    prop = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if tier not in ("quick", "thorough") or not hasattr(plans, prop.lower()):
        print(f"usage: check C01..C24 quick|thorough", file=sys.stderr)
        return 2
    c = Check(prop, tier, seed)
    try:
        getattr(plans, prop.lower())(c)
        return c.finish()
    except MachineryError as e:
        # a violation found before the machinery failed is still one
        print(f"MACHINERY ERROR in {prop}: {e}", file=sys.stderr)
        if c.bad:
            return c.finish() or 2
        return 2
    finally:
        shutil.rmtree(c.work, ignore_errors=True)
