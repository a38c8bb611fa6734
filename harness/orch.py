"""Orchestration: TLC runs, driver runs, verdicts, evidence."""
import concurrent.futures as cf
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
TLA = "/opt/veriftools/tla"
NPROC = max(1, min(8, os.cpu_count() or 1))


class Machinery(Exception):
    pass


class TLCResult:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        self.lines = []
        for l in out.splitlines():
            if l.startswith('"@@'):
                try:
                    self.lines.append(json.loads(json.loads(l)[2:]))
                except ValueError:
                    raise Machinery("unreadable TLC line: " + l[:300])
        m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
        self.generated = self.distinct = 0
        if m:
            self.generated, self.distinct = (int(x.replace(",", "")) for x in m[-1])
        else:
            m = re.findall(r"The number of states generated: ([\d,]+)", out)
            if m:
                self.generated = int(m[-1].replace(",", ""))

    def tail(self, n=25):
        keep = [l for l in self.out.splitlines() if not re.match(
            r'^(Loading|Parsing file|Semantic processing|"@@|Starting\.\.\.|Linting|\s*$|<Java)', l)]
        return "\n".join(keep[-n:])


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="pydsge-verif-")
        self.classes = os.path.join(self.scratch, "cls")
        self.n = 0
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "evaluations": 0,
                    "distinct_nontrivial": 0, "samples": [], "suites": {}}
        self.violations = []    # (clause list, scenario, event)
        self.foreign = 0
        self.assumptions = []
        os.mkdir(self.classes)
        r = subprocess.run(["javac", "-cp", TLA + "/tla2tools.jar", "-d", self.classes,
                            os.path.join(VERIF, "java", "Reals.java")], capture_output=True, text=True)
        if r.returncode:
            raise Machinery("javac: " + r.stderr[-2000:])

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    def log(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a, flush=True)

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg=None, env=None, sim=None, workers=1, limit=800, heap="2g", check=True):
        self.n += 1
        meta = os.path.join(self.scratch, "meta%d" % self.n)
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-XX:TieredStopAtLevel=4", "-Xss64m", "-Xmx" + heap,
               "-cp", ":".join([TLA + "/tla2tools.jar", TLA + "/CommunityModules-deps.jar", self.classes]),
               "-DTLA-Library=" + SPEC, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE", "-nowarning"]
        if sim:
            cmd += ["-simulate", "num=%d" % sim[0], "-depth", str(sim[1]), "-seed", str(sim[2] if len(sim) > 2 else self.seed)]
        else:
            cmd += ["-workers", str(workers)]
        cmd += ["-config", os.path.join(SPEC, (cfg or module) + ".cfg"), os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.update(env or {})
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, cwd=self.scratch)
        out, end = [], [time.time() + limit]

        def read():
            for l in p.stdout:
                out.append(l)
                # the location of an evaluation error is looked for without any memoisation: not worth the time
                if l.startswith("Error: "):
                    end[0] = min(end[0], time.time() + 10)
        th = threading.Thread(target=read, daemon=True)
        th.start()
        try:
            while p.poll() is None and time.time() < end[0]:
                time.sleep(0.05)
            late = p.poll() is None
            if late:
                p.kill()
            p.wait()
            th.join(20)
            text = "".join(out)
            if late and "Error: " not in text:
                raise Machinery("TLC time limit: %s %s" % (module, cfg))
            res = TLCResult(p.returncode, text if text.endswith("\n") else text.rpartition("\n")[0])
        finally:
            p.kill()
            shutil.rmtree(meta, ignore_errors=True)
        if check and res.rc:
            raise Machinery("TLC %s/%s exited %d:\n%s" % (module, cfg, res.rc, res.tail()))
        return res

    def design(self, module, cfg=None, workers=4, limit=600, env=None, needs=()):
        """model check the specification itself; a failure is a failure of the machinery.
        needs: parts of the design that are necessary: without one of them the check has to fail"""
        r = self.tlc(module, cfg, workers=workers, limit=limit, env=env)
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated
        self.cov["suites"]["design:" + (cfg or module)] = {"distinct": r.distinct, "generated": r.generated}
        self.log("design check %s: %d distinct states" % (cfg or module, r.distinct))
        if r.distinct == 0:
            raise Machinery("design check %s explored nothing" % (cfg or module))
        for c in needs if self.thorough else ():
            with open(os.path.join(SPEC, (cfg or module) + ".cfg")) as f:
                t = f.read()
            x = os.path.join(self.scratch, "without_" + c)
            with open(x + ".cfg", "w") as f:
                f.write(t.replace(c + " = TRUE", c + " = FALSE"))
            if self.tlc(module, x, workers=workers, limit=limit, env=env, check=False).rc != 12:
                raise Machinery("design check %s does not depend on %s" % (cfg or module, c))
        return r

    def generate(self, module, cfg=None, sim=None, workers=1, env=None, limit=600):
        r = self.tlc(module, cfg, sim=sim, workers=workers, env=env, limit=limit)
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated
        if not r.lines:
            raise Machinery("%s generated nothing:\n%s" % (cfg or module, r.tail()))
        self.log("generated %d scenarios with %s" % (len(r.lines), cfg or module))
        return r.lines

    # ------------------------------------------------------------- driver
    def drive(self, scenarios, jit=False, nproc=NPROC, limit=800, env=None):
        for n, s in enumerate(scenarios):
            s["id"] = n + 1
        src = os.path.join(self.scratch, "sc%d.json" % self.n)
        dst = os.path.join(self.scratch, "tr%d.json" % self.n)
        self.n += 1
        with open(src, "w") as f:
            json.dump(scenarios, f)
        e = dict(os.environ)
        e.update(MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
                 PYTHONPATH=REPO, VERIF_SCRATCH=self.scratch, VERIF_REPO=REPO, PYTHONHASHSEED=str(self.seed % 1000),
                 HOME=self.scratch, MPLCONFIGDIR=self.scratch, NUMBA_CACHE_DIR=os.path.join(self.scratch, "nbc"),
                 PYTHONWARNINGS="ignore")
        e.pop("NUMBA_DISABLE_JIT", None)
        if not jit:
            e["NUMBA_DISABLE_JIT"] = "1"
        e.update(env or {})
        p = subprocess.Popen([PY, os.path.join(HERE, "drv.py"), src, dst, str(nproc)], stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT, text=True, env=e, cwd=self.scratch, start_new_session=True)
        try:
            out, _ = p.communicate(timeout=limit)
        except subprocess.TimeoutExpired:
            out = "time limit"
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        if not os.path.exists(dst):
            raise Machinery("driver failed: " + out[-3000:])
        with open(dst) as f:
            tr = json.load(f)
        self.log("drove %d scenarios" % len(tr))
        if os.environ.get("VERIF_DEV"):
            with open("/tmp/w/last_traces.json", "w") as f:
                json.dump(tr, f)
        return tr

    # --------------------------------------------------------- validation
    def _tlc_traces(self, module, traces, env=None, limit=700):
        """-> list of verdict lines with 'tr' = index into traces; raises nothing for TLC errors"""
        self.n += 1
        path = os.path.join(self.scratch, "val%d.json" % self.n)
        with open(path, "w") as f:
            json.dump(traces, f)
        e = {"TRACE": path}
        e.update(env or {})
        r = self.tlc(module, module, env=e, workers=1, check=False, limit=limit)
        os.unlink(path)
        if "Parsing or semantic analysis failed" in r.out or "Error: TLC threw an unexpected exception" in r.out and "JsonDeserialize" in r.out:
            raise Machinery(r.tail())
        return r

    def validate(self, module, traces, scenarios, tags=None, chunks=NPROC, name=None, env=None):
        """judge traces with the trace specification"""
        tags = tags or [self.prop]
        name = name or module
        good = [t for t in traces if "crash" not in t]
        for t in traces:
            if "crash" in t:
                self.violations.append({"clause": [self.prop, "no result", t["crash"], t.get("tb", "")[-800:]],
                                        "scenario": scenarios[t["id"] - 1], "event": None})
        todo = [good[i::chunks] for i in range(chunks)]
        todo = [c for c in todo if c]
        gen = dist = 0
        done = set()
        lines = []

        def work(c):
            return c, self._tlc_traces(module, c, env)

        stuck = []
        with cf.ThreadPoolExecutor(NPROC) as ex:
            for c, r in ex.map(work, todo):
                gen += r.generated
                dist += r.distinct
                d = {l["done"] for l in r.lines if "done" in l}
                for l in r.lines:
                    if "bad" in l:
                        lines.append((c[l["tr"] - 1], l))
                rest = [t for k, t in enumerate(c) if k + 1 not in d]
                done |= {t["id"] for k, t in enumerate(c) if k + 1 in d}
                if rest:
                    stuck += rest
                    self.log("TLC stopped:", r.tail(12))
            # a trace that TLC could not evaluate: alone, to know which
            if stuck:
                seen = {(t["id"], l["i"]) for t, l in lines}
                for (c, r) in ex.map(lambda t: work([t]), stuck[:60]):
                    t = c[0]
                    for l in r.lines:
                        if "bad" in l and (t["id"], l["i"]) not in seen:
                            lines.append((t, l))
                    if any("done" in l for l in r.lines):
                        done.add(t["id"])
                    else:
                        self.violations.append({"clause": [self.prop, "recorded behaviour outside the specification's domain",
                                                           r.tail(8)], "scenario": scenarios[t["id"] - 1], "event": None})
        for t, l in lines:
            for cl in l["bad"]:
                ev = t["ev"][l["i"] - 1] if "ev" in t and isinstance(t["ev"], list) and l.get("i") else None
                if cl[0] in tags:
                    self.violations.append({"clause": cl, "scenario": scenarios[t["id"] - 1], "i": l.get("i"), "event": ev})
                else:
                    self.foreign += 1
                    if os.environ.get("VERIF_DEV"):
                        print("  foreign:", json.dumps(cl)[:300], "tr", t["id"], "ev", l.get("i"))
        nev = sum(len(t.get("ev", [1])) for t in good)
        self.cov["states"] += dist
        self.cov["transitions"] += gen
        self.cov["traces_validated_against_impl"] += len(done)
        self.cov["evaluations"] += nev
        self.cov["suites"][name] = {"scenarios": len(scenarios), "events": nev, "validated": len(done), "distinct": dist}
        self.log("validated %d traces (%d events) with %s" % (len(done), nev, module))

    def sample(self, obj):
        s = json.dumps(obj)
        if len(self.cov["samples"]) < 3:
            self.cov["samples"].append(obj if len(s) < 4000 else s[:4000])

    # ------------------------------------------------------------- verdict
    def finish(self, level, rule):
        known = load_known(self.prop)
        fresh, hits = [], {}
        for v in self.violations:
            k = match_known(known, v)
            if k is None:
                fresh.append(v)
            else:
                hits.setdefault(k, v)
        for k in sorted(hits):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, known[k]["what"]))
        ed = os.path.join(VERIF, "evidence")
        os.makedirs(ed, exist_ok=True)
        self.cov["rule"] = rule
        if self.cov["distinct_nontrivial"] == 0:
            self.cov["distinct_nontrivial"] = self.cov["traces_validated_against_impl"]
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(fresh)}
        with open(os.path.join(ed, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if fresh:
            rp = os.path.join(ed, "%s.replay.json" % self.prop)
            with open(rp, "w") as f:
                json.dump(fresh[:20], f, indent=1)
            for v in fresh[:5]:
                print("  violated:", json.dumps(v["clause"])[:600])
                if v.get("event"):
                    print("  event:", json.dumps(v["event"])[:400])
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        if self.cov["traces_validated_against_impl"] == 0:
            raise Machinery("nothing was validated")
        print("OK property=%s %d traces, %d events, %.0f s" % (
            self.prop, self.cov["traces_validated_against_impl"], self.cov["evaluations"], time.time() - self.t0))
        return 0


def load_known(prop):
    """known findings: lines 'finding: property=<id> match=<regex over clause and scenario> :: <what fails>'"""
    res = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"finding: property=(\S+) match=(.*?) :: (.*)$", l.strip())
            if m and m.group(1) == prop:
                res.append({"re": re.compile(m.group(2)), "what": m.group(3)})
    return res


def match_known(known, v):
    s = json.dumps([v["clause"], v["scenario"]])
    for i, k in enumerate(known):
        if k["re"].search(s):
            return i
    return None
