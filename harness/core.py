"""Common machinery of the checks: building /repo, running TLC, running the real code in driver
processes, validating the recorded traces against the specification, writing the evidence."""
import contextlib
import fcntl
import hashlib
import importlib
import json
import os
import pathlib
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = pathlib.Path(__file__).resolve().parent.parent
SPEC = VERIF / "spec"
REPO = pathlib.Path("/repo")
PY = "/opt/venv/bin/python"
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = max(2, min(8, os.cpu_count() or 2))


class CheckError(Exception):
    """The machinery itself failed: neither 'held' nor 'violated'."""


# ------------------------------------------------------------------ build
def build():
    """Rebuild /repo in place from its working tree (incremental).

    Sources whose content is not the one this framework was developed against are touched
    first, so that the rebuild cannot be fooled by time stamps."""
    known = {}
    sums = VERIF / "harness" / "source_hashes.json"
    if sums.exists():
        known = json.loads(sums.read_text())
    with open(tempfile.gettempdir() + "/verif-build.lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        for f in compiled_sources():
            h = hashlib.sha256(f.read_bytes()).hexdigest()
            if known.get(str(f.relative_to(REPO))) != h:
                with contextlib.suppress(OSError):
                    os.utime(f)
        r = subprocess.run(["bash", "/opt/vp/build.sh"], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-4000:])
        raise CheckError("the build of /repo failed")


def compiled_sources():
    out = []
    for pat in ("*.pyx", "*.pxd", "*.h", "*.cpp", "*.cu"):
        out += [f for f in (REPO / "implicit").rglob(pat)]
    return sorted(out)


# ------------------------------------------------------------------ TLC
class TLCResult:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r"^(\d+) states generated, (\d+) distinct states found", out, re.M)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.ok = "Model checking completed. No error has been found" in out
        m = re.findall(r"Invariant (\S+) is violated|Action property (\S+) is violated|"
                       r"Temporal properties were violated", out)
        self.violated = [a or b or "temporal" for a, b in m] if m else []
        if "Temporal properties were violated" in out and not self.violated:
            self.violated = ["temporal"]


def tlc(module, cfg=None, env=None, workers=NCPU, timeout=1500, extra=(), heap="4g"):
    """Run TLC on spec/<module>.tla with spec/<cfg>."""
    meta = tempfile.mkdtemp(prefix="verif-tlc-")
    try:
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss16m", "-cp", TLA_CP, "tlc2.TLC",
               "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-deadlock",
               "-config", str(SPEC / (cfg or module + ".cfg")), *extra, str(SPEC / (module + ".tla"))]
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               env=e, timeout=timeout, cwd=str(SPEC))
        except subprocess.TimeoutExpired as ex:
            raise CheckError(f"TLC timed out on {module}") from ex
        return TLCResult(r.stdout, r.returncode)
    finally:
        shutil.rmtree(meta, ignore_errors=True)


# ------------------------------------------------------------------ check context
class Context:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.rng = random.Random(f"{seed}/{pid}")
        self.t0 = time.time()
        self.states = self.transitions = 0
        self.traces = self.events = 0
        self.samples = []
        self.violations = []          # (kind, clauses, case, event)
        self.notes = []
        self.specs = []
        self.clause_names = set()
        self.mod = importlib.import_module(f"harness.props.{pid.lower()}")
        self.tmp = pathlib.Path(tempfile.mkdtemp(prefix=f"verif-{pid}-"))

    @property
    def thorough(self):
        return self.tier == "thorough"

    def log(self, *a):
        print(f"[{self.pid} {time.time() - self.t0:6.1f}s]", *a, flush=True)

    # --- the specification itself
    def model_check(self, module, cfg=None, env=None, expect_violation=None, **kw):
        """Check a model. With expect_violation, the configuration contains a planted design
        error and TLC has to find it (the invariant is not vacuous)."""
        r = tlc(module, cfg, env, **kw)
        name = f"{module}/{cfg or module + '.cfg'}"
        if expect_violation:
            if not r.violated or expect_violation not in r.violated:
                sys.stderr.write(r.out[-3000:])
                raise CheckError(f"{name}: expected a violation of {expect_violation}")
            self.log(f"model {name}: planted design error found ({expect_violation})")
            return r
        if not r.ok:
            sys.stderr.write(r.out[-5000:])
            raise CheckError(f"{name}: the specification does not satisfy its own properties")
        self.states += r.distinct
        self.transitions += r.generated
        self.specs.append({"spec": name, "distinct_states": r.distinct, "transitions": r.generated})
        self.log(f"model {name}: {r.distinct} states, {r.generated} transitions, ok")
        return r

    def generate(self, module, cfg=None, env=None, tag="CASE", **kw):
        """Behaviours / inputs enumerated by TLC: lines printed as <<"CASE", "<json>">>."""
        r = tlc(module, cfg, env, **kw)
        if not r.ok:
            sys.stderr.write(r.out[-5000:])
            raise CheckError(f"generation from {module} failed")
        out = []
        for m in re.finditer(r'^<<"%s", "(.*)">>$' % tag, r.out, re.M):
            out.append(json.loads(m.group(1).replace('\\"', '"').replace("\\\\", "\\")))
        self.states += r.distinct
        self.transitions += r.generated
        self.specs.append({"spec": f"{module}/{cfg or module + '.cfg'}", "behaviours": len(out),
                           "distinct_states": r.distinct, "transitions": r.generated})
        self.log(f"generated {len(out)} behaviours from {module}")
        return out

    # --- the real code
    def drive(self, cases, procs=6, hang=240, env=None, func="execute"):
        """Run every case through <prop module>.<func> in driver processes. Returns, per case, the
        record {"case":..., "ev":[...]}. A crash or hang of the real code is an event."""
        n = len(cases)
        procs = max(1, min(procs, n))
        chunks = [list(range(i, n, procs)) for i in range(procs)]
        recs = [None] * n
        e = dict(os.environ)
        e.update({"OPENBLAS_NUM_THREADS": "1", "PYTHONPATH": f"{REPO}:{VERIF}",
                  "PYTHONDONTWRITEBYTECODE": "1", "OMP_WAIT_POLICY": "passive",
                  "PYTHONFAULTHANDLER": "0", "VERIF_PID": self.pid})
        e.update(env or {})
        running = {}

        def start(k, idxs):
            d = self.tmp / f"drv{k}-{time.time_ns()}"
            d.mkdir()
            (d / "cases").write_text("".join(json.dumps([i, cases[i]]) + "\n" for i in idxs))
            err = open(d / "err", "w")
            p = subprocess.Popen([PY, "-m", "harness.drv", self.pid, func, str(d / "cases"),
                                  str(d / "out")], env=e, cwd=str(d), stdout=err, stderr=err)
            running[k] = [p, d, idxs, time.time(), -1]

        for k, idxs in enumerate(chunks):
            start(k, idxs)
        while running:
            time.sleep(0.02)
            for k in list(running):
                p, d, idxs, last, size = running[k]
                rc = p.poll()
                o = d / "out"
                if rc is None:
                    s = o.stat().st_size if o.exists() else 0
                    if s != size:
                        running[k][3], running[k][4] = time.time(), s
                        continue
                    elif time.time() - last > hang:
                        p.kill()
                        p.wait()
                        rc = "hang"
                    else:
                        continue
                begun, done = None, set()
                for line in (o.read_text().splitlines() if o.exists() else []):
                    try:
                        m = json.loads(line)
                    except ValueError:
                        continue
                    if "begin" in m:
                        begun = m["begin"]
                    else:
                        recs[m["i"]] = {"case": cases[m["i"]], "ev": m["ev"], **m.get("hdr", {})}
                        done.add(m["i"])
                rest = [i for i in idxs if i not in done]
                del running[k]
                if rc == 0 and not rest:
                    continue
                if rc == 3 or begun is None or begun in done:
                    sys.stderr.write((d / "err").read_text()[-3000:])
                    raise CheckError(f"driver failed outside a case (rc={rc})")
                what = "hang" if rc == "hang" else "crash"
                self.log(f"driver {what} (rc={rc}) in case {begun}:",
                         (d / "err").read_text()[-800:])
                recs[begun] = {"case": cases[begun], "ev": [], "crash": what}
                self.violations.append({"clauses": [f"real_code_{what}"], "case": cases[begun],
                                        "event": {"rc": str(rc),
                                                  "stderr": (d / "err").read_text()[-2000:]}})
                rest = [i for i in rest if i != begun]
                if what == "hang":
                    # the verdict is there: don't wait for the other cases to hang as well
                    for p2, _, idxs2, _, _ in running.values():
                        p2.kill()
                        p2.wait()
                        rest += idxs2
                    running.clear()
                    for i in rest:
                        recs[i] = recs[i] or {"case": cases[i], "ev": [], "crash": "skipped"}
                elif len(self.violations) > 20:
                    for i in rest:
                        recs[i] = {"case": cases[i], "ev": [], "crash": "skipped"}
                elif rest:
                    start(k, rest)
        return recs

    # --- conformance: the recorded traces against the specification
    def validate(self, module, recs, cfg=None, env=None, keep_hdr=True, **kw):
        """Every record is one trace: TLC consumes every event of it and prints, for each event
        the specification does not allow, the names of the failing clauses."""
        good = [r for r in recs if r and not r.get("crash")]
        # events the harness could not even interpret
        for r in good:
            for ev in r["ev"]:
                if ev.get("harness_exc"):
                    self.violations.append({"clauses": ["unusable_result"], "case": r["case"],
                                            "event": ev})
        good = [r for r in good if not any(ev.get("harness_exc") for ev in r["ev"])]
        if not good:
            return
        f = self.tmp / f"trace-{module}-{time.time_ns()}.ndjson"
        with open(f, "w") as fh:
            for r in good:
                fh.write(json.dumps({k: v for k, v in r.items() if k != "case"}) + "\n")
        e = {"TRACE": str(f)}
        e.update(env or {})
        r = tlc(module, cfg, e, **kw)
        want = sum(len(x["ev"]) + 1 for x in good)
        broken = not r.ok and re.search(r"Error: (Evaluating|The error occurred when TLC was evaluating|"
                                        r"Overflow|TLC threw an unexpected exception|Attempted|In evaluation)|"
                                        r"Overflow when computing|Attempted to", r.out)
        at = re.findall(r"/\\ c = (\d+)", r.out)
        if broken and at:
            # a recorded value for which the specification has no meaning (out of the range of
            # any allowed answer): the last state TLC reached names the trace
            c = int(at[-1]) - 1
            i = int((re.findall(r"/\\ i = (\d+)", r.out) or ["1"])[-1]) - 1
            evs = good[c]["ev"]
            self.violations.append({"clauses": ["outside_the_specification"], "case": good[c]["case"],
                                    "event": evs[min(i, len(evs) - 1)] if evs else {}, "spec": module,
                                    "tlc": r.out[-1500:]})
            self.log(f"{module}: TLC cannot evaluate trace {c} event {i}")
        elif not r.ok or r.distinct != want:
            keep = VERIF / "out"
            keep.mkdir(exist_ok=True)
            shutil.copy(f, keep / f"{self.pid}-failed-trace.ndjson")
            sys.stderr.write(r.out[-6000:])
            raise CheckError(f"trace validation with {module} did not complete "
                             f"({r.distinct} of {want} states)")
        self.states += r.distinct
        self.transitions += r.generated
        self.traces += len(good)
        self.events += want - len(good)
        nbad = 0
        # TLC wraps long tuples over several lines
        for m in re.finditer(r'<<\s*"FAIL",\s*(\d+),\s*(\d+),\s*\{([^}]*)\}\s*>>', r.out):
            c, i = int(m.group(1)) - 1, int(m.group(2)) - 1
            cl = sorted(re.findall(r'"([^"]+)"', m.group(3)))
            nbad += 1
            self.violations.append({"clauses": cl, "case": good[c]["case"],
                                    "event": good[c]["ev"][i], "spec": module})
        for x in good[:: max(1, len(good) // 3)][:3]:
            if len(self.samples) < 8:
                self.samples.append({"case": _short(x["case"]), "events": len(x["ev"])})
        self.specs.append({"spec": module, "traces": len(good), "events": want - len(good),
                           "rejected": nbad})
        self.log(f"validated {len(good)} traces / {want - len(good)} events with {module}: "
                 f"{nbad} rejected")
        f.unlink()

    def corrupt(self, module, recs, mutate, cfg=None, env=None, label=""):
        """Binding is not vacuous: the same traces with one recorded field changed have to be
        rejected by the specification."""
        good = [r for r in recs if r and not r.get("crash")
                and not any(ev.get("harness_exc") for ev in r["ev"])]
        out = []
        for r in good:
            m = mutate(json.loads(json.dumps(r)))
            if m is not None:
                out.append(m)
        if not out:
            return
        f = self.tmp / f"corrupt-{time.time_ns()}.ndjson"
        with open(f, "w") as fh:
            for r in out:
                fh.write(json.dumps({k: v for k, v in r.items() if k != "case"}) + "\n")
        r = tlc(module, cfg, {"TRACE": str(f), **(env or {})})
        f.unlink()
        if not r.ok:
            sys.stderr.write(r.out[-3000:])
            raise CheckError(f"{module}: the corrupted traces ({label}) could not be evaluated")
        bad = {int(a) for a in re.findall(r'"FAIL",\s*(\d+),', r.out)}
        if len(bad) != len(out):
            missed = [i for i in range(1, len(out) + 1) if i not in bad]
            raise CheckError(f"{module}: {len(missed)} of {len(out)} corrupted traces ({label}) "
                             f"were accepted, e.g. {json.dumps(out[missed[0] - 1])[:600]}")
        self.log(f"{len(out)} corrupted traces ({label}) all rejected by {module}")
        self.notes.append(f"{len(out)} corrupted traces ({label}) all rejected by {module}")

    # --- outcome
    def finish(self, level, assumptions=()):
        known = []
        kf = VERIF / "KNOWN_FINDINGS.json"
        if kf.exists():
            known = [k for k in json.loads(kf.read_text()).get("known", [])
                     if k["property"] == self.pid]
        rest = []
        for v in self.violations:
            hit = next((k for k in known if _matches(k, v)), None)
            if hit:
                hit["_seen"] = True
            else:
                rest.append(v)
        for k in known:
            print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": level,
            "wall_s": round(time.time() - self.t0, 1),
            "coverage": {"model_checking": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "samples": self.samples or [{"note": "no trace"}],
                "events_validated_against_impl": self.events, "specs": self.specs,
            }},
            "violations": len(rest),
            "assumptions": list(assumptions) + self.notes,
        }
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / f"{self.pid}.json").write_text(json.dumps(ev, indent=1))
        shutil.rmtree(self.tmp, ignore_errors=True)
        if rest:
            out = VERIF / "out"
            out.mkdir(exist_ok=True)
            rp = out / f"{self.pid}-replay.json"
            rp.write_text(json.dumps({"property": self.pid, "violations": rest[:300]}, indent=1))
            for v in rest[:5]:
                print(f"  rejected: {v['clauses']} case={json.dumps(v['case'])[:300]} "
                      f"event={json.dumps(v['event'])[:400]}")
            print(f"VIOLATION property={self.pid} replay={rp}", flush=True)
            return 1
        self.log(f"held: {self.states} states, {self.traces} traces, {self.events} events")
        return 0


def _short(x, n=400):
    s = json.dumps(x)
    return x if len(s) <= n else s[:n] + "..."


def _matches(k, v):
    """A known finding names the clauses that may fail and the fields of the case that fails."""
    if not set(v["clauses"]) <= set(k["clauses"]):
        return False
    return all(isinstance(v["case"], dict) and v["case"].get(a) == b
               for a, b in k.get("case", {}).items())


# the records handed to TLC carry only small integers, strings, booleans and sequences of them
def q(x, scale=1):
    """float -> [kind, int]: kind 0 a number (scaled), 1 the 'filtered' sentinel (or -inf),
    2 NaN, 3 too big to represent."""
    x = float(x)
    if x != x:
        return [2, 0]
    if x < -1e30:
        return [1, 0]
    y = round(x * scale) if abs(x) < 1e30 else None
    if y is None or abs(y) > 2_000_000_000:
        return [3, 0]
    return [0, int(y)]
