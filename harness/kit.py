"""Running TLC and the drivers, and turning their results into verdicts."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 8


class MachineryError(Exception):
    """the check itself failed: nothing can be said about the code"""


class Scratch:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="verif.")

    def path(self, *names):
        p = os.path.join(self.dir, *names)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


class TLCResult:
    """outcome of one run of TLC"""


T0 = time.time()
LIMIT = [1e9]  # seconds from the start within which a check has to answer


def remaining():
    return max(5, LIMIT[0] - (time.time() - T0))


_n_run = [0]


def tlc(
    scratch, module, cfg, env=None, workers=None, timeout=600, simulate=None, depth=100,
    seed=None, heap="3g", check=True, extra=(),
):
    """run TLC on spec/<module>.tla with the given configuration text or file"""
    _n_run[0] += 1
    work = scratch.path("tlc%d" % _n_run[0], "x")[:-2]
    for f in os.listdir(SPEC):
        if f.endswith((".tla", ".cfg")):
            shutil.copy(os.path.join(SPEC, f), work)
    if "\n" in cfg or " " in cfg:
        with open(os.path.join(work, "run.cfg"), "w") as f:
            f.write(cfg)
        cfg = "run.cfg"
    cmd = [
        "java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", JAR, "tlc2.TLC",
        "-metadir", os.path.join(work, "meta"), "-noGenerateSpecTE", "-nowarning",
        "-workers", str(workers or NCPU), "-config", cfg,
    ]
    if simulate:
        cmd += ["-simulate", "num=%d" % simulate, "-depth", str(depth)]
    if seed is not None:
        cmd += ["-seed", str(seed)]
    cmd += list(extra) + [module + ".tla"]
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    t = time.time()
    timeout = min(timeout, remaining())
    out_path = os.path.join(work, "out.txt")
    with open(out_path, "w") as out:
        try:
            rc = subprocess.call(
                cmd, cwd=work, env=e, stdout=out, stderr=subprocess.STDOUT, timeout=timeout
            )
        except subprocess.TimeoutExpired:
            if check:
                raise MachineryError(f"TLC on {module} exceeded {timeout:.0f} s")
            rc = "timeout"
    r = TLCResult()
    r.rc, r.wall, r.module = rc, time.time() - t, module
    r.out = open(out_path).read()
    r.prints = []
    for line in r.out.splitlines():
        if line.startswith('"@'):
            try:
                r.prints.append(json.loads(line)[1:])
            except ValueError:
                if rc == "timeout":
                    continue
                raise MachineryError(f"cannot parse TLC output line {line[:200]}")
    m = re.findall(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found", r.out)
    r.generated, r.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    if not m:
        m = re.findall(r"The number of states generated: (\d+)", r.out)
        if m:
            r.generated = r.distinct = int(m[-1])
    r.violated = re.findall(r"(?:Invariant|Action property|Temporal property) (\S+) is violated", r.out)
    if "Temporal properties were violated" in r.out:
        r.violated.append("temporal")
    if "Deadlock reached" in r.out:
        r.violated.append("deadlock")
    r.ok = rc == 0
    if check and not r.ok:
        raise MachineryError(f"TLC on {module} ended with {rc}:\n" + tail(r.out))
    shutil.rmtree(os.path.join(work, "meta"), ignore_errors=True)
    return r


def tail(s, n=60):
    lines = [x[:300] for x in s.splitlines() if not x.startswith('"@')]
    return "\n".join(lines[-n:])


def printed(result, tag):
    """the JSON values TLC printed under a tag"""
    out = []
    for p in result.prints:
        name, _, rest = p.partition(" ")
        if name == tag:
            out.append(json.loads(rest))
    return out


def batches(records, limit=20_000_000):
    """records in parts that TLC can hold, large ones spread over the shards"""
    out, size = [[]], 0
    for rec in records:
        n = len(json.dumps(rec))
        if out[-1] and size + n > limit:
            out.append([])
            size = 0
        out[-1].append(rec)
        size += n
    return out if out[0] else []


def validate(scratch, module, records, timeout=800, shards=None, heap="4g", consts=""):
    """Validate independent trace records with a trace specification.

    The specification steps through the records in `Shards` independent chains and
    prints '@REJECT {id, clauses, ...}' for each record it does not accept.  A record
    that TLC cannot evaluate is a rejection too (clause 'uninterpretable').
    Returns (rejections, result)."""
    rejects = []
    todo = list(records)
    states = gen = 0
    wall = 0.0
    for attempt in range(6):
        if not todo:
            break
        shards = min(NCPU, max(1, len(todo)))
        path = scratch.path("trace%d.ndjson" % _n_run[0])
        with open(path, "w") as f:
            for rec in todo:
                f.write(json.dumps(rec) + "\n")
        cfg = (
            f"SPECIFICATION TraceSpec\nCONSTANT Shards = {shards}\n{consts}\n"
            "CHECK_DEADLOCK FALSE\n"
        )
        r = tlc(
            scratch, module, cfg, env={"TRACE": path}, timeout=timeout, heap=heap, check=False
        )
        os.remove(path)
        wall += r.wall
        states += r.distinct
        gen += r.generated
        if r.ok:
            got = printed(r, "REJECT")
            rejects += got
            done = printed(r, "DONE")
            consumed = len(done) if done else r.distinct - shards
            if consumed != len(todo):
                raise MachineryError(
                    f"{module} consumed {consumed} of {len(todo)} records\n" + tail(r.out)
                )
            break
        if r.rc == "timeout":
            # what was rejected until then is rejected
            got = printed(r, "REJECT")
            if rejects or got:
                rejects += [g for g in got if g["id"] not in {x["id"] for x in rejects}]
                break
            raise MachineryError(f"TLC on {module} exceeded {timeout} s")
        # evaluation error: find the record
        m = re.findall(r"^\s*(?:/\\ )?i = (\d+)", r.out, re.M)
        if not m or "Error: Parsing" in r.out or "java.lang.OutOfMemory" in r.out:
            raise MachineryError(f"TLC on {module} ended with {r.rc}:\n" + tail(r.out))
        err = re.findall(r"^Error: (.*)$", r.out, re.M)
        bad = int(m[-1]) - 1
        rec = todo[bad]
        if not rec.get("_may_fail", True):
            raise MachineryError(tail(r.out))
        rejects.append(
            {"id": rec["id"], "clauses": ["uninterpretable"], "why": " ".join(err)[:300] + tail(r.out, 25)}
        )
        todo = todo[:bad] + todo[bad + 1 :]
        if attempt == 5:
            break
    res = TLCResult()
    res.generated, res.distinct, res.wall = gen, states, wall
    return rejects, res


def run_driver(scratch, driver, scenarios, parallel=None, timeout=600, env=None, args=()):
    """run harness/<driver>.py on scenarios, split over processes; returns records"""
    parallel = max(1, min(parallel or NCPU, len(scenarios)))
    procs = []
    cwd = scratch.path("cwd", "x")[:-2]
    for p in range(parallel):
        part = scenarios[p::parallel]
        inp = scratch.path(f"{driver}.{_n_run[0]}.{p}.in")
        outp = inp[:-3] + ".out"
        with open(inp, "w") as f:
            for s in part:
                f.write(json.dumps(s) + "\n")
        e = dict(os.environ)
        e.update(
            PYTHONPATH=REPO + ":" + os.path.join(VERIF, "harness"),
            PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1",
            OPENBLAS_NUM_THREADS="1", VERIF_SCRATCH=scratch.dir, PYTHONWARNINGS="ignore",
        )
        e.update(env or {})
        err = open(inp[:-3] + ".err", "w+")
        procs.append(
            (
                subprocess.Popen(
                    [PY, os.path.join(VERIF, "harness", driver + ".py"), inp, outp, *args],
                    env=e, cwd=cwd, stdout=err, stderr=subprocess.STDOUT,
                ),
                part, outp, err,
            )
        )
    records = []
    t0 = time.time()
    problem = None
    for proc, part, outp, err in procs:
        try:
            rc = proc.wait(timeout=max(1, min(timeout - (time.time() - t0), remaining())))
        except subprocess.TimeoutExpired:
            proc.kill()
            rc = "timeout"
        got = []
        if os.path.exists(outp):
            with open(outp) as f:
                for line in f:
                    if line.endswith("\n"):
                        got.append(json.loads(line))
        err.seek(0)
        text = err.read()
        if rc == 3 and got and got[-1].get("hang"):
            # the code under test did not return in one scenario: the driver said so
            pass
        elif rc != 0 or len(got) != len(part):
            problem = f"driver {driver} ended with {rc} after {len(got)}/{len(part)}:\n{tail(text)}"
        records += got
    if problem:
        raise MachineryError(problem)
    order = {s["id"]: k for k, s in enumerate(scenarios)}
    records.sort(key=lambda r: order.get(r["id"], -1))
    return records


class Report:
    """collects what a check covered and found"""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.extra = {}
        self.violations = []  # (key, text, replay)
        self.known = []
        self.level = "model_checking"

    def add_tlc(self, name, r):
        self.states += r.distinct
        self.transitions += r.generated
        self.extra.setdefault("tlc_runs", []).append(
            {"spec": name, "distinct": r.distinct, "generated": r.generated, "wall_s": round(r.wall, 2)}
        )

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(shorten(s))

    def violation(self, key, clauses, detail):
        self.violations.append((key, clauses, detail))

    def _known(self):
        path = os.path.join(VERIF, "known_findings.json")
        if not os.path.exists(path):
            return []
        return [
            k for k in json.load(open(path)) if k.get("status") == "known" and k["property"] == self.prop
        ]

    def news(self):
        """number of violations that are not known findings"""
        known = self._known()
        return sum(
            not any(k["scenario"] == key and set(clauses) <= set(k["clauses"]) for k in known)
            for key, clauses, _ in self.violations
        )

    def finish(self):
        known = self._known()
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        for f in os.listdir(rdir):
            if f.startswith(self.prop + "-"):
                os.remove(os.path.join(rdir, f))
        n_bad = 0
        seen_known = []
        for key, clauses, detail in self.violations:
            hit = [k for k in known if k["scenario"] == key and set(clauses) <= set(k["clauses"])]
            if hit:
                seen_known.append(hit[0]["what"])
                continue
            n_bad += 1
            if n_bad > 5:
                continue
            rp = os.path.join(rdir, f"{self.prop}-{n_bad}.json")
            with open(rp, "w") as f:
                json.dump(
                    {
                        "property": self.prop, "tier": self.tier, "seed": self.seed,
                        "scenario": key, "clauses": clauses, "detail": detail,
                        "rerun": f"VERIF_SEED={self.seed} {VERIF}/bin/check {self.prop} {self.tier}",
                    },
                    f, indent=1,
                )
            print(f"  {self.prop}: scenario {key}: {', '.join(map(str, clauses))}: {str(detail)[:400]}")
            print(f"VIOLATION property={self.prop} replay={rp}")
        for what in sorted(set(seen_known)):
            print(f"KNOWN-FINDING: property={self.prop} {what}")
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.traces, "samples": self.samples,
                "rejected_traces": len(self.violations), "known_findings": sorted(set(seen_known)),
                **self.extra,
            },
            "wall_s": round(time.time() - self.t0, 2),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print(
            f"{self.prop} {self.tier}: {self.traces} traces of the implementation validated, "
            f"{self.states} states, {len(self.violations)} rejected ({len(set(seen_known))} known), "
            f"{time.time() - self.t0:.1f} s"
        )
        sys.stdout.flush()
        return 1 if n_bad else 0


def shorten(x, n=24):
    if isinstance(x, list):
        y = [shorten(v, n) for v in x[:n]]
        return y + ["... %d more" % (len(x) - n)] if len(x) > n else y
    if isinstance(x, dict):
        return {k: shorten(v, n) for k, v in x.items()}
    if isinstance(x, str) and len(x) > 300:
        return x[:300] + "..."
    return x
