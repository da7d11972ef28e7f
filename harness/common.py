"""Shared machinery of every check: TLC runner, verdict collection, evidence, reporting.

Exit codes: 0 property held on everything explored, 1 VIOLATION printed, 2 machinery failure.
"""
from __future__ import annotations

import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
SPEC = VERIF / "spec"
REPO = Path(os.environ.get("SKOPS_REPO", "/repo"))
TLA_CP = (
    "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
)

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"


class MachineryError(RuntimeError):
    pass


# --------------------------------------------------------------------------- scratch
_SCRATCH: list[Path] = []


def scratch(prefix="verif-") -> Path:
    d = Path(tempfile.mkdtemp(prefix=prefix))
    _SCRATCH.append(d)
    return d


def cleanup():
    for d in _SCRATCH:
        shutil.rmtree(d, ignore_errors=True)
    _SCRATCH.clear()


# --------------------------------------------------------------------------- TLC
class TLCResult:
    def __init__(self, out, rows, states, distinct, wall):
        self.out, self.rows, self.states, self.distinct, self.wall = (
            out, rows, states, distinct, wall,
        )


def tlc(module, cfg, env=None, workers=8, timeout=800, heap="6g", args=()) -> TLCResult:
    """Run TLC on spec/<module>.tla with configuration text `cfg`.

    Rows printed by the specification as PrintT("@@" \\o ToJson(x)) are decoded."""
    wd = scratch("tlc-")
    for f in SPEC.glob("*.tla"):
        shutil.copy(f, wd)
    (wd / f"{module}.cfg").write_text(cfg)
    e = dict(os.environ)
    e.update(env or {})
    cmd = [
        "java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss128m",
        "-Dfile.encoding=UTF-8", "-Dtlc2.TLC.stopAfter=100000",
        f"-Djava.io.tmpdir={wd}",
        "-cp", TLA_CP, "tlc2.TLC", "-config", f"{module}.cfg", "-workers", str(workers),
        "-metadir", str(wd / "md"), "-noGenerateSpecTE", *args, f"{module}.tla",
    ]  # fmt: skip
    t0 = time.time()
    try:
        p = subprocess.run(
            cmd, cwd=wd, env=e, capture_output=True, text=True, timeout=timeout,
            errors="surrogateescape",
        )
    except subprocess.TimeoutExpired:
        raise MachineryError(f"TLC timed out on {module}")
    wall = time.time() - t0
    rows, rest = [], []
    for line in p.stdout.splitlines():
        if line.startswith('"@@'):
            rows.append(json.loads(json.loads(line)[2:]))
        else:
            rest.append(line)
    out = "\n".join(rest)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    if p.returncode != 0 or not m or "No error has been found" not in out:
        tail = [
            ln for ln in rest
            if not ln.startswith(("Parsing file", "Semantic proc", "Linting"))
        ]
        raise MachineryError(
            f"TLC failed on {module} (rc={p.returncode}):\n" + "\n".join(tail[-60:])
            + p.stderr[-2000:]
        )
    shutil.rmtree(wd, ignore_errors=True)
    return TLCResult(out, rows, int(m.group(1)), int(m.group(2)), wall)


def sany(module):
    p = subprocess.run(
        ["java", "-cp", TLA_CP, "tla2sany.SANY", f"{module}.tla"],
        cwd=SPEC, capture_output=True, text=True,
    )
    return p.returncode == 0 and "*** Errors" not in p.stdout, p.stdout


def write_traces(path, traces):
    """traces: list of lists of events -> one ndjson line per trace."""
    with open(path, "w") as f:
        for t in traces:
            f.write(json.dumps({"ev": t}, ensure_ascii=True) + "\n")


def validate(module, traces, cfg_extra="", workers=8, timeout=800, env=None,
             chunk=4000):
    """Trace validation.  The module's trace spec starts one behaviour per trace, consumes one
    event per step and prints {"t": trace#, "i": event#, "bad": [clauses]} for violated clauses.

    Returns (bad rows with 0-based t,i ; total events ; states)."""
    bad, nstates = [], 0
    for lo in range(0, len(traces), chunk):
        part = traces[lo: lo + chunk]
        wd = scratch("trace-")
        f = wd / "trace.ndjson"
        write_traces(f, part)
        r = tlc(
            module,
            "SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\n" + cfg_extra,
            env={"TRACE": str(f), **(env or {})}, workers=workers, timeout=timeout,
        )
        want = sum(len(t) + 1 for t in part)
        if r.distinct != want:
            raise MachineryError(
                f"{module}: trace not fully consumed ({r.distinct} states, {want} expected)"
            )
        nstates += r.distinct
        for row in r.rows:
            bad.append({**row, "t": row["t"] - 1 + lo, "i": row["i"] - 1})
        shutil.rmtree(wd, ignore_errors=True)
    return bad, sum(len(t) for t in traces), nstates


# --------------------------------------------------------------------------- reporting
def load_known():
    """known_findings.txt:  finding: property=<id> key=<key> <text>   |   fixed: ..."""
    res = {}
    p = VERIF / "known_findings.txt"
    if p.exists():
        for line in p.read_text().splitlines():
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m:
                res[(m.group(1), m.group(2))] = m.group(3)
    return res


class Check:
    def __init__(self, prop, level, rule=""):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.cov = {}
        self.rule = rule
        self.assumptions = []
        self.viol = []
        self.known = load_known()
        self.known_seen = {}
        self.outdir = VERIF / "out" / prop
        shutil.rmtree(self.outdir, ignore_errors=True)
        self.outdir.mkdir(parents=True, exist_ok=True)

    def log(self, *a):
        print(f"[{self.prop} {time.time()-self.t0:6.1f}s]", *a, flush=True)

    def add(self, key, n):
        self.cov[key] = self.cov.get(key, 0) + n

    def violation(self, clause, case, detail="", key=None):
        """Record a violated clause; `key` identifies the exact input for known findings."""
        if key is not None and (self.prop, key) in self.known:
            self.known_seen[key] = self.known[(self.prop, key)]
            return
        self.viol.append((clause, detail))
        if len(self.viol) <= 25:
            f = self.outdir / f"violation-{len(self.viol):03d}.json"
            f.write_text(
                json.dumps(
                    {"property": self.prop, "clause": clause, "detail": detail,
                     "key": key, "case": case, "seed": SEED, "tier": TIER},
                    indent=1, default=repr, ensure_ascii=True,
                )
            )
            self.log("clause", clause, "|", str(detail)[:600], "| key:", key)
            print(f"VIOLATION property={self.prop} replay={f}", flush=True)

    def finish(self):
        for k, text in sorted(self.known_seen.items()):
            print(f"KNOWN-FINDING: property={self.prop} {k}: {text}")
        self.cov.setdefault("rule", self.rule)
        ev = {
            "property": self.prop, "tier": TIER, "seed": SEED, "level": self.level,
            "coverage": self.cov, "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol),
        }
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / f"{self.prop}.json").write_text(
            json.dumps(ev, indent=1, default=repr)
        )
        self.log(
            "done:", {k: v for k, v in self.cov.items() if isinstance(v, int)},
            "violations:", len(self.viol),
        )
        return 1 if self.viol else 0


def use_repo():
    """Import skops from the working tree under test."""
    sys.path.insert(0, str(REPO))
    import skops

    if not Path(skops.__file__).resolve().is_relative_to(REPO.resolve()):
        raise MachineryError(f"skops imported from {skops.__file__}")


def run_main(fn):
    try:
        rc = fn()
    except MachineryError as e:
        print("MACHINERY-ERROR:", e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        cleanup()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


def cps(s: str):
    """Text as a sequence of code points (TLC strings are kept ASCII)."""
    return [ord(c) for c in s]


def esc(s: str) -> str:
    """Injective ASCII encoding of an opaque string for TLC."""
    return s.encode("unicode_escape").decode("ascii")


def pmap(fn, items, nproc=8, init=None):
    """[fn(x) for x in items] in forked processes (items and results stay in order).

    A worker that dies is a machinery failure: the functions must not let that happen."""
    import pickle

    items = list(items)
    nproc = max(1, min(nproc, len(items)))
    d = scratch("pmap-")
    sys.stdout.flush()
    sys.stderr.flush()
    pids = []
    for w in range(nproc):
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                nul = os.open(os.devnull, os.O_RDWR)
                os.dup2(nul, 0)
                os.dup2(nul, 1)
                if init:
                    init()
                res = [(k, fn(items[k])) for k in range(w, len(items), nproc)]
                with open(d / f"{w}.pkl", "wb") as f:
                    pickle.dump(res, f)
                code = 0
            except BaseException:  # noqa: BLE001
                traceback.print_exc()
            finally:
                sys.stderr.flush()
                os._exit(code)
        pids.append(pid)
    bad = [w for w, pid in enumerate(pids) if os.waitpid(pid, 0)[1] != 0]
    if bad:
        raise MachineryError(f"workers {bad} failed")
    out = [None] * len(items)
    for w in range(nproc):
        with open(d / f"{w}.pkl", "rb") as f:
            for k, r in pickle.load(f):
                out[k] = r
    shutil.rmtree(d, ignore_errors=True)
    return out
