"""Shared machinery of the conformance checks.

* runs TLC on a module of /verif/spec, collects the values the specification emits
  (lines ``"@@{json}"``) and its state / transition counts;
* keeps the book of one check: cases, violations, known findings, evidence file.
"""

import itertools
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
import zlib
from pathlib import Path

import numpy as np

ROOT = Path(__file__).resolve().parent.parent
SPEC = ROOT / "spec"
EVID = ROOT / "evidence"
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
TLA_JAR = "/opt/veriftools/tla/tla2tools.jar"


class MachineryError(RuntimeError):
    """The check itself failed: neither a pass nor a violation."""


# --------------------------------------------------------------------------- TLC
class TLCResult:
    def __init__(self, emitted, generated, distinct, out, ok, wall):
        self.emitted = emitted
        self.generated = generated
        self.distinct = distinct
        self.out = out
        self.ok = ok
        self.wall = wall


_RE_STATES = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def tla(v):
    """Python value -> TLA+ expression."""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"' + v + '"'
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla(x) for x in sorted(v, key=str)) + "}"
    if isinstance(v, dict):
        return "[" + ", ".join(f"{k} |-> {tla(x)}" for k, x in v.items()) + "]"
    raise TypeError(type(v))


def run_tlc(module, constants=None, *, spec="Spec", init=None, next_=None, invariants=(), properties=(), files=None,
            workers=1, timeout=800, postcondition=None, constraint=None, view=None, allow_fail=False, overrides=None,
            mem="3g", simulate=None, action_constraint=None):
    """Run TLC on spec/<module>.tla with a generated configuration.

    `constants` maps names to python values (written as TLA+ expressions through a wrapper module MC);
    `files` maps file names to JSON documents put beside the module.
    """
    t0 = time.time()
    tmp = Path(tempfile.mkdtemp(prefix="vf_tlc_"))
    try:
        for f in SPEC.glob("*.tla"):
            shutil.copy(f, tmp / f.name)
        for name, doc in (files or {}).items():
            with open(tmp / name, "w") as fid:
                json.dump(doc, fid)
        mc = [f"---- MODULE MC ----", f"EXTENDS {module}"]
        cfg = []
        for k, v in (constants or {}).items():
            mc.append(f"const_{k} == {v if isinstance(v, Raw) else tla(v)}")
            cfg.append(f"CONSTANT {k} <- const_{k}")
        mc.append("====")
        (tmp / "MC.tla").write_text("\n".join(mc) + "\n")
        if init:
            cfg.append(f"INIT {init}")
            cfg.append(f"NEXT {next_}")
        else:
            cfg.append(f"SPECIFICATION {spec}")
        cfg += [f"INVARIANT {i}" for i in invariants]
        cfg += [f"PROPERTY {i}" for i in properties]
        if postcondition:
            cfg.append(f"POSTCONDITION {postcondition}")
        if constraint:
            cfg.append(f"CONSTRAINT {constraint}")
        if action_constraint:
            cfg.append(f"ACTION_CONSTRAINT {action_constraint}")
        if view:
            cfg.append(f"VIEW {view}")
        cfg.append("CHECK_DEADLOCK FALSE")
        (tmp / "MC.cfg").write_text("\n".join(cfg) + "\n")
        cp = TLA_JAR + ":" + _community_cp() + ":" + str(_overrides_dir())
        cmd = ["java", f"-Xmx{mem}", "-Xss64m", "-XX:+UseParallelGC", "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:DecOverrides",
               "-cp", cp, "tlc2.TLC", "-workers", str(workers),
               "-config", "MC.cfg", "-metadir", str(tmp / "meta"), "-nowarning"]
        if simulate:
            cmd += ["-simulate", simulate]
        cmd += ["MC.tla"]
        try:
            pr = subprocess.run(cmd, cwd=tmp, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired as exc:
            raise MachineryError(f"TLC timed out on {module} after {timeout}s") from exc
        out = pr.stdout
        emitted = []
        rest = []
        for line in out.splitlines():
            if line.startswith('"@@'):
                emitted.append(json.loads(json.loads(line)[2:]))
            else:
                rest.append(line)
        m = None
        for m in _RE_STATES.finditer(out):
            pass
        gen, dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        ok = pr.returncode == 0
        if not ok and not allow_fail:
            raise MachineryError(f"TLC failed on {module} (rc={pr.returncode}):\n" + "\n".join([x for x in rest if "Error" in x or "violated" in x][:10] + rest[-60:]) + pr.stderr[-2000:])
        return TLCResult(emitted, gen, dist, "\n".join(rest), ok, time.time() - t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


class Raw(str):
    """A TLA+ expression written out by the caller."""


_OVR = None


def _overrides_dir():
    """Compile the TLC override of Dec.tla (once per process)."""
    global _OVR
    if _OVR is None:
        import atexit

        d = Path(tempfile.mkdtemp(prefix="vf_ovr_"))
        atexit.register(shutil.rmtree, d, True)
        r = subprocess.run(["javac", "-nowarn", "-cp", TLA_JAR, "-d", str(d), str(SPEC / "java" / "DecOverrides.java")],
                           capture_output=True, text=True)
        if r.returncode:
            raise MachineryError("cannot compile DecOverrides: " + r.stderr)
        _OVR = d
    return _OVR


def _community_cp():
    d = Path("/opt/veriftools/tla")
    return ":".join(str(j) for j in sorted(d.glob("*.jar")))


# --------------------------------------------------------------------------- check bookkeeping
def jsonable(v, depth=0):
    import numpy as np

    if depth > 8:
        return str(v)[:200]
    if isinstance(v, dict):
        return {str(k): jsonable(x, depth + 1) for k, x in v.items()}
    if isinstance(v, (list, tuple, set, frozenset)):
        return [jsonable(x, depth + 1) for x in v]
    if isinstance(v, np.ndarray):
        return jsonable(v.tolist(), depth + 1) if v.size <= 400 else f"<array {v.shape} {v.dtype}>"
    if isinstance(v, np.generic):
        return jsonable(v.item(), depth + 1)
    if isinstance(v, float):
        return v if v == v and abs(v) != float("inf") else repr(v)
    if isinstance(v, (int, str, bool)) or v is None:
        return v
    return str(v)[:400]


class Check:
    def __init__(self, pid, tier, seed):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.viol = []
        self.n_viol = 0
        self.known_hits = {}
        self.groups = {}
        self.assumptions = []
        self.known = [k for k in load_known() if k["property"] == pid and k["status"] == "known"]

    @property
    def thorough(self):
        return self.tier == "thorough"

    def tlc(self, *args, **kw):
        r = run_tlc(*args, **kw)
        self.states += r.distinct
        self.transitions += r.generated
        return r

    def case(self, group, sample=None, n=1):
        """Account for one behaviour of the specification compared with the real code."""
        self.traces += n
        g = self.groups.setdefault(group, 0)
        self.groups[group] = g + n
        if sample is not None and g == 0:
            self.samples.append({"group": group, "case": jsonable(sample)})

    def violation(self, clause, detail, key=None):
        """Record that the real code left the specification."""
        key = key or clause
        for k in self.known:
            if re.fullmatch(k["match"], key):
                self.known_hits.setdefault(k["id"], (k, 0))
                self.known_hits[k["id"]] = (k, self.known_hits[k["id"]][1] + 1)
                return
        self.n_viol += 1
        if len(self.viol) < 25:
            self.viol.append({"clause": clause, "key": key, "detail": jsonable(detail)})

    def expect(self, cond, clause, detail=None, key=None):
        if not cond:
            self.violation(clause, detail() if callable(detail) else detail, key)
        return bool(cond)

    def guard(self, clause, fn, detail=None, key=None):
        """Run code under test; an exception that comes out of it is a violation of `clause`."""
        try:
            return True, fn()
        except Exception as exc:  # noqa: BLE001
            d = {"exception": f"{type(exc).__name__}: {exc}", "where": "".join(traceback.format_tb(exc.__traceback__)[-3:])}
            if detail is not None:
                d["case"] = detail() if callable(detail) else detail
            self.violation(clause + ".raises", d, key)
            return False, None

    def finish(self):
        EVID.mkdir(exist_ok=True)
        for kid, (k, n) in sorted(self.known_hits.items()):
            print(f"KNOWN-FINDING: property={self.pid} {k['what']} ({n} cases)")
        wall = time.time() - self.t0
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": "model_checking",
            "coverage": {
                "states": self.states,
                "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "samples": self.samples[:20],
                "conformance_cases_per_group": self.groups,
            },
            "assumptions": self.assumptions,
            "wall_s": round(wall, 2),
            "violations": self.n_viol,
        }
        (EVID / f"{self.pid}.json").write_text(json.dumps(ev, indent=1))
        print(f"[{self.pid}] tier={self.tier} seed={self.seed} states={self.states} transitions={self.transitions} "
              f"conformance={self.traces} violations={self.n_viol} wall={wall:.1f}s")
        for g, n in self.groups.items():
            print(f"   {g}: {n}")
        if self.n_viol:
            rp = EVID / f"replay_{self.pid}.json"
            rp.write_text(json.dumps({"property": self.pid, "seed": self.seed, "tier": self.tier,
                                      "rerun": f"bin/check {self.pid} {self.tier}", "violations": self.viol}, indent=1))
            for v in self.viol[:6]:
                print("  broken clause:", v["clause"], json.dumps(v["detail"])[:600])
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        if self.traces == 0:
            print("machinery: nothing was compared with the implementation")
            return 3
        return 0


def load_known():
    p = ROOT / "known_findings.jsonl"
    if not p.exists():
        return []
    return [json.loads(line) for line in p.read_text().splitlines() if line.strip().startswith("{")]


def from_code_under_test(exc):
    src = str(REPO / "src")
    return any(f.filename.startswith(src) for f in traceback.extract_tb(exc.__traceback__))


def main(argv):
    import importlib

    pid = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ck = Check(pid, tier, seed)
    try:
        mod = importlib.import_module("harness." + pid.lower())
        mod.run(ck)
    except (MachineryError, ImportError, MemoryError) as exc:
        traceback.print_exc()
        if not ck.n_viol:
            print("machinery error")
            return 2
    except Exception as exc:  # noqa: BLE001
        # raised by the code under test, or by a harness that could not read what the code under test returned
        traceback.print_exc()
        ck.violation("unexpected-exception", {"exception": f"{type(exc).__name__}: {exc}", "in_code_under_test": from_code_under_test(exc),
                                              "trace": traceback.format_exc()[-1500:]})
    return ck.finish()


def spread(draw, traits, num, rich=8):
    """num of rich * num drawn instances, such that as many traits, then pairs of traits, as possible are among them.

    traits(instance) is a dictionary."""
    pool = [draw() for _ in range(min(rich * num, num + 8000))]
    items = [sorted((str(k), str(v)) for k, v in traits(p).items()) for p in pool]
    chosen, seen = [], set()
    for size in (1, 2, 3) if num <= 2000 else (1, 2):
        for k, t in enumerate(items):
            if len(chosen) >= (num * (1 + size)) // 4 or k in chosen:
                continue
            new = set(itertools.combinations(t, size)) - seen
            if new:
                chosen.append(k)
                for n in (1, 2, 3):
                    seen.update(itertools.combinations(t, n))
    rest = [k for k in range(len(pool)) if k not in set(chosen)]
    return [pool[k] for k in sorted(chosen + rest[: num - len(chosen)])]


def features(J):
    """Traits of an instance for ``spread``: its options, and the sizes of what it holds."""

    def of(v):
        if v is None or isinstance(v, (bool, str)):
            return v if not isinstance(v, str) or not v[:1].isdigit() and v[:1] != "-" else (v in ("0", "0.0"), v.startswith("-"))
        if isinstance(v, (int, np.integer)):
            return (min(int(v), 4), int(v) % 2)
        if isinstance(v, (float, np.floating)):
            return (v == 0, v < 0)
        if isinstance(v, dict):
            return tuple(sorted((k, str(of(x))) for k, x in v.items()))
        n = len(v)
        if n and n < 4 and all(isinstance(x, (bool, int, str, np.integer)) for x in v):
            return tuple(str(of(x)) for x in v)
        return (min(n, 4), n % 2)

    return {k: of(v) for k, v in J.items()}


def laid(a):
    """The same values in another memory layout (decided by the values): rows, columns, every second element, backwards."""
    a = np.asarray(a)
    if a.ndim == 0 or not a.size:
        return a
    k = zlib.crc32(np.ascontiguousarray(a).tobytes()) % 8
    if k == 0:
        return np.asfortranarray(a)
    if k == 1:
        wide = np.full((*a.shape[:-1], 2 * a.shape[-1]), 77, a.dtype)
        wide[..., ::2] = a
        return wide[..., ::2]
    if k == 2:
        return np.ascontiguousarray(a[..., ::-1])[..., ::-1]
    if k == 3:
        return np.ascontiguousarray(a[::-1])[::-1]
    if k == 4 and a.ndim > 1:
        return np.moveaxis(np.ascontiguousarray(np.moveaxis(a, 0, -1)), -1, 0)
    return a
