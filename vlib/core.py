"""Check context: runs trace validation and model checking, collects coverage, prints
verdict lines and writes the evidence file."""
from __future__ import annotations

import json
import os
import random
import re
import tempfile
import time
import traceback
from pathlib import Path

from vlib import tlc
from vlib.pool import Hung

ROOT = Path(__file__).resolve().parent.parent
EVIDENCE = ROOT / "evidence"
REPLAYS = ROOT / "replays"
KNOWN = ROOT / "known_findings.json"


class Ctx:
    def __init__(self, prop: str, tier: str, seed: int) -> None:
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.violations: list[dict] = []
        self.known_hit: set[str] = set()
        self.samples: list = []
        self.notes: dict = {}
        self.assumptions: list[str] = []
        for old in REPLAYS.glob(f"{prop}-*.json"):
            old.unlink()
        self.known = {}
        if KNOWN.exists():
            for f in json.loads(KNOWN.read_text())["findings"]:
                if f["property"] == prop:
                    self.known[f["case"]] = f["what"]

    # -- helpers
    def rng(self, *salt) -> random.Random:
        return random.Random(repr((self.seed, self.prop, *salt)))

    def n(self, quick: int, thorough: int) -> int:
        if self.thorough:
            return thorough
        # only for tools/mutate.py: numbers of cases may be scaled down
        return max(10, int(quick * float(os.environ.get("VERIF_SCALE", "1")))) if quick >= 50 else quick

    def sample(self, obj) -> None:
        if len(self.samples) < 3:
            self.samples.append(obj)

    def note(self, key: str, value) -> None:
        self.notes[key] = value

    def count(self, key: str, n: int = 1) -> None:
        self.notes[key] = self.notes.get(key, 0) + n

    # -- reporting
    def violation(self, what: str, replay: dict, case: str | None = None) -> None:
        if case is not None and case in self.known:
            if case not in self.known_hit:
                self.known_hit.add(case)
                print(f"KNOWN-FINDING: property={self.prop} {case}: {self.known[case]}", flush=True)
            return
        REPLAYS.mkdir(exist_ok=True)
        path = REPLAYS / f"{self.prop}-{len(self.violations):03d}.json"
        path.write_text(json.dumps({"property": self.prop, "seed": self.seed, "tier": self.tier, "what": what,
                                    **replay}, indent=1, default=str))
        self.violations.append({"what": what, "replay": str(path)})
        if len(self.violations) <= 10:
            print(f"VIOLATION property={self.prop} replay={path}", flush=True)
            print(f"  {what[:600]}", flush=True)

    # -- TLC
    def model_check(self, module: str, constants: dict | None = None, *, invariants=(), properties=(), spec="Spec",
                    label: str | None = None, timeout: int = 800, **kw) -> tlc.TlcResult:
        r = tlc.run(module, constants or {}, spec=spec, invariants=invariants, properties=properties,
                    timeout=timeout, **kw)
        self.states += r.distinct
        self.transitions += r.generated
        self.note(f"model:{label or module}", {"states": r.distinct, "transitions": r.generated,
                                               "invariants": list(invariants) + list(properties)})
        return r

    def validate(self, module: str, records: list[dict], *, constants: dict | None = None, label: str | None = None,
                 replay: dict | None = None, case_of=None, timeout: int = 800, heap: str = "6g",
                 chunk: int = 4000) -> dict:
        """Check every record (one trace each, integer `id`) against the trace spec
        `module`.  The spec must print one VERDICT tuple per record.  `replay` maps
        id -> extra info stored with a violation."""
        out = {}
        total_states = 0
        for start in range(0, len(records), chunk):
            part = records[start:start + chunk]
            fd, name = tempfile.mkstemp(prefix="trace_", suffix=".ndjson")
            try:
                with os.fdopen(fd, "w") as f:
                    for r in part:
                        f.write(json.dumps(r) + "\n")
                res = tlc.run(module, {**(constants or {}), "TraceFile": f'"{name}"'}, timeout=timeout, heap=heap)
            finally:
                os.unlink(name)
            total_states += res.distinct
            self.states += res.distinct
            self.transitions += res.generated
            for v in res.tagged("VERDICT"):
                m = re.match(r'<<\s*"VERDICT",\s*(\d+),\s*"(\w+)"', v)
                if not m:
                    raise tlc.TlcError(f"unreadable verdict {v}")
                out.setdefault(int(m.group(1)), []).append((m.group(2), v))
        missing = [r["id"] for r in records if r["id"] not in out]
        if missing:
            raise tlc.TlcError(f"{module}: no verdict for traces {missing[:5]}")
        bad = 0
        for r in records:
            for verdict, text in out[r["id"]]:
                if verdict == "REJECT":
                    bad += 1
                    self.violation(f"{label or module}: {text}",
                                   {"verdict": text, "trace": r, **((replay or {}).get(r["id"], {}))},
                                   case=case_of(r) if case_of else None)
                    break
        self.traces += len(records)
        key = f"traces:{label or module}"
        old = self.notes.get(key, {"traces": 0, "states": 0, "rejected": 0})
        self.note(key, {"traces": old["traces"] + len(records), "states": old["states"] + total_states,
                        "rejected": old["rejected"] + bad})
        return out

    # -- end
    def finish(self, level: str = "model_checking") -> int:
        EVIDENCE.mkdir(exist_ok=True)
        noev = bool(os.environ.get("VERIF_NO_EVIDENCE"))  # scratch runs leave the evidence alone
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
            "coverage": {"states": self.states, "transitions": self.transitions,
                         "traces_validated_against_impl": self.traces,
                         "samples": self.samples, **self.notes},
            "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        if not noev:
            (EVIDENCE / f"{self.prop}.json").write_text(json.dumps(ev, indent=1, default=str) + "\n")
        stale = [c for c in self.known if c not in self.known_hit]
        for c in stale:
            print(f"note: known finding {c} was not reproduced in this run")
        print(f"{self.prop} {self.tier} seed={self.seed}: {self.traces} traces, {self.states} states, "
              f"{len(self.violations)} violations, {time.time() - self.t0:.1f}s")
        return 1 if self.violations else 0


def main(prop: str, tier: str, fn) -> int:
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = Ctx(prop, tier, seed)
    try:
        fn(ctx)
    except Hung as e:
        ctx.violation(str(e), {"job": e.job})
    except Exception:
        traceback.print_exc()
        if ctx.violations:
            ctx.finish()
            return 1
        return 2
    return ctx.finish()
