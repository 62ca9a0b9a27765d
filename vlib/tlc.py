"""Run TLC on a module of /verif/spec and parse its verdict lines."""
from __future__ import annotations

import os
import re
import shutil
import subprocess
import tempfile
from pathlib import Path

SPEC_DIR = Path(__file__).resolve().parent.parent / "spec"
JAR = "/opt/veriftools/tla/tla2tools.jar"


def _classpath() -> str:
    jars = [JAR]
    base = Path("/opt/veriftools/tla")
    for p in sorted(base.glob("*.jar")):
        if str(p) != JAR:
            jars.append(str(p))
    return ":".join(jars)


class TlcError(RuntimeError):
    pass


class TlcResult:
    def __init__(self, out: str, rc: int) -> None:
        self.out = out
        self.rc = rc
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated = int(m.group(1)) if m else 0
        self.distinct = int(m.group(2)) if m else 0

    def tagged(self, tag: str) -> list[str]:
        """All tuples printed with PrintT whose first element is `tag`."""
        return extract_tuples(self.out, tag)


def extract_tuples(out: str, tag: str) -> list[str]:
    res = []
    key = f'<<"{tag}"'
    key2 = f'<< "{tag}"'
    lines = out.splitlines()
    i = 0
    while i < len(lines):
        ln = lines[i]
        if ln.startswith(key) or ln.startswith(key2):
            buf = ln
            while buf.count("<<") > buf.count(">>") and i + 1 < len(lines):
                i += 1
                buf += " " + lines[i].strip()
            res.append(buf)
        i += 1
    return res


def run(module: str, constants: dict[str, str], *, spec: str = "Spec", invariants=(), properties=(),
        postcondition: str | None = None, extra_cfg: str = "", workers: int = 8, heap: str = "6g",
        timeout: int = 800, simulate: str | None = None, depth: int | None = None, seed: int | None = None,
        check_deadlock: bool = False, files: dict[str, str] | None = None, allow_violation: bool = False,
        coverage: bool = False) -> TlcResult:
    tmp = Path(tempfile.mkdtemp(prefix="tlc_"))
    try:
        for f in SPEC_DIR.glob("*.tla"):
            shutil.copy(f, tmp / f.name)
        for name, text in (files or {}).items():
            (tmp / name).write_text(text)
        cfg = [f"SPECIFICATION {spec}"]
        for k, v in constants.items():
            cfg.append(f"CONSTANT {k} = {v}")
        for i in invariants:
            cfg.append(f"INVARIANT {i}")
        for p in properties:
            cfg.append(f"PROPERTY {p}")
        if postcondition:
            cfg.append(f"POSTCONDITION {postcondition}")
        if extra_cfg:
            cfg.append(extra_cfg)
        (tmp / "M.cfg").write_text("\n".join(cfg) + "\n")
        cmd = ["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC", "-cp", _classpath(), "tlc2.TLC",
               "-config", "M.cfg", "-workers", str(workers), "-metadir", str(tmp / "meta"), "-nowarning"]
        if not check_deadlock:
            cmd.append("-deadlock")
        if simulate:
            cmd += ["-simulate", simulate]
        if depth:
            cmd += ["-depth", str(depth)]
        if seed is not None:
            cmd += ["-seed", str(seed)]
        if coverage:
            cmd += ["-coverage", "1"]
        cmd.append(module)
        try:
            p = subprocess.run(cmd, cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=timeout, env={**os.environ, "LC_ALL": "C.UTF-8"})
        except subprocess.TimeoutExpired as e:
            raise TlcError(f"TLC timed out on {module}") from e
        res = TlcResult(p.stdout, p.returncode)
        if p.returncode != 0 and not allow_violation:
            raise TlcError(f"TLC failed on {module} (rc={p.returncode}):\n{p.stdout[-6000:]}")
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
