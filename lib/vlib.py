"""Shared machinery of the checks: recording of cases from the real code, TLC runs, verdicts, evidence."""

from __future__ import annotations

import hashlib
import importlib.util
import json
import os
import random
import re
import shutil
import subprocess
import sys
import sysconfig
import time
import traceback
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
SPEC = VERIF / "spec"
BUILD = VERIF / "build"
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Refused(Exception):
    """The code under test raised; carries the text."""


def bits(v) -> int:
    """0/1 vector -> integer mask, position i is bit i."""
    m = 0
    for i, b in enumerate(v):
        if int(b) & 1:
            m |= 1 << i
    return m


def vec(v) -> list[int]:
    return [int(x) for x in v]


def mat(m) -> list[list[int]]:
    return [[int(x) for x in r] for r in m]


class Ctx:
    """Given to the generator of a check; collects the cases that TLC judges."""

    def __init__(self, prop: str, tier: str, seed: int, out: Path) -> None:
        self.prop, self.tier, self.seed, self.out = prop, tier, seed, out
        self.quick = tier == "quick"
        self.rng = random.Random(f"{prop}-{seed}")
        self.cases: dict[str, list[dict]] = {}
        self.status = out / "status.json"
        self.scratch = out / "scratch"
        self.scratch.mkdir(parents=True, exist_ok=True)
        self.notes: list[str] = []

    def begin(self, label: str, **info) -> None:
        """Names what runs now, so that a crash or a hang of the code can be reported."""
        self.label = label
        self.status.write_text(json.dumps({"label": label, "info": info, "t": time.time()}, default=str))

    def add(self, spec: str, label: str | None = None, known: str | None = None, **case) -> None:
        """One case for TLC. known: identifies the entry of known_findings.json that describes its failure."""
        case["label"] = label or self.label
        self.cases.setdefault(f"{spec}@{known}" if known else spec, []).append(case)

    def attempt(self, fn, *a, **k):
        """(True, value) or (False, 'Type: message') when the code raises."""
        try:
            return True, fn(*a, **k)
        except (Exception, SystemExit) as e:  # noqa: BLE001
            return False, f"{type(e).__name__}: {e}"[:200]

    def dump(self) -> None:
        for name, cs in self.cases.items():
            (self.out / f"{name}.json").write_text(json.dumps(cs))
        (self.out / "notes.json").write_text(json.dumps(self.notes))


# ------------------------------------------------------------------ building the C++ part


def _tree_hash(paths) -> str:
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(str(p).encode())
        h.update(p.read_bytes())
    return h.hexdigest()[:20]


def _cxx_sources():
    src = REPO / "src"
    return sorted([*src.glob("*.cpp"), *(src / "ecc").glob("*.cpp"), *(src / "python").glob("*.cpp")])


def _run(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


INC_BASE = ["/opt/deps/mqt_core-2.7.0/include/mqt-core"]


def _core():
    """Include directory and static libraries of mqt-core as build.sh left them, or None."""
    b = Path("/opt/build/py/_deps/mqt-core-build/src")
    libs = [b / "libmqt-core-python.a", b / "ir" / "libmqt-core-ir.a"]
    return (b / "ir", libs) if all(p.exists() for p in libs) else None


def build_pyqecc() -> Path:
    """Compiles the extension module from /repo's current tree."""
    hdrs = list((REPO / "include").rglob("*.hpp"))
    key = _tree_hash(_cxx_sources() + hdrs)
    out = BUILD / f"pyqecc-{key}"
    so = out / ("pyqecc" + sysconfig.get_config_var("EXT_SUFFIX"))
    if so.exists():
        return so
    tmp = BUILD / f"tmp-{os.getpid()}"
    tmp.mkdir(parents=True, exist_ok=True)
    core = _core()
    ok = False
    log = ""
    if core:
        import pybind11  # noqa: F401  (only to fail early when it is missing)

        inc = [REPO / "include", *INC_BASE, core[0]]
        sysinc = [sysconfig.get_paths()["include"], Path(pybind11.__file__).parent / "include"]
        flags = ["-O1", "-DNDEBUG", "-fPIC", "-fvisibility=hidden", "-DMQT_CORE_IR_STATIC_DEFINE", "-DZ3_FOUND",
                 "-Dpyqecc_EXPORTS", "-w", "-std=gnu++17"]
        flags += [f"-I{i}" for i in inc] + [f"-isystem{i}" for i in sysinc]

        def comp(s: Path):
            o = tmp / (s.parent.name + "_" + s.stem + ".o")
            return o, _run(["g++", *flags, "-c", str(s), "-o", str(o)])

        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(comp, sorted(_cxx_sources(), key=lambda s: -s.stat().st_size)))
        bad = [r.stderr for _, r in res if r.returncode]
        if not bad:
            r = _run(["g++", "-shared", "-flto=auto", "-O1", "-fPIC", "-o", str(tmp / so.name), *[str(o) for o, _ in res],
                      *[str(x) for x in core[1]]])
            ok = r.returncode == 0
            log = r.stderr
        else:
            log = "\n".join(bad)
    if not ok:
        bd = tmp / "cmake"
        r = _run(["bash", "-c", f". /opt/vp/env.inc; cmake -G Ninja -S {REPO} -B {bd} -DCMAKE_BUILD_TYPE=Release "
                  f"-DBUILD_MQT_QECC_BINDINGS=ON $OFFLINE && cmake --build {bd} --target pyqecc"])
        found = list(bd.rglob("pyqecc*.so"))
        if r.returncode or not found:
            shutil.rmtree(tmp, ignore_errors=True)
            msg = "pyqecc does not build\n" + log[-3000:] + r.stdout[-3000:] + r.stderr[-2000:]
            raise RuntimeError(msg)
        shutil.copy(found[0], tmp / so.name)
    out.mkdir(parents=True, exist_ok=True)
    os.replace(tmp / so.name, so)
    shutil.rmtree(tmp, ignore_errors=True)
    return so


def load_pyqecc():
    """Loads the freshly built extension in place of an installed one."""
    so = build_pyqecc()
    spec = importlib.util.spec_from_file_location("pyqecc", so)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    sys.modules["mqt.qecc.pyqecc"] = mod
    return mod


def build_harness(source: Path, link_core: bool = False) -> Path:
    """Compiles a C++ harness of ours against /repo's headers and library sources."""
    srcs = sorted((REPO / "src").glob("*.cpp"))
    hdrs = list((REPO / "include").rglob("*.hpp"))
    key = _tree_hash([source, *srcs, *hdrs])
    exe = BUILD / f"{source.stem}-{key}"
    if exe.exists():
        return exe
    tmp = BUILD / f"tmp-{os.getpid()}"
    tmp.mkdir(parents=True, exist_ok=True)
    flags = ["-O1", "-w", "-std=gnu++17", f"-I{REPO / 'include'}"]

    def comp(s: Path):
        o = tmp / (s.stem + ".o")
        return o, _run(["g++", *flags, "-c", str(s), "-o", str(o)])

    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(comp, [source, *srcs]))
    bad = [r.stderr for _, r in res if r.returncode]
    if bad:
        msg = "harness does not build\n" + "\n".join(bad)[-3000:]
        raise RuntimeError(msg)
    r = _run(["g++", "-o", str(tmp / "exe"), *[str(o) for o, _ in res]])
    if r.returncode:
        raise RuntimeError(r.stderr)
    os.replace(tmp / "exe", exe)
    shutil.rmtree(tmp, ignore_errors=True)
    return exe


# ------------------------------------------------------------------ TLC


class TlcResult:
    def __init__(self) -> None:
        self.ok = False
        self.clause = ""
        self.case = 0
        self.states = self.generated = 0
        self.text = ""
        self.machinery = False
        self.last: dict = {}


def run_tlc(spec: str, cases: Path | None, work: Path, timeout: float, cfg: str | None = None, extra=(), env=None,
            workers="auto") -> TlcResult:
    work.mkdir(parents=True, exist_ok=True)
    meta = work / f"meta-{spec}"
    trace = work / f"trace-{spec}.json"
    trace.unlink(missing_ok=True)
    e = dict(os.environ)
    if cases:
        e["CASES"] = str(cases)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx12g", "-Xss256m", f"-Djava.io.tmpdir={work}", "-cp", TLA_CP, "tlc2.TLC", "-config",
           cfg or f"{spec}.cfg", "-workers", str(workers), "-metadir", str(meta), "-noGenerateSpecTE", "-dumpTrace",
           "json", str(trace), *extra, f"{spec}.tla"]
    r = TlcResult()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout, check=False)
    except subprocess.TimeoutExpired:
        r.machinery, r.text = True, f"TLC on {spec} ran out of its {timeout:.0f} s"
        return r
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    r.text = p.stdout + p.stderr
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", r.text)
    for m in re.finditer(r"(\d+) states generated.*?, (\d+) distinct states found", r.text):
        r.generated, r.states = int(m.group(1)), int(m.group(2))
    if p.returncode == 0 and "No error has been found" in r.text:
        r.ok = True
        return r
    m = re.search(r"Invariant (\w+) is violated", r.text) or re.search(r"Error: (?:Action property|Temporal properties?) (\w+)", r.text)
    if m:
        r.clause = m.group(1)
    elif "Deadlock reached" in r.text:
        r.clause = "TraceAccepted"
    elif re.search(r"OutOfMemory|StackOverflow|Parsing or semantic|Could not|cannot find|Unknown operator|was not found", r.text):
        r.machinery = True
        return r
    else:
        r.clause = "WellFormed"
    if trace.exists():
        try:
            d = json.loads(trace.read_text())
            st = d.get("state") or d.get("states") or d
            if isinstance(st, list) and st:
                last = st[-1]
                while isinstance(last, list):
                    last = next((x for x in last if isinstance(x, dict)), {})
                r.last = last
                r.case = int(last.get("c", 0))
        except Exception:  # noqa: BLE001
            pass
    if not r.case:
        ms = re.findall(r"(?:/\\ )?\bc = (\d+)", r.text)
        if ms:
            r.case = int(ms[-1])
    if r.clause == "WellFormed" and not r.case:
        r.machinery = True
    return r


def child_main(prop: str, tier: str, seed: int, out: Path) -> int:
    """Runs the generator of a check (in a process of its own)."""
    sys.path.insert(0, str(VERIF / "lib"))
    sys.path.insert(0, str(VERIF / "checks"))
    ctx = Ctx(prop, tier, seed, out)
    ctx.begin("start")
    mod = importlib.import_module(f"c_{prop}")
    ctx.scratch.mkdir(parents=True, exist_ok=True)
    os.chdir(ctx.scratch)  # whatever is written below the working directory is removed with the rest
    try:
        mod.generate(ctx)
    except Exception as e:  # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        (out / "exception.txt").write_text(traceback.format_exc())
        if any(f.filename.startswith(str(REPO) + "/") for f in tb) or type(e).__module__.startswith("mqt"):
            return 70  # raised by the code under test
        if isinstance(e, (ValueError, TypeError, IndexError, KeyError, ArithmeticError)):
            return 72  # what the code under test returned cannot be read as a result of its kind
        traceback.print_exc()
        return 71
    ctx.dump()
    return 0
