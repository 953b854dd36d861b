"""run.py <PROPERTY> <tier>: runs one check and gives its verdict."""

from __future__ import annotations

import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent))
import vlib  # noqa: E402

VERIF = vlib.VERIF
HANG = {"quick": 400, "thorough": 3000}  # seconds without a new case before the code counts as hanging


def known() -> list[dict]:
    """The findings that are recorded, not repaired."""
    f = VERIF / "known_findings.json"
    return json.loads(f.read_text()).get("known", []) if f.exists() else []


class Run:
    def __init__(self, prop: str, tier: str) -> None:
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        vlib.BUILD.mkdir(exist_ok=True)
        self.out = Path(tempfile.mkdtemp(prefix=f"run-{prop}-", dir=vlib.BUILD))
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "per_spec": {}}
        self.assumptions: list[str] = []
        self.violations = 0

    def evidence(self) -> None:
        ev = VERIF / "evidence"
        ev.mkdir(exist_ok=True)
        (ev / f"{self.prop}.json").write_text(json.dumps({
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": self.cov,
            "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": self.violations},
            indent=1))

    def violation(self, clause: str, spec: str, case, detail: str) -> int:
        rp = vlib.BUILD / "replay"
        rp.mkdir(exist_ok=True)
        label = case.get("label", "") if isinstance(case, dict) else str(case)
        path = rp / f"{self.prop}-{os.getpid()}.json"
        path.write_text(json.dumps({"property": self.prop, "tier": self.tier, "seed": self.seed, "clause": clause,
                                    "spec": spec, "case": case, "detail": detail[-6000:],
                                    "rerun": f"VERIF_SEED={self.seed} ./check.sh {self.prop} {self.tier}"}, indent=1, default=str))
        self.violations += 1
        self.evidence()
        print(f"violated clause: {spec}!{clause}  case: {label}")
        print(f"VIOLATION property={self.prop} replay={path}")
        return 1

    def generate(self):
        """Runs the real code in a child process; returns None or an exit code."""
        log = open(self.out / "log.txt", "w")  # noqa: SIM115
        p = subprocess.Popen([sys.executable, __file__, "--child", self.prop, self.tier, str(self.seed), str(self.out)],
                             stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
        status = self.out / "status.json"
        hang = HANG[self.tier]
        try:
            while True:
                try:
                    p.wait(1)
                    break
                except subprocess.TimeoutExpired:
                    pass
                last = status.stat().st_mtime if status.exists() else self.t0
                if time.time() - last > hang:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    st = json.loads(status.read_text())
                    return self.violation("Terminates", "driver", st, f"no answer within {hang} s")
        finally:
            if p.poll() is None:
                os.killpg(p.pid, signal.SIGKILL)
            log.close()
        text = (self.out / "log.txt").read_text()
        st = json.loads(status.read_text()) if status.exists() else {"label": "?"}
        if p.returncode == 0:
            return None
        if p.returncode == 70:
            return self.violation("NoException", "driver", st, (self.out / "exception.txt").read_text())
        if p.returncode == 72:
            return self.violation("WellFormed", "driver", st, (self.out / "exception.txt").read_text())
        if p.returncode < 0 and p.returncode != -signal.SIGKILL:
            return self.violation("NoCrash", "driver", st, f"died from signal {-p.returncode}\n{text}")
        print(text[-6000:])
        print(f"check {self.prop}: driver failed with {p.returncode} at {st.get('label')}")
        return 2

    def main(self) -> int:
        sys.path.insert(0, str(VERIF / "checks"))
        mod = importlib.import_module(f"c_{self.prop}")
        self.assumptions = list(getattr(mod, "ASSUMPTIONS", []))
        rc = self.generate()
        if rc is not None:
            if rc == 0:
                self.evidence()
            return rc
        budget = (850 if self.tier == "quick" else 7200) - (time.time() - self.t0)
        end = time.time() + budget
        # specifications explored on their own, without recorded cases
        for spec, cfg in getattr(mod, "DESIGN_SPECS", {}).get(self.tier, []):
            r = vlib.run_tlc(spec, None, self.out, end - time.time(), cfg=cfg)
            if not r.ok:
                print(r.text[-1500:])
                print(f"check {self.prop}: the specification {spec} itself fails ({r.clause})")
                return 2
            self.cov["states"] += r.states
            self.cov["transitions"] += r.generated
            self.cov["per_spec"][f"{spec}/{cfg}"] = {"states": r.states, "transitions": r.generated}
        total = 0
        for f in sorted(self.out.glob("*@*.json")):
            spec, kid = f.stem.split("@")
            entry = next((k for k in known() if k["id"] == kid and k["property"] == self.prop), None)
            cases = json.loads(f.read_text())
            r = vlib.run_tlc(spec, f, self.out, end - time.time())
            if r.machinery:
                print(r.text[-1500:])
                print(f"check {self.prop}: TLC failed on {spec}")
                return 2
            if not r.ok:
                case = cases[r.case - 1] if 0 < r.case <= len(cases) else {"label": "?"}
                if not entry or entry["clause"] != r.clause or case["label"] not in entry["cases"]:
                    return self.violation(r.clause, spec, case, r.text[-3000:])
                print(f"KNOWN-FINDING: property={self.prop} {entry['what']}")
        for f in sorted(self.out.glob("*.json")):
            if not (vlib.SPEC / f"{f.stem}.tla").exists():
                continue
            cases = json.loads(f.read_text())
            if not cases:
                continue
            r = vlib.run_tlc(f.stem, f, self.out, end - time.time())
            if r.machinery:
                print(r.text[-1500:])
                print(f"check {self.prop}: TLC failed on {f.stem}")
                return 2
            if not r.ok:
                case = cases[r.case - 1] if 0 < r.case <= len(cases) else {"label": "?"}
                i = r.text.find("Error:")
                return self.violation(r.clause, f.stem, case, json.dumps(r.last)[:3000] + "\n" + r.text[max(0, i):][:3000])
            total += len(cases)
            self.cov["states"] += r.states
            self.cov["transitions"] += r.generated
            self.cov["per_spec"][f.stem] = {"states": r.states, "transitions": r.generated, "cases": len(cases)}
            for cse in cases[:: max(1, len(cases) // 2)][:2]:
                s = json.dumps(cse)
                self.cov["samples"].append({"spec": f.stem, "case": s[:1200]})
        self.cov["traces_validated_against_impl"] = total
        if not total:
            print(f"check {self.prop}: no cases")
            return 2
        notes = self.out / "notes.json"
        if notes.exists():
            self.cov["notes"] = json.loads(notes.read_text())
        self.evidence()
        print(f"{self.prop} {self.tier}: {total} cases, {self.cov['states']} states, {time.time() - self.t0:.0f} s")
        return 0


if __name__ == "__main__":
    if sys.argv[1] == "--child":
        rc = vlib.child_main(sys.argv[2], sys.argv[3], int(sys.argv[4]), Path(sys.argv[5]))
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(rc)
    run = Run(sys.argv[1], sys.argv[2])
    try:
        code = run.main()
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(run.out, ignore_errors=True)
    sys.exit(code)
