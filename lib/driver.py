"""Common machinery of the checks: sharding, comparison runs, evidence, verdicts."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

import build

VERIF = build.VERIF
NPROC = min(8, os.cpu_count() or 1)
RS, US = "\x1e", "\x1f"


class Run:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.cov = {}
        self.violations = []          # dicts with at least a 'what'
        self.samples = []
        self.assumptions = []
        self.complete = True
        self.level = "model_checking"
        self.tmp = tempfile.mkdtemp(prefix="vf-%s-" % pid, dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
        self.outcomes = set()

    def add(self, k, n):
        self.cov[k] = self.cov.get(k, 0) + n

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    with open(p) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == pid]


def compare(run, programs, maxviol=4, harness="vrun", args=(), label=""):
    """programs: iterable of str, or (str, expected).  Shards them round robin over
    NPROC vrun processes and folds the results into run."""
    if harness == "vcli":
        exe = [build.build_tool("vcli"), build.build_cli()]
    else:
        exe = [build.build(harness)]
    files = [open(os.path.join(run.tmp, "p%d" % i), "wb") for i in range(NPROC)]
    n = 0
    for p in programs:
        if isinstance(p, tuple):
            p = p[0] + US + p[1]
        files[(n * 2654435761 >> 13) % NPROC].write(p.encode("latin-1") + b"\x1e")
        n += 1
    procs = []
    for i, f in enumerate(files):
        f.close()
        d = os.path.join(run.tmp, "cwd%d" % i)
        os.makedirs(d, exist_ok=True)
        r = os.path.join(run.tmp, "r%d" % i)
        procs.append((subprocess.Popen([*exe, f.name, r, "--maxviol", str(maxviol), *args], cwd=d,
                                       stdout=subprocess.DEVNULL, stderr=subprocess.PIPE), r))
    for pr, r in procs:
        err = pr.communicate()[1]
        if pr.returncode != 0:
            raise RuntimeError("%s exited %s: %s" % (harness, pr.returncode, err[-500:]))
        with open(r, encoding="latin-1") as f:
            d = json.load(f)
        for k in ("programs", "compared", "skipped", "steps", "states", "evals", "callcc", "contcalls", "throws", "winds", "errs", "flaky"):
            run.add(k, d.get(k, 0))
        for k, v in d.get("extra", {}).items():
            run.add(k, v)
        for k, v in d.get("why", {}).items():
            w = run.cov.setdefault("skipped_because", {})
            w[k] = w.get(k, 0) + v
        run.outcomes.update(d["outcomes"])
        run.samples += d["samples"][:1]
        if d["capped"]:
            run.complete = False
        for v in d["violations"]:
            v["label"] = label
            run.violations.append(v)
    return n


def minimise_order(vs):
    return sorted(vs, key=lambda v: (len(v.get("program", "")), v.get("program", "")))


def finish(run, exhaustive=None, extra=None):
    kf = known_findings(run.pid)
    rest, hit = [], {}
    for v in run.violations:
        for k in kf:
            if "program" in v and v["program"] in k.get("programs", []):
                hit.setdefault(k["id"], k)
                break
        else:
            rest.append(v)
    cov = dict(run.cov)
    cov.pop("evals", None)
    out = {
        "states": cov.pop("states", 0),
        "transitions": cov.pop("steps", 0),
        "traces_validated_against_impl": cov.pop("compared", 0),
        "samples": (run.samples or ["(none)"])[:8],
        "distinct_outcomes": len(run.outcomes),
    }
    out.update(cov)
    if extra:
        out.update(extra)
    out["exhaustive"] = bool(run.complete and not rest if exhaustive is None else exhaustive and run.complete)
    ev = {"property": run.pid, "tier": run.tier, "seed": run.seed, "level": run.level, "coverage": out,
          "assumptions": run.assumptions, "wall_s": round(time.time() - run.t0, 2), "violations": len(rest)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", run.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k in hit.values():
        print("KNOWN-FINDING: property=%s %s" % (run.pid, k["what"]))
    run.close()
    if rest:
        d = os.path.join(VERIF, "build", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, run.pid + ".json")
        rest = minimise_order(rest)
        with open(p, "w") as f:
            json.dump(rest, f, indent=1)
        for v in rest[:5]:
            print("  " + json.dumps(v)[:1500])
        print("VIOLATION property=%s replay=%s" % (run.pid, p))
        return 1
    c = ev["coverage"]
    print("OK property=%s tier=%s programs=%s compared=%s states=%s wall=%ss" % (
        run.pid, run.tier, c.get("programs"), c.get("traces_validated_against_impl"), c.get("states"), ev["wall_s"]))
    return 0
