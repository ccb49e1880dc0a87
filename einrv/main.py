"""./check <property> quick|thorough   or   ./check <property> --replay FILE"""
from __future__ import annotations

import collections
import hashlib
import json
import os
import sys
import time

from . import checks, pool

VERIF = pool.VERIF
EVID = os.path.join(VERIF, "evidence")


def load_findings(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [f for f in json.load(open(path))["findings"] if f["property"] == pid and f["status"] == "known"]


def matches(finding, v):
    """a finding is identified by the text of the failing program/case"""
    m = finding.get("match", {})
    info = v.get("info", {})
    return bool(m) and all(info.get(k) == w or (k == "workload" and v["workload"] == w) for k, w in m.items())


def main(argv):
    if argv[0] == "--selftest":
        import ein

        import einrv.ref, einrv.shadow  # noqa

        print("ready:", os.path.dirname(ein.__file__))
        return 0
    pid, mode = argv[0], argv[1]
    check = checks.CHECKS[pid]
    t0 = time.time()
    if mode == "--replay":
        rep = json.load(open(argv[2]))
        tier = rep.get("tier", "quick")
        jobs = [dict(check=pid, workload=rep["workload"], lo=rep["index"], hi=rep["index"] + 1, seed=rep["seed"], tier=tier)]
        seed = rep["seed"]
        replaying = True
    else:
        tier = mode
        seed = int(os.environ.get("VERIF_SEED", "1"))
        jobs = check.jobs(pid, tier, seed, float(os.environ.get("EINRV_SCALE", "1")))
        replaying = False
    cores = min(8, os.cpu_count() or 8)
    limit = float(os.environ.get("EINRV_DEADLINE", "420" if tier == "quick" else "3000"))
    counts, keys, samples, viols, errors = collections.Counter(), set(), [], [], []
    per = collections.defaultdict(collections.Counter)

    def on_result(job, r):
        counts.update(r["counts"])
        per[job["workload"]].update(r["counts"])
        keys.update(r["keys"])
        if len([s for s in samples if s["workload"] == job["workload"]]) < 2:
            samples.extend(dict(workload=job["workload"], case=s) for s in r["samples"])
        viols.extend(r["violations"])
        errors.extend(r["errors"])
        return len(viols) >= int(os.environ.get("EINRV_MAXV", "20"))

    def on_lost(job, why):
        viols.append(dict(check=pid, workload=job["workload"], index=job["lo"], seed=job["seed"], tier=tier,
                          detail=f"process evaluating cases {job['lo']}..{job['hi']-1} of {job['workload']} was lost twice: {why}",
                          info={}))

    left = pool.run_jobs(jobs, cores, t0 + limit, check.job_timeout, on_result, on_lost)
    known, new = [], []
    findings = load_findings(pid)
    for v in viols:
        f = next((f for f in findings if matches(f, v)), None)
        (known.append((f, v)) if f else new.append(v))
    os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
    evaluations = counts["evaluations"]
    ev = dict(
        property=pid, tier="thorough" if tier == "thorough" else "quick", seed=int(seed), level="exploration",
        coverage=dict(
            evaluations=evaluations, distinct_nontrivial=len(keys), rule=check.rule, samples=samples[:8] or [{"note": "none"}],
            events={k: n for k, n in sorted(counts.items())},
            per_workload={k: dict(sorted(c.items())) for k, c in sorted(per.items())},
            jobs_not_started=left, harness_errors=errors[:3],
        ),
        assumptions=check.assumptions, wall_s=round(time.time() - t0, 2), violations=len(new),
    )
    if not replaying:
        tmp = os.path.join(EVID, f".{pid}.tmp")
        with open(tmp, "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
        os.replace(tmp, os.path.join(EVID, f"{pid}.json"))
    for f, v in {id(f): (f, v) for f, v in known}.values():
        print(f"KNOWN-FINDING: property={pid} {f['what']}")
    print(f"{pid} {tier}: {evaluations} evaluations, {len(keys)} distinct non-trivial, "
          f"{sum(n for k, n in counts.items() if k.startswith('skipped'))} skipped, {counts['harness_error']} harness errors, "
          f"{len(new)} violations, {time.time()-t0:.1f} s, {left} jobs not started")
    for v in new[:int(os.environ.get("EINRV_SHOW", "5"))]:
        h = hashlib.blake2b(json.dumps(v, default=str, sort_keys=True).encode(), digest_size=6).hexdigest()
        path = os.path.join(EVID, "replays", f"{pid}-{h}.json")
        json.dump(v, open(path, "w"), indent=1, default=str)
        print(f"  {v['workload']}[{v['index']}]: {v['detail']}"[:400])
        print(f"VIOLATION property={pid} replay={path}")
    if new:
        return 1
    for e in errors[:2]:
        print("harness error:", e)
    # harness errors on a few cases are tolerated (an internal entry point may have moved); a check that saw nothing has no verdict
    if not evaluations:
        print(f"{pid}: nothing was observed")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
