"""Entry point: python -m vlib.main <property> | --replay FILE | --list"""
from . import env  # noqa: first
import importlib
import json
import multiprocessing as mp
import os
import sys
import time

from . import harness


def load_property(pid):
    mod = importlib.import_module("checks.%s" % pid.lower())
    return mod


def known_findings(pid):
    path = os.path.join(env.VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [k for k in data["findings"] if k["property"] == pid]


_MOD = None
_CTX = {}


def _work(task):
    (name, shard, n) = task
    sub = _CTX["subs"][name]
    try:
        return harness.run_shard(sub, _CTX["seed"], shard, n, _CTX["deadline"],
                                 getattr(_MOD, "excluded", None))
    except BaseException as e:  # pragma: no cover
        import traceback
        return dict(sub=name, evaluations=0, keys=set(), skipped=0, excluded=0, trivial=0,
                    tags={}, samples=[], failure=None, timeout=False, wall=0,
                    error="".join(traceback.format_exception(e)))


def replay(path):
    global _MOD
    with open(path) as f:
        r = json.load(f)
    _MOD = load_property(r["property"])
    subs = {s.name: s for s in _MOD.SUBS}
    status, msg, R = harness.evaluate(subs[r["sub"]], r["case"])
    if status == "violation":
        print(msg)
        print("VIOLATION property=%s replay=%s" % (r["property"], path))
        return 1
    print("replay: %s" % status)
    return 0


def run(pid):
    global _MOD
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    only = os.environ.get("VERIF_SUB")
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    budget = float(os.environ.get("VERIF_BUDGET", "240" if tier == "quick" else "3600"))

    with harness.quiet():
        _MOD = load_property(pid)
    subs = {s.name: s for s in _MOD.SUBS}
    if only:
        subs = {k: v for k, v in subs.items() if k in only.split(",")}
    _CTX.update(subs=subs, seed=seed, deadline=t0 + budget)

    nproc = int(os.environ.get("VERIF_PROCS", "0")) or min(8, os.cpu_count() or 8)
    tasks = []
    for s in subs.values():
        n = int(max(1, round((s.quick if tier == "quick" else s.thorough) * scale)))
        k = s.shards or min(nproc, max(1, n // 8))
        base, extra = divmod(n, k)
        for i in range(k):
            m = base + (1 if i < extra else 0)
            if m:
                tasks.append((s.name, i, m))
    # Long ones first
    tasks.sort(key=lambda t: -t[2] * subs[t[0]].weight)
    if nproc == 1:
        results = [_work(t) for t in tasks]
    else:
        from concurrent.futures import ProcessPoolExecutor, as_completed
        ctx = mp.get_context("fork")
        with ProcessPoolExecutor(nproc, mp_context=ctx) as pool:
            results = [f.result() for f in as_completed([pool.submit(_work, t)
                                                         for t in tasks])]

    # Known findings: re-run the listed inputs
    findings = 0
    for k in known_findings(pid):
        if k.get("status", "open") != "open" or k["sub"] not in subs:
            continue
        status, msg, _ = harness.evaluate(subs[k["sub"]], k["case"])
        if status == "violation":
            findings += 1
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        else:
            print("note: known finding no longer reproduces: %s" % k["what"])

    agg = {}
    errors = []
    failures = {}
    for r in results:
        a = agg.setdefault(r["sub"], dict(evaluations=0, keys=set(), skipped=0, excluded=0,
                                          trivial=0, tags={}, samples=[], timeout=False,
                                          wall=0.0))
        a["evaluations"] += r["evaluations"]
        a["keys"] |= r["keys"]
        a["skipped"] += r["skipped"]
        a["excluded"] += r["excluded"]
        a["trivial"] += r["trivial"]
        a["timeout"] |= r["timeout"]
        a["wall"] += r["wall"]
        for k, v in r["tags"].items():
            a["tags"][k] = a["tags"].get(k, 0) + v
        if len(a["samples"]) < 2:
            a["samples"] += r["samples"][:1]
        if r["error"]:
            errors.append((r["sub"], r["error"]))
        if r["failure"]:
            f = failures.get(r["sub"])
            if f is None or len(json.dumps(r["failure"]["case"])) < len(json.dumps(f["case"])):
                failures[r["sub"]] = r["failure"]

    total = sum(a["evaluations"] for a in agg.values())
    distinct = sum(len(a["keys"]) for a in agg.values())
    wall = time.time() - t0
    evidence = dict(
        property=pid, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=total,
            distinct_nontrivial=distinct,
            rule=getattr(_MOD, 'RULE', None) or '; '.join(
                '%s: %s' % (x.name, x.rule) for x in subs.values()),
            samples=[dict(sub=n, case=s) for n, a in agg.items() for s in a["samples"]][:12],
            per_check={n: dict(evaluations=a["evaluations"], distinct_nontrivial=len(a["keys"]),
                               trivial=a["trivial"], out_of_domain=a["skipped"],
                               excluded_known=a["excluded"], classes=dict(sorted(a["tags"].items())),
                               cpu_s=round(a["wall"], 2), time_budget_hit=a["timeout"],
                               rule=subs[n].rule)
                       for n, a in sorted(agg.items())},
            known_findings_reproduced=findings,
        ),
        assumptions=getattr(_MOD, "ASSUMPTIONS", []),
        wall_s=round(wall, 2),
        violations=len(failures),
    )
    os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
    if not only:
        with open(os.path.join(env.VERIF, "evidence", "%s.json" % pid), "w") as f:
            json.dump(evidence, f, indent=1, default=str)

    for n, a in sorted(agg.items()):
        print("%-34s %6d cases %6d non-trivial %5d skipped%s  cpu %.1fs%s"
              % (n, a["evaluations"], len(a["keys"]), a["skipped"],
                 " %d excluded" % a["excluded"] if a["excluded"] else "", a["wall"],
                 "  TIME BUDGET HIT" if a["timeout"] else ""))
        if os.environ.get("VERIF_TAGS"):
            print("      ", dict(sorted(a["tags"].items())))
    print("%s tier=%s seed=%d: %d cases, %d distinct non-trivial, %.1f s"
          % (pid, tier, seed, total, distinct, wall))

    rc = 0
    if failures:
        rdir = os.path.join(env.VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        for n, f in failures.items():
            path = os.path.join(rdir, "%s_%s_%s.json" % (pid, n, harness.case_key(f["case"])))
            with open(path, "w") as g:
                json.dump(dict(property=pid, sub=n, case=f["case"], message=f["message"],
                               seed=seed, tier=tier), g, indent=1)
            print("--- %s/%s\n%s\ncase: %s" % (pid, n, f["message"][:4000], json.dumps(f["case"])))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        rc = 1
    elif errors:
        for n, e in errors[:5]:
            print("HARNESS ERROR in %s/%s\n%s" % (pid, n, e), file=sys.stderr)
        rc = 2
    return rc


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        rc = replay(sys.argv[2])
    else:
        rc = run(sys.argv[1])
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc) if mp.current_process().name != "MainProcess" else sys.exit(rc)
