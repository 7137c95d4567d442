#!/usr/bin/env python3
"""Development aid: turn an edit into a confirmed planted bug.

seed.py SPEC.py [id ...]     SPEC.py calls  bug(id, prop, [(file, old, new), ...], demo, needs, breaks)

For each bug: a scratch copy of /repo gets the edit; the stable tests must pass there, the demo
must succeed on /repo and fail on the copy.  Then seeded/<id>/ is written, and the property's check
is run against the copy (quick tier, seed 1) to say whether it is caught.
"""
import json, os, subprocess, sys, shutil, tempfile, time
from concurrent.futures import ThreadPoolExecutor
VERIF = "/verif"
bugs = []
def bug(id, prop, edits, demo, needs, breaks):
    bugs.append((id, prop, edits, demo, needs, breaks))
DEMO_SH = '#!/bin/bash\nhere=$(cd "$(dirname "$0")" && pwd)\n. /opt/vp/env.sh\nPYTHONPATH=$PWD exec $PY -W ignore "$here/demo.py"\n'
base = json.load(open('/opt/vp/BASELINE.json'))
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def go(b):
    id, prop, edits, demo, needs, breaks = b
    wt = tempfile.mkdtemp(prefix="wt_", dir="/tmp")
    try:
        sh("cp -a /repo/. %s" % wt)
        for (f, old, new) in edits:
            p = os.path.join(wt, f); s = open(p).read()
            if s.count(old) != 1:
                return id, "edit matches %d times in %s" % (s.count(old), f)
            open(p, "w").write(s.replace(old, new))
        patch = sh("git -C %s diff" % wt).stdout
        dd = os.path.join(wt, "_demo"); os.mkdir(dd)
        open(dd + "/demo.py", "w").write(demo); open(dd + "/demo.sh", "w").write(DEMO_SH)
        r0 = sh("bash %s/demo.sh" % dd, cwd="/repo"); r1 = sh("bash %s/demo.sh" % dd, cwd=wt)
        if r0.returncode != 0: return id, "demo fails on /repo: " + (r0.stdout + r0.stderr)[-600:]
        if r1.returncode == 0: return id, "demo passes with the bug: " + (r1.stdout + r1.stderr)[-300:]
        t = open("/opt/vp/test.sh").read().replace("/repo", wt)
        open(dd + "/test.sh", "w").write(t)
        sh("PYTHONPATH=%s bash %s/test.sh %s/out.json" % (wt, dd, dd))
        lost = set(base["stable"]) - set(json.load(open(dd + "/out.json"))["passed"])
        if lost: return id, "tests fail: %s" % sorted(lost)[:4]
        out = os.path.join(VERIF, "seeded", id); shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        open(out + "/patch.diff", "w").write(patch)
        open(out + "/demo.py", "w").write(demo); open(out + "/demo.sh", "w").write(DEMO_SH)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(out + "/meta.json", "w"), indent=1)
        t0 = time.time()
        r = sh("VERIF_REPO=%s VERIF_SEED=1 VERIF_TIER=quick VERIF_EVIDENCE=%s ./run %s" % (wt, dd, prop), cwd=VERIF)
        hit = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        return id, "rc=%d %s (%.0fs)%s" % (r.returncode, "CAUGHT" if r.returncode == 1 and hit else "MISSED", time.time() - t0, (" " + r.stdout[-400:]) if os.environ.get("V") else "")
    finally:
        shutil.rmtree(wt, ignore_errors=True)
if __name__ == "__main__":
    exec(open(sys.argv[1]).read())
    sel = [b for b in bugs if not sys.argv[2:] or b[0] in sys.argv[2:]]
    with ThreadPoolExecutor(int(os.environ.get("J", "2"))) as ex:
        for r in ex.map(go, sel): print(*r, flush=True)
