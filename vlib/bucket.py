"""Development aid: collect every distinct failure of a sub-check (no shrinking).
python -m vlib.bucket C04 zoo 2000"""
from . import env  # noqa
import sys, json, re, collections, importlib, os
import multiprocessing as mp
from . import harness

def work(a):
    pid, name, n, shard = a
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase, strategies as st
    mod = importlib.import_module("checks." + pid.lower())
    sub = {s.name: s for s in mod.SUBS}[name]
    out = {}
    cnt = collections.Counter()
    excl = getattr(mod, "excluded", None)
    @st.composite
    def cases(draw):
        return sub.gen(harness.Draw(draw))
    @hypothesis.seed(shard)
    @settings(max_examples=n, deadline=None, database=None, phases=[Phase.generate],
              suppress_health_check=list(HealthCheck))
    @given(cases())
    def body(case):
        if excl and excl(name, case):
            cnt["excluded"] += 1; return
        try:
            st_, msg, R = harness.evaluate(sub, case)
        except harness.HarnessError as e:
            st_, msg = "violation", "HARNESS " + str(e)[-600:]
        cnt[st_] += 1
        if st_ == "violation":
            key = re.sub(r"[-+]?\d[\d.e+-]*", "#", msg.split("\n")[0])[:160]
            size = len(json.dumps(case))
            c, s, cs, m = out.get(key, (0, 1e9, None, None))
            if size < s: s, cs, m = size, case, msg
            out[key] = (c + 1, s, cs, m)
    body()
    return out, cnt

if __name__ == "__main__":
    pid, name, n = sys.argv[1], sys.argv[2], int(sys.argv[3])
    base = int(sys.argv[4]) if len(sys.argv) > 4 else 0
    with mp.Pool(8) as p:
        rs = p.map(work, [(pid, name, n // 8, base + i) for i in range(8)], chunksize=1)
    tot = {}; cnt = collections.Counter()
    for o, c in rs:
        cnt += c
        for k, v in o.items():
            t = tot.get(k)
            if t is None: tot[k] = v
            else: tot[k] = (t[0] + v[0],) + (v[1:] if v[1] < t[1] else t[1:])
    print(dict(cnt))
    for k, v in sorted(tot.items(), key=lambda kv: -kv[1][0]):
        print("=== %d x %s\n%s\n%s" % (v[0], k, v[3][:int(os.environ.get("MSG","700"))], json.dumps(v[2])))
