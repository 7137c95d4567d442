"""C08: plates are independent replication; broadcasting of parents is only notation."""
import numpy as np
from vlib import zoo, dense as dn
from vlib.harness import Sub, require, close


def gen_rep(d):
    m = zoo.draw_model(d)
    m["R"] = d.int(1, 3)
    m["mode"] = d.int(0, 1)
    m["steps"] = [d.int(0, 7) for _ in range(d.int(1, 3))]
    return m


def compare(src, dst, index=None, copies=None, what=""):
    for i in dst.stoch:
        rec = dst.recs[i]
        if rec["own_t"] in ("cnt", "mn"):
            continue
        a = zoo.take_copy(src, dst, i, src.own_moments(i), index, copies)
        for k, (x, y) in enumerate(zip(a, dst.own_moments(i))):
            close(x, y, "%s: node %d (%s) moment %d" % (what, i, rec["op"], k),
                  rtol=1e-7, atol=1e-9)


def check_rep(case, R):
    n = case["R"]
    big = zoo.Model(case, R=n)
    big.init_random(case["seed"], mode=case["mode"])
    small = [zoo.Model(case, R=n, copy=k) for k in range(n)]
    lat = [i for i in range(len(big.recs)) if i in set(big.latents())]
    for k, s in enumerate(small):
        zoo.copy_parameters(big, s, index=k)
    for st in [None] + case["steps"]:
        if st is not None and lat:
            i = lat[st % len(lat)]
            big.nodes[i].update()
            for s in small:
                s.nodes[i].update()
        sc = big.Lscale()
        close(big.L(), sum(s.L() for s in small),
              "lower bound of the replicated model against the sum over separate models",
              rtol=1e-8, atol=1e-7, scale=sc)
        for k, s in enumerate(small):
            compare(big, s, index=k, what="copy %d" % k)
    R.nontrivial(n > 1 and len(lat) > 0)
    for r in big.recs:
        R.tag(r["op"])


def gen_tile(d):
    m = zoo.draw_model(d)
    m["steps"] = [d.int(0, 7) for _ in range(d.int(1, 3))]
    return m


def check_tile(case, R):
    """Constants given with missing/unit axes act as if written out in full."""
    a = zoo.Model(case)
    b = zoo.Model(case, tile=True)
    a.init_random(case["seed"])
    zoo.copy_parameters(a, b)
    lat = a.latents()
    for st in [None] + case["steps"]:
        if st is not None and lat:
            i = lat[st % len(lat)]
            a.nodes[i].update()
            b.nodes[i].update()
        close(a.L(), b.L(), "lower bound with broadcast against written-out constants",
              rtol=1e-8, atol=1e-7, scale=a.Lscale())
        compare(a, b, what="broadcast against written-out constants")
    R.nontrivial(len(lat) > 0 and any(
        "k" in p and p["plates"] != rec["plates"] for rec in case["nodes"] for p in rec["par"]))
    for r in a.recs:
        R.tag(r["op"])


def gen_perm(d):
    m = zoo.draw_model(d)
    m["R"] = d.int(2, 4)
    m["perm"] = d.perm(m["R"])
    m["sh"] = d.seed()
    m["steps"] = [d.int(0, 7) for _ in range(d.int(1, 3))]
    return m


def check_perm(case, R):
    """Reordering the entries of a plate only reorders the results."""
    n, perm = case["R"], case["perm"]
    sh = zoo.close_shared(case, case["sh"])
    a = zoo.Model(case, R=n, shared=sh)
    b = zoo.Model(case, R=n, shared=sh, copies=perm)
    a.init_random(case["seed"])
    zoo.copy_parameters(a, b, copies=perm)
    lat = a.latents()
    for st in [None] + case["steps"]:
        if st is not None and lat:
            i = lat[st % len(lat)]
            a.nodes[i].update()
            b.nodes[i].update()
        close(a.L(), b.L(), "lower bound after reordering a plate", rtol=1e-8, atol=1e-7,
              scale=a.Lscale())
        compare(a, b, copies=perm, what="reordered plate")
    R.nontrivial(len(lat) > 0 and perm != sorted(perm))
    R.tag("shared%d" % min(len(sh), 3))


SUBS = [
    Sub("replicate", gen_rep, check_rep, 3500, 100000,
        rule="counts when at least two copies were compared and a variable is unobserved"),
    Sub("broadcast", gen_tile, check_tile, 3000, 100000,
        rule="counts when some constant was broadcast and a variable is unobserved"),
    Sub("reorder", gen_perm, check_perm, 3000, 100000,
        rule="counts when the order really changed and a variable is unobserved"),
]
