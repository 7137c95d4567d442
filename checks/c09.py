"""C09: masked-out observations have no influence at all."""
import numpy as np
from vlib import zoo, dense as dn
from vlib.harness import Sub, require, close
from checks.c08 import compare


def gen(d):
    m = zoo.draw_model(d)
    for o in m["obs"]:
        if d.bool(2, 3):
            o["mask"] = dict(shape=d.subshape(zoo_own(m["nodes"][o["i"]])), seed=d.seed(),
                             p=d.choice([0.2, 0.5, 0.8]))
    m["steps"] = [d.int(0, 7) for _ in range(d.int(1, 4))]
    m["fill"] = d.choice(["value", "value", "extreme"])
    return m


def zoo_own(rec):
    return rec["plates"]


def check_values(case, R):
    a = zoo.Model(case)
    b = zoo.Model(case, data=False)
    rs = np.random.RandomState(case["seed"] + 3)
    changed = False
    for o in case["obs"]:
        x, mask = b.data(o)
        x2, _ = b.data(dict(o, seed=o["seed"] + 1))
        rec = b.recs[o["i"]]
        if case["fill"] == "extreme":
            t = rec["t"]
            if t == "g":
                x2 = x2 * 1e6
            elif t == "ga":
                x2 = x2 * 1e5
        m = np.asarray(mask)
        nd = np.ndim(x) - len(rec["own"])
        m = np.broadcast_to(m, tuple(rec["own"]))
        y = np.where(m.reshape(m.shape + (1,) * nd), x, x2)
        changed = changed or not np.all(m)
        b.observe(o, x=y)
    b.masks()
    a.init_random(case["seed"])
    zoo.copy_parameters(a, b)
    lat = a.latents()
    for st in [None] + case["steps"]:
        if st is not None and lat:
            i = lat[st % len(lat)]
            a.nodes[i].update()
            b.nodes[i].update()
        close(a.L(), b.L(), "lower bound when masked-out values change", rtol=1e-9, atol=1e-8,
              scale=a.Lscale())
        for i in a.stoch:
            if a.recs[i]["own_t"] in ("cnt", "mn"):
                continue
            o = a.observed(i) | a.active[i]
            for k, (x, y) in enumerate(zip(a.own_moments(i), b.own_moments(i))):
                close(x, y, "node %d (%s) moment %d when masked-out values change"
                      % (i, a.recs[i]["op"], k), rtol=1e-8, atol=1e-10)
    R.nontrivial(changed and len(lat) > 0)
    for r in a.recs:
        R.tag(r["op"])


def gen_del(d):
    m = zoo.draw_model(d)
    m["R"] = d.int(2, 4)
    m["drop"] = sorted(set([d.int(0, m["R"] - 1) for _ in range(d.int(1, m["R"] - 1))]))
    m["sh"] = d.seed()
    m["steps"] = [d.int(0, 7) for _ in range(d.int(1, 4))]
    return m


def check_del(case, R):
    n, drop = case["R"], case["drop"]
    keep = [k for k in range(n) if k not in drop]
    if not keep:
        return
    sh = zoo.close_shared(case, case["sh"], 0.7)
    a = zoo.Model(case, R=n, shared=sh, drop=drop)
    b = zoo.Model(case, R=n, shared=sh, copies=keep)
    a.init_random(case["seed"])
    zoo.copy_parameters(a, b, copies=keep)
    lat = b.latents()
    for st in [None] + case["steps"]:
        if st is not None and lat:
            i = lat[st % len(lat)]
            a.nodes[i].update()
            b.nodes[i].update()
        close(a.L(), b.L(), "lower bound with masked-out against deleted data", rtol=1e-8,
              atol=1e-7, scale=a.Lscale())
        compare(a, b, copies=keep, what="masked-out against deleted data")
    R.nontrivial(len(lat) > 0 and len(sh) > 0)
    R.tag("shared%d" % min(len(sh), 3))
    for r in a.recs:
        R.tag(r["op"])


def gen_all(d):
    m = zoo.draw_model(d)
    m["off"] = d.int(0, 7)
    m["steps"] = [d.int(0, 7) for _ in range(d.int(1, 4))]
    return m


def check_all(case, R):
    """Observing with everything masked out is the same as not observing."""
    k = case["off"] % len(case["obs"])
    obs = case["obs"]
    off = dict(obs[k], mask=dict(shape=[], seed=0, p=-1.0))
    a = zoo.Model(case, obs=obs[:k] + [off] + obs[k + 1:])
    b = zoo.Model(case, obs=obs[:k] + obs[k + 1:])
    a.init_random(case["seed"])
    zoo.copy_parameters(a, b)
    lat = b.latents()
    for st in [None] + case["steps"]:
        if st is not None and lat:
            i = lat[st % len(lat)]
            a.nodes[i].update()
            b.nodes[i].update()
        close(a.L(), b.L(), "lower bound: all masked out against unobserved", rtol=1e-8,
              atol=1e-7, scale=a.Lscale())
        compare(a, b, what="all masked out against unobserved")
    if len(case["obs"]) == 1:
        close(a.L(), 0.0, "lower bound of a model without any data", atol=1e-9)
    R.nontrivial(len(lat) > 1)


SUBS = [
    Sub("values", gen, check_values, 4000, 120000,
        rule="counts when some masked-out value really changed and a variable is unobserved"),
    Sub("deletion", gen_del, check_del, 4000, 120000,
        rule="counts when a shared variable connects the kept and the masked copies"),
    Sub("unobserved", gen_all, check_all, 2000, 60000,
        rule="counts when there are at least two unobserved variables"),
]
