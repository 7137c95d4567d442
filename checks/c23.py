"""C23: plate multipliers (stochastic variational inference).

Oracle (metamorphic): a mini-batch model whose local variables carry the plate multiplier k must
act on everything shared exactly as the model in which the batch is written out k times; the
bound is the same, too.  A real-valued multiplier acts linearly: messages and bound are
interpolated from the multipliers 1 and 2.
"""
import numpy as np
from vlib import zoo, dense as dn
from vlib.harness import Sub, require, close, Skip


def gen(d):
    m = zoo.draw_model(d)
    m["b"] = d.int(1, 3)
    m["k"] = d.choice([2, 3, 2, 1])
    m["sh"] = d.seed()
    m["inherit"] = d.int(0, 255)
    m["steps"] = [[d.int(0, 7), d.choice(["u", "u", "g", "o"])] for _ in range(d.int(1, 4))]
    m["scale"] = d.choice([1.0, 0.5, 0.1])
    return m


def local_parent(recs, rec):
    return any("i" in p and recs[p["i"]]["rep"] for p in rec["par"])


def build(case, sh, mult, copies, rep=None):
    """mult: multiplier of the replicated axis, or None."""
    recs = []

    def kwargs(i, rec):
        if mult is None:
            return {}
        # a variable with a local parent may inherit the multiplier
        has = any("i" in p and p["i"] not in sh for p in rec["par"])
        if has and case["inherit"] >> (i % 8) & 1:
            return {}
        return dict(plates_multiplier=(mult,) + (1,) * (len(rec["own"]) - 1))
    return zoo.Model(case, R=case["b"], shared=sh, copies=copies, kwargs=kwargs, names=True)


def compare(mini, full, copies, what):
    for i in full.stoch:
        rec = full.recs[i]
        if rec["own_t"] in ("cnt", "mn"):
            continue
        a = zoo.take_copy(mini, full, i, mini.own_moments(i), copies=copies)
        for k, (x, y) in enumerate(zip(a, full.own_moments(i))):
            close(x, y, "%s: node %d (%s%s) moment %d" % (
                what, i, rec["op"], "" if rec["rep"] else ", shared", k), rtol=1e-7, atol=1e-9)


def usable(case, sh):
    for i, rec in enumerate(case["nodes"]):
        if i not in sh and rec["op"] in ("take", "concat", "choose") and any(
                "i" in p and p["i"] not in sh for p in rec["par"]):
            return False        # declared as not supported by the library
    return True


def check(case, R):
    from bayespy.inference import VB
    sh = zoo.close_shared(case, case["sh"], prob=0.8)
    if not usable(case, sh):
        return
    b, k = case["b"], case["k"]
    copies = list(range(b)) * k
    mini = build(case, sh, k, list(range(b)))
    full = build(case, sh, None, copies)
    mini.init_random(case["seed"])
    zoo.copy_parameters(mini, full, copies=copies)
    lat = [i for i in mini.latents() if mini.recs[i]["own_t"] not in ("cnt", "mn")]
    Q = [VB(*[m.nodes[i] for i in m.stoch], tol=0) for m in (mini, full)]
    moved = False
    for st in [None] + case["steps"]:
        what = "start"
        if st is not None and lat:
            n, how = st
            i = lat[n % len(lat)]
            rec = mini.recs[i]
            what = "after %s of node %d (%s%s)" % (dict(u="update", g="gradient step",
                                                        o="two updates")[how], i, rec["op"],
                                                   "" if rec["rep"] else ", shared")
            if not rec["rep"] and k > 1:
                moved = True
            if how == "g":
                for q in Q:
                    q.gradient_step("n%d" % i, scale=case["scale"])
            else:
                for q, m in zip(Q, (mini, full)):
                    q.update("n%d" % i, verbose=False, tol=0)
                    if how == "o":
                        m.nodes[lat[(n + 1) % len(lat)]].update()
        La, Lb = Q[0].compute_lowerbound(), Q[1].compute_lowerbound()
        close(La, Lb, "%s: bound with multiplier against the repeated data" % what, rtol=1e-8,
              atol=1e-7, scale=full.Lscale())
        compare(mini, full, copies, what)
    R.nontrivial(moved and any(r["rep"] for r in mini.recs))
    R.tag(*[r["op"] for r in mini.recs if r["rep"]])


def gen_lin(d):
    m = zoo.draw_model(d)
    m["b"] = d.int(1, 3)
    m["k"] = d.choice([0.5, 1.7, 10.0, 3.25])
    m["sh"] = d.seed()
    m["inherit"] = d.int(0, 255)
    m["which"] = d.int(0, 7)
    return m


def check_lin(case, R):
    sh = zoo.close_shared(case, case["sh"], prob=0.8)
    if not usable(case, sh):
        return
    b = case["b"]
    ms = [build(case, sh, k, list(range(b))) for k in (1.0, 2.0, case["k"])]
    ms[0].init_random(case["seed"])
    for m in ms[1:]:
        zoo.copy_parameters(ms[0], m)
    L = [m.L() for m in ms]
    k = case["k"]
    sc = sum(m.Lscale() for m in ms) * max(1, k)
    close(L[2], L[0] + (k - 1) * (L[1] - L[0]), "bound as a function of the multiplier",
          rtol=1e-9, atol=1e-8, scale=sc)
    want = 0.0
    for i in ms[0].stoch:
        want += ms[0].term(i) * (k if ms[0].recs[i]["rep"] else 1)
    close(L[2], want, "bound with multiplier against independent formulas", rtol=1e-8, atol=1e-7,
          scale=sc)
    lat = [i for i in ms[0].latents() if ms[0].recs[i]["own_t"] not in ("cnt", "mn")]
    if not lat:
        return
    shared = [i for i in lat if not ms[0].recs[i]["rep"]] or lat
    i = shared[case["which"] % len(shared)]
    rec = ms[0].recs[i]
    g = [m.nodes[i].get_riemannian_gradient() for m in ms]
    for j in range(len(g[0])):
        if rec["rep"]:
            close(g[2][j], g[0][j], "local node %d (%s): gradient depends on the multiplier"
                  % (i, rec["op"]), rtol=1e-9, atol=1e-9, scale=np.max(np.abs(g[0][j])))
        else:
            close(g[2][j], g[0][j] + (k - 1) * (g[1][j] - g[0][j]),
                  "shared node %d (%s): gradient as a function of the multiplier"
                  % (i, rec["op"]), rtol=1e-8, atol=1e-8,
                  scale=max(np.max(np.abs(x[j])) for x in g))
    R.nontrivial(not rec["rep"] and any(np.max(np.abs(x - y)) > 1e-6 for x, y in zip(g[0], g[1])))
    R.tag(rec["op"])


SUBS = [
    Sub("repeat", gen, check, 4000, 120000,
        rule="counts when a shared variable was updated with multiplier above one"),
    Sub("linear", gen_lin, check_lin, 4000, 120000,
        rule="counts when the multiplier changes the gradient of a shared variable"),
]
