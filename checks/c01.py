"""C01: coordinate updates never decrease the lower bound."""
import numpy as np
from vlib import zoo
from vlib.harness import Sub, require, Violation

RULE = ("a case counts when at least one update changed the variational parameters of a "
        "variable that has observed descendants (bound before and after compared)")


def gen(d):
    m = zoo.draw_model(d)
    m["mode"] = d.int(0, 2)
    m["steps"] = [d.int(0, 9) for _ in range(d.int(1, 5))]
    return m


def check(case, R):
    from bayespy.inference import VB
    m = zoo.Model(case, names=True)
    m.init_random(case["seed"], mode=case["mode"])
    lat = m.latents()
    for r in m.recs:
        R.tag(r["op"])
    if not lat:
        return
    Q = VB(*[m.nodes[i] for i in m.stoch], tol=0)
    prev = (Q.compute_lowerbound(), m.mirrorL())
    for k, s in enumerate(case["steps"]):
        before = [m.phi(i) for i in lat]
        if s == 9:
            what = "update of all variables"
            Q.update(repeat=1, verbose=False, tol=0)
            if m.mirrorL() is not None and len(Q.L):
                rep = float(Q.L[Q.iter - 1])
                now = float(Q.compute_lowerbound())
                require(abs(rep - now) <= 1e-9 * (1 + abs(now)) + 1e-9,
                        "the recorded bound %r is not the bound after the update %r", rep, now)
        else:
            i = lat[s % len(lat)]
            what = "update of node %d (%s)" % (i, m.recs[i]["op"])
            if s % 2:
                Q.update(m.nodes[i], verbose=False, tol=0)
            else:
                m.nodes[i].update()
        new = (Q.compute_lowerbound(), m.mirrorL())
        sc = m.Lscale()
        tol = 1e-8 * sc + 1e-7
        for a, b, name in zip(prev, new, ("reported", "independently evaluated")):
            require(np.isfinite(b), "%s lower bound %s after %s", name, b, what)
            require(b >= a - tol, "%s lower bound decreases in %s: %.10g -> %.10g",
                    name, what, a, b)
        for i, p in zip(lat, before):
            if np.any(m.active[i]) and any(not np.array_equal(x, y) for x, y in
                                           zip(p, m.phi(i))):
                R.nontrivial()
        prev = new


SUBS = [Sub("zoo", gen, check, 6000, 200000, rule=RULE)]
