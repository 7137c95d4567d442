"""C04: the lower bound equals an independent evaluation of E_q[log p - log q]."""
import numpy as np
from vlib import zoo
from vlib.harness import Sub, close, require

RULE = ("a case counts when the model has an unobserved variable with observed descendants "
        "(entropy terms present) and every node's term was compared")


def gen(d):
    m = zoo.draw_model(d)
    m["mode"] = d.int(0, 2)
    return m


def check(case, R):
    from bayespy.inference import VB
    m = zoo.Model(case, names=True)
    m.init_random(case["seed"], mode=case["mode"])
    rs = np.random.RandomState(case["seed"])
    lat = m.latents()
    Q = VB(*[m.nodes[i] for i in m.stoch])
    for r in range(3):
        tot, sc = 0, 1
        for i in m.stoch:
            got = float(m.nodes[i].lower_bound_contribution())
            want = m.term(i)
            tot += want
            sc += abs(want)
            close(got, want, "lower bound term of node %d (%s)" % (i, m.recs[i]["op"]),
                  rtol=1e-7, atol=1e-7, scale=10 + 1e-2 * sc)
        # with the plates which have no observed descendants included
        cache = {}
        for i in m.stoch:
            if m.recs[i]["own_t"] in ("cnt", "mn") and i in lat:
                continue
            got = float(m.nodes[i].lower_bound_contribution(ignore_masked=False))
            close(got, m.term_all(i, cache), "lower bound term of all plates of node %d (%s)"
                  % (i, m.recs[i]["op"]), rtol=1e-7, atol=1e-7, scale=10 + 1e-2 * sc)
        close(Q.compute_lowerbound(), tot, "total lower bound", rtol=1e-8, atol=1e-7, scale=sc)
        if lat:
            m.nodes[lat[rs.randint(len(lat))]].update()
    R.nontrivial(any(np.any(m.active[i] & ~m.observed(i)) for i in lat))
    for r in m.recs:
        R.tag(r["op"])


SUBS = [Sub("zoo", gen, check, 8000, 300000, rule=RULE)]
