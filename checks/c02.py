"""C02: an update puts the variable at the exact maximum of the bound over its factor:
for every other valid factor q_t, L(q_t) = L(q*) - KL(q_t || q*)."""
import numpy as np
from vlib import zoo, dense as dn
from vlib.harness import Sub, require, close

RULE = ("a case counts when the updated variable has an unobserved plate with observed "
        "descendants and the random factor has KL > 0.01 from the optimum")


def gen(d):
    m = zoo.draw_model(d)
    m["mode"] = d.int(0, 2)
    m["which"] = d.int(0, 7)
    return m


def check(case, R):
    m = zoo.Model(case)
    m.init_random(case["seed"], mode=case["mode"])
    lat = [i for i in m.latents() if m.recs[i]["own_t"] not in ("cnt", "mn")]
    for r in m.recs:
        R.tag(r["op"])
    if not lat:
        return
    pref = [i for i in lat if np.any(m.active[i] & ~m.observed(i))] or lat
    i = pref[case["which"] % len(pref)]
    rec = m.recs[i]
    node = m.nodes[i]
    node.update()
    phi_s = m.phi(i)
    L_s, R_s = m.mirrorL(), float(m.L())
    own_s = m.elogp(i)
    t, P, S = rec["own_t"], rec["own"], rec["own_shape"]
    obs, act = m.observed(i), m.active[i]
    H_s = dn.entropy(t, phi_s, P, S) if True else 0
    rs = np.random.RandomState(case["seed"] + 1)
    phi_t = dn.random_phi(t, rs, P, S)
    node.set_parameters(phi_t)
    L_t, R_t = m.mirrorL(), float(m.L())
    own_t = m.elogp(i)
    H_t = dn.entropy(t, phi_t, P, S)
    kl = np.broadcast_to(m.kl(i, phi_t, phi_s), P)
    require(np.all(kl[~obs] > -1e-6 * (1 + np.abs(kl[~obs]))),
            "the updated parameters of node %d are not a valid optimum (KL %s)", i, kl)
    lat_act = act & ~obs
    tot = float(np.sum(np.where(lat_act, kl, 0)))
    what = "node %d (%s)" % (i, rec["op"])
    sc = 1 + abs(L_s) + abs(L_t) + abs(tot) + 0.1 * m.Lscale()
    close(L_s - L_t, tot, "%s: loss of bound when replacing the updated factor by a random "
          "one must equal the KL divergence" % what, rtol=1e-7, atol=1e-7, scale=sc)
    close(R_s - R_t, tot, "%s: loss of reported bound when replacing the updated factor by a "
          "random one must equal the KL divergence" % what, rtol=1e-7, atol=1e-7, scale=sc)
    # plates without observed descendants: the optimum is the prior expectation
    ina = ~act & ~obs
    if np.any(ina):
        d = np.where(ina, (own_s + H_s) - (own_t + H_t), 0)
        close(d, np.where(ina, kl, 0), "%s: plates without observations must follow the prior"
              % what, rtol=1e-7, atol=1e-7, scale=10 + np.max(np.abs(np.where(ina, own_t, 0))))
    R.nontrivial(tot > 0.01)


SUBS = [Sub("zoo", gen, check, 8000, 300000, rule=RULE)]
