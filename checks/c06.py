"""C06: moments reported by a variable are the exact expectations of its distribution."""
import numpy as np
from scipy import special
from vlib import dense as dn, single, zoo
from vlib.harness import Sub, require, close, finite

T_PHI = single.MORE


def gen_phi(d):
    c = single.draw(d, T_PHI)
    c["seed"] = d.seed()
    c["sub"] = d.subshape(c["P"]) if d.bool(1, 3) else list(c["P"])
    c["mix"] = d.bool(1, 4) and c["t"] not in ("gmc", "cmc", "gg") and c["kind"] != "beta"
    return c


def pad(sub, P):
    return [1] * (len(P) - len(sub)) + list(sub)


def check_phi(c, R):
    rs = np.random.RandomState(c["seed"])
    t, P, S = c["t"], tuple(c["P"]), tuple(c["S"])
    par = single.params(c, rs)
    if c["mix"]:
        import bayespy.nodes as N
        K = 2
        z = rs.dirichlet(np.ones(K), size=P)
        Z = N.Categorical(z, plates=P)
        pk = single.params(c, rs, P=P + (K,))
        cls = {"gauss": N.Gaussian, "ga": N.Gamma, "w": N.Wishart, "d": N.Dirichlet,
               "c": N.Categorical, "poi": N.Poisson, "bern": N.Bernoulli}.get(c["kind"])
        if cls is None:
            c = dict(c, mix=False)
        else:
            node = N.Mixture(Z, cls, *pk, plates=P)
    if not c["mix"]:
        node = single.build(c, par)
    phi = dn.random_phi(t, rs, pad(c["sub"], P), S)
    node.set_parameters(phi)
    want = dn.moments_from_phi(t, phi, P, S)
    got = node.get_moments()
    require(len(got) == len(want), "number of moments %d, should be %d", len(got), len(want))
    for k, (g, w) in enumerate(zip(got, want)):
        close(g, w, "%s: moment %d for given variational parameters" % (c["kind"], k),
              rtol=1e-8, atol=1e-10)
    require(tuple(node.plates) == P, "plates changed")
    for k, p in enumerate(node.get_parameters()):
        close(dn.bc(p, P, dn.dims_of(t, S)[k]), dn.bc(phi[k], P, dn.dims_of(t, S)[k]),
              "parameters read back", rtol=0, atol=0)
    R.nontrivial(dn.size(P) * dn.size(S) > 1)
    R.tag(c["kind"], "mixture" if c["mix"] else "plain")


def gen_prior(d):
    c = single.draw(d, single.MORE)
    c["seed"] = d.seed()
    c["sub"] = d.subshape(c["P"]) if d.bool(1, 2) else list(c["P"])
    c["explicit"] = d.bool()
    return c


def check_prior(c, R):
    rs = np.random.RandomState(c["seed"])
    t, S = c["t"], tuple(c["S"])
    if not c["explicit"]:
        c = dict(c, P=c["sub"])
    P = tuple(c["P"])
    par = single.params(c, rs, P=c["sub"])
    node = single.build(c, par, plates="explicit" if c["explicit"] else "auto")
    require(tuple(node.plates) == P, "plates %s, should be %s", node.plates, P)
    if not c["explicit"] or tuple(c["sub"]) == P:
        pass
    phi = single.prior_phi(c, [align(x, c, k) for k, x in enumerate(par)])
    want = dn.moments_from_phi(t, phi, P, S)
    for k, (g, w) in enumerate(zip(node.get_moments(), want)):
        close(g, w, "%s: moment %d of the prior" % (c["kind"], k), rtol=1e-8, atol=1e-10)
    for k, (g, w) in enumerate(zip(node.get_parameters(), phi)):
        close(g, dn.bc(w, P, dn.dims_of(t, S)[k]),
              "%s: natural parameter %d of the prior" % (c["kind"], k), rtol=1e-9, atol=1e-10)
    # an update without any children keeps the prior
    node.update()
    for k, (g, w) in enumerate(zip(node.get_moments(), want)):
        close(g, w, "%s: moment %d after updating a childless variable" % (c["kind"], k),
              rtol=1e-8, atol=1e-10)
    R.nontrivial(dn.size(P) * dn.size(S) > 1)
    R.tag(c["kind"])


def align(x, c, k):
    return x


def gen_fixed(d):
    c = single.draw(d, [t for t in single.MORE if t not in ("gg", "cmc")])
    c["seed"] = d.seed()
    c["mask"] = d.choice([0, 0, 1, 2])
    c["ms"] = d.subshape(c["P"])
    return c


def value(c, rs):
    t, P, S = c["t"], tuple(c["P"]), tuple(c["S"])
    if t == "gmc":
        return rs.randn(*(P + S))
    if t == "cmc":
        return rs.randint(0, S[1], size=P + (S[0],))
    if t == "poi":
        return rs.poisson(2.0, size=P)
    if t == "bin":
        return rs.randint(0, S[0] + 1, size=P)
    if t == "mul":
        return rs.multinomial(S[1], np.ones(S[0]) / S[0], size=P)
    return dn.random_value(t, rs, P, S)


def fixed(c, x):
    t, P, S = c["t"], tuple(c["P"]), tuple(c["S"])
    if t == "gmc":
        return [x, x[..., :, None] * x[..., None, :], x[..., :-1, :, None] * x[..., 1:, None, :]]
    if t == "cmc":
        z = np.eye(S[1])[x]
        return [z[..., 0, :], z[..., :-1, :, None] * z[..., 1:, None, :]]
    if t in ("poi", "bin", "mul"):
        return [np.asarray(x, float)]
    return dn.fixed_moments(t, x, S)


def check_fixed(c, R):
    rs = np.random.RandomState(c["seed"])
    t, P, S = c["t"], tuple(c["P"]), tuple(c["S"])
    par = single.params(c, rs)
    node = single.build(c, par)
    x = value(c, rs)
    w = fixed(c, x)
    arg = x[..., 0] if c["kind"] == "beta" else x
    prior = dn.moments_from_phi(t, single.prior_phi(c, par), P, S)
    if c["mask"] == 0:
        node.observe(arg)
        m = np.ones(P, bool)
    else:
        m = rs.rand(*c["ms"]) < 0.5
        node.observe(arg, mask=m)
        m = np.broadcast_to(m, P)
    if c["mask"] == 2:
        node.update()
    for k, (g, a, b, dd) in enumerate(zip(node.get_moments(), w, prior, dn.dims_of(t, S))):
        mm = m.reshape(m.shape + (1,) * len(dd))
        close(g, np.where(mm, a, b), "%s: moment %d with observed plates" % (c["kind"], k),
              rtol=1e-8, atol=1e-10)
    R.nontrivial(dn.size(P) * dn.size(S) > 1 and np.any(m))
    R.tag(c["kind"], "mask%d" % c["mask"])


def gen_value(d):
    c = single.draw(d, [t for t in single.MORE if t not in ("gg",)])
    c["seed"] = d.seed()
    c["obs"] = d.bool(1, 3) and c["t"] not in ("gmc", "cmc")
    c["ms"] = d.subshape(c["P"])
    return c


def check_value(c, R):
    """Initialising from a value: the moments of a point, except where observed."""
    rs = np.random.RandomState(c["seed"])
    t, P, S = c["t"], tuple(c["P"]), tuple(c["S"])
    node = single.build(c, single.params(c, rs))
    x, y = value(c, rs), value(c, rs)
    mm = np.zeros(P, bool)
    arg = [v[..., 0] if c["kind"] == "beta" else v for v in (x, y)]
    if c["obs"]:
        mm = rs.rand(*c["ms"]) < 0.5
        node.observe(arg[1], mask=mm)
        mm = np.broadcast_to(mm, P)
    node.initialize_from_value(arg[0])
    for k, (g, a, b, dd) in enumerate(zip(node.get_moments(), fixed(c, x), fixed(c, y),
                                          dn.dims_of(t, S))):
        m = mm.reshape(mm.shape + (1,) * len(dd))
        close(g, np.where(m, b, a), "%s: moment %d after initialising from a value"
              % (c["kind"], k), rtol=1e-9, atol=1e-10)
    R.nontrivial(dn.size(P) * dn.size(S) > 1)
    R.tag(c["kind"], "observed" if c["obs"] else "latent")


def gen_zoo(d):
    m = zoo.draw_model(d)
    m["mode"] = d.int(0, 2)
    m["steps"] = [d.int(0, 7) for _ in range(d.int(0, 3))]
    return m


def check_zoo(case, R):
    m = zoo.Model(case)
    m.init_random(case["seed"], mode=case["mode"])
    lat = m.latents()
    for s in case["steps"]:
        if lat:
            m.nodes[lat[s % len(lat)]].update()
    for i in lat:
        rec = m.recs[i]
        t, P, S = rec["own_t"], rec["own"], rec["own_shape"]
        if t in ("cnt", "mn"):
            continue
        want = dn.moments_from_phi(t, m.phi(i), P, S)
        obs = m.observed(i)
        fx = m.obs_moments(rec, m.obs[i][0]) if i in m.obs else want
        for k, (g, w, f, dd) in enumerate(zip(m.nodes[i].get_moments(), want, fx,
                                              dn.dims_of(t, S))):
            o = obs.reshape(obs.shape + (1,) * len(dd))
            close(g, np.where(o, f, w), "node %d (%s): moment %d" % (i, rec["op"], k),
                  rtol=1e-7, atol=1e-9)
    # deterministic nodes: moments of the transformed variables
    for i, rec in enumerate(m.recs):
        if rec["op"] in zoo.STOCH or rec["op"] == "flatten":
            continue
        want = m.view(i)
        for k, (g, w) in enumerate(zip(m.nodes[i].get_moments(), want)):
            close(g, w, "node %d (%s): moment %d" % (i, rec["op"], k), rtol=1e-7, atol=1e-8)
        R.tag(rec["op"])
    R.nontrivial(len(lat) > 0)


SUBS = [
    Sub("phi", gen_phi, check_phi, 6000, 200000,
        rule="counts when the variable has more than one scalar element"),
    Sub("prior", gen_prior, check_prior, 4000, 120000,
        rule="counts when the variable has more than one scalar element"),
    Sub("observed", gen_fixed, check_fixed, 4000, 120000,
        rule="counts when the variable has more than one scalar element and some plate is observed"),
    Sub("value", gen_value, check_value, 2500, 80000,
        rule="counts when the variable has more than one scalar element"),
    Sub("zoo", gen_zoo, check_zoo, 5000, 150000,
        rule="counts when the model has an unobserved variable whose moments were compared"),
]
