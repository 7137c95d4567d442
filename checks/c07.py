"""C07: Riemannian and ordinary gradients of the lower bound."""
import numpy as np
from vlib import dense as dn, single, zoo
from vlib.harness import Sub, require, close, finite

# distributions that provide the ordinary gradient
GRAD = {"gard", "gauss", "gamma", "dirichlet", "beta", "cat", "multinomial", "mixture"}


def gen(d):
    m = zoo.draw_model(d)
    m["mode"] = d.int(0, 1)
    m["which"] = d.int(0, 7)
    m["ann"] = d.choice([1, 1, 1, 0.5])
    return m


def check(case, R):
    m = zoo.Model(case)
    m.init_random(case["seed"], mode=case["mode"])
    lat = [i for i in m.latents() if m.recs[i]["own_t"] not in ("cnt", "mn")
           and np.all(m.active[i]) and not np.any(m.observed(i))]
    if not lat:
        return
    i = lat[case["which"] % len(lat)]
    rec, node = m.recs[i], m.nodes[i]
    R.tag(rec["op"])
    t, P, S = rec["own_t"], rec["own"], rec["own_shape"]
    dims = dn.dims_of(t, S)
    what = "node %d (%s)" % (i, rec["op"])
    phi_t = m.phi(i)
    node.set_parameters(phi_t)
    rg = node.get_riemannian_gradient()
    before = [np.array(p) for p in m.phi(i)]
    node.update()
    phi_s = m.phi(i)
    node.set_parameters(phi_t)
    for k, (g, a, b, dd) in enumerate(zip(rg, phi_s, phi_t, dims)):
        close(g, a - b, "%s: Riemannian gradient %d must be optimum minus current" % (what, k),
              rtol=1e-8, atol=1e-8, scale=np.max(np.abs(a)) if a.size else 0)
        require(np.array_equal(before[k], phi_t[k]),
                "%s: computing the gradient changed the parameters", what)
    # the derivative of the (independently evaluated) bound along random directions
    rs = np.random.RandomState(case["seed"] + 5)
    names = {"gmc": "gmc", "cmc": "cmc"}
    op = rec["op"] if rec["op"] != "mixture" else {"gauss": "gauss"}.get(rec["cls"], rec["cls"])
    has = op in ("gard", "gauss", "gamma", "dirichlet", "beta", "cat", "multinomial")
    if t == "g" and len(S) > 1:
        has = False   # declared not implemented by the library
    grad = node.get_gradient(rg) if has else None
    for _ in range(2):
        dphi = dn.random_direction(t, rs, P, S)
        dphi = [x * 0.3 for x in dphi]
        h = 1e-5
        Ls, us = [], []
        for s in (1, -1):
            p = [a + s * h * b for a, b in zip(phi_t, dphi)]
            us.append(dn.moments_from_phi(t, p, P, S))
            node.set_parameters(p)
            Ls.append((m.mirrorL(), float(m.L())))
        node.set_parameters(phi_t)
        du = [(a - b) / (2 * h) for a, b in zip(*us)]
        chain = float(np.sum(dn.dot_u(rg, du, P, dims)))
        sc = 1 + abs(chain) + 1e-3 * float(np.sum(np.abs(dn.dot_u(
            [np.abs(x) for x in rg], [np.abs(x) for x in du], P, dims))))
        for a, b, name in zip(*Ls, ("independently evaluated", "reported")):
            close((a - b) / (2 * h), chain, "%s: derivative of the %s bound along a direction, "
                  "from the Riemannian gradient" % (what, name), rtol=2e-4, atol=2e-5,
                  scale=sc + 1e-4 * abs(a))
        if has:
            require(len(grad) == len(dims), "%s: gradient has %d parts", what, len(grad))
            full = [dn.bc(g, P, dd) for g, dd in zip(grad, dims)]
            ex = float(sum(np.sum(a * b) for a, b in zip(full, dphi)))
            close(ex, chain, "%s: derivative along a direction from the ordinary gradient" % what,
                  rtol=2e-4, atol=2e-5, scale=sc)
    R.nontrivial(any(np.any(np.abs(g) > 1e-3) for g in rg))


def gen_single(d):
    c = single.draw(d, ["g0", "g1", "gauss", "ga", "d", "beta", "c", "mul"])
    c["seed"] = d.seed()
    c["narr"] = d.bool()
    return c


def check_single(c, R):
    """get_gradient maps any Riemannian gradient through the Jacobian of the moments."""
    import bayespy.nodes as N
    rs = np.random.RandomState(c["seed"])
    t, P, S = c["t"], tuple(c["P"]), tuple(c["S"])
    par = single.params(c, rs)
    if t == "mul" and c["narr"]:
        n = rs.randint(1, 9, size=P)
        node = N.Multinomial(n, par[0], plates=P)
        S = (S[0], 1)
        mult = np.asarray(n, float)
    else:
        node = single.build(c, par)
        mult = np.ones(P)
    phi = dn.random_phi(t, rs, P, S)
    node.set_parameters(phi)
    dims = dn.dims_of(t, S)
    rg = dn.random_direction(t, rs, P, S)
    grad = node.get_gradient([np.array(x) for x in rg])
    require(len(grad) == len(dims), "gradient has %d parts, should be %d", len(grad), len(dims))
    for _ in range(2):
        dphi = dn.random_direction(t, rs, P, S)
        h = 1e-5
        us = [dn.moments_from_phi(t, [a + s * h * b for a, b in zip(phi, dphi)], P, S)
              for s in (1, -1)]
        du = [(a - b) / (2 * h) for a, b in zip(*us)]
        want = dn.dot_u(rg, du, P, dims) * mult
        got = dn.dot_u([dn.bc(g, P, dd) for g, dd in zip(grad, dims)], dphi, P, dims)
        close(got, want, "%s: directional derivative per plate" % c["kind"], rtol=1e-4, atol=1e-5)
    R.nontrivial(dn.size(P) * dn.size(c["S"]) > 1)
    R.tag(c["kind"])


SUBS = [
    Sub("zoo", gen, check, 5000, 150000,
        rule="counts when a fully active unobserved variable away from its optimum was differentiated"),
    Sub("jacobian", gen_single, check_single, 3000, 100000,
        rule="counts when the variable has more than one scalar element"),
]
