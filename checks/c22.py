"""C22: deterministic annealing.

With coefficient b the bound is energy + entropy / b, the entropy taken relative to the base
measure of the variable's family.  Its coordinate optimum has exactly b times the natural
parameters of the ordinary update, the gradients are those of that function, updates in any order
never decrease it, and setting the coefficient back to one gives the ordinary updates and bound.
"""
import numpy as np
from vlib import zoo, dense as dn
from vlib.harness import Sub, require, close

BETAS = [1.0, 0.99, 0.9, 0.7, 0.5, 0.2]
GRAD = ("gard", "gauss", "gamma", "dirichlet", "beta", "cat", "multinomial")


def gen(d):
    m = zoo.draw_model(d)
    m["mode"] = d.int(0, 2)
    m["betas"] = [d.choice(BETAS) for _ in range(d.int(1, 2))]
    m["steps"] = [d.int(0, 9) for _ in range(d.int(1, 4))]
    m["which"] = d.int(0, 7)
    m["flip"] = d.choice([0, 0, 0, 1, 2])       # a variable changes between observed and latent meanwhile
    return m


def proper(rec, phi, beta):
    """Whether beta * phi still is a proper distribution."""
    if rec["own_t"] == "w":
        n = 2 * beta * np.asarray(phi[1])
        return bool(np.all(n > rec["own_shape"][0] - 1 + 0.05))
    return True


def contribution(m, i, beta):
    """Term of the annealed bound, from independent formulas."""
    rec = m.recs[i]
    t, P, S = rec["own_t"], rec["own"], rec["own_shape"]
    e = m.elogp(i)
    obs, act = m.observed(i), m.active[i]
    r = e
    if np.any(act & ~obs):
        phi = m.phi(i)
        with np.errstate(all="ignore"):
            H = dn.entropy(t, phi, P, S)
            u = m.own_moments(i)
            A = dn.logpartition(t, phi, P, S)
            r = e + np.where(obs, 0.0, H + (1 / beta - 1)
                             * (A - dn.dot_u(phi, u, P, dn.dims_of(t, S))))
    return float(np.sum(np.where(act, r, 0.0)))


def check(case, R):
    from bayespy.inference import VB
    m = zoo.Model(case, names=True)
    m.init_random(case["seed"], mode=case["mode"])
    lat = [i for i in m.latents() if m.recs[i]["own_t"] not in ("cnt", "mn")]
    if not lat or len(lat) != len(m.latents()):
        return
    Q = VB(*[m.nodes[i] for i in m.stoch], tol=0)
    R.tag(*[m.recs[i]["op"] for i in m.stoch])
    L1 = Q.compute_lowerbound()
    flip = [o for o in case["obs"] if m.recs[o["i"]]["own_t"] not in ("cnt", "mn")]
    flip = flip[case["which"] % len(flip)] if flip and case.get("flip") else None
    for (turn, beta) in enumerate(case["betas"]):
        Q.set_annealing(beta)
        if flip is not None:
            # the coefficient is that of the engine, whatever is observed now or was then
            if turn == 0:
                m.unobserve(flip["i"], case["seed"] + 7)
            elif case["flip"] == 2:
                m.observe(flip)
                m.masks()
            lat = m.latents()
            if not lat:
                return
            R.tag("flip")
        sc = m.Lscale()
        mine = [contribution(m, i, beta) for i in m.stoch]
        sc = sum(abs(x) for x in mine) + abs(L1) + 1
        for i, want in zip(m.stoch, mine):
            close(m.nodes[i].lower_bound_contribution(), want,
                  "annealed bound term of %s" % m.recs[i]["op"], rtol=1e-8, atol=1e-7, scale=sc)
        prev = Q.compute_lowerbound()
        close(prev, sum(mine), "annealed bound", rtol=1e-8, atol=1e-7, scale=sc)
        for s in case["steps"]:
            i = lat[s % len(lat)]
            node, rec = m.nodes[i], m.recs[i]
            what = "node %d (%s)" % (i, rec["op"])
            old = m.phi(i)
            # the ordinary optimum
            node.annealing = 1.0
            node.update()
            p1 = m.phi(i)
            node.set_parameters(old)
            node.annealing = beta
            if not proper(rec, p1, beta):
                return
            rg = node.get_riemannian_gradient()
            for k, (g, a, b) in enumerate(zip(rg, p1, old)):
                close(g, beta * a - b, "%s: annealed Riemannian gradient %d" % (what, k),
                      rtol=1e-9, atol=1e-9, scale=max(np.max(np.abs(a)), np.max(np.abs(b))))
            if s % 2:
                Q.update(node, verbose=False, tol=0)
            else:
                node.update()
            new = m.phi(i)
            for k, (a, b) in enumerate(zip(new, p1)):
                close(a, beta * b, "%s: parameter %d after the annealed update" % (what, k),
                      rtol=1e-10, atol=1e-12, scale=np.max(np.abs(b)))
            now = Q.compute_lowerbound()
            require(now >= prev - 1e-8 * sc - 1e-7,
                    "annealed bound decreases in the update of %s: %.12g -> %.12g", what, prev,
                    now)
            if np.any(m.active[i] & ~m.observed(i)) and beta < 1:
                R.nontrivial()
            prev = now
    # back to ordinary inference
    Q.set_annealing(1.0)
    want = m.mirrorL()
    close(Q.compute_lowerbound(), want, "bound after annealing ended", rtol=1e-8, atol=1e-7,
          scale=m.Lscale())


def gen_grad(d):
    m = zoo.draw_model(d)
    m["mode"] = 0
    m["which"] = d.int(0, 7)
    m["beta"] = d.choice(BETAS[1:])
    return m


def check_grad(case, R):
    from bayespy.inference import VB
    m = zoo.Model(case, names=True)
    m.init_random(case["seed"], mode=0)
    lat = [i for i in m.latents() if m.recs[i]["own_t"] not in ("cnt", "mn")
           and np.all(m.active[i]) and not np.any(m.observed(i))]
    if not lat:
        return
    Q = VB(*[m.nodes[i] for i in m.stoch], tol=0)
    beta = case["beta"]
    Q.set_annealing(beta)
    i = lat[case["which"] % len(lat)]
    rec, node = m.recs[i], m.nodes[i]
    t, P, S = rec["own_t"], rec["own"], rec["own_shape"]
    phi = m.phi(i)
    node.set_parameters([np.array(p) for p in phi])
    op = rec["op"] if rec["op"] != "mixture" else rec["cls"]
    has = op in GRAD and not (t == "g" and len(S) > 1)
    rg = node.get_riemannian_gradient()
    if has:
        grad = [dn.bc(g, P, dd) for g, dd in zip(node.get_gradient(rg), dn.dims_of(t, S))]
    rs = np.random.RandomState(case["seed"] + 9)
    for _ in range(2):
        dphi = [0.3 * x for x in dn.random_direction(t, rs, P, S)]
        h = 1e-5
        Ls, us = [], []
        for s in (1, -1):
            p = [a + s * h * b for a, b in zip(phi, dphi)]
            us.append(dn.moments_from_phi(t, p, P, S))
            node.set_parameters(p)
            Ls.append(sum(contribution(m, j, beta) for j in m.stoch))
        node.set_parameters([np.array(p) for p in phi])
        du = [(a - b) / (2 * h) for a, b in zip(*us)]
        dL = (Ls[0] - Ls[1]) / (2 * h)
        ch = float(np.sum(dn.dot_u(rg, du, P, dn.dims_of(t, S)))) / beta
        sc = 1 + abs(ch) + 1e-3 / beta * float(np.sum(np.abs(dn.dot_u(
            [np.abs(x) for x in rg], [np.abs(x) for x in du], P, dn.dims_of(t, S)))))
        close(dL, ch, "%s: derivative of the annealed bound, from the Riemannian gradient" % op,
              rtol=3e-4, atol=3e-5, scale=sc + 1e-4 * abs(Ls[0]))
        if has:
            ex = float(sum(np.sum(a * b) for a, b in zip(grad, dphi)))
            close(ex, ch, "%s: derivative of the annealed bound, from the ordinary gradient" % op,
                  rtol=3e-4, atol=3e-5, scale=sc)
    R.nontrivial(any(np.any(np.abs(g) > 1e-3) for g in rg))
    R.tag(op)


SUBS = [
    Sub("zoo", gen, check, 4000, 120000,
        rule="counts when a variable with observed descendants was updated with annealing"),
    Sub("grad", gen_grad, check_grad, 2500, 80000,
        rule="counts when the gradient of a fully active variable is not zero"),
]
