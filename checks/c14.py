"""C14: discrete Markov chains (HMMs) against enumeration of every state path.

Oracle: all K**N paths of every chain are listed; their log weight is the expected log
probability of the initial state, of every transition and of the data emitted along the path.
Marginals, pairwise marginals, log partition function, bound term and the messages to initial
probabilities, transition probabilities and emission parameters follow by summation.
"""
import numpy as np
from scipy import special
from vlib import dense as dn
from vlib.harness import Sub, require, close

LOG2PI = np.log(2 * np.pi)


def gen(d):
    K, N = d.int(2, 3), d.int(2, 4)
    P = d.shape(2, 2)
    T = N - 1
    a = d.choice([d.subshape(P) + [T, K], d.subshape(P) + [1, K], [K]])
    em = []
    for _ in range(d.choice([1, 1, 2, 0])):
        lead = d.choice([[], [], [2], [1]])
        full = lead + P + [N]
        em.append(dict(
            lead=lead, kind=d.choice(["gauss", "cat", "poi", "gate", "take"]),
            par=d.subshape(full) + [K], random=d.bool(),
            mask=d.subshape(full), masked=d.bool(),
            idx=[d.int(0, N - 1) for _ in range(d.int(1, 3))],
            times=d.choice(["all", "all", "fwd", "rev"]) if not lead else "all"))
    return dict(K=K, N=N, P=P, p0=d.subshape(P), A=a, seed=d.seed(), em=em,
                node=[d.bool(2, 3), d.bool(2, 3)], which=d.int(0, 5),
                zero=d.bool(1, 5), q=d.choice(["update", "update", "set"]))


def times_of(e, N):
    ind = np.arange(N)
    if e["times"] == "fwd":
        return ind[1:], slice(1, None)
    if e["times"] == "rev":
        return ind[::-1], slice(None, None, -1)
    return ind, None


def check(case, R):
    import bayespy.nodes as B
    K, N, P = case["K"], case["N"], tuple(case["P"])
    T = N - 1
    rs = np.random.RandomState(case["seed"])
    # parents
    phi, node, logs, arg = {}, {}, {}, {}
    for i, (name, pl) in enumerate((("p0", tuple(case["p0"])), ("A", tuple(case["A"])))):
        if case["node"][i]:
            node[name] = B.Dirichlet(np.full(K, 0.7), plates=pl)
            phi[name] = [rs.gamma(2.0, size=pl + (K,)) + 0.3]
            node[name].set_parameters([np.array(phi[name][0])])
            a = phi[name][0]
            logs[name] = special.digamma(a) - special.digamma(a.sum(-1, keepdims=True))
            arg[name] = node[name]
        else:
            v = rs.dirichlet(np.full(K, 1.5), size=pl)
            if case["zero"] and name == "A":
                v = np.array(v)
                v[..., 0] = np.where(rs.rand(*v.shape[:-1]) < 0.3, 0, v[..., 0])
                v /= v.sum(-1, keepdims=True)
            arg[name] = v
            with np.errstate(divide="ignore"):
                logs[name] = np.log(v)
    Z = B.CategoricalMarkovChain(arg["p0"], arg["A"], states=N, plates=P)
    require(tuple(Z.plates) == P, "plates %s, should be %s", Z.plates, P)
    require(tuple(map(tuple, Z.dims)) == ((K,), (T, K, K)), "dims %s", Z.dims)
    l0 = np.broadcast_to(logs["p0"], P + (K,))
    lA = np.broadcast_to(logs["A"], P + (T, K, K))
    paths = dn.cmc_paths(N, K)
    S = len(paths)
    prior = l0[..., paths[:, 0]]
    for n in range(T):
        prior = prior + lA[..., n, :, :][..., paths[:, n], paths[:, n + 1]]
    # emissions
    lik = np.zeros(P + (N, K))
    live = np.zeros(P, bool)
    emit = []
    for e in case["em"]:
        lead, par = tuple(e["lead"]), tuple(e["par"])
        ts, ix = times_of(e, N)
        kind = e["kind"]
        full = lead + P + (len(ts),)
        par = tuple(1 if (q != 1 and i == len(par) - 2 and len(ts) != N) else q
                    for i, q in enumerate(par))
        zz = Z
        if kind == "take":
            # repeated or reordered plates of the state variable (time is its last plate axis)
            from bayespy.inference.vmp.nodes.take import Take
            from bayespy.inference.vmp.nodes.categorical_markov_chain import \
                CategoricalMarkovChainToCategorical as Conv
            ind = np.array(e["idx"])
            zz = Take(Conv(Z), ind, plate_axis=-1)
            ts, ix = ind, None
            full = lead + P + (len(ts),)
            par = par[:-2] + (1, K) if len(par) > 1 else par
        elif ix is not None:
            from bayespy.inference.vmp.nodes.categorical_markov_chain import \
                CategoricalMarkovChainToCategorical as Conv
            zz = Conv(Z)[(Ellipsis, ix)]
        nt = len(ts)
        mu = None
        if kind == "cat":
            p = rs.dirichlet(np.ones(3), size=par)
            val = rs.randint(0, 3, size=full)
            y = B.Mixture(zz, B.Categorical, p, plates=full)
            lp = np.broadcast_to(np.log(p), full + (K, 3))
            ll = np.take_along_axis(lp, val[..., None, None], axis=-1)[..., 0]
        elif kind == "poi":
            p = rs.gamma(2.0, size=par)
            val = rs.poisson(2.0, size=full)
            y = B.Mixture(zz, B.Poisson, p, plates=full)
            v = val[..., None]
            ll = np.broadcast_to(v * np.log(p) - p - special.gammaln(v + 1), full + (K,))
        else:
            if e["random"] or kind == "gate":
                mu = B.GaussianARD(0, 1, plates=par)
                mphi = dn.random_phi("g", rs, par, ())
                mu.set_parameters([np.array(a) for a in mphi])
                m, mm = dn.moments_from_phi("g", mphi, par, ())
            else:
                m = rs.randn(*par)
                mu, mm = m, m * m
            tau = 0.7
            val = rs.randn(*full)
            if kind == "gate":
                f = B.Gate(zz, mu)
                y = B.GaussianARD(f, tau, plates=full)
            else:
                y = B.Mixture(zz, B.GaussianARD, mu, tau, plates=full)
            v = val[..., None]
            ll = np.broadcast_to(0.5 * np.log(tau) - 0.5 * LOG2PI
                                 - 0.5 * tau * (v * v - 2 * v * m + mm), full + (K,))
            mu = mu if e["random"] or kind == "gate" else None
        if e["masked"]:
            ms = list(e["mask"])
            if kind == "take" or ix is not None:
                ms = ms[:-1] + [nt if ms[-1] == N else 1] if ms else ms
            m0 = rs.rand(*ms) < 0.6 if ms else np.asarray(True)
            y.observe(val, mask=m0)
            mask = np.broadcast_to(m0, full)
        else:
            y.observe(val)
            mask = np.ones(full, bool)
        ll = np.where(mask[..., None], ll, 0)
        tot = ll.sum(0) if lead else ll
        anym = mask.any(0) if lead else mask
        for j, n in enumerate(ts):
            lik[..., n, :] += tot[..., j, :]
        live |= anym.any(-1)
        emit.append((y, mu, val, mask, ts, full, par))
    lw = prior
    for n in range(N):
        lw = lw + lik[..., n, :][..., paths[:, n]]
    if case["q"] == "set":
        # any distribution of the chain
        qphi = dn.random_phi("cmc", rs, P, (N, K))
        Z.set_parameters([np.array(a) for a in qphi])
        lq = dn.cmc_logjoint(qphi, P, (N, K))[1]
    else:
        # masked chains keep what they had: start from the prior
        Z.initialize_from_prior()
        Z.update()
        lq = np.where(live[..., None], lw, prior)
    lz = special.logsumexp(lq, axis=-1, keepdims=True)
    q = np.exp(lq - lz)
    z1 = np.stack([np.stack([(q * (paths[:, n] == k)).sum(-1) for k in range(K)], -1)
                   for n in range(N)], -2)
    z2 = np.zeros(P + (T, K, K))
    for n in range(T):
        for i in range(K):
            for j in range(K):
                z2[..., n, i, j] = (q * ((paths[:, n] == i) & (paths[:, n + 1] == j))).sum(-1)
    u = Z.get_moments()
    lv = live if case["q"] == "update" else np.ones(P, bool)
    close(np.where(lv[..., None], u[0], 0), np.where(lv[..., None], z1[..., 0, :], 0),
          "initial state probabilities", rtol=1e-9, atol=1e-11)
    l3 = lv[..., None, None, None]
    close(np.where(l3, u[1], 0), np.where(l3, z2, 0), "joint state probabilities", rtol=1e-9,
          atol=1e-11)
    from bayespy.inference.vmp.nodes.categorical_markov_chain import \
        CategoricalMarkovChainToCategorical as Conv
    c = Conv(Z)
    require(tuple(c.plates) == P + (N,), "plates of the states %s", c.plates)
    l2 = lv[..., None, None]
    close(np.where(l2, c.get_moments()[0], 0), np.where(l2, z1, 0), "state probabilities",
          rtol=1e-9, atol=1e-11)
    # bound terms
    with np.errstate(invalid="ignore"):
        el = np.where(q > 0, q * prior, 0).sum(-1)
    H = -np.where(q > 0, q * (lq - lz), 0).sum(-1)
    tot = np.where(live, el + H, 0)
    finite = np.all(np.isfinite(tot))
    if finite:
        close(Z.lower_bound_contribution(), tot.sum(), "bound term of the chain", rtol=1e-9,
              atol=1e-9, scale=np.sum(np.abs(tot)))
    # all data terms together
    el = (z1 * lik).sum()
    close(sum([e[0].lower_bound_contribution() for e in emit], 0.0), el,
          "bound terms of the data", rtol=1e-9, atol=1e-9, scale=np.sum(np.abs(z1 * lik)) + 1)
    # messages to the parents of the chain (through their posteriors; prior 0.7)
    for name in sorted(node):
        pl = tuple(case[name])
        nd = node[name]
        nd.update()
        if name == "p0":
            cnt = np.where(live[..., None], z1[..., 0, :], 0)
            want = 0.7 + dn.sum_to(cnt, P + (K,), pl + (K,))
            ok = dn.any_to(live, P, pl)
        else:
            cnt = np.where(live[..., None, None, None], z2, 0)
            # sum over the chain's plates and time onto the parent's plates
            want = 0.7 + dn.sum_to(cnt, P + (T, K, K), pl + (K,))
            ok = dn.any_to(np.broadcast_to(live[..., None, None], P + (T, K)), P + (T, K), pl)
        got = np.broadcast_to(nd.phi[0], pl + (K,))
        close(np.where(ok[..., None], got, 0), np.where(ok[..., None], want, 0),
              "posterior counts of %s" % name, rtol=1e-9, atol=1e-10)
        nd.set_parameters([np.array(phi[name][0])])
    for (y, mu, val, mask, ts, full, par) in emit:
        if mu is None:
            continue
        mu.update()
        w = np.where(mask[..., None], np.broadcast_to(z1[..., list(ts), :], full + (K,)), 0)
        t1 = dn.sum_to(0.7 * w * val[..., None], full + (K,), par)
        t2 = dn.sum_to(-0.35 * w, full + (K,), par)
        ok = dn.any_to(np.broadcast_to(mask[..., None], full + (K,)), full + (K,), par)
        close(np.where(ok, np.broadcast_to(mu.phi[0], par), 0), np.where(ok, t1, 0),
              "first parameter of the emission means", rtol=1e-9, atol=1e-10)
        close(np.where(ok, np.broadcast_to(mu.phi[1], par), 0), np.where(ok, t2 - 0.5, 0),
              "second parameter of the emission means", rtol=1e-9, atol=1e-10)
    R.nontrivial(bool(np.any(live)))
    R.tag(case["q"], *[e["kind"] for e in case["em"]])


SUBS = [
    Sub("hmm", gen, check, 5000, 100000, rule="counts when some chain has relevant data"),
]
