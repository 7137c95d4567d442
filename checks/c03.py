"""C03: where the posterior is in the family, inference is exact: the update gives the
posterior distribution and the bound is the log evidence."""
import numpy as np
from scipy import special, stats
from vlib import zoo, dense as dn
from vlib.dense import bc, LOG2PI
from vlib.harness import Sub, require, close

RULE = ("a case counts when the latent variable has at least one unobserved plate with observed "
        "descendants")


# ------------------------------------------------ pointwise Bayes in random models

def gen_bayes(d):
    m = zoo.draw_model(d)
    m["which"] = d.int(0, 7)
    m["mode"] = d.int(0, 2)
    return m


def point(t, rs, P, S, phi):
    """A point of the variable's space, and its dense moments."""
    if t in ("g", "ga", "w", "d", "c"):
        x = dn.random_value(t, rs, P, S)
        if rs.rand() < 0.5 and t == "g":
            x = bc(dn.moments_from_phi(t, phi, P, S)[0], P, S) + 0.1 * x
        return dn.fixed_moments(t, x, S)
    if t == "gg":
        x = dn.random_value("g", rs, P, S)
        a = np.asarray(dn.random_value("ga", rs, P, ()))
        n = len(S)
        e = a.reshape(P + (1,) * n)
        e2 = a.reshape(P + (1,) * (2 * n))
        return [x * e, dn.fixed_moments("g", x, S)[1] * e2, a, np.log(a)]
    if t == "gmc":
        x = rs.randn(*(P + tuple(S)))
        xx = x[..., :, None] * x[..., None, :]
        return [x, xx, x[..., :-1, :, None] * x[..., 1:, None, :]]
    if t == "cmc":
        N, K = S
        z = np.eye(K)[rs.randint(0, K, size=P + (N,))]
        return [z[..., 0, :], z[..., :-1, :, None] * z[..., 1:, None, :]]
    raise KeyError(t)


def logbase(t, u, S):
    """log h(x) of the exponential-family form used by vlib.dense."""
    if t == "g":
        return -0.5 * dn.size(S) * LOG2PI
    if t == "ga":
        return -u[1]
    if t == "w":
        return -0.5 * (S[0] + 1) * u[1]
    if t == "d":
        return -u[0].sum(-1)
    if t == "gg":
        return (0.5 * dn.size(S) - 1) * u[3] - 0.5 * dn.size(S) * LOG2PI
    if t == "gmc":
        return -0.5 * S[0] * S[1] * LOG2PI
    return 0.0


def check_bayes(case, R):
    case = dict(case)
    m0 = zoo.Model(case, data=False)
    inner = [i for i in m0.stoch if not m0.recs[i].get("leaf")]
    hard = [i for i in inner if m0.recs[i]["op"] not in zoo.OBSERVABLE]
    if not inner or len(hard) > 1:
        return
    i = hard[0] if hard else inner[case["which"] % len(inner)]
    leaf = {o["i"]: o for o in case["obs"]}
    obs = []
    for j in m0.stoch:
        o = leaf.get(j)
        if m0.recs[j].get("leaf") or j == i:
            if o is not None:
                obs.append(o)
        else:
            obs.append(dict(i=j, seed=(o or {}).get("seed", case["seed"] % 1000 + j), mask=None))
    m = zoo.Model(case, obs=obs)
    m.init_random(case["seed"], mode=case["mode"])
    rec, node = m.recs[i], m.nodes[i]
    t, P, S = rec["own_t"], tuple(rec["own"]), tuple(rec["own_shape"])
    if t in ("cnt", "mn"):
        return
    ob, act = m.observed(i), m.active[i]
    live = act & ~ob
    if not np.any(live):
        return
    node.update()
    phi = m.phi(i)
    A = dn.logpartition(t, phi, P, S)
    L = m.L()
    own = m.own_moments(i)
    dims = dn.dims_of(t, S)
    rs = np.random.RandomState(case["seed"] + 1)
    what = "node %d (%s)" % (i, rec["op"])
    for _ in range(2):
        u0 = [np.broadcast_to(a, P + tuple(di)) for a, di in zip(point(t, rs, P, S, phi), dims)]
        u0 = [np.where(ob.reshape(P + (1,) * len(di)), a, b)
              for a, b, di in zip(own, u0, dims)]
        v = u0
        if rec["op"] == "gmc":
            v = u0[:2]
        elif rec["op"] == "cmc":
            v = [np.concatenate([u0[0][..., None, :], u0[1].sum(axis=-2)], axis=-2)]
        cache = {i: v}
        tot, sc = 0.0, 1.0
        for j in m.stoch:
            r = m.recs[j]
            uj = u0 if j == i else m.own_moments(j)
            e = zoo.mirror_elogp(r, uj, m.parent_moments(r, cache), m.pinfo(r), r["own"])
            e = np.where(m.active[j], e, 0.0)
            tot += float(np.sum(e))
            sc += float(np.sum(np.abs(e)))
        lq = np.where(live, dn.dot_u(phi, u0, P, dims) - A + logbase(t, u0, S), 0.0)
        sc += float(np.sum(np.abs(lq))) + float(np.sum(np.where(live, np.abs(A), 0)))
        close(L, tot - float(np.sum(lq)), "%s: log p(x, data) - log q(x) must be the log "
              "evidence, and the bound equal to it, at every x" % what,
              rtol=1e-8, atol=1e-8, scale=sc)
    # one update is enough
    node.update()
    for a, b, di in zip(m.phi(i), phi, dims):
        close(a, b, "%s: a second update must not change the posterior" % what, rtol=1e-8)
    R.tag(rec["op"])
    R.nontrivial(True)


# ------------------------------------------------------- models with closed forms

def nan(x):
    return np.asarray(x, dtype=float)


def mvn_logpdf(y, m, C):
    if len(y) == 0:
        return 0.0
    r = y - m
    return float(-0.5 * len(y) * LOG2PI - 0.5 * np.linalg.slogdet(C)[1]
                 - 0.5 * r @ np.linalg.solve(C, r))


def gen_reg(d):
    return dict(N=d.int(1, 6), D=d.int(1, 4), M=d.int(1, 3), noise=d.choice(["known", "gg"]),
                prior=d.choice(["ard", "full"]), masked=d.bool(), seed=d.seed(),
                how=d.choice(["sumul", "dot", "einsum"]))


def check_reg(c, R):
    """Linear regression, M outputs sharing the inputs, known or unknown noise."""
    import bayespy.nodes as N
    rs = np.random.RandomState(c["seed"])
    n, D, M = c["N"], c["D"], c["M"]
    X = rs.randn(n, D)
    mu = rs.randn(M, D)
    Y = rs.randn(M, n) * 2
    mask = rs.rand(M, n) < (0.6 if c["masked"] else 2)
    if c["prior"] == "ard" and c["noise"] == "known":
        al = 0.3 + rs.rand(M, D)
        Lam = np.stack([np.diag(a) for a in al])
        W = N.GaussianARD(mu[:, None, :], al[:, None, :], shape=(D,), plates=(M, 1))
    elif c["noise"] == "known":
        Lam = dn.spd(rs, (M,), D)
        W = N.Gaussian(mu[:, None, :], Lam[:, None], plates=(M, 1))
    else:
        Lam = dn.spd(rs, (M,), D)
        a0, b0 = 0.5 + rs.rand(M), 0.5 + rs.rand(M)
        W = N.GaussianGamma(mu[:, None, :], Lam[:, None], a0[:, None], b0[:, None],
                            plates=(M, 1))
    if c["how"] == "dot":
        F = N.SumMultiply("i,i", W, X)
    elif c["how"] == "sumul":
        F = N.SumMultiply("i,i->", X, W)
    else:
        F = N.SumMultiply(W, [0], X, [0], [])
    if c["noise"] == "known":
        tau = 0.5 + rs.rand(M)
        Yn = N.GaussianARD(F, tau[:, None], plates=(M, n))
    else:
        Yn = N.GaussianARD(F, 1, plates=(M, n))
    Yn.observe(Y, mask=mask)
    from bayespy.inference import VB
    Q = VB(W, Yn)
    Q.update(repeat=3, verbose=False)
    L = Q.compute_lowerbound()
    ev = 0.0
    u = W.get_moments()
    for m in range(M):
        k = mask[m]
        Xm, ym = X[k], Y[m, k]
        C0 = np.linalg.inv(Lam[m])
        if c["noise"] == "known":
            ev += mvn_logpdf(ym, Xm @ mu[m], Xm @ C0 @ Xm.T + np.eye(k.sum()) / tau[m])
            Cn = np.linalg.inv(Lam[m] + tau[m] * Xm.T @ Xm)
            mn = Cn @ (Lam[m] @ mu[m] + tau[m] * Xm.T @ ym)
            want = [mn, Cn + np.outer(mn, mn)]
        else:
            C = Xm @ C0 @ Xm.T + np.eye(k.sum())
            r = ym - Xm @ mu[m]
            q = r @ np.linalg.solve(C, r) if k.sum() else 0.0
            nn = k.sum()
            ev += (special.gammaln(a0[m] + nn / 2) - special.gammaln(a0[m])
                   + a0[m] * np.log(b0[m]) - (a0[m] + nn / 2) * np.log(b0[m] + q / 2)
                   - nn / 2 * LOG2PI - 0.5 * (np.linalg.slogdet(C)[1] if nn else 0.0))
            an, bn = a0[m] + nn / 2, b0[m] + q / 2
            Ln = Lam[m] + Xm.T @ Xm
            mn = np.linalg.solve(Ln, Lam[m] @ mu[m] + Xm.T @ ym)
            want = [an / bn * mn, np.linalg.inv(Ln) + an / bn * np.outer(mn, mn), an / bn,
                    special.digamma(an) - np.log(bn)]
        if c["noise"] == "known" or k.sum():
            for i, (a, b) in enumerate(zip(u, want)):
                a = np.broadcast_to(a, (M, 1) + np.shape(b))[m, 0]
                close(a, b, "posterior moment %d of the weights" % i, rtol=1e-8, atol=1e-9)
    close(L, ev, "lower bound and log evidence of linear regression (%s noise)" % c["noise"],
          rtol=1e-8, atol=1e-8, scale=abs(ev) + 10)
    R.tag(c["noise"], c["prior"], c["how"])
    R.nontrivial(bool(mask.any()))


def gen_lds(d):
    return dict(N=d.int(2, 6), D=d.int(1, 3), M=d.int(1, 3), P=d.shape(1, 3), inp=d.int(0, 2),
                vary=d.bool(), masked=d.bool(2, 3), mode=d.choice(["rows", "matrix"]),
                rep=d.choice([1, 2]), seed=d.seed(), full=d.bool(), uconst=d.bool(1, 3),
                which=[d.int(0, 2) for _ in range(5)])


def check_lds(c, R):
    """Kalman smoothing: exact state posterior and likelihood."""
    import bayespy.nodes as N
    from bayespy.inference import VB
    rs = np.random.RandomState(c["seed"])
    n, D, M, P, K = c["N"], c["D"], c["M"], tuple(c["P"]), c["inp"]

    def sub(i):
        # the plates of a parameter: all of them, all as unit axes, or none
        k = 0 if c["full"] else c["which"][i]
        return P if k == 0 else (1,) * len(P) if k == 1 else ()
    mu, Lam = rs.randn(*(sub(0) + (D,))), dn.spd(rs, sub(1), D)
    sh = sub(2) + ((n - 1,) if c["vary"] else (1,))
    A = rs.randn(*(sh + (D, D))) * 0.6
    v = 0.5 + rs.rand(*(sub(3) + (1, D)))
    tu = n - 1 if not c["uconst"] else 1
    U = rs.randn(*(sub(4) + (tu, K)))
    B = rs.randn(*(sh + (D, K)))
    AB = np.concatenate([A, B], -1)
    kw = {}
    if K:
        kw["inputs"] = U
    X = N.GaussianMarkovChain(mu, Lam, AB if c["vary"] or sub(2) else AB[0],
                              v if sub(3) or c["vary"] else v[0], n=n, plates=P, **kw)
    mu, Lam = np.broadcast_to(mu, P + (D,)), np.broadcast_to(Lam, P + (D, D))
    A = np.broadcast_to(A, P + (n - 1, D, D))
    B = np.broadcast_to(B, P + (n - 1, D, K))
    v, U = np.broadcast_to(v, P + (1, D))[..., 0, :], np.broadcast_to(U, P + (n - 1, K))
    Cm = rs.randn(*((M,) + (1,) * len(P) + (1, D)))
    if c["mode"] == "rows":
        F = N.SumMultiply("d,d", Cm, X)
    else:
        F = N.SumMultiply(X, [0], Cm, [0])
    tau = 0.5 + rs.rand(M)
    Y = N.GaussianARD(F, tau.reshape((M,) + (1,) * (len(P) + 1)), plates=(M,) + P + (n,))
    y = rs.randn(*((M,) + P + (n,))) * 2
    mask = rs.rand(*y.shape) < (0.5 if c["masked"] else 2)
    Y.observe(y, mask=mask)
    Q = VB(X, Y)
    Q.update(repeat=c["rep"], verbose=False)
    L = Q.compute_lowerbound()
    u = X.get_moments()
    ev = 0.0
    for p in np.ndindex(*P):
        # dense joint of the whole trajectory
        m = np.zeros((n, D))
        T = np.zeros((n, D, n, D))         # x = T e, e_0 ~ N(mu, Lam^-1), e_k ~ N(0, 1/v)
        m[0] = mu[p]
        T[0, :, 0, :] = np.linalg.cholesky(np.linalg.inv(Lam[p]))
        for k in range(n - 1):
            Ak, Bk = A[p][k], B[p][k]
            m[k + 1] = Ak @ m[k] + (Bk @ U[p][k] if K else 0)
            T[k + 1] = np.einsum("ij,jab->iab", Ak, T[k])
            T[k + 1, :, k + 1, :] += np.diag(1 / np.sqrt(v[p]))
        T = T.reshape(n * D, n * D)
        S0 = T @ T.T
        rows, ys, nz = [], [], []
        for j in range(M):
            for k in range(n):
                if mask[(j,) + p + (k,)]:
                    h = np.zeros((n, D))
                    h[k] = Cm[j].reshape(D)
                    rows.append(h.ravel())
                    ys.append(y[(j,) + p + (k,)])
                    nz.append(1 / tau[j])
        if not rows:
            continue
        H, ys, Rn = np.array(rows), np.array(ys), np.diag(nz)
        Cy = H @ S0 @ H.T + Rn
        ev += mvn_logpdf(ys, H @ m.ravel(), Cy)
        G = S0 @ H.T @ np.linalg.inv(Cy)
        mn = (m.ravel() + G @ (ys - H @ m.ravel()))
        Sn = (S0 - G @ H @ S0 + np.outer(mn, mn)).reshape(n, D, n, D)
        close(np.broadcast_to(u[0], P + (n, D))[p], mn.reshape(n, D), "smoothed mean", rtol=1e-7,
              atol=1e-8)
        close(np.broadcast_to(u[1], P + (n, D, D))[p], np.stack([Sn[k, :, k] for k in range(n)]),
              "smoothed second moment", rtol=1e-7, atol=1e-8)
        close(np.broadcast_to(u[2], P + (n - 1, D, D))[p],
              np.stack([Sn[k, :, k + 1] for k in range(n - 1)]), "smoothed cross moment",
              rtol=1e-7, atol=1e-8)
    close(L, ev, "lower bound and log likelihood of a linear dynamical system", rtol=1e-8,
          atol=1e-8, scale=abs(ev) + 10)
    R.tag("inputs" if K else "no inputs", "varying" if c["vary"] else "fixed")
    R.nontrivial(bool(mask.any()))


EMIT = ["cat", "gauss", "gard", "poisson", "gamma", "bernoulli", "multinomial", "binomial"]


def gen_hmm(d):
    return dict(N=d.int(1, 5), K=d.int(2, 3), P=d.shape(1, 2), emit=d.choice(EMIT),
                chain=d.bool(3, 4), vary=d.bool(1, 3), zero=d.bool(1, 3), masked=d.bool(),
                own=d.bool(1, 3), seed=d.seed())


def emission(N, kind, rs, sh, K):
    """Parameter constants with plates sh+(K,) (K last), data sampler and log densities."""
    k = sh + (K,)
    if kind == "cat":
        p = rs.dirichlet(np.ones(3), size=k)
        return N.Categorical, [p], (), lambda P: rs.randint(0, 3, size=P), \
            lambda y: np.log(np.take_along_axis(np.broadcast_to(p, y.shape + (K, 3)),
                                                y[..., None, None].repeat(K, -2), -1)[..., 0])
    if kind == "bernoulli":
        p = 0.05 + 0.9 * rs.rand(*k)
        return N.Bernoulli, [p], (), lambda P: rs.randint(0, 2, size=P), \
            lambda y: stats.bernoulli.logpmf(y[..., None], p)
    if kind == "binomial":
        p = 0.05 + 0.9 * rs.rand(*k)
        return N.Binomial, [4, p], (), lambda P: rs.randint(0, 5, size=P), \
            lambda y: stats.binom.logpmf(y[..., None], 4, p)
    if kind == "multinomial":
        p = rs.dirichlet(np.ones(3), size=k)
        return N.Multinomial, [4, p], (3,), lambda P: rs.multinomial(4, np.ones(3) / 3, size=P), \
            lambda y: (special.gammaln(5) - special.gammaln(y + 1).sum(-1)[..., None]
                       + (y[..., None, :] * np.log(p)).sum(-1))
    if kind == "gauss":
        m, L = rs.randn(*(k + (2,))) * 2, dn.spd(rs, k, 2)
        return N.Gaussian, [m, L], (2,), lambda P: rs.randn(*(P + (2,))) * 2, \
            lambda y: (-LOG2PI + 0.5 * np.linalg.slogdet(L)[1] - 0.5 * np.einsum(
                "...i,...ij,...j", y[..., None, :] - m, L, y[..., None, :] - m))
    if kind == "gard":
        m, a = rs.randn(*k) * 2, 0.3 + rs.rand(*k)
        return N.GaussianARD, [m, a], (), lambda P: rs.randn(*P) * 2, \
            lambda y: stats.norm.logpdf(y[..., None], m, a ** -0.5)
    if kind == "poisson":
        r = 0.3 + 4 * rs.rand(*k)
        return N.Poisson, [r], (), lambda P: rs.poisson(2, size=P), \
            lambda y: stats.poisson.logpmf(y[..., None], r)
    if kind == "gamma":
        a, b = 0.5 + 2 * rs.rand(*k), 0.5 + 2 * rs.rand(*k)
        return N.Gamma, [a, b], (), lambda P: 0.1 + rs.rand(*P) * 3, \
            lambda y: stats.gamma.logpdf(y[..., None], a, scale=1 / b)
    raise KeyError(kind)


def check_hmm(c, R):
    """Mixtures and hidden Markov models with known parameters, against enumeration."""
    import bayespy.nodes as N
    from bayespy.inference import VB
    rs = np.random.RandomState(c["seed"])
    K, P, n = c["K"], tuple(c["P"]), c["N"]
    pi = rs.dirichlet(np.ones(K), size=P)
    chain = c["chain"] and n >= 2
    if chain:
        T = rs.dirichlet(np.ones(K), size=P + ((n - 1,) if c["vary"] else ()) + (K,))
        if c["zero"]:
            # a left-to-right chain
            T = T * np.triu(np.ones((K, K)))
            T = T / T.sum(-1, keepdims=True)
        Z = N.CategoricalMarkovChain(pi, T if c["vary"] or not P else T[..., None, :, :], states=n, plates=P)
    else:
        Z = N.Categorical(pi[..., None, :], plates=P + (n,))
    cls, par, dims, draw, logp = emission(N, c["emit"], rs, (P + (n,)) if c["own"] else (), K)
    Y = N.Mixture(Z, cls, *par, plates=P + (n,))
    y = draw(P + (n,))
    mask = rs.rand(*(P + (n,))) < (0.6 if c["masked"] else 2)
    Y.observe(y, mask=mask)
    Q = VB(Z, Y)
    Q.update(repeat=2, verbose=False)
    L = Q.compute_lowerbound()
    lp = np.broadcast_to(logp(np.asarray(y)), P + (n, K))
    lp = np.where(mask[..., None], lp, 0.0)
    ev = 0.0
    u = Z.get_moments()
    for p in np.ndindex(*P):
        if not mask[p].any():
            continue
        paths = dn.cmc_paths(n, K) if chain else None
        with np.errstate(divide="ignore"):
            lpi = np.log(pi[p])
            if chain:
                lT = np.log(T[p])
                lT = lT if c["vary"] else np.broadcast_to(lT, (n - 1, K, K))
        if chain:
            lj = lpi[paths[:, 0]] + sum(lp[p][k][paths[:, k]] for k in range(n))
            lj = lj + sum(lT[k][paths[:, k], paths[:, k + 1]] for k in range(n - 1))
            ev += special.logsumexp(lj)
            w = special.softmax(lj)
            u0 = np.array([w[paths[:, 0] == i].sum() for i in range(K)])
            u1 = np.array([[[w[(paths[:, k] == i) & (paths[:, k + 1] == j)].sum()
                             for j in range(K)] for i in range(K)] for k in range(n - 1)])
            close(np.broadcast_to(u[0], P + (K,))[p], u0, "first state posterior", rtol=1e-8)
            close(np.broadcast_to(u[1], P + (n - 1, K, K))[p], u1, "transition posterior",
                  rtol=1e-8)
        else:
            lj = lpi + lp[p]
            ev += special.logsumexp(lj, axis=-1)[mask[p]].sum()
            close(np.broadcast_to(u[0], P + (n, K))[p], special.softmax(lj, axis=-1),
                  "cluster assignment posterior", rtol=1e-8)
    close(L, ev, "lower bound and log likelihood of a %s with %s observations"
          % ("hidden Markov model" if chain else "mixture", c["emit"]), rtol=1e-8, atol=1e-8,
          scale=abs(ev) + 10)
    R.tag(c["emit"], "chain" if chain else "independent")
    R.nontrivial(bool(mask.any()))


CONJ = ["beta-bernoulli", "beta-binomial", "dirichlet-categorical", "dirichlet-multinomial",
        "gamma-poisson", "gamma-gamma", "gamma-gauss", "wishart-gauss", "gauss-gauss"]


def gen_conj(d):
    return dict(kind=d.choice(CONJ), n=d.int(1, 6), P=d.shape(1, 3), share=d.bool(),
                masked=d.bool(), seed=d.seed(), D=d.int(1, 3))


def check_conj(c, R):
    """Textbook conjugate pairs: posterior parameters and evidence."""
    import bayespy.nodes as N
    from bayespy.inference import VB
    rs = np.random.RandomState(c["seed"])
    n, P, D = c["n"], tuple(c["P"]), c["D"]
    Pp = P + (1,)
    full = P + (n,)
    mask = rs.rand(*full) < (0.6 if c["masked"] else 2)
    kd = c["kind"]
    k1 = mask.astype(float)
    cnt = k1.sum(-1)
    gl = special.gammaln
    if kd in ("beta-bernoulli", "beta-binomial"):
        a = 0.5 + 2 * rs.rand(*(P + (2,)))
        nn = 1 if kd == "beta-bernoulli" else rs.randint(1, 6, size=full)
        x = rs.binomial(nn, 0.4, size=full)
        X = N.Beta(a[..., None, :], plates=Pp)
        Y = N.Bernoulli(X, plates=full) if kd == "beta-bernoulli" else \
            N.Binomial(nn, X, plates=full)
        Y.observe(x, mask=mask)
        s = np.stack([(k1 * x).sum(-1), (k1 * (nn - x)).sum(-1)], -1)
        comb = gl(np.asarray(nn) + 1.0) - gl(x + 1.0) - gl(nn - x + 1.0)
        ev = (k1 * comb).sum() + np.sum(special.betaln(*np.moveaxis(a + s, -1, 0))
                                        - special.betaln(*np.moveaxis(a, -1, 0)))
        want = [special.digamma(a + s) - special.digamma((a + s).sum(-1, keepdims=True))]
    elif kd in ("dirichlet-categorical", "dirichlet-multinomial"):
        K = D + 1
        a = 0.5 + 2 * rs.rand(*(P + (K,)))
        X = N.Dirichlet(a[..., None, :], plates=Pp)
        comb = np.zeros(full)
        if kd == "dirichlet-categorical":
            x = rs.randint(0, K, size=full)
            Y = N.Categorical(X, plates=full)
            oh = np.eye(K)[x]
        else:
            x = oh = rs.multinomial(5, np.ones(K) / K, size=full)
            Y = N.Multinomial(5, X, plates=full)
            comb = gl(6.0) - gl(x + 1.0).sum(-1)
        Y.observe(x, mask=mask)
        s = (k1[..., None] * oh).sum(-2)
        B = lambda z: gl(z).sum(-1) - gl(z.sum(-1))
        ev = (k1 * comb).sum() + np.sum(B(a + s) - B(a))
        want = [special.digamma(a + s) - special.digamma((a + s).sum(-1, keepdims=True))]
    elif kd in ("gamma-poisson", "gamma-gamma", "gamma-gauss"):
        a, b = np.array(0.5 + 2 * rs.rand(*P)), np.array(0.5 + 2 * rs.rand(*P))
        X = N.Gamma(a[..., None], b[..., None], plates=Pp)
        if kd == "gamma-poisson":
            x = rs.poisson(2, size=full)
            Y = N.Poisson(X, plates=full)
            da, db, lc = (k1 * x).sum(-1), cnt, -(k1 * gl(x + 1.0)).sum()
        elif kd == "gamma-gamma":
            x = 0.1 + 3 * rs.rand(*full)
            sh = 0.5 + 2 * rs.rand(*full)
            Y = N.Gamma(sh, X, plates=full)
            da, db = (k1 * sh).sum(-1), (k1 * x).sum(-1)
            lc = (k1 * ((sh - 1) * np.log(x) - gl(sh))).sum()
        else:
            x, mu = rs.randn(*full) * 2, rs.randn(*full)
            Y = N.GaussianARD(mu, X, plates=full)
            da, db, lc = cnt / 2, 0.5 * (k1 * (x - mu) ** 2).sum(-1), -0.5 * LOG2PI * cnt.sum()
        Y.observe(x, mask=mask)
        an, bn = a + da, b + db
        ev = lc + np.sum(gl(an) - gl(a) + a * np.log(b) - an * np.log(bn))
        want = [np.asarray(an / bn), np.asarray(special.digamma(an) - np.log(bn))]
    elif kd == "wishart-gauss":
        V, nu = dn.spd(rs, P, D), np.array(D + 2 * rs.rand(*P))
        X = N.Wishart(nu[..., None], V[..., None, :, :], plates=Pp)
        mu = rs.randn(*(full + (D,)))
        x = rs.randn(*(full + (D,)))
        Y = N.Gaussian(mu, X, plates=full)
        Y.observe(x, mask=mask)
        r = x - mu
        Sx = np.einsum("...n,...ni,...nj->...ij", k1, r, r)
        nn, Vn = nu + cnt, V + Sx
        ld = lambda z: np.linalg.slogdet(z)[1]
        ev = np.sum(-0.5 * D * cnt * LOG2PI + 0.5 * nu * ld(V) - 0.5 * nn * ld(Vn)
                    + 0.5 * (nn - nu) * D * np.log(2)
                    + dn.mvgammaln(nn / 2, D) - dn.mvgammaln(nu / 2, D))
        want = [nn[..., None, None] * np.linalg.inv(Vn),
                dn.mvdigamma(nn / 2, D) + D * np.log(2) - ld(Vn)]
    else:
        L0, L1, m0 = dn.spd(rs, P, D), dn.spd(rs, full, D), rs.randn(*(P + (D,)))
        X = N.Gaussian(m0[..., None, :], L0[..., None, :, :], plates=Pp)
        Y = N.Gaussian(X, L1, plates=full)
        x = rs.randn(*(full + (D,))) * 2
        Y.observe(x, mask=mask)
        ev = 0.0
        M = np.zeros(P + (D,))
        MM = np.zeros(P + (D, D))
        for p in np.ndindex(*P):
            k = mask[p]
            S0 = np.linalg.inv(L0[p])
            nk = int(k.sum())
            C = np.tile(S0, (nk, nk)).reshape(nk * D, nk * D) if nk else np.zeros((0, 0))
            for q, j in enumerate(np.flatnonzero(k)):
                C[q * D:(q + 1) * D, q * D:(q + 1) * D] += np.linalg.inv(L1[p][j])
            ev += mvn_logpdf(x[p][k].ravel(), np.tile(m0[p], nk), C)
            Ln = L0[p] + L1[p][k].sum(0)
            M[p] = np.linalg.solve(Ln, L0[p] @ m0[p] + np.einsum("nij,nj->i", L1[p][k], x[p][k]))
            MM[p] = np.linalg.inv(Ln) + np.outer(M[p], M[p])
        want = [M, MM]
    Q = VB(X, Y)
    Q.update(repeat=2, verbose=False)
    L = Q.compute_lowerbound()
    # a plate without observations contributes nothing: evidence of no data is 1
    close(L, ev, "%s: lower bound and log evidence" % kd, rtol=1e-8, atol=1e-8,
          scale=abs(ev) + 10)
    for i, (a_, b_) in enumerate(zip(X.get_moments(), want)):
        b_ = np.asarray(b_)
        b2 = b_.reshape(P + (1,) + b_.shape[len(P):])
        close(np.broadcast_to(a_, b2.shape), b2, "%s: posterior moment %d" % (kd, i), rtol=1e-8,
              atol=1e-9)
    R.tag(kd)
    R.nontrivial(bool(mask.any()))


# ------------------------------------------ factorised Gaussian models: L <= evidence

def gen_fact(d):
    return dict(k=d.int(2, 3), D=d.int(1, 3), n=d.int(1, 5), how=d.choice(["add", "concat"]),
                hier=d.bool(1, 3), masked=d.bool(1, 2), seed=d.seed(), sweeps=d.int(0, 3),
                order=d.int(0, 5))


def check_fact(c, R):
    """Several Gaussian variables with a joint Gaussian posterior: the bound stays below the
    log evidence, and the converged means are the exact posterior means."""
    import bayespy.nodes as N
    from bayespy.inference import VB
    rs = np.random.RandomState(c["seed"])
    k, D, n = c["k"], c["D"], c["n"]
    W, mus, Cs = [], [], []
    T = []              # prior as a linear map of independent noise
    hier = c["hier"]
    m_prev = None
    for j in range(k):
        m = rs.randn(D)
        L = dn.spd(rs, (), D)
        if hier and j > 0:
            W.append(N.Gaussian(W[j - 1], L))
            m = mus[j - 1]
        else:
            W.append(N.Gaussian(m, L))
        mus.append(m)
        Cs.append(np.linalg.inv(L))
    J = np.zeros((k * D, k * D))
    S0 = np.zeros((k, D, k, D))
    for j in range(k):
        for i in range(k):
            if hier:
                S0[i, :, j, :] = sum(Cs[:min(i, j) + 1])
            elif i == j:
                S0[i, :, i, :] = Cs[i]
    S0 = S0.reshape(k * D, k * D)
    mu = np.concatenate(mus)
    H = rs.randn(n, k * D)
    if c["how"] == "add":
        F = N.Add(*[N.SumMultiply("d,d", W[j], H[:, j * D:(j + 1) * D]) for j in range(k)])
    else:
        F = N.SumMultiply("d,d", N.ConcatGaussian(*W), H)
    tau = 0.5 + rs.rand(n)
    Y = N.GaussianARD(F, tau, plates=(n,))
    y = rs.randn(n) * 2
    mask = rs.rand(n) < (0.6 if c["masked"] else 2)
    Y.observe(y, mask=mask)
    Hm, ym = H[mask], y[mask]
    Cy = Hm @ S0 @ Hm.T + np.diag(1 / tau[mask])
    ev = mvn_logpdf(ym, Hm @ mu, Cy)
    G = S0 @ Hm.T @ np.linalg.inv(Cy) if len(ym) else np.zeros((k * D, 0))
    mn = mu + G @ (ym - Hm @ mu)
    order = [W[(j + c["order"]) % k] for j in range(k)]
    Q = VB(*(order + [Y]))
    for w in W:
        if rs.rand() < 0.5:
            w.initialize_from_parameters(rs.randn(D), dn.spd(rs, (), D))
    tol = 1e-8 * (1 + abs(ev))
    for s in range(c["sweeps"]):
        Q.update(*order, repeat=1, verbose=False)
        L = Q.compute_lowerbound()
        require(L <= ev + tol, "lower bound %r exceeds the log evidence %r", float(L), ev)
    if not mask.any():
        return
    Q.update(*order, repeat=2000, tol=1e-14, verbose=False)
    for s in range(100):
        old = np.concatenate([w.get_moments()[0] for w in W])
        Q.update(*order, repeat=20, tol=None, verbose=False)
        if np.max(np.abs(old - np.concatenate([w.get_moments()[0] for w in W]))) < 1e-11:
            break
    else:
        return
    L = Q.compute_lowerbound()
    require(L <= ev + tol, "converged lower bound %r exceeds the log evidence %r", float(L), ev)
    got = np.concatenate([w.get_moments()[0] for w in W])
    close(got, mn, "converged posterior means of a factorised Gaussian model", rtol=1e-5,
          atol=1e-5)
    # the exact gap: KL from the factorised solution to the posterior
    Ln = np.linalg.inv(S0) + Hm.T @ np.diag(tau[mask]) @ Hm
    gap = 0.0
    for j in range(k):
        b = Ln[j * D:(j + 1) * D, j * D:(j + 1) * D]
        gap += 0.5 * np.linalg.slogdet(b)[1]
    gap -= 0.5 * np.linalg.slogdet(Ln)[1]
    close(L, ev - gap, "converged bound: log evidence minus the KL of the factorisation",
          rtol=1e-6, atol=1e-6, scale=abs(ev) + gap)
    R.tag(c["how"], "hierarchy" if hier else "flat")
    R.nontrivial(True)


SUBS = [
    Sub("bayes", gen_bayes, check_bayes, 5000, 200000, rule=RULE),
    Sub("regression", gen_reg, check_reg, 1200, 20000, rule="at least one observation"),
    Sub("lds", gen_lds, check_lds, 1500, 20000, rule="at least one observation"),
    Sub("hmm", gen_hmm, check_hmm, 2000, 30000, rule="at least one observation"),
    Sub("conjugate", gen_conj, check_conj, 2000, 50000, rule="at least one observation"),
    Sub("factorised", gen_fact, check_fact, 200, 8000,
        rule="converged within 2000 sweeps with at least one observation"),
]
