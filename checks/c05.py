"""C05: reported (log) densities are the densities of the distributions."""
import itertools
import numpy as np
from scipy import special, stats
from vlib import dense as dn, single
from vlib.harness import Sub, require, close, same_shape

KINDS = [k for k in single.MORE if k != "cmc"]
LOG2PI = np.log(2 * np.pi)


def values(c, rs, P):
    """Values of the variable with plates P (the node's argument, dense moments, base measure)."""
    t, S = c["t"], tuple(c["S"])
    if t == "gmc":
        x = rs.randn(*(P + S))
        u = [x, x[..., :, None] * x[..., None, :], x[..., :-1, :, None] * x[..., 1:, None, :]]
        return x, u, -0.5 * S[0] * S[1] * LOG2PI
    if t == "poi":
        x = rs.poisson(2.0, size=P)
        return x, [x], -special.gammaln(x + 1.0)
    if t == "bin":
        x = rs.randint(0, S[0] + 1, size=P)
        return x, [x], np.log(special.comb(S[0], x))
    if t == "mul":
        x = rs.multinomial(S[1], np.ones(S[0]) / S[0], size=P)
        return x, [x], special.gammaln(S[1] + 1.0) - special.gammaln(x + 1.0).sum(-1)
    if t == "gg":
        x, tau = rs.randn(*(P + S)), 0.2 + 2 * rs.rand(*P)
        tt = np.asarray(tau)
        u = [x * tt[..., None], x[..., :, None] * x[..., None, :] * tt[..., None, None], tt,
             np.log(tt)]
        return (x, tau), u, (S[0] / 2 - 1) * np.log(tt) - S[0] / 2 * LOG2PI
    x = dn.random_value(t, rs, P, S)
    u = dn.fixed_moments(t, x, S)
    if t == "g":
        f = -0.5 * dn.size(S) * LOG2PI
    elif t == "ga":
        f = -np.log(x)
    elif t == "w":
        f = -(S[0] + 1) / 2 * np.linalg.slogdet(x)[1]
    elif t == "d":
        f = -np.log(x).sum(-1)
    else:
        f = 0.0
    if c["kind"] == "beta":
        x = x[..., 0]
    return x, u, f


def gen_dense(d):
    c = single.draw(d, KINDS)
    c["seed"] = d.seed()
    c["extra"] = d.shape(2, 3)
    c["set"] = d.bool(2, 3)
    c["sub"] = d.subshape(c["P"])
    return c


def check_dense(c, R):
    rs = np.random.RandomState(c["seed"])
    t, P, S = c["t"], tuple(c["P"]), tuple(c["S"])
    par = single.params(c, rs)
    node = single.build(c, par)
    if c["set"]:
        sub = (1,) * (len(P) - len(c["sub"])) + tuple(c["sub"])
        phi = dn.random_phi(t, rs, sub, S)
        node.set_parameters(phi)
    else:
        phi = single.prior_phi(c, par)
    Q = tuple(c["extra"]) + P
    x, u, f = values(c, rs, Q)
    dd = dn.dims_of(t, S)
    want = f + dn.dot_u([dn.bc(p, Q, k) for p, k in zip(phi, dd)], u, Q, dd) \
        - dn.logpartition(t, phi, P, S)
    got = node.logpdf(x)
    close(got, want, "%s: log density" % c["kind"], rtol=1e-9, scale=1.0)
    close(node.pdf(x), np.exp(want), "%s: density" % c["kind"], rtol=1e-7)
    R.nontrivial(dn.size(Q) * dn.size(S) > 1)
    R.tag(c["kind"], "set" if c["set"] else "prior")


# --------------------------------------------------------------- scipy.stats

SC = ["g0", "g1", "gauss", "ga", "w", "d", "beta", "c", "poi", "bern", "bin", "mul", "gg", "gmc"]


def gen_scipy(d):
    c = single.draw(d, SC, maxplates=1)
    c["seed"] = d.seed()
    c["zero"] = d.bool(1, 4) and c["kind"] in ("c", "mul")
    return c


def ref(c, par, x, i):
    """Log density of one element with scipy."""
    k, S = c["kind"], tuple(c["S"])
    a = [np.asarray(p)[i] for p in par]
    if k == "gg":
        x0, tau = x[0][i], np.asarray(x[1])[i]
        return (stats.gamma(a[2], scale=1 / a[3]).logpdf(tau) + stats.multivariate_normal(
            a[0], np.linalg.inv(a[1] * tau)).logpdf(x0))
    x = np.asarray(x)[i]
    if k in ("g0", "g1"):
        return stats.norm(a[0], 1 / np.sqrt(a[1])).logpdf(x).sum()
    if k == "gauss":
        return stats.multivariate_normal(a[0], np.linalg.inv(a[1])).logpdf(x)
    if k == "ga":
        return stats.gamma(a[0], scale=1 / a[1]).logpdf(x)
    if k == "w":
        return stats.wishart(a[0], np.linalg.inv(a[1])).logpdf(x)
    if k == "d":
        return stats.dirichlet(a[0]).logpdf(x)
    if k == "beta":
        return stats.beta(a[0][0], a[0][1]).logpdf(x)
    if k == "c":
        return np.log(a[0][x])
    if k == "poi":
        return stats.poisson(a[0]).logpmf(x)
    if k in ("bern", "bin"):
        return stats.binom(S[0], a[0]).logpmf(x)
    if k == "mul":
        return stats.multinomial(S[1], a[0]).logpmf(x)
    if k == "gmc":
        m, L, A, nu = a
        r = stats.multivariate_normal(m, np.linalg.inv(L)).logpdf(x[0])
        for n in range(1, S[0]):
            r += stats.norm(A[n - 1] @ x[n - 1], 1 / np.sqrt(nu[n - 1])).logpdf(x[n]).sum()
        return r


def check_scipy(c, R):
    rs = np.random.RandomState(c["seed"])
    P = tuple(c["P"])
    par = single.params(c, rs)
    if c["zero"]:
        p = par[0]
        p[..., 0] = 0.0
        par = [p / p.sum(-1, keepdims=True)]
    node = single.build(c, par)
    x, _, _ = values(c, rs, P)
    if c["kind"] == "c":
        x = np.asarray(x)
    with np.errstate(all="ignore"):
        want = np.array([ref(c, par, x, i) for i in np.ndindex(*P)]).reshape(P)
    close(node.logpdf(x), want, "%s: log density against scipy" % c["kind"], rtol=1e-8, scale=1.0)
    close(node.pdf(x), np.exp(want), "%s: density against scipy" % c["kind"], rtol=1e-7)
    R.nontrivial(dn.size(P) * dn.size(c["S"]) > 1)
    R.tag(c["kind"], "zero probability" if c["zero"] else "positive")


# ------------------------------------------------------------ Gaussian-gamma

def gen_gg(d):
    D = d.int(1, 4)
    return dict(D=D, keep=[i for i in range(D) if d.bool()], rev=d.bool(1, 3), set=d.bool(),
                gamma=d.bool(), seed=d.seed(), X=d.shape(2, 3), P=d.shape(2, 2))


def check_gg(c, R):
    from bayespy.nodes import GaussianGamma
    rs = np.random.RandomState(c["seed"])
    D = c["D"]
    m, L = rs.randn(D), dn.spd(rs, (), D)
    a, b = 1.2 + 3 * rs.rand(), 0.3 + 2 * rs.rand()
    node = GaussianGamma(m, L, a, b)
    if c["set"]:
        phi = dn.random_phi("gg", rs, (), [D])
        phi[3] = phi[3] + 1.0
        node.set_parameters(phi)
        h, L = dn.gauss_from_phi(phi[:2], (), (D,))
        m = np.linalg.solve(L, h)
        a = float(phi[3])
        b = float(-phi[2] - 0.5 * h @ m)
    C = np.linalg.inv(L)
    keep = c["keep"][::-1] if c["rev"] else c["keep"]
    if not keep and not c["gamma"]:
        keep = [0]
    X = tuple(c["X"])
    K = len(keep)
    x = rs.randn(*(X + (K,))) * 2
    tau = np.asarray(0.2 + 2 * rs.rand(*X))
    mk, Ck = m[keep], C[np.ix_(keep, keep)]
    lg = stats.gamma(a, scale=1 / b)
    if not keep:
        got = node.get_marginal_logpdf(gaussian=None, gamma=True)(tau)
        want = lg.logpdf(tau)
    elif not c["gamma"]:
        got = node.get_marginal_logpdf(gaussian=keep)(x)
        want = stats.multivariate_t(mk, Ck * b / a, df=2 * a).logpdf(x)
    else:
        got = node.get_marginal_logpdf(gaussian=keep, gamma=True)(
            np.concatenate([x, tau[..., None]], axis=-1))
        want = np.zeros(X)
        for i in np.ndindex(*X):
            want[i] = stats.multivariate_normal(mk, Ck / tau[i]).logpdf(x[i]) + lg.logpdf(tau[i])
    close(got, np.reshape(want, X), "marginal log density", rtol=1e-7, scale=1.0)
    # mean, variance and location, with plates
    P = tuple(c["P"])
    node = GaussianGamma(rs.randn(*(P + (D,))), dn.spd(rs, P, D), 1.5 + rs.rand(*P),
                         0.5 + rs.rand(*P), plates=P)
    phi = dn.random_phi("gg", rs, P, [D])
    phi[3] = phi[3] + 1.0
    node.set_parameters(phi)
    h, L = dn.gauss_from_phi(phi[:2], P, (D,))
    m = np.linalg.solve(L, h[..., None])[..., 0]
    C = np.linalg.inv(L)
    a, b = phi[3], -phi[2] - 0.5 * (h * m).sum(-1)
    mu, var = node.get_gaussian_mean_and_variance()
    close(mu, m, "mean of the Gaussian", rtol=1e-8)
    close(var, np.einsum("...ii->...i", C) * np.asarray(b / (a - 1))[..., None],
          "variance of the Gaussian", rtol=1e-8)
    close(node.get_gaussian_location(), m, "location of the Gaussian", rtol=1e-8)
    R.nontrivial(D > 1)
    R.tag("gamma" if c["gamma"] else "t", "keep%d" % K)


# ---------------------------------------------------- integrated mixture density

def gen_mix(d):
    P = d.shape(2, 3)
    cp = -1 - d.int(0, len(P))
    return dict(kind=d.choice(["gauss", "g0", "ga", "d", "poi", "bern", "c"]), P=P, cp=cp,
                K=d.int(1, 3), D=d.int(2, 3), seed=d.seed(), X=d.shape(2, 3), full=d.bool(),
                rnd=d.bool())


def check_mix(c, R):
    import bayespy.nodes as N
    rs = np.random.RandomState(c["seed"])
    P, K, cp = tuple(c["P"]), c["K"], c["cp"]
    n = len(P) + 1 + cp
    PK = P[:n] + (K,) + P[n:]
    kind, D = c["kind"], c["D"]
    kw = dict(cluster_plate=cp)
    if not c["full"]:
        PK = PK[n:]         # the parameters need not have the plates left to the cluster plate
    if kind == "gauss":
        S, cls, t = (D,), N.Gaussian, "g"
        par = [rs.randn(*(PK + S)), dn.spd(rs, PK, D)]
    elif kind == "g0":
        S = ()
        cls, t = N.GaussianARD, "g"
        par = [rs.randn(*(PK + S)), 0.3 + rs.rand(*(PK + S))]
    elif kind == "ga":
        S, cls, t = (), N.Gamma, "ga"
        par = [0.5 + 2 * rs.rand(*PK), 0.5 + rs.rand(*PK)]
    elif kind == "d":
        S, cls, t = (D,), N.Dirichlet, "d"
        par = [0.5 + 2 * rs.rand(*(PK + S))]
    elif kind == "poi":
        S, cls, t = (), N.Poisson, "poi"
        par = [0.5 + 3 * rs.rand(*PK)]
    elif kind == "bern":
        S, cls, t = (), N.Bernoulli, "bin"
        par = [0.1 + 0.8 * rs.rand(*PK)]
    else:
        S, cls, t = (D,), N.Categorical, "c"
        par = [rs.dirichlet(np.ones(D), size=PK)]
    Z = N.Categorical(rs.dirichlet(np.ones(K), size=P), plates=P)
    if c["rnd"]:
        Z.set_parameters([rs.randn(*(P + (K,)))])
    Y = N.Mixture(Z, cls, *par, plates=P, **kw)
    Q = tuple(c["X"]) + P
    case = dict(kind=kind, t=t, S=[1] if t == "bin" else list(S), P=list(Q))
    x, u, f = values(case, rs, Q)
    p = np.exp(Z.phi[0] - special.logsumexp(np.broadcast_to(Z.phi[0], P + (K,)), axis=-1,
                                            keepdims=True))
    p = np.broadcast_to(p, P + (K,))
    full = P[:n] + (K,) + P[n:]
    tot = np.zeros(Q)
    for k in range(K):
        pk = []
        for q in par:
            dims = np.ndim(q) - len(PK)
            q = np.broadcast_to(q, full + np.shape(q)[len(PK):])
            pk.append(np.take(q, k, axis=n))
        cs = dict(case, P=list(P))
        phi = single.prior_phi(cs, pk)
        SS = tuple(cs["S"])
        dd = dn.dims_of(t, SS)
        lp = f + dn.dot_u([dn.bc(a, Q, b) for a, b in zip(phi, dd)], u, Q, dd) \
            - dn.logpartition(t, phi, P, SS)
        tot = tot + p[..., k] * np.exp(lp)
    got = Y.integrated_logpdf_from_parents(x, 0)
    close(got, np.log(tot), "integrated log density of a mixture (%s)" % kind, rtol=1e-7,
          scale=1.0)
    R.nontrivial(K > 1)
    R.tag(kind, "cluster plate %d" % cp)


# ------------------------------------------------------------ density helpers

def gen_util(d):
    return dict(P=d.shape(2, 3), D=d.int(1, 4), N=d.int(1, 4), K=d.int(2, 3), seed=d.seed(),
                pa=0, inf=d.bool(1, 5))


def check_util(c, R):
    from bayespy.utils import random as br
    rs = np.random.RandomState(c["seed"])
    P, D = tuple(c["P"]), c["D"]
    y, mu, V = rs.randn(*(P + (D,))), rs.randn(*(P + (D,))), dn.spd(rs, P, D)
    e = lambda a, b: np.einsum("...i,...ij,...j->...", a, V, b)
    ld = np.linalg.slogdet(V)[1]
    a, b = 0.4 + 3 * rs.rand(*P), 0.4 + 2 * rs.rand(*P)
    x = 0.2 + 2 * rs.rand(*P)
    nu = 1 + 5 * rs.rand(*P)
    got = br.gaussian_logpdf(e(y, y), e(y, mu), e(mu, mu), ld, D)
    got2 = br.gaussian_entropy(ld, D)
    got3 = br.gamma_logpdf(b * x, np.log(x), a * np.log(x), a * np.log(b), special.gammaln(a))
    got4 = br.gamma_entropy(a, np.log(b), special.gammaln(a), special.psi(a), a * special.psi(a))
    got5 = br.t_logpdf(e(y - mu, y - mu), -ld, nu, D)
    C = np.linalg.inv(V)
    m2, S2, n2 = br.gaussian_gamma_to_t(mu, C, a, b, ndim=1)
    for i in np.ndindex(*P):
        mv = stats.multivariate_normal(mu[i], C[i])
        close(np.asarray(got)[i], mv.logpdf(y[i]), "gaussian_logpdf", rtol=1e-8, scale=1.0)
        close(np.asarray(got2)[i], mv.entropy(), "gaussian_entropy", rtol=1e-8, scale=1.0)
        ga = stats.gamma(np.asarray(a)[i], scale=1 / np.asarray(b)[i])
        close(np.asarray(got3)[i], ga.logpdf(np.asarray(x)[i]), "gamma_logpdf", scale=1.0)
        close(np.asarray(got4)[i], ga.entropy(), "gamma_entropy", scale=1.0)
        close(np.asarray(got5)[i], stats.multivariate_t(mu[i], C[i], df=np.asarray(nu)[i])
              .logpdf(y[i]), "t_logpdf", scale=1.0)
        close(S2[i], C[i] * np.asarray(b)[i] / np.asarray(a)[i], "gaussian_gamma_to_t: scale")
        close(np.asarray(n2)[i], 2 * np.asarray(a)[i], "gaussian_gamma_to_t: degrees of freedom")
    close(br.logodds_to_probability(y), 1 / (1 + np.exp(-y)), "logodds_to_probability")
    # forward-backward recursion against enumeration
    K, N = c["K"], c["N"]
    l0 = rs.randn(*(P + (K,))) * 2
    lP = rs.randn(*(P + (N, K, K))) * 2
    if c["inf"]:
        lP[..., 0, 1] = -np.inf
    z0, zz, g = br.alpha_beta_recursion(l0, lP)
    w0, ww, tot = np.zeros(P + (K,)), np.zeros(P + (N, K, K)), np.zeros(P)
    for z in itertools.product(range(K), repeat=N + 1):
        w = l0[..., z[0]]
        for n in range(N):
            w = w + lP[..., n, z[n], z[n + 1]]
        w = np.exp(w)
        tot = tot + w
        w0[..., z[0]] += w
        for n in range(N):
            ww[..., n, z[n], z[n + 1]] += w
    close(z0, w0 / tot[..., None], "initial state probabilities", rtol=1e-8)
    close(zz, ww / tot[..., None, None, None], "transition probabilities", rtol=1e-8)
    close(g, -np.log(tot), "log normaliser", rtol=1e-8, scale=1.0)
    R.nontrivial(dn.size(P) * D > 1)
    R.tag("N%d" % N)


SUBS = [
    Sub("dense", gen_dense, check_dense, 6000, 150000,
        rule="counts when more than one scalar element is evaluated"),
    Sub("scipy", gen_scipy, check_scipy, 3000, 80000,
        rule="counts when more than one scalar element is evaluated"),
    Sub("gaussgamma", gen_gg, check_gg, 2000, 50000, rule="counts when the Gaussian has 2+ elements"),
    Sub("integrated", gen_mix, check_mix, 3000, 80000, rule="counts when there are 2+ clusters"),
    Sub("helpers", gen_util, check_util, 1500, 40000,
        rule="counts when more than one scalar element is evaluated"),
]
