"""C17: random draws follow the variable's current distribution."""
import numpy as np
from scipy import stats, special
from vlib import dense as dn, single
from vlib.dense import bc
from vlib.harness import Sub, require, close, same_shape, raises

KINDS = [k for k in single.MORE if k not in ("w", "gmc", "gs0", "gs2")]
RULE = "the node has at least two plates or two components"
ALPHA = 1e-6            # three independent samples must each fail at this level


def gen_node(d):
    c = single.draw(d, KINDS)
    c["seed"] = d.seed()
    c["sub"] = d.subshape(c["P"]) if d.bool(1, 3) else list(c["P"])
    c["prior"] = d.bool(1, 4)
    c["mix"] = d.bool(1, 6) and c["kind"] in ("gauss", "ga", "d", "c", "poi", "bern", "g0")
    return c


def build(c, n):
    """A node with n independent copies of its plates, sharing the parameters."""
    import bayespy.nodes as N
    rs = np.random.RandomState(c["seed"])
    t, P, S = c["t"], tuple(c["P"]), tuple(c["S"])
    par = single.params(c, rs)
    cc = dict(c, P=[n] + list(P))
    if c["mix"]:
        Z = N.Categorical(rs.dirichlet(np.ones(2), size=P), plates=(n,) + P)
        cls = {"gauss": N.Gaussian, "ga": N.Gamma, "d": N.Dirichlet, "c": N.Categorical,
               "poi": N.Poisson, "bern": N.Bernoulli, "g0": N.GaussianARD}[c["kind"]]
        node = N.Mixture(Z, cls, *single.params(c, rs, P=P + (2,)), plates=(n,) + P)
    else:
        node = single.build(cc, par)
    if c["prior"] and not c["mix"]:
        phi = single.prior_phi(c, par)
    else:
        sub = [1] * (len(P) - len(c["sub"])) + list(c["sub"])
        phi = dn.random_phi(t, rs, tuple(sub), S)
        phi = [np.asarray(p)[None] if False else np.asarray(p) for p in phi]
        node.set_parameters([p.reshape((1,) * (1 + len(P) + len(di) - p.ndim) + p.shape)
                             for p, di in zip(phi, dn.dims_of(t, S))])
    phi = [bc(p, P, di) for p, di in zip(phi, dn.dims_of(t, S))]
    return node, phi


def chi2(obs, prob, n):
    """p-value of counts against probabilities, pooling rare cells."""
    require(np.all(obs[prob <= 0] == 0), "an impossible value was drawn")
    e = prob * n
    k = e >= 10
    o = np.append(obs[k], obs[~k].sum())
    e = np.append(e[k], max(n - e[k].sum(), 0.0))
    if e[-1] < 10:
        # compare the rare cells on their own (a Poisson tail)
        tail = stats.poisson.sf(o[-1] - 1, e[-1] + 1e-9) if o[-1] else 1.0
        p = 1.0
        if len(o) > 2:
            f = e[:-1] / e[:-1].sum() * o[:-1].sum()
            p = stats.chi2.sf(np.sum((o[:-1] - f) ** 2 / f), len(f) - 1)
        return min(1.0, 2 * min(p, tail))
    return stats.chi2.sf(np.sum((o - e) ** 2 / e), len(o) - 1)


def uniform_p(v):
    """p-value of v (n,) being independent uniform draws."""
    n = len(v)
    p = stats.kstest(v, "uniform").pvalue
    z = 12 * np.mean((v[1:] - 0.5) * (v[:-1] - 0.5)) * np.sqrt(n - 1)
    return min(p, 2 * stats.norm.sf(abs(z)))


def pits(c, X, phi, rs):
    """Per plate: a list of p-values, and a real-valued series for plate correlations."""
    kind, t, S, P = c["kind"], c["t"], tuple(c["S"]), tuple(c["P"])
    out, series = [], []
    for p in np.ndindex(*P):
        ph = [q[p] for q in phi]
        x = (X[0], X[1]) if t == "gg" else X
        if t == "gg":
            x, a = x[0][(slice(None),) + p], x[1][(slice(None),) + p]
        else:
            x = x[(slice(None),) + p]
        n = len(x)
        if t == "g":
            m, mm = dn.moments_from_phi("g", ph, (), S)
            D = dn.size(S)
            C = (mm.reshape(D, D) - np.outer(m, m))
            w = rs.randn(D)
            y = x.reshape(n, D)
            v = stats.norm.cdf((y - m.ravel()) @ w / np.sqrt(w @ C @ w))
            out.append(uniform_p(v))
            z = np.linalg.solve(np.linalg.cholesky(C), (y - m.ravel()).T)
            out.append(uniform_p(stats.chi2.cdf((z ** 2).sum(0), D)))
        elif t == "ga":
            require(np.all(x > 0), "a gamma variable must be positive")
            v = stats.gamma.cdf(x, ph[1], scale=-1 / ph[0])
            out.append(uniform_p(v))
        elif t == "d":
            k = rs.randint(S[0])
            if kind == "beta":
                y = np.stack([x, 1 - x], -1)
            else:
                y = x
            require(np.all((y >= 0) & (y <= 1)), "not probabilities")
            close(y.sum(-1), np.ones(n), "probabilities sum", rtol=1e-9)
            a = ph[0]
            v = stats.beta.cdf(y[:, k], a[k], a.sum() - a[k])
            out.append(uniform_p(v))
            if S[0] > 2:
                j = (k + 1) % S[0]
                s = y[:, j] / (1 - y[:, k])
                out.append(uniform_p(stats.beta.cdf(s, a[j], a.sum() - a[k] - a[j])))
        elif t == "c":
            pr = special.softmax(ph[0])
            out.append(chi2(np.bincount(x, minlength=S[0])[:S[0]], pr, n))
            require(x.min() >= 0 and x.max() < S[0], "not a category")
            v = x
        elif t == "poi":
            r = np.exp(ph[0])
            k = np.arange(int(r + 20 * np.sqrt(r) + 30))
            require(x.min() >= 0 and x.max() < len(k), "Poisson draw %d with rate %g", x.max(), r)
            out.append(chi2(np.bincount(x, minlength=len(k)), stats.poisson.pmf(k, r), n))
            v = x
        elif t == "bin":
            pr = special.expit(ph[0])
            require(x.min() >= 0 and x.max() <= S[0], "binomial draw out of range")
            out.append(chi2(np.bincount(np.asarray(x, int), minlength=S[0] + 1),
                            stats.binom.pmf(np.arange(S[0] + 1), S[0], pr), n))
            v = x
        elif t == "mul":
            pr = special.softmax(ph[0])
            require(np.all(x.sum(-1) == S[1]) and np.all(x >= 0), "multinomial counts")
            k = rs.randint(S[0])
            out.append(chi2(np.bincount(x[:, k], minlength=S[1] + 1),
                            stats.binom.pmf(np.arange(S[1] + 1), S[1], pr[k]), n))
            if S[0] > 2:
                j = (k + 1) % S[0]
                s = x[:, j] + x[:, k]
                out.append(chi2(np.bincount(s, minlength=S[1] + 1),
                                stats.binom.pmf(np.arange(S[1] + 1), S[1], pr[k] + pr[j]), n))
            v = x[:, k]
        elif t == "gg":
            h, L = dn.gauss_from_phi(ph[:2], (), S)
            m = np.linalg.solve(L, h)
            b = -ph[2] - 0.5 * m @ h
            require(np.all(a > 0), "a gamma variable must be positive")
            out.append(uniform_p(stats.gamma.cdf(a, ph[3], scale=1 / b)))
            w = rs.randn(len(m))
            s = np.sqrt(w @ np.linalg.solve(L, w) / a)
            v = stats.norm.cdf((x.reshape(n, -1) - m) @ w / s)
            out.append(uniform_p(v))
            # scale and location must be independent given the scaling
            r = np.corrcoef(stats.rankdata(a), np.abs(v - 0.5))[0, 1]
            out.append(2 * stats.norm.sf(abs(r) * np.sqrt(n)))
        elif t == "cmc":
            z, lj = dn.cmc_logjoint(ph, (), S)
            pr = special.softmax(lj)
            require(x.min() >= 0 and x.max() < S[1], "not a state")
            i = np.ravel_multi_index(tuple(x.T), (S[1],) * S[0])
            out.append(chi2(np.bincount(i, minlength=len(pr)), pr[np.argsort(
                np.ravel_multi_index(tuple(z.T), (S[1],) * S[0]))], n))
            v = x[:, -1]
        series.append(np.asarray(v, float))
    # plates are drawn independently
    for a, b in zip(series[:-1], series[1:]):
        if np.std(a) > 0 and np.std(b) > 0:
            k = min(np.mean(a != np.median(a)), np.mean(b != np.median(b)))
            if k > 0.02:
                r = np.corrcoef(stats.rankdata(a), stats.rankdata(b))[0, 1]
                out.append(2 * stats.norm.sf(abs(r) * np.sqrt(len(a))))
    return out


def check_node(c, R):
    P, S, t = tuple(c["P"]), tuple(c["S"]), c["t"]
    worst = 0.0
    n = 1500
    rs = np.random.RandomState(c["seed"] + 1)
    np.random.seed(c["seed"] % 2 ** 31)
    node, phi = build(c, n)
    vs = {"gmc": S, "cmc": S[:1], "ga": (), "c": (), "poi": (), "bin": (), "mul": S[:1]}.get(t, S)
    if c["kind"] == "beta":
        vs = ()
    for r in range(3):
        X = node.random()
        if t == "gg":
            same_shape(X[0], (n,) + P + S, "GaussianGamma sample")
            same_shape(X[1], (n,) + P, "GaussianGamma sample of the scale")
        else:
            same_shape(X, (n,) + P + vs, "%s sample" % c["kind"])
        ps = pits(c, X, phi, rs)
        worst = min(ps) * len(ps)
        if worst > ALPHA:
            break
    else:
        require(False, "%s%s: samples do not follow the distribution (p < %.1g three times "
                "with %d draws)", c["kind"], " mixture" if c["mix"] else "", worst, n)
    R.tag(c["kind"], "mixture" if c["mix"] else "plain")
    R.nontrivial(dn.size(P) * max(dn.size(vs), 1) > 1)


# -------------------------------------------------------- deterministic functions

def gen_fun(d):
    return dict(D=d.int(1, 3), K=d.int(1, 2), P=d.shape(2, 3), seed=d.seed(), three=d.bool(1, 3),
                keep=d.bool())


def check_fun(c, R):
    """A draw of a sum of products is the function of draws of its inputs."""
    import bayespy.nodes as N
    rs = np.random.RandomState(c["seed"])
    D, P = c["D"], tuple(c["P"])
    n = 2000
    X = N.GaussianARD(rs.randn(*(P + (D,))), 4.0, shape=(D,), plates=(n,) + P)
    A = rs.randn(*(P + (D,)))
    Y = N.GaussianARD(rs.randn(D), 3.0, shape=(D,), plates=(n,) + (1,) * len(P))
    args = [X, Y] + ([A] if c["three"] else [])
    F = N.SumMultiply(",".join(["d"] * len(args)) + ("->d" if c["keep"] else ""), *args)
    np.random.seed(c["seed"] % 2 ** 31)
    m, mm = [np.broadcast_to(u[0], P + u[0].shape[len(P):]) for u in
             [np.broadcast_to(q, (n,) + P + q.shape[1 + len(P):]) for q in F.get_moments()]]
    k = 1 if c["keep"] else 0
    s2 = (np.einsum("...ii->...i", mm) if k else mm) - m ** 2
    for r in range(3):
        f = F.random()
        same_shape(f, (n,) + P + ((D,) if k else ()), "sample of SumMultiply")
        z = np.abs(f.mean(0) - m) / np.sqrt(f.var(0) / n)
        q = np.abs(f.var(0) / s2 - 1)
        if np.max(z) < 5.5 and np.max(q) < 0.6:
            break
    else:
        require(False, "samples of SumMultiply: mean off by %g standard errors, variance by a "
                "factor %g", np.max(z), np.max(q))
    R.nontrivial(True)


# ----------------------------------------------------------------- utils.random

FUN = ["intervals", "mask", "wishart", "invwishart", "covariance", "correlation", "orth", "svd",
       "sphere", "bernoulli", "categorical", "multinomial", "gamma", "dirichlet"]


def gen_util(d):
    return dict(f=d.choice(FUN), D=d.int(1, 4), n=d.int(1, 30), k=d.int(1, 4), gap=d.int(0, 3),
                len=d.int(1, 4), P=d.shape(2, 3), sub=d.int(0, 3), seed=d.seed(),
                how=d.choice(["none", "tuple", "int"]))


def fails3(f, what):
    worst = 0
    for r in range(3):
        p = f()
        if p > ALPHA:
            return
        worst = p
    require(False, "%s: wrong distribution (p < %.1g three times)", what, worst)


def check_util(c, R):
    import bayespy.utils.random as br
    f, D, P = c["f"], c["D"], tuple(c["P"])
    rs = np.random.RandomState(c["seed"])
    np.random.seed(c["seed"] % 2 ** 31)
    n = 1500
    if f == "intervals":
        L, k, g, N = c["len"], c["k"], c["gap"], c["n"]
        need = L * k + g * (k - 1)
        if need > N:
            raises(ValueError, lambda: br.intervals(N, L, amount=k, gap=g),
                   "intervals that do not fit")
        else:
            for _ in range(10):
                x = br.intervals(N, L, amount=k, gap=g)
                same_shape(x, (k,), "intervals")
                require(np.all(x >= 0) and np.all(x + L <= N), "intervals outside the sequence")
                require(np.all(np.diff(x) >= L + g), "intervals overlap or lack the gap: %s", x)
            # every leading gap is possible
            if k == 1 and N - L <= 5:
                z = [int(br.intervals(N, L)[0]) for _ in range(400)]
                require(set(z) <= set(range(N - L + 1)), "interval start")
        R.nontrivial(need <= N and k > 1)
        return
    if f == "mask":
        p = 0.1 + 0.8 * rs.rand()
        x = br.mask(*(P + (200,)), p=p)
        same_shape(x, P + (200,), "mask")
        require(x.dtype == bool, "mask must be boolean")
        fails3(lambda: chi2(np.bincount(br.mask(n, p=p).astype(int), minlength=2),
                            np.array([1 - p, p]), n), "mask")
    elif f in ("wishart", "invwishart"):
        nu = D + c["k"] + (2 if f == "invwishart" else 0)
        V = dn.spd(rs, (), D)
        w = rs.randn(D)
        def p():
            X = np.array([(br.wishart(nu, V) if f == "wishart" else
                           np.linalg.inv(br.invwishart_rand(nu, V))) for _ in range(400)])
            require(X.shape == (400, D, D), "Wishart sample of shape %s, should be (%d, %d)",
                    X.shape[1:], D, D)
            close(X, np.swapaxes(X, -1, -2), "symmetric", rtol=1e-7)
            require(np.all(np.linalg.eigvalsh(X) > 0), "positive definite")
            return uniform_p(stats.chi2.cdf(np.einsum("i,nij,j->n", w, X, w) / (w @ V @ w), nu))
        fails3(p, f)
        raises(ValueError, lambda: br.wishart(D - 1, V), "too few degrees of freedom")
    elif f == "covariance":
        nu = D + c["k"] - 1
        size = {"none": (), "tuple": P, "int": 3}[c["how"]]
        C = br.covariance(D, size=size, nu=nu)
        same_shape(C, ((3,) if c["how"] == "int" else size) + (D, D), "covariance")
        w = rs.randn(D)
        close(C, np.swapaxes(C, -1, -2), "symmetric", rtol=1e-6)
        require(np.all(np.linalg.eigvalsh(C) > 0), "positive definite")
        def p():
            X = np.linalg.inv(br.covariance(D, size=(n,), nu=nu)) * nu
            return uniform_p(stats.chi2.cdf(np.einsum("i,nij,j->n", w, X, w) / (w @ w), nu))
        fails3(p, "covariance")
        raises(ValueError, lambda: br.covariance(D, nu=D - 1), "too few degrees of freedom")
    elif f == "correlation":
        C = br.correlation(D)
        close(np.diag(C), np.ones(D), "unit diagonal")
        close(C, C.T, "symmetric")
        require(np.all(np.linalg.eigvalsh(C) > -1e-9), "positive semidefinite")
    elif f == "orth":
        Q = br.orth(D)
        same_shape(Q, (D, D), "orth")
        close(Q @ Q.T, np.eye(D), "orthogonal", rtol=1e-9)
    elif f == "svd":
        s = np.sort(0.1 + rs.rand(D))[::-1]
        X = br.svd(s)
        close(np.linalg.svd(X)[1], s, "singular values", rtol=1e-8)
    elif f == "sphere":
        def p():
            lat, lon = br.sphere(n)
            same_shape(lat, (n,), "latitude")
            require(np.all(np.abs(lat) <= 90) and np.all(np.abs(lon) <= 180), "degrees")
            return min(uniform_p((lon + 180) / 360), uniform_p((1 + np.sin(np.deg2rad(lat))) / 2))
        fails3(p, "sphere")
    else:
        Pn = (n,) + P
        sub = P[c["sub"]:] if c["sub"] <= len(P) else P
        size = None if c["how"] == "none" else Pn
        ex = Pn if size is None else sub
        full = lambda a, e=(): np.broadcast_to(a, Pn + e)
        if f == "bernoulli":
            p0 = 0.05 + 0.9 * rs.rand(*ex)
            x = br.bernoulli(p0, size=size)
            same_shape(x, Pn, "bernoulli")
            z = (x - full(p0)).sum() / np.sqrt((full(p0) * (1 - full(p0))).sum())
            pv = 2 * stats.norm.sf(abs(z))
            s = full(p0)
            def again():
                y = br.bernoulli(p0, size=size)
                hi = s > np.median(s)
                z1 = (y - s)[hi].sum() / np.sqrt(max((s * (1 - s))[hi].sum(), 1e-9))
                return 2 * stats.norm.sf(abs(z1)) if hi.any() else 1.0
            fails3(again, "bernoulli")
            if pv < ALPHA:
                fails3(lambda: 2 * stats.norm.sf(abs((br.bernoulli(p0, size=size) - s).sum()
                                                     / np.sqrt((s * (1 - s)).sum()))), "bernoulli")
            if c["how"] == "int":
                same_shape(br.bernoulli(0.5, size=7), (7,), "bernoulli")
        elif f == "categorical":
            K = D + 1
            w = rs.gamma(1.0, size=ex + (K,)) + 0.02
            if c["gap"] == 0:
                w[..., 0] = 0
            tot = w.sum(-1, keepdims=True)
            def p():
                x = br.categorical(w, size=size)
                same_shape(x, Pn, "categorical")
                require(x.min() >= 0 and x.max() < K, "category out of range")
                e = full(w / tot, (K,)).reshape(-1, K)
                q = []
                for k in range(K):
                    var = (e[:, k] * (1 - e[:, k])).sum()
                    dev = (x.ravel() == k).sum() - e[:, k].sum()
                    if var == 0:
                        require(dev == 0, "an impossible category was drawn")
                        continue
                    q.append(2 * stats.norm.sf(abs(dev) / np.sqrt(var + 5)))
                return min(q + [1.0]) * K
            fails3(p, "categorical")
            if c["how"] == "int":
                same_shape(br.categorical(np.ones(3), size=7), (7,), "categorical")
            raises(ValueError, lambda: br.categorical(np.array([0.5, -0.1])), "negative")
        elif f == "multinomial":
            K = D + 1
            w = rs.dirichlet(np.ones(K), size=sub)
            nn = rs.randint(1, 6, size=P)
            x = br.multinomial(nn, w)
            same_shape(x, P + (K,), "multinomial")
            require(np.array_equal(x.sum(-1), nn), "counts must sum to the number of trials")
            def p():
                y = br.multinomial(nn, w, size=(300,) + P)
                e = np.broadcast_to(nn[..., None] * w, P + (K,))
                v = np.broadcast_to(nn[..., None] * w * (1 - w), P + (K,))
                z = np.abs(y.sum(0) - 300 * e) / np.sqrt(300 * v + 5)
                return 2 * stats.norm.sf(np.max(z)) * z.size
            fails3(p, "multinomial")
        elif f == "gamma":
            a, b = 0.8 + 2 * rs.rand(*ex), 0.2 + 2 * rs.rand(*ex)
            def p():
                x = br.gamma(a, b, size=size)
                same_shape(x, Pn, "gamma")
                return uniform_p(stats.gamma.cdf(x, full(a), scale=full(b)).ravel()[:4000])
            fails3(p, "gamma")
        elif f == "dirichlet":
            K = D + 1
            a = 0.8 + 2 * rs.rand(*(ex + (K,)))
            def p():
                x = br.dirichlet(a, size=size)
                same_shape(x, Pn + (K,), "dirichlet")
                close(x.sum(-1), np.ones(Pn), "probabilities sum", rtol=1e-9)
                aa = full(a, (K,))
                k = c["k"] % K
                v = stats.beta.cdf(x[..., k], aa[..., k], aa.sum(-1) - aa[..., k])
                return uniform_p(v.ravel()[:4000])
            fails3(p, "dirichlet")
            if c["how"] == "int":
                same_shape(br.dirichlet(np.ones(3), size=7), (7, 3), "dirichlet")
    R.tag(f)
    R.nontrivial(True)


SUBS = [
    Sub("nodes", gen_node, check_node, 1000, 30000, rule=RULE),
    Sub("functions", gen_fun, check_fun, 150, 3000, rule="every case"),
    Sub("utils", gen_util, check_util, 1000, 30000,
        rule="intervals: several intervals that fit; otherwise every case"),
]
