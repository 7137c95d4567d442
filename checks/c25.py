"""C25: equivalent model formulations give the same inference.

Each case builds one model in two formulations that the library documents (or that are equal by
definition of the distributions), runs the same schedule on both and compares the posterior
moments of corresponding variables after every update and the bound up to a known constant.
"""
import numpy as np
from scipy import special
from vlib import dense as dn
from vlib.harness import Sub, require, close, Skip


class Pair:
    """Two formulations: nodes by name, and functions giving comparable quantities."""

    def __init__(self):
        self.A, self.B, self.get = {}, {}, {}
        self.const = 0.0            # bound of A minus bound of B

    def both(self, name, f, get=None):
        """The same node in both models."""
        self.A[name], self.B[name] = f(self.A), f(self.B)
        self.compare(name, get or (lambda n: n.get_moments()),
                     get or (lambda n: n.get_moments()))

    def compare(self, name, ga, gb):
        self.get[name] = (ga, gb)


def run(pr, case, R, latents, rtol=1e-7):
    from bayespy.inference import VB

    def engine(M):
        st = [n for n in M.values() if hasattr(n, "lower_bound_contribution")]
        return VB(*st, tol=0), st
    (QA, sa), (QB, sb) = engine(pr.A), engine(pr.B)

    def moments(what):
        for name, (ga, gb) in pr.get.items():
            for k, (x, y) in enumerate(zip(ga(pr.A[name]), gb(pr.B[name]))):
                x, y = np.asarray(x), np.asarray(y)
                close(x, y, "%s: moment %d of %s" % (what, k, name), rtol=rtol,
                      atol=1e-8 * (1 + np.max(np.abs(y), initial=0)))
    moments("initially")
    n = 0
    for s in case["steps"]:
        name = latents[s % len(latents)]
        QA.update(pr.A[name], repeat=1, verbose=False)
        QB.update(pr.B[name], repeat=1, verbose=False)
        moments("after updating %s" % name)
        n += 1
    for name in latents:
        pr.A[name].update()
        pr.B[name].update()
    moments("after updating everything")
    la, lb = QA.compute_lowerbound(), QB.compute_lowerbound()
    close(la - lb, pr.const, "lower bound difference", rtol=1e-7,
          atol=1e-8 * (1 + sum(abs(np.asarray(x.lower_bound_contribution())) for x in sa)))
    R.nontrivial(n > 0 and len(latents) > 1)


def steps(d):
    return [d.int(0, 7) for _ in range(d.int(1, 6))]


class RS(np.random.RandomState):
    def randn(self, *s):
        return np.asarray(super().randn(*s))

    def rand(self, *s):
        return np.asarray(super().rand(*s))


def mask_of(case, rs, P):
    m = case["mask"]
    if m == 0:
        return True
    M = rs.rand(*P) < 0.7
    return M


def base(d, maxdim=2):
    P = d.shape(maxdim, 3)
    return dict(P=P, seed=d.seed(), steps=steps(d), mask=d.int(0, 1), obs=d.bool(1, 3))


def finish(pr, case, rs, P, latents, ndim, shape):
    """Observe x itself or noisy children of it."""
    import bayespy.nodes as N
    data = rs.randn(*(P + shape)) * 1.5
    M = mask_of(case, rs, P)
    if case["obs"]:
        for m in (pr.A, pr.B):
            m["x"].observe(data, mask=M)
    else:
        latents.append("x")
        for m in (pr.A, pr.B):
            m["tau"] = N.Gamma(2.0, 1.5)
            m["y"] = N.GaussianARD(m["x"], m["tau"], ndim=ndim)
            m["y"].observe(data, mask=M)
        pr.compare("tau", lambda n: n.get_moments(), lambda n: n.get_moments())
        latents.append("tau")


# ------------------------------------------------------------- GaussianARD / Gaussian


def gen_gauss(d):
    c = base(d)
    c["D"] = d.int(1, 3)
    c["Pm"], c["Pa"] = d.subshape(c["P"]), d.subshape(c["P"])
    c["mu"], c["alpha"] = d.int(0, 2), d.int(0, 2)
    c["ad"] = d.bool(2, 3)
    return c


def check_gauss(c, R):
    import bayespy.nodes as N
    rs = RS(c["seed"])
    P, Pm, Pa, D = tuple(c["P"]), tuple(c["Pm"]), tuple(c["Pa"]), c["D"]
    pr, lat = Pair(), []
    m0, a0 = rs.randn(*(Pm + (D,))), 0.3 + rs.rand(*(Pm + (D,)))
    if c["mu"]:
        pr.both("mu", lambda m: N.GaussianARD(m0, a0, shape=(D,), plates=Pm))
        lat.append("mu")
    Sa = Pa + (D if c["ad"] else 1,)
    ga, gb = 0.5 + 2 * rs.rand(*Sa), 0.5 + 2 * rs.rand(*Sa)
    if c["alpha"]:
        pr.both("alpha", lambda m: N.Gamma(ga, gb, plates=Sa))
        lat.append("alpha")
    mean = lambda m: m.get("mu", m0)
    if c["alpha"]:
        pr.A["x"] = N.GaussianARD(mean(pr.A), pr.A["alpha"], shape=(D,), plates=P)
        if not c["ad"]:
            # one precision for all elements
            one = N.GaussianARD(mean(pr.B), pr.B["alpha"], shape=(D,), plates=P)
            pr.B["x"] = one
            if D == 1:
                pr.B["x"] = N.Gaussian(mean(pr.B), pr.B["alpha"].as_diagonal_wishart(), plates=P)
        else:
            pr.B["x"] = N.Gaussian(mean(pr.B), pr.B["alpha"].as_diagonal_wishart(), plates=P)
    else:
        pr.A["x"] = N.GaussianARD(mean(pr.A), ga, shape=(D,), plates=P)
        L = (ga * np.ones(D))[..., None] * np.eye(D)
        pr.B["x"] = N.Gaussian(mean(pr.B), L, plates=P)
    R.tag("alpha latent" if c["alpha"] else "alpha const", type(pr.B["x"]).__name__)
    pr.compare("x", lambda n: n.get_moments(), lambda n: n.get_moments())
    finish(pr, c, rs, P, lat, 1, (D,))
    if lat:
        run(pr, c, R, lat)


# ------------------------------------------------------------- Gamma / Wishart


def gen_wish(d):
    c = base(d)
    c["Pm"], c["Pa"] = d.subshape(c["P"]), d.subshape(c["P"])
    c["form"] = d.choice(["wishart", "wishart", "as_wishart", "vector"])
    c["mu"] = d.bool()
    return c


def check_wish(c, R):
    import bayespy.nodes as N
    rs = RS(c["seed"])
    P, Pm, Pa = tuple(c["P"]), tuple(c["Pm"]), tuple(c["Pa"])
    R.tag(c["form"])
    pr, lat = Pair(), []
    m0, a0 = rs.randn(*Pm), 0.3 + rs.rand(*Pm)
    a, b = 0.6 + 2 * rs.rand(*Pa), 0.5 + 2 * rs.rand(*Pa)
    f = c["form"]
    mA = mB = m0
    if c["mu"]:
        pr.A["mu"] = N.GaussianARD(m0, a0, plates=Pm)
        if f in ("wishart", "vector"):
            pr.B["mu"] = N.GaussianARD(m0[..., None], a0[..., None], shape=(1,), plates=Pm)
            pr.compare("mu", lambda n: n.get_moments(),
                       lambda n: [n.get_moments()[0][..., 0], n.get_moments()[1][..., 0, 0]])
        else:
            pr.B["mu"] = N.GaussianARD(m0, a0, plates=Pm)
            pr.compare("mu", lambda n: n.get_moments(), lambda n: n.get_moments())
        mA, mB = pr.A["mu"], pr.B["mu"]
        lat.append("mu")
    elif f in ("wishart", "vector"):
        mB = m0[..., None]
    squeeze = lambda n: [n.get_moments()[0][..., 0], n.get_moments()[1][..., 0, 0]]
    same = lambda n: n.get_moments()
    pr.A["lam"] = N.Gamma(a, b, plates=Pa)
    lat.append("lam")
    pr.A["x"] = N.GaussianARD(mA, pr.A["lam"], plates=P)
    if f == "wishart":
        pr.B["lam"] = N.Wishart(2 * a, 2 * b[..., None, None], plates=Pa)
        pr.B["x"] = N.Gaussian(mB, pr.B["lam"], plates=P)
        pr.compare("lam", same, lambda n: [n.get_moments()[0][..., 0, 0], n.get_moments()[1]])
        pr.compare("x", same, squeeze)
    elif f == "vector":
        # a diagonal Wishart of a vector of one element
        pr.B["lam"] = N.Gamma(a[..., None], b[..., None], plates=Pa + (1,))
        pr.B["x"] = N.Gaussian(mB, pr.B["lam"].as_diagonal_wishart(), plates=P)
        pr.compare("lam", same, lambda n: [q[..., 0] for q in n.get_moments()])
        pr.compare("x", same, squeeze)
    else:
        pr.B["lam"] = N.Gamma(a, b, plates=Pa)
        pr.B["x"] = N.Gaussian(mB, pr.B["lam"].as_wishart(), ndim=0, plates=P)
        pr.compare("lam", same, same)
        pr.compare("x", same, same)
    data = rs.randn(*P) * 1.5
    M = mask_of(c, rs, P)
    if c["obs"]:
        pr.A["x"].observe(data, mask=M)
        pr.B["x"].observe(data[..., None] if f in ("wishart", "vector") else data, mask=M)
    else:
        lat += ["x", "tau"]
        for m, v in ((pr.A, False), (pr.B, f in ("wishart", "vector"))):
            m["tau"] = N.Gamma(2.0, 1.5)
            m["y"] = N.GaussianARD(m["x"], m["tau"], ndim=int(v))
            m["y"].observe(data[..., None] if v else data, mask=M)
        pr.compare("tau", same, same)
    run(pr, c, R, lat)


# ------------------------------------------------------------- scaled precision matrices


def gen_scaled(d):
    c = base(d)
    c["D"] = d.int(1, 3)
    c["Pm"], c["Pl"] = d.subshape(c["P"]), d.subshape(c["P"])
    c["form"] = d.choice(["alpha", "matrix"])
    c["Pa"] = d.subshape(c["P"] if c["form"] == "alpha" else c["Pl"])
    c["mu"] = d.bool()
    return c


def check_scaled(c, R):
    """alpha*L with one of the two known: whitened variables, or a scaled Wishart prior."""
    import bayespy.nodes as N
    from bayespy.inference.vmp.nodes.wishart import _ScaledWishart
    rs = RS(c["seed"])
    P, Pm, Pa, Pl, D = tuple(c["P"]), tuple(c["Pm"]), tuple(c["Pa"]), tuple(c["Pl"]), c["D"]
    R.tag(c["form"])
    pr, lat = Pair(), []
    same = lambda n: n.get_moments()
    m0, Lm, Ly = rs.randn(*(Pm + (D,))), dn.spd(rs, Pm, D), dn.spd(rs, (), D)
    data = rs.randn(*(P + (D,))) * 1.5
    M = mask_of(c, rs, P)
    T, Ti = np.eye(D), np.eye(D)
    if c["form"] == "alpha":
        T = rs.randn(D, D) + 2 * np.eye(D)          # the known matrix is T T'
        if abs(np.linalg.det(T)) < 0.1:
            raise Skip()
        Ti = np.linalg.inv(T)
    ga, gb = 0.6 + 2 * rs.rand(*Pa), 0.5 + 2 * rs.rand(*Pa)
    V, n = dn.spd(rs, Pl, D), D + 0.5 + 2 * rs.rand(*Pl)

    # a variable v of A is T'v in B
    def mapped(node):
        u = node.get_moments()
        return [u[0] @ T, T.T @ u[1] @ T]
    meanA, meanB = m0, m0 @ T
    if c["mu"]:
        meanA = pr.A["mu"] = N.Gaussian(m0, Lm, plates=Pm)
        meanB = pr.B["mu"] = N.Gaussian(m0 @ T, Ti @ Lm @ Ti.T, plates=Pm)
        pr.compare("mu", mapped, same)
        lat.append("mu")
    if c["form"] == "alpha":
        pr.A["s"] = N.Gamma(ga, gb, plates=Pa)
        pr.B["s"] = N.Gamma(ga[..., None], gb[..., None], plates=Pa + (1,))
        pr.A["x"] = N.Gaussian(meanA, _ScaledWishart(T @ T.T, pr.A["s"], ndim=1), plates=P)
        pr.B["x"] = N.GaussianARD(meanB, pr.B["s"], shape=(D,), plates=P)
        pr.compare("s", same, lambda q: [u[..., 0] for u in q.get_moments()])
    else:
        pr.A["s"] = N.Wishart(n, V, plates=Pl)
        pr.B["s"] = N.Wishart(n, V / ga[..., None, None], plates=Pl)
        pr.A["x"] = N.Gaussian(meanA, pr.A["s"].scale(ga), plates=P)
        pr.B["x"] = N.Gaussian(meanB, pr.B["s"], plates=P)
        pr.compare("s", lambda q: [q.get_moments()[0] * ga[..., None, None],
                                   q.get_moments()[1] + D * np.log(ga)], same)
    lat.append("s")
    pr.compare("x", mapped, same)
    if c["obs"]:
        pr.A["x"].observe(data, mask=M)
        pr.B["x"].observe(data @ T, mask=M)
    else:
        lat.append("x")
        pr.A["y"] = N.Gaussian(pr.A["x"], Ly)
        pr.B["y"] = N.Gaussian(pr.B["x"], Ti @ Ly @ Ti.T)
        pr.A["y"].observe(data, mask=M)
        pr.B["y"].observe(data @ T, mask=M)
    pr.const = np.linalg.slogdet(T)[1] * np.sum(np.broadcast_to(M, P))
    run(pr, c, R, lat, rtol=1e-6)


# ------------------------------------------------------------- discrete families


def gen_disc(d):
    c = base(d)
    c["Pp"] = d.subshape(c["P"])
    c["n"] = d.int(1, 4)
    c["K"] = d.int(2, 4)
    c["rel"] = d.choice(["bern-bin", "bern-cat", "bern-mul", "bin-mul", "cat-mul", "bin-sum",
                         "mul-sum", "poi-perm"])
    c["mix"] = d.bool(1, 3)
    return c


def check_disc(c, R):
    import bayespy.nodes as N
    rs = RS(c["seed"])
    P, Pp, n = tuple(c["P"]), tuple(c["Pp"]), c["n"]
    rel = c["rel"]
    R.tag(rel, "mixture" if c["mix"] else "plain")
    a, b = rel.split("-")
    K = c["K"] if rel in ("cat-mul", "mul-sum") else 2
    if rel in ("bern-bin", "bern-cat", "bern-mul", "cat-mul"):
        n = 1
    pr, lat = Pair(), ["p"]
    M = mask_of(c, rs, P)
    T = 3 if c["mix"] else 0
    Sp = (T,) if T else Pp
    same = lambda q: q.get_moments()
    if rel == "poi-perm":
        ga, gb = 0.5 + 2 * rs.rand(*Sp), 0.5 + 2 * rs.rand(*Sp)
        pr.A["p"], pr.B["p"] = (N.Gamma(ga, gb, plates=Sp) for _ in range(2))
    else:
        al = 0.4 + 2 * rs.rand(*(Sp + (K,)))
        for m, kind in ((pr.A, a), (pr.B, a if b in ("sum", "perm") else b)):
            if kind in ("bern", "bin"):
                m["p"] = N.Beta(al, plates=Sp)
            else:
                m["p"] = N.Dirichlet(al, plates=Sp)
    pr.compare("p", same, same)
    z = None
    if T:
        pz = rs.dirichlet(np.ones(T), size=P)
        pr.both("z", lambda m: N.Categorical(pz, plates=P))
        lat.append("z")

    def child(m, kind, extra=(), count=1):
        pl = P + extra
        arg = [m["p"]]
        zz, pp = m.get("z"), m["p"]
        if extra:
            # a new axis of repetitions behind the plates
            if zz is not None:
                zz = zz[(Ellipsis, None)]
            else:
                pp = pp[(Ellipsis, None)]
        cls = dict(bern=N.Bernoulli, bin=N.Binomial, cat=N.Categorical, mul=N.Multinomial,
                   poi=N.Poisson)[kind]
        pre = (count,) if kind in ("bin", "mul") else ()
        if zz is not None:
            return N.Mixture(zz, cls, *pre, pp, plates=pl)
        return cls(*pre, pp, plates=pl)
    draws = rs.randint(0, K, size=P + (n,))                 # class of every trial
    counts = (draws[..., None] == np.arange(K)).sum(-2)     # (...,K)

    def value(kind):
        if kind in ("bern", "bin"):
            return counts[..., 0]
        if kind == "cat":
            return draws[..., 0]
        return counts
    Mn = np.broadcast_to(np.asarray(M), P)
    if b in ("sum", "perm"):
        pr.A["x"] = child(pr.A, a, count=n)
        if rel == "poi-perm":
            cn = rs.poisson(2.0, size=P + (n,))
            pr.B["x"] = child(pr.B, "poi", extra=(n,))
            pr.B["x"].observe(cn, mask=Mn[..., None])
            pr.A["x"] = child(pr.A, "poi", extra=(n,))
            pr.A["x"].observe(np.sort(cn, axis=-1), mask=Mn[..., None])
        else:
            one = {"bin": "bern", "mul": "cat"}[a]
            pr.B["x"] = child(pr.B, one, extra=(n,))
            pr.A["x"].observe(value(a), mask=M)
            pr.B["x"].observe(draws == 0 if one == "bern" else draws, mask=Mn[..., None])
            lc = special.gammaln(n + 1) - special.gammaln(counts + 1).sum(-1)
            pr.const = np.sum(np.where(Mn, lc, 0))
    else:
        pr.A["x"], pr.B["x"] = child(pr.A, a, count=n), child(pr.B, b, count=n)
        pr.A["x"].observe(value(a), mask=M)
        pr.B["x"].observe(value(b), mask=M)
    run(pr, c, R, lat)


# ------------------------------------------------------------- mixtures, gates and choices


def gen_gate(d):
    c = base(d)
    c["K"] = d.int(2, 4)
    c["D"] = d.int(1, 3)
    c["kind"] = d.choice(["g0", "g1", "gauss", "prec", "cat", "poi", "bern", "rate"])
    c["forms"] = d.choice([["mix", "gate"], ["mix", "gate"], ["choose", "gate"],
                           ["mix", "choose"]])
    c["Px"] = d.subshape(c["P"])
    c["Pz"] = d.subshape(c["P"])
    c["pos"] = d.int(1, 2)
    c["pi"] = d.bool()
    return c


def check_gate(c, R):
    import bayespy.nodes as N
    rs = RS(c["seed"])
    P, Px, Pz, K, D, kind = tuple(c["P"]), tuple(c["Px"]), tuple(c["Pz"]), c["K"], c["D"], c["kind"]
    R.tag(kind, "/".join(c["forms"]))
    pos = min(c["pos"], len(Px) + 1)                # cluster plate counted from the end
    Pt = Px[:len(Px) - (pos - 1)] + (K,) + Px[len(Px) - (pos - 1):]
    pr, lat = Pair(), ["t", "z"]
    if c["pi"]:
        al = 0.5 + rs.rand(K)
        pr.both("pi", lambda m: N.Dirichlet(al))
        lat.append("pi")
    pz = rs.dirichlet(np.ones(K), size=Pz)
    pr.both("z", lambda m: N.Categorical(m.get("pi", pz), plates=Pz))
    m0 = rs.randn(*(Pt + (D,)))
    if kind in ("g1", "gauss"):
        pr.both("t", lambda m: N.GaussianARD(m0, 0.7, shape=(D,), plates=Pt))
    elif kind == "g0":
        pr.both("t", lambda m: N.GaussianARD(m0[..., 0], 0.7, plates=Pt))
    elif kind in ("prec", "poi", "rate"):
        pr.both("t", lambda m: N.Gamma(1 + m0[..., 0] ** 2, 1.3, plates=Pt))
    elif kind == "cat":
        al = 0.3 + m0 ** 2
        al = np.concatenate([al, al[..., :1] + 1], axis=-1)
        pr.both("t", lambda m: N.Dirichlet(al, plates=Pt))
    elif kind == "bern":
        pr.both("t", lambda m: N.Beta(np.stack([1 + m0[..., 0] ** 2, 1.5 + 0 * m0[..., 0]], -1),
                                      plates=Pt))
    L = dn.spd(rs, (), D)
    cm = rs.randn(*P)

    def child(m, form):
        t, z = m["t"], m["z"]
        if form == "mix":
            ax = dict(cluster_plate=-pos, plates=P)
            if kind == "g0":
                return N.Mixture(z, N.GaussianARD, t, 1.7, **ax)
            if kind == "g1":
                return N.Mixture(z, N.Gaussian, t, 1.7 * np.eye(D), **ax)
            if kind == "gauss":
                return N.Mixture(z, N.Gaussian, t, L, **ax)
            if kind == "prec":
                return N.Mixture(z, N.GaussianARD, 0.4, t, **ax)
            if kind == "rate":
                return N.Mixture(z, N.Gamma, 1.8, t, **ax)
            cls = dict(cat=N.Categorical, poi=N.Poisson, bern=N.Bernoulli)[kind]
            return N.Mixture(z, cls, t, **ax)
        if form == "gate":
            g = N.Gate(z, t, gated_plate=-pos)
        else:
            parts = []
            for k in range(K):
                ix = (Ellipsis, k) + (slice(None),) * (pos - 1)
                parts.append(t[ix])
            g = N.Choose(z, *parts)
        m["gate"] = g
        if kind == "g0":
            return N.GaussianARD(g, 1.7, plates=P)
        if kind == "g1":
            return N.GaussianARD(g, 1.7 * np.ones(D), shape=(D,), plates=P)
        if kind == "gauss":
            return N.Gaussian(g, L, plates=P)
        if kind == "prec":
            return N.GaussianARD(0.4, g, plates=P)
        if kind == "rate":
            return N.Gamma(1.8, g, plates=P)
        cls = dict(cat=N.Categorical, poi=N.Poisson, bern=N.Bernoulli)[kind]
        return cls(g, plates=P)
    pr.A["x"], pr.B["x"] = child(pr.A, c["forms"][0]), child(pr.B, c["forms"][1])
    for m in (pr.A, pr.B):
        m.pop("gate", None)
    same = lambda q: q.get_moments()
    M = mask_of(c, rs, P)
    if kind in ("g0", "prec"):
        data = rs.randn(*P) * 1.5
    elif kind in ("g1", "gauss"):
        data = rs.randn(*(P + (D,))) * 1.5
    elif kind == "cat":
        data = rs.randint(0, D + 1, size=P)
    elif kind == "poi":
        data = rs.poisson(2.0, size=P)
    elif kind == "rate":
        data = 0.1 + 2 * rs.rand(*P)
    else:
        data = rs.randint(0, 2, size=P)
    if c["obs"] or kind not in ("g0", "g1", "gauss"):
        for m in (pr.A, pr.B):
            m["x"].observe(data, mask=M)
    else:
        # latent x: start both from the same state (a mixture starts at the same mean)
        pr.compare("x", same, same)
        lat.append("x")
        for m in (pr.A, pr.B):
            m["y"] = N.GaussianARD(m["x"], 1.2, ndim=0 if kind == "g0" else 1)
            m["y"].observe(data, mask=M)
    run(pr, c, R, lat)


# ------------------------------------------------------------- dynamic models


def gen_chain(d):
    c = base(d, 1)
    c.update(N=d.int(2, 5), D=d.int(1, 3), K=d.int(1, 3), kind=d.choice(["varying", "switching"]),
             PB=d.subshape(c["P"]), PS=d.subshape(c["P"]), latS=d.bool(2, 3), latB=d.bool(3, 4),
             hmm=d.bool(1, 3))
    return c


def check_chain(c, R):
    import bayespy.nodes as N
    rs = RS(c["seed"])
    P, PB, PS = tuple(c["P"]), tuple(c["PB"]), tuple(c["PS"])
    T, D, K = c["N"], c["D"], c["K"]
    pr, lat = Pair(), ["x"]
    mu, L = rs.randn(D), dn.spd(rs, (), D)
    nu = 0.4 + rs.rand(D)
    R.tag(c["kind"])
    same = lambda q: q.get_moments()
    if c["kind"] == "varying":
        B0, S0 = 0.6 * rs.randn(*(PB + (D, D, K))), rs.randn(*(PS + (T - 1, K)))
        if c["latB"]:
            pr.both("B", lambda m: N.GaussianARD(B0, 1.5, shape=(D, K), plates=PB + (D,)))
            lat.append("B")
        if c["latS"]:
            pr.both("S", lambda m: N.GaussianARD(S0, 2.0, shape=(K,), plates=PS + (T - 1,)))
            lat.append("S")
        B, S = (lambda m: m.get("B", B0)), (lambda m: m.get("S", S0))
        pr.A["x"] = N.VaryingGaussianMarkovChain(mu, L, B(pr.A), S(pr.A), nu, n=T, plates=P)
        if not (c["latB"] or c["latS"]):
            A = np.einsum("...aik,...nk->...nai", B0, S0)
        else:
            # put the time axis of the plates in front of the row axis
            Bb, Sb = B(pr.B), S(pr.B)
            Bn = Bb[(Ellipsis, None, slice(None))] if c["latB"] else B0[..., None, :, :, :]
            Sn = Sb[(Ellipsis, None)] if c["latS"] else S0[..., None, :]
            A = N.SumMultiply("ik,k->i", Bn, Sn)
        pr.B["x"] = N.GaussianMarkovChain(mu, L, A, nu, n=T, plates=P)
    else:
        B0 = 0.6 * rs.randn(*(PB + (K, D, D)))
        z0 = rs.randint(0, K, size=PS + (T - 1,))
        if c["latB"]:
            pr.both("B", lambda m: N.GaussianARD(B0, 1.5, shape=(D,), plates=PB + (K, D)))
            lat.append("B")
        if c["latS"]:
            pz = rs.dirichlet(np.ones(K), size=PS + (T - 1,))
            if c["hmm"] and K > 1:
                Q = rs.dirichlet(np.ones(K), size=(K,))
                pr.both("Z", lambda m: N.CategoricalMarkovChain(np.ones(K) / K, Q,
                                                                states=T - 1, plates=PS)) \
                    if T > 2 else pr.both("Z", lambda m: N.Categorical(pz, plates=PS + (T - 1,)))
            else:
                pr.both("Z", lambda m: N.Categorical(pz, plates=PS + (T - 1,)))
            lat.append("Z")
        B, Z = (lambda m: m.get("B", B0)), (lambda m: m.get("Z", z0))
        pr.A["x"] = N.SwitchingGaussianMarkovChain(mu, L, B(pr.A), Z(pr.A), nu, n=T, plates=P)
        if not c["latB"]:
            raise Skip()            # a constant cannot be gated
        Zb = Z(pr.B)
        if c["latS"]:
            if c["hmm"] and K > 1 and T > 2:
                g = N.Gate(CMC2C(Zb)[(Ellipsis, None)],
                           pr.B["B"][(Ellipsis, None, slice(None), slice(None))], gated_plate=-2)
            else:
                g = N.Gate(Zb[(Ellipsis, None)],
                           pr.B["B"][(Ellipsis, None, slice(None), slice(None))], gated_plate=-2)
        else:
            g = N.Gate(z0[..., None], pr.B["B"][(Ellipsis, None, slice(None), slice(None))],
                       gated_plate=-2)
        pr.B["x"] = N.GaussianMarkovChain(mu, L, g, nu, n=T, plates=P)
    pr.compare("x", same, same)
    data = rs.randn(*(P + (T, D))) * 1.5
    M = mask_of(c, rs, P + (T,))
    if c["obs"]:
        lat.remove("x")
        Mx = mask_of(c, rs, P)
        for m in (pr.A, pr.B):
            m["x"].observe(data, mask=Mx)
    else:
        for m in (pr.A, pr.B):
            m["tau"] = N.Gamma(2.0, 1.5)
            m["y"] = N.GaussianARD(m["x"], m["tau"], ndim=1)
            m["y"].observe(data, mask=M)
        pr.compare("tau", same, same)
        lat.append("tau")
    if lat:
        run(pr, c, R, lat)


def CMC2C(z):
    from bayespy.inference.vmp.nodes.categorical_markov_chain import \
        CategoricalMarkovChainToCategorical
    return CategoricalMarkovChainToCategorical(z)


# ------------------------------------------------------------- axes of variables and plates


def gen_dims(d):
    c = base(d)
    c["S"] = d.shape(3, 3, mindim=1)
    c["nd"] = [d.int(0, len(c["S"])), d.int(0, len(c["S"]))]
    c["prec"] = d.bool()
    c["wrap"] = d.choice(["none", "none", "add", "slice", "dot"])
    c["kind"] = d.choice(["ard", "ard", "gauss", "chain"])
    return c


def check_dims(c, R):
    """A child which sees trailing axes of its parent as plates equals one which sees them as
    axes of the variable."""
    import bayespy.nodes as N
    rs = RS(c["seed"])
    P, S, (i, j) = tuple(c["P"]), tuple(c["S"]), c["nd"]
    kind = c["kind"]
    if kind in ("gauss", "chain"):
        S = S[:1] if kind == "gauss" else (S + (2, 2))[:2]
        i, j = min(i, 1), min(j, 1)
    pr, lat = Pair(), ["x", "tau"]
    R.tag(kind, "%d/%d" % (i, j), c["wrap"])
    m0 = rs.randn(*(P + S))
    if kind == "ard":
        pr.both("x", lambda m: N.GaussianARD(m0, 0.8, shape=S, plates=P))
    elif kind == "gauss":
        L = dn.spd(rs, (), S[0])
        pr.both("x", lambda m: N.Gaussian(m0, L, plates=P))
    else:
        A = 0.5 * rs.randn(S[1], S[1])
        pr.both("x", lambda m: N.GaussianMarkovChain(m0[..., 0, :], np.eye(S[1]), A,
                                                     np.ones(S[1]), n=max(S[0], 2), plates=P))
        P = P + (max(S[0], 2),)
        S = S[1:]
    same = lambda q: q.get_moments()
    t = {}
    for m, nd in ((pr.A, i), (pr.B, j)):
        m["tau"] = N.Gamma(2.0, 1.5)
        x = m["x"]
        if c["wrap"] == "add":
            x = N.Add(x, rs.__class__(c["seed"]).randn(*S)) if kind != "chain" else x
        elif c["wrap"] == "slice" and kind != "chain" and P:
            x = x[(slice(None, None, -1),)]
        elif c["wrap"] == "dot" and kind != "chain":
            ix = "abc"[:len(S)]
            x = N.SumMultiply(ix + "," + ix + "->" + ix, x, RS(c["seed"]).randn(*S))
        m["y"] = N.GaussianARD(x, m["tau"], ndim=nd)
        require(tuple(m["y"].plates) == P + S[:len(S) - nd],
                "plates %s of a child with ndim=%d of a parent with plates %s and shape %s" % (
                    m["y"].plates, nd, P, S))
    pr.compare("tau", same, same)
    data = rs.randn(*(P + S)) * 1.5
    M = np.broadcast_to(np.asarray(mask_of(c, rs, P)), P)
    for m, nd in ((pr.A, i), (pr.B, j)):
        m["y"].observe(data, mask=M.reshape(P + (1,) * (len(S) - nd)) if c["mask"] else True)
    run(pr, c, R, lat)


SUBS = [
    Sub("axes", gen_dims, check_dims, 1500, 15000,
        rule="two or more latent variables, at least one scheduled update"),
    Sub("gaussian", gen_gauss, check_gauss, 1500, 15000,
        rule="two or more latent variables, at least one scheduled update"),
    Sub("wishart", gen_wish, check_wish, 1500, 15000,
        rule="two or more latent variables, at least one scheduled update"),
    Sub("scaled", gen_scaled, check_scaled, 1500, 15000,
        rule="two or more latent variables, at least one scheduled update"),
    Sub("discrete", gen_disc, check_disc, 1500, 15000,
        rule="latent probabilities and assignments, at least one scheduled update"),
    Sub("gate", gen_gate, check_gate, 1500, 15000,
        rule="latent parameters and assignments, at least one scheduled update"),
    Sub("chain", gen_chain, check_chain, 1500, 15000,
        rule="two or more latent variables, at least one scheduled update"),
]
