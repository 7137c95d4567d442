"""C31: point estimates.

GammaShape and Concentration: after an update the estimate is the stationary point of the bound,
which the check derives from the definitions of the densities; the bound counts the
regularisation and never decreases.  MaximumLikelihood / Function: reported gradients are the
derivatives of the bound, and optimising never loses bound.
"""
import numpy as np
from scipy import special, optimize
from vlib import dense as dn
from vlib.harness import Sub, require, close, Skip, finite


class RS(np.random.RandomState):
    def randn(self, *s):
        return np.asarray(super().randn(*s))

    def rand(self, *s):
        return np.asarray(super().rand(*s))


def bound_steps(Q, nodes, case, R, point, stationary, ready=lambda: None):
    """Update in the drawn order; the bound never decreases and each point estimate is
    stationary right after its update."""
    L = None
    for s in case["steps"]:
        n = nodes[s % len(nodes)]
        if n is point:
            ready()
        Q.update(n, repeat=1, verbose=False)
        new = Q.compute_lowerbound()
        require(np.ndim(new) == 0, "the lower bound has shape %s" % (np.shape(new),))
        finite(new, "lower bound")
        if L is not None:
            # the fixed-point iteration stops at a relative step of 1e-5
            require(new >= L - 1e-7 * (1 + abs(L)) - 1e-6,
                    "the bound decreased from %r to %r when updating %s" % (L, new, n.name))
        if n is point:
            stationary()
        L = new
    ready()
    point.update()
    stationary()


# ---------------------------------------------------------------- GammaShape


def gen_shape(d):
    P = d.shape(2, 4)
    return dict(P=P, Pa=d.subshape(P), Pb=d.subshape(P), seed=d.seed(), b=d.bool(), mask=d.bool(),
                kind=d.choice(["obs", "obs", "poi", "gauss", "two"]), reg=d.bool(1, 3),
                steps=[d.int(0, 7) for _ in range(d.int(1, 6))], init=d.bool(1, 3))


def check_shape(c, R):
    import bayespy.nodes as N
    from bayespy.inference import VB
    rs = RS(c["seed"])
    P, Pa, Pb = tuple(c["P"]), tuple(c["Pa"]), tuple(c["Pb"])
    reg = dict(m0=0.8 * rs.randn(), m1=-0.2 - rs.rand()) if c["reg"] else {}
    a = N.GammaShape(plates=Pa, name="a", **reg)
    b = 0.3 + 2 * rs.rand(*Pb)
    nodes = [a]
    if c["b"]:
        b = N.Gamma(1.5, 0.8, plates=Pb, name="b")
        nodes.append(b)
    x = N.Gamma(a, b, plates=P, name="x")
    M = np.ones(P, dtype=bool)
    if c["mask"]:
        M = np.asarray(rs.rand(*P) < 0.7)
    children = [x]
    if c["kind"] in ("obs", "two"):
        x.observe(0.05 + 3 * rs.rand(*P), mask=M)
    else:
        nodes.append(x)
    if c["kind"] == "poi":
        y = N.Poisson(x, name="y")
        y.observe(rs.poisson(3.0, size=P), mask=M)
        nodes.append(y)
    elif c["kind"] == "gauss":
        y = N.GaussianARD(0.3, x, name="y")
        y.observe(rs.randn(*P), mask=M)
        nodes.append(y)
    elif c["kind"] == "two":
        x2 = N.Gamma(a, 1.3, plates=P, name="x2")
        x2.observe(0.05 + rs.rand(*P))
        children.append(x2)
    if not dn.any_to(M, P, Pa).all() and c["kind"] != "two" and not c["reg"]:
        raise Skip()            # no data: no estimate
    st = nodes + [n for n in children if n not in nodes]
    Q = VB(*st, tol=0)
    if c["init"]:
        a.initialize_from_value(0.2 + 3 * rs.rand(*Pa))
    R.tag(c["kind"], "regularised" if c["reg"] else "plain")
    R.nontrivial(len(nodes) > 1 and c["kind"] != "obs" or c["b"])

    def stationary():
        s, n = np.zeros(Pa), np.zeros(Pa)
        for ch in children:
            msk = M if ch is x else np.ones(P, dtype=bool)
            rate = ch.parents[1].get_moments()
            t = dn.bc(ch.get_moments()[1] + rate[1], P, ())
            s = s + dn.sum_to(np.where(msk, t, 0), P, Pa)
            n = n + dn.sum_to(np.where(msk, 1.0, 0.0), P, Pa)
        s, n = s + reg.get("m0", 0), n - reg.get("m1", 0)
        val = dn.bc(a.get_moments()[0], Pa, ())
        require(np.all(val > 0), "the shape estimate is not positive")
        close(special.digamma(val), s / n, "stationarity of the shape estimate", rtol=1e-6,
              atol=1e-6)
        close(dn.bc(a.get_moments()[1], Pa, ()), special.gammaln(val), "log gamma of the shape",
              rtol=1e-9, atol=1e-9)
    bound_steps(Q, nodes, c, R, a, stationary)
    # the bound counts the regularisation exactly once
    tot = sum(n.lower_bound_contribution() for n in st if n is not a)
    val = dn.bc(a.get_moments()[0], Pa, ())
    extra = np.sum(reg.get("m0", 0) * val + reg.get("m1", 0) * special.gammaln(val))
    close(Q.compute_lowerbound() - tot, extra, "regularisation in the bound", rtol=1e-7,
          atol=1e-8 * (1 + abs(tot)))


# ---------------------------------------------------------------- Concentration


def gen_conc(d):
    P = d.shape(2, 4)
    return dict(P=P, Pa=d.subshape(P), seed=d.seed(), mask=d.bool(), K=d.int(2, 4),
                kind=d.choice(["obs", "obs", "cat", "mul", "beta"]),
                reg=d.choice(["default", "none", "given", "default"]),
                steps=[d.int(0, 7) for _ in range(d.int(1, 5))], init=d.bool(1, 3))


def check_conc(c, R):
    import bayespy.nodes as N
    from bayespy.inference import VB
    rs = RS(c["seed"])
    P, Pa, K = tuple(c["P"]), tuple(c["Pa"]), c["K"]
    if c["kind"] == "beta":
        K = 2
    kw = {}
    r0, r1 = np.full(K, np.log(1 / K)), 1.0
    if c["reg"] == "none":
        kw["regularization"] = [None, False][c["seed"] % 2]
        r0, r1 = np.zeros(K), 0.0
    elif c["reg"] == "given":
        r1 = 0.5 + 2 * rs.rand()
        r0 = r1 * np.log(rs.dirichlet(np.ones(K) * 3))
        kw["regularization"] = (r0, r1)
    a = N.Concentration(K, plates=Pa, name="a", **kw)
    nodes = [a]
    M = np.ones(P, dtype=bool)
    if c["mask"]:
        M = np.asarray(rs.rand(*P) < 0.7)
    p = (N.Beta if c["kind"] == "beta" else N.Dirichlet)(a, plates=P, name="p")
    if c["kind"] in ("obs", "beta"):
        v = rs.dirichlet(np.ones(K) * 0.8, size=P) * (1 - 1e-3) + 1e-3 / K
        p.observe(v[..., 0] if c["kind"] == "beta" else v, mask=M)
        st = [a, p]
    else:
        nodes.append(p)
        if c["kind"] == "cat":
            y = N.Categorical(p, plates=P, name="y")
            y.observe(rs.randint(0, K, size=P), mask=M)
        else:
            y = N.Multinomial(5, p, plates=P, name="y")
            y.observe(rs.multinomial(5, np.ones(K) / K, size=P), mask=M)
        st = [a, p, y]
    n = dn.sum_to(np.where(M, 1.0, 0.0), P, Pa) + r1
    if np.any(n < 1.5 + (c["reg"] == "none") * 0.5) or np.any(n - r1 < 1):
        raise Skip()            # no data, or one sample only: the likelihood is unbounded
    Q = VB(*st, tol=0)
    if c["init"]:
        a.initialize_from_value(0.2 + 3 * rs.rand(*(Pa + (K,))))
    R.tag(c["kind"], c["reg"])
    R.nontrivial(len(nodes) > 1 or len(Pa) > 0)

    def mean_log():
        u = dn.bc(p.get_moments()[0], P, (K,))
        s = dn.sum_to(np.where(M[..., None], u, 0), P + (K,), Pa + (K,))
        return (s + r0) / n[..., None], n

    def residual(val, t):
        """Stationarity in units of relative change of the parameters."""
        g = special.digamma(val.sum(-1, keepdims=True)) - special.digamma(val) + t
        return g / (val * special.polygamma(1, val))

    def stationary():
        val = dn.bc(a.get_moments()[0], Pa, (K,))
        finite(val, "concentration")
        require(np.all(val > 0), "the concentration estimate is not positive")
        t, n = mean_log()
        # one more fixed-point step must be below the stopping tolerance
        close(residual(val, t), np.zeros(val.shape), "stationarity of the concentration estimate", rtol=0,
              atol=3e-5)
        z = special.gammaln(val.sum(-1)) - special.gammaln(val).sum(-1)
        close(dn.bc(a.get_moments()[1], Pa, ()), z, "normaliser of the concentration",
              rtol=1e-9, atol=1e-9)

    def ready():
        # close to one, the estimate is very large and the fixed-point iteration very slow
        if np.any(np.exp(mean_log()[0]).sum(-1) > 0.95):
            raise Skip()
    try:
        bound_steps(Q, nodes, c, R, a, stationary, ready)
    except ValueError as e:
        if "because of infs" in str(e):
            raise Skip()
        raise
    tot = sum(q.lower_bound_contribution() for q in st if q is not a)
    val = dn.bc(a.get_moments()[0], Pa, (K,))
    z = special.gammaln(val.sum(-1)) - special.gammaln(val).sum(-1)
    extra = np.sum((val * r0).sum(-1) + r1 * z)
    close(Q.compute_lowerbound() - tot, extra, "regularisation in the bound", rtol=1e-7,
          atol=1e-8 * (1 + abs(tot)))


# ---------------------------------------------------------------- MaximumLikelihood


def gen_ml(d):
    P = d.shape(2, 3)
    return dict(P=P, Pl=d.subshape(P), D=d.int(1, 3), seed=d.seed(), mask=d.bool(),
                kind=d.choice(["gauss", "gauss", "latent", "mix", "wish"]),
                form=d.choice(["direct", "chol", "scale", "two", "sum"]), reg=d.bool(1, 4),
                method=d.choice(["fletcher-reeves", "gradient"]), it=d.int(1, 4))


def check_ml(c, R):
    import bayespy.nodes as N
    from bayespy.inference import VB
    rs = RS(c["seed"])
    P, Pl, D, kind, form = tuple(c["P"]), tuple(c["Pl"]), c["D"], c["kind"], c["form"]
    R.tag(kind, form)
    K = 3
    if kind == "mix":
        Pl = (K,)
    eye = np.eye(D)
    sym = lambda g: g + np.swapaxes(g, -1, -2)
    tr = lambda x: np.swapaxes(x, -1, -2)
    F = lambda x: x @ tr(x) + 0.3 * eye
    W = rs.randn(*(Pl + (D, D)))
    if form == "direct":
        ml = [N.MaximumLikelihood(F(W), name="x")]
        Lam = ml[0]
    elif form == "chol":
        ml = [N.MaximumLikelihood(W, name="x")]
        Lam = N.Function(F, (ml[0], lambda g, x: sym(g) @ x))
    elif form == "scale":
        V = F(W)
        ml = [N.MaximumLikelihood(0.3 * rs.randn(*Pl), name="x")]
        Lam = N.Function(lambda x: np.exp(x)[..., None, None] * V,
                         (ml[0], lambda g, x: np.exp(x) * (g * V).sum((-1, -2))))
    elif form == "two":
        V = rs.randn(*(Pl + (D,)))
        ml = [N.MaximumLikelihood(W, name="x"), N.MaximumLikelihood(V, name="v")]
        Lam = N.Function(lambda x, v: F(x) + (v ** 2)[..., None] * eye,
                         (ml[0], lambda g, x, v: sym(g) @ x),
                         (ml[1], lambda g, x, v: 2 * v * np.diagonal(g, axis1=-2, axis2=-1)))
    else:
        # two functions in a row
        ml = [N.MaximumLikelihood(W, name="x")]
        mid = N.Function(lambda x: np.tanh(x) + 0.1 * x,
                         (ml[0], lambda g, x: g * (1.1 - np.tanh(x) ** 2)))
        Lam = N.Function(F, (mid, lambda g, x: sym(g) @ x))
    m0 = rs.randn(D)
    st = []
    mu = m0
    M = np.ones(P, dtype=bool)
    if c["mask"]:
        M = np.asarray(rs.rand(*P) < 0.7)
    data = rs.randn(*(P + (D,)))
    if kind in ("gauss", "latent", "mix"):
        if kind == "latent":
            mu = N.GaussianARD(m0, 0.7, shape=(D,), plates=P, name="mu")
            st.append(mu)
        if kind == "mix":
            z = N.Categorical(rs.dirichlet(np.ones(K), size=P), plates=P, name="z")
            y = N.Mixture(z, N.Gaussian, m0, Lam, plates=P, name="y")
            st.append(z)
        else:
            y = N.Gaussian(mu, Lam, plates=P, name="y")
        y.observe(data, mask=M)
        st.append(y)
    else:
        w = N.Wishart(D + 1.5, Lam, plates=P, name="w")
        y = N.Gaussian(m0, w, name="y")
        y.observe(data, mask=M)
        st += [w, y]
    Q = VB(*(st + ml), tol=0)
    for n in st:
        if n is not y:
            n.update()
    R.nontrivial(form != "direct" and bool(M.any()))
    bounded = kind in ("latent", "wish") and False

    def gradients():
        for x in ml:
            g = x.get_gradient(x.get_riemannian_gradient())
            require(len(g) == 1, "gradient has %d arrays" % len(g))
            x0 = np.array(x.get_parameters()[0])
            # the reported gradient broadcasts to the parameters
            g = np.broadcast_to(np.asarray(g[0]), x0.shape)
            scale = 1 + np.abs(g).max(initial=0)
            todo = list(np.ndindex(x0.shape))
            for k in rs.permutation(len(todo))[:6]:
                i = todo[k]
                E = np.zeros(x0.shape)
                E[i] = 1
                if form == "direct":
                    E = np.maximum(E, np.swapaxes(E, -1, -2))
                h = 1e-3
                f = {}
                for s in (-2, -1, 1, 2):
                    x.set_parameters([x0 + s * h * E])
                    f[s] = Q.compute_lowerbound()
                x.set_parameters([x0])
                num = (8 * (f[1] - f[-1]) - (f[2] - f[-2])) / (12 * h)
                err = abs(8 * (f[1] - f[-1]) / 12 - 2 * (f[2] - f[-2]) / 12) / h
                close((g * E).sum(), num, "gradient of %s" % x.name, rtol=1e-5,
                      atol=1e-6 * scale + 1e-4 * abs(num - (f[1] - f[-1]) / (2 * h)))
    gradients()
    if form == "direct":
        return
    x0 = [np.array(x.get_parameters()[0]) for x in ml]
    L0 = Q.compute_lowerbound()
    try:
        Q.optimize(*ml, maxiter=c["it"], method=c["method"], riemannian=False, verbose=False)
    except (np.linalg.LinAlgError, FloatingPointError):
        raise Skip()
    L1 = Q.compute_lowerbound()
    require(L1 >= L0 - 1e-9 * (1 + abs(L0)), "optimize lost bound: %r to %r" % (L0, L1))
    for x, v in zip(ml, x0):
        require(np.shape(x.get_parameters()[0]) == v.shape, "optimize changed the shape of %s" %
                x.name)
    gradients()


SUBS = [
    Sub("shape", gen_shape, check_shape, 1500, 15000,
        rule="latent rate or latent gamma variables"),
    Sub("concentration", gen_conc, check_conc, 1200, 12000,
        rule="latent probabilities or plates of concentrations"),
    Sub("ml", gen_ml, check_ml, 1000, 10000,
        rule="a parameter behind a function, observations present"),
]
