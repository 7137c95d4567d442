"""C32: arrays are read by value: neither their container, memory layout and integer type nor what
happens to them after the call has an effect."""
import numpy as np
from vlib import single, dense as dn
from vlib.harness import Sub, require, close, Skip

RS = np.random.RandomState


# ------------------------------------------------------------------ forms of an array

FORMS = ["fortran", "reversed", "strided", "readonly", "list", "view", "swapped"]
INTS = [np.int8, np.uint8, np.int16, np.uint16, np.int32, np.uint32, np.int64]


def form(a, how):
    """The same numbers in another form."""
    a = np.array(a)
    if a.ndim == 0 and how not in ("list", "readonly"):
        return a
    if how == "fortran":
        return np.asfortranarray(a)
    if how == "reversed":
        ix = (slice(None, None, -1),) * a.ndim
        return np.ascontiguousarray(a[ix])[ix]
    if how == "strided":
        big = np.full([2 * n + 1 for n in a.shape], 7, dtype=a.dtype)
        ix = (slice(1, None, 2),) * a.ndim
        big[ix] = a
        return big[ix]
    if how == "readonly":
        a.flags.writeable = False
        return a
    if how == "list":
        return a.tolist()
    if how == "view":
        # a broadcast view where the values allow it
        for ax in range(a.ndim):
            one = a.take([0], axis=ax) if a.shape[ax] else a
            if a.shape[ax] > 1 and np.all(a == one):
                return np.broadcast_to(one, a.shape)
        return a.view()
    if how == "swapped":
        if a.ndim < 2:
            return a
        return np.ascontiguousarray(np.swapaxes(a, 0, -1)).swapaxes(0, -1)
    raise KeyError(how)


class Giver:
    """Hands arrays over in random forms (or unchanged)."""

    def __init__(self, seed, other, ints=False, lists=True):
        self.rs, self.other, self.ints, self.used, self.held = RS(seed), other, ints, set(), []
        self.forms = [f for f in FORMS if lists or f != "list"]

    def __call__(self, a):
        a = np.array(a)
        h = self.forms[self.rs.randint(len(self.forms))]
        t = INTS[self.rs.randint(len(INTS))]
        keep = self.rs.rand() < 0.25
        if not self.other:
            return a
        if (self.ints and a.dtype != bool and a.size and not keep and np.all(a == np.round(a))
                and np.all(a >= np.iinfo(t).min) and np.all(a <= np.iinfo(t).max)):
            a = a.astype(t)
            self.used.add(t.__name__)
        self.used.add(h)
        b = form(a, h)
        self.held.append((b, np.array(b)))
        return b

    def intact(self, what):
        for b, c in self.held:
            require(np.array_equal(np.asarray(b), c, equal_nan=True),
                    "%s: an array of the user was changed", what)


def whole(c, par, rs):
    """Parameters that are whole numbers, where the distribution allows it."""
    k = c["kind"]
    if k in ("g0", "g1", "g2", "g3", "gauss", "gs0", "gs2"):
        par[0] = np.clip(np.round(par[0] * 40), -120, 250)
        if k[:2] == "ga" or k[:2] == "gs":
            return par
        par[1] = np.round(1 + par[1] * 20)
    elif k in ("ga", "exp", "d", "beta", "poi"):
        par = [np.round(1 + 10 * p) for p in par]
    return par


def value(c, rs, ints):
    """A value in the support, in integers if required."""
    k, P, S = c["kind"], tuple(c["P"]), tuple(c["S"])
    if k == "poi":
        return rs.randint(250, 257, size=P) if ints else rs.poisson(2, size=P)
    if k in ("bern", "bin"):
        return rs.randint(0, S[0] + 1, size=P)
    if k == "mul":
        return rs.multinomial(S[1], np.ones(S[0]) / S[0], size=P)
    if k == "cmc":
        return rs.randint(0, S[1], size=P + (S[0],))
    if k == "gmc":
        x = rs.randn(*(P + S))
        return np.round(60 * x) if ints else x
    x = dn.random_value(c["t"], rs, P, S)
    if k == "beta":
        x = x[..., 0]
    if ints and c["t"] == "g":
        x = np.round(60 * x)
    elif ints and c["t"] == "ga":
        x = np.round(1 + 20 * x)
    elif ints and c["t"] == "w":
        x = np.diag(rs.randint(1, 120, size=S[0])) * np.ones(P + (1, 1))
    return x


SINGLE = [k for k in single.MORE if k not in ("gg", "exp")]


def gen_form(d):
    c = single.draw(d, SINGLE)
    c["seed"] = d.seed()
    c["ints"] = d.bool()
    c["ops"] = [d.choice(["observe", "partial", "value", "set", "params", "update", "prior"])
                for _ in range(d.int(1, 5))]
    return c


def settable(c):
    return c["t"] in ("g", "ga", "w", "d", "c") and c["kind"] not in ("gmc", "cmc")


def history(c, give, done=lambda *a: None):
    """Yields the node after the construction and after each operation."""
    rs = RS(c["seed"])
    t, P, S = c["t"], tuple(c["P"]), tuple(c["S"])
    ints = c.get("ints", False)

    def par():
        p = [np.array(q) for q in single.params(c, rs)]
        return whole(c, p, rs) if ints else p
    p = [give(q) for q in par()]
    node = single.build(c, p)
    done(*p)
    node.update()
    yield "constructor", node
    for op in c["ops"]:
        if op in ("observe", "partial"):
            if c["kind"] == "cmc":          # not implemented
                continue
            x = value(c, rs, ints)
            mask = rs.rand(*P) < 0.5
            x = give(x)
            mask = give(mask) if op == "partial" else True
            node.observe(x, mask=mask)
            done(x, mask)
        elif op == "value":
            if not settable(c) and c["kind"] not in ("gmc", "cmc"):
                continue
            x = give(value(c, rs, ints))
            node.initialize_from_value(x)
            done(x)
        elif op == "set":
            if not settable(c):
                continue
            p = [give(q) for q in dn.random_phi(t, rs, P, S)]
            node.set_parameters(p)
            done(*p)
        elif op == "params":
            if c["kind"] in ("gmc", "cmc"):
                continue
            p = [give(q) for q in par()]
            node.initialize_from_parameters(*p)
            done(*p)
        elif op == "prior":
            node.initialize_from_prior()
        else:
            node.update()
        yield op, node


def compare(c, a, b, what, rtol=1e-9, queries=True):
    for n in ("u", "phi"):
        for k, (x, y) in enumerate(zip(getattr(b, n), getattr(a, n))):
            require(np.shape(x) == np.shape(y), "%s: %s[%d] has shape %s instead of %s", what, n, k,
                    np.shape(x), np.shape(y))
            close(x, y, "%s: %s[%d]" % (what, n, k), rtol=rtol, atol=1e-12)
    for n in ("observed", "mask"):
        x, y = (np.broadcast_to(getattr(z, n), z.plates) for z in (b, a))
        require(np.array_equal(x, y), "%s: %s is %s instead of %s", what, n, x, y)
    for n in ("f", "g"):
        close(getattr(b, n), getattr(a, n), "%s: %s" % (what, n), rtol=rtol, atol=1e-12)
    La, Lb = float(a.lower_bound_contribution()), float(b.lower_bound_contribution())
    scale = 1.0
    if not np.isfinite(La):
        require(La == Lb or np.isnan(La) and np.isnan(Lb), "%s: bound %s instead of %s", what, Lb,
                La)
        return
    for p in a.parents:
        for m in p._message_to_child():
            m = np.asarray(m, dtype=float)
            if m.size:
                scale = max(scale, float(np.max(np.abs(m[np.isfinite(m)]), initial=0)))
    close(Lb, La, "%s: bound" % what, rtol=1e-8, atol=1e-9, scale=scale)


def check_form(c, R):
    give0, give = Giver(c["seed"], False), Giver(c["seed"], True, ints=c["ints"])
    for (op, a), (_, b) in zip(history(c, give0), history(c, give)):
        what = "%s with arrays in another form, after %s" % (c["kind"], op)
        compare(c, a, b, what)
        give.intact(what)
    a.update()
    b.update()
    compare(c, a, b, what + " and an update")
    give.intact(what + " and an update")
    x = value(c, RS(c["seed"] + 9), c["ints"])
    if c["kind"] not in ("gmc", "cmc"):
        close(b.logpdf(give(x)), a.logpdf(x), "%s.logpdf of the array in another form" % c["kind"],
              rtol=1e-8, atol=1e-8)
    give.intact(what)
    R.tag(c["kind"], *sorted(give.used))
    R.nontrivial(len(give.used) > 0)


# ------------------------------------------------------------------ reused buffers


def spoil(a):
    """Use the buffer for something else."""
    if not isinstance(a, np.ndarray):
        return
    if a.dtype == bool:
        a[...] = ~a
    elif a.dtype.kind in "iu":
        a[...] = 0
    else:
        a[...] = 0.3719


def gen_reuse(d):
    c = gen_form(d)
    c["ints"] = False
    c["ops"] = [d.choice(["observe", "partial", "value", "set", "params", "update", "prior"])
                for _ in range(d.int(0, 6))]
    return c


def check_reuse(c, R):
    give = Giver(c["seed"], False)
    A = history(c, give)
    B = history(c, give, done=lambda *xs: [spoil(x) for x in xs])
    for (op, a), (_, b) in zip(A, B):
        what = "%s, after %s and reusing the arrays that were given" % (c["kind"], op)
        compare(c, a, b, what, rtol=1e-12)
    a.update()
    b.update()
    compare(c, a, b, what + " and an update", rtol=1e-12)
    R.tag(c["kind"], *sorted(set(c["ops"])))
    R.nontrivial(len(c["ops"]) > 0)


# ------------------------------------------------------------------ whole models

MODELS = ["pca", "mixture", "hmm", "lssm", "take", "concat", "gate", "regression", "cat-mix", "choose",
          "gg", "mgate", "binomial", "multinomial", "inputs", "wishart", "poisson", "sliced"]


def gen_model(d):
    return dict(model=d.choice(MODELS), seed=d.seed(), N=d.int(1, 5), D=d.int(1, 3), K=d.int(2, 3),
                ints=d.bool(), reuse=d.bool(1, 3), masked=d.bool(), steps=d.int(1, 4))


def make(c, give, done):
    """The nodes of a small model whose arrays are all handed over by `give`."""
    import bayespy.nodes as M
    rs = RS(c["seed"])
    N, D, K, ints = c["N"], c["D"], c["K"], c["ints"]
    held = []

    def G(a):
        held.append(give(a))
        return held[-1]

    def real(*shape):
        x = rs.randn(*shape)
        return np.round(50 * x) if ints else x

    def pos(*shape):
        x = 0.2 + 3 * rs.rand(*shape)
        return np.round(1 + 5 * x) if ints else x

    def look(node, x):
        mask = rs.rand(*node.plates) < 0.6
        if c["masked"]:
            node.observe(G(x), mask=G(mask))
        else:
            node.observe(G(x))

    def initial(node, x):
        node.initialize_from_value(G(x))
    k = c["model"]
    if k == "pca":
        X = M.GaussianARD(G(real(N, D)), G(pos(D)), shape=(D,), plates=(N,))
        W = M.GaussianARD(0, G(pos(D)), shape=(D,), plates=(K, 1))
        initial(W, real(K, 1, D))
        F = M.SumMultiply("d,d->", W, X)
        tau = M.Gamma(G(pos()), G(pos()))
        Y = M.GaussianARD(F, tau)
        look(Y, real(K, N))
        nodes = [X, W, tau, Y]
    elif k == "mixture":
        z = M.Categorical(G(rs.dirichlet(np.ones(K))), plates=(N,))
        initial(z, rs.randint(0, K, size=N))
        mu = M.GaussianARD(G(real(K, D)), G(pos(K, 1)), shape=(D,), plates=(K,))
        lam = M.Wishart(D + 1, G(np.round(50 * np.eye(D))), plates=(K,))
        Y = M.Mixture(z, M.Gaussian, mu, lam)
        look(Y, real(N, D))
        nodes = [mu, lam, z, Y]
    elif k == "hmm":
        p0 = M.Dirichlet(G(pos(K)))
        A = M.Dirichlet(G(pos(K, K)))
        z = M.CategoricalMarkovChain(p0, A, states=N + 1)
        mu = M.GaussianARD(G(real(K)), 1e-2, plates=(K,))
        Y = M.Mixture(z, M.GaussianARD, mu, G(pos(K)))
        look(Y, real(N + 1))
        nodes = [z, p0, A, mu, Y]
    elif k == "lssm":
        A = M.GaussianARD(0, G(pos(D)), shape=(D,), plates=(D,))
        initial(A, np.identity(D))
        X = M.GaussianMarkovChain(G(real(D)), G(np.round(3 * np.eye(D))), A, G(pos(D)), n=N + 1)
        F = M.SumMultiply("d,d->", G(real(K, 1, D)), X)
        Y = M.GaussianARD(F, G(pos(K, 1)))
        look(Y, real(K, N + 1))
        nodes = [X, A, Y]
    elif k == "take":
        X = M.GaussianARD(G(real(K, D)), G(pos(K, D)), shape=(D,), plates=(K,))
        T = M.Take(X, G(rs.randint(0, K, size=N)), plate_axis=-1)
        Y = M.Gaussian(T, G(np.round(1 + 4 * rs.rand()) * np.eye(D)))
        look(Y, real(N, D))
        nodes = [X, Y]
    elif k == "concat":
        X = M.GaussianARD(G(real(N)), G(pos(N)), plates=(N,))
        Z = M.GaussianARD(G(real(K)), G(pos(K)), plates=(K,))
        Y = M.GaussianARD(M.Concatenate(X, Z), G(pos(N + K)))
        look(Y, real(N + K))
        nodes = [X, Z, Y]
    elif k == "gate":
        z = M.Categorical(G(rs.dirichlet(np.ones(K))), plates=(N,))
        initial(z, rs.randint(0, K, size=N))
        X = M.GaussianARD(G(real(K, D)), 1e-2, shape=(D,), plates=(K,))
        Y = M.Gaussian(M.Gate(z, X), G(2.0 * np.eye(D)))
        look(Y, real(N, D))
        nodes = [X, z, Y]
    elif k == "mgate":
        X = M.GaussianARD(G(real(K, D)), 1e-2, shape=(D,), plates=(K,))
        Y = M.Gaussian(M.Gate(G(rs.randint(0, K, size=N)), X), G(2.0 * np.eye(D)))
        look(Y, real(N, D))
        nodes = [X, Y]
    elif k == "regression":
        B = M.GaussianARD(0, G(pos(D)), shape=(D,))
        F = M.SumMultiply("i,i", B, G(real(N, D)))
        tau = M.Gamma(G(pos()), G(pos()))
        Y = M.GaussianARD(F, tau)
        look(Y, real(N))
        nodes = [B, tau, Y]
    elif k == "cat-mix":
        z = M.Categorical(G(rs.dirichlet(np.ones(K))), plates=(N, 1))
        initial(z, rs.randint(0, K, size=(N, 1)))
        P = M.Beta(G(pos(D, K, 2)), plates=(D, K))
        Y = M.Mixture(z, M.Bernoulli, P)
        look(Y, rs.randint(0, 2, size=(N, D)))
        nodes = [z, P, Y]
    elif k == "choose":
        ps = [M.Dirichlet(G(pos(K))) for _ in range(2)]
        z = M.Categorical(G(rs.dirichlet(np.ones(2))), plates=(N,))
        initial(z, rs.randint(0, 2, size=N))
        Y = M.Categorical(M.Choose(z, *ps))
        look(Y, rs.randint(0, K, size=N))
        nodes = ps + [z, Y]
    elif k == "binomial":
        P = M.Beta(G(pos(N, 2)))
        n = rs.randint(1, 256 if ints else 9, size=(K, N))
        Y = M.Binomial(G(n), P)
        look(Y, rs.binomial(n, 0.6))
        nodes = [P, Y]
    elif k == "multinomial":
        P = M.Dirichlet(G(pos(N, D + 1)))
        n = rs.randint(1, 256 if ints else 9, size=(K, N))
        Y = M.Multinomial(G(n), P)
        look(Y, np.array([[rs.multinomial(t, np.ones(D + 1) / (D + 1)) for t in r] for r in n]))
        nodes = [P, Y]
    elif k == "inputs":
        A = M.GaussianARD(0, G(pos(D + K)), shape=(D + K,), plates=(D,))
        initial(A, 0.5 * np.eye(D, D + K))
        X = M.GaussianMarkovChain(G(real(D)), G(np.round(3 * np.eye(D))), A, G(pos(D)), n=N + 1,
                                  inputs=G(real(N, K)))
        Y = M.Gaussian(X, G(2.0 * np.eye(D)))
        look(Y, real(N + 1, D))
        nodes = [X, A, Y]
    elif k == "wishart":
        V = M.Wishart(G(D + rs.randint(1, 5, size=K)), G(np.eye(D) * rs.randint(1, 120, size=D)),
                      plates=(K,))
        X = M.Wishart(D + 2, V)
        look(X, np.eye(D) * (rs.randint(1, 120, size=(K, 1, D)) if ints else pos(K, 1, D)))
        nodes = [V, X]
    elif k == "poisson":
        r = M.Gamma(G(pos(N)), G(pos(N)))
        Y = M.Poisson(r, plates=(K, N))
        look(Y, rs.randint(0, 257 if ints else 9, size=(K, N)))
        nodes = [r, Y]
    elif k == "sliced":
        X = M.GaussianARD(G(real(K, N, D)), G(pos(N, 1)), shape=(D,), plates=(K, N))
        Y = M.Gaussian(X[rs.randint(K), ::2], G(2.0 * np.eye(D)))
        look(Y, real(*(Y.plates + (D,))))
        nodes = [X, Y]
    else:
        X = M.GaussianGamma(G(real(D)), G(np.round(1 + 4 * rs.rand()) * np.eye(D)), G(pos()),
                            G(pos()))
        Y = M.GaussianARD(M.SumMultiply("i,i", X, G(real(N, D))), 1)
        look(Y, real(N))
        nodes = [X, Y]
    done(*held)
    return nodes


def check_model(c, R):
    from bayespy.inference import VB
    plain = Giver(c["seed"], False)
    give = plain if c["reuse"] else Giver(c["seed"], True, ints=c["ints"])
    done = (lambda *xs: [spoil(x) for x in xs]) if c["reuse"] else (lambda *xs: None)
    A, B = make(c, plain, lambda *xs: None), make(c, give, done)
    QA, QB = VB(*A), VB(*B)
    how = "reused arrays" if c["reuse"] else "arrays in another form"
    for s in range(c["steps"]):
        for i in range(len(A) - 1):
            QA.update(A[i], verbose=False)
            QB.update(B[i], verbose=False)
            what = "%s with %s, update %d of node %d" % (c["model"], how, s, i)
            for k, (x, y) in enumerate(zip(B[i].get_moments(), A[i].get_moments())):
                close(x, y, "%s: moment %d" % (what, k), rtol=1e-6, atol=1e-9)
        La, Lb = (sum(np.abs(n.lower_bound_contribution()) for n in ns) for ns in (A, B))
        close(float(QB.compute_lowerbound()), float(QA.compute_lowerbound()), what + ": bound",
              rtol=1e-7, atol=1e-8, scale=float(La))
    if not c["reuse"]:
        give.intact(what)
    R.tag(c["model"], how, *sorted(give.used))
    R.nontrivial(c["steps"] > 1 or c["N"] > 1)


# ------------------------------------------------------------------ helper functions

FUNCS = ["chol", "chol_solve", "chol_solve_matrix", "chol_inv", "chol_logdet", "logdet_cov", "inner",
         "outer", "dot", "mvdot", "tracedot", "inv", "solve_triangular", "block_banded_solve",
         "sum_multiply", "sum_product", "diag", "get_diag", "make_diag", "normalized_exp", "logsumexp",
         "repeat_to_shape", "sum_to_shape", "multidigamma", "invpsi", "invgamma", "moveaxis",
         "block_banded", "block_diag", "concatenate", "squeeze", "sum_to_plates", "flatten_axes",
         "rgamma", "rdirichlet", "rcategorical", "rmultinomial", "alpha_beta", "covmult", "broadcast"]


def gen_func(d):
    return dict(f=d.choice(FUNCS), seed=d.seed(), P=d.shape(2, 3), D=d.int(1, 4), N=d.int(1, 4),
                i=d.int(0, 5))


def call(c, G):
    """The function of the case on arrays handed over by G."""
    from bayespy.utils import linalg, misc, random
    rs, P, D, N, f, i = RS(c["seed"]), tuple(c["P"]), c["D"], c["N"], c["f"], c["i"]
    rn = lambda *s: rs.randn(*(P + s))                              # noqa: E731

    def U():
        return np.linalg.cholesky(dn.spd(rs, P, D)).swapaxes(-1, -2)
    if f == "chol":
        return linalg.chol(G(dn.spd(rs, P, D)))
    if f == "chol_solve":
        return linalg.chol_solve(G(U()), G(rn(D)))
    if f == "chol_solve_matrix":
        return linalg.chol_solve(G(U()), G(rn(D, N)), matrix=True)
    if f == "chol_inv":
        return linalg.chol_inv(G(U()))
    if f == "chol_logdet":
        return linalg.chol_logdet(G(U()))
    if f == "logdet_cov":
        return linalg.logdet_cov(G(dn.spd(rs, P, D)))
    if f == "inner":
        return linalg.inner(G(rn(D)), G(rn(D)))
    if f == "outer":
        return linalg.outer(G(rn(D)), G(rn(N)))
    if f == "dot":
        return linalg.dot(G(rn(D, N)), G(rn(N, D)))
    if f == "mvdot":
        return linalg.mvdot(G(rn(N, D)), G(rn(D)))
    if f == "tracedot":
        return linalg.tracedot(G(rn(D, N)), G(rn(N, D)))
    if f == "inv":
        return linalg.inv(G(dn.spd(rs, P, D)))
    if f == "solve_triangular":
        return linalg.solve_triangular(G(U()), G(rn(D)), trans="T", lower=False)
    if f == "block_banded_solve":
        A = dn.spd(rs, P + (N + 1,), D) + 4 * np.eye(D)
        return linalg.block_banded_solve(G(A), G(0.3 * rn(N, D, D)), G(rn(N + 1, D)))
    if f == "sum_multiply":
        return misc.sum_multiply(G(rn(D, N)), G(rn(1, N)), G(rn(D, 1)), axis=(-1, -2)[i % 2])
    if f == "sum_product":
        return misc.sum_product(G(rn(D, N)), G(rn(1, N)), axes_to_sum=(-1, -2)[i % 2])
    if f == "diag":
        return misc.diag(G(rn(D)))
    if f == "get_diag":
        return misc.get_diag(G(rn(D, D)))
    if f == "make_diag":
        return misc.make_diag(G(rn(D)), ndim=1)
    if f == "normalized_exp":
        return misc.normalized_exp(G(rn(D)))
    if f == "logsumexp":
        return misc.logsumexp(G(rn(D)), axis=-1)
    if f == "repeat_to_shape":
        return misc.repeat_to_shape(G(rn(D)), (2,) + P + (D,))
    if f == "sum_to_shape":
        return misc.sum_to_shape(G(rn(D, N)), (D, 1))
    if f == "multidigamma":
        return misc.multidigamma(G(D + rs.rand(*P)), D)
    if f == "invpsi":
        return misc.invpsi(G(rn(D)))
    if f == "invgamma":
        return misc.invgamma(G(1 + 4 * rs.rand(*(P + (D,)))))
    if f == "moveaxis":
        return misc.moveaxis(G(rn(D, N)), -1, 0)
    if f == "block_banded":
        return misc.block_banded(G(rs.randn(N + 1, D, D)), G(rs.randn(N, D, D)))
    if f == "block_diag":
        return misc.block_diag(G(rn(D, D)), G(rn(N, N)))
    if f == "concatenate":
        return misc.concatenate(G(rn(D)), G(rs.randn(N)))
    if f == "squeeze":
        return misc.squeeze(G(rs.randn(*((1,) * (i % 3) + P + (D,)))))
    if f == "sum_to_plates":
        return misc.sum_multiply_to_plates(G(rn(D)), G(rs.randn(D)), to_plates=(D,),
                                           from_plates=(2,) + P + (D,))
    if f == "flatten_axes":
        return misc.flatten_axes(G(rn(D, N)), 2)
    if f == "covmult":
        return misc.m_dot(G(rn(N, D)), G(rn(D)))
    if f == "broadcast":
        return misc.broadcast(G(rn(D)), G(rs.randn(D)))
    if f == "alpha_beta":
        return random.alpha_beta_recursion(G(rn(D)), G(rn(N, D, D)))
    np.random.seed(c["seed"] % 2 ** 31)
    if f == "rgamma":
        return random.gamma(G(0.5 + rs.rand(*P)), G(0.5 + rs.rand(*P)), size=(2,) + P)
    if f == "rdirichlet":
        return random.dirichlet(G(0.5 + rs.rand(*(P + (D,)))), size=(2,) + P)
    if f == "rcategorical":
        return random.categorical(G(rs.dirichlet(np.ones(D), size=P)), size=(2,) + P)
    if f == "rmultinomial":
        return random.multinomial(7, G(rs.dirichlet(np.ones(D), size=P)), size=(2,) + P)
    raise KeyError(f)


def check_func(c, R):
    give = Giver(c["seed"], True, lists=False)
    want = call(c, Giver(c["seed"], False))
    got = call(c, give)
    if not isinstance(want, (tuple, list)):
        want, got = [want], [got]
    for k, (x, y) in enumerate(zip(got, want)):
        require(np.shape(x) == np.shape(y), "%s: result %d has shape %s instead of %s for arrays in "
                "another form", c["f"], k, np.shape(x), np.shape(y))
        close(x, y, "%s of arrays in another form, result %d" % (c["f"], k), rtol=1e-9, atol=1e-10)
    give.intact(c["f"])
    R.tag(c["f"], *sorted(give.used))
    R.nontrivial(len(give.used) > 0)


SUBS = [
    Sub("form", gen_form, check_form, 2500, 40000, rule="at least one array in another form"),
    Sub("reuse", gen_reuse, check_reuse, 1500, 25000,
        rule="at least one operation after the construction"),
    Sub("model", gen_model, check_model, 1200, 20000,
        rule="several observations or several rounds of updates"),
    Sub("functions", gen_func, check_func, 2500, 40000, rule="at least one array in another form"),
]
