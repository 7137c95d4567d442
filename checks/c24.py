"""C24: invalid input is rejected and leaves the model as it was.

"data": wrong shapes, masks and values outside the support given to observe() and
initialize_from_value(); "build": constructions of nodes that cannot be right, from the nodes of a
model in use; "engine": wrong names and nodes.  Each must raise; afterwards the state is the same
bit for bit and further inference equals that of a model in which nothing was attempted.
"""
import numpy as np
from vlib import single, dense as dn
from vlib.harness import Sub, require, close, Skip


class RS(np.random.RandomState):
    def randn(self, *s):
        return np.asarray(super().randn(*s))

    def rand(self, *s):
        return np.asarray(super().rand(*s))


def state(X):
    return ([np.array(u) for u in X.u] + [np.array(p) for p in X.phi]
            + [np.array(X.observed), np.array(X.mask), np.array(X.g), np.array(X.f)])


def same(a, b, what):
    for i, (x, y) in enumerate(zip(a, b)):
        require(x.shape == y.shape and np.array_equal(x, y, equal_nan=True),
                "%s changed the state (part %d)" % (what, i))


def rejected(f, what):
    try:
        f()
    except Exception as e:                  # any error will do
        return type(e).__name__
    require(False, "%s was accepted" % what)


# ---------------------------------------------------------------- data

KINDS = ["g0", "g1", "g2", "gauss", "ga", "w", "d", "beta", "c", "gg", "gmc", "poi", "bern", "bin",
         "mul"]
WRONG = {"ga": ["neg"], "w": ["notpd"], "d": ["neg", "sum"], "beta": ["neg", "big"],
         "c": ["neg", "big", "frac"], "gg": ["neg"], "poi": ["neg", "frac"],
         "bern": ["neg", "big", "frac"], "bin": ["neg", "big", "frac"],
         "mul": ["neg", "frac", "sum"]}


def gen_data(d):
    c = single.draw(d, KINDS)
    c["seed"] = d.seed()
    c["op"] = d.choice(["observe", "observe", "init"])
    ways = ["shape", "extra", "dims"] + WRONG.get(c["kind"], []) * 2
    if c["op"] == "observe":
        ways += ["mask", "mask-extra"]
    c["way"] = d.choice(ways)
    c["before"] = d.choice(["prior", "params", "observed", "partial"])
    c["mask"] = d.bool()
    c["i"] = d.int(0, 3)
    return c


def good(c, rs):
    """A valid value with the plates of the node."""
    k, P, S = c["kind"], tuple(c["P"]), tuple(c["S"])
    if c["t"] == "g":
        return rs.randn(*(P + S))
    if k == "gmc":
        return rs.randn(*(P + S))
    if k == "ga":
        return 0.1 + rs.rand(*P)
    if k == "w":
        return dn.spd(rs, P, S[0])
    if k == "d":
        return rs.dirichlet(np.ones(S[0]) * 2, size=P)
    if k == "beta":
        return 0.05 + 0.9 * rs.rand(*P)
    if k == "c":
        return np.asarray(rs.randint(0, S[0], size=P))
    if k == "gg":
        return (rs.randn(*(P + S)), 0.1 + rs.rand(*P))
    if k == "poi":
        return np.asarray(rs.poisson(2.0, size=P))
    if k in ("bern", "bin"):
        return np.asarray(rs.randint(0, S[0] + 1, size=P))
    if k == "mul":
        return rs.multinomial(S[1], np.ones(S[0]) / S[0], size=P)
    raise KeyError(k)


def check_data(c, R):
    rs = RS(c["seed"])
    k, P, S, way, i = c["kind"], tuple(c["P"]), tuple(c["S"]), c["way"], c["i"]
    R.tag(k, way, c["op"])

    def fresh():
        X = single.build(c, single.params(c, RS(c["seed"])))
        if c["before"] == "params" and c["t"] in ("g", "ga", "w", "d", "c"):
            X.set_parameters(dn.random_phi(c["t"], RS(c["seed"] + 1), P, S))
        elif c["before"] == "observed":
            X.observe(good(c, RS(c["seed"] + 1)))
        elif c["before"] == "partial":
            X.observe(good(c, RS(c["seed"] + 1)), mask=RS(c["seed"]).rand(*P) < 0.6)
        return X
    X = fresh()
    nd = {"ga": 0, "c": 0, "poi": 0, "bern": 0, "bin": 0, "beta": 0, "w": 2, "gg": 1, "gmc": 2,
          "mul": 1, "d": 1}.get(k, len(S))
    v, mask = good(c, rs), True
    v0 = v[0] if k == "gg" else v
    if c["mask"] and c["op"] == "observe":
        mask = np.asarray(rs.rand(*P) < 0.7)
    full = mask is True
    if way == "shape":
        axes = [a for a in range(len(P))]
        if not axes:
            raise Skip()
        a = axes[i % len(axes)]
        sh = list(P)
        sh[a] = P[a] + 1 + i // 2
        v0 = good(dict(c, P=sh), rs)
        v0 = v0[0] if k == "gg" else v0
        full = mask is True
    elif way == "extra":
        v0 = good(dict(c, P=[2] + list(P)), rs)
        v0 = v0[0] if k == "gg" else v0
    elif way == "dims":
        if nd == 0:
            raise Skip()
        S2 = list(S)
        if k == "gmc":
            S2 = [S[0] + 1, S[1]] if i % 2 else [S[0], S[1] + 1]
        elif k == "mul":
            S2[0] += 1
        else:
            S2[i % len(S2)] += 1
        v0 = good(dict(c, S=S2), rs)
        v0 = v0[0] if k == "gg" else v0
        if k == "d" and S2[0] == 1:
            raise Skip()
    elif way == "mask":
        if not P:
            raise Skip()
        sh = list(P)
        a = i % len(P)
        sh[a] = P[a] + 1
        mask = np.asarray(rs.rand(*sh) < 0.7)
        mask.flat[0] = True
    elif way == "mask-extra":
        mask = np.asarray(rs.rand(*([2] + list(P))) < 0.7)
        mask.flat[0] = True
    else:
        # one value outside the support, somewhere where it counts
        M = np.broadcast_to(np.asarray(mask), P)
        at = [ix for ix in np.ndindex(P) if M[ix]]
        if not at:
            raise Skip()
        ix = at[i % len(at)]
        v0 = np.array(v0, dtype=float)
        if k == "ga":
            v0[ix] = -0.3
        elif k == "w":
            v0[ix] = -v0[ix]
        elif k in ("d", "mul") and way == "neg":
            # keep the sum
            v0[ix][1] += v0[ix][0] + 1
            v0[ix][0] = -1
        elif k == "d":
            v0[ix] *= 0.8
        elif k == "beta":
            v0[ix] = -0.2 if way == "neg" else 1.2
        elif k in ("c", "poi", "bern", "bin"):
            v0[ix] = {"neg": -1, "big": S[0] + (1 if k != "c" else 0) if S else 0,
                      "frac": 0.5}[way]
        elif k == "mul" and way == "frac":
            j = int(np.argmax(v0[ix]))
            v0[ix][j] -= 0.5
            v0[ix][1 - min(j, 1)] += 0.5
        elif k == "mul":
            v0[ix][0] += 1
            if c["op"] == "init":
                raise Skip()        # the moments do not know the number of trials
        if way in ("neg", "big", "sum") and k in ("c", "poi", "bern", "bin", "mul"):
            v0 = np.asarray(v0, dtype=int)
    val = v0
    if k == "gg":
        val = (v0, v[1])
        if way == "neg":
            t = np.array(v[1])
            t[ix] = -0.5
            val = (v[0], t)
        if c["op"] == "init":
            raise Skip()
    s0 = state(X)
    what = "%s with %s" % (c["op"], way)
    op = ((lambda: X.observe(val, mask=mask)) if c["op"] == "observe"
          else (lambda: X.initialize_from_value(val)))
    if k == "gg":
        op = lambda: X.observe(val, mask=mask)
    R.tag(rejected(op, what))
    same(state(X), s0, what)
    R.nontrivial(c["before"] != "prior" or np.prod(P) > 1)
    # the node still works
    Y = fresh()
    w = good(c, RS(c["seed"] + 2))
    for Z in (X, Y):
        Z.observe(w)
    same(state(X), state(Y), "observing after a rejected attempt")


# ---------------------------------------------------------------- invalid parameters

PAR = ["g0", "g1", "g2", "g3", "gauss", "gs0", "gs2", "ga", "w", "d", "beta", "c", "mul", "bern", "bin",
       "poi"]


def gen_par(d):
    c = single.draw(d, PAR)
    c["seed"] = d.seed()
    c["op"] = "init" if d.bool() or c["t"] not in ("g", "ga", "w", "d") else "set"
    if c["op"] == "set":
        c["way"] = d.choice(["range", "range", "range", "number"])
        if c["t"] == "g" and not c["S"]:
            c["way"] = "number"
    else:
        c["way"] = d.choice(["range", "range", "range", "shape"]) if c["P"] else "range"
    c["before"] = d.choice(["prior", "params", "partial"])
    c["i"], c["j"] = d.int(0, 3), d.int(0, 7)
    return c


def check_par(c, R):
    """Invalid parameters for the approximate posterior are rejected."""
    k, P, S, i, j = c["kind"], tuple(c["P"]), tuple(c["S"]), c["i"], c["j"]

    def fresh():
        X = single.build(c, single.params(c, RS(c["seed"])))
        if c["before"] == "params" and c["t"] in ("g", "ga", "w", "d", "c"):
            X.set_parameters(dn.random_phi(c["t"], RS(c["seed"] + 1), P, S))
        elif c["before"] == "partial":
            X.observe(good(c, RS(c["seed"] + 1)), mask=RS(c["seed"]).rand(*P) < 0.6)
        return X
    X = fresh()
    hidden = [ix for ix in np.ndindex(P) if not np.broadcast_to(X.observed, P)[ix]]
    if not hidden or (P and 0 in P):
        raise Skip()
    ix = hidden[j % len(hidden)]
    rs = RS(c["seed"] + 3)
    if c["op"] == "init":
        Q = P
        if c["way"] == "shape":
            Q = list(P)
            Q[i % len(P)] += 1 + j % 2
        par = [np.array(p) for p in single.params(c, rs, Q)]
        if c["way"] == "range":
            n = i % len(par)
            if k[0] == "g" and k != "ga":
                n = 1
            v = par[n][ix]
            if k in ("g0", "g1", "g2", "g3"):
                v = np.array(v)
                if v.size == 0:
                    raise Skip()
                v.flat[j % v.size] *= -1
            elif k in ("gauss", "gs0", "gs2") or k == "w" and n == 1 or k == "ga":
                v = -v
            elif k == "w":
                v = np.array(-1.5)
            elif k == "bern" or k == "bin":
                v = np.array([-0.2, 1.2][j % 2])
            elif k in ("c", "mul"):
                v = np.array(v)
                v[j % len(v)] += 0.3
                if j // len(v) % 2:
                    v[j % len(v)] = -0.3
                    v[j % len(v) - 1] += 1 - np.sum(v)
            else:
                v = np.array(v)
                v.flat[j % v.size] = -0.7
            par[n][ix] = v
        op = lambda: X.initialize_from_parameters(*par)             # noqa: E731
    else:
        phi = [np.array(p) for p in dn.random_phi(c["t"], rs, P, S)]
        if c["way"] == "number":
            phi = phi[:-1] if j % 2 else phi + phi[:1]
        elif c["t"] == "g":
            phi[1][ix] = -phi[1][ix]
        elif c["t"] == "w" and i % 2:
            phi[0][ix] = -phi[0][ix]
        elif c["t"] == "w":
            phi[1][ix] = -1.0
        elif c["t"] == "ga":
            phi[i % 2][ix] *= -1
        else:
            v = np.array(phi[0][ix])
            v[j % len(v)] = -0.4
            phi[0][ix] = v
        op = lambda: X.set_parameters(phi)                          # noqa: E731
    what = "%s of %s with invalid parameters (%s)" % (
        "initialize_from_parameters" if c["op"] == "init" else "set_parameters", k, c["way"])
    s0 = state(X)
    R.tag(c["op"], c["way"], k)
    with np.errstate(all="ignore"):
        R.tag(rejected(op, what))
    same(state(X), s0, what)
    R.nontrivial(c["before"] != "prior" or np.prod(P) > 1)


# ---------------------------------------------------------------- building


BAD = ["ard-shape", "ard-plates", "ard-parent", "gauss-dim", "gauss-pd", "plates-small", "gamma-neg",
       "gamma-parent", "cat-sum", "cat-neg", "cat-parent", "mix-clusters", "mix-plate", "mix-axis",
       "gate-clusters", "gate-plate", "gate-const", "take-range", "take-axis", "slice-range",
       "slice-many", "concat-shape", "concat-none", "choose-number", "add-shape", "add-none", "add-one",
       "sm-keys", "sm-twice", "sm-dims", "sm-out", "sm-size", "same-parent", "gmc-dim", "gmc-n",
       "gmc-nu", "cmc-dim", "bin-frac", "bin-neg", "mul-neg", "poi-parent", "poi-neg", "dir-neg",
       "beta-three", "beta-range", "wish-parent", "wish-square", "keyword", "bern-range",
       "plates-two", "gg-dim", "choose-plates", "mix-data-plates"]


def gen_build(d):
    P = d.shape(2, 3)
    return dict(P=P, D=d.int(1, 3), K=d.int(2, 3), seed=d.seed(),
                bad=[d.choice(BAD) for _ in range(d.int(1, 3))],
                when=d.int(0, 2), steps=[d.int(0, 9) for _ in range(d.int(0, 4))])


def base(c):
    """A model in use: latent nodes of several types, each with data."""
    import bayespy.nodes as N
    from bayespy.inference import VB
    rs = RS(c["seed"])
    P, D, K = tuple(c["P"]), c["D"], c["K"]
    m = {}
    m["mu"] = N.GaussianARD(rs.randn(*(P + (D,))), 0.7, shape=(D,), plates=P, name="mu")
    m["s"] = N.GaussianARD(0.4, 0.9, plates=P, name="s")
    m["tau"] = N.Gamma(2.0, 1.5, plates=P, name="tau")
    m["lam"] = N.Wishart(D + 1.0, np.eye(D), plates=P, name="lam")
    m["pi"] = N.Dirichlet(np.ones(K) * 1.5, plates=P, name="pi")
    m["z"] = N.Categorical(m["pi"], plates=P, name="z")
    m["w"] = N.Beta([1.5, 1.2], plates=P, name="w")
    m["t"] = N.GaussianARD(rs.randn(*(P + (K,))), 0.5, plates=P + (K,), name="t")
    m["y1"] = N.Gaussian(m["mu"], m["lam"], name="y1")
    m["y1"].observe(rs.randn(*(P + (D,))), mask=np.asarray(rs.rand(*P) < 0.8))
    m["y2"] = N.GaussianARD(m["s"], m["tau"], name="y2")
    m["y2"].observe(rs.randn(*P), mask=np.asarray(rs.rand(*P) < 0.8))
    m["y3"] = N.Bernoulli(m["w"], name="y3")
    m["y3"].observe(np.asarray(rs.randint(0, 2, size=P)))
    m["y4"] = N.Mixture(m["z"], N.GaussianARD, m["t"], 1.3, plates=P, name="y4")
    m["y4"].observe(rs.randn(*P))
    names = list(m)
    return m, VB(*m.values(), tol=0), names


def attempt(bad, c, m):
    """The invalid call, or None when it does not apply to these sizes."""
    import bayespy.nodes as N
    P, D, K = tuple(c["P"]), c["D"], c["K"]
    rs = RS(c["seed"] + 5)
    mu, s, tau, lam, pi, z, w, t = (m[k] for k in ("mu", "s", "tau", "lam", "pi", "z", "w", "t"))
    big = [a for a in range(len(P)) if P[a] > 1]
    wrongP = P
    if P:
        a = c["seed"] % len(P)
        wrongP = P[:a] + (P[a] + 2,) + P[a + 1:]
    mism = bool(P) and P[a] > 1                     # wrongP does not broadcast with P
    f = {
        "ard-shape": lambda: N.GaussianARD(mu, tau, shape=(D + 1,)) if D > 1 else None,
        "ard-plates": lambda: N.GaussianARD(s, np.ones(wrongP)) if mism else None,
        "ard-parent": lambda: N.GaussianARD(s, z),
        "gauss-dim": lambda: N.Gaussian(mu, np.eye(D + 1)),
        "gauss-pd": lambda: N.Gaussian(mu, -np.eye(D)),
        "plates-small": lambda: N.GaussianARD(s, 1.0, plates=P[1:]) if P and P[0] > 1 else None,
        "plates-two": lambda: N.GaussianARD(s, 1.0, plates=wrongP) if mism else None,
        "gamma-neg": lambda: N.Gamma(-1.0, tau),
        "gamma-parent": lambda: N.Gamma(1.0, mu),
        "cat-sum": lambda: N.Categorical(np.ones(K) * 0.9),
        "cat-neg": lambda: N.Categorical(np.concatenate([[-0.5, 1.5], np.zeros(K - 2)])),
        "cat-parent": lambda: N.Categorical(tau),
        "mix-clusters": lambda: N.Mixture(z, N.GaussianARD, np.zeros(P + (K + 1,)), 1.0,
                                          plates=P),
        "mix-plate": lambda: N.Mixture(z, N.GaussianARD, t, 1.0, cluster_plate=0),
        "mix-axis": lambda: N.Mixture(z, N.GaussianARD, 0.3, 1.0),
        "mix-data-plates": lambda: N.Mixture(z, N.GaussianARD, t, 1.0, plates=wrongP)
        if mism else None,
        "gate-clusters": lambda: N.Gate(z, N.GaussianARD(0, 1, plates=P + (K + 1,))),
        "gate-plate": lambda: N.Gate(z, t, gated_plate=0),
        "gate-const": lambda: N.Gate(z, s, gated_plate=-len(P) - 1),
        "take-range": lambda: N.Take(t, [0, K], plate_axis=-1),
        "take-axis": lambda: N.Take(t, [0], plate_axis=-len(P) - 2),
        "slice-range": lambda: t[(Ellipsis, K)],
        "slice-many": lambda: s[(0,) * (len(P) + 1)],
        "concat-shape": lambda: N.Concatenate(mu, s, axis=-1) if P else None,
        "concat-none": lambda: N.Concatenate(),
        "choose-number": lambda: N.Choose(z, *[N.GaussianARD(0, 1) for _ in range(K + 1)]),
        "choose-plates": lambda: N.Choose(z, *([N.GaussianARD(0, 1, plates=wrongP)]
                                              + [N.GaussianARD(0, 1, plates=P)
                                                 for _ in range(K - 1)])) if mism else None,
        "add-shape": lambda: N.Add(mu, rs.randn(D + 1)) if D > 1 else None,
        "add-none": lambda: N.Add(),
        "add-one": lambda: N.Add(s),
        "sm-keys": lambda: N.SumMultiply("i,i", mu),
        "sm-twice": lambda: N.SumMultiply("i,i", mu, mu),
        "sm-dims": lambda: N.SumMultiply("ij,j->i", mu, rs.randn(D)),
        "sm-out": lambda: N.SumMultiply("i,i->k", mu, rs.randn(D)),
        "sm-size": lambda: N.SumMultiply("i,i->i", mu, rs.randn(D + 1)) if D > 1 else None,
        "same-parent": lambda: N.Add(s, s),
        "gmc-dim": lambda: N.GaussianMarkovChain(mu, lam, np.eye(D + 1), np.ones(D + 1), n=4),
        "gmc-n": lambda: N.GaussianMarkovChain(mu, lam, np.eye(D), np.ones(D)),
        "gmc-nu": lambda: N.GaussianMarkovChain(mu, lam, np.eye(D), np.ones(D + 1), n=4),
        "cmc-dim": lambda: N.CategoricalMarkovChain(pi, np.ones((K + 1, K)) / K, states=3),
        "bin-frac": lambda: N.Binomial(2.5, w),
        "bin-neg": lambda: N.Binomial(-1, w),
        "mul-neg": lambda: N.Multinomial(-2, pi),
        "poi-parent": lambda: N.Poisson(s),
        "poi-neg": lambda: N.Poisson(-0.5),
        "dir-neg": lambda: N.Dirichlet([1.0, -0.5]),
        "beta-three": lambda: N.Beta([1.0, 1.0, 1.0]),
        "beta-range": lambda: N.Beta([1.0, -1.0]),
        "wish-parent": lambda: N.Wishart(D + 1, tau),
        "wish-square": lambda: N.Wishart(D + 1, np.ones((D, D + 1))),
        "keyword": lambda: N.GaussianARD(s, tau, no_such_option=1),
        "bern-range": lambda: N.Bernoulli(1.5),
        "gg-dim": lambda: N.GaussianGamma(mu, np.eye(D + 1), 1.0, 1.0),
    }[bad]
    return f


NOT_APPLICABLE = object()


def check_build(c, R):
    tried = 0

    def go(attempts):
        nonlocal tried
        m, Q, names = base(c)
        lat = names[:8]
        if c["when"] >= 1:
            for n in lat[:4]:
                Q.update(m[n], verbose=False)
        if attempts:
            for b in c["bad"]:
                f = attempt(b, c, m)
                res = []
                try:
                    res.append(f())
                except Exception:
                    tried += 1
                    R.tag(b)
                    continue
                if res[0] is None:
                    continue                # does not apply to these sizes
                require(False, "building an invalid node was accepted: %s" % b)
        if c["when"] >= 2:
            m["y2"].observe(RS(c["seed"] + 9).randn(*c["P"]))
        for st in c["steps"]:
            Q.update(m[lat[st % len(lat)]], verbose=False)
        for n in lat:
            m[n].update()
        return m, Q, names
    mb, Qb, names = go(True)
    if not tried:
        raise Skip()
    ma, Qa, _ = go(False)
    R.nontrivial(len(c["steps"]) > 0)
    for n in names:
        for k, (x, y) in enumerate(zip(mb[n].get_moments(), ma[n].get_moments())):
            close(x, y, "moment %d of %s after a rejected construction" % (k, n), rtol=1e-9,
                  atol=1e-11)
        require(np.array_equal(np.broadcast_to(mb[n].mask, mb[n].plates),
                               np.broadcast_to(ma[n].mask, ma[n].plates)),
                "mask of %s changed by a rejected construction" % n)
    close(Qb.compute_lowerbound(), Qa.compute_lowerbound(),
          "bound after a rejected construction", rtol=1e-9, atol=1e-9)


# ---------------------------------------------------------------- the engine


def gen_engine(d):
    c = gen_build(d)
    c["what"] = [d.choice(["update-name", "get-name", "has", "duplicate", "update-other",
                           "save-noname", "load-missing", "plot-name", "params-number",
                           "params-shape"]) for _ in range(d.int(1, 3))]
    return c


def check_engine(c, R):
    import os
    import bayespy.nodes as N
    from bayespy.inference import VB
    m, Q, names = base(c)
    lat = names[:8]
    for st in c["steps"]:
        Q.update(m[lat[st % len(lat)]], verbose=False)
    s0 = {n: state(m[n]) for n in names}
    L0, it0 = np.array(Q.L[:Q.iter]), Q.iter
    for w in c["what"]:
        R.tag(w)
        if w == "update-name":
            rejected(lambda: Q.update("no such node", verbose=False), w)
        elif w == "get-name":
            rejected(lambda: Q["no such node"], w)
        elif w == "has":
            rejected(lambda: Q.plot("no such node"), w)
        elif w == "load-missing":
            rejected(lambda: Q.load(filename="/nonexistent/file.hdf5"), w)
        elif w == "params-number":
            rejected(lambda: m["mu"].set_parameters(m["mu"].get_parameters()[:1]), w)
        elif w == "params-shape":
            rejected(lambda: m["tau"].initialize_from_parameters(np.ones(7) * 0.5, np.ones((9, 5))),
                     w)
        elif w == "plot-name":
            rejected(lambda: Q["x y"], w)
    for n in names:
        same(state(m[n]), s0[n], "the engine call")
    require(Q.iter == it0 and np.array_equal(Q.L[:it0], L0), "the engine's record changed")
    R.nontrivial(it0 > 0)


SUBS = [
    Sub("data", gen_data, check_data, 3000, 40000,
        rule="several plates, or a node that is not in its initial state"),
    Sub("params", gen_par, check_par, 1500, 20000,
        rule="several plates, or a node that is not in its initial state"),
    Sub("build", gen_build, check_build, 600, 6000,
        rule="the model is updated after the rejected constructions"),
    Sub("engine", gen_engine, check_engine, 300, 3000, rule="a run of at least one iteration"),
]
