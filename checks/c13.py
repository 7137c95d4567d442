"""C13: linear Markov chains (fixed, varying, switching dynamics) against dense expectations.

Oracle: the expected log density of the whole chain, written from the definition with plain
sums over time steps and coordinates, evaluated with the moments of all parents and of the chain
(means of time-shifted products from the dense covariance of all states).  The chain's bound term
must equal it; its prior natural parameters and its messages to every parent must reproduce it as
a function of the chain's and that parent's value.
"""
import numpy as np
from vlib import dense as dn
from vlib.harness import Sub, require, close

LOG2PI = np.log(2 * np.pi)


def gen(d):
    kind = d.choice(["gmc", "gmc", "gmci", "var", "var", "sw", "sw"])
    D, N, K = d.int(1, 3), d.int(2, 4), d.int(1, 3)
    P = d.shape(2, 2)
    T = N - 1
    time = lambda: d.choice([T, T, 1])
    case = dict(kind=kind, D=D, N=N, K=K, P=P, seed=d.seed(), y=d.choice(
        ["obs", "mask", "latent", "latent"]), mask=d.subshape(P), which=d.int(0, 4))
    pl = dict(mu=d.subshape(P), Lam=d.subshape(P))
    if kind in ("gmc", "gmci"):
        full = P + [T, D]
        a, v = d.subshape(full), d.subshape(full)
        who = d.choice([0, 1])      # at least one has the state axis
        if who == 0:
            a = (a or [D])[:-1] + [D]
        else:
            v = (v or [D])[:-1] + [D]
        pl.update(A=a, nu=v)
        if kind == "gmci":
            pl["u"] = d.subshape(P + [T])
    elif kind == "var":
        pl["B"] = d.subshape(P) + [D]
        pl["S"] = d.choice([d.subshape(P) + [time()], []])
        pl["nu"] = d.choice([d.subshape(P) + [1, D], [D]])
    else:
        pl["B"] = d.subshape(P) + [K, D]
        pl["Z"] = d.subshape(P) + [T]
        pl["nu"] = d.choice([d.subshape(P) + [1, D], [D]])
    case["plates"] = pl
    case["node"] = {k: d.bool(3, 4) for k in sorted(pl)}
    return case


def types(case):
    D, K = case["D"], case["K"]
    t = dict(mu=("g", (D,)), Lam=("w", (D,)), nu=("ga", ()))
    if case["kind"] == "gmc":
        t["A"] = ("g", (D,))
    elif case["kind"] == "gmci":
        t["A"] = ("g", (D + K,))
        t["u"] = ("g", (K,))
    elif case["kind"] == "var":
        t["B"], t["S"] = ("g", (D, K)), ("g", (K,))
    else:
        t["B"], t["Z"] = ("g", (D,)), ("c", (K,))
    return t


def build_parent(t, S, P):
    import bayespy.nodes as N
    if t == "g":
        return N.GaussianARD(0.2, 0.8, shape=S, plates=P)
    if t == "ga":
        return N.Gamma(1.3, 0.7, plates=P)
    if t == "w":
        return N.Wishart(S[0] + 0.5, 0.6 * np.eye(S[0]), plates=P)
    return N.Categorical(np.full(S, 1.0 / S[0]), plates=P)


def parent_prior(t, S):
    if t == "g":
        D = dn.size(S)
        return [np.full(S, 0.16), (-0.4 * np.eye(D)).reshape(S + S)]
    if t == "ga":
        return [np.asarray(-0.7), np.asarray(1.3)]
    if t == "w":
        return [-0.3 * np.eye(S[0]), np.asarray(0.5 * (S[0] + 0.5))]
    return [np.full(S, -np.log(S[0]))]


def terms(case, x, q):
    """T0 (P) and T1 (P, N-1, D): expected log densities of the first state and of every
    coordinate of every later state.  x: moments of the chain; q: moments of the parents."""
    P, D, N = tuple(case["P"]), case["D"], case["N"]
    T = N - 1
    pl = case["plates"]

    def b(a, dims, extra=()):
        return np.broadcast_to(a, P + tuple(extra) + tuple(dims))
    x0, xx, xp = (np.broadcast_to(a, P + a.shape[a.ndim - n:])
                  for a, n in zip(x, (2, 3, 3)))
    m, mm = b(q["mu"][0], (D,)), b(q["mu"][1], (D, D))
    L, ld = b(q["Lam"][0], (D, D)), b(q["Lam"][1], ())
    C0 = xx[..., 0, :, :] - x0[..., 0, :, None] * m[..., None, :] \
        - m[..., :, None] * x0[..., 0, None, :] + mm
    T0 = 0.5 * ld - 0.5 * np.einsum("...ij,...ij->...", L, C0) - 0.5 * D * LOG2PI
    v, lv = b(q["nu"][0], (), (T, D)), b(q["nu"][1], (), (T, D))
    # regressors
    Z1 = np.swapaxes(xp, -1, -2)[..., None][..., 0]          # (P, T, next, prev)
    ZZ = xx[..., :-1, :, :]
    if case["kind"] in ("gmc", "gmci"):
        R = D
        if case["kind"] == "gmci":
            K = case["K"]
            R = D + K
            u, uu = b(q["u"][0], (K,), (T,)), b(q["u"][1], (K, K), (T,))
            cross = x0[..., :-1, :, None] * u[..., None, :]
            ZZ = np.concatenate([np.concatenate([ZZ, cross], axis=-1),
                                 np.concatenate([np.swapaxes(cross, -1, -2), uu], axis=-1)],
                                axis=-2)
            Z1 = np.concatenate([Z1, x0[..., 1:, :, None] * u[..., None, :]], axis=-1)
        a, aa = b(q["A"][0], (R,), (T, D)), b(q["A"][1], (R, R), (T, D))
    elif case["kind"] == "var":
        K = case["K"]
        B, BB = b(q["B"][0], (D, K), (D,)), b(q["B"][1], (D, K, D, K), (D,))
        s, ss = b(q["S"][0], (K,), (T,)), b(q["S"][1], (K, K), (T,))
        a = np.einsum("...dik,...tk->...tdi", B, s)
        aa = np.einsum("...dikjl,...tkl->...tdij", BB, ss)
    else:
        K = case["K"]
        B, BB = b(q["B"][0], (D,), (K, D)), b(q["B"][1], (D, D), (K, D))
        z = b(q["Z"][0], (K,), (T,))
        a = np.einsum("...kdi,...tk->...tdi", B, z)
        aa = np.einsum("...kdij,...tk->...tdij", BB, z)
    x2 = np.einsum("...tdd->...td", xx[..., 1:, :, :])
    e = x2 - 2 * np.einsum("...tdi,...tdi->...td", a, Z1) \
        + np.einsum("...tdij,...tij->...td", aa, ZZ)
    return T0, 0.5 * lv - 0.5 * v * e - 0.5 * LOG2PI


def value_moments(x):
    """Moments of a known path x (P,N,D)."""
    return [x, x[..., :, None] * x[..., None, :],
            x[..., :-1, :, None] * x[..., 1:, None, :]]


def check(case, R):
    import bayespy.nodes as N
    kind, D, n, K, P = case["kind"], case["D"], case["N"], case["K"], tuple(case["P"])
    rs = np.random.RandomState(case["seed"])
    tt = types(case)
    pl = {k: tuple(v) for k, v in case["plates"].items()}
    node, mom, phi, arg = {}, {}, {}, {}
    for k in sorted(pl):
        t, S = tt[k]
        if case["node"][k]:
            node[k] = build_parent(t, S, pl[k])
            phi[k] = dn.random_phi(t, rs, pl[k], S)
            node[k].set_parameters([np.array(p) for p in phi[k]])
            mom[k] = dn.moments_from_phi(t, phi[k], pl[k], S)
            arg[k] = node[k]
        else:
            v = dn.random_value(t, rs, pl[k], S)
            arg[k] = v
            mom[k] = dn.fixed_moments(t, v, S)
    kw = dict(n=n, plates=P)
    if kind == "gmc":
        X = N.GaussianMarkovChain(arg["mu"], arg["Lam"], arg["A"], arg["nu"], **kw)
    elif kind == "gmci":
        X = N.GaussianMarkovChain(arg["mu"], arg["Lam"], arg["A"], arg["nu"],
                                  inputs=arg["u"], **kw)
    elif kind == "var":
        X = N.VaryingGaussianMarkovChain(arg["mu"], arg["Lam"], arg["B"], arg["S"],
                                         arg["nu"], **kw)
    else:
        X = N.SwitchingGaussianMarkovChain(arg["mu"], arg["Lam"], arg["B"], arg["Z"],
                                           arg["nu"], **kw)
    require(tuple(X.plates) == P, "plates %s, should be %s", X.plates, P)
    require(tuple(map(tuple, X.dims)) == ((n, D), (n, D, D), (n - 1, D, D)), "dims %s", X.dims)
    # prior natural parameters as a function of the path
    X.initialize_from_prior()
    pp = [np.broadcast_to(a, P + tuple(dd)) for a, dd in
          zip(X.phi, dn.dims_of("gmc", (n, D)))]
    Ls, inn = [], []
    for _ in range(3):
        u = value_moments(rs.randn(*(P + (n, D))))
        T0, T1 = terms(case, u, mom)
        Ls.append(T0 + T1.sum((-1, -2)))
        inn.append(sum(np.reshape(a * b, P + (-1,)).sum(-1) for a, b in zip(pp, u)))
    for k in (1, 2):
        close(inn[k] - inn[0], Ls[k] - Ls[0], "log prior as a function of the path",
              rtol=1e-9, atol=1e-9, scale=np.max(np.abs(Ls)))
    # distribution or observation of the chain
    mask = np.ones(P, bool)
    ent = 0.0
    if case["y"] == "latent":
        xphi = dn.random_phi("gmc", rs, P, (n, D))
        X.set_parameters([np.array(a) for a in xphi])
        u = dn.moments_from_phi("gmc", xphi, P, (n, D))
        ent = dn.entropy("gmc", xphi, P, (n, D))
        y = N.GaussianARD(X, 1.0, ndim=1)
        y.observe(np.zeros(P + (n, D)))
    else:
        val = rs.randn(*(P + (n, D)))
        u = value_moments(val)
        if case["y"] == "mask":
            mp = tuple(case["mask"])
            m0 = rs.rand(*mp) < 0.6 if mp else np.asarray(True)
            mask = np.broadcast_to(m0, P)
            X.observe(val, mask=m0)
        else:
            X.observe(val)
    T0, T1 = terms(case, u, mom)
    tot = np.where(mask, T0 + T1.sum((-1, -2)) + ent, 0)
    close(X.lower_bound_contribution(), tot.sum(), "bound term", rtol=1e-9, atol=1e-8,
          scale=np.sum(np.abs(tot)))
    # messages
    names = [k for k in sorted(node) if kind in ("gmc", "gmci") or k in ("B", "S", "Z")]
    if names and np.any(mask):
        k = names[case["which"] % len(names)]
        t, S = tt[k]
        dims = dn.dims_of(t, S)
        nd = node[k]
        nd.update()
        msg = [np.broadcast_to(a, pl[k] + tuple(dd)) - p0 for a, dd, p0 in
               zip(nd.phi, dims, parent_prior(t, S))]
        # which elements of the parent are relevant
        full = {"mu": P, "Lam": P, "S": P + (n - 1,), "Z": P + (n - 1,), "u": P + (n - 1,),
                "A": P + (n - 1, D), "nu": P + (n - 1, D),
                "B": P + ((D,) if kind == "var" else (K, D))}[k]
        live = np.broadcast_to(mask.reshape(P + (1,) * (len(full) - len(P))), full)
        live = dn.any_to(live, full, pl[k])
        Fs, Gs = [], []
        for _ in range(3):
            if t == "c":
                um = [np.eye(S[0])[rs.randint(0, S[0], size=pl[k])]]
            else:
                um = dn.fixed_moments(t, np.asarray(dn.random_value(t, rs, pl[k], S)), S)
            T0, T1 = terms(case, u, dict(mom, **{k: um}))
            T0 = np.where(mask, T0, 0)
            T1 = np.where(mask[..., None, None], T1, 0)
            if k in ("mu", "Lam"):
                f = dn.sum_to(T0, P, pl[k])
            elif k in ("S", "Z", "u"):
                f = dn.sum_to(T1.sum(-1), P + (n - 1,), pl[k])
            elif k in ("A", "nu"):
                f = dn.sum_to(T1, P + (n - 1, D), pl[k])
            elif kind == "var":
                f = dn.sum_to(T1.sum(-2), P + (D,), pl[k])
            else:       # every (cluster, row) separately would need partial sums
                f = dn.sum_to(T1.sum(-2), P + (D,), pl[k][:-2] + (D,))
            g = sum((a * b).reshape(pl[k] + (-1,)).sum(-1) for a, b in zip(msg, um))
            lv = live
            if k == "B" and kind == "sw":
                g = g.sum(-2)
                lv = live.any(-2)
            Fs.append(np.where(lv, f, 0))
            Gs.append(np.where(lv, g, 0))
        for i in (1, 2):
            close(Gs[i] - Gs[0], Fs[i] - Fs[0], "message to %s as a function of its value" % k,
                  rtol=1e-8, atol=1e-8, scale=np.max(np.abs(Fs)))
        R.tag("to:" + k)
        nd.set_parameters([np.array(p) for p in phi[k]])
    R.nontrivial(np.any(mask) and len(node) > 0)
    R.tag(kind, case["y"])


SUBS = [
    Sub("chain", gen, check, 5000, 100000,
        rule="counts when some parent is a variable and part of the chain is relevant"),
]
