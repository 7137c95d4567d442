"""C12: mixtures equal the enumeration of their assignments.

Oracle: for every plate and every combination of assignments an ordinary node of the mixed
class is built with that combination's parameters; its bound term and its messages, weighted
with the assignment probabilities, must add up to those of the mixture.
"""
import itertools
import numpy as np
from vlib import dense as dn, single
from vlib.harness import Sub, require, close
from checks import c11

# class: list of (parent type, "node" allowed)
CLASSES = {
    "gard": [("g", True), ("ga", True)],
    "gauss": [("g", True), ("w", True)],
    "ga": [("shape", False), ("ga", True)],
    "poi": [("ga", True)],
    "c": [("d", True)],
    "mul": [("d", True)],
    "bern": [("beta", True)],
    "bin": [("beta", True)],
    "d": [("conc", False)],
    "beta": [("conc", False)],
    "w": [("dof", False), ("w", True)],
    "cmc": [("d", True), ("d", True)],
    "gmc": [("g", True), ("w", True), ("g", True), ("ga", True)],
    "gg": [("g", False), ("w", False), ("shape", False), ("ga", True)],
}
LATENT = {"gard": "g0", "gauss": "gauss", "ga": "ga", "w": "w", "d": "d", "beta": "beta",
          "c": "c", "cmc": "cmc"}


def gen(d):
    cls = d.choice(sorted(CLASSES))
    case = dict(cls=cls, seed=d.seed())
    S = {"gauss": [d.int(1, 3)], "w": [d.int(1, 3)], "gg": [d.int(1, 3)],
         "c": [d.int(2, 3)], "mul": [d.int(2, 3), d.int(1, 6)], "d": [d.int(2, 3)],
         "beta": [2], "bin": [d.int(1, 6)], "bern": [1],
         "cmc": [d.int(2, 4), d.int(2, 3)], "gmc": [d.int(3, 4), d.int(1, 2)]}.get(cls, [])
    case["S"] = S
    P = d.shape(2, 3)
    while dn.size(P) > 6:
        P = P[:-1]
    levels = d.choice([1, 1, 1, 2, 2, 3])
    K = [d.int(1, 3)] + [d.int(1, 2) for _ in range(levels - 1)]
    multi = levels > 1 and d.bool()
    cp = -1 if multi else -d.int(1, len(P) + 1)
    case.update(P=P, K=K, multi=multi, cp=cp)
    j = len(P) + cp + 1
    Q = P[:j] + [K[0]] + P[j:]
    Z = []
    for l in range(levels):
        full = P if (l == 0 or multi) else Q + K[1:l]
        Z.append(dict(P=d.subshape(full), z=d.choice(["node", "node", "const"])))
    case["Z"] = Z
    Q = Q + K[1:]
    par = []
    for i, (t, ok) in enumerate(CLASSES[cls]):
        p = d.subshape(Q)
        par.append(dict(P=p, node=bool(ok and d.bool(2, 3)), prior=None))
    # some parameter must have every cluster axis
    i = d.int(0, len(par) - 1)
    k = len(Q) - j
    par[i]["P"] = par[i]["P"][-k:] if len(par[i]["P"]) >= k else Q[-k:]
    par[i]["P"] = par[i]["P"][:-k] + [Q[-k]] + par[i]["P"][len(par[i]["P"]) - k + 1:] \
        if k > 1 else par[i]["P"][:-1] + [Q[-1]]
    for l in range(1, levels):
        par[i]["P"][-(levels - l)] = K[l]
    case["par"] = par
    case["y"] = d.choice(["obs", "mask", "latent"]) if cls in LATENT and cls != "cmc" \
        else "latent" if cls == "cmc" else d.choice(["obs", "mask"])
    if cls in ("bin", "mul") and d.bool():
        # numbers of trials differing between plates (but not between clusters)
        q = list(P[:j]) + [1] + list(P[j:]) + [1] * (levels - 1)
        case["trials"] = d.subshape(q)
    case["mask"] = d.subshape(P)
    case["child"] = d.int(0, 3)
    case["explicit"] = d.bool(3, 4)
    return case


def tail(cls, i, S):
    """Plates of parent i after the plates of the mixed node."""
    if cls == "cmc" and i == 1:
        return (S[0] - 1, S[1])
    if cls == "gmc" and i == 2:
        return (S[0] - 1, S[1])
    if cls == "gmc" and i == 3:
        return (S[0] - 1, S[1])
    return ()


def ptype(cls, i, S, t):
    """(dense type, shape) of parent i."""
    D = {"gauss": S[:1], "w": S[:1], "gg": S[:1], "gmc": S[1:2]}.get(cls, [])
    if t == "g":
        return "g", tuple(D)
    if t == "w":
        return "w", tuple(D)
    if t == "ga":
        return "ga", ()
    if t == "d":
        return "d", (S[1],) if cls == "cmc" else (S[0],)
    if t == "beta":
        return "d", (2,)
    if t == "conc":
        return "conc", tuple(S)
    return t, ()


def const_value(t, rs, P, S, D):
    if t == "conc":
        return 0.4 + 2 * rs.rand(*(P + S))
    if t == "shape":
        return 0.5 + 2 * rs.rand(*P)
    if t == "dof":
        return D + 0.5 + 2 * rs.rand(*P)
    return dn.random_value(t, rs, P, S)


def make_parent(t, S, P, prior, phi):
    import bayespy.nodes as N
    if t == "g":
        x = N.GaussianARD(prior[0], prior[1], shape=S, plates=P)
    elif t == "ga":
        x = N.Gamma(prior[0], prior[1], plates=P)
    elif t == "w":
        x = N.Wishart(prior[0], prior[1], plates=P)
    elif t == "d":
        x = N.Dirichlet(prior[0], plates=P)
    elif t == "beta":
        x = N.Beta(prior[0], plates=P)
    x.set_parameters([np.array(p) for p in phi])
    return x


PRIOR = {"g": lambda S: [0.3, 0.7], "ga": lambda S: [1.5, 0.8],
         "w": lambda S: [S[0] + 1.0, 0.7 * np.eye(S[0])],
         "d": lambda S: [np.full(S, 1.3)], "beta": lambda S: [np.array([1.3, 1.7])]}


def prior_phi(t, S):
    p = PRIOR[t](S)
    if t == "g":
        D = dn.size(S)
        return [np.full(S, p[0] * p[1]), (-0.5 * p[1] * np.eye(D)).reshape(S + S)]
    if t == "ga":
        return [np.asarray(-p[1]), np.asarray(p[0])]
    if t == "w":
        return [-0.5 * p[1], np.asarray(0.5 * p[0])]
    return [p[0]]


def construct(cls, S, a, n=None, **kw):
    import bayespy.nodes as N
    return dict(gard=lambda: N.GaussianARD(*a, **kw), gauss=lambda: N.Gaussian(*a, **kw),
                ga=lambda: N.Gamma(*a, **kw), exp=lambda: N.Exponential(*a, **kw),
                poi=lambda: N.Poisson(*a, **kw), c=lambda: N.Categorical(*a, **kw),
                mul=lambda: N.Multinomial(n, *a, **kw),
                bern=lambda: N.Bernoulli(*a, **kw), bin=lambda: N.Binomial(n, *a, **kw),
                d=lambda: N.Dirichlet(*a, **kw), beta=lambda: N.Beta(*a, **kw),
                w=lambda: N.Wishart(*a, **kw),
                cmc=lambda: N.CategoricalMarkovChain(*a, **kw),
                gmc=lambda: N.GaussianMarkovChain(*a, **kw),
                gg=lambda: N.GaussianGamma(*a, **kw))[cls]()


def node_class(cls, S, n):
    """Node class and the leading arguments of the mixed distribution."""
    import bayespy.nodes as N
    return {"gard": (N.GaussianARD,), "gauss": (N.Gaussian,), "ga": (N.Gamma,),
            "exp": (N.Exponential,), "poi": (N.Poisson,), "c": (N.Categorical,),
            "mul": (N.Multinomial, n),
            "bern": (N.Bernoulli,), "bin": (N.Binomial, n),
            "d": (N.Dirichlet,), "beta": (N.Beta,), "w": (N.Wishart,),
            "cmc": (N.CategoricalMarkovChain,), "gmc": (N.GaussianMarkovChain,),
            "gg": (N.GaussianGamma,)}[cls]


def data(cls, rs, P, S, n):
    if cls == "gard":
        return rs.randn(*P)
    if cls == "gauss":
        return rs.randn(*(P + (S[0],)))
    if cls in ("ga", "exp"):
        return 0.2 + rs.rand(*P) * 2
    if cls == "poi":
        return rs.poisson(2.0, size=P)
    if cls == "c":
        return rs.randint(0, S[0], size=P)
    if cls == "mul":
        x = np.zeros(P + (S[0],), int)
        for p in np.ndindex(P):
            x[p] = rs.multinomial(np.broadcast_to(n, P)[p], np.ones(S[0]) / S[0])
        return x
    if cls == "bern":
        return rs.randint(0, 2, size=P)
    if cls == "bin":
        return np.floor(rs.rand(*P) * (np.broadcast_to(n, P) + 1)).astype(int)
    if cls == "d":
        return dn.random_value("d", rs, P, tuple(S))
    if cls == "beta":
        return 0.05 + 0.9 * rs.rand(*P)
    if cls == "w":
        return dn.spd(rs, P, S[0])
    if cls == "cmc":
        return rs.randint(0, S[1], size=P + (S[0],))
    if cls == "gmc":
        return rs.randn(*(P + (S[0], S[1])))
    return [rs.randn(*(P + (S[0],))), 0.2 + rs.rand(*P) * 2]     # gg


def make_child(cc, y, P, rs):
    import bayespy.nodes as N
    if cc["base"]["kind"] != "cmc":
        return c11.make_child(cc, y, P, rs)
    n, k = cc["base"]["S"]
    x = N.Mixture(y, N.GaussianARD, rs.randn(k), 1.0, plates=tuple(P) + (n,))
    x.observe(rs.randn(*(tuple(P) + (n,))))


def pick(a, plates, full):
    """a[index of the full plates], where a has `plates` broadcasting to the full plates."""
    n = len(plates)
    idx = tuple(0 if s == 1 else i for s, i in zip(plates, full[len(full) - n:])) if n else ()
    return idx, a[idx]


def check(case, R):
    import bayespy.nodes as N
    cls, S, P, K = case["cls"], case["S"], tuple(case["P"]), case["K"]
    rs = np.random.RandomState(case["seed"])
    cp = case["cp"]
    j = len(P) + cp + 1
    pars, args = [], []
    for i, ((t0, _), rec) in enumerate(zip(CLASSES[cls], case["par"])):
        t, s = ptype(cls, i, S, t0)
        s = tuple(s)
        pl, tl = tuple(rec["P"]), tail(cls, i, S)
        if rec["node"]:
            phi = dn.random_phi(t, rs, pl + tl, s)
            tt = "beta" if t0 == "beta" else t
            node = make_parent(tt, s, pl + tl, PRIOR[tt](s), phi)
            pars.append(dict(t=t, tt=tt, S=s, P=pl, tail=tl, phi=phi, node=node))
        else:
            v = const_value(t, rs, pl + tl, s, (S or [1])[0])
            if t0 == "beta":
                v = v[..., 0]
                s = ()
            if cls in ("gmc",) and i == 2:
                v = v * 0.5
            node = v
            pars.append(dict(t=t, S=s, P=pl, tail=tl, value=v, node=v))
        args.append(node)
    Z, prob = [], []
    for l, rec in enumerate(case["Z"]):
        zp, k = tuple(rec["P"]), K[l]
        if rec["z"] == "const":
            z = rs.randint(0, k, size=zp)
            Z.append(z)
            prob.append(np.eye(k)[z])
        else:
            q = rs.dirichlet(np.ones(k) * 2, size=zp)
            z = N.Categorical(q, plates=zp)
            rec = rec
            ph = rs.randn(*(zp + (k,)))
            z.set_parameters([ph])
            e = np.exp(ph)
            Z.append(z)
            prob.append(e / e.sum(-1, keepdims=True))
            z._c12prior = np.log(q)
    trials = np.asarray(S[1] if cls == "mul" else S[0] if cls == "bin" else 1)
    if "trials" in case:
        trials = rs.randint(1, 7, size=tuple(case["trials"]))
    nc = node_class(cls, S, trials if trials.ndim else int(trials))
    # trials without the cluster axes
    tq = trials.reshape((1,) * (len(P) + len(K) - trials.ndim) + trials.shape)
    tq = tq.reshape(tq.shape[:len(P) + 1])
    tp = np.broadcast_to(np.squeeze(tq, axis=j), P)
    kw = dict(plates=P) if case["explicit"] or cls == "x" else {}
    if case["multi"]:
        y = N.MultiMixture(Z, *nc, *args, **kw)
    else:
        a = []
        for z in Z[1:]:
            a += [N.Mixture, z]
        y = N.Mixture(Z[0], *a, *nc, *args, cluster_plate=cp, **kw)
    if not kw:
        # the plates come from the assignments and the parameters
        Q = [1] * (len(P) + len(K))
        for p in pars:
            n = len(p["P"])
            for x in range(n):
                Q[len(Q) - n + x] = max(Q[len(Q) - n + x], p["P"][x])
        nax = max([len(p["P"]) for p in pars])
        exp = Q[:j] + Q[j + 1:len(Q) - len(K) + 1]
        lead = max(0, nax - len(K))
        shapes = [tuple(exp[len(exp) - lead:])]
        for l, rec in enumerate(case["Z"]):
            zp = list(rec["P"])
            if l and not case["multi"]:
                # drop the cluster axes
                zp = zp[:len(zp) - (l - 1)] if l > 1 else zp
                if len(zp) >= -cp:
                    del zp[len(zp) + cp]
            shapes.append(tuple(zp))
        if "trials" in case:
            want = None
        else:
            want = np.broadcast_shapes(*shapes)
        require(want is None or tuple(y.plates) == want,
                "plates of the mixture %s, should be %s", y.plates, want)
        want = tuple(y.plates)
        if want != P:
            R.tag("implicit-plates-smaller")
            return
    require(tuple(y.plates) == P, "plates of the mixture %s, should be %s", y.plates, P)
    # observe
    mask = np.ones(P, bool)
    yphi = None
    Sy = tuple(S)
    ty = {"gard": "g", "gauss": "g", "ga": "ga", "w": "w", "d": "d", "beta": "d",
          "c": "c", "cmc": "cmc"}.get(cls)
    if case["y"] == "latent":
        base = dict(kind=LATENT[cls], t=ty, S=list(Sy))
        cc = dict(base=base, P=list(P), mask=None, extra=0, child=case["child"])
        y.initialize_from_prior()
        prior_y = [np.broadcast_to(x, P + tuple(dd)).copy() for x, dd in
                   zip(y.phi, dn.dims_of(ty, Sy))]
        yphi = dn.random_phi(ty, rs, P, Sy)
        y.set_parameters(yphi)
        make_child(cc, y, P, rs)
    else:
        val = data(cls, rs, P, S, tp)
        val = [np.asarray(v) for v in val] if cls == "gg" else np.asarray(val)
        if case["y"] == "mask":
            mp = tuple(case["mask"])
            m0 = rs.rand(*mp) < 0.6 if mp else np.asarray(True)
            mask = np.broadcast_to(m0, P)
            y.observe(val, mask=m0)
        else:
            y.observe(val)
    # enumerate
    combos = list(itertools.product(*[range(k) for k in K]))
    want_L = 0.0
    zmsg = [np.zeros(p.shape) for p in prob]
    pmsg = [[np.zeros(p["P"] + p["tail"] + tuple(dd)) for dd in dn.dims_of(p["t"], p["S"])]
            if "phi" in p else None for p in pars]
    plive = [np.zeros(p["P"], bool) for p in pars]
    zlive = [np.zeros(p.shape[:-1], bool) for p in prob]
    pacc = [np.zeros(P + tuple(dd)) for dd in dn.dims_of(ty, Sy)] if yphi is not None else None
    scale = 1.0
    for p in np.ndindex(P):
        for ks in combos:
            full = p[:j] + (ks[0],) + p[j:] + tuple(ks[1:])
            a, sub = [], []
            for q in pars:
                if "phi" in q:
                    idx = pick(np.empty(q["P"]), q["P"], full)[0]
                    ph = [np.asarray(x)[idx] for x in q["phi"]]
                    nd = make_parent(q["tt"], q["S"], q["tail"], PRIOR[q["tt"]](q["S"]), ph)
                    a.append(nd)
                    sub.append((idx, nd))
                else:
                    idx, v = pick(np.asarray(q["value"]), q["P"], full)
                    a.append(v)
                    sub.append((idx, None))
            x = construct(cls, S, a, int(tp[p]))
            w, zi = 1.0, []
            for l, pz in enumerate(prob):
                zfull = p if (l == 0 or case["multi"]) else p[:j] + (ks[0],) + p[j:] + ks[1:l]
                idx = pick(np.empty(pz.shape[:-1]), pz.shape[:-1], zfull)[0]
                zi.append(idx)
                w = w * pz[idx][ks[l]]
            if yphi is not None:
                x.initialize_from_prior()
                for acc, ph in zip(pacc, x.phi):
                    acc[p] += w * ph
                x.set_parameters([np.array(np.asarray(v)[p]) for v in yphi])
                # data below keeps the plate relevant
                make_child(dict(cc, P=[]), x, (), np.random.RandomState(0))
            else:
                x.observe([v[p] for v in val] if cls == "gg" else val[p])
            Lx = x.lower_bound_contribution()
            if not mask[p]:
                continue
            want_L += w * Lx
            scale = max(scale, abs(Lx))
            for l in range(len(K)):
                # all weights but this level's
                wo = 1.0
                for l2, pz in enumerate(prob):
                    if l2 != l:
                        wo = wo * pz[zi[l2]][ks[l2]]
                zmsg[l][zi[l] + (ks[l],)] += wo * Lx
                zlive[l][zi[l]] = True
            for q, (idx, nd), pm, pl in zip(pars, sub, pmsg, plive):
                pl[idx] = True
                if nd is None:
                    continue
                nd.update()
                pri = prior_phi(q["tt"], q["S"])
                for acc, ph, pr in zip(pm, nd.phi, pri):
                    acc[idx] += w * (ph - pr)
                nd.set_parameters([np.asarray(v)[idx] for v in q["phi"]])
    close(y.lower_bound_contribution(), want_L, "bound term of the mixture",
          rtol=1e-8, atol=1e-8, scale=scale * max(1, dn.size(P)))
    if yphi is not None:
        for k, (a_, b_) in enumerate(zip(prior_y, pacc)):
            close(a_, b_, "prior natural parameter %d of the mixture" % k, rtol=1e-9, atol=1e-9)
    for l, z in enumerate(Z):
        if case["Z"][l]["z"] == "const" or not np.any(zlive[l]):
            continue
        z.update()
        got = np.broadcast_to(z.phi[0], prob[l].shape) - z._c12prior
        got = got - got[..., :1]
        want = zmsg[l] - zmsg[l][..., :1]
        lv = zlive[l][..., None]
        close(np.where(lv, got, 0), np.where(lv, want, 0),
              "message to assignment %d" % l, rtol=1e-8, atol=1e-8,
              scale=scale * max(1, dn.size(P)))
        z.set_parameters([np.log(prob[l])])
    for i, q in enumerate(pars):
        if "phi" not in q or not np.any(plive[i]):
            continue
        q["node"].update()
        pri = prior_phi(q["tt"], q["S"])
        for k, (got, m, pr, dd) in enumerate(zip(q["node"].phi, pmsg[i], pri,
                                                 dn.dims_of(q["t"], q["S"]))):
            lv = plive[i].reshape(q["P"] + (1,) * (len(q["tail"]) + len(dd)))
            got = np.broadcast_to(got, m.shape) - pr
            close(np.where(lv, got, 0), np.where(lv, m, 0),
                  "message %d to parameter %d" % (k, i), rtol=1e-8, atol=1e-8,
                  scale=max(1, np.max(np.abs(m)) if m.size else 0))
        q["node"].set_parameters([np.array(v) for v in q["phi"]])
    R.nontrivial(np.any(mask) and len(combos) > 1)
    R.tag(cls, case["y"], "levels%d" % len(K) + ("m" if case["multi"] else ""))


SUBS = [
    Sub("enumerate", gen, check, 4000, 60000,
        rule="counts when there is more than one combination of assignments and some data or "
             "distribution below"),
]
