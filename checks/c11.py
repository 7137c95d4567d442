"""C11: slicing, taking, concatenating, gating and tiling plates is plain indexing of moments.

All these operations are linear maps of the stacked moments of their operands.  The oracle
evaluates the same expression with numpy indexing on one-hot encoded plate elements, which
yields the matrix A of that map: the moments must equal A u, and the message to a variable
must equal A' m, where m is the message that the same children send to an ordinary variable
of the same type with the plates of the result.
"""
import numpy as np
from vlib import dense as dn, single
from vlib.harness import Sub, require, close

KINDS = ["g0", "g1", "g2", "gauss", "ga", "w", "d", "beta", "c", "gg"]


class G:
    def __init__(self, d, maxleaves):
        self.d, self.left = d, maxleaves
        self.leaves, self.gates = [], []

    def leaf(self, P, const=False):
        self.left -= 1
        d = self.d
        if self.leaves and d.bool(1, 6):
            same = [i for i, l in enumerate(self.leaves) if l["P"] == list(P)
                    and not l["const"]]
            if same:
                return dict(op="leaf", i=d.choice(same), P=list(P))
        self.leaves.append(dict(P=list(P), prior=d.subshape(P), mode=d.int(0, 2),
                                const=bool(const and d.bool(1, 3))))
        return dict(op="leaf", i=len(self.leaves) - 1, P=list(P))

    def expr(self, P, depth, const=False):
        d = self.d
        if depth == 0 or d.bool(1, 6):
            return self.leaf(P, const)
        ops = ["slice", "slice", "take", "take"]
        if any(n >= 2 for n in P) and self.left >= 2:
            ops += ["concat", "concat"]
        if len(P) < 4 and len(self.gates) < 2:
            ops += ["gate", "gate"]
            if self.left >= 3:
                ops += ["choose"]
        if P:
            ops += ["tile"]
        return getattr(self, d.choice(ops))(list(P), depth)

    def slice(self, P, depth):
        d = self.d
        Q, idx = [], []
        for n in P:
            if len(Q) < 4 and d.bool(1, 5):
                m = d.int(1, 3)
                Q.append(m)
                idx.append(d.int(-m, m - 1))
            if n == 1 and d.bool(1, 3):
                idx.append(None)
                continue
            step = d.choice([1, 1, 2, -1, -2])
            if d.bool(1, 3):
                Q.append(n)
                idx.append([None, None, None])
                continue
            pre, post = d.int(0, 1), d.int(0, 1)
            span = abs(step) * (n - 1) + 1
            m = pre + span + post
            if m > 5:
                Q.append(n)
                idx.append([None, None, None])
                continue
            Q.append(m)
            if step > 0:
                a, b = pre, pre + span
                if d.bool(1, 4):
                    a -= m
                if b == m and d.bool(1, 2):
                    b = None
                elif b < m and d.bool(1, 4):
                    b -= m
            else:
                a, b = pre + span - 1, pre - 1
                if b < 0:
                    b = None
                elif d.bool(1, 4):
                    b -= m
            idx.append([a, b, None if step == 1 and d.bool() else step])
        if len(Q) < 4 and d.bool(1, 4):
            m = d.int(1, 3)
            Q.append(m)
            idx.append(d.int(-m, m - 1))
        # leave out trailing full slices, or write an ellipsis for a run of them
        how = d.int(0, 2)
        full = [None, None, None]
        if how == 1:
            while idx and idx[-1] == full:
                idx.pop()
        elif how == 2:
            i = d.int(0, len(idx))
            j = i
            while j < len(idx) and idx[j] == full:
                j += 1
            idx = idx[:i] + ["..."] + idx[j:]
        return dict(op="slice", P=P, idx=idx, a=[self.expr(Q, depth - 1)])

    def take(self, P, depth):
        d = self.d
        r = d.int(0, min(2, len(P)))
        s = d.int(0, len(P) - r)
        m = d.int(1, 4)
        block = P[s:s + r]
        n = dn.size(block)
        ind = [d.int(-m, m - 1) for _ in range(n)]
        return dict(op="take", P=P, ind=np.reshape(ind, block).tolist(), m=m,
                    axis=-(len(P) - s - r) - 1,
                    a=[self.expr(P[:s] + [m] + P[s + r:], depth - 1)])

    def concat(self, P, depth):
        d = self.d
        ax = d.choice([i for i, n in enumerate(P) if n >= 2])
        n = d.int(2, min(P[ax], 3))
        cuts = sorted(d.perm(P[ax] - 1)[:n - 1])
        edges = [0] + [c + 1 for c in cuts] + [P[ax]]
        a = []
        for k, (lo, hi) in enumerate(zip(edges, edges[1:])):
            a.append(self.expr(P[:ax] + [hi - lo] + P[ax + 1:], depth - 1, const=k > 0))
        return dict(op="concat", P=P, axis=ax - len(P), a=a)

    def gate(self, P, depth):
        d = self.d
        K = d.int(1, 3)
        j = d.int(0, len(P))
        zp, xp = (d.subshape(P), list(P)) if d.bool(2, 3) else (list(P), None)
        if xp is None:
            xp = [n if d.bool(2, 3) else 1 for n in P]
        Q = xp[:j] + [K] + xp[j:]
        g = len(self.gates)
        self.gates.append(dict(P=zp, K=K, z=d.choice(["node", "node", "node", "const"])))
        return dict(op="gate", P=P, g=g, axis=-(len(P) - j) - 1, K=K,
                    a=[self.expr(Q, depth - 1)])

    def choose(self, P, depth):
        d = self.d
        K = d.int(2, 3)
        g = len(self.gates)
        self.gates.append(dict(P=d.subshape(P), K=K, z=d.choice(["node", "node", "const"])))
        return dict(op="choose", P=P, g=g, K=K, a=[self.expr(P, depth - 1) for _ in range(K)])

    def tile(self, P, depth):
        d = self.d
        t, Q = [], []
        for n in P:
            k = d.choice([k for k in range(1, n + 1) if n % k == 0])
            t.append(k)
            Q.append(n // k)
        while t and t[0] == 1 and d.bool():
            t.pop(0)
        if len(t) == len(P):
            # the tiles may add axes
            while Q and Q[0] == 1 and d.bool():
                Q.pop(0)
        return dict(op="tile", P=P, t=t, a=[self.expr(Q, depth - 1)])


def gen(d):
    kind = d.choice(KINDS)
    base = single.draw(d, types=[kind], maxplates=0)
    P = d.shape(3, 3)
    g = G(d, d.int(2, 5))
    e = g.expr(P, d.int(1, 3))
    return dict(base=base, P=P, expr=e, leaves=g.leaves, gates=g.gates, seed=d.seed(),
                mask=d.subshape(P) if d.bool(1, 2) else None, extra=d.int(0, 2),
                child=d.int(0, 3))


# ------------------------------------------------------------------- oracle

def np_index(idx):
    out = []
    for s in idx:
        if s is None or isinstance(s, int):
            out.append(s)
        elif s == "...":
            out.append(Ellipsis)
        else:
            out.append(slice(*s))
    return tuple(out)


def forward(e, X, p):
    """The expression on arrays with the plates first and one trailing axis."""
    op = e["op"]
    if op == "leaf":
        return X[e["i"]]
    a = [forward(x, X, p) for x in e["a"]]
    if op == "slice":
        idx = np_index(e["idx"])
        return a[0][idx + ((slice(None),) if Ellipsis in idx else ())]
    if op == "take":
        return np.take(a[0], np.array(e["ind"], dtype=int), axis=e["axis"] - 1)
    if op == "concat":
        return np.concatenate(a, axis=e["axis"] - 1)
    if op == "tile":
        return np.tile(a[0], tuple(e["t"]) + (1,))
    w = p[e["g"]]
    if op == "gate":
        x = np.moveaxis(a[0], e["axis"] - 1, -2)
    else:
        x = np.stack(a, axis=-2)
    return (w[..., None] * x).sum(-2)


def build_expr(e, leaves, Z):
    import bayespy.nodes as N
    from bayespy.inference.vmp.nodes.deterministic import tile
    op = e["op"]
    if op == "leaf":
        return leaves[e["i"]]
    a = [build_expr(x, leaves, Z) for x in e["a"]]
    if op == "slice":
        idx = np_index(e["idx"])
        return a[0][idx if len(idx) != 1 else idx[0]]
    if op == "take":
        return N.Take(a[0], np.array(e["ind"], dtype=int), plate_axis=e["axis"])
    if op == "concat":
        return N.Concatenate(*a, axis=e["axis"])
    if op == "tile":
        t = tuple(e["t"])
        return tile(a[0], t)
    if op == "gate":
        return N.Gate(Z[e["g"]], a[0], gated_plate=e["axis"])
    return N.Choose(Z[e["g"]], *a)


def make_child(case, F, P, rs):
    """A child with plates extra+P; observed, possibly masked."""
    import bayespy.nodes as N
    k, S = case["base"]["kind"], tuple(case["base"]["S"])
    ex = (case["extra"],) if case["extra"] else ()
    CP = ex + tuple(P)
    v = case["child"]
    c = rs.randint(0, 2 ** 30)
    r = np.random.RandomState(c)
    if k in ("g0", "g1", "g2"):
        y = N.GaussianARD(F, 0.5 + r.rand(*(CP + S)) * 2, ndim=len(S), plates=CP)
        data = r.randn(*(CP + S))
    elif k == "gauss":
        y = N.Gaussian(F, dn.spd(r, CP, S[0]), plates=CP)
        data = r.randn(*(CP + S))
    elif k == "ga":
        if v == 0:
            y, data = N.Poisson(F, plates=CP), r.poisson(2.0, size=CP)
        elif v == 1:
            y, data = N.Gamma(0.5 + r.rand(*CP), F, plates=CP), 0.2 + r.rand(*CP)
        else:
            y, data = N.GaussianARD(r.randn(*CP), F, plates=CP), r.randn(*CP)
    elif k == "w":
        y, data = N.Gaussian(r.randn(*(CP + S)), F, plates=CP), r.randn(*(CP + S))
    elif k == "d":
        if v % 2:
            y = N.Multinomial(5, F, plates=CP)
            data = r.multinomial(5, np.ones(S[0]) / S[0], size=CP)
        else:
            y, data = N.Categorical(F, plates=CP), r.randint(0, S[0], size=CP)
    elif k == "beta":
        if v % 2:
            y, data = N.Binomial(4, F, plates=CP), r.randint(0, 5, size=CP)
        else:
            y, data = N.Bernoulli(F, plates=CP), r.randint(0, 2, size=CP)
    elif k == "c":
        y = N.Mixture(F, N.GaussianARD, r.randn(S[0]) * 2, 0.5 + r.rand(S[0]), plates=CP)
        data = r.randn(*CP)
    elif k == "gg":
        G_ = N.Dot(F, r.randn(*(tuple(P) + S)))
        y, data = N.GaussianARD(G_, 0.5 + r.rand(*CP), plates=CP), r.randn(*CP)
    require(tuple(y.plates) == CP, "plates of a child %s, should be %s", y.plates, CP)
    m = np.ones(CP, bool)
    if case["mask"] is not None:
        mp = tuple(case["mask"])
        m0 = r.rand(*mp) < 0.6 if mp else np.asarray(True)
        m = np.broadcast_to(m0, CP)
        y.observe(data, mask=m0)
    else:
        y.observe(data)
    return y, m


def check(case, R):
    import bayespy.nodes as N
    base = case["base"]
    t, S = base["t"], tuple(base["S"])
    dims = dn.dims_of(t, S)
    rs = np.random.RandomState(case["seed"])
    P = tuple(case["P"])
    leaves, prior, U, Phi = [], [], [], []
    for rec in case["leaves"]:
        c = dict(base, P=rec["P"])
        lp = tuple(rec["P"])
        if rec["const"] and t != "gg":
            v = dn.random_value(t, rs, lp, S)
            leaves.append(v[..., 0] if base["kind"] == "beta" else v)
            U.append(dn.fixed_moments(t, v, S))
            prior.append(None)
            Phi.append(None)
            continue
        par = single.params(c, rs, P=rec["prior"])
        node = single.build(c, par)
        prior.append([np.broadcast_to(x, lp + tuple(dd)) for x, dd in
                      zip(single.prior_phi(c, par), dims)])
        phi = prior[-1]
        if rec["mode"] == 1:
            phi = dn.random_phi(t, rs, lp, S)
            node.set_parameters(phi)
        elif rec["mode"] == 2:
            # parameters, hence moments, given with unit axes
            sub = tuple(n if b else 1 for n, b in zip(lp, rs.rand(len(lp)) < 0.5))
            phi = dn.random_phi(t, rs, sub, S)
            node.set_parameters(phi)
            phi = [np.broadcast_to(x, lp + tuple(dd)) for x, dd in zip(phi, dims)]
        leaves.append(node)
        Phi.append(phi)
        U.append(dn.moments_from_phi(t, phi, lp, S))
    Z, prob, zprior = [], [], []
    for g in case["gates"]:
        gp, K = tuple(g["P"]), g["K"]
        if g["z"] == "const":
            z = rs.randint(0, K, size=gp)
            Z.append(z)
            prob.append(np.eye(K)[z])
            zprior.append(None)
        else:
            q = rs.dirichlet(np.ones(K) * 2, size=gp)
            z = N.Categorical(q, plates=gp)
            zprior.append(np.log(q))
            ph = rs.randn(*(gp + (K,)))
            z.set_parameters([ph])
            Z.append(z)
            e = np.exp(ph)
            prob.append(e / e.sum(-1, keepdims=True))
    F = build_expr(case["expr"], leaves, Z)
    require(tuple(F.plates) == P, "plates of the result %s, should be %s", F.plates, P)
    require(tuple(map(tuple, F.dims)) == tuple(map(tuple, dims)), "dims of the result %s, "
            "should be %s", F.dims, dims)
    sizes = [dn.size(l["P"]) for l in case["leaves"]]
    off = np.concatenate([[0], np.cumsum(sizes)])
    n = int(off[-1])
    eye = np.eye(n)
    X = [eye[off[i]:off[i + 1]].reshape(tuple(l["P"]) + (n,))
         for i, l in enumerate(case["leaves"])]

    def weights(p):
        A = forward(case["expr"], X, p)
        return np.broadcast_to(A, P + (n,)).reshape(-1, n)

    def flat(k, arrays):
        return np.concatenate([np.broadcast_to(u[k], tuple(l["P"]) + tuple(dims[k])).reshape(
            (s, -1)) for u, l, s in zip(arrays, case["leaves"], sizes)])
    A = weights(prob)
    u = F.get_moments()
    FU = []
    for k, dd in enumerate(dims):
        FU.append((A @ flat(k, U)).reshape(P + tuple(dd)))
        close(u[k], FU[k], "moment %d of the expression" % k, rtol=1e-9, atol=1e-11)
    # the reference variable with the plates of the result
    y, m = make_child(case, F, P, np.random.RandomState(case["seed"] + 1))
    ref = single.build(dict(base, P=list(P)), single.params(dict(base, P=list(P)), rs))
    y2, _ = make_child(case, ref, P, np.random.RandomState(case["seed"] + 1))
    ref.initialize_from_prior()
    p0 = [np.broadcast_to(x, P + tuple(dd)).copy() for x, dd in zip(ref.phi, dims)]
    ref.update()
    cm = [np.broadcast_to(x, P + tuple(dd)) - q for x, q, dd in zip(ref.phi, p0, dims)]
    act = m
    while act.ndim > len(P):
        act = np.any(act, axis=0)
    cm = [np.where(act.reshape(P + (1,) * len(dd)), x, 0) for x, dd in zip(cm, dims)]
    gated = len(case["gates"]) > 0
    if not gated and all(p is not None for p in Phi):
        ph = [(A @ flat(k, Phi)).reshape(P + tuple(dd)) for k, dd in enumerate(dims)]
        ref.set_parameters(ph)
        close(y.lower_bound_contribution(), y2.lower_bound_contribution(),
              "bound of the child compared with an ordinary parent", rtol=1e-9, atol=1e-9)
    sc = max([np.max(np.abs(x)) if x.size else 0 for x in cm] + [1])
    # messages to the variables
    for i, (leaf, l) in enumerate(zip(leaves, case["leaves"])):
        if prior[i] is None:
            continue
        lp = tuple(l["P"])
        Ai = A[:, off[i]:off[i + 1]]
        live = (Ai * act.reshape(-1, 1) > 0).any(0).reshape(lp)
        if not np.any(live):
            continue
        leaf.update()
        for k, dd in enumerate(dims):
            want = (Ai.T @ cm[k].reshape(Ai.shape[0], -1)).reshape(lp + tuple(dd)) + prior[i][k]
            got = np.broadcast_to(leaf.phi[k], lp + tuple(dd))
            w = live.reshape(lp + (1,) * len(dd))
            close(np.where(w, got, 0), np.where(w, want, 0),
                  "natural parameter %d of variable %d after its update" % (k, i),
                  rtol=1e-8, atol=1e-9, scale=sc * dn.size(P))
        if Phi[i] is not None:
            leaf.set_parameters(Phi[i])
    # messages to the gates
    for j, g in enumerate(case["gates"]):
        if zprior[j] is None:
            continue
        gp, K = tuple(g["P"]), g["K"]
        base_p = prob[j]
        want = np.zeros(gp + (K,))
        Us = [flat(k, U) for k in range(len(dims))]
        C = [x.reshape(A.shape[0], -1) for x in cm]
        for idx in np.ndindex(gp + (K,)):
            q = base_p.copy()
            q[idx] += 1
            D = weights(prob[:j] + [q] + prob[j + 1:]) - A
            want[idx] = sum(np.sum(c * (D @ uu)) for c, uu in zip(C, Us))
        live = np.zeros(gp, bool)
        e1 = [np.ones_like(x) for x in prob]
        for idx in np.ndindex(gp):
            q = [x.copy() for x in e1]
            q[j][idx] += 1
            D = weights(q) - weights(e1)
            live[idx] = np.any((D != 0) & act.reshape(-1, 1))
        if not np.any(live):
            continue
        Z[j].update()
        got = np.broadcast_to(Z[j].phi[0], gp + (K,)) - zprior[j]
        # only differences between the categories matter
        got = got - got[..., :1]
        want = want - want[..., :1]
        close(np.where(live[..., None], got, 0), np.where(live[..., None], want, 0),
              "message to gate %d" % j, rtol=1e-7, atol=1e-8, scale=sc * max(1, max(
                  np.max(np.abs(x)) if x.size else 0 for x in Us)) * dn.size(P))
        Z[j].set_parameters([np.log(prob[j])])
    ops = []

    def walk(e):
        if e["op"] != "leaf":
            ops.append(e["op"])
            for x in e["a"]:
                walk(x)
    walk(case["expr"])
    R.nontrivial(bool(ops) and np.any(act))
    R.tag(base["kind"], *ops)


SUBS = [
    Sub("routing", gen, check, 5000, 100000,
        rule="counts when at least one operation is applied and some data is observed"),
]
