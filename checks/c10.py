"""C10: sums, products and concatenations of Gaussian variables are exact expectations.

Oracle: every leaf of a randomly drawn expression (each leaf used once, so the expression is
affine in each leaf) is replaced by the D+1 equally weighted corners of a simplex with the
leaf's mean and covariance.  On the product grid the expression is evaluated with plain array
arithmetic; averages over the grid are then exact for first and second moments.
"""
import numpy as np
from vlib import dense as dn, single
from vlib.harness import Sub, require, close, same_shape


# ---------------------------------------------------------------- generation

class G:
    def __init__(self, d, CP, budget, maxleaves):
        self.d, self.CP, self.budget, self.left = d, CP, budget, maxleaves
        self.leaves = []

    def leaf(self, S, gg=False):
        d = self.d
        self.left -= 1
        D = dn.size(S)
        kinds = ["const"]
        if self.budget >= D + 1:
            kinds = ["gard", "gard", "gard", "const"]
            if len(S) == 1:
                kinds += ["gauss", "gauss"]
                if self.CP:
                    kinds += ["gmc"]
            if len(S) in (0, 2):
                kinds += ["gs%d" % len(S)]
            if gg and len(S) <= 1:
                kinds += ["gg", "gg"]
        k = d.choice(kinds)
        if k != "const":
            self.budget //= D + 1
        P = d.subshape(self.CP)
        if k == "gmc":
            P = list(self.CP) if len(P) == 0 else P
            if P[-1] != self.CP[-1] or self.CP[-1] < 2:
                k = "gauss"
        self.leaves.append(dict(k=k, S=list(S), P=P))
        return dict(op="leaf", i=len(self.leaves) - 1, S=list(S))

    def expr(self, S, depth, top=False):
        d = self.d
        if depth == 0 or self.left <= 1 or (not top and d.bool(1, 3)):
            return self.leaf(S)
        ops = ["sm", "sm", "sm", "add"]
        if len(S) == 1 and S[0] >= 2:
            ops += ["cat"]
        op = d.choice(ops)
        if op == "add":
            n = d.int(2, max(2, min(5, self.left)))
            return dict(op="add", S=list(S), a=[self.expr(S, depth - 1) for _ in range(n)])
        if op == "cat":
            n = d.int(2, max(2, min(S[0], self.left)))
            cuts = sorted(d.perm(S[0] - 1)[:n - 1])
            edges = [0] + [c + 1 for c in cuts] + [S[0]]
            return dict(op="cat", S=list(S), a=[self.expr([b - a], depth - 1)
                                                for a, b in zip(edges, edges[1:])])
        nx = d.int(0, 2)
        sizes = list(S) + [d.int(1, 3) for _ in range(nx)]
        n = d.int(1, max(1, min(4, self.left)))
        keys, shapes = [[] for _ in range(n)], [[] for _ in range(n)]
        for k, z in enumerate(sizes):
            uses = [i for i in range(n) if d.bool(1, 2)] or [d.int(0, n - 1)]
            full = d.choice(uses)
            for i in uses:
                keys[i].append(k)
                shapes[i].append(z if i == full or d.bool(3, 4) else 1)
        for i in range(n):
            if len(keys[i]) > 3:
                keys[i], shapes[i] = keys[i][:3], shapes[i][:3]
        for k, z in enumerate(sizes):     # an axis may have lost its only operand
            if not any(k in q for q in keys) or all(
                    shapes[i][keys[i].index(k)] != z for i in range(n) if k in keys[i]):
                for i in range(n):
                    if k in keys[i]:
                        j = keys[i].index(k)
                        del keys[i][j], shapes[i][j]
                keys.append([k])
                shapes.append([z])
                n += 1
        for i in range(n):
            p = d.perm(len(keys[i]))
            keys[i] = [keys[i][j] for j in p]
            shapes[i] = [shapes[i][j] for j in p]
        out = dict(op="sm", S=list(S), keys=keys, nk=len(sizes),
                   form=d.choice(["str", "list", "dot"]))
        out["a"] = [(self.leaf(s, gg=top) if top and d.bool(2, 3) else self.expr(s, depth - 1))
                    for s in shapes]
        return out


def gen(d):
    CP = d.shape(2, 3)
    # without Gaussian-gamma variables any shape may reach a child
    S = d.shape(2, 3) if d.bool(2, 3) else []
    g = G(d, CP, d.choice([60, 200, 500]), d.int(2, 5))
    e = g.expr(S, d.int(1, 2), top=True)
    case = dict(CP=CP, expr=e, leaves=g.leaves, S=S, seed=d.seed(), mode=d.int(0, 2),
                pick=d.int(0, 7))
    case["children"] = []
    for _ in range(d.int(1, 2)):
        kind = "gauss" if len(S) == 1 and d.bool() else "gard"
        case["children"].append(dict(
            kind=kind, lam=d.choice(["const", "node"]),
            LP=d.subshape(CP + (S if kind == "gard" else [])) if d.bool(2, 3)
            else CP + (S if kind == "gard" else []),
            y=d.choice(["obs", "obs", "mask", "latent"]),
            mask=d.subshape(CP), how=d.int(0, 1), extra=d.int(0, 2) if d.bool(1, 4) else 0))
    return case


# ----------------------------------------------------------------- reference

def simplex(D):
    """(D+1, D): rows with zero mean and identity second moment."""
    A = np.concatenate([np.ones((D + 1, 1)), np.eye(D + 1)[:, :D]], axis=1)
    Q = np.linalg.qr(A)[0][:, 1:]
    return np.sqrt(D + 1) * Q


class Leaf:
    def __init__(self, case, rec, rs, mode):
        import bayespy.nodes as N
        self.k, self.S, self.P = rec["k"], tuple(rec["S"]), tuple(rec["P"])
        S, P = self.S, self.P
        self.node = None
        self.D = dn.size(S)
        if self.k == "const":
            self.value = rs.randn(*(P + S)) * 1.3 if P + S else np.asarray(rs.randn() * 1.3)
            self.arg = self.value
            return
        k = self.k
        kind = {"gard": "g%d" % len(S)}.get(k, k)
        t = {"gg": "gg", "gmc": "gmc"}.get(k, "g")
        cS = ([P[-1]] + list(S)) if k == "gmc" else (list(S) or [1]) if k == "gg" else list(S)
        cP = P[:-1] if k == "gmc" else P
        self.case = dict(kind=kind, t=t, S=cS, P=list(cP))
        par = single.params(self.case, rs)
        if k == "gg" and not S:
            # scalar variable: ndim=0
            self.node = N.GaussianGamma(par[0][..., 0], par[1][..., 0, 0], par[2], par[3],
                                        ndim=0, plates=P) if False else None
        if self.node is None:
            self.node = single.build(self.case, par)
        self.prior = [np.broadcast_to(p, tuple(cP) + tuple(dd)) for p, dd in
                      zip(single.prior_phi(self.case, par), dn.dims_of(t, cS))]
        self.t, self.cS, self.cP = t, cS, tuple(cP)
        if mode:
            self.node.set_parameters(dn.random_phi(t, rs, cP, cS))
        phi = [np.array(p) for p in self.node.phi]
        self.u = dn.moments_from_phi(t, [np.broadcast_to(p, tuple(cP) + tuple(dd)) for p, dd in
                                         zip(phi, dn.dims_of(t, cS))], cP, cS)
        self.arg = self.node

    def points(self):
        """Points (Q,)+P+S and masses (Q,)+P."""
        if self.k == "const":
            return self.value[None], np.ones((1,) + self.P)
        D, P, S = self.D, self.P, self.S
        if self.k == "gg":
            mass = self.u[2]
            m = (self.u[0] / mass[..., None]).reshape(P + (D,))
            mm = (self.u[1] / mass[..., None, None]).reshape(P + (D, D))
        else:
            mass = np.ones(P)
            m = np.reshape(self.u[0], P + (D,))
            mm = np.reshape(self.u[1], P + (D, D))
        C = mm - m[..., :, None] * m[..., None, :]
        C = 0.5 * (C + np.swapaxes(C, -1, -2))
        L = np.linalg.cholesky(C)
        V = simplex(D)
        X = m + np.einsum("...ij,qj->q...i", L, V) if D else np.zeros((1,) + P + (0,))
        Q = D + 1
        return X.reshape((Q,) + P + S), np.ones((Q,) + P) * mass / Q

    def logalpha(self):
        return self.u[3] if self.k == "gg" else np.zeros(self.P)


def evaluate(e, X, lead):
    """Expression on plain arrays; X[i] has `lead` leading axes and the leaf's shape."""
    if e["op"] == "leaf":
        return X[e["i"]]
    a = [evaluate(x, X, lead) for x in e["a"]]
    if e["op"] == "add":
        return sum(a[1:], a[0])
    if e["op"] == "cat":
        sh = np.broadcast_shapes(*[x.shape[:-1] for x in a])
        return np.concatenate([np.broadcast_to(x, sh + x.shape[-1:]) for x in a], axis=-1)
    nk = e["nk"]
    f = np.ones((1,) * (lead + nk))
    for x, keys in zip(a, e["keys"]):
        order = sorted(range(len(keys)), key=lambda j: keys[j])
        x = np.transpose(x, list(range(lead)) + [lead + j for j in order])
        sh = [1] * nk
        for j in order:
            sh[keys[j]] = x.shape[lead + order.index(j)]
        f = f * x.reshape(x.shape[:lead] + tuple(sh))
    out = len(e["S"])
    return f.sum(axis=tuple(range(lead + out, lead + nk)))


def grid(leaves, CP, sub=None):
    """Leaf arrays on the product grid; `sub` replaces the points of some leaves."""
    n = len(leaves)
    X, W = [], []
    for i, l in enumerate(leaves):
        x, w = sub[i] if sub and i in sub else l.points()
        q = x.shape[0]
        pad = (1,) * (len(CP) - len(l.P))
        g = (1,) * i + (q,) + (1,) * (n - 1 - i)
        X.append(x.reshape(g + pad + l.P + l.S))
        W.append(w.reshape(g + pad + l.P))
    w = W[0]
    for v in W[1:]:
        w = w * v
    return X, w


def build_expr(e, leaves):
    import bayespy.nodes as N
    if e["op"] == "leaf":
        return leaves[e["i"]].arg
    a = [build_expr(x, leaves) for x in e["a"]]
    if e["op"] == "add":
        return N.Add(*a)
    if e["op"] == "cat":
        return N.ConcatGaussian(*a)
    keys, out = e["keys"], list(range(len(e["S"])))
    if e["form"] == "dot" and not out and len(a) >= 2 and e["nk"] == 1 and all(
            k == [0] for k in keys):
        return N.Dot(*a)
    if e["form"] != "list":
        s = ",".join("".join("abcdefgh"[k] for k in ks) for ks in keys)
        if out or e["form"] == "str":
            s += "->" + "".join("abcdefgh"[k] for k in out)
        return N.SumMultiply(s, *a)
    args = []
    for x, ks in zip(a, keys):
        args += [x, list(ks)]
    if out:
        args.append(out)
    return N.SumMultiply(*args)


def op_nodes(e):
    return [] if e["op"] == "leaf" else [e] + [y for x in e["a"] for y in op_nodes(x)]


def accepted(case, leaves):
    """Whether the library can build it: some operand must be a node for each operation, ..."""
    def const(e):
        return (leaves[e["i"]].k == "const" if e["op"] == "leaf"
                else all(const(x) for x in e["a"]))
    return all(not const(e) for e in op_nodes(case["expr"]))


def fix_constants(case):
    """An operation needs a variable: turn the first constant of an all-constant one into
    a variable."""
    def const(e):
        return (case["leaves"][e["i"]]["k"] == "const" if e["op"] == "leaf"
                else all(const(x) for x in e["a"]))
    for e in op_nodes(case["expr"])[::-1]:
        if const(e):
            x = e
            while x["op"] != "leaf":
                x = x["a"][0]
            case["leaves"][x["i"]]["k"] = "gard"


def prep(case):
    case = dict(case, leaves=[dict(l) for l in case["leaves"]])
    fix_constants(case)
    rs = np.random.RandomState(case["seed"])
    # gg of dimension zero is built as a one-dimensional variable: use the vector form only
    for l in case["leaves"]:
        if l["k"] == "gg" and len(l["S"]) != 1:
            l["k"] = "gard"
    leaves = [Leaf(case, l, rs, case["mode"]) for l in case["leaves"]]
    F = build_expr(case["expr"], leaves)
    return case, leaves, F, rs


def plates_of(leaves):
    return np.broadcast_shapes(*[l.P for l in leaves])


def moments(e, leaves, CP, sub=None):
    """E[F], E[FF'] (with mass), plates CP; D-vector form."""
    X, w = grid(leaves, CP, sub)
    n = len(leaves)
    f = evaluate(e, X, n + len(CP))
    S = tuple(e["S"])
    f = f.reshape(f.shape[:n + len(CP)] + (dn.size(S),))
    g = tuple(range(n))
    shp = np.broadcast_shapes(w.shape, f.shape[:-1])
    w = np.broadcast_to(w, shp)
    f = np.broadcast_to(f, shp + f.shape[-1:])
    m0 = (w[..., None] * f).sum(axis=g)
    m1 = np.einsum("...,...i,...j->...ij", w, f, f).sum(axis=g)
    return m0, m1, w.sum(axis=g)


def check_moments(case, R):
    case, leaves, F, rs = prep(case)
    e = case["expr"]
    CP = plates_of(leaves)
    S = tuple(e["S"])
    m0, m1, mass = moments(e, leaves, CP)
    gg = any(l.k == "gg" for l in leaves)
    same = tuple(F.plates)
    require(same == tuple(CP), "plates of the result %s, should be %s", same, CP)
    want = (S, S + S) + (((), ()) if gg else ())
    require(tuple(map(tuple, F.dims)) == want, "dims of the result %s, should be %s", F.dims, want)
    u = F.get_moments()
    require(len(u) == len(want), "number of moments %d", len(u))
    sc = np.max(np.abs(m1)) if m1.size else 0
    close(u[0], m0.reshape(CP + S), "mean", rtol=1e-9, atol=1e-10)
    close(u[1], m1.reshape(CP + S + S), "second moment", rtol=1e-8, atol=1e-10, scale=sc)
    if gg:
        close(u[2], mass, "scale moment", rtol=1e-9)
        close(u[3], sum(l.logalpha() for l in leaves) + np.zeros(CP), "log scale moment",
              rtol=1e-9, atol=1e-10)
    elif hasattr(F, "get_parameters"):
        before = [np.array(x) for l in leaves if hasattr(l, "node") for x in getattr(l.node, "u", [])]
        q = F.get_parameters()
        require(len(q) == 2, "number of parameters %d", len(q))
        close(q[0], m0.reshape(CP + S), "reported mean", rtol=1e-9, atol=1e-10)
        cov = m1 - m0[..., :, None] * m0[..., None, :]
        close(q[1], cov.reshape(CP + S + S), "reported covariance", rtol=1e-8, atol=1e-10,
              scale=sc)
        after = [np.array(x) for l in leaves if hasattr(l, "node") for x in getattr(l.node, "u", [])]
        require(all(np.array_equal(a, b) for a, b in zip(before, after)),
                "asking for the parameters changed a parent")
    nv = sum(l.k != "const" for l in leaves)
    R.nontrivial(nv >= 2)
    tags(case, leaves, R)


def tags(case, leaves, R):
    for x in op_nodes(case["expr"]):
        R.tag("%s/%d" % (x["op"], len(x["a"])))
    for l in leaves:
        R.tag(l.k)
    R.tag("depth%d" % (1 if all(x["op"] == "leaf" for x in case["expr"]["a"]) else 2))


# ------------------------------------------------------------------ children

class Child:
    def __init__(self, rec, F, S, FP, rs, gg):
        import bayespy.nodes as N
        self.S = S
        extra = (rec["extra"],) if rec["extra"] else ()
        P = self.P = extra + FP
        D = dn.size(S)
        self.kind = rec["kind"]
        LP = tuple(rec["LP"])
        if self.kind == "gard":
            if len(LP) > len(FP + S):
                LP = LP[len(LP) - len(FP + S):]
            full = P + S
            lp = tuple(a if a == b else 1 for a, b in zip(LP, full[len(full) - len(LP):]))
            if rec["lam"] == "const":
                v = 0.3 + 2 * rs.rand(*lp)
                arg, el, ell = v, v, np.log(v)
            else:
                arg = N.Gamma(1, 1, plates=lp)
                phi = dn.random_phi("ga", rs, lp, ())
                arg.set_parameters(phi)
                el, ell = dn.moments_from_phi("ga", phi, lp, ())
            a = np.broadcast_to(el, P + S).reshape(P + (D,))
            self.Lam = a[..., None] * np.eye(D)
            self.ld = np.broadcast_to(ell, P + S).reshape(P + (D,)).sum(-1)
            self.node = N.GaussianARD(F, arg, plates=P, **(
                dict(ndim=len(S)) if rec["how"] else dict(shape=S)))
        else:
            lp = LP
            if len(lp) > len(FP):
                lp = lp[len(lp) - len(FP):]
            lp = tuple(a if a == b else 1 for a, b in zip(lp, P[len(P) - len(lp):]))
            if rec["lam"] == "const":
                v = dn.spd(rs, lp, D)
                arg, el, ell = v, v, np.linalg.slogdet(v)[1]
            else:
                arg = N.Wishart(D + 1, np.eye(D), plates=lp)
                phi = dn.random_phi("w", rs, lp, (D,))
                arg.set_parameters(phi)
                el, ell = dn.moments_from_phi("w", phi, lp, (D,))
            self.Lam = np.broadcast_to(el, P + (D, D))
            self.ld = np.broadcast_to(ell, P)
            self.node = N.Gaussian(F, arg, plates=P)
        require(tuple(self.node.plates) == P, "plates of the child %s, should be %s",
                self.node.plates, P)
        require(tuple(self.node.dims[0]) == S, "shape of the child %s, should be %s",
                self.node.dims[0], S)
        self.mask = np.ones(P, bool)
        self.ent = np.zeros(P)
        if rec["y"] == "latent":
            phi = dn.random_phi("g", rs, P, S)
            self.node.set_parameters(phi)
            u = dn.moments_from_phi("g", phi, P, S)
            self.y = u[0].reshape(P + (D,))
            self.yy = u[1].reshape(P + (D, D))
            self.ent = dn.entropy("g", phi, P, S)
            self.latent = True
            # without data below it, a variable has no influence
            z = N.GaussianARD(self.node, 1.0, ndim=len(S))
            z.observe(np.zeros(P + S))
        else:
            y = rs.randn(*(P + S)) if P + S else np.asarray(rs.randn())
            self.y = y.reshape(P + (D,))
            self.yy = self.y[..., :, None] * self.y[..., None, :]
            self.latent = False
            if rec["y"] == "mask":
                mp = tuple(rec["mask"])
                mp = mp[len(mp) - min(len(mp), len(P)):] if len(P) else ()
                mp = tuple(a if a == b else 1 for a, b in zip(mp, P[len(P) - len(mp):]))
                m = rs.rand(*mp) < 0.6 if mp else np.asarray(True)
                self.mask = np.broadcast_to(m, P)
                self.node.observe(y, mask=m)
            else:
                self.node.observe(y)

    def logpdf(self, f0, f1, mass, elogalpha):
        """Expected log density per plate, given moments of F (mass included)."""
        D = self.y.shape[-1]
        L = self.Lam
        q = (np.einsum("...ij,...ij->...", L, self.yy) * mass
             - 2 * np.einsum("...ij,...i,...j->...", L, self.y, f0)
             + np.einsum("...ij,...ij->...", L, f1))
        return -0.5 * q + 0.5 * (self.ld + D * elogalpha) - 0.5 * D * np.log(2 * np.pi)

    def bound(self, *f):
        return np.where(self.mask, self.logpdf(*f) + self.ent, 0)


def check_messages(case, R):
    case, leaves, F, rs = prep(case)
    e = case["expr"]
    S = tuple(e["S"])
    gg = any(l.k == "gg" for l in leaves)
    if gg and S:
        return
    CP = plates_of(leaves)
    kids = [Child(r, F, S, CP, rs, gg) for r in case["children"]]
    ela = sum(l.logalpha() for l in leaves)
    f = moments(e, leaves, CP) + (ela,)
    for k, c in enumerate(kids):
        close(c.node.lower_bound_contribution(ignore_masked=True), np.sum(c.bound(*f)),
              "lower bound term of child %d" % k, rtol=1e-8, atol=1e-8,
              scale=np.sum(np.abs(c.bound(*f))))
    lat = [i for i, l in enumerate(leaves) if l.k != "const"]
    i = lat[case["pick"] % len(lat)]
    l = leaves[i]
    l.node.update()
    post = [np.broadcast_to(p, l.cP + tuple(dd)) for p, dd in
            zip(l.node.phi, dn.dims_of(l.t, l.cS))]
    msg = [a - b for a, b in zip(post, l.prior)]
    P, Sl, D = l.P, l.S, l.D
    if l.k == "gmc":
        close(msg[2], np.zeros(msg[2].shape), "message between consecutive instants",
              atol=1e-9, scale=np.max(np.abs(l.prior[2])))
    # evaluate at random points of the leaf
    def at(x, al):
        sub = {i: (x[None], np.broadcast_to(al, P)[None])}
        g = moments(e, leaves, CP, sub)
        la = ela if l.k != "gg" else ela - l.logalpha() + np.log(al)
        tot = np.zeros(P)
        for c in kids:
            t = np.where(c.mask, c.logpdf(*(g + (la,))), 0)
            tot = tot + dn.sum_to(t, c.P, P)
        return tot

    def lin(x, al):
        v = x.reshape(P + (D,))
        a0 = np.reshape(msg[0], P + (D,))
        a1 = np.reshape(msg[1], P + (D, D))
        r = al * ((a0 * v).sum(-1) + np.einsum("...ij,...i,...j->...", a1, v, v))
        if l.k == "gg":
            r = r + msg[2] * al + msg[3] * np.log(al)
        return r
    one = np.ones(P)
    x0 = rs.randn(*(P + Sl)) if P + Sl else np.asarray(rs.randn())
    for _ in range(2):
        x1 = rs.randn(*(P + Sl)) * 2 if P + Sl else np.asarray(rs.randn() * 2)
        al = 0.3 + 2 * rs.rand(*P) if l.k == "gg" else one
        A, B = at(x1, al), at(x0, one)
        close(lin(x1, al) - lin(x0, one), A - B,
              "message to %s %s as a function of its value" % (l.k, (P, Sl)), rtol=1e-7,
              atol=1e-8, scale=max(np.max(np.abs(A)), np.max(np.abs(B))) if A.size else 0)
    R.nontrivial(len(lat) >= 2 and any(np.any(c.mask) for c in kids))
    R.tag("to:" + l.k, *["y:" + c["y"] for c in case["children"]])
    tags(case, leaves, R)


SUBS = [
    Sub("moments", gen, check_moments, 3000, 100000,
        rule="counts when at least two variables enter the expression"),
    Sub("messages", gen, check_messages, 4000, 100000,
        rule="counts when at least two variables enter the expression and some data is observed "
             "or has a distribution"),
]
