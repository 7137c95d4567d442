"""C20: rotations keep the model and never worsen the bound; their costs are exact."""
import numpy as np
from vlib import dense as dn
from vlib.harness import Sub, require, close, finite


def rot(rs, D):
    """A well conditioned random matrix, also with a negative determinant."""
    u = np.linalg.qr(rs.randn(D, D))[0]
    v = np.linalg.qr(rs.randn(D, D))[0]
    return u @ np.diag(np.exp(rs.uniform(-0.6, 0.6, D))) @ v


def plate_rot(rs, N):
    """The columns must not sum to (about) zero."""
    while True:
        Q = rot(rs, N)
        if np.min(np.abs(np.sum(Q, axis=0))) > 0.3:
            return Q


def spd(rs, *shape, D):
    A = rs.randn(*(shape + (D, D)))
    return A @ np.swapaxes(A, -1, -2) + 0.5 * np.identity(D)


def randomize(X, rs, plates1=None, plates0=None):
    """A random full-covariance q for a Gaussian array node (through its public parameters)."""
    S, P = X.dims[0], X.plates
    D = int(np.prod(S, dtype=int))
    P1 = P if plates1 is None else plates1
    lam = spd(rs, *P1, D=D)
    mean = rs.randn(*((P if plates0 is None else tuple(plates0)) + (D,)))
    phi0 = np.einsum("...ij,...j->...i", lam, mean)
    X.set_parameters([phi0.reshape(phi0.shape[:-1] + S), (-0.5 * lam).reshape(tuple(P1) + S + S)])


def gauss_moments(phi0, phi1, S):
    D = int(np.prod(S, dtype=int))
    lam = -2 * np.reshape(phi1, np.shape(phi1)[:np.ndim(phi1) - 2 * len(S)] + (D, D))
    f = np.reshape(phi0, np.shape(phi0)[:np.ndim(phi0) - len(S)] + (D,))
    cov = np.linalg.inv(lam)
    m = np.einsum("...ij,...j->...i", cov, f)
    xx = cov + m[..., :, None] * m[..., None, :]
    g = -0.5 * np.einsum("...i,...i->...", m, f) + 0.5 * np.linalg.slogdet(lam)[1]
    return (m.reshape(m.shape[:-1] + tuple(S)), xx.reshape(xx.shape[:-2] + tuple(S) + tuple(S)), g)


def consistent(X, what):
    """Moments and normaliser agree with the natural parameters."""
    S = X.dims[0]
    m, xx, g = gauss_moments(X.phi[0], X.phi[1], S)
    sc = 1 + np.max(np.abs(xx))
    close(np.broadcast_to(X.u[0], X.plates + S), np.broadcast_to(m, X.plates + S),
          what + ": mean against parameters", rtol=1e-7, scale=sc)
    close(np.broadcast_to(X.u[1], X.plates + S + S), np.broadcast_to(xx, X.plates + S + S),
          what + ": second moment against parameters", rtol=1e-7, scale=sc)
    close(np.broadcast_to(X.g, X.plates), np.broadcast_to(g, X.plates),
          what + ": normaliser against parameters", rtol=1e-7, scale=sc)


# ------------------------------------------------------------------ one array node

def gen_ard(d):
    ndim = d.int(1, 2)
    shape = [d.int(1, 3) for _ in range(ndim)]
    plates = [d.int(1, 3) for _ in range(d.int(0, 3 - ndim + 1))]
    axis = d.int(-ndim, ndim - 1)
    shape[axis] = d.int(2, 3)
    full = plates + shape

    def sub():
        s = d.subshape(full)
        return list(s)
    c = dict(shape=shape, plates=plates, axis=axis, seed=d.seed(),
             plate_axis=None, precompute=False, phiplates=None)
    c["alpha"] = d.choice(["node", "node", "const"])
    c["alpha_shape"] = sub()
    c["a0"] = list(d.subshape(c["alpha_shape"]))
    c["b0"] = list(d.subshape(c["alpha_shape"]))
    c["mu"] = d.choice(["zero", "const", "node"])
    c["mu_shape"] = sub()
    c["mu_ndim"] = d.int(0, min(ndim, len(c["mu_shape"])))
    if plates and d.bool(1, 2):
        c["plate_axis"] = d.int(-len(plates), len(plates) - 1)
        c["precompute"] = d.bool()
    c["phiplates"] = [1 if d.bool(1, 4) else p for p in plates]
    # the whole factor may be shared by plates (as when initialised from a prior)
    c["meanplates"] = list(plates)
    if d.bool(1, 3):
        c["meanplates"] = [1 if d.bool() else p for p in plates]
        if c["plate_axis"] is not None:
            c["meanplates"][c["plate_axis"]] = plates[c["plate_axis"]]
        if d.bool(3, 4):
            c["phiplates"] = list(c["meanplates"])
    return c


def build_ard(c):
    from bayespy.nodes import GaussianARD, Gamma
    rs = np.random.RandomState(c["seed"])
    if c["alpha"] == "node":
        alpha = Gamma(np.exp(rs.randn(*c["a0"])), np.exp(rs.randn(*c["b0"])),
                      plates=tuple(c["alpha_shape"]), name="alpha")
    else:
        alpha = np.exp(rs.randn(*c["alpha_shape"]))
    if c["mu"] == "zero":
        mu = 0
    elif c["mu"] == "const":
        mu = rs.randn(*c["mu_shape"])
    else:
        k = len(c["mu_shape"]) - c["mu_ndim"]
        mu = GaussianARD(rs.randn(*c["mu_shape"]), 2.0, shape=tuple(c["mu_shape"][k:]),
                         plates=tuple(c["mu_shape"][:k]), name="mu")
    X = GaussianARD(mu, alpha, shape=tuple(c["shape"]), plates=tuple(c["plates"]), name="X")
    Y = GaussianARD(X, 1.0)
    Y.observe(rs.randn(*Y.get_shape(0)))
    # The rotated plate axis must not be broadcasted in the stored arrays
    randomize(X, rs, tuple(c["phiplates"]), c.get("meanplates"))
    if c["alpha"] == "node":
        alpha.update()
    else:
        alpha = None
    return X, alpha, Y, rs


def check_ard(c, R):
    from bayespy.inference.vmp.transformations import RotateGaussianARD
    X, alpha, Y, rs = build_ard(c)
    D = c["shape"][c["axis"]]
    pa = c["plate_axis"]
    args = [alpha] if alpha is not None else []
    r = RotateGaussianARD(X, *args, axis=c["axis"], precompute=c["precompute"])
    require(set(r.nodes()) == set([X] + args), "nodes of the rotator")
    r.setup(plate_axis=pa) if pa is not None else r.setup()
    I = np.identity(D)
    kw0, kw1 = {}, {}
    if pa is not None:
        N = c["plates"][pa]
        kw0, kw1 = dict(Q=np.identity(N)), dict(Q=plate_rot(rs, N))
        R.tag("plates rotated")
    Rm = rot(rs, D)
    explicit = c["seed"] % 2
    kwR = dict(kw1)
    if explicit:
        kwR.update(inv=np.linalg.inv(Rm), logdet=np.linalg.slogdet(Rm)[1])
    b0 = r.get_bound_terms(I, **kw0)
    b1 = r.get_bound_terms(Rm, **kwR)
    full0, full1 = r.bound(I, **kw0), r.bound(Rm, **kwR)
    scale = 1 + max(abs(full0[0]), abs(full1[0]))
    close(full0[0], sum(b0.values()), "total bound against its terms", rtol=1e-9, scale=scale)
    close(full1[0], sum(b1.values()), "total bound against its terms", rtol=1e-9, scale=scale)
    # gradient
    h = 1e-5
    for k in range(2 if pa is not None else 1):
        dirn = rs.randn(*np.shape(Rm if k == 0 else kw1["Q"]))
        v = []
        for s in (1, -1):
            kk = dict(kw1)
            RR = Rm + (s * h * dirn if k == 0 else 0)
            if k == 1:
                kk["Q"] = kw1["Q"] + s * h * dirn
            v.append(float(r.bound(RR, **kk)[0]))
        num = (v[0] - v[1]) / (2 * h)
        g = np.asarray(full1[1 + k])
        require(g.shape == dirn.shape, "gradient %d has shape %s", k, g.shape)
        close(np.sum(g * dirn), num, "gradient with respect to %s" % "RQ"[k], rtol=2e-5,
              scale=scale + np.max(np.abs(g)) )
    # the bound really changes like that
    true0 = {n: n.lower_bound_contribution() for n in r.nodes()}
    mean0 = np.broadcast_to(X.u[0], X.plates + X.dims[0])
    cov0 = np.broadcast_to(X.u[1], X.plates + X.dims[0] * 2)
    r.rotate(Rm, **kwR)
    for n in r.nodes():
        close(b1[n] - b0[n], n.lower_bound_contribution() - true0[n],
              "change of the bound of %s" % n.name, rtol=1e-7, scale=scale)
    consistent(X, "rotated node")
    # mean: rotated exactly
    ndim, P = len(c["shape"]), len(c["plates"])
    ax = c["axis"] % ndim + P
    want = np.moveaxis(np.tensordot(Rm, mean0, (1, ax)), 0, ax)
    if pa is not None:
        px = pa % P
        want = np.moveaxis(np.tensordot(kw1["Q"], want, (1, px)), 0, px)
    close(np.broadcast_to(X.u[0], want.shape), want, "rotated mean", rtol=1e-8)
    if pa is None:
        w2 = np.moveaxis(np.tensordot(Rm, cov0, (1, ax)), 0, ax)
        w2 = np.moveaxis(np.tensordot(Rm, w2, (1, ax + ndim)), 0, ax + ndim)
        close(np.broadcast_to(X.u[1], w2.shape), w2, "rotated second moment", rtol=1e-8)
    if alpha is not None:
        p = [np.copy(v) for v in alpha.phi]
        alpha.update()
        for u, v in zip(p, alpha.phi):
            close(u, np.broadcast_to(v, np.shape(u)), "alpha is optimal after the rotation",
                  rtol=1e-9)
    R.nontrivial(True)


# ----------------------------------------------------------- other node transformations

def gen_node(d):
    k = d.choice(["rotate", "translate", "gmc", "rotate_plates", "gauss", "gauss_matrix",
                  "gg_rotate", "gg_translate"])
    ndim = d.int(1, 2)
    shape = [d.int(1, 3) for _ in range(ndim)]
    plates = [d.int(1, 3) for _ in range(d.int(0, 2))]
    c = dict(kind=k, shape=shape, plates=plates, axis=d.int(-ndim, ndim - 1), seed=d.seed(),
             explicit=d.bool(), phiplates=[1 if d.bool(1, 4) else p for p in plates],
             D2=d.int(1, 2), Q=d.bool(1, 3))
    if k == "rotate_plates":
        c["plates"] = c["plates"] or [2]
        c["phiplates"] = [1 if d.bool(1, 4) else p for p in c["plates"]]
        c["pa"] = d.int(-len(c["plates"]), len(c["plates"]) - 1)
    return c


def check_node(c, R):
    from bayespy.nodes import GaussianARD, Gaussian, GaussianMarkovChain, Wishart
    rs = np.random.RandomState(c["seed"])
    S, P = tuple(c["shape"]), tuple(c["plates"])
    kind = c["kind"]
    R.tag(kind)
    if kind == "gmc":
        D, N = S[0], 1 + S[-1] + 1
        A = GaussianARD(0, 1, shape=(D,), plates=P + (1, D))
        A.initialize_from_random()
        X = GaussianMarkovChain(rs.randn(*(P + (D,))), spd(rs, D=D), A, np.exp(rs.randn(D)), n=N)
        Y = GaussianARD(X, np.exp(rs.randn(*(P + (N, D)))))
        Y.observe(rs.randn(*(P + (N, D))))
        X.update()
        u0 = [np.array(u) for u in X.u]
        Rm = rot(rs, D)
        kw = dict(inv=np.linalg.inv(Rm), logdet=np.linalg.slogdet(Rm)[1]) if c["explicit"] else {}
        X.rotate(Rm, **kw)
        close(X.u[0], u0[0] @ Rm.T, "rotated mean of the chain", rtol=1e-9)
        close(X.u[1], Rm @ u0[1] @ Rm.T, "rotated second moments of the chain", rtol=1e-9)
        close(X.u[2], Rm @ u0[2] @ Rm.T, "rotated cross moments of the chain", rtol=1e-9)
        u1, g1 = [np.array(u) for u in X.u], np.array(X.g)
        X.set_parameters(X.get_parameters())
        for k in range(3):
            close(u1[k], X.u[k], "moment %d against parameters" % k, rtol=1e-6)
        close(g1, np.broadcast_to(X.g, np.shape(g1)), "normaliser against parameters", rtol=1e-6,
              scale=10)
        R.nontrivial(True)
        return
    if kind in ("gauss", "gauss_matrix"):
        D1 = S[0]
        D2 = c["D2"] if kind == "gauss_matrix" else 1
        D = D1 * D2
        X = Gaussian(np.zeros(D), np.identity(D), plates=P)
        randomize(X, rs, tuple(c["phiplates"]))
        m0 = np.broadcast_to(X.u[0], P + (D,)).copy()
        xx0 = np.broadcast_to(X.u[1], P + (D, D)).copy()
        R1, R2 = rot(rs, D1), rot(rs, D2)
        kw = {}
        if c["Q"] and len(P) == 1:
            # the only plate axis is rotated as well
            Q = kw["Q"] = plate_rot(rs, P[0])
            cov = xx0 - m0[:, :, None] * m0[:, None, :]
            m0 = Q @ m0
            xx0 = cov * (np.sum(Q, axis=0) ** 2)[:, None, None] + m0[:, :, None] * m0[:, None, :]
            R.tag("plates of a Gaussian")
        if kind == "gauss":
            if c["explicit"]:
                kw.update(inv=np.linalg.inv(R1), logdet=np.linalg.slogdet(R1)[1])
            X.rotate(R1, **kw)
            K = R1
        else:
            if c["explicit"]:
                kw.update(inv1=np.linalg.inv(R1), logdet1=np.linalg.slogdet(R1)[1],
                          inv2=np.linalg.inv(R2), logdet2=np.linalg.slogdet(R2)[1])
            X.rotate_matrix(R1, R2, **kw)
            K = np.kron(R1, R2)
        close(np.broadcast_to(X.u[0], m0.shape), m0 @ K.T, "rotated mean", rtol=1e-8)
        close(np.broadcast_to(X.u[1], xx0.shape), K @ xx0 @ K.T, "rotated second moment", rtol=1e-8)
        consistent(X, kind)
        R.nontrivial(D > 1)
        return
    if kind in ("gg_rotate", "gg_translate"):
        check_gg(c, R, rs, P, S[0])
        return
    X = GaussianARD(0, 1, shape=S, plates=P)
    randomize(X, rs, tuple(c["phiplates"]))
    m0 = np.broadcast_to(X.u[0], P + S).copy()
    xx0 = np.broadcast_to(X.u[1], P + S + S).copy()
    nd, np_ = len(S), len(P)
    if kind == "rotate":
        D = S[c["axis"]]
        Rm = rot(rs, D)
        kw = dict(inv=np.linalg.inv(Rm), logdet=np.linalg.slogdet(Rm)[1]) if c["explicit"] else {}
        X.rotate(Rm, axis=c["axis"], **kw)
        ax = c["axis"] % nd + np_
        w = np.moveaxis(np.tensordot(Rm, m0, (1, ax)), 0, ax)
        w2 = np.moveaxis(np.tensordot(Rm, xx0, (1, ax)), 0, ax)
        w2 = np.moveaxis(np.tensordot(Rm, w2, (1, ax + nd)), 0, ax + nd)
    elif kind == "translate":
        b = rs.randn(*(P[c["seed"] % (np_ + 1):] + S))
        X.translate(b)
        w = m0 + b
        o = lambda a, e: a.reshape(a.shape + (1,) * nd) * e.reshape(e.shape[:e.ndim - nd] + (1,) * nd + e.shape[e.ndim - nd:])  # noqa
        w2 = xx0 + o(m0, b) + o(b, m0) + o(b, b)
    else:
        px = c["pa"] % np_
        N = P[px]
        Q = plate_rot(rs, N)
        X.rotate_plates(Q, plate_axis=c["pa"])
        w = np.moveaxis(np.tensordot(Q, m0, (1, px)), 0, px)
        o = m0.reshape(P + S + (1,) * nd) * m0.reshape(P + (1,) * nd + S)
        s2 = (np.sum(Q, axis=0) ** 2).reshape((N,) + (1,) * (np_ - px - 1 + 2 * nd))
        w2 = (xx0 - o) * s2 + w.reshape(P + S + (1,) * nd) * w.reshape(P + (1,) * nd + S)
    close(np.broadcast_to(X.u[0], w.shape), w, "mean after " + kind, rtol=1e-8)
    close(np.broadcast_to(X.u[1], w2.shape), w2, "second moment after " + kind, rtol=1e-8)
    consistent(X, kind)
    R.nontrivial(True)


def check_gg(c, R, rs, P, D):
    """Rotating or moving the Gaussian of a Gaussian-gamma leaves the scale as it is."""
    from bayespy.nodes import GaussianGamma
    from vlib import dense as dn
    X = GaussianGamma(np.zeros(D), np.identity(D), 1.5, 2.0, plates=P)
    X.set_parameters(dn.random_phi("gg", rs, tuple(c["phiplates"]), (D,)))
    full = lambda us: [dn.bc(u, P, dd) for u, dd in zip(us, dn.dims_of("gg", (D,)))]   # noqa: E731
    u0 = [np.array(u) for u in full(X.get_moments())]
    if c["kind"] == "gg_rotate":
        Rm = rot(rs, D)
        kw = dict(inv=np.linalg.inv(Rm), logdet=np.linalg.slogdet(Rm)[1]) if c["explicit"] else {}
        X.rotate(Rm, **kw)
        want = [u0[0] @ Rm.T, Rm @ u0[1] @ Rm.T, u0[2], u0[3]]
    else:
        b = rs.randn(*(P[c["seed"] % (len(P) + 1):] + (D,)))
        X.translate(b)
        o = lambda p, q: p[..., :, None] * q[..., None, :]          # noqa: E731
        want = [u0[0] + u0[2][..., None] * b,
                u0[1] + o(u0[0], b) + o(b, u0[0]) + u0[2][..., None, None] * o(b, b),
                u0[2], u0[3]]
    got, g = full(X.get_moments()), np.broadcast_to(X.g, P)
    phi = full(X.get_parameters())
    exact = dn.moments_from_phi("gg", phi, P, (D,))
    for k in range(4):
        sc = 1 + np.max(np.abs(want[k]))
        close(got[k], want[k], "%s: moment %d" % (c["kind"], k), rtol=1e-8, scale=sc)
        close(exact[k], want[k], "%s: moment %d of the new parameters" % (c["kind"], k),
              rtol=1e-7, scale=sc)
    close(g, -dn.logpartition("gg", phi, P, (D,)), "%s: normaliser" % c["kind"], rtol=1e-7,
          scale=10)
    R.nontrivial(True)


# ---------------------------------------------------------------------- whole models

def gen_model(d):
    c = dict(kind=d.choice(["fa", "fa", "lssm", "lssm", "tvd", "switch", "switch", "multi", "gauss", "gauss"]), D=d.int(1, 3), M=d.int(1, 3),
             N=d.int(2, 5), seed=d.seed(), sweeps=d.int(1, 3), maxiter=d.int(1, 6), converge=d.bool(1, 3),
             alpha=[d.bool(2, 3), d.bool(2, 3)], mask=d.bool(1, 2), K=d.int(1, 2),
             inputs=d.choice([None, None, "const", "node"]), tv=d.bool(1, 4), mean=d.bool(),
             precompute=d.bool(1, 3), initmean=d.bool(), initprec=d.bool(1, 3), check=d.bool(1, 3))
    if c["kind"] in ("tvd", "switch"):
        c["inputs"] = None
    if c["kind"] == "switch":
        # (a switching chain has constants for its initial state, a Markov chain two states)
        c["initmean"], c["initprec"], c["N"] = False, False, c["N"] + 1
    return c


def ard(D, plates, on, rs, name, shape=None):
    from bayespy.nodes import GaussianARD, Gamma
    shape = (D,) if shape is None else shape
    if on:
        al = Gamma(1e-1, 1e-1, plates=shape[-1:] if len(shape) == 1 else shape, name="alpha_" + name)
        al.initialize_from_parameters(2.0, np.exp(rs.randn(*al.plates)))
    else:
        al = None
    x = GaussianARD(0, al if on else 0.5, shape=shape, plates=plates, name=name)
    x.initialize_from_random()
    return x, al


def check_model(c, R):
    from bayespy.nodes import (GaussianARD, Gaussian, Gamma, Dot, SumMultiply, GaussianMarkovChain,
                               SwitchingGaussianMarkovChain, Categorical, CategoricalMarkovChain,
                               Dirichlet, Wishart)
    from bayespy.inference import VB
    from bayespy.inference.vmp.transformations import (RotationOptimizer, RotateGaussianARD, RotateGaussian,
                                                       RotateGaussianMarkovChain,
                                                       RotateVaryingMarkovChain, RotateMultiple,
                                                       RotateSwitchingMarkovChain)
    rs = np.random.RandomState(c["seed"])
    np.random.seed(c["seed"] % (2 ** 32))
    D, M, N, K = c["D"], c["M"], c["N"], c["K"]
    kind = c["kind"]
    R.tag(kind)
    nodes, watch = [], []
    C, gam = ard(D, (M, 1), c["alpha"][0], rs, "C")
    rotC = RotateGaussianARD(C, *([gam] if gam else []))
    nodes += [C] + ([gam] if gam else [])
    if kind in ("fa", "multi"):
        X, ax = ard(D, (1, N), c["alpha"][1], rs, "X")
        nodes += [X] + ([ax] if ax else [])
        rotX = RotateGaussianARD(X, *([ax] if ax else []))
        if kind == "multi":
            C2, g2 = ard(D, (M + 1, 1), True, rs, "C2")
            nodes += [C2, g2]
            rotC = RotateMultiple(rotC, RotateGaussianARD(C2, g2))
    elif kind == "gauss":
        mu, L = rs.randn(*([(D,), (N, D), (1, N, D), (1, 1, D)][c["K"] + 2 * c["tv"] - 1])), spd(rs, D=D)
        if c["inputs"]:
            mu = GaussianARD(mu, 1.5, shape=(D,), plates=mu.shape[:-1], name="mu")
            mu.initialize_from_value(rs.randn(*(mu.plates + (D,))))
            nodes.append(mu)
        if c["initprec"]:
            L = Wishart(D + 1, L, name="L")
            nodes.append(L)
        X = Gaussian(mu, L, plates=(1, N), name="X")
        X.initialize_from_random()
        nodes.append(X)
        rotX = RotateGaussian(X)
    else:
        inputs = c["inputs"]
        k = K if inputs else 0
        U = None
        if inputs == "const":
            U = rs.randn(N - 1, K)
        elif inputs == "node":
            U = GaussianARD(0, 1, shape=(K,), plates=(N - 1,), name="U")
            U.initialize_from_value(rs.randn(N - 1, K))
            nodes.append(U)
        if kind == "tvd":
            B, ab = ard(D, (1, D), c["alpha"][1], rs, "B", shape=(D, K))
            S = GaussianARD(0, 1, shape=(K,), plates=(N - 1, 1), name="S")
            S.initialize_from_value(rs.randn(N - 1, 1, K))
            A = SumMultiply("dk,k->d", B, S)
            nodes += [B, S] + ([ab] if ab else [])
            rotA = RotateGaussianARD(B, *([ab] if ab else []), axis=-2, precompute=c["precompute"])
        elif kind == "switch":
            # the dynamics switch between K+1 matrices, the states possibly a Markov chain
            B, ab = ard(D, (K + 1, D), c["alpha"][1], rs, "B")
            if c["tv"]:
                Pz = Dirichlet(np.exp(rs.randn(K + 1, K + 1)), name="P")
                Z = CategoricalMarkovChain(np.ones(K + 1) / (K + 1), Pz, states=N - 1, name="Z")
                nodes.append(Pz)
            else:
                Z = Categorical(rs.dirichlet(np.ones(K + 1)), plates=(N - 1,), name="Z")
                Z.initialize_from_random()
            nodes += [B, Z] + ([ab] if ab else [])
            rotA = RotateGaussianARD(B, *([ab] if ab else []), precompute=c["precompute"])
        else:
            A, ab = ard(D + k, ((N - 1, D) if c["tv"] else (D,)), c["alpha"][1], rs, "A")
            nodes += [A] + ([ab] if ab else [])
            rotA = RotateGaussianARD(A, *([ab] if ab else []), precompute=c["precompute"])
        mu0 = np.zeros(D)
        L0 = np.identity(D) * 0.5
        if c["initmean"]:
            mu0 = GaussianARD(0, 1, shape=(D,), name="mu0")
            mu0.initialize_from_value(rs.randn(D))
            nodes.append(mu0)
        if c["initprec"]:
            L0 = Wishart(D + 1, spd(rs, D=D), name="L0")
            nodes.append(L0)
        if kind == "switch":
            if c["mean"]:
                mu0, L0 = rs.randn(D), spd(rs, D=D)
            X = SwitchingGaussianMarkovChain(mu0, L0, B, Z, np.ones(D), n=N, name="X")
            rotX = RotateSwitchingMarkovChain(X, B, Z, rotA)
        else:
            X = GaussianMarkovChain(mu0, L0, A, np.ones(D), n=N, name="X",
                                    **(dict(inputs=U) if U is not None else {}))
            rotX = (RotateVaryingMarkovChain(X, B, S, rotA) if kind == "tvd" else
                    RotateGaussianMarkovChain(X, rotA))
        nodes.append(X)
    F = [Dot(C, X)] if kind != "multi" else [Dot(C, X), Dot(C2, X)]
    tau = Gamma(1e-1, 1e-1, name="tau")
    nodes.append(tau)
    Ys = []
    for f in F:
        Y = GaussianARD(f, tau, name="Y%d" % len(Ys))
        mask = np.ones(Y.plates, dtype=bool)
        if c["mask"]:
            mask = rs.rand(*Y.plates) < c.get("p", 0.6)
            if not c.get("empty"):
                # variables without any observations: see known_findings.json
                mask[np.arange(Y.plates[0]), rs.randint(0, N, Y.plates[0])] = True
                mask[rs.randint(0, Y.plates[0], N), np.arange(N)] = True
        Y.observe(2 * rs.randn(*Y.plates), mask=mask)
        Ys.append(Y)
    Q = VB(*(Ys + nodes))
    if kind not in ("fa", "multi", "gauss"):
        X.update()
    for _ in range(c["sweeps"]):
        for n in nodes:
            n.update()
    # The rotator optimises alpha together with the rotation: start from the optimum
    for r in (rotC, rotX):
        for n in r.nodes():
            if isinstance(n, Gamma):
                n.update()
    # The cost functions
    for blk in (rotC, rotX):
        blk.setup()
        Rm = plate_rot(rs, D)
        kw = dict(inv=np.linalg.inv(Rm), logdet=np.linalg.slogdet(Rm)[1])
        I = dict(inv=np.identity(D), logdet=0.0)
        (v, g) = blk.bound(Rm, **kw)
        close(v, sum(blk.get_bound_terms(Rm, **kw).values()), "bound against terms", rtol=1e-8,
              scale=1 + abs(v))
        dirn = rs.randn(D, D)
        h = 1e-5
        num = []
        for s in (1, -1):
            RR = Rm + s * h * dirn
            num.append(float(blk.bound(RR, inv=np.linalg.inv(RR),
                                       logdet=np.linalg.slogdet(RR)[1])[0]))
        num = (num[0] - num[1]) / (2 * h)
        close(np.sum(g * dirn), num, "gradient of the cost of %s" % type(blk).__name__, rtol=2e-5,
              scale=1 + abs(v) + np.max(np.abs(g)))
    # Joint optimisation
    L0 = float(Q.compute_lowerbound())
    mom0 = [[np.array(u) for u in f.get_moments()] for f in F]
    before = {n: float(n.lower_bound_contribution()) for n in Q.model}
    sc = 1 + sum(abs(v) for v in before.values())
    opt = RotationOptimizer(rotC, rotX, D)
    x0 = np.array(X.get_moments()[0]).reshape(-1, D)
    converge = c.get("converge") and len(x0) >= D and np.linalg.cond(x0) < 1e3
    opt.rotate(maxiter=500 if converge else c["maxiter"], check_bound=c["check"],
               check_gradient=False)
    if converge:
        # Given enough iterations, the rotation that was applied is a stationary point of the cost
        x1 = np.array(X.get_moments()[0]).reshape(-1, D)
        Rm = np.linalg.inv(np.linalg.lstsq(x0, x1, rcond=None)[0])

        def slope(R):
            iR, ld = np.linalg.inv(R), np.linalg.slogdet(R)[1]
            g1 = rotC.bound(R, inv=iR, logdet=ld)[1]
            g2 = rotX.bound(iR.T, inv=R.T, logdet=-ld)[1]
            return np.linalg.norm(g1 - iR.T @ g2.T @ iR.T)
        g0, g1 = slope(np.identity(D)), slope(Rm)
        require(g1 < 0.1 * g0 + 1e-5 * sc, "the optimised rotation is not a stationary point: the "
                "slope of the cost is %g, without rotating it is %g", g1, g0)
        R.tag("converged")
    L1 = float(Q.compute_lowerbound())
    finite(L1, "bound after the rotation")
    require(L1 - L0 > -1e-6 * sc, "the rotation decreased the bound by %g (%g -> %g)", L0 - L1, L0, L1)
    # the product and everything which only sees the product stays
    if kind in ("fa", "multi", "lssm", "tvd", "switch", "gauss"):
        for f, u in zip(F, mom0):
            for k, (a, b) in enumerate(zip(f.get_moments(), u)):
                close(a, np.broadcast_to(b, np.shape(a)), "moment %d of the product" % k, rtol=1e-5,
                      scale=np.max(np.abs(b)) * 1.0 + 1e-3)
    for Y in Ys:
        close(float(Y.lower_bound_contribution()), before[Y], "likelihood term", rtol=1e-5, scale=sc)
    inside = set(rotC.nodes()) | set(rotX.nodes())
    for n in Q.model:
        if n not in inside and n not in Ys:
            close(float(n.lower_bound_contribution()), before[n],
                  "term of %s outside the rotation" % n.name, rtol=1e-7, scale=sc)
    for n in inside:
        if n is not X and not isinstance(n, Gamma):
            consistent(n, "rotated " + n.name)
    # and further updates still never decrease the bound
    Lp = L1
    for n in nodes:
        n.update()
        L = float(Q.compute_lowerbound())
        require(L - Lp > -1e-7 * sc, "updating %s after the rotation decreased the bound by %g", n.name,
                Lp - L)
        Lp = L
    R.nontrivial(D > 1)


SUBS = [
    Sub("ard", gen_ard, check_ard, 3000, 60000, rule="every case"),
    Sub("node", gen_node, check_node, 2500, 40000, rule="every case with more than one element"),
    Sub("model", gen_model, check_model, 700, 15000, rule="counts when the latent space has two or more dimensions"),
]
