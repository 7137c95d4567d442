"""Single nodes of every exponential-family type, with constant parameters."""
import numpy as np
from . import dense as dn

TYPES = ["g0", "g1", "g2", "g3", "gauss", "ga", "w", "d", "beta", "c", "gg", "gmc", "cmc",
         "poi", "bern", "bin", "mul"]
MORE = TYPES + ["gs0", "gs2"]       # Gaussian with ndim=0 and ndim=2


def draw(d, types=None, maxplates=2):
    """A description: kind, dense type t, shape, plates, optionally a mixture wrapper."""
    kind = d.choice(types or TYPES)
    P = d.shape(maxplates, 3)
    if kind in ("g0", "g1", "g2", "g3"):
        t, S = "g", d.shape(int(kind[1]), 3, mindim=int(kind[1]))
    elif kind == "gauss":
        t, S = "g", [d.int(1, 4)]
    elif kind in ("gs0", "gs2"):
        t, S = "g", d.shape(int(kind[2]), 3, mindim=int(kind[2]))
    elif kind in ("ga", "exp"):
        t, S = "ga", []
    elif kind == "w":
        t, S = "w", [d.int(1, 4)]
    elif kind == "d":
        t, S = "d", [d.int(2, 5)]
    elif kind == "beta":
        t, S = "d", [2]
    elif kind == "c":
        t, S = "c", [d.int(2, 5)]
    elif kind == "gg":
        t, S = "gg", [d.int(1, 4)]
    elif kind == "gmc":
        t, S = "gmc", [d.int(2, 6), d.int(1, 3)]
    elif kind == "cmc":
        t, S = "cmc", [d.int(2, 5), d.int(2, 3)]
    elif kind == "poi":
        t, S = "poi", []
    elif kind == "bern":
        t, S = "bin", [1]
    elif kind == "bin":
        t, S = "bin", [d.int(1, 9)]
    elif kind == "mul":
        t, S = "mul", [d.int(2, 4), d.int(1, 9)]
    return dict(kind=kind, t=t, S=S, P=P)


def params(case, rs, P=None, spread=1.0):
    """Random constant parameters for the node (numpy arrays with plates P)."""
    k, S = case["kind"], case["S"]
    P = tuple(case["P"] if P is None else P)
    if k in ("g0", "g1", "g2", "g3"):
        return [rs.randn(*(P + tuple(S))) * 1.5, 0.2 + 3 * rs.rand(*(P + tuple(S)))]
    if k == "gauss":
        return [rs.randn(*(P + tuple(S))) * 1.5, dn.spd(rs, P, S[0])]
    if k in ("gs0", "gs2"):
        L = dn.spd(rs, P, dn.size(S)).reshape(P + tuple(S) + tuple(S))
        return [rs.randn(*(P + tuple(S))) * 1.5, L]
    if k == "ga":
        return [0.4 + 3 * rs.rand(*P), 0.2 + 3 * rs.rand(*P)]
    if k == "exp":
        return [0.2 + 3 * rs.rand(*P)]
    if k == "w":
        return [S[0] + 0.2 + 4 * rs.rand(*P), dn.spd(rs, P, S[0])]
    if k == "d":
        return [0.3 + 3 * rs.rand(*(P + tuple(S)))]
    if k == "beta":
        return [0.3 + 3 * rs.rand(*(P + (2,)))]
    if k in ("c", "mul"):
        return [rs.dirichlet(np.ones(S[0]) * 2, size=P)]
    if k in ("bern", "bin"):
        return [0.05 + 0.9 * rs.rand(*P)]
    if k == "poi":
        return [0.2 + 4 * rs.rand(*P)]
    if k == "gg":
        return [rs.randn(*(P + tuple(S))) * 1.5, dn.spd(rs, P, S[0]), 0.6 + 3 * rs.rand(*P),
                0.2 + 3 * rs.rand(*P)]
    if k == "gmc":
        N, D = S
        return [rs.randn(*(P + (D,))), dn.spd(rs, P, D), 0.7 * rs.randn(*(P + (N - 1, D, D))),
                0.3 + 2 * rs.rand(*(P + (N - 1, D)))]
    if k == "cmc":
        N, K = S
        return [rs.dirichlet(np.ones(K) * 2, size=P),
                rs.dirichlet(np.ones(K) * 2, size=P + (N - 1, K))]
    raise KeyError(k)


def build(case, par, plates="explicit", **kw):
    import bayespy.nodes as N
    k, S = case["kind"], case["S"]
    if plates == "explicit":
        kw["plates"] = tuple(case["P"])
    if k in ("g0", "g1", "g2", "g3"):
        return N.GaussianARD(par[0], par[1], shape=tuple(S), **kw)
    if k == "gauss":
        return N.Gaussian(*par, **kw)
    if k in ("gs0", "gs2"):
        return N.Gaussian(*par, ndim=int(k[2]), **kw)
    if k == "ga":
        return N.Gamma(*par, **kw)
    if k == "exp":
        return N.Exponential(*par, **kw)
    if k == "w":
        return N.Wishart(*par, **kw)
    if k == "d":
        return N.Dirichlet(*par, **kw)
    if k == "beta":
        return N.Beta(*par, **kw)
    if k == "c":
        return N.Categorical(*par, **kw)
    if k == "mul":
        return N.Multinomial(S[1], *par, **kw)
    if k == "bern":
        return N.Bernoulli(*par, **kw)
    if k == "bin":
        return N.Binomial(S[0], *par, **kw)
    if k == "poi":
        return N.Poisson(*par, **kw)
    if k == "gg":
        return N.GaussianGamma(*par, **kw)
    if k == "gmc":
        return N.GaussianMarkovChain(*par, n=S[0], **kw)
    if k == "cmc":
        return N.CategoricalMarkovChain(*par, states=S[0], **kw)
    raise KeyError(k)


def prior_phi(case, par):
    """Natural parameters of the distribution with the given constant parameters, in the
    library's documented parameterisation (derived here from the definition)."""
    k, S, P = case["kind"], tuple(case["S"]), tuple(case["P"])
    if k in ("g0", "g1", "g2", "g3"):
        D = dn.size(S)
        m = dn.bc(par[0], P, S).reshape(P + (D,))
        a = dn.bc(par[1], P, S).reshape(P + (D,))
        L = a[..., None] * np.eye(D)
        return [(a * m).reshape(P + S), (-0.5 * L).reshape(P + S + S)]
    if k == "gauss":
        L = dn.bc(par[1], P, S + S)
        return [np.einsum("...ij,...j->...i", L, dn.bc(par[0], P, S)), -0.5 * L]
    if k in ("gs0", "gs2"):
        D = dn.size(S)
        L = dn.bc(par[1], P, S + S).reshape(P + (D, D))
        m = dn.bc(par[0], P, S).reshape(P + (D,))
        return [np.einsum("...ij,...j->...i", L, m).reshape(P + S), -0.5 * L.reshape(P + S + S)]
    if k == "ga":
        return [-dn.bc(par[1], P, ()), dn.bc(par[0], P, ())]
    if k == "exp":
        return [-dn.bc(par[0], P, ()), np.ones(P)]
    if k == "w":
        return [-0.5 * dn.bc(par[1], P, S + S), 0.5 * dn.bc(par[0], P, ())]
    if k in ("d", "beta"):
        return [dn.bc(par[0], P, S)]
    if k in ("c", "mul"):
        return [np.log(dn.bc(par[0], P, S[:1]))]
    if k in ("bern", "bin"):
        p = dn.bc(par[0], P, ())
        return [np.log(p) - np.log1p(-p)]
    if k == "poi":
        return [np.log(dn.bc(par[0], P, ()))]
    if k == "gg":
        m, L = dn.bc(par[0], P, S), dn.bc(par[1], P, S + S)
        h = np.einsum("...ij,...j->...i", L, m)
        return [h, -0.5 * L, -dn.bc(par[3], P, ()) - 0.5 * (h * m).sum(-1), dn.bc(par[2], P, ())]
    if k == "gmc":
        N, D = S
        m, L = dn.bc(par[0], P, (D,)), dn.bc(par[1], P, (D, D))
        A = dn.bc(par[2], P, (N - 1, D, D))
        nu = dn.bc(par[3], P, (N - 1, D))
        h = np.zeros(P + (N, D))
        h[..., 0, :] = np.einsum("...ij,...j->...i", L, m)
        d = np.zeros(P + (N, D, D))
        d[..., 0, :, :] = L
        d[..., 1:, :, :] = nu[..., None] * np.eye(D)
        d[..., :-1, :, :] += np.einsum("...ki,...k,...kj->...ij", A, nu, A)
        return [h, -0.5 * d, np.einsum("...ki,...k->...ik", A, nu)]
    if k == "cmc":
        N, K = S
        return [np.log(dn.bc(par[0], P, (K,))), np.log(dn.bc(par[1], P, (N - 1, K, K)))]
    raise KeyError(k)
