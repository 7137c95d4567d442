"""Independent reference formulas in plain dense NumPy/SciPy.

Moments of a variable are lists of arrays `plates + dims`, in the order the
library documents:

  'g'   Gaussian           [<x>, <xx>]            shape S
  'ga'  Gamma              [<a>, <log a>]
  'w'   Wishart            [<L>, <log|L|>]        D
  'd'   Dirichlet/Beta     [<log p>]              K
  'c'   Categorical        [<z>]                  K
  'gg'  Gaussian-Gamma     [<ax>, <axx>, <a>, <log a>]
"""
import numpy as np
from scipy import special

LOG2PI = np.log(2 * np.pi)


def dims_of(t, shape):
    S = tuple(shape)
    return {"g": [S, S + S], "ga": [(), ()], "w": [S + S, ()], "d": [S], "c": [S],
            "gg": [S, S + S, (), ()], "cnt": [()], "mn": [S]}[t]


def bc(a, plates, dims):
    return np.broadcast_to(np.asarray(a, dtype=float), tuple(plates) + tuple(dims))


def dense_moments(u, t, plates, shape):
    return [bc(ui, plates, d) for ui, d in zip(u, dims_of(t, shape))]


def size(shape):
    n = 1
    for s in shape:
        n *= s
    return n


def flat(m, mm, shape):
    """Gaussian arrays -> vectors: m (...,D), mm (...,D,D)."""
    n = len(shape)
    D = size(shape)
    m = np.asarray(m)
    mm = np.asarray(mm)
    p = m.shape[:m.ndim - n]
    return m.reshape(p + (D,)), mm.reshape(p + (D, D))


def diag_of(mm, shape):
    """Diagonal <x_i^2> of a Gaussian second moment, shape plates+shape."""
    n = len(shape)
    D = size(shape)
    mm = np.asarray(mm)
    p = mm.shape[:mm.ndim - 2 * n]
    d = np.einsum("...ii->...i", mm.reshape(p + (D, D)))
    return d.reshape(p + tuple(shape))


def sum_to(a, from_shape, to_shape):
    """Sum over every axis of `from_shape` that has length one/missing in `to_shape`."""
    a = np.broadcast_to(a, from_shape)
    k = len(from_shape) - len(to_shape)
    if k > 0:
        a = a.sum(axis=tuple(range(k)))
    ax = tuple(i for i, n in enumerate(to_shape) if n == 1 and a.shape[i] != 1)
    if ax:
        a = a.sum(axis=ax, keepdims=True)
    return a


def any_to(mask, from_shape, to_shape):
    return sum_to(np.asarray(mask, dtype=int), from_shape, to_shape) > 0


def mvgammaln(a, D):
    a = np.asarray(a, dtype=float)
    r = D * (D - 1) / 4.0 * np.log(np.pi)
    for j in range(D):
        r = r + special.gammaln(a - j / 2.0)
    return r


def mvdigamma(a, D):
    r = 0.0
    for j in range(D):
        r = r + special.digamma(np.asarray(a, dtype=float) - j / 2.0)
    return r


# ------------------------------------------------------- q: phi -> everything

def gauss_from_phi(phi, plates, shape):
    """Dense (h, Lambda) flattened."""
    h = bc(phi[0], plates, shape)
    L = -2 * bc(phi[1], plates, tuple(shape) + tuple(shape))
    return flat(h, L, shape)


def moments_from_phi(t, phi, plates, shape):
    S = tuple(shape)
    if t == "g":
        h, L = gauss_from_phi(phi, plates, S)
        C = np.linalg.inv(L)
        m = np.einsum("...ij,...j->...i", C, h)
        mm = C + m[..., :, None] * m[..., None, :]
        p = tuple(plates)
        return [m.reshape(p + S), mm.reshape(p + S + S)]
    if t == "ga":
        b = -bc(phi[0], plates, ())
        a = bc(phi[1], plates, ())
        return [a / b, special.digamma(a) - np.log(b)]
    if t == "w":
        D = S[0]
        V = -2 * bc(phi[0], plates, S + S)
        n = 2 * bc(phi[1], plates, ())
        return [n[..., None, None] * np.linalg.inv(V),
                mvdigamma(n / 2, D) + D * np.log(2) - np.linalg.slogdet(V)[1]]
    if t == "d":
        a = bc(phi[0], plates, S)
        return [special.digamma(a) - special.digamma(a.sum(-1))[..., None]]
    if t == "c":
        x = bc(phi[0], plates, S)
        return [special.softmax(x, axis=-1)]
    if t == "gg":
        h, L = gauss_from_phi(phi[:2], plates, S)
        C = np.linalg.inv(L)
        m = np.einsum("...ij,...j->...i", C, h)
        b = -bc(phi[2], plates, ()) - 0.5 * np.einsum("...i,...i->...", m, h)
        a = bc(phi[3], plates, ())
        tau = a / b
        p = tuple(plates)
        return [(tau[..., None] * m).reshape(p + S),
                (C + tau[..., None, None] * m[..., :, None] * m[..., None, :]).reshape(p + S + S),
                tau, special.digamma(a) - np.log(b)]
    raise KeyError(t)


def logpartition(t, phi, plates, shape):
    """A(phi) with q(x) = h(x) exp(phi.u - A), same base measure as entropy()."""
    S = tuple(shape)
    if t == "g":
        h, L = gauss_from_phi(phi, plates, S)
        return (0.5 * np.einsum("...i,...i->...", h,
                                np.linalg.solve(L, h[..., None])[..., 0])
                - 0.5 * np.linalg.slogdet(L)[1])
    if t == "ga":
        b = -bc(phi[0], plates, ())
        a = bc(phi[1], plates, ())
        return special.gammaln(a) - a * np.log(b)
    if t == "w":
        D = S[0]
        V = -2 * bc(phi[0], plates, S + S)
        n = 2 * bc(phi[1], plates, ())
        return (n * D / 2 * np.log(2) - n / 2 * np.linalg.slogdet(V)[1]
                + mvgammaln(n / 2, D))
    if t == "d":
        a = bc(phi[0], plates, S)
        return special.gammaln(a).sum(-1) - special.gammaln(a.sum(-1))
    if t == "c":
        return special.logsumexp(bc(phi[0], plates, S), axis=-1)
    if t == "gg":
        h, L = gauss_from_phi(phi[:2], plates, S)
        Q = np.einsum("...i,...i->...", h, np.linalg.solve(L, h[..., None])[..., 0])
        b = -bc(phi[2], plates, ()) - 0.5 * Q
        a = bc(phi[3], plates, ())
        return special.gammaln(a) - a * np.log(b) - 0.5 * np.linalg.slogdet(L)[1]
    raise KeyError(t)


def entropy(t, phi, plates, shape):
    """Differential/discrete entropy of q."""
    S = tuple(shape)
    if t == "g":
        h, L = gauss_from_phi(phi, plates, S)
        return 0.5 * h.shape[-1] * (1 + LOG2PI) - 0.5 * np.linalg.slogdet(L)[1]
    if t == "ga":
        b = -bc(phi[0], plates, ())
        a = bc(phi[1], plates, ())
        return a - np.log(b) + special.gammaln(a) + (1 - a) * special.digamma(a)
    if t == "w":
        D = S[0]
        u = moments_from_phi(t, phi, plates, S)
        n = 2 * bc(phi[1], plates, ())
        return (logpartition(t, phi, plates, S) - (n - D - 1) / 2 * u[1] + n * D / 2)
    if t == "d":
        a = bc(phi[0], plates, S)
        a0 = a.sum(-1)
        K = S[0]
        return (logpartition(t, phi, plates, S) + (a0 - K) * special.digamma(a0)
                - ((a - 1) * special.digamma(a)).sum(-1))
    if t == "c":
        p = moments_from_phi(t, phi, plates, S)[0]
        return -special.xlogy(p, p).sum(-1)
    if t == "gg":
        h, L = gauss_from_phi(phi[:2], plates, S)
        D = h.shape[-1]
        Q = np.einsum("...i,...i->...", h, np.linalg.solve(L, h[..., None])[..., 0])
        b = -bc(phi[2], plates, ()) - 0.5 * Q
        a = bc(phi[3], plates, ())
        Hg = a - np.log(b) + special.gammaln(a) + (1 - a) * special.digamma(a)
        elog = special.digamma(a) - np.log(b)
        # q(x|tau) = N(m, (tau L)^-1)
        return Hg + 0.5 * D * (1 + LOG2PI) - 0.5 * np.linalg.slogdet(L)[1] - 0.5 * D * elog
    raise KeyError(t)


def dot_u(phi, u, plates, dims):
    """sum_i phi_i . u_i per plate."""
    r = 0.0
    for a, b, d in zip(phi, u, dims):
        a = bc(a, plates, d)
        b = bc(b, plates, d)
        ax = tuple(range(len(plates), len(plates) + len(d)))
        r = r + (a * b).sum(axis=ax) if ax else r + a * b
    return r


# ----------------------------------------------------------- random members

def spd(rs, plates, D, spread=1.0):
    A = rs.randn(*(tuple(plates) + (D, D)))
    return (np.einsum("...ij,...kj->...ik", A, A) * 0.5 * spread
            + np.eye(D) * (0.5 + rs.rand()))


def random_phi(t, rs, plates, shape):
    S = tuple(shape)
    P = tuple(plates)
    if t == "g":
        D = size(S)
        L = spd(rs, P, D)
        m = rs.randn(*(P + (D,)))
        h = np.einsum("...ij,...j->...i", L, m)
        return [h.reshape(P + S), -0.5 * L.reshape(P + S + S)]
    if t == "ga":
        return [-(0.3 + 2 * rs.rand(*P)), 0.7 + 3 * rs.rand(*P)]
    if t == "w":
        D = S[0]
        return [-0.5 * spd(rs, P, D) * (1 + rs.rand()), 0.5 * (D + 1 + 3 * rs.rand(*P))]
    if t == "d":
        return [0.5 + 3 * rs.rand(*(P + S))]
    if t == "c":
        return [rs.randn(*(P + S))]
    if t == "gg":
        D = size(S)
        L = spd(rs, P, D)
        m = rs.randn(*(P + (D,)))
        h = np.einsum("...ij,...j->...i", L, m)
        b = 0.3 + 2 * rs.rand(*P)
        a = 0.7 + 3 * rs.rand(*P)
        return [h.reshape(P + S), -0.5 * L.reshape(P + S + S),
                -b - 0.5 * np.einsum("...i,...i->...", m, h), a]
    raise KeyError(t)


def random_value(t, rs, plates, shape):
    """A fixed value of a variable (constant parameter or observation)."""
    S = tuple(shape)
    P = tuple(plates)
    if t == "g":
        return rs.randn(*(P + S)) * 1.5
    if t == "ga":
        return 0.2 + 2 * rs.rand(*P)
    if t == "w":
        return spd(rs, P, S[0])
    if t == "d":
        x = rs.gamma(1.5, size=P + S) + 0.05
        return x / x.sum(-1, keepdims=True)
    if t == "c":
        return rs.randint(0, S[0], size=P)
    raise KeyError(t)


def fixed_moments(t, x, shape):
    """Moments of a known value (dense)."""
    S = tuple(shape)
    x = np.asarray(x)
    if t == "g":
        n = len(S)
        p = x.shape[:x.ndim - n]
        v = x.reshape(p + (size(S),)).astype(float)
        return [x.astype(float), (v[..., :, None] * v[..., None, :]).reshape(p + S + S)]
    if t == "ga":
        return [x, np.log(x)]
    if t == "w":
        return [x, np.linalg.slogdet(x)[1]]
    if t == "d":
        return [np.log(x)]
    if t == "c":
        return [np.eye(S[0])[x]]
    raise KeyError(t)


# ------------------------------------------------------------------- chains
# 'gmc': shape (N, D); dims [(N,D), (N,D,D), (N-1,D,D)]
# 'cmc': shape (N, K); dims [(K,), (N-1,K,K)]

_dims_of = dims_of
_moments_from_phi = moments_from_phi
_logpartition = logpartition
_entropy = entropy
_random_phi = random_phi


def dims_of(t, shape):  # noqa: F811
    if t == "gmc":
        N, D = shape
        return [(N, D), (N, D, D), (N - 1, D, D)]
    if t == "cmc":
        N, K = shape
        return [(K,), (N - 1, K, K)]
    return _dims_of(t, shape)


def gmc_dense(phi, plates, shape):
    N, D = shape
    P = tuple(plates)
    h = bc(phi[0], P, (N, D)).reshape(P + (N * D,))
    d = bc(phi[1], P, (N, D, D))
    o = bc(phi[2], P, (N - 1, D, D))
    J = np.zeros(P + (N, D, N, D))
    for n in range(N):
        J[..., n, :, n, :] = -2 * d[..., n, :, :]
    for n in range(N - 1):
        J[..., n, :, n + 1, :] = -o[..., n, :, :]
        J[..., n + 1, :, n, :] = -np.swapaxes(o[..., n, :, :], -1, -2)
    return h, J.reshape(P + (N * D, N * D))


def cmc_paths(N, K):
    return np.array(np.meshgrid(*([np.arange(K)] * N), indexing="ij")).reshape(N, -1).T


def cmc_logjoint(phi, plates, shape):
    """Unnormalised log q of every path: plates + (K**N,)."""
    N, K = shape
    P = tuple(plates)
    a = bc(phi[0], P, (K,))
    b = bc(phi[1], P, (N - 1, K, K))
    z = cmc_paths(N, K)
    lj = a[..., z[:, 0]]
    for n in range(N - 1):
        lj = lj + b[..., n, :, :][..., z[:, n], z[:, n + 1]]
    return z, lj


def moments_from_phi(t, phi, plates, shape):  # noqa: F811
    P = tuple(plates)
    if t == "gmc":
        N, D = shape
        h, J = gmc_dense(phi, P, shape)
        C = np.linalg.inv(J)
        m = np.einsum("...ij,...j->...i", C, h)
        mm = (C + m[..., :, None] * m[..., None, :]).reshape(P + (N, D, N, D))
        d = np.stack([mm[..., n, :, n, :] for n in range(N)], axis=-3)
        o = np.stack([mm[..., n, :, n + 1, :] for n in range(N - 1)], axis=-3)
        return [m.reshape(P + (N, D)), d, o]
    if t == "cmc":
        N, K = shape
        z, lj = cmc_logjoint(phi, P, shape)
        p = special.softmax(lj, axis=-1)
        u0 = np.stack([p[..., z[:, 0] == k].sum(-1) for k in range(K)], axis=-1)
        u1 = np.zeros(P + (N - 1, K, K))
        for n in range(N - 1):
            for i in range(K):
                for j in range(K):
                    u1[..., n, i, j] = p[..., (z[:, n] == i) & (z[:, n + 1] == j)].sum(-1)
        return [u0, u1]
    return _moments_from_phi(t, phi, plates, shape)


def logpartition(t, phi, plates, shape):  # noqa: F811
    if t == "gmc":
        h, J = gmc_dense(phi, plates, shape)
        return (0.5 * np.einsum("...i,...i->...", h,
                                np.linalg.solve(J, h[..., None])[..., 0])
                - 0.5 * np.linalg.slogdet(J)[1])
    if t == "cmc":
        return special.logsumexp(cmc_logjoint(phi, plates, shape)[1], axis=-1)
    return _logpartition(t, phi, plates, shape)


def entropy(t, phi, plates, shape):  # noqa: F811
    if t == "gmc":
        h, J = gmc_dense(phi, plates, shape)
        return 0.5 * h.shape[-1] * (1 + LOG2PI) - 0.5 * np.linalg.slogdet(J)[1]
    if t == "cmc":
        lj = cmc_logjoint(phi, plates, shape)[1]
        p = special.softmax(lj, axis=-1)
        return -special.xlogy(p, p).sum(-1)
    return _entropy(t, phi, plates, shape)


def random_phi(t, rs, plates, shape):  # noqa: F811
    P = tuple(plates)
    if t == "gmc":
        N, D = shape
        # J from a random chain: always positive definite
        L0 = spd(rs, P, D)
        A = rs.randn(*(P + (N - 1, D, D))) * 0.6
        Q = spd(rs, P + (N - 1,), D)
        d = np.zeros(P + (N, D, D))
        d[..., 0, :, :] = L0
        d[..., 1:, :, :] = Q
        d[..., :-1, :, :] += np.einsum("...ki,...kl,...lj->...ij", A, Q, A)
        o = np.einsum("...ki,...kj->...ij", A, Q)
        return [2 * rs.randn(*(P + (N, D))), -0.5 * d, o]
    if t == "cmc":
        N, K = shape
        return [rs.randn(*(P + (K,))), rs.randn(*(P + (N - 1, K, K)))]
    return _random_phi(t, rs, plates, shape)


# ------------------------------------------------------------------- counts
# 'poi': dims [()]; 'bin': shape (n,), dims [()]; 'mul': shape (K, n), dims [(K,)]

_dims_of2, _mom2, _lp2, _rp2 = dims_of, moments_from_phi, logpartition, random_phi


def dims_of(t, shape):  # noqa: F811
    if t in ("poi", "bin"):
        return [()]
    if t == "mul":
        return [(shape[0],)]
    return _dims_of2(t, shape)


def moments_from_phi(t, phi, plates, shape):  # noqa: F811
    if t == "poi":
        return [np.exp(bc(phi[0], plates, ()))]
    if t == "bin":
        return [shape[0] * special.expit(bc(phi[0], plates, ()))]
    if t == "mul":
        return [shape[1] * special.softmax(bc(phi[0], plates, shape[:1]), axis=-1)]
    return _mom2(t, phi, plates, shape)


def logpartition(t, phi, plates, shape):  # noqa: F811
    if t == "poi":
        return np.exp(bc(phi[0], plates, ()))
    if t == "bin":
        return shape[0] * np.logaddexp(0, bc(phi[0], plates, ()))
    if t == "mul":
        return shape[1] * special.logsumexp(bc(phi[0], plates, shape[:1]), axis=-1)
    return _lp2(t, phi, plates, shape)


def random_phi(t, rs, plates, shape):  # noqa: F811
    P = tuple(plates)
    if t in ("poi", "bin"):
        return [rs.randn(*P) if P else np.asarray(rs.randn())]
    if t == "mul":
        return [rs.randn(*(P + (shape[0],)))]
    return _rp2(t, rs, plates, shape)


def random_direction(t, rs, plates, shape):
    """A random tangent direction (symmetric where phi is symmetric)."""
    P = tuple(plates)
    S = tuple(shape)
    out = []
    for k, dd in enumerate(dims_of(t, shape)):
        a = rs.randn(*(P + tuple(dd))) if P + tuple(dd) else np.asarray(rs.randn())
        if t in ("g", "gg") and k == 1:
            D = size(S)
            a = a.reshape(P + (D, D))
            a = (a + np.swapaxes(a, -1, -2)).reshape(P + S + S) / 2
        if (t == "w" and k == 0) or (t == "gmc" and k == 1):
            a = (a + np.swapaxes(a, -1, -2)) / 2
        out.append(a)
    return out
