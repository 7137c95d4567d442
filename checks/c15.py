"""C15: linear algebra with plates agrees with plain dense linear algebra of every matrix."""
import numpy as np
import scipy.linalg as sl
from vlib.harness import Sub, require, close, same_shape, finite, raises


def L():
    from bayespy.utils import linalg
    return linalg


def posdef(rs, plates, D):
    A = rs.randn(*(tuple(plates) + (D, D + 1)))
    return A @ np.swapaxes(A, -1, -2) + 0.1 * np.eye(D)


def prod(x):
    r = 1
    for i in x:
        r *= i
    return r


def spread(x, P, dims):
    return np.broadcast_to(x, tuple(P) + tuple(dims))


# ---------------------------------------------------------------- Cholesky

def gen_chol(d):
    P = d.shape(3, 3)
    nd = d.choice([1, 1, 0, 2])
    c = dict(P=P, pu=d.subshape(P), pb=d.subshape(P), ndim=nd,
                S=[0 if nd == 1 and d.bool(1, 20) else d.int(1, 3) for _ in range(nd)], seed=d.seed(),
                M=[d.int(1, 3) for _ in range(nd)], matrix=d.bool(1, 3))
    if c["S"] == [0]:
        # matrices without elements: only a single right-hand side vector is supported
        c.update(matrix=False, pb=[])
    return c


def check_chol(c, R):
    la = L()
    rs = np.random.RandomState(c["seed"])
    nd, S, M = c["ndim"], tuple(c["S"]), tuple(c["M"])
    pu, pb = tuple(c["pu"]), tuple(c["pb"])
    D = prod(S)
    C = posdef(rs, pu, D)
    Cn = C.reshape(pu + S + S) if nd else C[..., 0, 0]
    keep = Cn.copy()
    U = la.chol(Cn, ndim=nd)
    require(np.array_equal(Cn, keep), "chol changed its argument")
    same_shape(U, pu + S + S, "Cholesky factor")
    close(la.chol_logdet(U, ndim=nd), np.linalg.slogdet(C)[1], "log-determinant from the factor",
          scale=1.0)
    same_shape(la.chol_logdet(U, ndim=nd), pu, "log-determinant")
    close(la.logdet_cov(Cn, ndim=nd), np.linalg.slogdet(C)[1], "logdet_cov", scale=1.0)
    inv = np.linalg.inv(C)
    iv = la.chol_inv(U, ndim=nd)
    same_shape(iv, pu + S + S, "inverse")
    close(iv, inv.reshape(pu + S + S) if nd else inv[..., 0, 0], "inverse from the factor")
    if nd <= 1:
        close(la.inv(Cn, ndim=nd), inv.reshape(pu + S + S) if nd else inv[..., 0, 0], "inv")
    if nd == 1:
        Ut = np.triu(np.asarray(U))
        close(np.swapaxes(Ut, -1, -2) @ Ut, C, "U^T U must be the decomposed matrix")
        close(la.logdet_chol(U), np.linalg.slogdet(C)[1], "logdet_chol", scale=1.0)
        if pu == ():
            close(la.logdet_tri(Ut), 0.5 * np.linalg.slogdet(C)[1], "logdet_tri", scale=1.0)
    # solving
    P = np.broadcast_shapes(pu, pb)
    matrix = c["matrix"] and nd == 1 and True
    if matrix:
        N = prod(M)
        b = rs.randn(*(pb + (D, N)))
        x = np.linalg.solve(spread(C, P, (D, D)), spread(b, P, (D, N)))
        bb, want = b, x
    else:
        b = rs.randn(*(pb + (D,)))
        x = np.linalg.solve(spread(C, P, (D, D)), spread(b, P, (D,))[..., None])[..., 0]
        bb = b.reshape(pb + S) if nd else b[..., 0]
        want = x.reshape(P + S) if nd else x[..., 0]
    kb = np.array(bb)
    ku = np.array(U)
    got = la.chol_solve(U, bb, matrix=matrix, ndim=nd)
    same_shape(got, want.shape, "solution")
    close(got, want, "solution of the linear system")
    require(np.array_equal(bb, kb) and np.array_equal(np.asarray(U), ku, equal_nan=True),
            "chol_solve changed its arguments")
    R.nontrivial(prod(P) * D > 1)
    R.tag("ndim%d" % nd, "matrix" if matrix else "vector")


# ------------------------------------------------------------- triangular

def gen_tri(d):
    P = d.shape(3, 3)
    return dict(P=P, pu=d.subshape(P), pb=d.subshape(P), D=d.int(1, 4), seed=d.seed(),
                trans=d.choice([0, 1]), lower=d.bool())


def check_tri(c, R):
    la = L()
    rs = np.random.RandomState(c["seed"])
    pu, pb, D = tuple(c["pu"]), tuple(c["pb"]), c["D"]
    A = rs.randn(*(pu + (D, D)))
    T = np.tril(A) if c["lower"] else np.triu(A)
    T = T + 3 * np.eye(D) * np.sign(np.einsum("...ii->...i", T))[..., None]
    b = rs.randn(*(pb + (D,)))
    P = np.broadcast_shapes(pu, pb)
    Td = np.swapaxes(T, -1, -2) if c["trans"] else T
    want = np.linalg.solve(spread(Td, P, (D, D)), spread(b, P, (D,))[..., None])[..., 0]
    got = la.solve_triangular(T, b, trans=c["trans"], lower=c["lower"])
    same_shape(got, want.shape, "solution")
    close(got, want, "solution of the triangular system")
    R.nontrivial(prod(P) * D > 1)


# ---------------------------------------------------------------- products

FNS = ["inner", "outer", "dot", "tracedot", "mvdot", "mmdot", "transpose"]


def gen_prod(d):
    P = d.shape(3, 3)
    return dict(fn=d.choice(FNS), P=P, pa=d.subshape(P), pb=d.subshape(P), pc=d.subshape(P),
                nd=d.int(0, 3), n=d.int(1, 3), seed=d.seed(), a=d.shape(3, 3, mindim=3),
                b=d.shape(3, 3, mindim=3), ones=d.bool(1, 4))


def check_prod(c, R):
    la = L()
    rs = np.random.RandomState(c["seed"])
    pa, pb, pc = tuple(c["pa"]), tuple(c["pb"]), tuple(c["pc"])
    P = np.broadcast_shapes(pa, pb)
    fn, nd = c["fn"], c["nd"]
    S, T = tuple(c["a"])[:nd], tuple(c["b"])[:nd]
    ax = list(range(nd))
    R.tag(fn)
    if fn == "inner":
        shapes = [pa, pb, pc][:c["n"]]
        arrs = [rs.randn(*(p + S)) for p in shapes]
        if c["ones"] and nd and len(arrs) > 1:
            # a singleton variable axis of one factor is broadcasted
            arrs[0] = arrs[0].sum(axis=-1, keepdims=True)
        full = 1.0
        for x in arrs:
            full = full * x
        want = full.sum(axis=tuple(range(-nd, 0))) if nd else full
        got = la.inner(*arrs, ndim=nd)
        same_shape(got, np.shape(want), "inner product")
        close(got, want, "inner product", scale=1)
    elif fn == "outer":
        A, B = rs.randn(*(pa + S)), rs.randn(*(pb + T))
        want = np.einsum(spread(A, P, S), [Ellipsis] + ax, spread(B, P, T),
                         [Ellipsis] + [a + 10 for a in ax],
                         [Ellipsis] + ax + [a + 10 for a in ax])
        got = la.outer(A, B, ndim=nd)
        same_shape(got, want.shape, "outer product")
        close(got, want, "outer product", rtol=1e-12)
    elif fn == "dot":
        sizes = [c["a"][0], c["a"][1], c["a"][2], c["b"][0]]
        arrs = [rs.randn(*(p + (sizes[k], sizes[k + 1])))
                for k, p in enumerate([pa, pb, pc][:c["n"]])]
        want = arrs[0]
        for x in arrs[1:]:
            want = want @ x
        got = la.dot(*arrs)
        same_shape(got, want.shape, "matrix product")
        close(got, want, "matrix product", scale=1)
        if len(arrs) > 1:
            bad = rs.randn(sizes[1] + 1, 2)
            raises(ValueError, lambda: la.dot(arrs[0], bad), "product of mismatching matrices")
    elif fn == "tracedot":
        n, m = c["a"][0], c["a"][1]
        A, B = rs.randn(*(pa + (n, m))), rs.randn(*(pb + (m, n)))
        close(la.tracedot(A, B), np.trace(A @ B, axis1=-2, axis2=-1), "trace of product", scale=1)
    elif fn == "mvdot":
        n = prod(S)
        A, b = rs.randn(*(pa + T + S)), rs.randn(*(pb + S))
        # mvdot takes equally many row and column axes
        want = (spread(A, P, T + S).reshape(P + (prod(T), n))
                @ spread(b, P, S).reshape(P + (n, 1)))[..., 0].reshape(P + T)
        got = la.mvdot(A, b, ndim=nd)
        same_shape(got, want.shape, "matrix-vector product")
        close(got, want, "matrix-vector product", scale=1)
    elif fn == "mmdot":
        nd = nd % 2
        if nd == 0:
            A, B = rs.randn(*pa), rs.randn(*pb)
            want = A * B
        else:
            n, k, m = c["a"]
            A, B = rs.randn(*(pa + (n, k))), rs.randn(*(pb + (k, m)))
            want = A @ B
        got = la.mmdot(A, B, ndim=nd)
        same_shape(got, np.shape(want), "matrix-matrix product")
        close(got, want, "matrix-matrix product", scale=1)
    else:
        A = rs.randn(*(pa + S + T))
        k = len(pa)
        want = np.transpose(A, tuple(range(k)) + tuple(range(k + nd, k + 2 * nd))
                            + tuple(range(k, k + nd)))
        got = la.transpose(A, ndim=nd)
        same_shape(got, want.shape, "transpose")
        close(got, want, "transpose", rtol=0, atol=0)
    R.nontrivial(prod(P) > 1 or nd > 0)


# ------------------------------------------------------------ block banded

def gen_band(d):
    P = d.shape(2, 3)
    return dict(P=P, pa=d.subshape(P), pb=d.subshape(P), py=d.subshape(P), N=d.int(1, 5),
                D=d.int(1, 3), seed=d.seed(), scale=d.choice([0.0, 0.3, 1.0]))


def check_band(c, R):
    la = L()
    rs = np.random.RandomState(c["seed"])
    N, D = c["N"], c["D"]
    pa, pb, py = tuple(c["pa"]), tuple(c["pb"]), tuple(c["py"])
    B = c["scale"] * rs.randn(*(pb + (N - 1, D, D)))
    # diagonally dominant, thus positive definite for every combination of plates
    A = posdef(rs, pa + (N,), D)
    w = 0.0 if B.size == 0 else 2 * np.max(np.linalg.norm(B.reshape(-1, D, D), axis=(1, 2)))
    A = A + w * np.eye(D)
    y = rs.randn(*(py + (N, D)))
    PV = np.broadcast_shapes(pa, pb)
    P = np.broadcast_shapes(PV, py)
    full = np.zeros(PV + (N * D, N * D))
    for n in range(N):
        full[..., n * D:n * D + D, n * D:n * D + D] = A[..., n, :, :]
        if n + 1 < N:
            full[..., n * D:n * D + D, n * D + D:n * D + 2 * D] = B[..., n, :, :]
            full[..., n * D + D:n * D + 2 * D, n * D:n * D + D] = np.swapaxes(B[..., n, :, :], -1, -2)
    iv = np.linalg.inv(full)
    kA, kB, ky = A.copy(), B.copy(), y.copy()
    V, C, x, ld = la.block_banded_solve(A, B, y)
    require(np.array_equal(kA, A) and np.array_equal(kB, B) and np.array_equal(ky, y),
            "block_banded_solve changed its arguments")
    for n in range(N):
        close(V[..., n, :, :], iv[..., n * D:n * D + D, n * D:n * D + D],
              "diagonal block %d of the inverse" % n, scale=np.max(np.abs(iv)))
        if n + 1 < N:
            close(C[..., n, :, :], iv[..., n * D:n * D + D, n * D + D:n * D + 2 * D],
                  "super-diagonal block %d of the inverse" % n, scale=np.max(np.abs(iv)))
    same_shape(V, PV + (N, D, D), "diagonal blocks")
    same_shape(C, PV + (N - 1, D, D), "super-diagonal blocks")
    yy = spread(y, P, (N, D)).reshape(P + (N * D, 1))
    want = np.linalg.solve(spread(full, P, (N * D, N * D)), yy)[..., 0].reshape(P + (N, D))
    same_shape(x, want.shape, "solution")
    close(x, want, "solution of the block-banded system")
    close(ld, np.linalg.slogdet(full)[1], "log-determinant", scale=1)
    R.nontrivial(N > 1 and c["scale"] > 0)


# -------------------------------------------------------------- rejection

def gen_bad(d):
    return dict(kind=d.choice(["indef", "shape", "band", "outer"]), D=d.int(1, 3), seed=d.seed(),
                P=d.shape(2, 3), k=d.int(0, 8))


def check_bad(c, R):
    la = L()
    rs = np.random.RandomState(c["seed"])
    D, P = c["D"], tuple(c["P"])
    R.tag(c["kind"])
    if c["kind"] == "indef":
        C = posdef(rs, P, D)
        idx = np.unravel_index(c["k"] % prod(P), P) if P else ()
        C[idx] = C[idx] - (np.linalg.eigvalsh(C[idx])[-1] * 0.5 + 0.1) * np.eye(D) * 2
        if np.linalg.eigvalsh(C[idx])[0] >= 0:
            return
        e = raises(Exception, lambda: la.chol(C), "Cholesky of an indefinite matrix")
        require("ositive definite" in str(e) or isinstance(e, np.linalg.LinAlgError),
                "indefinite matrix not reported as such: %s: %s", type(e).__name__, e)
    elif c["kind"] == "shape":
        C = rs.randn(*(P + (D, D + 1)))
        raises(ValueError, lambda: la.chol(C), "Cholesky of a non-square matrix")
    elif c["kind"] == "band":
        A = posdef(rs, P + (3,), D)
        B = np.zeros(P + (2 + [1, -1][c["k"] % 2], D, D))
        y = rs.randn(*(P + (3, D)))
        raises(ValueError, lambda: la.block_banded_solve(A, B, y), "wrong number of blocks")
        raises(ValueError, lambda: la.block_banded_solve(A[..., :2, :, :], np.zeros(P + (2, D, D)),
                                                         y), "wrong number of diagonal blocks")
    else:
        raises(ValueError, lambda: la.outer(rs.randn(2), rs.randn(2), ndim=2), "ndim too large")
        raises(ValueError, lambda: la.outer(rs.randn(2), rs.randn(2), ndim=-1), "negative ndim")
    R.nontrivial()


SUBS = [
    Sub("cholesky", gen_chol, check_chol, 5000, 200000,
        rule="counts when the right-hand side has more than one element"),
    Sub("triangular", gen_tri, check_tri, 3000, 100000,
        rule="counts when the right-hand side has more than one element"),
    Sub("products", gen_prod, check_prod, 8000, 300000,
        rule="counts when there are plates or variable axes"),
    Sub("banded", gen_band, check_band, 2000, 60000,
        rule="counts when there are at least two blocks and the off-diagonal blocks are not zero"),
    Sub("rejection", gen_bad, check_bad, 400, 5000, rule="counts when an invalid input was tried"),
]
