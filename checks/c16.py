"""C16: array utilities agree with naive definitions for every shape."""
import itertools
import numpy as np
from scipy import special
from vlib.harness import Sub, Violation, require, close, same_shape, finite, raises


def M():
    from bayespy.utils import misc
    return misc


class RS(np.random.RandomState):
    def randn(self, *shape):
        return np.asarray(super().randn(*shape))

    def rand(self, *shape):
        return np.asarray(super().rand(*shape))


def prod(x):
    r = 1
    for i in x:
        r *= int(i)
    return r


def shape_error(f):
    """None when f() raises a shape error, else its result."""
    try:
        return f()
    except ValueError:
        return None


# ----------------------------------------------------------------- shapes

SHAPE_FNS = ["broadcasted_shape", "subset", "multiplier", "multiply_shapes", "collapse",
             "sum_to_shape", "repeat_to_shape", "squeeze", "squeeze_to_dim", "axes", "moveaxis",
             "flatten", "sum_to_dim", "equal_ndim", "safe_indices", "broadcast", "nested"]


def gen_shape(d):
    P = d.shape(4, 3)
    return dict(fn=d.choice(SHAPE_FNS), P=P, a=d.subshape(P), b=d.subshape(P), c=d.subshape(P),
                free=d.shape(3, 3), other=d.shape(3, 3), i=d.int(-4, 4), j=d.int(-4, 4),
                n=d.int(0, 3), cut=[d.int(0, 2) for _ in range(3)], seed=d.seed(),
                use=d.bool(), k=d.int(1, 3))


def np_bshape(*s):
    try:
        return np.broadcast_shapes(*[tuple(x) for x in s])
    except ValueError:
        return None


def check_shape(c, R):
    m = M()
    rs = RS(c["seed"])
    P, a, b, e = [tuple(c[k]) for k in ("P", "a", "b", "c")]
    free, other = tuple(c["free"]), tuple(c["other"])
    fn = c["fn"]
    R.tag(fn)
    R.nontrivial(prod(P) > 1 or prod(free) > 1)
    if fn == "broadcasted_shape":
        for sh in ([a, b, e], [free, other], [a, free], [P], []):
            want = np_bshape(*sh) if sh else ()
            got = shape_error(lambda: m.broadcasted_shape(*sh))
            require(got == want, "broadcasted_shape%r gives %r, should be %r (None: error)",
                    tuple(sh), got, want)
            if want is not None and sh:
                got = m.broadcasted_shape_from_arrays(*[np.zeros(s) for s in sh])
                require(got == want, "broadcasted_shape_from_arrays: %r instead of %r", got, want)
    elif fn == "subset":
        for s, f in ((a, P), (free, other), (a, b)):
            want = np_bshape(s, f) == f
            require(bool(m.is_shape_subset(s, f)) == want, "is_shape_subset(%r, %r) != %r",
                    s, f, want)
    elif fn == "multiplier":
        got = m.broadcasting_multiplier(P, a, b)
        pad = lambda s: (1,) * (len(P) - len(s)) + s
        want = prod(n for n, x, y in zip(P, pad(a), pad(b)) if x == 1 and y == 1)
        require(got == want, "broadcasting_multiplier(%r, %r, %r) = %r, should be %r",
                P, a, b, got, want)
        # its purpose: summing a broadcasted array
        x = rs.randn(*a)
        full = np.broadcast_to(x, P)
        require(m.broadcasting_multiplier(P, P) == 1, "multiplier of the full shape is not one")
        close(m.broadcasting_multiplier(P, a) * np.sum(x), full.sum(), "sum over plates", scale=1)
        if np_bshape(free, P) != P:
            raises(ValueError, lambda: m.broadcasting_multiplier(P, free),
                   "multiplier for a shape that is not a sub-shape")
    elif fn == "multiply_shapes":
        got = m.multiply_shapes(a, free, other)
        n = max(len(a), len(free), len(other))
        pad = lambda s: (1,) * (n - len(s)) + s
        want = tuple(x * y * z for x, y, z in zip(pad(a), pad(free), pad(other)))
        require(tuple(got) == want, "multiply_shapes: %r instead of %r", got, want)
    elif fn == "collapse":
        want = tuple(j for j in range(-len(P), 0)
                     if P[j] != 1 and (-j > len(a) or a[j] == 1))
        require(tuple(m.axes_to_collapse(P, a)) == want, "axes_to_collapse")
    elif fn == "sum_to_shape":
        x = rs.randn(*P)
        want = naive_sum(x, a)
        got = m.sum_to_shape(x, a)
        same_shape(got, a, "sum_to_shape")
        close(got, want, "sum_to_shape", scale=1)
    elif fn == "repeat_to_shape":
        x = rs.randn(*a)
        got = m.repeat_to_shape(x, P)
        same_shape(got, P, "repeat_to_shape")
        close(got, np.broadcast_to(x, P), "repeat_to_shape", rtol=0, atol=0)
    elif fn == "squeeze":
        x = rs.randn(*((1,) * c["n"] + P))
        got = m.squeeze(x)
        s = list(P)
        while s and s[0] == 1:
            s.pop(0)
        same_shape(got, tuple(s), "squeeze")
        close(np.ravel(got), np.ravel(x), "squeeze", rtol=0, atol=0)
    elif fn == "squeeze_to_dim":
        x = rs.randn(*((1,) * c["n"] + P))
        same_shape(m.squeeze_to_dim(x, len(P)), P, "squeeze_to_dim")
    elif fn == "axes":
        x = rs.randn(*P)
        n = c["n"]
        same_shape(m.add_leading_axes(x, n), (1,) * n + P, "add_leading_axes")
        same_shape(m.add_trailing_axes(x, n), P + (1,) * n, "add_trailing_axes")
        k = c["k"] % (len(P) + 1)
        same_shape(m.add_axes(x, num=n, axis=k), P[:k] + (1,) * n + P[k:], "add_axes")
        same_shape(m.atleast_nd(x, n), (1,) * (n - len(P)) + P, "atleast_nd")
        k = -1 - c["k"] % (len(P) + 1)
        same_shape(m.add_axes(x, num=n, axis=k),
                   P[:len(P) + k + 1] + (1,) * n + P[len(P) + k + 1:], "add_axes, negative axis")
    elif fn == "moveaxis":
        x = rs.randn(*P)
        i, j = c["i"], c["j"]
        ok = all(-len(P) <= v < len(P) for v in (i, j))
        if ok:
            got = m.moveaxis(x, i, j)
            want = np.moveaxis(x, i, j)
            same_shape(got, want.shape, "moveaxis(%s, %d, %d)" % (P, i, j))
            close(got, want, "moveaxis", rtol=0, atol=0)
        else:
            raises(ValueError, lambda: m.moveaxis(x, i, j), "axis out of bounds")
    elif fn == "flatten":
        # groups of trailing axes become single axes, and back
        sizes = list(P)
        groups = []
        for g in c["cut"]:
            g = min(g, len(P) - sum(groups))
            groups.append(g)
        x = rs.randn(*P)
        y = m.flatten_axes(x, *groups)
        n = len(P) - sum(groups)
        shapes, k = [], n
        for g in groups:
            shapes.append(P[k:k + g])
            k += g
        same_shape(y, P[:n] + tuple(prod(s) for s in shapes), "flatten_axes")
        close(np.ravel(y), np.ravel(x), "flatten_axes order", rtol=0, atol=0)
        z = m.reshape_axes(y, *shapes)
        same_shape(z, P, "reshape_axes")
        close(z, x, "reshape_axes after flatten_axes", rtol=0, atol=0)
        raises(ValueError, lambda: m.flatten_axes(x, len(P) + 1), "too many axes")
        if len(shapes) and y.ndim:
            bad = shapes[:-1] + [shapes[-1] + (2,)]
            raises(ValueError, lambda: m.reshape_axes(y, *bad), "inconsistent sizes")
    elif fn == "sum_to_dim":
        x = rs.randn(*P)
        got = m.sum_to_dim(x, c["n"])
        want = naive_sum(x, P[len(P) - min(c["n"], len(P)):])
        same_shape(got, np.shape(want), "sum_to_dim")
        close(got, want, "sum_to_dim", scale=1)
        y = m.trues(P)
        require(y.shape == P and y.dtype == bool and np.all(y), "trues")
        y = m.nans(P)
        require(np.all(np.isnan(y)), "nans")
        close(m.array_to_scalar(x), np.ravel(x)[0], "array_to_scalar", rtol=0, atol=0)
    elif fn == "equal_ndim":
        xs = [rs.randn(*s) for s in (a, free)]
        ys = m.make_equal_ndim(*xs)
        n = max(len(a), len(free))
        for x, y in zip(xs, ys):
            same_shape(y, (1,) * (n - x.ndim) + x.shape, "make_equal_ndim")
    elif fn == "safe_indices":
        # indexing a broadcast array through the array that was broadcasted
        x = rs.randn(*a)
        full = np.broadcast_to(x, P)
        for idx in itertools.islice(m.nested_iterator(P), 30):
            close(x[m.safe_indices(idx, a)], full[idx], "safe_indices", rtol=0, atol=0)
    elif fn == "broadcast":
        xs = [rs.randn(*s) for s in (a, b, e)]
        if c["use"] and P:
            ax = sorted({-1 - (v % len(P)) for v in c["cut"][:c["k"]]})
            def cutx(s):
                return tuple(1 if k in ax else s[k] for k in range(-len(s), 0))
            full = np.broadcast_shapes(*[cutx(x.shape) for x in xs])
            got = m.broadcast(*xs, ignore_axis=ax if len(ax) > 1 else ax[0])
        else:
            full = np.broadcast_shapes(a, b, e)
            got = m.broadcast(*xs)
        for g, x in zip(got, xs):
            w = x * np.ones(full)
            same_shape(g, w.shape, "broadcast")
            close(g, w, "broadcast", rtol=0, atol=0)
    else:
        got = list(m.nested_iterator(P))
        require(got == list(np.ndindex(*P)), "nested_iterator does not enumerate all indices")


def naive_sum(x, to):
    """Sum of x to shape `to`, element by element."""
    r = np.zeros(to)
    x = np.asarray(x)
    for idx in np.ndindex(*x.shape):
        k = idx[len(idx) - len(to):] if to else ()
        r[tuple(0 if to[q] == 1 else k[q] for q in range(len(to)))] += x[idx]
    return r


# ------------------------------------------------------------ sum-products

def gen_sum(d):
    P = d.shape(4, 3)
    n = d.int(1, 3)
    return dict(P=P, ps=[d.subshape(P) for _ in range(n)], to=d.subshape(P), nd=d.int(0, 2),
                S=[d.int(1, 3) for _ in range(2)], seed=d.seed(), explicit=d.bool(),
                axes=[d.int(-4, 3) for _ in range(d.int(0, 3))],
                mode=d.choice(["plates", "axes", "axes"]), sumaxis=d.bool(),
                keep=d.bool(), none=d.bool(1, 5), scalar=d.bool(1, 4))


def check_sum(c, R):
    m = M()
    rs = RS(c["seed"])
    P = tuple(c["P"])
    R.tag(c["mode"])
    if c["mode"] == "plates":
        nd = c["nd"]
        S = tuple(c["S"])[:nd]
        arrs = [rs.randn(*(tuple(p) + S)) for p in c["ps"]]
        prodp = np.broadcast_shapes(*[tuple(p) for p in c["ps"]])
        frm = P if c["explicit"] else prodp
        to = tuple(c["to"])
        if not c["explicit"]:
            # the target must be a sub-shape of the product
            k = max(0, len(to) - len(prodp))
            to = tuple(t if q != 1 else 1 for t, q in zip(to[k:], prodp[len(prodp) - len(to[k:]):]))
        full = np.ones(frm + S)
        for x in arrs:
            full = full * x
        want = naive_sum_nd(full, to, nd)
        got = m.sum_multiply_to_plates(*arrs, to_plates=to,
                                       from_plates=P if c["explicit"] else None, ndim=nd)
        # the result may be broadcasted over plates that all arrays lack
        close(got, want, "sum_multiply_to_plates", scale=1)
        R.nontrivial(prod(P) > 1)
    else:
        arrs = [rs.randn(*tuple(p)) for p in c["ps"]]
        n = max(x.ndim for x in arrs)
        full = 1.0
        for x in arrs:
            full = full * x
        axes = sorted({a for a in c["axes"] if -n <= a < n}, key=lambda a: a % max(n, 1))
        axes = [a for k, a in enumerate(axes)
                if a % n not in [b % n for b in axes[:k]]] if n else []
        arg = None if c["none"] else tuple(axes)
        if c["scalar"] and len(axes) == 1 and not c["none"]:
            arg = axes[0]
        if c["sumaxis"]:
            ax = tuple(range(n)) if c["none"] else tuple(axes)
        else:
            kept = set(range(n)) if c["none"] else {a % n for a in axes}
            ax = tuple(a for a in range(n) if a not in kept)
            if np.isscalar(arg):
                arg = (arg,)
        want = np.sum(full, axis=ax, keepdims=c["keep"]) if ax else np.asarray(full)
        got = m.sum_multiply(*arrs, axis=arg, sumaxis=c["sumaxis"], keepdims=c["keep"])
        same_shape(got, np.shape(want), "sum_multiply")
        close(got, want, "sum_multiply(axis=%s, sumaxis=%s, keepdims=%s)"
              % (arg, c["sumaxis"], c["keep"]), scale=1)
        if not np.isscalar(arg):
            kw = dict(axes_to_sum=arg) if c["sumaxis"] else dict(axes_to_keep=arg)
            if arg is not None:
                got = m.sum_product(*arrs, keepdims=c["keep"], **kw)
                same_shape(got, np.shape(want), "sum_product")
                close(got, want, "sum_product", scale=1)
        close(m.multiply(*arrs), full, "multiply")
        raises((ValueError, IndexError), lambda: m.sum_multiply(*arrs, axis=(n + 1,), sumaxis=False),
               "axis out of bounds")
        R.nontrivial(n > 0 and len(arrs) > 1)


def naive_sum_nd(full, to, nd):
    x = full
    lead = x.ndim - nd - len(to)
    if lead > 0:
        x = x.sum(axis=tuple(range(lead)))
    for k in range(len(to)):
        if to[k] == 1 and x.shape[k] != 1:
            x = x.sum(axis=k, keepdims=True)
    return x


# ----------------------------------------------------------- take and put

def gen_put(d):
    S = d.shape(3, 3, mindim=1)
    ax = d.int(0, len(S) - 1)
    ish = d.shape(2, 3)
    n = S[ax]
    full = S[:ax] + ish + S[ax + 1:]
    return dict(S=S, ax=ax, neg=d.bool(), ish=ish, idx=[d.int(-n, n - 1) for _ in range(prod(ish))],
                y=d.subshape(full), mul=d.bool(1, 3), seed=d.seed(), length=d.bool(2, 3),
                simple=d.bool())


def check_put(c, R):
    m = M()
    rs = RS(c["seed"])
    S, ax = tuple(c["S"]), c["ax"]
    ish = tuple(c["ish"])
    idx = np.array(c["idx"], dtype=int).reshape(ish)
    full = S[:ax] + ish + S[ax + 1:]
    y = rs.randn(*c["y"])
    yb = np.broadcast_to(y, full)
    x = rs.randn(*S)
    if c["simple"]:
        x = np.zeros(S)
    want = x.copy()
    n = S[ax]
    for j in np.ndindex(*ish):
        src = (slice(None),) * ax + j
        dst = (slice(None),) * ax + (int(idx[j]) % n,)
        if c["mul"] and not c["simple"]:
            want[dst] = want[dst] * yb[src]
        else:
            want[dst] = want[dst] + yb[src]
    if c["simple"]:
        naxis = ax - len(S)
        # values are given for (at least) all axes after the first index axis
        if len(c["y"]) < len(S) - ax - 1 + len(ish) or any(
                y.shape[q] != full[q] for q in range(-(len(S) - ax - 1 + len(ish)),
                                                     -(len(S) - ax - 1))):
            y = np.array(yb)
        got = m.put_simple(y, idx, axis=naxis, length=n)
        close(got, want, "put_simple", scale=1)
        require(got.shape[naxis] == n, "put_simple: length of the axis")
        if ish and set(i % n for i in c["idx"]) == set(range(n)) and min(c["idx"]) >= 0:
            close(m.put_simple(y, idx, axis=naxis), want, "put_simple without length", scale=1)
    else:
        xx = x.copy()
        r = m.put(xx, idx, y, axis=ax - len(S) if c["neg"] else ax,
                  ufunc=np.multiply if c["mul"] else np.add)
        close(r, want, "put", scale=1)
        require(r is xx, "put must return the array it modifies")
        raises(ValueError, lambda: m.put(x, idx, y, axis=len(S)), "axis out of bounds")
    R.nontrivial(prod(full) > 1)
    R.tag("put_simple" if c["simple"] else "put")


# --------------------------------------------------------------- diagonals

def gen_diag(d):
    nd = d.int(0, 3)
    return dict(P=d.shape(2, 3), S=[d.int(1, 3) for _ in range(nd)], to=d.int(0, nd),
                seed=d.seed(), fn=d.choice(["make", "make", "get", "banded", "symm", "identity"]),
                N=d.int(1, 4), D=[d.int(1, 3) for _ in range(4)])


def naive_getdiag(x, P, S, to):
    """Diagonal of the first len(S)-to variable axes."""
    n = len(S) - to
    T = S[n:]
    r = np.zeros(P + S + T)
    for p in np.ndindex(*P):
        for i in np.ndindex(*S[:n]):
            for a in np.ndindex(*T):
                for b in np.ndindex(*T):
                    r[p + i + a + b] = x[p + i + a + i + b]
    return r


def check_diag(c, R):
    m = M()
    rs = RS(c["seed"])
    P, S, to = tuple(c["P"]), tuple(c["S"]), c["to"]
    nd = len(S)
    fn = c["fn"]
    R.tag(fn)
    R.nontrivial(prod(S) > 1)
    if fn == "get":
        x = rs.randn(*(P + S + S))
        got = m.get_diag(x, ndim=nd, ndim_to=to)
        want = naive_getdiag(x, P, S, to)
        same_shape(got, want.shape, "get_diag")
        close(got, want, "get_diag", rtol=0, atol=0)
        if nd:
            bad = rs.randn(*(S + S[:-1] + (S[-1] + 1,)))
            raises(ValueError, lambda: m.get_diag(bad, ndim=nd, ndim_to=0), "not square")
        if nd == 1:
            close(m.diagonal(x), want if to == 0 else np.einsum("...ii->...i", x), "diagonal")
    elif fn == "make":
        T = S[nd - to:]
        x = rs.randn(*(P + S + T))
        got = m.make_diag(x, ndim=nd, ndim_from=to)
        same_shape(got, P + S + S, "make_diag")
        want = np.zeros(P + S + S)
        n = nd - to
        for p in np.ndindex(*P):
            for i in np.ndindex(*S[:n]):
                for a in np.ndindex(*T):
                    for b in np.ndindex(*T):
                        want[p + i + a + i + b] = x[p + i + a + b]
        close(got, want, "make_diag", rtol=0, atol=0)
        if to == 0:
            close(m.diag(x, ndim=nd), want, "diag", rtol=0, atol=0)
        close(m.get_diag(got, ndim=nd, ndim_to=to), x, "get_diag after make_diag", rtol=0, atol=0)
    elif fn == "banded":
        N, D = c["N"], c["D"]
        Ds = [rs.randn(D[k], D[k]) for k in range(N)]
        Bs = [rs.randn(D[k], D[k + 1]) for k in range(N - 1)]
        st = np.concatenate([[0], np.cumsum(D[:N])])
        want = np.zeros((st[-1], st[-1]))
        for k in range(N):
            want[st[k]:st[k + 1], st[k]:st[k + 1]] = Ds[k]
            if k + 1 < N:
                want[st[k]:st[k + 1], st[k + 1]:st[k + 2]] = Bs[k]
                want[st[k + 1]:st[k + 2], st[k]:st[k + 1]] = Bs[k].T
        close(m.block_banded(Ds, Bs), want, "block_banded", rtol=0, atol=0)
        raises(ValueError, lambda: m.block_banded(Ds, Bs + [np.zeros((1, 1))]), "extra block")
        if N > 1:
            bad = [np.zeros((D[0] + 1, D[1]))] + Bs[1:]
            raises(ValueError, lambda: m.block_banded(Ds, bad), "block of a wrong shape")
    elif fn == "symm":
        n = S[0] if S else 1
        x = rs.randn(*(P + (n, n)))
        close(m.symm(x), 0.5 * (x + np.swapaxes(x, -1, -2)), "symm")
        close(m.T(x), np.swapaxes(x, -1, -2), "T", rtol=0, atol=0)
    else:
        x = m.identity(*S)
        same_shape(x, S + S, "identity")
        want = np.zeros(S + S)
        for i in np.ndindex(*S):
            want[i + i] = 1
        close(x, want, "identity", rtol=0, atol=0)


# ------------------------------------------------------- numerical functions

def gen_num(d):
    P = d.shape(3, 4)
    return dict(fn=d.choice(["logsumexp", "logsumexp", "normalized_exp", "invpsi", "mean",
                             "multidigamma", "gausslogpdf", "rmse", "haversine", "ceildiv"]),
                P=P, axis=d.int(-3, 2), none=d.bool(1, 3), keep=d.bool(), seed=d.seed(),
                scale=d.choice([0.0, 1.0, 10.0, 1e3, 1e5]), inf=d.choice([0, 0, 1, 2, 3]),
                x=d.float(-1000, 30), n=d.int(1, 4), a=d.int(-50, 50), b=d.int(1, 12),
                shift=d.choice([0.0, 1e4, -1e4]))


def check_num(c, R):
    m = M()
    rs = RS(c["seed"])
    P = tuple(c["P"])
    fn = c["fn"]
    R.tag(fn)
    R.nontrivial()
    n = len(P)
    axis = None if c["none"] or not (-n <= c["axis"] < n) else c["axis"]
    if fn == "logsumexp":
        x = c["scale"] * rs.randn(*P) + c["shift"]
        if c["inf"] == 1:
            x = np.where(rs.rand(*P) < 0.5, -np.inf, x)
        elif c["inf"] == 2:
            x = np.full(P, -np.inf)
        elif c["inf"] == 3:
            x = np.where(rs.rand(*P) < 0.3, np.inf, x)
        x = np.asarray(x)
        k = x.copy()
        got = m.logsumexp(x, axis=axis, keepdims=c["keep"])
        want = np.logaddexp.reduce(np.moveaxis(x, axis, 0) if axis is not None else x.ravel(),
                                   axis=0, initial=-np.inf)
        if c["keep"]:
            want = (np.expand_dims(want, axis) if axis is not None
                    else np.reshape(want, (1,) * n))
        same_shape(got, np.shape(want), "logsumexp")
        close(got, want, "logsumexp", rtol=1e-10, atol=1e-10)
        require(np.array_equal(x, k), "logsumexp changed its argument")
    elif fn == "normalized_exp":
        if not P:
            return
        x = c["scale"] * rs.randn(*P) + c["shift"]
        if c["inf"] == 1 and P[-1] > 1:
            x[..., 0] = -np.inf
        p, lz = m.normalized_exp(x)
        same_shape(p, P, "normalized_exp")
        w = np.logaddexp.reduce(x, axis=-1, keepdims=True)
        close(lz, w, "log-normaliser", rtol=1e-10, atol=1e-10)
        close(p, np.exp(x - w), "normalised exponential", rtol=1e-9, atol=1e-12)
        close(p.sum(-1), np.ones(P[:-1]), "sum of probabilities", rtol=1e-14, atol=1e-14)
    elif fn == "invpsi":
        x = np.array([c["x"], c["x"] * 0.01, -2.22 + 1e-3 * c["a"]])
        y = m.invpsi(x)
        require(np.all(y > 0), "invpsi(%s) not positive: %s", x, y)
        close(special.psi(y), x, "psi(invpsi(x))", rtol=1e-10, atol=1e-9)
        yy = np.exp(rs.uniform(-6, 8, size=4))
        yi = m.invpsi(special.psi(yy))
        require(np.all(np.abs(yi - yy) <= 1e-8 * (1 + yy)), "invpsi(psi(y)): %s for y = %s", yi, yy)
    elif fn == "mean":
        x = rs.randn(*P)
        if n:
            x = np.where(rs.rand(*P) < 0.3, np.nan, x)
            if c["none"]:
                axis = None
            k = x.copy()
            got = m.mean(x, axis=axis, keepdims=c["keep"])
            want = np.nanmean(x, axis=axis, keepdims=c["keep"])
            same_shape(got, np.shape(want), "mean")
            close(got, want, "mean without NaNs", rtol=1e-10, atol=1e-12)
            require(np.array_equal(x, k, equal_nan=True), "mean changed its argument")
    elif fn == "multidigamma":
        d = c["n"]
        a = 0.5 * (d - 1) + 0.1 + rs.gamma(1, 2, size=P)
        h = 1e-5
        want = (special.multigammaln_safe if False else mgl)(a, d, h)
        close(m.multidigamma(np.asarray(a), d), want, "multivariate digamma", rtol=1e-5, atol=1e-5)
    elif fn == "gausslogpdf":
        D = c["n"]
        C = rs.randn(D, D + 1)
        C = C @ C.T + 0.1 * np.eye(D)
        y, mu = rs.randn(D), rs.randn(D)
        i = np.linalg.inv(C)
        want = (-0.5 * D * np.log(2 * np.pi) - 0.5 * np.linalg.slogdet(C)[1]
                - 0.5 * (y - mu) @ i @ (y - mu))
        from bayespy.utils import random
        args = (y @ i @ y, y @ i @ mu, mu @ i @ mu)
        close(m.gaussian_logpdf(*args, np.linalg.slogdet(C)[1], D), want, "misc.gaussian_logpdf",
              rtol=1e-9)
        close(random.gaussian_logpdf(*args, -np.linalg.slogdet(C)[1], D), want,
              "random.gaussian_logpdf", rtol=1e-9)
    elif fn == "rmse":
        a, b = rs.randn(*P), rs.randn(*P)
        close(m.rmse(a, b, axis=axis), np.sqrt(np.mean((a - b) ** 2, axis=axis)), "rmse")
    elif fn == "haversine":
        k, l = c["n"], c["b"] % 3 + 1
        c1 = (rs.uniform(-90, 90, k), rs.uniform(-180, 180, k))
        c2 = (rs.uniform(-90, 90, l), rs.uniform(-180, 180, l))
        def xyz(q):
            la, lo = np.deg2rad(q[0]), np.deg2rad(q[1])
            return np.stack([np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo), np.sin(la)], -1)
        u, v = xyz(c1)[:, None], xyz(c2)[None]
        ang = np.arctan2(np.linalg.norm(np.cross(u, v), axis=-1), np.sum(u * v, -1))
        close(m.dist_haversine(c1, c2, radius=2.0), 2.0 * ang, "great-circle distance", rtol=1e-6,
              atol=1e-6)
    else:
        import math
        require(m.ceildiv(c["a"], c["b"]) == math.ceil(c["a"] / c["b"]), "ceildiv")


def mgl(a, d, h):
    f = lambda x: sum(special.gammaln(x - 0.5 * j) for j in range(d))
    return (f(a + h) - f(a - h)) / (2 * h)


# ------------------------------------------------------------------- lists

def gen_list(d):
    return dict(fn=d.choice(["set_index", "zipper", "unique", "kinds", "composite", "grid", "args"]),
                lens=[d.int(0, 4) for _ in range(d.int(1, 5))], i=d.int(-20, 20),
                lists=[[d.int(0, 5) for _ in range(d.int(0, 4))] for _ in range(d.int(1, 4))],
                seed=d.seed(), P=d.shape(2, 3), vals=[d.int(-99, 99) for _ in range(4)],
                flags=[d.bool() for _ in range(4)], order=d.perm(4))


def check_list(c, R):
    m = M()
    fn = c["fn"]
    R.tag(fn)
    R.nontrivial()
    if fn == "set_index":
        lens, i = c["lens"], c["i"]
        owner = [k for k, n in enumerate(lens) for _ in range(n)]
        if -len(owner) <= i < len(owner):
            require(m.find_set_index(i, lens) == owner[i], "find_set_index(%d, %s) = %s", i, lens,
                    m.find_set_index(i, lens))
        else:
            raises(Exception, lambda: m.find_set_index(i, lens), "index out of bounds")
    elif fn == "zipper":
        want = [l[k] for k in range(min(map(len, c["lists"]))) for l in c["lists"]]
        require(m.zipper_merge(*c["lists"]) == want, "zipper_merge")
    elif fn == "unique":
        l = c["lists"][0] + c["lens"]
        want = []
        for x in l:
            if x not in want:
                want.append(x)
        require(m.unique(l) == want, "unique(%s) = %s", l, m.unique(l))
    elif fn == "kinds":
        rs = RS(c["seed"])
        P = tuple(c["P"])
        for x, num, integer in ((rs.randn(*P) if P else 1.5, True, False),
                                (rs.randint(0, 5, size=P), True, True),
                                (np.array(rs.rand(*P) < 0.5), True, True), ([1, 2], True, True),
                                ([0.5], True, False)):
            require(bool(m.is_numeric(x)) == num, "is_numeric(%r)", x)
            require(bool(m.isinteger(x)) == integer, "isinteger(%r)", x)
        require(not m.is_numeric(None) and not m.is_numeric(object()), "is_numeric of objects")
        require(m.is_scalar_integer(3) and not m.is_scalar_integer(3.0)
                and not m.is_scalar_integer([3]) and m.is_scalar_integer(np.int32(3)),
                "is_scalar_integer")
        require(m.is_string("a") and not m.is_string(1), "is_string")
    elif fn == "composite":
        fs = [(lambda v: (lambda x: x * v + 1))(v) for v in c["vals"]]
        x = 2
        for v in c["vals"]:
            x = x * v + 1
        require(m.composite_function(fs)(2) == x, "composite_function")
    elif fn == "grid":
        a, b = np.array(c["lens"], float), np.array(c["vals"], float)
        g = m.grid(a, b)
        require(g.shape == (len(a) * len(b), 2), "grid shape")
        require(sorted(map(tuple, g)) == sorted((x, y) for x in a for y in b), "grid points")
    else:
        spec = [("num", int, "n"), ("flag-one", None, "f")]
        opt = [[("opt-a", float, "a")], [("opt-b", str, "b"), ("other", None, "o")]]
        argv = [("--num=%d" % c["vals"][0], 0, "num", c["vals"][0]),
                ("--flag-one" if c["flags"][0] else "--no-flag-one", 0, "flag_one", c["flags"][0]),
                ("--opt-a=%d" % c["vals"][1], 1, "opt_a", float(c["vals"][1])),
                ("--other" if c["flags"][1] else "--no-other", 2, "other", c["flags"][1])]
        given = [argv[k] for k in c["order"] if k < 2 or c["flags"][k]]
        out = m.parse_command_line_arguments(spec, *opt, argv=[g[0] for g in given])
        want = [{}, {}, {}]
        for _, k, name, v in given:
            want[k][name] = v
        require(list(out) == want, "command line %s parsed to %s", [g[0] for g in given], out)
        raises(Exception, lambda: m.parse_command_line_arguments(
            spec, *opt, argv=[g[0] for g in given if g[2] != "num"]), "missing mandatory argument")


SUBS = [
    Sub("shapes", gen_shape, check_shape, 12000, 300000,
        rule="counts when a shape with more than one element is involved"),
    Sub("sums", gen_sum, check_sum, 8000, 300000,
        rule="counts when there is more than one plate, or several arrays with axes"),
    Sub("put", gen_put, check_put, 6000, 200000, rule="counts when more than one value is put"),
    Sub("diagonals", gen_diag, check_diag, 5000, 150000,
        rule="counts when the variable axes have more than one element"),
    Sub("numerics", gen_num, check_num, 8000, 200000, rule="every case counts"),
    Sub("lists", gen_list, check_list, 2000, 50000, rule="every case counts"),
]
