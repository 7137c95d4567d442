"""C28: plots show the current posterior and leave the model unchanged.

The drawn artists are read back from matplotlib (line data, error bands, boxes of the Hinton
diagrams, ellipse outlines, contour vertices) and compared with quantities computed from the
posterior by independent formulas.
"""
import numpy as np
from scipy import stats
from vlib import single, dense as dn
from vlib.harness import Sub, require, close, Skip


class RS(np.random.RandomState):
    def randn(self, *s):
        return np.asarray(super().randn(*s))

    def rand(self, *s):
        return np.asarray(super().rand(*s))


class Figure:
    """A fresh figure that is closed in any case."""

    def __enter__(self):
        import matplotlib.pyplot as plt
        plt.close("all")
        self.fig = plt.figure()
        return self.fig

    def __exit__(self, *a):
        import matplotlib.pyplot as plt
        plt.close("all")


def snap(*nodes):
    out = []
    for n in nodes:
        if hasattr(n, "u"):
            out += [np.array(x) for x in list(n.u) + list(n.phi)]
            out += [np.array(n.observed), np.array(n.mask), np.array(n.g)]
    return out


def unchanged(a, nodes, what):
    for x, y in zip(a, snap(*nodes)):
        require(x.shape == y.shape and np.array_equal(x, y, equal_nan=True), "%s changed the model"
                % what)


def mean_std(u, shape, nd):
    """Mean and standard deviation of every element, from moments."""
    m = np.broadcast_to(u[0], shape)
    D = int(np.prod(shape[len(shape) - nd:], dtype=int))
    P = shape[:len(shape) - nd]
    xx = np.broadcast_to(u[1], P + shape[len(P):] * 2).reshape(P + (D, D))
    v = np.einsum("...ii->...i", xx).reshape(shape) - m ** 2
    return m, np.sqrt(np.maximum(v, 0))


# ---------------------------------------------------------------- functions


def gen_fun(d):
    k = d.choice(["g0", "g1", "g2", "gs2", "bern", "array", "gmc", "dot"])
    P = d.shape(3, 3)
    c = dict(kind=k, P=P, S=d.shape({"g1": 1, "g2": 2, "gs2": 2}.get(k, 0), 3,
                                    mindim={"g1": 1, "g2": 2, "gs2": 2}.get(k, 0)),
             T=d.int(2, 4), D=d.int(1, 3), seed=d.seed(), axis=d.int(0, 4), neg=d.bool(),
             scale=d.choice([1, 2, 2.5]), center=d.choice([None, True, False]),
             how=d.choice(["plot", "plot", "plotter", "timeseries"]), update=d.bool(),
             given=d.bool(1, 4))
    return c


def check_fun(c, R):
    import bayespy.nodes as N
    import bayespy.plot as bp
    rs = RS(c["seed"])
    k, P, S = c["kind"], tuple(c["P"]), tuple(c["S"])
    R.tag(k, c["how"])
    std, nodes = None, []
    if k == "array":
        shape = P + (c["T"],)
        X = mean = rs.randn(*shape)
    elif k == "bern":
        shape = P + (c["T"],)
        X = N.Bernoulli(0.1 + 0.8 * rs.rand(*(shape if c["update"] else shape[-1:])),
                        plates=shape)
        mean = np.broadcast_to(X.get_moments()[0], shape)
        nodes = [X]
    elif k == "gmc":
        n, D = c["T"] + 1, c["D"]
        X = N.GaussianMarkovChain(rs.randn(*(P + (D,))), dn.spd(rs, P, D),
                                  0.6 * rs.randn(D, D), 0.5 + rs.rand(D), n=n, plates=P)
        shape = P + (n, D)
        u = X.get_moments()
        mean = np.broadcast_to(u[0], shape)
        std = np.sqrt(np.einsum("...ii->...i", np.broadcast_to(u[1], shape + (D,))) - mean ** 2)
        nodes = [X]
    elif k == "dot":
        n, D, M = c["T"], c["D"], c["D"] + 1
        a = N.GaussianARD(rs.randn(M, 1, D), 1 + rs.rand(M, 1, D), shape=(D,), plates=(M, 1))
        b = N.GaussianARD(rs.randn(n, D), 1 + rs.rand(n, D), shape=(D,), plates=(1, n))
        X = N.Dot(a, b)
        shape = (M, n)
        mean, std = mean_std(X.get_moments(), shape, 0)
        nodes = [a, b]
    else:
        shape = P + (c["T"],) + S if k == "g0" else P + S
        nd = len(S)
        if k == "gs2":
            L = dn.spd(rs, P, dn.size(S)).reshape(P + S + S)
            X = N.Gaussian(rs.randn(*shape), L, ndim=2, plates=P)
        else:
            X = N.GaussianARD(rs.randn(*(shape if c["update"] else shape[-1:])),
                              1 + rs.rand(*shape[-1:]), shape=S, plates=shape[:len(shape) - nd])
        if c["update"]:
            pl = shape[:len(shape) - nd]
            X.set_parameters(dn.random_phi("g", rs, pl, S))
        mean, std = mean_std(X.get_moments(), shape, nd)
        nodes = [X]
    nax = len(shape)
    if nax == 0:
        raise Skip()
    axis = c["axis"] % nax
    if k == "gmc" and c["how"] == "timeseries":
        axis = nax - 2
    T = shape[axis]
    rest = [s for i, s in enumerate(shape) if i != axis]
    if len([s for s in rest if s > 1]) > 2:
        raise Skip()
    sh = [s for s in rest if s > 1]
    rows, cols = ([1, 1] + sh)[-2:]
    if rows == 1:
        rows, cols = cols, rows
    y = np.moveaxis(mean, axis, 0).reshape(T, -1)
    e = None if std is None else np.moveaxis(std, axis, 0).reshape(T, -1) * c["scale"]
    s0 = snap(*nodes)
    kw = {}
    if c["center"] is not None:
        kw["center"] = c["center"]
    ax_arg = axis - nax
    with Figure() as fig:
        if c["given"]:
            kw["axes"] = [fig.add_axes([0, 0, 1, 1]) for _ in range(y.shape[1])]
        if c["how"] == "plot":
            center = bool(c["center"])
            bp.plot(X, axis=ax_arg, scale=c["scale"], **kw) if k != "array" else \
                bp.plot(X, axis=ax_arg, **kw)
        elif c["how"] == "plotter":
            center = bool(c["center"])
            p = bp.FunctionPlotter(axis=ax_arg, **(dict(scale=c["scale"]) if k != "array" else {}))
            p(X, fig=fig, **kw)
        else:
            center = c["center"] is None or c["center"]
            if k == "gmc":
                bp.timeseries_gaussian_mc(X, scale=c["scale"], **kw)
            elif k in ("array", "bern"):
                bp.timeseries(X, axis=ax_arg, **kw)
            else:
                bp.timeseries_gaussian(X, axis=ax_arg, scale=c["scale"], **kw)
        axs = fig.axes
        require(len(axs) == y.shape[1], "%d subplots for %d functions", len(axs), y.shape[1])
        for i, ax in enumerate(axs):
            if not c["given"]:
                sp = ax.get_subplotspec()
                g = sp.get_gridspec()
                require((g.nrows, g.ncols) == (rows, cols), "layout %s", (g.nrows, g.ncols))
                require((sp.rowspan.start, sp.colspan.start) == (i // cols, i % cols),
                        "subplot %d is at %s", i, (sp.rowspan.start, sp.colspan.start))
            require(len(ax.lines) == 1, "%d lines", len(ax.lines))
            close(ax.lines[0].get_xdata(), np.arange(T), "x of function %d" % i)
            close(ax.lines[0].get_ydata(), y[:, i], "mean of function %d" % i, rtol=1e-9)
            if e is None:
                require(len(ax.collections) == 0, "unexpected error band")
            else:
                require(len(ax.collections) == 1, "no error band")
                v = np.concatenate([p.vertices for p in ax.collections[0].get_paths()])
                for t in range(T):
                    b = v[np.abs(v[:, 0] - t) < 1e-9, 1]
                    require(len(b) >= 2, "error band misses point %d", t)
                    close([b.min(), b.max()], [y[t, i] - e[t, i], y[t, i] + e[t, i]],
                          "error band of function %d" % i, rtol=1e-8, atol=1e-8)
            if center:
                lo, hi = ax.get_ylim()
                close(lo, -hi, "centred limits", rtol=1e-9)
                require(hi >= np.max(np.abs(y[:, i])) - 1e-9, "function outside the limits")
    unchanged(s0, nodes, "plotting")
    R.nontrivial(T > 1 and y.shape[1] > 1)


# ---------------------------------------------------------------- densities


def gen_dens(d):
    return dict(kind=d.choice(["g0", "ga", "fun", "g1", "gauss", "fun2"]), seed=d.seed(),
                n=d.int(3, 9), m=d.int(3, 9), levels=d.int(0, 4),
                where=d.choice(["gca", "fig", "axes", "plotter"]),
                name=d.choice(["", "x", "tau"]), given=d.choice([None, "other"]))


def check_dens(c, R):
    import bayespy.nodes as N
    import bayespy.plot as bp
    rs = RS(c["seed"])
    k = c["kind"]
    R.tag(k, c["where"])
    nodes, kw, node_name = [], {}, ""
    x = np.sort(rs.uniform(0.2, 3, c["n"])) + 0.3 * np.arange(c["n"])
    y = np.sort(rs.uniform(-2, 2, c["m"])) + 0.3 * np.arange(c["m"])
    two = k in ("g1", "gauss", "fun2")
    if k == "g0":
        Z = N.GaussianARD(rs.randn(), 0.5 + rs.rand(), name=c["name"])
        Z.set_parameters(dn.random_phi("g", rs, (), ()))
        u = [float(v) for v in Z.get_moments()]
        want = stats.norm.pdf(x, u[0], np.sqrt(u[1] - u[0] ** 2))
    elif k == "ga":
        a, b = 0.5 + 3 * rs.rand(), 0.5 + 2 * rs.rand()
        Z = N.Gamma(a, b, name=c["name"])
        want = stats.gamma.pdf(x, a, scale=1 / b)
    elif k == "fun":
        Z = lambda t: -0.3 * t ** 2 + np.sin(t)
        want = np.exp(-0.3 * x ** 2 + np.sin(x))
    elif k == "fun2":
        Z = lambda xy: -0.3 * xy[:, 0] ** 2 + np.sin(xy[:, 1]) * xy[:, 0]
        want = np.exp(-0.3 * x[:, None] ** 2 + np.sin(y) * x[:, None])
    else:
        Z = N.GaussianARD(0, 1, shape=(2,)) if k == "g1" else N.Gaussian([0, 0], np.eye(2))
        L = dn.spd(rs, (), 2) * 0.5
        m = np.array([np.mean(x), np.mean(y)]) + 0.5 * rs.randn(2)
        Z.set_parameters([L @ m, -0.5 * L])
        X, Y = np.meshgrid(x, y, indexing="ij")
        want = stats.multivariate_normal.pdf(np.stack([X, Y], -1), m, np.linalg.inv(L))
    if not k.startswith("fun"):
        nodes = [Z]
    s0 = snap(*nodes)
    with Figure() as fig:
        f = bp.contour if two else bp.pdf
        args = (x, y) if two else (x,)
        if two and c["levels"]:
            kw["n"] = c["levels"]
        if not two and c["given"]:
            kw["name"] = c["given"]
        ax = None
        if c["where"] == "axes":
            fig.add_axes([0, 0, 0.4, 1])
            ax = fig.add_axes([0.5, 0, 0.4, 1])
            fig.sca(fig.axes[0])
            r = f(Z, *args, axes=ax, **kw)
        elif c["where"] == "fig":
            r = f(Z, *args, fig=fig, **kw)
        elif c["where"] == "plotter":
            p = (bp.ContourPlotter if two else bp.PDFPlotter)(*args, **kw)
            r = p(Z, fig=fig)
        else:
            r = f(Z, *args, **kw)
        if ax is None:
            require(len(fig.axes) == 1, "%d axes", len(fig.axes))
            ax = fig.axes[0]
        else:
            require(len(fig.axes) == 2, "%d axes instead of the two given", len(fig.axes))
        if two:
            require(r.axes is ax, "drawn on other axes")
            if c["levels"]:
                close(r.levels, np.linspace(0, want.max(), c["levels"] + 2)[1:-1], "levels",
                      rtol=1e-8)
            n = 0
            for lev, segs in zip(r.levels, r.allsegs):
                for s in segs:
                    for (a, b) in s:
                        i = int(np.clip(np.searchsorted(x, a) - 1, 0, len(x) - 2))
                        j = int(np.clip(np.searchsorted(y, b) - 1, 0, len(y) - 2))
                        p = (a - x[i]) / (x[i + 1] - x[i])
                        q = (b - y[j]) / (y[j + 1] - y[j])
                        v = ((1 - p) * (1 - q) * want[i, j] + p * (1 - q) * want[i + 1, j]
                             + (1 - p) * q * want[i, j + 1] + p * q * want[i + 1, j + 1])
                        close(v, lev, "density on a contour", rtol=1e-6, scale=want.max())
                        n += 1
            if want.max() > 1.01 * want.min() and c["levels"]:
                require(n > 0 or want.min() > r.levels.max(), "no contours")
        else:
            require(len(ax.lines) == 1 and r[0] is ax.lines[0], "one line on the given axes")
            close(ax.lines[0].get_xdata(), x, "grid")
            close(ax.lines[0].get_ydata(), want, "density", rtol=1e-7, atol=1e-12)
            name = c["given"] or (Z.name if nodes else "")
            require((name in ax.get_title()) and (name in ax.get_xlabel()), "name not shown")
            require(bool(name) or not ax.get_title(), "title without a name")
    unchanged(s0, nodes, "plotting")
    R.nontrivial(True)


# ---------------------------------------------------------------- Hinton diagrams


def gen_hin(d):
    k = d.choice(["g0", "g1", "g2", "gauss", "ga", "beta", "d", "bern", "c", "array", "cmc",
                  "gmc"])
    return dict(kind=k, P=d.shape(3, 3), S=d.shape({"g1": 1, "g2": 2}.get(k, 0), 3,
                                                   mindim={"g1": 1, "g2": 2}.get(k, 0)),
                K=d.int(2, 3), seed=d.seed(), rows=d.choice([None, None, 0, 1, 2, 3]),
                cols=d.choice([None, None, 0, 1, 2, 3]), scale=d.choice([0, 1, 1, 2]),
                neg=d.bool(), full=d.bool(2, 3), how=d.choice(["hinton", "plotter"]))


def boxes(ax):
    """Background extent, filled boxes and outlines: centre -> (width, height, colour)."""
    import matplotlib.colors as mc
    fill, line, back = {}, {}, None
    for p in ax.patches:
        b = p.get_path().transformed(p.get_patch_transform()).get_extents()
        ctr = (round((b.x0 + b.x1) / 2, 6), round((b.y0 + b.y1) / 2, 6))
        if p.get_fill():
            if np.allclose(p.get_facecolor(), mc.to_rgba("gray")):
                back = (b.x0, b.x1, b.y0, b.y1)
                continue
            require(ctr not in fill, "two boxes at %s", ctr)
            fill[ctr] = (b.width, b.height, tuple(p.get_facecolor()[:3]))
        else:
            require(ctr not in line, "two outlines at %s", ctr)
            line[ctr] = (b.width, b.height, tuple(p.get_edgecolor()[:3]))
    return back, fill, line


def is_hinton(ax, W, E, vmax):
    W = np.atleast_2d(W)
    h, w = W.shape
    back, fill, line = boxes(ax)
    require(back is not None, "no background")
    close(back, (0.5, w + 0.5, 0.5, h + 0.5), "size of the diagram")
    lo, hi = ax.get_ylim()
    close(lo, h + 0.5, "first row must be on top")
    close(hi, 0.5, "first row must be on top")
    require(len(fill) == W.size, "%d boxes for %d elements", len(fill), W.size)
    for i in range(h):
        for j in range(w):
            q = fill.get((j + 1.0, i + 1.0))
            require(q is not None, "no box at row %d column %d", i, j)
            close(q[0] * q[1], min(1, abs(W[i, j]) / vmax), "area of the box %d,%d" % (i, j),
                  rtol=1e-7, atol=1e-9)
            close(q[0], q[1], "box %d,%d is square" % (i, j), rtol=1e-6, atol=1e-7)
            if abs(W[i, j]) > 1e-9:
                require(q[2] == ((1, 1, 1) if W[i, j] > 0 else (0, 0, 0)), "colour of %r", W[i, j])
            if E is not None:
                q = line.get((j + 1.0, i + 1.0))
                require(q is not None, "no outline at row %d column %d", i, j)
                close(q[0] * q[1], min(1, (abs(W[i, j]) + np.atleast_2d(E)[i, j]) / vmax),
                      "area of the outline %d,%d" % (i, j), rtol=1e-7, atol=1e-9)
    if E is None:
        require(not line, "unexpected outlines")


def check_hin(c, R):
    import bayespy.nodes as N
    import bayespy.plot as bp
    rs = RS(c["seed"])
    k, P, S, K = c["kind"], tuple(c["P"]), tuple(c["S"]), c["K"]
    R.tag(k)
    nodes, kw, E = [], {}, None
    full = c["full"]

    def sub(sh):
        return sh if full else sh[-1:]
    gauss = k in ("g0", "g1", "g2", "gauss", "gmc")
    if gauss:
        if k == "gauss":
            X = N.Gaussian(rs.randn(K), dn.spd(rs, (), K), plates=P)
            S = (K,)
        elif k == "gmc":
            S = (K,)
            P = P[:1]
            X = N.GaussianMarkovChain(rs.randn(K), np.eye(K), 0.5 * rs.randn(K, K), np.ones(K),
                                      n=3, plates=P)
        else:
            X = N.GaussianARD(rs.randn(*sub(P + S)), 0.5 + rs.rand(*sub(P + S)), shape=S, plates=P)
        if full and k != "gmc":
            X.set_parameters(dn.random_phi("g", rs, P, S))
        if k == "gmc":
            shape = P + (3, K)
            u = X.get_moments()
            W = np.broadcast_to(u[0], shape)
            E = np.sqrt(np.einsum("...ii->...i", np.broadcast_to(u[1], shape + (K,))) - W ** 2)
        else:
            shape = P + S
            W, E = mean_std(X.get_moments(), shape, len(S))
        E = E * c["scale"]
        kw["scale"] = c["scale"]
        if c["scale"] == 0:
            E = None
        nodes = [X]
    elif k == "ga":
        X = N.Gamma(0.5 + rs.rand(*sub(P)), 0.5 + rs.rand(*sub(P)), plates=P)
        u = X.get_moments()
        W, nodes = np.broadcast_to(u[0], P), [X]
    elif k == "array":
        X = W = rs.randn(*P)
    elif k == "beta":
        P = P[:2]
        X = N.Beta(0.5 + 2 * rs.rand(*(sub(P) + (2,))), plates=P)
        W, nodes = np.broadcast_to(np.exp(X.get_moments()[0][..., 0]), P), [X]
    elif k == "d":
        P = P[:1]
        X = N.Dirichlet(0.5 + 2 * rs.rand(K), plates=P)
        if full:
            X.set_parameters(dn.random_phi("d", rs, P, (K,)))
        W, nodes = np.broadcast_to(np.exp(X.get_moments()[0]), P + (K,)), [X]
    elif k == "bern":
        P = P[:2]
        X = N.Bernoulli(rs.rand(*sub(P)), plates=P)
        W, nodes = np.broadcast_to(X.get_moments()[0], P), [X]
    elif k == "c":
        P = P[:1]
        X = N.Categorical(rs.dirichlet(np.ones(K)), plates=P)
        if full:
            X.set_parameters(dn.random_phi("c", rs, P, (K,)))
        W = np.broadcast_to(X.get_moments()[0], P + (K,))
        # two categories are drawn as a Bernoulli variable, with category 0 as the success (as in
        # Beta)
        W = W[..., 0] if K == 2 else np.squeeze(W)
        nodes = [X]
    else:
        P = P[:2]
        X = N.CategoricalMarkovChain(rs.dirichlet(np.ones(K)), rs.dirichlet(np.ones(K), size=K),
                                     states=4, plates=P)
        u = X.get_moments()
        W = np.concatenate([u[0][..., None, :], np.sum(u[1], axis=-2)], axis=-2)
        W = np.broadcast_to(W, P + (4, K))
        nodes = [X]
    W = np.asarray(W)
    layout = None
    if gauss or k in ("ga", "array"):
        if W.ndim == 0:
            raise Skip()
        r, cc = c["rows"], c["cols"]
        r = None if r is None else r % W.ndim
        cc = None if cc is None else cc % W.ndim
        if r is not None and r == cc:
            raise Skip()
        if r is not None:
            kw["rows"] = r - W.ndim if c["neg"] else r
        if cc is not None:
            kw["cols"] = cc - W.ndim if c["neg"] else cc
        # axes of length one do not count
        keep = [i for i in range(W.ndim) if W.shape[i] > 1 or i in (r, cc)]
        rest = [i for i in keep if i not in (r, cc)]
        if cc is None:
            cc = rest.pop() if rest else None
        if r is None:
            r = rest.pop() if rest else None
        if len(rest) > 2:
            raise Skip()
        order = rest + [i for i in (r, cc) if i is not None]
        drop = [i for i in range(W.ndim) if i not in order]

        def arrange(A):
            A = np.transpose(A, drop + order)
            A = A.reshape([W.shape[i] for i in order])
            if r is None:
                A = A[..., None, :] if cc is not None else A[..., None, None]
            elif cc is None:
                A = A[..., :, None]
            return A
        W2 = arrange(W)
        E2 = None if E is None else arrange(E)
        vmax = np.max(np.abs(W) + (0 if E is None else E))
        layout = tuple(W2.shape[:-2])
    elif k == "cmc":
        W2, E2, vmax, layout = np.swapaxes(W, -1, -2), None, 1, P
    else:
        W2, E2, vmax = W, None, 1
    s0 = snap(*nodes)
    with Figure() as fig:
        if k == "cmc":
            if c["how"] == "plotter":
                bp.CategoricalMarkovChainPlotter()(X, fig=fig)
            else:
                bp.timeseries_categorical_mc(X, fig=fig)
        elif c["how"] == "plotter" and layout is not None:
            bp.HintonPlotter(**kw)(X, fig=fig)
        else:
            bp.hinton(X, **kw)
        if layout is None:
            require(len(fig.axes) == 1, "%d axes", len(fig.axes))
            is_hinton(fig.axes[0], W2, E2, vmax)
        else:
            lay = ((1, 1) + layout)[-2:]
            require(len(fig.axes) == np.prod(lay), "%d subplots for plates %s", len(fig.axes),
                    layout)
            for ax in fig.axes:
                sp = ax.get_subplotspec()
                ix = (sp.rowspan.start, sp.colspan.start)
                g = sp.get_gridspec()
                require((g.nrows, g.ncols) == lay, "layout %s for plates %s", (g.nrows, g.ncols),
                        layout)
                ix = ix[2 - len(layout):]
                is_hinton(ax, W2[ix], None if E2 is None else E2[ix], vmax)
    unchanged(s0, nodes, "plotting")
    R.nontrivial(W2.size > 1)


# ---------------------------------------------------------------- ellipses


def gen_ell(d):
    return dict(K=d.int(1, 4), seed=d.seed(), scale=d.choice([None, 1, 2, 3]), alpha=d.bool(),
                latent=d.bool(), n=d.int(1, 4), obs=d.choice(["no", "all", "part"]),
                fill=d.bool(), kind=d.choice(["mixture", "mixture", "cov", "precision"]),
                axes=d.bool())


CIRC = np.stack([np.cos(np.arange(0, 6.2, 0.7)), np.sin(np.arange(0, 6.2, 0.7))], -1)


def check_ell(c, R):
    import bayespy.nodes as N
    import bayespy.plot as bp
    import matplotlib.patches as mp
    rs = RS(c["seed"])
    K = c["K"]
    R.tag(c["kind"], c["obs"])
    kw = {} if c["scale"] is None else dict(scale=c["scale"])
    scale = 2 if c["scale"] is None else c["scale"]
    mu, L = 3 * rs.randn(K, 2), dn.spd(rs, (K,), 2)
    if c["kind"] != "mixture":
        dist = []
        for s in (1, 3):
            f = bp.ellipse_from_cov if c["kind"] == "cov" else bp.ellipse_from_precision
            e = f(mu[0], np.linalg.inv(L[0]) if c["kind"] == "cov" else L[0], scale=s)
            p = e.get_patch_transform().transform(CIRC) - mu[0]
            q = np.sqrt(np.einsum("ni,ij,nj->n", p, L[0], p))
            close(q, np.full(len(q), q[0]), "outline at one Mahalanobis distance", rtol=1e-6)
            dist.append(q[0])
        close(dist[1], 3 * dist[0], "scale of the ellipse", rtol=1e-6)
        R.nontrivial(True)
        return
    nodes = []
    if c["latent"]:
        m = N.Gaussian(mu, 5 * np.eye(2), plates=(K,))
        La = N.Wishart(4 + rs.rand(K), np.linalg.inv(L) * 4, plates=(K,))
        nodes += [m, La]
        L = np.asarray(La.get_moments()[0])
    else:
        m, La = mu, L
    al = N.Dirichlet(0.5 + 3 * rs.rand(K))
    Z = N.Categorical(al, plates=(c["n"],))
    X = N.Mixture(Z, N.Gaussian, m, La, plates=(c["n"],))
    nodes += [al, Z, X]
    M = np.zeros(c["n"], dtype=bool)
    data = 2 * rs.randn(c["n"], 2)
    if c["obs"] == "all":
        X.observe(data)
        M[:] = True
    elif c["obs"] == "part":
        M = rs.rand(c["n"]) < 0.6
        X.observe(data, mask=M)
    s0 = snap(*nodes)
    with Figure() as fig:
        ax = fig.add_subplot(111)
        if c["axes"]:
            fig.sca(fig.add_axes([0, 0, 0.3, 0.3]))
        a = al if c["alpha"] else None
        bp.gaussian_mixture_2d(X, alpha=a, fill=c["fill"], **(dict(axes=ax) if c["axes"] else {}),
                               **kw)
        if c["axes"]:
            require(not fig.axes[1].has_data(), "drawn on other axes")
        es = [x for x in ax.get_children() if isinstance(x, mp.Ellipse)]
        require(len(es) == K, "%d ellipses for %d clusters", len(es), K)
        if c["alpha"]:
            p = np.exp(al.get_moments()[0])
            p = p / p.sum()
            vis = p * np.sqrt(np.linalg.det(L))
            vis = vis / vis.max()
        else:
            vis = np.ones(K)
        for k, e in enumerate(es):
            p = e.get_patch_transform().transform(CIRC) - mu[k]
            q = np.sqrt(np.einsum("ni,ij,nj->n", p, L[k], p))
            close(q, np.full(len(q), float(scale)), "outline of cluster %d" % k, rtol=1e-6)
            close(e.get_alpha(), vis[k], "visibility of cluster %d" % k, rtol=1e-7)
            require(bool(e.get_fill()) == c["fill"], "fill")
        pts = [np.stack(l.get_data(), -1) for l in ax.lines]
        pts = np.concatenate(pts) if pts else np.zeros((0, 2))
        close(pts, data[M], "drawn data", rtol=1e-12)
    unchanged(s0, nodes, "plotting")
    R.nontrivial(K > 1)


# ---------------------------------------------------------------- engine


def gen_eng(d):
    return dict(seed=d.seed(), n=d.int(1, 4), plotters=[d.bool(2, 3) for _ in range(4)],
                ops=[dict(op=d.choice(["plot", "plot-some", "update", "update-all", "update-some",
                                       "node", "iter", "diff", "many"]), i=d.int(0, 3), j=d.int(0, 3),
                          n=d.int(1, 2)) for _ in range(d.int(1, 6))])


def check_eng(c, R):
    import bayespy.nodes as N
    from bayespy.inference import VB
    import matplotlib.pyplot as plt
    rs = RS(c["seed"])
    n = c["n"]
    mu = N.GaussianARD(0, 0.1, name="mu")
    tau = N.Gamma(1, 1, name="tau")
    x = N.GaussianARD(mu, 1.0, plates=(n,), name="x")
    y = N.GaussianARD(x, tau, name="y")
    y.observe(rs.randn(n))
    nodes = [y, x, mu, tau]
    calls, figs = [], {}

    def plotter(node, fig=None, extra=None):
        require(not fig.axes, "the figure of %s was not cleared", node.name)
        fig.add_subplot(111)
        calls.append((node.name, [np.array(u) for u in node.get_moments()], fig.number, extra))
        return "made by %s" % node.name
    for nd, on in zip(nodes, c["plotters"]):
        if on:
            nd.set_plotter(plotter)
        require(nd.has_plotter() == on, "has_plotter of %s", nd.name)
    on = [nd for nd, o in zip(nodes, c["plotters"]) if o]
    Q = VB(*nodes, tol=-np.inf)
    with Figure():
        for op in c["ops"]:
            k = op["op"]
            R.tag(k)
            a, b = nodes[op["i"]], nodes[op["j"]]
            calls.clear()
            s0, L0 = snap(*nodes), float(Q.compute_lowerbound())
            want = None
            if k == "plot":
                Q.plot()
                want = [nd.name for nd in on]
            elif k == "plot-some":
                Q.plot(a, b.name, extra=op["n"])
                want = [nd.name for nd in (a, b) if nd in on]
                require(all(q[3] == op["n"] for q in calls), "arguments of the plotter")
            elif k == "node":
                f = plt.figure()
                if a in on:
                    r = a.plot(fig=f)
                    require(r == "made by %s" % a.name, "result of the plotter")
                    require(a.name in f._suptitle.get_text(), "title")
                    calls.clear()
                plt.close(f)
            elif k == "update":
                Q.update(a, verbose=False)
                want = []
            elif k == "update-all":
                Q.update(plot=True, repeat=op["n"], verbose=False)
                want = [nd.name for nd in on] * op["n"]
            elif k == "many":
                # exactly as many iterations as there is room for
                Q.update(repeat=100 - Q.iter, verbose=False)
                want = []
            elif k == "update-some":
                Q.update(plot=[a.name, b], repeat=op["n"], verbose=False)
                want = [nd.name for nd in nodes if nd in on and nd in (a, b)] * op["n"]
            else:
                # no iterations: nothing to show
                if Q.iter >= (2 if k == "diff" else 1):
                    f = plt.figure()
                    Q.plot_iteration_by_nodes(diff=(k == "diff"))
                    ax = f.axes[0]
                    require(len(ax.lines) == len(nodes), "%d lines for the bound", len(ax.lines))
                    names = [t.get_text() for t in ax.get_legend().get_texts()]
                    for nm, l in zip(names, ax.lines):
                        nd = [q for q in nodes if q.name == nm][0]
                        v = Q.l[nd][:Q.iter]
                        t = np.arange(1, Q.iter + 1)
                        if k == "diff":
                            v, t = np.diff(v), t[1:]
                        ok = np.isfinite(l.get_ydata())
                        close(l.get_ydata()[ok], v, "bound terms of %s" % nm, rtol=1e-9)
                        close(l.get_xdata()[ok], t, "iterations of %s" % nm)
                    plt.close(f)
            if not k.startswith("update") and k != "many":
                unchanged(s0, nodes, k)
                require(float(Q.compute_lowerbound()) == L0, "plotting changed the bound")
            if want is not None:
                require([q[0] for q in calls] == want, "plotted %s instead of %s",
                        [q[0] for q in calls], want)
                last = {}
                for nm, u, num, _ in calls:
                    require(figs.setdefault(nm, num) == num, "the figure of %s changed", nm)
                    last[nm] = u
                require(len(set(figs.values())) == len(figs), "two nodes share a figure")
                for nm, u in last.items():
                    nd = [q for q in nodes if q.name == nm][0]
                    for p, q in zip(u, nd.get_moments()):
                        close(p, q, "state of %s when it was plotted" % nm, rtol=1e-12)
    R.nontrivial(len(on) > 1)


# ---------------------------------------------------------------- marginals, arrays


def gen_arr(d):
    return dict(kind=d.choice(["marginals", "marginals", "error", "contour", "matrix", "binary"]),
                seed=d.seed(), D=d.int(1, 3), n=d.int(2, 6), m=d.int(2, 6), x=d.bool(),
                lower=d.choice(["no", "error", "lower", "upper", "both"]), axes=d.bool())


def check_arr(c, R):
    import bayespy.nodes as N
    import bayespy.plot as bp
    rs = RS(c["seed"])
    k, D = c["kind"], c["D"]
    R.tag(k)
    with Figure() as fig:
        kw = {}
        if c["axes"]:
            kw["axes"] = fig.add_axes([0.5, 0, 0.5, 0.5])
            fig.sca(fig.add_axes([0, 0, 0.4, 0.4]))
        if k == "marginals":
            a, b = 1 + 3 * rs.rand(), 0.5 + 2 * rs.rand()
            m, L = rs.randn(D), dn.spd(rs, (), D)
            X = N.GaussianGamma(m, L, a, b)
            s0 = snap(X)
            V = np.linalg.inv(L)
            axes = bp.plotmatrix(X)
            require(np.shape(axes) == (D + 1, D + 1), "%s subplots", np.shape(axes))
            for i in range(D):
                for j in range(D):
                    if i == j:
                        require(len(axes[i, i].lines) == 1, "no marginal density")
                        x, y = axes[i, i].lines[0].get_data()
                        close(y, stats.t.pdf(x, 2 * a, m[i], np.sqrt(V[i, i] * b / a)),
                              "marginal density of element %d" % i, rtol=1e-7)
                        require(x.min() < m[i] < x.max(), "range of the marginal")
                        continue
                    t = stats.multivariate_t([m[i], m[j]], V[np.ix_([i, j], [i, j])] * b / a,
                                             2 * a)
                    peak = float(t.pdf([m[i], m[j]]))
                    v = [p.vertices for q in axes[i, j].collections for p in q.get_paths()]
                    require(len(v) > 0, "no joint density of %d and %d", i, j)
                    n = 0
                    devs = []
                    for q in axes[i, j].collections:
                        for p, lev in zip(q.get_paths(), q.levels):
                            if len(p.vertices):
                                n += 1
                                devs.append([np.max(np.abs(t.pdf(p.vertices[:, ::o]) - lev))
                                             for o in (1, -1)])
                    require(n > 0, "no contours")
                    # either of the two elements may be on the horizontal axis
                    require(np.min(np.max(devs, axis=0)) < 0.02 * peak,
                            "joint density of %d and %d: off by %s of the peak %s", i, j,
                            np.max(devs, axis=0), peak)
            require(len(axes[D, D].lines) == 1, "no density of the scale")
            x, y = axes[D, D].lines[0].get_data()
            ok = x > 0
            close(y[ok], stats.gamma.pdf(x[ok], a, scale=1 / b), "density of the scale", rtol=1e-7)
            unchanged(s0, [X], "plotting")
            R.nontrivial(D > 1)
            return
        n, m = c["n"], c["m"]
        x = np.sort(rs.uniform(-3, 3, n)) + 0.2 * np.arange(n)
        if k == "error":
            y = rs.randn(n)
            lo, hi = rs.rand(n), rs.rand(n)
            w = c["lower"]
            if w == "error":
                kw["error"], hi = lo, lo
            elif w in ("lower", "upper"):
                kw[w], hi = lo, lo
            elif w == "both":
                kw["lower"], kw["upper"] = lo, hi
            if c["x"]:
                kw["x"] = x
            else:
                x = np.arange(n)
            bp.errorplot(y, **kw)
            ax = fig.axes[0]
            close(ax.lines[0].get_xdata(), x, "x")
            close(ax.lines[0].get_ydata(), y, "y")
            require(len(ax.collections) == (w != "no"), "%d bands", len(ax.collections))
            if w != "no":
                v = np.concatenate([p.vertices for p in ax.collections[0].get_paths()])
                for t in range(n):
                    b = v[np.abs(v[:, 0] - x[t]) < 1e-9, 1]
                    close([b.min(), b.max()], [y[t] - lo[t], y[t] + hi[t]], "band", rtol=1e-9)
        elif k == "contour":
            y = np.sort(rs.uniform(-3, 3, m)) + 0.2 * np.arange(m)
            A, B, C = rs.randn(3)
            Z = A * x + (B * y)[:, None] + C
            bp.contourplot(x, y, Z.ravel() if c["x"] else Z, filled=False, **kw)
            q = fig.axes[0].collections[0]
            for lev, p in zip(q.levels, q.get_paths()):
                if len(p.vertices):
                    close(A * p.vertices[:, 0] + B * p.vertices[:, 1] + C,
                          np.full(len(p.vertices), lev), "function on a contour", rtol=1e-8)
        else:
            Z = rs.randn(n, m)
            if k == "binary":
                Z = Z > 0
                bp.binary_matrix(Z, **kw)
                want = np.where(Z[..., None], [0., 0, 0], [1., 1, 1])
            else:
                bp.matrixplot(Z, **kw)
                want = Z
            im = fig.axes[0].images[0]
            close(im.get_array(), want, "image", rtol=1e-12)
            e = im.get_extent()
            require(e == (-0.5, m - 0.5, n - 0.5, -0.5) or list(e) == [-0.5, m - 0.5, n - 0.5, -0.5],
                    "extent %s", e)
        if c["axes"]:
            require(not fig.axes[1].has_data(), "drawn on other axes")
    R.nontrivial(n > 2)


SUBS = [
    Sub("function", gen_fun, check_fun, 300, 5000, rule="two or more functions"),
    Sub("density", gen_dens, check_dens, 300, 5000, rule="every case"),
    Sub("hinton", gen_hin, check_hin, 300, 5000, rule="more than one element"),
    Sub("ellipses", gen_ell, check_ell, 300, 5000, rule="more than one cluster"),
    Sub("arrays", gen_arr, check_arr, 150, 3000, rule="two or more elements or points"),
    Sub("engine", gen_eng, check_eng, 200, 3000, rule="more than one node with a plotter"),
]
