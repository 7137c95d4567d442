"""C21: gradient steps, conjugate gradient optimisation and pattern search.

Oracle: a gradient step moves the natural parameters of all given variables simultaneously from
their current values towards the coordinate optima found by ordinary updates of a model in the
same state.  Optimisers must never lose lower bound (independently evaluated), must record the
bound of the state they leave, leave all other variables as they were, and end with the collapsed
variables at their optimum.
"""
import warnings
import numpy as np
from vlib import zoo, dense as dn
from vlib.harness import Sub, require, close, Violation

GRAD = ("gard", "gauss", "gamma", "dirichlet", "beta", "cat", "multinomial")


def setup(d, **kw):
    m = zoo.draw_model(d, **kw)
    m["mode"] = d.int(0, 2)
    m["sel"] = d.int(0, 63)
    m["collapsed"] = d.int(0, 63)
    return m


def start(case):
    from bayespy.inference import VB
    m = zoo.Model(case, names=True)
    m.init_random(case["seed"], mode=case["mode"])
    lat = [i for i in m.latents() if m.recs[i]["own_t"] not in ("cnt", "mn")]
    if not lat or len(lat) != len(m.latents()):
        return None
    Q = VB(*[m.nodes[i] for i in m.stoch], tol=-np.inf)
    return m, lat, Q


def gen_step(d):
    m = setup(d)
    m["scale"] = d.choice([1.0, 0.5, 0.1, 0.9, 0.0, 1.3])
    m["via"] = d.choice(["step", "step", "add"])
    return m


def check_step(case, R):
    st = start(case)
    if st is None:
        return
    m, lat, Q = st
    sel = [i for k, i in enumerate(lat) if case["sel"] >> k & 1] or [lat[0]]
    old = {i: m.phi(i) for i in lat}
    want = {}
    s = case["scale"]
    for i in sel:
        m.nodes[i].update()
        opt = m.phi(i)
        m.nodes[i].set_parameters([np.array(p) for p in old[i]])
        want[i] = [a + s * (b - a) for a, b in zip(old[i], opt)]
        rec = m.recs[i]
        if rec["own_t"] not in ("g", "gauss", "ga", "gg", "d", "c") and s > 1 or not ok(rec, want[i]):
            return
    before = Q.compute_lowerbound()
    names = [m.nodes[i].name if k % 2 else m.nodes[i] for k, i in enumerate(sel)]
    if case["via"] == "step":
        Q.gradient_step(*names, scale=s)
    else:
        p = Q.get_parameters(*names)
        g = Q.get_gradients(*names)
        q = Q.add(p, g, scale=s)
        tot = sum(float(np.sum(np.asarray(a) * b)) for x, y in zip(p, g) for a, b in zip(x, y))
        mag = sum(float(np.sum(np.abs(np.asarray(a) * b))) for x, y in zip(p, g)
                  for a, b in zip(x, y))
        same = all(np.shape(a) == np.shape(b) for x, y in zip(p, g) for a, b in zip(x, y))
        if same:
            close(Q.dot(p, g), tot, "dot product of parameters and gradients", rtol=1e-10,
                  atol=1e-12, scale=mag)
        for i in lat:
            for a, b in zip(m.phi(i), old[i]):
                require(np.array_equal(a, b), "computing a step changed the state")
        Q.set_parameters(q, *names)
    for i in lat:
        what = "node %d (%s)" % (i, m.recs[i]["op"])
        if i in sel:
            for k, (a, b) in enumerate(zip(m.phi(i), want[i])):
                close(a, b, "%s: parameter %d after the gradient step" % (what, k), rtol=1e-9,
                      atol=1e-9, scale=max(np.max(np.abs(b)), 1))
        else:
            for a, b in zip(m.phi(i), old[i]):
                require(np.array_equal(a, b), "%s changed by a step of other variables", what)
    now = Q.compute_lowerbound()
    mine = m.mirrorL()
    close(now, mine, "bound after the gradient step", rtol=1e-8, atol=1e-7, scale=m.Lscale())
    if len(sel) == 1 and 0 <= s <= 1:
        # KL(q_s || q_opt) is a Bregman divergence, decreasing along the segment of
        # natural parameters
        require(now >= before - 1e-8 * m.Lscale() - 1e-7,
                "a partial step of one variable decreases the bound: %.12g -> %.12g", before, now)
    R.nontrivial(s != 0 and any(np.any(m.active[i] & ~m.observed(i)) for i in sel))
    R.tag(case["via"])


def ok(rec, phi):
    t, S = rec["own_t"], rec["own_shape"]
    P = rec["own"]
    if t in ("g", "gauss"):
        h, L = dn.gauss_from_phi(phi, P, S)
        return bool(np.all(np.linalg.eigvalsh(L) > 1e-8))
    if t == "gg":
        h, L = dn.gauss_from_phi(phi, P, S)
        if not np.all(np.linalg.eigvalsh(L) > 1e-8):
            return False
        b = -dn.bc(phi[2], P, ()) - 0.5 * np.sum(h * np.linalg.solve(L, h[..., None])[..., 0], axis=-1)
        return bool(np.all(np.asarray(phi[3]) > 0) and np.all(b > 1e-8))
    if t == "ga":
        return bool(np.all(np.asarray(phi[0]) < 0) and np.all(np.asarray(phi[1]) > 0))
    if t == "d":
        return bool(np.all(np.asarray(phi[0]) > 1e-8))
    return True


def guard(Q, limit=400):
    """Make an endless search visible: the bound is evaluated once per trial point."""
    orig = Q.compute_lowerbound
    n = [0]

    def f(*a, **k):
        n[0] += 1
        if n[0] > limit:
            raise Violation("the search does not end (%d evaluations of the bound)" % n[0])
        return orig(*a, **k)
    Q.compute_lowerbound = f
    return n


def gen_opt(d):
    m = setup(d)
    m["pre"] = d.choice([0, 1, 2, 0, 1, 40])
    m["method"] = d.choice(["gradient", "fletcher-reeves", "fletcher-reeves"])
    m["riemannian"] = d.bool(2, 3)
    m["iters"] = d.int(1, 4)
    m["change"] = d.choice([None, None, "move", "anneal"])
    m["how"] = d.choice(["optimize", "optimize", "pattern"])
    return m


def snapshot(m, i):
    return m.phi(i)


def check_opt(case, R):
    st = start(case)
    if st is None:
        return
    m, lat, Q = st
    how = case["how"]

    def graded(i):
        rec = m.recs[i]
        op = rec["op"] if rec["op"] != "mixture" else rec["cls"]
        return op in GRAD and not (rec["own_t"] == "g" and len(rec["own_shape"]) > 1)
    can = lat if (how == "pattern" or case["riemannian"] and case["method"] == "gradient") \
        else [i for i in lat if graded(i)]
    sel = [i for k, i in enumerate(can) if case["sel"] >> k & 1] or can[:1]
    if not sel:
        return
    col = [i for k, i in enumerate(lat) if i not in sel and case["collapsed"] >> k & 1]
    rest = [i for i in lat if i not in sel and i not in col]
    for _ in range(case["pre"]):
        Q.update(verbose=False)
    if case["change"] == "move":
        # the state moves between the iterations, e.g. parameters are set by hand
        m.init_random(case["seed"] + 3, mode=0)
    if case["change"] == "anneal" and not any(m.recs[i]["own_t"] == "w" for i in lat):
        Q.set_annealing(0.7)
    L0 = Q.compute_lowerbound()
    if not np.isfinite(L0):
        return
    sc = m.Lscale()
    old = {i: m.phi(i) for i in rest}
    n0 = Q.iter
    n = guard(Q)
    nodes = [m.nodes[i] for i in sel]
    cols = [m.nodes[i].name for i in col]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            if how == "optimize":
                Q.optimize(*nodes, maxiter=case["iters"], verbose=False, method=case["method"],
                           riemannian=case["riemannian"], collapsed=cols)
                require(Q.iter == n0 + case["iters"], "%d iterations recorded, should be %d",
                        Q.iter - n0, case["iters"])
            else:
                Q.pattern_search(*nodes, collapsed=cols, maxiter=case["iters"])
                require(Q.iter == n0 + 1, "%d iterations recorded, should be 1", Q.iter - n0)
    del Q.compute_lowerbound
    what = "%s(%s) of %s" % (how, case["method"], [m.recs[i]["op"] for i in sel])
    rec = [float(x) for x in Q.L[n0:Q.iter]]
    now = float(Q.compute_lowerbound())
    for i in lat:
        require(not np.all(m.active[i]) or ok(m.recs[i], m.phi(i)), "%s: variable %d (%s) is not a probability distribution",
                what, i, m.recs[i]["op"])
    # a saturated variable (huge natural parameters) cancels in the bound up to rounding
    big = max([float(np.max(np.abs(p))) for i in lat for p in m.phi(i)])
    noise = 64 * np.finfo(float).eps * big
    if not noise < 1:
        R.tag("saturated")
        return
    tol = 1e-7 * max(sc, m.Lscale()) + 1e-6 + noise
    seq = [float(L0)] + rec
    for a, b in zip(seq, seq[1:]):
        require(np.isfinite(b), "%s: bound %s", what, seq)
        require(b >= a - tol, "%s: bound decreases: %s", what, seq)
    close(rec[-1], now, "%s: recorded bound and the bound of the state" % what, rtol=1e-10,
          atol=1e-9, scale=sc)
    if m.nodes[sel[0]].annealing == 1:
        close(now, m.mirrorL(), "%s: reported and independently evaluated bound" % what,
              rtol=1e-7, atol=1e-6 + noise, scale=max(sc, m.Lscale()))
    for i in rest:
        for a, b in zip(m.phi(i), old[i]):
            require(np.array_equal(a, b), "%s changed another variable, %d (%s)", what, i,
                    m.recs[i]["op"])
    # the collapsed variables are at their optimum: the last updated one exactly
    if col:
        i = col[-1]
        a = m.phi(i)
        m.nodes[i].update()
        for x, y in zip(a, m.phi(i)):
            close(x, y, "%s: collapsed variable %d (%s) is not at its optimum"
                  % (what, i, m.recs[i]["op"]), rtol=1e-8, atol=1e-8,
                  scale=np.max(np.abs(y)) + 1)
        R.tag("collapsed")
    R.nontrivial(now - L0 > 1e-3)
    R.tag(how, case["method"], "iter%d" % min(n0, 1), "change:%s" % case["change"])


SUBS = [
    Sub("step", gen_step, check_step, 4000, 120000,
        rule="counts when a variable with observed descendants moved"),
    Sub("search", gen_opt, check_opt, 2500, 80000,
        rule="counts when the bound increased by more than 0.001"),
]
