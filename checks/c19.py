"""C19: the inference engine's bookkeeping (iterations, bounds, convergence, callbacks)."""
import contextlib
import io
import logging
import re
import time
import warnings
import numpy as np
from vlib import zoo
from vlib.harness import Sub, require, close, raises


class Counter:
    """A stand-in for a progress bar constructor."""

    def __init__(self):
        self.totals, self.n = [], 0

    def __call__(self, total=None):
        self.totals.append(total)
        return self

    def update(self, *a):
        self.n += 1


def gen(d):
    m = zoo.draw_model(d, maxnodes=5)
    m["tol"] = d.choice([0.0, 1e-5, 1e-2, 0.3, -1.0])
    m["cb"] = d.choice(["none", "scalar", "array", "silent", "matrix", "row"])
    m["ops"] = []
    for _ in range(d.int(1, 5)):
        op = d.choice(["update", "update", "one", "pair", "anneal", "ignore", "grad", "names",
                       "long", "worse"])
        m["ops"].append(dict(op=op, n=d.int(1, 4), i=d.int(0, 7), j=d.int(0, 7),
                             tol=d.choice([None, None, 0.0, 1e-3, 0.5, -1.0]), tqdm=d.bool(1, 4),
                             seed=d.seed(), beta=d.choice([0.5, 1.0]), verbose=d.bool(1, 3),
                             log=d.choice([None, None, True, False])))
    m["long"] = d.bool(1, 12)
    # An independent observation which shifts the bound such that it crosses zero
    m["cross"] = d.choice([None, None, 0.3, 0.5, 0.9])
    if m["cross"] is not None:
        m["tol"] = d.choice([0.3, 1.5, 2.5])
    return m


class Output:
    """What the engine tells the user, by printing or by logging."""

    def __init__(self, Q, log):
        self.Q, self.log = Q, log
        self.printed, self.logged = io.StringIO(), []
        self.logger = logging.getLogger("bayespy")
        self.handler = logging.Handler()
        self.handler.emit = lambda r: self.logged.append(r.getMessage())

    def __enter__(self):
        if self.log is not None:
            self.Q.use_logging(self.log)
        self.level = self.logger.level
        self.logger.setLevel(logging.INFO)
        self.logger.addHandler(self.handler)
        self.redirect = contextlib.redirect_stdout(self.printed)
        self.redirect.__enter__()
        return self

    def __exit__(self, *a):
        self.redirect.__exit__(*a)
        self.logger.removeHandler(self.handler)
        self.logger.setLevel(self.level)

    def check(self, iters, Ls, conv):
        printed, logged = self.printed.getvalue(), "\n".join(self.logged)
        if self.log is not None:
            self.Q.logs = self.log
        text, other = (logged, printed) if getattr(self.Q, "logs", False) else (printed, logged)
        require("loglike" not in other, "printed although it should log, or the other way round")
        got = re.findall(r"Iteration (\d+).*?loglike=(\S+)", text)
        require([int(k) for k, _ in got] == list(iters), "iterations %s reported, %s done",
                [k for k, _ in got], list(iters))
        close([float(L) for _, L in got], [Ls[k - 1] for k in iters], "reported bound", rtol=1e-5,
              atol=1e-5)
        require(("onverged" in text) == bool(conv and len(iters)), "reported convergence: %s", text)


def check(case, R):
    from bayespy.inference import VB
    from bayespy.nodes import GaussianARD
    a = zoo.Model(case, names=True)         # driven by the engine
    b = zoo.Model(case, names=True)         # the same operations done by hand
    for m in (a, b):
        m.init_random(case["seed"])
    lat = a.latents()
    if not lat:
        return
    nodes = [a.nodes[i] for i in a.stoch]
    bn = [b.nodes[i] for i in b.stoch]
    if case["cross"] is not None:
        c = zoo.Model(case, names=True)
        c.init_random(case["seed"])
        L = []
        for _ in range(3):
            for i in c.stoch:
                c.nodes[i].update()
            L.append(float(sum(c.nodes[i].lower_bound_contribution() for i in c.stoch)))
        shift = -(L[0] + case["cross"] * (L[1] - L[0]))
        if abs(shift) > 300:
            return
        for x in (nodes, bn):
            off = GaussianARD(0.0, 2 * np.pi * np.exp(2 * shift), name="offset")
            off.observe(0.0)
            x.append(off)
        R.tag("bound near zero")
    calls = []

    def cb():
        calls.append(float(sum(n.lower_bound_contribution() for n in nodes)))
        k = len(calls)
        return {"scalar": float(k), "array": np.array([k, -k, 0.5]), "silent": None,
                "matrix": [[k, 2 * k, 3], [-k, 0, k * k]],
                "row": np.full((1, 2), float(k))}[case["cb"]]
    Q = VB(*(nodes + nodes[:1]), tol=case["tol"], callback=None if case["cb"] == "none" else cb)
    require(len(Q.model) == len(nodes), "a node given twice is counted twice")
    Ls, terms, conv = [], [], False
    fresh_anneal = ignore = False
    stopped = 0
    for op in case["ops"]:
        kind = op["op"]
        op = dict(op)
        if kind == "anneal":
            if any(r["op"] == "wishart" for r in a.recs):
                # annealing much could make a Wishart distribution improper
                op["beta"] = 1 - 0.1 * (1 - op["beta"])
            Q.set_annealing(op["beta"])
            for n in bn:
                n.annealing = op["beta"]
            fresh_anneal, conv = True, False
            require(not Q.converged, "still converged after the annealing changed")
            continue
        if kind == "ignore":
            ignore = not ignore
            Q.ignore_bound_checks = ignore
            continue
        if kind == "worse":
            # move the variables elsewhere, so that the bound usually decreases
            for m in (a, b):
                m.init_random(op["seed"])
            kind = "one"
        p, q = lat[op["i"] % len(lat)], lat[op["j"] % len(lat)]
        order = {"one": [p], "pair": [p, q], "names": [q, p]}.get(kind, list(a.stoch))
        repeat = op["n"]
        if kind == "long" and case["long"]:
            repeat = 105
        bar = Counter() if op["tqdm"] else None
        # by hand
        warned = 0
        n = 0
        while n < repeat:
            for i in order:
                b.nodes[i].update()
            n += 1
            t = [float(x.lower_bound_contribution()) for x in bn]
            L = sum(t)
            conv = False
            if not ignore and not fresh_anneal and Ls:
                L0 = Ls[-1]
                warned += L0 - L > 1e-6
                tol = case["tol"] if op["tol"] is None else op["tol"]
                with np.errstate(all="ignore"):
                    div = 0.5 * (abs(L0) + abs(L))
                    r = np.float64(L - L0) / div
                    err = 1e-9 + 1e-11 * np.float64(sum(np.abs(t))) / div
                if not abs(r - tol) > err or abs(L0 - L - 1e-6) < 1e-7:
                    return                      # undecidable by rounding
                conv = bool(r < tol)
            fresh_anneal = False
            Ls.append(L)
            terms.append(t)
            if conv:
                stopped += 1
                break
        # by the engine
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            args = {"one": [nodes[a.stoch.index(p)]],
                    "pair": ["n%d" % p, a.nodes[q]],
                    "names": ["n%d" % q, "n%d" % p]}.get(kind, [])
            t0 = time.time()
            with Output(Q, op.get("log")) as out:
                Q.update(*args, repeat=repeat, tol=op["tol"], tqdm=bar, verbose=op["verbose"])
            spent = time.time() - t0
        k = len(Ls)
        out.check(range(k - n + 1, k + 1) if op["verbose"] else [], Ls, conv)
        require(int(Q.iter) == k, "%d iterations counted, %d done", int(Q.iter), k)
        close(Q.L[:k], Ls, "lower bound of every iteration", rtol=1e-9, scale=1.0)
        require(np.all(np.isnan(Q.L[k:])), "bounds recorded for future iterations")
        require(len(Q.L) >= k and len(Q.cputime) == len(Q.L), "length of statistics")
        require(np.all(Q.cputime[:k] >= 0) and np.all(np.isfinite(Q.cputime[:k])),
                "computation times missing")
        require(np.sum(Q.cputime[k - n:k]) <= spent + 1, "computation times longer than the run")
        for j, x in enumerate(nodes):
            close(Q.get_iteration_by_nodes()[x][:k], [t[j] for t in terms],
                  "bound term of every iteration", rtol=1e-8, scale=1.0 + abs(Ls[-1]))
        require(bool(Q.has_converged()) == conv, "convergence %s, should be %s",
                Q.has_converged(), conv)
        nw = sum("Lower bound decreased" in str(x.message) for x in w)
        require(nw == warned, "%d warnings of a decreased bound, should be %d", nw, warned)
        if bar:
            require(bar.totals == [repeat] and bar.n == n, "progress bar: total %s, %d updates",
                    bar.totals, bar.n)
        if case["cb"] != "none":
            require(len(calls) == k, "callback called %d times in %d iterations", len(calls), k)
            close(calls, Ls, "state seen by the callback", rtol=1e-9, scale=1.0)
        if case["cb"] == "scalar":
            close(Q.callback_output, np.arange(1, k + 1.0), "callback output", rtol=0)
        elif case["cb"] == "array":
            s = np.arange(1, k + 1.0)
            close(Q.callback_output, [s, -s, 0 * s + 0.5], "callback output", rtol=0)
        elif case["cb"] == "matrix":
            s = np.arange(1, k + 1.0)
            close(Q.callback_output, [[s, 2 * s, 0 * s + 3], [-s, 0 * s, s * s]],
                  "callback output", rtol=0)
        elif case["cb"] == "row":
            s = np.arange(1, k + 1.0)
            close(Q.callback_output, [[s, s]], "callback output", rtol=0)
        else:
            require(Q.callback_output is None, "callback output without any output")
        for i in a.stoch:
            for x, y in zip(a.own_moments(i), b.own_moments(i)):
                close(x, y, "node %d (%s) after engine update" % (i, a.recs[i]["op"]),
                      rtol=1e-8, atol=1e-10)
        close(Q.compute_lowerbound(), Ls[-1], "compute_lowerbound", rtol=1e-9, scale=1.0)
        tt = Q.compute_lowerbound_terms()
        close(sum(tt.values()), Ls[-1], "sum of terms", rtol=1e-9, scale=1.0)
        for j, x in enumerate(nodes):
            close(tt[x], terms[-1][j], "compute_lowerbound_terms", rtol=1e-8,
                  scale=1.0 + abs(Ls[-1]))
        one = Q.compute_lowerbound_terms(nodes[0])
        require(list(one) == [nodes[0]], "terms of the requested nodes only")
        R.tag(kind, "converged" if conv else "not converged")
    before = len(Ls)
    close(Q.loglikelihood_lowerbound(), Q.compute_lowerbound(), "loglikelihood_lowerbound",
          rtol=1e-9, scale=1.0)
    require(int(Q.iter) == before, "evaluating the bound counts as an iteration")
    for i in a.stoch:
        require(Q["n%d" % i] is a.nodes[i] and Q[a.nodes[i]] is a.nodes[i], "lookup of a node")
    raises(KeyError, lambda: Q["no such node"], "unknown node name")
    R.nontrivial(len(Ls) > 1)
    R.tag("stopped early" if stopped else "ran all")


# ---------------------------------------------- running until convergence

def gen_conv(d):
    m = zoo.draw_model(d, maxnodes=5)
    m["tol"] = d.choice([1e-4, 1e-3, 1e-2, 0.1])
    return m


def check_conv(case, R):
    from bayespy.inference import VB
    a = zoo.Model(case, names=True)
    a.init_random(case["seed"])
    if not a.latents():
        return
    Q = VB(*[a.nodes[i] for i in a.stoch], tol=case["tol"])
    # stop every run: a finite cap by hand around the unlimited loop
    cap = [0]

    class Cap(Exception):
        pass

    def cb():
        cap[0] += 1
        if cap[0] > 400:
            raise Cap()
    Q.set_callback(cb)
    try:
        Q.update(repeat=None, verbose=False)
    except Cap:
        return
    n = int(Q.iter)
    L = np.array(Q.L[:n])
    r = (L[1:] - L[:-1]) / (0.5 * (abs(L[1:]) + abs(L[:-1])))
    require(n >= 2, "converged after a single iteration")
    require(r[-1] < case["tol"], "stopped before convergence: relative change %g", r[-1])
    require(np.all(r[:-1] >= case["tol"]), "did not stop at convergence")
    require(Q.converged is True or bool(Q.converged), "convergence not reported")
    R.nontrivial(n > 2)
    R.tag("n%d" % min(n, 9))


SUBS = [
    Sub("history", gen, check, 2500, 60000, rule="counts when there were two or more iterations"),
    Sub("converge", gen_conv, check_conv, 1000, 30000,
        rule="counts when it took three or more iterations"),
]
