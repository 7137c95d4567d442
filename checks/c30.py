"""C30: printing a node shows its current posterior."""
import re
import numpy as np
from vlib import single, dense as dn
from vlib.harness import Sub, require, close, raises

NUM = re.compile(r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|inf|nan)")

NAMES = {"g0": ("Gaussian", ["mu", "Cov"]), "g1": ("Gaussian", ["mu", "Cov"]),
         "g2": ("Gaussian", ["mu", "Cov"]), "g3": ("Gaussian", ["mu", "Cov"]),
         "gs0": ("Gaussian", ["mu", "Cov"]), "gs2": ("Gaussian", ["mu", "Cov"]),
         "gauss": ("Gaussian", ["mu", "Cov"]), "ga": ("Gamma", ["a", "b"]),
         "w": ("Wishart", ["n", "A"]), "d": ("Dirichlet", ["alpha"]), "beta": ("Beta", ["a", "b"]),
         "c": ("Categorical", ["p"]), "bern": ("Bernoulli", ["p"]), "bin": ("Binomial", ["n", "p"]),
         "mul": ("Multinomial", ["p"]), "poi": ("Poisson", ["lambda"])}


def gen(d):
    c = single.draw(d, single.MORE)
    c["seed"] = d.seed()
    c["state"] = d.choice(["prior", "params", "params", "update", "value"])
    c["name"] = d.choice(["x", "Node_A", "some name"])
    return c


def parse(text, labels):
    """The numbers printed under each label."""
    pos = []
    for lab in labels:
        m = re.search(r"^\s+%s =\s*" % re.escape(lab), text, re.M)
        require(m, "str() has no %r part: %s" % (lab, text[:80]))
        pos.append((m.start(), m.end()))
    out = []
    for i, (s, e) in enumerate(pos):
        end = pos[i + 1][0] if i + 1 < len(pos) else len(text)
        require(s < end, "str() shows %r in the wrong order" % labels)
        out.append(np.array([float(v) for v in NUM.findall(text[e:end])]))
    return out


def expected(c, phi):
    t, P, S = c["t"], tuple(c["P"]), tuple(c["S"])
    k = c["kind"]
    if t == "g":
        u = dn.moments_from_phi("g", phi, P, S)
        D = dn.size(S)
        m = u[0].reshape(P + (D,))
        C = u[1].reshape(P + (D, D)) - m[..., :, None] * m[..., None, :]
        return [m, C]
    if t == "ga":
        return [dn.bc(phi[1], P, ()), -dn.bc(phi[0], P, ())]
    if t == "w":
        V = -2 * dn.bc(phi[0], P, S + S)
        return [2 * dn.bc(phi[1], P, ()), np.linalg.inv(V)]
    if k == "beta":
        a = dn.bc(phi[0], P, S)
        return [a[..., 0], a[..., 1]]
    if t == "d":
        return [dn.bc(phi[0], P, S)]
    if k in ("c", "mul"):
        x = dn.bc(phi[0], P, S[:1])
        e = np.exp(x - x.max(-1, keepdims=True))
        return [e / e.sum(-1, keepdims=True)]
    if t == "bin":
        p = 1 / (1 + np.exp(-dn.bc(phi[0], P, ())))
        return [p] if k == "bern" else [np.full(P, float(S[0])), p]
    if t == "poi":
        return [np.exp(dn.bc(phi[0], P, ()))]
    raise KeyError(t)


def check(c, R):
    rs = np.random.RandomState(c["seed"])
    P, S, t = tuple(c["P"]), tuple(c["S"]), c["t"]
    X = single.build(c, single.params(c, rs), name=c["name"])
    phi = single.prior_phi(c, single.params(c, np.random.RandomState(c["seed"])))
    R.tag(c["kind"])
    if c["kind"] in ("gg", "gmc", "cmc"):
        raises(NotImplementedError, lambda: str(X), "str() of %s" % c["kind"])
        return
    R.nontrivial(c["state"] in ("params", "update") and (np.prod(P + S) > 1 or len(P) == 0))
    tq = "c" if t in ("mul",) else t
    if c["state"] in ("params", "update"):
        if t in ("mul", "poi", "bin"):
            phi = [rs.randn(*p.shape) for p in phi]
        else:
            phi = dn.random_phi(t, rs, P, S)
        X.set_parameters([np.array(p) for p in phi])
        if c["state"] == "update":
            X.update()
            phi = single.prior_phi(c, single.params(c, np.random.RandomState(c["seed"])))
    name, labels = NAMES[c["kind"]]
    with np.printoptions(precision=17, threshold=np.inf, linewidth=10 ** 6):
        text = str(X)
    head = text.split("\n")[0]
    require(head == "%s ~ %s(%s)" % (c["name"], name, ", ".join(labels))
            or head.startswith("%s ~ %s(" % (c["name"], name)),
            "str() starts with %r" % head)
    got = parse(text, labels)
    for lab, g, e in zip(labels, got, expected(c, phi)):
        e = np.asarray(e, dtype=float).ravel()
        if lab == "n" and c["kind"] == "bin":
            # the number of trials may be shown without repeating it
            require(g.size in (1, e.size) and np.all(g == e[0] if e.size else True),
                    "str() shows n = %s" % g)
            continue
        require(g.size == e.size, "str() shows %d numbers for %s, expected %d" % (
            g.size, lab, e.size))
        close(g, e, "str(): %s of %s" % (lab, c["kind"]), rtol=1e-6,
              atol=1e-8 * (1 + np.max(np.abs(e), initial=0)))


SUBS = [Sub("print", gen, check, 4000, 40000,
            rule="a posterior different from the prior or updated, more than one number shown")]
