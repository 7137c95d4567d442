"""C27: updates are local, idempotent, deterministic and commute where they should; queries and
inputs are left untouched; variables without observed descendants influence nobody."""
import copy
import numpy as np
from vlib import zoo, dense as dn, single
from vlib.dense import bc
from vlib.harness import Sub, require, close


def gen(d):
    m = zoo.draw_model(d)
    m["mode"] = d.int(0, 2)
    m["w"] = [d.int(0, 9) for _ in range(3)]
    m["upd"] = d.bool()
    return m


def all_nodes(m):
    """Every node of the graph, including converters and constants."""
    seen, todo, out = set(), list(m.nodes), []
    while todo:
        n = todo.pop()
        if id(n) in seen:
            continue
        seen.add(id(n))
        out.append(n)
        todo += list(getattr(n, "parents", ()) or ())
        todo += [c for (c, _) in getattr(n, "children", ())]
    return out


def state(m):
    s = []
    for n in all_nodes(m):
        for a in ("phi", "u"):
            for x in getattr(n, a, None) or []:
                s.append((n, a, np.array(x)))
        for a in ("g", "f", "mask", "observed", "annealing"):
            if hasattr(n, a):
                s.append((n, a, np.array(getattr(n, a))))
        s.append((n, "children", np.array(len(getattr(n, "children", ())))))
        s.append((n, "plates", np.array(getattr(n, "plates", ()))))
    return s


def same(a, b):
    if a.shape != b.shape:
        return False
    if a.dtype == bool:
        return bool(np.all(a == b))
    return bool(np.all((a == b) | (np.isnan(a) & np.isnan(b))))


def untouched(before, after, what, skip=()):
    for (n, a, x), (n2, a2, y) in zip(before, after):
        require(n is n2 and a == a2, "%s: structure of the graph changed", what)
        if n in skip:
            continue
        require(same(x, y), "%s: changed %s of %s from %s to %s", what, a,
                type(n).__name__, x, y)


def latents(m):
    return [i for i in m.latents() if m.recs[i]["own_t"] not in ("cnt", "mn")]


# ------------------------------------------------------------------------ queries

def check_pure(case, R):
    from bayespy.inference import VB
    m = zoo.Model(case, names=True)
    m.init_random(case["seed"], mode=case["mode"])
    lat = latents(m)
    if case["upd"]:
        for i in lat:
            m.nodes[i].update()
    Q = VB(*[m.nodes[i] for i in m.stoch])
    s = state(m)
    rng = np.random.RandomState(case["seed"])
    nq = 0

    def query(what, f, may=()):
        nonlocal nq
        try:
            f()
        except NotImplementedError:
            return
        except may:
            return
        except Exception as e:
            # mmdot: gradients of Gaussian arrays are not implemented
            if "not yet implemented" in str(e):
                return
            raise
        nq += 1
        untouched(s, state(m), what)

    for i in m.stoch:
        n, rec = m.nodes[i], m.recs[i]
        nm = "n%d (%s)" % (i, rec["op"])
        t, P, S = rec["own_t"], tuple(rec["own"]), tuple(rec["own_shape"])
        query("%s.get_moments()" % nm, n.get_moments)
        query("%s.lower_bound_contribution()" % nm, n.lower_bound_contribution)
        query("%s.get_parameters()" % nm, lambda: [x.__imul__(0) for x in n.get_parameters()
                                                   if x.ndim])
        query("%s.get_shape()" % nm, lambda: n.get_shape(0))
        query("%s.get_mask()" % nm, n.get_mask)
        query("%s.get_pdf_nodes()" % nm, n.get_pdf_nodes)
        if i in lat:
            query("%s.random()" % nm, n.random)
            query("%s.get_riemannian_gradient()" % nm, n.get_riemannian_gradient)
            if not np.any(m.observed(i)):
                query("%s.get_gradient()" % nm,
                      lambda: n.get_gradient(n.get_riemannian_gradient()))
                query("str(%s)" % nm, lambda: str(n))
        if t in ("g", "ga", "w", "d", "c"):
            x = dn.random_value(t, rng, P, S)
            if rec["op"] == "beta":
                x = x[..., 0]
            x0 = np.array(x)
            if i in lat and rec["op"] not in ("mixture",):
                query("%s.logpdf()" % nm, lambda: n.logpdf(x))
                require(np.array_equal(x, x0), "%s.logpdf(x) changed x", nm)
    for i, n in enumerate(m.nodes):
        query("moments of n%d (%s)" % (i, m.recs[i]["op"]), lambda: n.get_moments())
        if i not in m.stoch and hasattr(n, "get_parameters"):
            query("n%d (%s).get_parameters()" % (i, m.recs[i]["op"]), n.get_parameters)
        for k, p in enumerate(getattr(n, "parents", ())):
            if m.recs[i]["op"] in zoo.STOCH and hasattr(n, "_message_to_parent"):
                # (not every message is implemented)
                query("message from n%d to parent %d" % (i, k),
                      lambda: n._message_to_parent(k), may=(NotImplementedError,))
    query("VB.compute_lowerbound()", Q.compute_lowerbound)
    query("VB.compute_lowerbound_terms()", Q.compute_lowerbound_terms)
    query("VB.get_gradients()", lambda: Q.get_gradients(*[m.nodes[i] for i in lat
                                                         if not np.any(m.observed(i))]))
    query("VB.loglikelihood_lowerbound()", Q.loglikelihood_lowerbound)
    R.nontrivial(nq > 5 and bool(lat))


# ------------------------------------------------------------------------- inputs

def gen_inputs(d):
    c = single.draw(d, [k for k in single.MORE])
    c["seed"] = d.seed()
    c["sub"] = d.subshape(c["P"])
    c["obs"] = d.bool()
    c["masked"] = d.bool()
    c["ops"] = [d.choice(["observe", "partial", "value", "parameters", "unobserve", "update",
                          "set"]) for _ in range(d.int(0, 6))]
    return c


def later_operations(c, rs, node, held):
    """Every array ever handed to the node must survive all the later operations."""
    from checks.c26 import rand_value
    t, P, S = c["t"], tuple(c["P"]), tuple(c["S"])
    fixed = c["kind"] in ("gmc", "cmc", "gg")
    for op in c["ops"]:
        if op in ("observe", "partial"):
            if fixed:
                continue
            x = rand_value(c, rs)
            mask = rs.rand(*P) < 0.5 if op == "partial" else True
            node.observe(x, mask=mask)
            new = [x, mask]
        elif op == "value":
            if fixed or t not in ("g", "ga", "w", "d", "c"):
                continue
            x = rand_value(c, rs)
            node.initialize_from_value(x)
            new = [x]
        elif op == "set":
            if t not in ("g", "ga", "w", "d", "c", "gg", "gmc", "cmc"):
                continue
            new = dn.random_phi(t, rs, P, S)
            node.set_parameters(new)
        elif op == "parameters":
            node.initialize_from_prior()
            new = []
        else:
            getattr(node, op)()
            new = []
        held += [(op, a, copy.deepcopy(a)) for a in new]
        for what, a, b in held:
            require(same(np.asarray(a), np.asarray(b)),
                    "%s: the array given to %s was changed by a later %s", c["kind"], what, op)


def check_inputs(c, R):
    from checks.c26 import rand_value
    from bayespy.inference import VB
    rs = np.random.RandomState(c["seed"])
    t, P, S = c["t"], tuple(c["P"]), tuple(c["S"])
    par = single.params(c, rs)
    keep = copy.deepcopy(par)

    def ok(what):
        for k, (a, b) in enumerate(zip(par, keep)):
            require(same(np.asarray(a), np.asarray(b)), "%s %s changed the constant parameter %d",
                    c["kind"], what, k)
    node = single.build(c, par)
    ok("constructor")
    args = []
    if c["kind"] not in ("gmc", "cmc", "gg"):
        x = rand_value(c, rs)
        x0 = np.array(x)
        if c["obs"]:
            mask = rs.rand(*P) < 0.5 if c["masked"] and P else True
            m0 = np.array(mask)
            node.observe(x, mask=mask)
            require(np.array_equal(mask, m0), "%s.observe changed the mask array", c["kind"])
            args.append(mask)
        elif t in ("g", "ga", "w", "d", "c"):
            node.initialize_from_value(x)
        node.update()
        require(np.array_equal(x, x0), "%s: the data array was changed", c["kind"])
        if not c["obs"]:
            node.logpdf(x)
            require(np.array_equal(x, x0), "%s.logpdf changed its argument", c["kind"])
    node.update()
    if t in ("g", "ga", "w", "d", "c", "gg", "gmc", "cmc"):
        phi = dn.random_phi(t, rs, P, S)
        p0 = copy.deepcopy(phi)
        node.set_parameters(phi)
        node.update()
        node.get_moments()
        for a, b in zip(phi, p0):
            require(same(np.asarray(a), np.asarray(b)), "%s.set_parameters(x), then an update, "
                    "changed the array x", c["kind"])
    ok("inference")
    held = []
    if c["kind"] not in ("gmc", "cmc", "gg"):
        held.append(("its first use", x, x0.copy()))
    later_operations(c, rs, node, held)
    if c["kind"] not in ("gmc", "gg", "w"):
        try:
            for _ in range(2):
                node.random()
        except NotImplementedError:
            pass
        ok("random")
    node.lower_bound_contribution()
    ok("lower bound")
    R.tag(c["kind"])
    R.nontrivial(True)


# ------------------------------------------------------------------------ updates

def factors(m):
    """For each stochastic node, the stochastic nodes in its factor."""
    def anc(i):
        r = set()
        for p in m.recs[i]["par"]:
            if "i" in p:
                j = p["i"]
                r |= {j} if m.recs[j]["op"] in zoo.STOCH else anc(j)
        return r
    return [{i} | anc(i) for i in m.stoch]


def snap(m, i):
    n = m.nodes[i]
    return [np.array(x) for x in n.phi] + [np.array(x) for x in n.u] + [np.array(n.g)]


def close_phi(m, i, want, what):
    for k, (x, y) in enumerate(zip(m.phi(i), want)):
        close(x, y, "%s: parameter %d of n%d (%s)" % (what, k, i, m.recs[i]["op"]), rtol=1e-8,
              atol=1e-9)


def check_update(case, R):
    m = zoo.Model(case)
    m.init_random(case["seed"], mode=case["mode"])
    lat = latents(m)
    if not lat:
        return
    i = lat[case["w"][0] % len(lat)]
    k = lat[case["w"][1] % len(lat)]
    s = state(m)
    m.nodes[i].update()
    untouched(s, state(m), "update of n%d (%s)" % (i, m.recs[i]["op"]), skip=(m.nodes[i],))
    p1 = m.phi(i)
    L1 = m.L()
    m.nodes[i].update()
    close_phi(m, i, p1, "a second update in a row must change nothing")
    close(m.L(), L1, "bound after a second update in a row", rtol=1e-9, atol=1e-9,
          scale=m.Lscale())
    # the update does not depend on the variable's own state
    if not np.any(m.observed(i)) or True:
        rec = m.recs[i]
        rs = np.random.RandomState(case["seed"] + 3)
        m.nodes[i].set_parameters(dn.random_phi(rec["own_t"], rs, tuple(rec["own"]),
                                                tuple(rec["own_shape"])))
        m.nodes[i].update()
        close_phi(m, i, p1, "the update must not depend on the variable's own earlier factor")
    R.tag(m.recs[i]["op"])
    # variables that share no factor: the order of their updates is irrelevant
    comm = 0
    fs = factors(m)
    pairs = [(a, b) for a in lat for b in lat if a < b
             and not any(a in f and b in f for f in fs)]
    if pairs:
        a, b = pairs[case["w"][2] % len(pairs)]
        base = {j: m.phi(j) for j in lat}
        m.nodes[a].update()
        m.nodes[b].update()
        pa, pb = m.phi(a), m.phi(b)
        m2 = zoo.Model(case)
        for j in lat:
            m2.nodes[j].set_parameters(base[j])
        m2.nodes[b].update()
        m2.nodes[a].update()
        close_phi(m2, a, pa, "updates of variables that share no factor must commute")
        close_phi(m2, b, pb, "updates of variables that share no factor must commute")
        comm = 1
        R.tag("commute")
    del k
    R.nontrivial(bool(np.any(m.active[i] & ~m.observed(i))) or comm)


def check_determinism(case, R):
    """The same history gives the same result; so does any order of building observations."""
    ms = []
    for r in range(2):
        obs = list(case["obs"])
        if r:
            obs = obs[::-1]
        m = zoo.Model(case, obs=obs)
        m.init_random(case["seed"], mode=case["mode"])
        rs = np.random.RandomState(case["seed"])
        lat = latents(m)
        for _ in range(3):
            for i in rs.permutation(lat) if lat else []:
                m.nodes[i].update()
        ms.append(m)
    a, b = ms
    for i in latents(a):
        close_phi(b, i, a.phi(i), "a second run of the same history")
    close(b.L(), a.L(), "bound of a second run", rtol=1e-9, atol=1e-8, scale=a.Lscale())
    R.nontrivial(len(latents(a)) > 1)


# ------------------------------------------------------ unobserved variables

def gen_barren(d):
    m = zoo.draw_model(d, leaves=3)
    m["mode"] = d.int(0, 2)
    m["drop"] = d.int(0, 3)
    m["how"] = d.choice(["never", "unobserved", "mask"])
    return m


def check_barren(case, R):
    """Removing variables that have no observed descendants changes nothing."""
    keep = [o for k, o in enumerate(case["obs"]) if k != case["drop"] % len(case["obs"])]
    gone = [o for k, o in enumerate(case["obs"]) if k == case["drop"] % len(case["obs"])]
    if case["how"] == "mask":
        gone = [dict(o, mask=dict(shape=[1] * 0, seed=1, p=-1.0)) for o in gone]
        m = zoo.Model(case, obs=keep + gone)
    elif case["how"] == "unobserved":
        m = zoo.Model(case, obs=keep + gone)
        for o in gone:
            m.nodes[o["i"]].unobserve()
            m.obs.pop(o["i"])
        m.masks()
    else:
        m = zoo.Model(case, obs=keep)
    m.init_random(case["seed"], mode=case["mode"])
    if case["how"] == "unobserved":
        # (the moments of a variable that is no longer observed are stale until set or updated)
        rs = np.random.RandomState(case["seed"])
        for o in gone:
            rec = m.recs[o["i"]]
            if rec["own_t"] not in ("cnt", "mn"):
                m.nodes[o["i"]].set_parameters(dn.random_phi(
                    rec["own_t"], rs, tuple(rec["own"]), tuple(rec["own_shape"])))
    need = set()
    for o in keep:
        todo = [o["i"]]
        while todo:
            i = todo.pop()
            if i not in need:
                need.add(i)
                todo += [p["i"] for p in m.recs[i]["par"] if "i" in p]
    # the same model without the other variables
    idx = sorted(need)
    new = {i: k for k, i in enumerate(idx)}
    spec = dict(case, nodes=[], obs=[dict(o, i=new[o["i"]]) for o in keep])
    for i in idx:
        rec = copy.deepcopy(case["nodes"][i])
        rec["par"] = [dict(p, i=new[p["i"]]) if "i" in p else p for p in rec["par"]]
        spec["nodes"].append(rec)
    f = zoo.Model(spec)
    lat = [i for i in idx if i in m.stoch and i in latents(m)]
    for i in lat:
        f.nodes[new[i]].set_parameters(m.phi(i))
    for i in m.stoch:
        if i in need:
            close(float(m.nodes[i].lower_bound_contribution()),
                  float(f.nodes[new[i]].lower_bound_contribution()),
                  "bound of n%d (%s) with and without variables that have no observed "
                  "descendants" % (i, m.recs[i]["op"]), rtol=1e-9, atol=1e-9,
                  scale=0.1 * f.Lscale())
        else:
            close(float(m.nodes[i].lower_bound_contribution()), 0.0, "n%d (%s) has no observed "
                  "descendants, so it contributes nothing to the bound" % (i, m.recs[i]["op"]),
                  rtol=0, atol=1e-300)
    for i in lat:
        m.nodes[i].update()
        f.nodes[new[i]].update()
        for x, y in zip(f.phi(new[i]), m.phi(i)):
            close(y, x, "update of n%d (%s): variables without observed descendants must not "
                  "influence it" % (i, m.recs[i]["op"]), rtol=1e-8)
    R.nontrivial(len(lat) > 0 and len(need) < len(m.recs))


SUBS = [
    Sub("queries", gen, check_pure, 1200, 40000,
        rule="some variable is unobserved and more than five queries ran"),
    Sub("inputs", gen_inputs, check_inputs, 2000, 50000, rule="every case"),
    Sub("updates", gen, check_update, 2000, 60000,
        rule="the updated variable has observed descendants, or a pair of updates commutes"),
    Sub("determinism", gen, check_determinism, 1000, 30000,
        rule="at least two unobserved variables"),
    Sub("barren", gen_barren, check_barren, 2000, 50000,
        rule="some variables are removed and some unobserved ones remain"),
]
