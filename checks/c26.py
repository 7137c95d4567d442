"""C26: observing, unobserving, initialising and deleting change exactly what they say, and the
state of a model does not depend on how it was reached."""
import numpy as np
from vlib import zoo, dense as dn, single
from vlib.dense import bc
from vlib.harness import Sub, Skip, require, close

OPS = ["observe", "observe", "unobserve", "update", "update", "prior", "value", "random", "set"]


# ----------------------------------------------------------------- histories

def gen_history(d):
    m = zoo.draw_model(d)
    m["mode"] = d.int(0, 2)
    m["ops"] = [dict(op=d.choice(OPS), w=d.int(0, 9), seed=d.seed(),
                     p=d.choice([0.0, 0.3, 0.7, 1.0, None]), sub=d.int(0, 3))
                for _ in range(d.int(1, 10))]
    m["every"] = d.bool(1, 3)
    return m


def observable(m):
    r = []
    for i in m.stoch:
        rec = m.recs[i]
        if rec["op"] in ("gmc", "cmc", "gg"):
            continue
        if rec.get("cls") in ("gmc", "cmc", "gg"):
            continue
        r.append(i)
    return r


def obs_record(m, i, op):
    P = list(m.recs[i]["own"])
    o = dict(i=i, seed=op["seed"], mask=None)
    if op["p"] is not None:
        sub = P[op["sub"]:] if op["sub"] < len(P) else P
        if op["sub"] == 3:
            sub = [n if (op["seed"] >> k) & 1 else 1 for k, n in enumerate(P)]
        o["mask"] = dict(shape=sub, seed=op["seed"] + 1, p=op["p"])
    return o


def own(m, i):
    return [np.array(u) for u in m.own_moments(i)]


def where_plates(k, P, di):
    return k.reshape(tuple(P) + (1,) * len(di))


def only_changed(before, after, k, P, dims, what):
    """Moments may have changed only at the plates k."""
    for a, b, di in zip(before, after, dims):
        kk = where_plates(~k, P, di)
        same = (a == b) | (np.isnan(a) & np.isnan(b)) | ~kk
        require(np.all(same), "%s changed the moments of plates it must not touch", what)


def check_history(case, R):
    m = zoo.Model(case)
    m.init_random(case["seed"], mode=case["mode"])
    cur = {o["i"]: o for o in case["obs"]}
    stale = set()
    can = observable(m)
    trace = []
    nops = 0
    for op in case["ops"]:
        k = op["op"]
        rs = np.random.RandomState(op["seed"])
        lat = [i for i in m.latents() if m.recs[i]["own_t"] not in ("cnt", "mn")]
        pool = can if k in ("observe", "unobserve") else lat
        if not pool:
            continue
        i = pool[op["w"] % len(pool)]
        rec, node = m.recs[i], m.nodes[i]
        t, P, S = rec["own_t"], tuple(rec["own"]), tuple(rec["own_shape"])
        dims = dn.dims_of(t, S)
        before = {j: own(m, j) for j in m.stoch}
        obs_before = m.observed(i)
        trace.append("%s n%d (%s)" % (k, i, rec["op"]))
        what = " -> ".join(trace)
        if k == "observe":
            o = obs_record(m, i, op)
            m.observe(o)
            cur[i] = o
            x, mk = m.obs[i]
            got = own(m, i)
            only_changed(before[i], got, mk, P, dims, what)
            for a, b, di in zip(got, m.obs_moments(rec, x), dims):
                kk = where_plates(mk, P, di)
                close(np.where(kk, a, 0), np.where(kk, bc(b, P, di), 0),
                      "%s: observed moments" % what, rtol=1e-12)
            if np.any(obs_before & ~mk):
                stale.add(i)
        elif k == "unobserve":
            had = np.any(m.observed(i))
            node.unobserve()
            m.obs.pop(i, None)
            cur.pop(i, None)
            only_changed(before[i], own(m, i), np.zeros(P, bool), P, dims, what)
            if had:
                stale.add(i)
        elif k == "update":
            node.update()
            only_changed(before[i], own(m, i), ~obs_before, P, dims, what)
            stale.discard(i)
        elif k == "prior":
            node.initialize_from_prior()
            only_changed(before[i], own(m, i), ~obs_before, P, dims, what)
            # the parents' expected prior: KL identity against a random factor
            phi_s, u_s = m.phi(i), own(m, i)
            par, inf = m.parent_moments(rec), m.pinfo(rec)
            phi_t = dn.random_phi(t, rs, P, S)
            u_t = dn.moments_from_phi(t, phi_t, P, S)
            e_s = zoo.mirror_elogp(rec, u_s, par, inf, P) + dn.entropy(t, phi_s, P, S)
            e_t = zoo.mirror_elogp(rec, u_t, par, inf, P) + dn.entropy(t, phi_t, P, S)
            kl = m.kl(i, phi_t, phi_s)
            kk = ~obs_before
            close(np.where(kk, e_s - e_t, 0), np.where(kk, kl, 0),
                  "%s: initialisation from the prior is the expected prior" % what, rtol=1e-7,
                  atol=1e-7, scale=10 + float(np.max(np.where(kk, np.abs(e_t), 0), initial=0)))
            stale.discard(i)
        elif k in ("value", "random"):
            if t in ("gmc", "cmc", "gg"):
                continue
            if k == "random":
                if i in stale or rec["op"] in ("mixture", "wishart"):
                    continue
                np.random.seed(op["seed"] % 2 ** 31)
                node.initialize_from_random()
            else:
                x = dn.random_value(t, rs, P, S)
                node.initialize_from_value(x[..., 0] if rec["op"] == "beta" else x)
            got = own(m, i)
            only_changed(before[i], got, ~obs_before, P, dims, what)
            kk = ~obs_before
            if k == "value":
                for a, b, di in zip(got, dn.fixed_moments(t, x, S), dims):
                    w = where_plates(kk, P, di)
                    close(np.where(w, a, 0), np.where(w, bc(b, P, di), 0),
                          "%s: moments of the given value" % what, rtol=1e-12)
            else:
                x = got[0]
                if t == "c":
                    require(np.all(~kk[..., None] | ((x == 0) | (x == 1))) and
                            np.all(~kk | (x.sum(-1) == 1)), "%s: not a category", what)
                    x = np.argmax(x, axis=-1)
                elif t == "d":
                    x = np.exp(x)
                    close(np.where(kk, x.sum(-1), 1), np.ones(P), "%s: not a probability" % what)
                for a, b, di in zip(got, dn.fixed_moments(t, x, S), dims):
                    w = where_plates(kk, P, di)
                    close(np.where(w, a, 0), np.where(w, bc(b, P, di), 0),
                          "%s: moments are those of a single value" % what, rtol=1e-9)
            stale.add(i)
        elif k == "set":
            phi = dn.random_phi(t, rs, P, S)
            node.set_parameters(phi)
            want = dn.moments_from_phi(t, phi, P, S)
            for a, b, c, di in zip(own(m, i), want, before[i], dims):
                w = where_plates(obs_before, P, di)
                close(a, np.where(w, c, b), "%s: moments after setting parameters" % what,
                      rtol=1e-9)
            stale.discard(i)
        nops += 1
        for j in m.stoch:
            if j != i:
                only_changed(before[j], own(m, j), np.zeros(tuple(m.recs[j]["own"]), bool),
                             m.recs[j]["own"], dn.dims_of(m.recs[j]["own_t"],
                                                          m.recs[j]["own_shape"]),
                             "%s: another variable n%d" % (what, j))
        if case["every"]:
            compare(case, m, cur, stale, what, rs)
    # stale variables: bring the moments back from the parameters
    what = " -> ".join(trace)
    fresh = compare(case, m, cur, stale, what, np.random.RandomState(case["seed"]))
    R.nontrivial(nops >= 2 and fresh)


def compare(case, m, cur, stale, what, rs):
    """The model equals a newly built one with the same observations and factors."""
    for i in sorted(stale):
        rec = m.recs[i]
        if np.all(m.observed(i)):
            continue
        if rec["own_t"] in ("cnt", "mn"):
            return False
        m.nodes[i].set_parameters(dn.random_phi(rec["own_t"], rs, tuple(rec["own"]),
                                                tuple(rec["own_shape"])))
    stale.clear()
    f = zoo.Model(dict(case, obs=[cur[i] for i in sorted(cur)]))
    for i in f.latents():
        if m.recs[i]["own_t"] in ("cnt", "mn"):
            continue
        f.nodes[i].set_parameters(m.phi(i))
    for i in f.stoch:
        rec = f.recs[i]
        P = tuple(rec["own"])
        name = "%s: node n%d (%s)" % (what, i, rec["op"])
        a, b = (np.broadcast_to(z.nodes[i].mask, P) for z in (m, f))
        require(np.array_equal(a, b), "%s: mask %s, a new model has %s", name, a, b)
        require(np.array_equal(m.observed(i), f.observed(i)), "%s: observed", name)
        if rec["own_t"] in ("cnt", "mn"):
            ob = f.observed(i)
            dims = dn.dims_of("c", rec["shape"]) if rec["own_t"] == "mn" else [()]
            w = where_plates(ob, P, dims[0])
            close(np.where(w, bc(m.nodes[i].get_moments()[0], P, dims[0]), 0),
                  np.where(w, bc(f.nodes[i].get_moments()[0], P, dims[0]), 0),
                  "%s: observed moments" % name, rtol=1e-12)
            if not np.all(ob):
                continue
        else:
            for x, y in zip(m.own_moments(i), f.own_moments(i)):
                close(x, y, "%s: moments differ from those of a new model" % name, rtol=1e-10)
        lm = float(m.nodes[i].lower_bound_contribution())
        lf = float(f.nodes[i].lower_bound_contribution())
        close(lm, lf, "%s: bound contribution" % name, rtol=1e-9, atol=1e-9,
              scale=f.Lscale() * 0.1)
    lat = [i for i in f.latents() if m.recs[i]["own_t"] not in ("cnt", "mn")]
    for i in lat:
        rec = m.recs[i]
        keep = m.phi(i)
        m.nodes[i].update()
        f.nodes[i].update()
        for x, y in zip(m.phi(i), f.phi(i)):
            close(x, y, "%s: n%d (%s) updates differently from a new model"
                  % (what, i, rec["op"]), rtol=1e-8)
        m.nodes[i].set_parameters(keep)
        f.nodes[i].set_parameters(keep)
    return bool(lat)


# ---------------------------------------------------------- given parameters

PKINDS = [k for k in single.MORE if k not in ("gg", "gmc")]


def gen_params(d):
    c = single.draw(d, PKINDS)
    c["seed"] = d.seed()
    c["sub"] = d.subshape(c["P"])
    c["cut"] = d.bool()
    c["obs"] = d.bool(1, 3) and c["kind"] not in ("cmc",)
    return c


def check_params(c, R):
    rs = np.random.RandomState(c["seed"])
    t, P, S = c["t"], tuple(c["P"]), tuple(c["S"])
    node = single.build(c, single.params(c, rs))
    mask = np.zeros(P, bool)
    if c["obs"]:
        mask = rs.rand(*P) < 0.5 if P else np.asarray(rs.rand() < 0.5)
        x = rand_value(c, rs)
        node.observe(x, mask=mask)
    before = [bc(u, P, di) * 1 for u, di in zip(node.get_moments(), dn.dims_of(t, S))]
    par = single.params(c, rs, P=tuple(c["sub"]))
    node.initialize_from_parameters(*par)
    want = dn.moments_from_phi(t, single.prior_phi(c, par), P, S)
    for k, (g, w, b, di) in enumerate(zip(node.get_moments(), want, before, dn.dims_of(t, S))):
        kk = where_plates(mask, P, di)
        close(bc(g, P, di), np.where(kk, b, bc(w, P, di)),
              "%s: moment %d after initialisation from parameters" % (c["kind"], k), rtol=1e-8)
    R.tag(c["kind"])
    R.nontrivial(dn.size(P) * dn.size(S) > 1)


def rand_value(c, rs):
    k, P, S = c["kind"], tuple(c["P"]), tuple(c["S"])
    if k == "poi":
        return rs.poisson(2, size=P)
    if k in ("bern", "bin"):
        return rs.randint(0, S[0] + 1, size=P)
    if k == "mul":
        return rs.multinomial(S[1], np.ones(S[0]) / S[0], size=P)
    x = dn.random_value(c["t"], rs, P, S)
    return x[..., 0] if k == "beta" else x


# ------------------------------------------------------------------- deleting

def gen_delete(d):
    m = zoo.draw_model(d, leaves=3)
    m["mode"] = d.int(0, 2)
    m["del"] = d.int(0, 7)
    m["names"] = True
    return m


def check_delete(case, R):
    m = zoo.Model(case)
    m.init_random(case["seed"], mode=case["mode"])
    i = m.stoch[case["del"] % len(m.stoch)]
    # everything below goes as well
    gone = {i}
    for j, rec in enumerate(m.recs):
        if any(p.get("i") in gone for p in rec["par"]):
            gone.add(j)
    m.nodes[i].delete()
    rest = [j for j in m.stoch if j not in gone]
    f = zoo.Model(case, obs=[o for o in case["obs"] if o["i"] not in gone])
    zoo_copy(m, f, [j for j in rest if j in f.latents()])
    for j in rest:
        rec = m.recs[j]
        P = tuple(rec["own"])
        what = "after deleting n%d (%s), node n%d (%s)" % (i, m.recs[i]["op"], j, rec["op"])
        a, b = (np.broadcast_to(z.nodes[j].mask, P) for z in (m, f))
        require(np.array_equal(a, b), "%s: mask %s, without the deleted nodes it is %s", what,
                a, b)
        close(float(m.nodes[j].lower_bound_contribution()),
              float(f.nodes[j].lower_bound_contribution()), "%s: bound" % what, rtol=1e-9,
              atol=1e-9, scale=0.1 * f.Lscale())
    for j in rest:
        if j not in f.latents() or m.recs[j]["own_t"] in ("cnt", "mn"):
            continue
        m.nodes[j].update()
        f.nodes[j].update()
        for x, y in zip(m.phi(j), f.phi(j)):
            close(x, y, "after deleting n%d (%s), update of n%d (%s) must not see it"
                  % (i, m.recs[i]["op"], j, m.recs[j]["op"]), rtol=1e-8)
    R.tag(m.recs[i]["op"])
    R.nontrivial(len(rest) > 0 and len(gone) > 0 and any(
        p.get("i") is not None for p in m.recs[i]["par"]))


def zoo_copy(a, b, which):
    for j in which:
        if a.recs[j]["own_t"] in ("cnt", "mn"):
            continue
        b.nodes[j].set_parameters(a.phi(j))


# ----------------------------------------------------------------- constants


def gen_const(d):
    return dict(model=d.choice(["regression", "mixture", "topics", "chain"]), seed=d.seed(),
                K=d.int(2, 3), D=d.int(1, 3), n=d.int(1, 4), m=d.int(1, 3),
                bcast=[d.bool(1, 3) for _ in range(5)],
                ops=[dict(op=d.choice(["set", "set", "update", "data", "bad"]), i=d.int(0, 9),
                          s=d.int(0, 9)) for _ in range(d.int(1, 6))])


def build_const(c, v, data, mask):
    """A model with constants of the given values: all nodes, and the constants by name."""
    import bayespy.nodes as N
    from bayespy.inference.vmp.nodes.constant import Constant
    from bayespy.inference.vmp.nodes.gaussian import GaussianMoments
    from bayespy.inference.vmp.nodes.gamma import GammaMoments
    from bayespy.inference.vmp.nodes.categorical import CategoricalMoments
    K, D, n, m = c["K"], c["D"], c["n"], c["m"]
    k = c["model"]
    con, q = {}, {}
    if k == "regression":
        con["m0"] = Constant(GaussianMoments((D,)), v["m0"])
        con["U"] = Constant(GaussianMoments((D,)), v["U"])
        con["b"] = Constant(GammaMoments(), v["b"])
        q["W"] = N.GaussianARD(con["m0"], 0.7, shape=(D,), plates=(m, 1))
        q["tau"] = N.Gamma(1.5, con["b"])
        q["F"] = N.SumMultiply("d,d->", q["W"], con["U"])
        q["Y"] = N.GaussianARD(q["F"], q["tau"], plates=(m, n))
    elif k == "mixture":
        con["z"] = Constant(CategoricalMoments(K), v["z"])
        q["mu"] = N.GaussianARD(v["m0"], 0.5, plates=(K,))
        con["m0"] = q["mu"].parents[0]
        q["tau"] = N.Gamma(1.5, 2, plates=(K,))
        q["Y"] = N.Mixture(con["z"], N.GaussianARD, q["mu"], q["tau"], plates=(m, n))
    elif k == "topics":
        con["z"] = Constant(CategoricalMoments(K), v["z"])
        q["p"] = N.Dirichlet(v["a"], plates=(K,))
        con["a"] = q["p"].parents[0]
        q["Y"] = N.Categorical(N.Gate(con["z"], q["p"]), plates=(m, n))
    else:
        con["U"] = Constant(GaussianMoments((D,)), v["U"])
        q["A"] = N.GaussianARD(0, 1, shape=(2 + D,), plates=(2,))
        q["X"] = N.GaussianMarkovChain(v["x0"], np.eye(2), q["A"], np.ones(2),
                                       inputs=con["U"], n=n + 1)
        con["x0"] = q["X"].parents[0]
        q["Y"] = N.Gaussian(q["X"], np.eye(2))
    for x in con:
        while not isinstance(con[x], Constant):
            con[x] = con[x].parents[0]      # wrapped for its child
    q["Y"].observe(data, mask=mask)
    return q, con


def value_const(c, name, rs):
    K, D, n, m = c["K"], c["D"], c["n"], c["m"]
    b = c["bcast"]
    if name == "m0" and c["model"] == "mixture":
        return rs.randn(*([] if b[0] else [K]))
    if name == "m0":
        return rs.randn(*([D] if b[0] else [m, 1, D]))
    if name == "U" and c["model"] == "chain":
        return rs.randn(n, D)
    if name == "U":
        return rs.randn(*([n, D] if b[1] else [1, n, D]))
    if name == "b":
        return 0.5 + rs.rand()
    if name == "z":
        return rs.randint(0, K, (1 if b[2] else m, n))
    if name == "a":
        return 0.5 + rs.rand(*([D + 1] if b[3] else [K, D + 1]))
    return rs.randn(2)


def data_const(c, rs):
    k = c["model"]
    sh = (c["n"] + 1,) if k == "chain" else (c["m"], c["n"])
    y = (rs.randint(0, c["D"] + 1, sh) if k == "topics" else
         rs.randn(*(sh + ((2,) if k == "chain" else ()))))
    return y, rs.rand(*sh) < 0.7


def check_const(c, R):
    rs = np.random.RandomState(c["seed"])
    k = c["model"]
    names = dict(regression=["m0", "U", "b"], mixture=["z", "m0"], topics=["z", "a"],
                 chain=["U", "x0"])[k]
    v = {x: value_const(c, x, rs) for x in names}
    y, mask = data_const(c, rs)
    q, con = build_const(c, v, y, mask)
    lat = [x for x in q if x not in ("Y", "F")]
    for x in lat:
        q[x].initialize_from_prior()
        q[x].update()
    sets = 0
    for op in c["ops"]:
        R.tag(op["op"])
        if op["op"] == "set":
            x = names[op["i"] % len(names)]
            v[x] = value_const(c, x, rs)
            con[x].set_value(v[x])
            sets += 1
        elif op["op"] == "data":
            y, mask = data_const(c, rs)
            q["Y"].observe(y, mask=mask)
        elif op["op"] == "update":
            q[lat[op["i"] % len(lat)]].update()
        else:
            x = names[op["i"] % len(names)]
            bad = value_const(c, x, rs)
            bad = (np.concatenate([bad] * 2, axis=op["s"] % np.ndim(bad))
                   if np.ndim(bad) else np.array([bad] * 2))
            ok = tuple(con[x].plates) + tuple(con[x].dims[0])
            if x == "z":
                ok = ok[:-1]
            fits = (np.ndim(bad) <= len(ok) and
                    all(p in (1, r) for p, r in zip(np.shape(bad)[::-1], ok[::-1])))
            u0 = [np.array(u) for u in con[x].get_moments()]
            if not fits:
                try:
                    con[x].set_value(bad)
                except Exception:
                    for p, r in zip(u0, con[x].get_moments()):
                        require(np.array_equal(p, r), "a rejected value of %s changed it", x)
                else:
                    require(False, "a constant of shape %s took a value of shape %s", ok,
                            np.shape(bad))
    f, con2 = build_const(c, v, y, mask)
    for x in lat:
        f[x].set_parameters([np.array(p) for p in q[x].get_parameters()])

    def same(what):
        for x in q:
            close(q[x].lower_bound_contribution(), f[x].lower_bound_contribution(),
                  "%s: bound of %s" % (what, x), rtol=1e-9, atol=1e-9)
            for p, r in zip(q[x].get_moments(), f[x].get_moments()):
                if x == "Y":        # only what is observed
                    p, r = p[mask], r[mask]
                close(p, r, "%s: moments of %s" % (what, x), rtol=1e-9, atol=1e-12)
    what = "constants set afterwards against constants given at construction"
    for x in names:
        close(con[x].random(), v[x], "%s: value of %s" % (what, x))
    same(what)
    for x in lat + lat:
        q[x].update()
        f[x].update()
        same("%s, update of %s" % (what, x))
    R.nontrivial(sets > 0)


SUBS = [
    Sub("constants", gen_const, check_const, 1200, 20000, rule="a constant was given a new value"),
    Sub("history", gen_history, check_history, 2500, 80000,
        rule="at least two operations and an unobserved variable at the end"),
    Sub("parameters", gen_params, check_params, 3000, 60000,
        rule="more than one number in the node"),
    Sub("delete", gen_delete, check_delete, 1500, 50000,
        rule="the deleted node has a variable as a parent and some variables remain"),
]
