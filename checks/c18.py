"""C18: saving and loading restores the state; interrupted inference resumes exactly."""
import os
import shutil
import tempfile
import numpy as np
from vlib import zoo, dense as dn
from vlib.harness import Sub, require, close, raises


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="c18", dir=os.environ.get("VERIF_SCRATCH"))
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)

    def __call__(self, name):
        return os.path.join(self.d, name)


def vb(m, **kw):
    from bayespy.inference import VB
    nodes = [m.nodes[i] for i in m.stoch]
    if m.spec.get("det"):
        nodes = m.nodes
        for k, n in enumerate(nodes):
            if not n.name:
                n.name = "det%d" % k
    kw.setdefault("tol", 0)
    return VB(*nodes, **kw)


def same_state(a, b, what, which=None, rtol=0.0):
    """Every node of b has the state of the same node of a."""
    for i in a.stoch:
        if which is not None and i not in which:
            continue
        x, y = a.nodes[i], b.nodes[i]
        P = tuple(a.recs[i]["own"])
        w = "%s: node %d (%s)" % (what, i, a.recs[i]["op"])
        for k, (p, q) in enumerate(zip(x.get_moments(), y.get_moments())):
            close(q, np.broadcast_to(p, np.broadcast_shapes(np.shape(p), np.shape(q))),
                  w + " moment %d" % k, rtol=rtol, atol=rtol)
        for k, (p, q) in enumerate(zip(x.get_parameters(), y.get_parameters())):
            close(q, np.broadcast_to(p, np.broadcast_shapes(np.shape(p), np.shape(q))),
                  w + " parameter %d" % k, rtol=rtol, atol=rtol)
        require(np.array_equal(np.broadcast_to(x.observed, P), np.broadcast_to(y.observed, P)),
                w + ": observed plates differ")
        require(np.array_equal(np.broadcast_to(x.mask, P), np.broadcast_to(y.mask, P)),
                w + ": mask differs")


def same_bound(a, b, what, rtol=1e-12):
    for i in a.stoch:
        x = float(a.nodes[i].lower_bound_contribution())
        y = float(b.nodes[i].lower_bound_contribution())
        close(y, x, "%s: lower bound term of node %d (%s)" % (what, i, a.recs[i]["op"]),
              rtol=rtol, atol=1e-10, scale=1.0)


def step(m, Q, s):
    """One inference step: an engine update of one or of all variables."""
    lat = m.latents()
    if s >= 6 or not lat:
        Q.update(repeat=1, verbose=False)
    else:
        Q.update(m.nodes[lat[s % len(lat)]], repeat=1, verbose=False)


def gen(d):
    m = zoo.draw_model(d)
    m["det"] = d.bool(1, 4)
    m["mode"] = d.int(0, 2)
    m["pre"] = [d.int(0, 7) for _ in range(d.int(0, 3))]
    m["post"] = [d.int(0, 7) for _ in range(d.int(1, 3))]
    m["fresh"] = d.choice(["same", "nodata", "nodata", "moved", "masked"])
    m["how"] = d.choice(["engine", "engine", "names", "nodes", "autoname"])
    m["cb"] = d.bool(1, 4)
    m["conv"] = d.bool(1, 3)            # the saved run has converged
    return m


def fresh_model(case, m):
    """A newly constructed model into which the state is loaded."""
    f = case["fresh"]
    if f == "nodata":
        return zoo.Model(case, names=True, data=False)
    if f == "moved":
        # other values and other masks observed before loading
        obs = [dict(o, seed=o["seed"] + 11,
                    mask=None if o["mask"] else dict(shape=[], seed=1, p=2.0))
               for o in case["obs"]]
        return zoo.Model(case, names=True, obs=obs)
    if f == "masked":
        obs = [dict(o, mask=dict(shape=[], seed=0, p=-1.0)) for o in case["obs"]]
        return zoo.Model(case, names=True, obs=obs)
    return zoo.Model(case, names=True)


def check(case, R):
    with Scratch() as S:
        a = zoo.Model(case, names=True)
        a.init_random(case["seed"], mode=case["mode"])
        cnt = []
        cb = (lambda: (cnt.append(1), np.array([len(cnt), 2.0]))[1]) if case["cb"] else None
        Qa = vb(a, callback=cb)
        tol = Qa.tol
        if case.get("conv"):
            Qa.tol = 1e9
        for s in case["pre"]:
            step(a, Qa, s)
        Qa.tol = tol
        b = fresh_model(case, a)
        b.obs, b.active = a.obs, a.active
        b.init_random(case["seed"] + 1)
        Qb = vb(b, callback=cb)
        how = case["how"]
        if how == "nodes":
            for i in a.stoch:
                a.nodes[i].save(S("n%d" % i))
            for i in a.stoch:
                b.nodes[i].load(S("n%d" % i))
        else:
            if how == "autoname":
                Qa.set_autosave(S("f"))
                Qb.set_autosave(S("f"))
                Qa.save()
                Qb.load()
            elif how == "names":
                Qa.save(*["n%d" % i for i in a.stoch], filename=S("f"))
                Qb.load(*["n%d" % i for i in reversed(a.stoch)], filename=S("f"))
            else:
                Qa.save(filename=S("f"))
                Qb.load(filename=S("f"))
            n = len(case["pre"])
            require(int(Qb.iter) == n, "iteration count %r after loading, should be %d",
                    Qb.iter, n)
            close(Qb.L[:n], Qa.L[:n], "lower bounds of the iterations", rtol=0, atol=0)
            close(Qb.cputime[:n], Qa.cputime[:n], "computation times", rtol=0, atol=0)
            require(bool(Qb.has_converged()) == bool(Qa.has_converged()),
                    "convergence flag lost")
            if Qa.has_converged():
                R.tag("converged")
            for i in a.stoch:
                close(Qb.l[b.nodes[i]][:n], Qa.l[a.nodes[i]][:n],
                      "bound terms of the iterations, node %d" % i, rtol=0, atol=0)
            if n and cb:
                close(Qb.callback_output, Qa.callback_output, "callback output", rtol=0, atol=0)
        same_state(a, b, "after loading")
        same_bound(a, b, "after loading")
        # the file does not alias the saved engine; continuing gives the same trajectory
        for s in case["post"]:
            step(a, Qa, s)
            step(b, Qb, s)
            same_state(a, b, "continued after loading", rtol=1e-10)
            same_bound(a, b, "continued after loading", rtol=1e-10)
        if how != "nodes":
            n = len(case["pre"]) + len(case["post"])
            close(Qb.L[:n], Qa.L[:n], "lower bounds of all iterations", rtol=1e-10, scale=1.0)
            require(int(Qb.iter) == n, "iteration count")
    R.nontrivial(len(a.latents()) > 0)
    R.tag(case["fresh"], case["how"])
    for r in a.recs:
        R.tag(r["op"])


# ------------------------------------------------- interruption at any point

def gen_resume(d):
    m = zoo.draw_model(d)
    m["det"] = d.bool(1, 4)
    m["steps"] = [d.choice([0, 1, 2, 3, 7, 8, 8, 9]) for _ in range(d.int(1, 7))]
    m["every"] = d.int(0, 3)
    m["crash"] = [d.int(0, 6) for _ in range(d.int(0, 3))]
    m["fresh"] = d.choice(["same", "nodata", "masked"])
    m["how"] = "engine"
    m["subset"] = d.bool(1, 4)
    return m


def check_resume(case, R):
    """Steps 0..7 update; 8 saves; with `every`, engine also saves automatically.  At each
    point in `crash` the process "dies": a fresh model continues from the last saved file."""
    with Scratch() as S:
        ref = zoo.Model(case, names=True)
        ref.init_random(case["seed"])
        Qr = vb(ref)
        states = [[(n.get_parameters(), n.get_moments()) for n in
                   (ref.nodes[i] for i in ref.stoch)]]
        ups = [s for s in case["steps"] if s < 8]
        for s in ups:
            step(ref, Qr, s)

        a = zoo.Model(case, names=True)
        a.init_random(case["seed"])
        # the variables without unobserved plates need not be saved
        names = None
        if case["subset"] and case["fresh"] == "same":
            names = [a.nodes[i].name for i in a.latents()]
        Q = vb(a)
        f = S("auto")

        def start(Q):
            Q.set_autosave(f, iterations=case["every"], nodes=names)

        def save(Q):
            Q.save(*(names or []), filename=f)
        start(Q)
        save(Q)
        saved = done = 0
        k = 0
        crashes = sorted(set(case["crash"]))
        steps = list(case["steps"])
        nc = 0
        while True:
            if crashes and k >= crashes[0]:
                crashes.pop(0)
                nc += 1
                a = fresh_model(case, ref)
                a.obs, a.active = ref.obs, ref.active
                a.init_random(case["seed"] + 5 + nc)
                Q = vb(a)
                start(Q)
                Q.load(*(names or []))
                done = saved
                require(int(Q.iter) == done, "resumed at iteration %d, saved at %d", int(Q.iter),
                        done)
                k = [j for j in range(len(steps) + 1)
                     if len([s for s in steps[:j] if s < 8]) == done][-1]
                R.tag("crash")
            if k >= len(steps):
                break
            s = steps[k]
            if s == 8:
                save(Q)
                saved = done
            elif s < 8:
                step(a, Q, s)
                done += 1
                if case["every"] and done % case["every"] == 0:
                    saved = done
            k += 1
        same_state(ref, a, "interrupted against uninterrupted", rtol=1e-9)
        n = len(ups)
        require(int(Q.iter) == n, "iteration count %d, should be %d", int(Q.iter), n)
        close(Q.L[:n], Qr.L[:n], "lower bounds, interrupted against uninterrupted", rtol=1e-9,
              scale=1.0)
        for i in ref.latents():
            close(Q.l[a.nodes[i]][:n], Qr.l[ref.nodes[i]][:n],
                  "bound terms, interrupted against uninterrupted", rtol=1e-9, scale=1.0)
    R.nontrivial(nc > 0 and len(ups) > 0 and len(ref.latents()) > 0)
    R.tag("every%d" % case["every"], "subset" if names else "all")


# ------------------------------------------------------------ partial loading

def gen_part(d):
    m = zoo.draw_model(d)
    m["pick"] = [d.bool() for _ in range(8)]
    m["fresh"] = "same"
    m["nodes_only"] = d.bool()
    m["pre"] = [d.int(0, 7) for _ in range(d.int(0, 2))]
    m["bpre"] = [d.int(0, 7) for _ in range(d.int(0, 2))]
    m["post"] = [d.int(0, 7) for _ in range(d.int(1, 2))]
    m["user"] = d.bool(1, 3)
    return m


def check_part(case, R):
    """Loading some variables changes those variables only."""
    from bayespy.inference import VB
    with Scratch() as S:
        a = zoo.Model(case, names=True)
        a.init_random(case["seed"])
        Qa = vb(a)
        if case["user"]:
            data = dict(x=np.arange(4.0), y=np.array(3))
            Qa.user_data = data
        for s in case["pre"]:
            step(a, Qa, s)
        Qa.save(filename=S("f"))
        if case["user"]:
            got = VB.load_user_data(S("f"))
            require(sorted(got) == sorted(data), "user data names %s", sorted(got))
            for k in data:
                close(got[k], data[k], "user data", rtol=0, atol=0)
        b, c = [zoo.Model(case, names=True) for _ in range(2)]
        Qb, Qc = vb(b), vb(c)
        for m, Q in ((b, Qb), (c, Qc)):
            m.init_random(case["seed"] + 1)
            for s in case["bpre"]:
                step(m, Q, s)
        sel = [i for j, i in enumerate(a.stoch) if case["pick"][j % 8]]
        if not sel:
            sel = a.stoch[:1]
        L, it = np.array(Qb.L), Qb.iter
        Qb.load(*["n%d" % i for i in sel], filename=S("f"), nodes_only=case["nodes_only"])
        same_state(a, b, "partially loaded", which=sel)
        same_state(c, b, "not loaded", which=[i for i in a.stoch if i not in sel],
                   rtol=1e-10)
        if case["nodes_only"]:
            require(Qb.iter == it and np.array_equal(Qb.L, L, equal_nan=True),
                    "iteration statistics changed although only nodes were loaded")
        else:
            require(int(Qb.iter) == len(case["pre"]), "iteration count")
        for i in sel:
            if i not in c.latents():
                continue
            c.nodes[i].set_parameters(a.nodes[i].get_parameters())
        for s in case["post"]:
            step(b, Qb, s)
            step(c, Qc, s)
        same_state(c, b, "continued after partial loading", rtol=1e-8)
        require(np.isfinite(Qb.L[Qb.iter - 1]), "no bound recorded after partial loading")
        close(Qb.L[Qb.iter - 1], Qc.L[Qc.iter - 1], "bound after partial loading", rtol=1e-8,
              scale=1.0)
        # a variable that is not in the file
        d = zoo.Model(case, names=True)
        Qd = vb(d)
        Qa.save("n%d" % sel[0], filename=S("g"))
        rest = [i for i in a.stoch if i != sel[0]]
        if rest:
            raises(Exception, lambda: Qd.load(filename=S("g")),
                   "loading a variable which the file does not contain")
    R.nontrivial(len(sel) < len(a.stoch))


SUBS = [
    Sub("roundtrip", gen, check, 2500, 60000, rule="counts when there is an unobserved variable"),
    Sub("resume", gen_resume, check_resume, 1500, 40000,
        rule="counts when inference was interrupted at least once and updates an unobserved "
             "variable"),
    Sub("partial", gen_part, check_part, 1500, 40000,
        rule="counts when some but not all variables were loaded"),
]
