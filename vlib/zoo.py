"""Random conjugate-exponential models, and an independent dense mirror.

A model is a JSON description: a list of node records in topological order.
`Model(spec)` builds it with bayespy and mirrors it with plain NumPy.

record: op, t (type seen by children), shape, plates (as seen by children),
        par (list of references), plus op specific fields.
reference: {"i": index} or {"k": seed, "t":, "shape":, "plates":} (a constant).
`lead` is the number of plate axes to the right of an (imaginary) outermost
replication axis; it lets a whole model be replicated along a new plate axis.
"""
import numpy as np
from scipy import special

from . import dense as dn
from .dense import bc, LOG2PI
from .harness import Draw  # noqa: F401


def bayespy_nodes():
    import bayespy.nodes as N
    return N


# ------------------------------------------------------------------ generator

class Gen:
    def __init__(self, d, maxnodes=6, allow=None, deterministic=True, chains=True,
                 maxplates=2, partial=True, leaves=2, leaf_ops=None, boost=None):
        self.d = d
        self.maxnodes = maxnodes
        self.allow = allow
        self.det = deterministic
        self.chains = chains
        self.nodes = []
        self.nlat = 0
        self.partial = partial
        self.maxplates = maxplates
        self.nleaves = leaves
        self.leaf_ops = leaf_ops
        self.boost = boost or {}
        self.want = None        # an operation to use at the first opportunity

    def try_want(self, t, shape, P, lead, forbid, depth, exact, nochain, conv):
        w = self.want
        if w == "flatten" and not conv:
            return None
        if w == "ggsum":
            return None
        if w in ("gmc", "cmc", "gg"):
            if nochain or depth >= 3 or t != {"gmc": "g", "cmc": "c", "gg": "gg"}[w]:
                return None
            if w == "gg":
                self.want = None
                return self.op(w, t, shape, P, lead, depth)
            if not P or P[-1] < 2 or (w == "gmc" and len(shape) != 1):
                return None
            self.want = None
            return self.op(w, t, shape, P, lead, depth)
        if depth >= 3:
            return None
        return self.det_node(t, shape, P, lead, forbid, depth, exact, only=w)

    # -- helpers
    def add(self, rec, ids):
        rec["plates"] = [int(x) for x in rec["plates"]]
        rec["shape"] = [int(x) for x in rec["shape"]]
        rec["ids"] = sorted(ids) if ids is not None else [len(self.nodes)]
        self.nodes.append(rec)
        return {"i": len(self.nodes) - 1}

    def ids(self, ref):
        return set(self.nodes[ref["i"]]["ids"]) if "i" in ref else set()

    def plates(self, ref):
        return list(self.nodes[ref["i"]]["plates"]) if "i" in ref else list(ref["plates"])

    def const(self, t, shape, P, lead, exact=False):
        return {"k": self.d.seed(), "t": t, "shape": list(shape),
                "plates": list(P) if exact else self.d.subshape(P), "lead": lead}

    def ok(self, op):
        return self.allow is None or op in self.allow

    # -- any node of a type
    def make(self, t, shape, P, lead, forbid=(), depth=0, exact=False, nochain=False,
             node_only=False, conv=False):
        """conv: the consumer converts the number of variable axes automatically."""
        d = self.d
        P = list(P)
        shape = list(shape)
        if self.want is not None and d.bool(3, 4):
            r = self.try_want(t, shape, P, lead, forbid, depth, exact, nochain, conv)
            if r is not None:
                return r
        pool = []
        for i, n in enumerate(self.nodes):
            if n.get("leaf") or n["t"] != t or n["shape"] != shape or n["lead"] != lead:
                continue
            if nochain and n["op"] in ("gmc", "cmc"):
                continue
            if n["op"] == "flatten" and not conv:
                continue
            if set(n["ids"]) & set(forbid):
                continue
            if exact and n["plates"] != P:
                continue
            if not is_sub(n["plates"], P):
                continue
            pool.append(i)
        full = len(self.nodes) >= self.maxnodes or depth >= 3
        opts = []
        if not node_only:
            opts += ["const"]
        if pool:
            opts += ["pool"] * 3
        if not full:
            opts += ["new"] * 3
            if self.det and depth < 2:
                opts += ["det"] * self.boost.get("det", 2)
        elif not opts:
            opts = ["new"]
        o = d.choice(opts)
        if o == "const":
            return self.const(t, shape, P, lead, exact)
        if o == "pool":
            return {"i": d.choice(pool)}
        if o == "det":
            r = self.det_node(t, shape, P, lead, forbid, depth, exact, conv=conv)
            if r is not None:
                return r
        if not exact and not (t == "g" and self.boost.get("gmc")) \
                and not (t == "c" and self.boost.get("cmc")):
            P = d.subshape(P)
        return self.stoch(t, shape, P, lead, depth, nochain)

    # -- stochastic
    def stoch(self, t, shape, P, lead, depth, nochain=False):
        d = self.d
        ops = []
        if t == "g":
            ops += ["gard"] * 2
            if len(shape) == 1:
                ops += ["gauss"]
                if self.chains and not nochain and len(P) >= 1 and P[-1] >= 2 and depth < 2:
                    ops += ["gmc"]
        elif t == "c":
            ops += ["cat"]
            if self.chains and not nochain and len(P) >= 1 and 2 <= P[-1] <= 4:
                ops += ["cmc"]
        elif t == "d":
            ops += ["dirichlet"]
            if shape == [2]:
                ops += ["beta"]
        elif t == "gg":
            ops += ["gg"]
        else:
            ops += [{"ga": "gamma", "w": "wishart"}[t]]
        ops = [o for o in ops if self.ok(o)] or ops[:1]
        ops = [o for o in ops for _ in range(self.boost.get(o, 1))]
        return self.op(d.choice(ops), t, shape, P, lead, depth)

    def op(self, op, t, shape, P, lead, depth):
        d = self.d
        rec = dict(op=op, t=t, shape=list(shape), plates=list(P), lead=lead, par=[])
        S = list(shape)
        P = list(P)
        par = rec["par"]
        dep = depth + 1
        if op == "gard":
            full = P + S
            nd = d.choice([len(S), len(S), 0, min(len(full), 1), min(len(full), 2)])
            k = len(full) - nd
            if self.want == "ggsum" or (self.ok("gg") and d.bool(1, 12)):
                par.append(self.gg_node([], full, lead + len(S), dep))
            else:
                par.append(self.make("g", full[k:], full[:k], lead + len(S) - nd, (), dep,
                                     conv=True))
            par.append(self.make("ga", [], full, lead + len(S), self.ids(par[0]), dep))
        elif op == "gauss":
            if self.want in ("gg", "ggsum") or (self.ok("gg") and d.bool(1, 6)):
                par.append(self.gg_node(S, P, lead, dep))
            else:
                par.append(self.make("g", S, P, lead, (), dep, conv=True))
            par.append(self.make("w", S, P, lead, self.ids(par[0]), dep))
        elif op == "gamma":
            par.append(self.const("ga", [], P, lead))
            par.append(self.make("ga", [], P, lead, (), dep))
        elif op == "wishart":
            par.append(self.const("df", S, P, lead))
            par.append(self.make("w", S, P, lead, (), dep))
        elif op in ("dirichlet", "beta"):
            par.append(self.const("conc", S, P, lead))
        elif op == "gg":
            par.append(self.make("g", S, P, lead, (), dep, conv=True))
            # a scalar has a gamma variable as its precision
            par.append(self.make("w" if S else "ga", S, P, lead, self.ids(par[0]), dep))
            if not S and "i" in par[1] and self.nodes[par[1]["i"]]["op"] != "gamma":
                # the library converts only gamma variables and constants here
                par[1] = self.op("gamma", "ga", [], d.subshape(P), lead, dep)
            par.append(self.const("ga", [], P, lead))
            par.append(self.make("ga", [], P, lead, self.ids(par[0]) | self.ids(par[1]), dep))
        elif op == "cat":
            par.append(self.make("d", S, P, lead, (), dep))
        elif op in ("poisson",):
            par.append(self.make("ga", [], P, lead, (), dep))
        elif op in ("bernoulli", "binomial"):
            par.append(self.make("d", [2], P, lead, (), dep, node_only=True))
            if self.nodes[par[0]["i"]]["op"] not in ("beta", "comp"):
                # the library only takes beta-like parents here
                par[0] = self.op("beta", "d", [2], d.subshape(P), lead, dep)
            if op == "binomial":
                rec["n"] = d.int(1, 5)
        elif op == "multinomial":
            par.append(self.make("d", S, P, lead, (), dep))
            rec["n"] = d.int(1, 5)
        elif op == "gmc":
            D = S[0]
            N = P[-1]
            P0 = P[:-1]
            nA = d.choice([1, 1, N - 1])
            ninp = d.choice([0, 0, 0, 1, 2])
            rec["ninp"] = ninp
            par.append(self.make("g", S, P0, lead - 1, (), dep, nochain=True, conv=True))
            f = self.ids(par[0])
            par.append(self.make("w", S, P0, lead - 1, f, dep))
            f |= self.ids(par[1])
            PA = ([D] if nA == 1 and d.bool() else
                  (P0 if d.bool() else [1] * len(P0)) + [nA, D])
            if self.want == "ggsum" or (self.ok("gg") and d.bool(1, 6)):
                par.append(self.gg_node([D + ninp], PA, lead + 1, dep, exact=True, forbid=f))
            else:
                par.append(self.make("g", [D + ninp], PA, lead + 1, f, dep, exact=True,
                                     nochain=True, conv=True))
            f |= self.ids(par[2])
            PN = [D] if d.bool() else (P0 if d.bool() else [1] * len(P0)) + [1, D]
            par.append(self.make("ga", [], PN, lead + 1, f, dep, exact=True))
            if ninp:
                f |= self.ids(par[3])
                par.append(self.make("g", [ninp], (P0 if d.bool(1, 3) else []) + [N - 1], lead, f,
                                     dep, exact=True, nochain=True, conv=True))
        elif op == "cmc":
            K = S[0]
            N = P[-1]
            P0 = P[:-1]
            nA = d.choice([1, N - 1])
            par.append(self.make("d", S, P0, lead - 1, (), dep))
            PA = ([K] if nA == 1 and d.bool() else
                  (P0 if d.bool() else [1] * len(P0)) + [nA, K])
            par.append(self.make("d", S, PA, lead + 1, self.ids(par[0]), dep, exact=True))
        elif op == "mixture":
            return self.mixture(rec, depth)
        else:
            raise KeyError(op)
        return self.add(rec, None)

    def gg_node(self, S, P, lead, dep, exact=False, forbid=()):
        if self.want == "ggsum":
            self.want = None
            r = self.det_node("gg", S, P, lead, forbid, 0, exact, only="summul")
            if r is not None:
                return r
        return self.make("gg", S, P, lead, forbid, dep, node_only=True, nochain=True,
                         exact=exact)

    def with_axis(self, P, c, n):
        """Plates with an axis of length n at (negative) position c of the result."""
        k = len(P) + c + 1
        return P[:k] + [n] + P[k:]

    def sub_keep(self, P, c):
        """Sub-shape of P that keeps axis c exactly."""
        d = self.d
        s = [n if (j == len(P) + c or d.bool(2, 3)) else 1 for j, n in enumerate(P)]
        k = d.int(0, len(P) + c) if d.bool(1, 3) else 0
        return s[k:]

    def mixture(self, rec, depth):
        d = self.d
        P = rec["plates"]
        S = rec["shape"]
        t = rec["t"]
        lead = rec["lead"]
        K = d.int(2, 3)
        c = -d.int(1, len(P) + 1)
        rec["K"] = K
        rec["c"] = c
        Pk = self.with_axis(P, c, K)
        cls = rec.get("cls")
        if cls is None:
            cls = {"g": "gauss" if len(S) == 1 else "gard", "ga": "gamma", "w": "wishart",
                   "c": "cat", "d": "dirichlet", "cnt": "poisson", "mn": "multinomial"}[t]
        rec["cls"] = cls
        dep = depth + 1
        z = self.make("c", [K], P, lead, (), dep)
        f = self.ids(z)
        kinds = {"gauss": [("g", S), ("w", S)], "gard": [("g", []), ("ga", [])],
                 "gamma": [("aa", []), ("ga", [])], "wishart": [("df", S), ("w", S)],
                 "cat": [("d", S)], "dirichlet": [("conc", S)], "poisson": [("ga", [])],
                 "multinomial": [("d", S)], "bernoulli": [("d", [2])]}[cls]
        if cls == "multinomial":
            rec["n"] = d.int(1, 4)
        must = d.int(0, len(kinds) - 1)
        par = [z]
        for j, (tt, ss) in enumerate(kinds):
            keep = j == must or d.bool()
            if keep:
                pl = self.sub_keep(Pk, c)
            else:
                pl = Pk[:]
                pl[len(Pk) + c] = 1
                pl = d.subshape(pl)
            if tt in ("aa", "df", "conc"):
                par.append(self.const("ga" if tt == "aa" else tt, ss, pl, lead + 1, exact=True))
            elif cls == "bernoulli":
                par.append(self.op("beta", "d", [2], pl, lead + 1, dep))
            else:
                r = self.make(tt, ss, pl, lead + 1, f, dep, exact=True)
                par.append(r)
                f |= self.ids(r)
        rec["par"] = par
        return self.add(rec, None)

    # -- deterministic
    def det_node(self, t, shape, P, lead, forbid, depth, exact, only=None, conv=False):
        d = self.d
        ops = ["take", "slice", "gate", "concat", "choose"]
        if t == "gg":
            ops += ["summul"] * 3
        if t == "w":
            ops += ["diagw"]
        if t == "d" and shape == [2]:
            ops = ["comp"]
        if t == "g":
            ops += ["summul"] * 3 + ["add", "add"]
            if len(shape) == 1 and shape[0] >= 2:
                ops += ["concatg"] * 2
            if conv and P and len(shape) <= 2:
                ops += ["flatten"] * 2
        ops = [o for o in ops if self.ok(o) and (only is None or o == only)]
        if not ops:
            return None
        if only is not None:
            self.want = None
        elif not exact:
            P = d.subshape(P)
        ops = [o for o in ops for _ in range(self.boost.get(o, 1))]
        op = d.choice(ops)
        S = list(shape)
        dep = depth + 1
        rec = dict(op=op, t=t, shape=S, plates=list(P), lead=lead, par=[])
        par = rec["par"]
        f = set(forbid)

        def child(tt, ss, pl, ld, **kw):
            r = self.make(tt, ss, pl, ld, f, dep, **kw)
            par.append(r)
            return r

        if op == "diagw":
            child("ga", [], P + S, lead + 1, exact=True, node_only=True)
        elif op == "comp":
            par.append(self.op("beta", "d", [2], P, lead, dep))
        elif op == "flatten":
            if not P:
                return None
            m = d.int(1, min(len(P), 3 - len(S)))
            rec["xs"] = P[len(P) - m:]
            child("g", P[len(P) - m:] + S, P[:len(P) - m], lead - m, exact=True, nochain=True,
                  node_only=True)

        if op in ("summul", "add", "concatg"):
            if op == "summul":
                keys = list(range(len(S)))
                sizes = list(S)
                nf = d.int(1, 3) if len(S) <= 2 else 1
                for _ in range(d.int(0, 2)):
                    sizes.append(d.int(1, 3))
                fac = [[] for _ in range(nf)]
                for kx in range(len(sizes)):
                    who = [j for j in range(nf) if d.bool()] or [d.int(0, nf - 1)]
                    for j in who:
                        if len(fac[j]) < 2:
                            fac[j].append(kx)
                    if not any(kx in g for g in fac):
                        fac[who[0]].append(kx)
                fac = [[g[i] for i in d.perm(len(g))] for g in fac]
                shp = []
                for g in fac:
                    shp.append([sizes[kx] for kx in g])
                # broadcasting of a variable axis
                if d.bool(1, 5):
                    for kx in range(len(sizes)):
                        who = [j for j in range(nf) if kx in fac[j]]
                        if len(who) > 1 and d.bool():
                            j = who[0]
                            shp[j][fac[j].index(kx)] = 1
                rec["fac"] = fac
                rec["out"] = [keys[i] for i in range(len(S))]
                shapes = shp
            elif op == "add":
                shapes = [S] * d.int(2, 3)
            else:
                cut = sorted(set([d.int(1, S[0] - 1) for _ in range(d.int(1, 2))]))
                cut = [0] + cut + [S[0]]
                shapes = [[b - a] for a, b in zip(cut[:-1], cut[1:])]
            must = d.int(0, len(shapes) - 1)
            for j, ss in enumerate(shapes):
                kw = dict(exact=(exact and j == must), node_only=(j == must))
                if t == "gg" and len(ss) <= 1 and (j == must or d.bool(1, 4)):
                    r = child("gg", ss, P, lead, nochain=True, **dict(kw, node_only=True))
                elif t == "gg" and j == must:
                    return None
                else:
                    r = child("g", ss, P, lead, conv=(op == "summul"), **kw)
                f |= self.ids(r)
        elif op == "take":
            kind = d.choice([1, 1, 1, 2, 0])
            if kind > len(P):
                return None
            if kind == 0:
                c = -d.int(1, len(P) + 1)
                n = d.int(1, 3)
                src = self.with_axis(P, c, n)
                ish = []
            else:
                last = d.int(kind - 1, len(P) - 1)
                n = d.int(1, 3)
                c = last - len(P)
                src = P[:last - kind + 1] + [n] + P[last + 1:]
                ish = P[last - kind + 1:last + 1]
            rec["axis"] = c
            cnt = 1
            for s in ish:
                cnt *= s
            rec["idx"] = [d.int(-n, n - 1) for _ in range(cnt)]
            rec["ish"] = ish
            child(t, S, src, lead + 1 - kind, exact=True, nochain=True, node_only=True)
        elif op == "slice":
            src = []
            sl = []
            ld = lead
            for n in P:
                if d.bool(1, 6):
                    m = d.int(1, 3)
                    src.append(m)
                    sl.append(["i", d.int(-m, m - 1)])
                    ld += 1
                if n == 1 and d.bool(1, 3):
                    sl.append(["n"])
                    ld -= 1
                    continue
                k = d.choice([0, 1, 2])
                if k == 0:
                    src.append(n)
                    sl.append(["s", None, None, None])
                elif k == 1:
                    a = d.int(0, 2)
                    b = d.int(0, 2)
                    src.append(a + n + b)
                    sl.append(["s", a, a + n, None])
                else:
                    st = d.int(1, 2)
                    a = d.int(0, 1)
                    L = a + (n - 1) * st + 1 + d.int(0, st - 1)
                    src.append(L)
                    sl.append(["s", a, None, st])
            if d.bool(1, 6) or not P:
                m = d.int(1, 3)
                src.append(m)
                sl.append(["i", d.int(-m, m - 1)])
                ld += 1
            rec["sl"] = sl
            child(t, S, src, ld, exact=True, nochain=True, node_only=True)
        elif op == "gate":
            K = d.int(2, 3)
            c = -d.int(1, len(P) + 1)
            rec["c"] = c
            rec["K"] = K
            r = child("c", [K], P, lead, exact=exact)
            f |= self.ids(r)
            Pk = self.with_axis(P, c, K)
            child(t, S, self.sub_keep(Pk, c), lead + 1, exact=True, nochain=True, node_only=True)
        elif op == "concat":
            axes = [j - len(P) for j in range(len(P)) if P[j] >= 2]
            if not axes:
                return None
            ax = d.choice(axes)
            n = P[ax]
            a = d.int(1, n - 1)
            lens = [a, n - a]
            if lens[1] >= 2 and d.bool(1, 3):
                lens = [a, 1, n - a - 1]
            rec["ax"] = ax
            rec["lens"] = lens
            must = d.int(0, len(lens) - 1)
            for j, m in enumerate(lens):
                pl = list(P)
                pl[ax] = m
                child(t, S, pl, lead, exact=True, nochain=True,
                      node_only=(j == must or t == "gg"))
        elif op == "choose":
            K = d.int(2, 3)
            rec["K"] = K
            r = child("c", [K], P, lead, exact=exact)
            f |= self.ids(r)
            pl = d.subshape(P)
            for j in range(K):
                child(t, S, pl, lead, exact=True, nochain=True, node_only=True)
        # actual plates: what the parents broadcast to
        rec["plates"] = list(det_plates(rec, [self.plates(p) for p in par]))
        ids = set()
        for p in par:
            ids |= self.ids(p)
        if exact and rec["plates"] != list(P):
            # cannot provide the requested plates; the (childless) parents stay as they are
            self.drop_unused()
            return None
        return self.add(rec, ids)

    def drop_unused(self):
        pass

    # -- a whole model
    def model(self):
        d = self.d
        ops = self.leaf_ops or ["gard", "gard", "gauss", "gamma", "wishart", "cat", "poisson",
                                "bernoulli", "binomial", "multinomial", "mixture", "mixture",
                                "dirichlet", "beta"]
        lead = 3
        obs = []
        w = self.want
        for k in range(d.int(1, self.nleaves)):
            op = d.choice([o for o in ops if self.ok(o)] or ops)
            P = d.shape(self.maxplates, 3)
            if k == 0 and w in ("gmc", "cmc"):
                P = d.shape(self.maxplates - 1, 2) + [d.int(2, 4)]
                op = d.choice(["gard", "gard", "gauss"]) if w == "gmc" else "mixture"
            elif k == 0 and w in ("summul", "add", "concatg"):
                op = d.choice(["gard", "gauss"])
            elif k == 0 and w in ("gg", "diagw"):
                op = "gauss"
            elif k == 0 and w == "flatten":
                P = d.shape(max(1, self.maxplates), 3, mindim=1)
                op = d.choice(["gauss", "gauss", "gard"])
            elif k == 0 and w == "ggsum":
                op = d.choice(["gauss", "gard"])
            elif k == 0 and w in ("concat", "take", "slice"):
                P = d.shape(self.maxplates, 3, mindim=min(1, self.maxplates))
                if P:
                    P[d.int(0, len(P) - 1)] = d.int(2, 4)
            elif k == 0 and w == "comp":
                op = d.choice(["bernoulli", "binomial", "cat"])
            cls = None
            if op == "mixture":
                cls = d.choice(["gauss", "gard", "gamma", "cat", "poisson", "multinomial",
                                "wishart", "bernoulli", "dirichlet"])
                t, S = leaf_type(d, cls)
                if cls == "gard":
                    S = []
            else:
                t, S = leaf_type(d, op)
            if op in ("dirichlet", "beta") and d.bool(2, 3):
                op = "gard"
                t, S = leaf_type(d, op)
            if k == 0 and w in ("gmc", "concatg") and op == "gard":
                S = [d.int(1 if w == "gmc" else 2, 3)]
            elif k == 0 and w == "concatg":
                S = [d.int(2, 3)]
            before = len(self.nodes)
            rec = dict(op=op, t=t, shape=S, plates=P, lead=lead, par=[])
            if cls:
                rec["cls"] = cls
                r = self.mixture(rec, 0)
            else:
                r = self.op(op, t, S, P, lead, 0)
            i = r["i"]
            self.nodes[i]["leaf"] = True
            obs.append(dict(i=i, seed=d.seed(), mask=self.mask(P)))
        # some internal variables are (partly) observed too
        for i, n in enumerate(self.nodes):
            if (self.partial and not n.get("leaf") and n["op"] in OBSERVABLE and d.bool(1, 10)):
                obs.append(dict(i=i, seed=d.seed(), mask=self.mask(n["plates"])))
        return dict(seed=d.seed(), nodes=self.nodes, obs=obs)

    def mask(self, P):
        d = self.d
        if d.bool(2, 3):
            return None
        return dict(shape=d.subshape(P), seed=d.seed(), p=d.choice([0.2, 0.5, 0.8]))


OBSERVABLE = ("gard", "gauss", "gamma", "wishart", "dirichlet", "beta", "cat")
STOCH = ("gard", "gauss", "gamma", "wishart", "dirichlet", "beta", "cat", "gg", "poisson",
         "bernoulli", "binomial", "multinomial", "gmc", "cmc", "mixture")


def leaf_type(d, op):
    if op == "gard":
        return "g", d.shape(2, 3)
    if op == "gauss":
        return "g", [d.int(1, 3)]
    if op == "gamma":
        return "ga", []
    if op == "wishart":
        return "w", [d.int(1, 3)]
    if op in ("dirichlet", "cat"):
        return ("d" if op == "dirichlet" else "c"), [d.int(2, 3)]
    if op == "beta":
        return "d", [2]
    if op == "multinomial":
        return "mn", [d.int(2, 3)]
    return "cnt", []


def is_sub(a, b):
    if len(a) > len(b):
        return False
    return all(x == 1 or x == y for x, y in zip(a[::-1], b[::-1]))


def det_plates(rec, pp):
    op = rec["op"]
    if op in ("summul", "add", "concatg", "comp"):
        return np.broadcast_shapes(*[tuple(p) for p in pp])
    if op == "diagw":
        return tuple(pp[0][:-1])
    if op == "flatten":
        return tuple(pp[0]) + tuple(rec["xs"])
    if op == "take":
        p = pp[0]
        c = rec["axis"]
        return tuple(p[:len(p) + c]) + tuple(rec["ish"]) + tuple(p[len(p) + c + 1:])
    if op == "slice":
        return np.empty(pp[0])[slices(rec)].shape
    if op == "gate":
        p = list(pp[1])
        p.pop(rec["c"])
        return np.broadcast_shapes(tuple(pp[0]), tuple(p))
    if op == "concat":
        return tuple(_setax(pp[0], rec["ax"], sum(p[rec["ax"]] for p in pp)))
    if op == "choose":
        return np.broadcast_shapes(*[tuple(p) for p in pp])
    raise KeyError(op)


def _setax(p, ax, n):
    p = list(p)
    p[ax] = n
    return p


def slices(rec):
    r = [Ellipsis]
    for s in rec["sl"]:
        if s[0] == "i":
            r.append(int(s[1]))
        elif s[0] == "n":
            r.append(None)
        else:
            r.append(slice(s[1], s[2], s[3]))
    return tuple(r)


# -------------------------------------------------------------------- mirror

def const_value(ref):
    rs = np.random.RandomState(ref["k"])
    P = tuple(ref["plates"])
    t = ref["t"]
    if t == "df":
        return ref["shape"][0] + 0.5 + 2 * rs.rand(*P)
    if t == "conc":
        return 0.5 + 2 * rs.rand(*(P + tuple(ref["shape"])))
    return dn.random_value(t, rs, P, ref["shape"])


def moveax(a, src, dst):
    return np.moveaxis(a, src, dst)


def scalarise(u, t, plates, shape):
    """Gaussian array moments -> scalar moments with shape moved to plates."""
    return u[0], dn.diag_of(u[1], shape)


def el_gaussvec(x, xx, mu, mumu, Lam, ld):
    """E log N(x | mu, Lam^-1), everything dense vectors over common plates."""
    D = x.shape[-1]
    S = (xx - x[..., :, None] * mu[..., None, :] - mu[..., :, None] * x[..., None, :] + mumu)
    return 0.5 * ld - 0.5 * D * LOG2PI - 0.5 * np.einsum("...ij,...ij->...", Lam, S)


def el_gauss1(x, xx, mu, mumu, a, la):
    return 0.5 * la - 0.5 * LOG2PI - 0.5 * a * (xx - 2 * x * mu + mumu)


def mirror_elogp(rec, u, pu, pinfo, P):
    """Expected log density of one stochastic node, array over its plates P.

    u: own dense moments; pu: parents' dense moments; pinfo: (t, shape, plates).
    """
    op = rec["op"]
    S = tuple(rec["shape"])
    P = tuple(P)
    if op == "gard":
        full = P + S
        x = u[0]
        xx = dn.diag_of(u[1], S)
        if pinfo[0][0] == "gg":
            ax, axx, a, la = [np.broadcast_to(z, full) for z in pu[0]]
            b, lb = [np.broadcast_to(z, full) for z in pu[1]]
            r = 0.5 * (la + lb) - 0.5 * LOG2PI - 0.5 * b * (a * xx - 2 * x * ax + axx)
            return r.sum(axis=tuple(range(len(P), len(full)))) if S else r
        m, mm = scalarise(pu[0], *pinfo[0][0:1], pinfo[0][2], pinfo[0][1])
        r = el_gauss1(x, xx, np.broadcast_to(m, full), np.broadcast_to(mm, full),
                      np.broadcast_to(pu[1][0], full), np.broadcast_to(pu[1][1], full))
        return r.sum(axis=tuple(range(len(P), len(full)))) if S else r
    if op == "gauss":
        Lam, ld = pu[1]
        if pinfo[0][0] == "gg":
            ax, axx, a, la = pu[0]
            x, xx = u
            D = S[0]
            xm = (bc(a, P, ())[..., None, None] * xx - x[..., :, None] * bc(ax, P, S)[..., None, :]
                  - bc(ax, P, S)[..., :, None] * x[..., None, :] + bc(axx, P, S + S))
            return (0.5 * bc(ld, P, ()) + 0.5 * D * bc(la, P, ()) - 0.5 * D * LOG2PI
                    - 0.5 * np.einsum("...ij,...ij->...", bc(Lam, P, S + S), xm))
        m, mm = pu[0]
        return el_gaussvec(u[0], u[1], bc(m, P, S), bc(mm, P, S + S), bc(Lam, P, S + S),
                           bc(ld, P, ()))
    if op == "gamma":
        a = bc(pu[0], P, ())
        b, lb = [bc(z, P, ()) for z in pu[1]]
        return a * lb - special.gammaln(a) + (a - 1) * u[1] - b * u[0]
    if op == "wishart":
        n = bc(pu[0], P, ())
        V, lV = bc(pu[1][0], P, S + S), bc(pu[1][1], P, ())
        D = S[0]
        return (n / 2 * lV - n * D / 2 * np.log(2) - dn.mvgammaln(n / 2, D)
                + (n - D - 1) / 2 * u[1] - 0.5 * np.einsum("...ij,...ij->...", V, u[0]))
    if op in ("dirichlet", "beta"):
        a = bc(pu[0], P, S)
        return (special.gammaln(a.sum(-1)) - special.gammaln(a).sum(-1)
                + ((a - 1) * u[0]).sum(-1))
    if op == "cat":
        return (u[0] * bc(pu[0][0], P, S)).sum(-1)
    if op == "poisson":
        l, ll = [bc(z, P, ()) for z in pu[0]]
        return u[0] * ll - l - special.gammaln(u[0] + 1)
    if op in ("bernoulli", "binomial"):
        n = rec.get("n", 1)
        lp = bc(pu[0][0], P, (2,))
        x = u[0]
        return (special.gammaln(n + 1) - special.gammaln(x + 1) - special.gammaln(n - x + 1)
                + x * lp[..., 0] + (n - x) * lp[..., 1])
    if op == "multinomial":
        lp = bc(pu[0][0], P, S)
        return (special.gammaln(rec["n"] + 1) - special.gammaln(u[0] + 1).sum(-1)
                + (u[0] * lp).sum(-1))
    if op == "gg":
        ax, axx, a, la = u
        D = dn.size(S)
        m, mm = bc(pu[0][0], P, S), bc(pu[0][1], P, S + S)
        Lam, ld = bc(pu[1][0], P, S + S), bc(pu[1][1], P, ())
        if S:
            Q = (axx - ax[..., :, None] * m[..., None, :] - m[..., :, None] * ax[..., None, :]
                 + a[..., None, None] * mm)
            Q = np.einsum("...ij,...ij->...", Lam, Q)
        else:
            Q = Lam * (axx - 2 * ax * m + a * mm)
        a0 = bc(pu[2], P, ())
        b, lb = [bc(z, P, ()) for z in pu[3]]
        return (0.5 * ld + 0.5 * D * la - 0.5 * D * LOG2PI
                - 0.5 * Q
                + a0 * lb - special.gammaln(a0) + (a0 - 1) * la - b * a)
    if op == "gmc":
        N = rec["N"]
        D = S[0]
        x, xx, xy = u
        r = el_gaussvec(x[..., 0, :], xx[..., 0, :, :], bc(pu[0][0], P, S), bc(pu[0][1], P, S + S),
                        bc(pu[1][0], P, S + S), bc(pu[1][1], P, ()))
        k = rec.get("ninp", 0)
        E = D + k
        A = bc(pu[2][0], P + (N - 1, D), (E,))
        AA = bc(pu[2][1], P + (N - 1, D), (E, E))
        nu = bc(pu[3][0], P + (N - 1, D), ())
        lnu = bc(pu[3][1], P + (N - 1, D), ())
        tau, ltau = 1.0, 0.0
        if pinfo[2][0] == "gg":
            tau = bc(pu[2][2], P + (N - 1, D), ())
            ltau = bc(pu[2][3], P + (N - 1, D), ())
        # regressor z = [x_{n-1}; input]
        zz = np.zeros(P + (N - 1, E, E))
        zy = np.zeros(P + (N - 1, E, D))
        zz[..., :D, :D] = xx[..., :-1, :, :]
        zy[..., :D, :] = xy
        if k:
            w = bc(pu[4][0], P + (N - 1,), (k,))
            ww = bc(pu[4][1], P + (N - 1,), (k, k))
            zz[..., D:, D:] = ww
            c = x[..., :-1, :, None] * w[..., None, :]
            zz[..., :D, D:] = c
            zz[..., D:, :D] = np.swapaxes(c, -1, -2)
            zy[..., D:, :] = w[..., :, None] * x[..., 1:, None, :]
        y2 = np.einsum("...ii->...i", xx[..., 1:, :, :])
        e = (tau * y2 - 2 * np.einsum("...de,...ed->...d", A, zy)
             + np.einsum("...dij,...ij->...d", AA, zz))
        t = 0.5 * (lnu + ltau) - 0.5 * LOG2PI - 0.5 * nu * e
        return r + t.sum(axis=(-1, -2))
    if op == "cmc":
        N = rec["N"]
        K = S[0]
        lp0 = bc(pu[0][0], P, (K,))
        lA = bc(pu[1][0], P + (N - 1, K), (K,))
        return (u[0] * lp0).sum(-1) + (u[1] * lA).sum(axis=(-1, -2, -3))
    if op == "mixture":
        K = rec["K"]
        c = rec["c"]
        k = len(P) + c + 1
        Pk = P[:k] + (K,) + P[k:]
        z = bc(pu[0][0], P, (K,))
        z = np.moveaxis(z, -1, k)
        dims = dn.dims_of(rec["t"], S)
        uk = [np.broadcast_to(np.expand_dims(ui, k), Pk + tuple(di)) for ui, di in zip(u, dims)]
        sub = dict(rec, op=rec["cls"])
        e = mirror_elogp(sub, uk, pu[1:], pinfo[1:], Pk)
        with np.errstate(invalid="ignore"):
            return np.where(z != 0, z * e, 0).sum(axis=k)
    raise KeyError(op)


def mirror_moments(rec, pu, pinfo):
    """Dense moments of a deterministic node from dense parent moments."""
    op = rec["op"]
    t = rec["t"]
    S = tuple(rec["shape"])
    P = tuple(rec["plates"])
    dims = dn.dims_of(t, S)
    if op == "summul":
        args1, args2 = [], []
        nkey = 1 + max([k for g in rec["fac"] for k in g] + [0])
        for (u, (tt, ss, pl), g) in zip(pu, pinfo, rec["fac"]):
            # explicit broadcasting of unit variable axes
            full = tuple(rec["sizes"][k] for k in g)
            m = bc(np.broadcast_to(u[0], tuple(pl) + tuple(ss)), P, full)
            mm = bc(np.broadcast_to(u[1], tuple(pl) + tuple(ss) + tuple(ss)), P, full + full)
            args1 += [m, [Ellipsis] + list(g)]
            args2 += [mm, [Ellipsis] + list(g) + [nkey + x for x in g]]
        o = list(rec["out"])
        # summed keys: sum over i in mean; over (i,i') independently in second moment
        m = np.einsum(*args1, [Ellipsis] + o)
        mm = np.einsum(*args2, [Ellipsis] + o + [nkey + x for x in o])
        if t == "gg":
            gg = [u for u, i in zip(pu, pinfo) if i[0] == "gg"]
            return [m, mm, bc(np.prod(np.broadcast_arrays(np.ones(P), *[u[2] for u in gg]),
                                      axis=0), P, ()),
                    bc(sum(bc(u[3], P, ()) for u in gg), P, ())]
        return [m, mm]
    if op == "diagw":
        return [pu[0][0][..., None] * np.eye(S[0]), pu[0][1].sum(-1)]
    if op == "comp":
        return [pu[0][0][..., ::-1]]
    if op == "flatten":
        n = len(rec["xs"])
        xx = pu[0][1]
        k = len(pinfo[0][2])
        for j in range(n):
            # axes k+j and its counterpart are the same index
            xx = np.moveaxis(np.diagonal(xx, axis1=k, axis2=k + n + len(S)), -1, k + n - 1)
        return [pu[0][0], xx]
    if op == "add":
        ms = [bc(u[0], P, S) for u in pu]
        fl = [dn.flat(bc(u[0], P, S), bc(u[1], P, S + S), S) for u in pu]
        m = sum(f[0] for f in fl)
        C = sum(f[1] - f[0][..., :, None] * f[0][..., None, :] for f in fl)
        mm = C + m[..., :, None] * m[..., None, :]
        return [m.reshape(P + S), mm.reshape(P + S + S)]
    if op == "concatg":
        ms, Cs = [], []
        for u, (tt, ss, pl) in zip(pu, pinfo):
            m = bc(u[0], P, tuple(ss))
            C = bc(u[1], P, tuple(ss) * 2) - m[..., :, None] * m[..., None, :]
            ms.append(m)
            Cs.append(C)
        m = np.concatenate(ms, axis=-1)
        C = np.zeros(P + S + S)
        k = 0
        for c in Cs:
            n = c.shape[-1]
            C[..., k:k + n, k:k + n] = c
            k += n
        return [m, C + m[..., :, None] * m[..., None, :]]
    if op == "take":
        idx = np.array(rec["idx"], dtype=int).reshape(rec["ish"])
        return [np.take(u, idx, axis=rec["axis"] - len(d)) for u, d in zip(pu[0], dims)]
    if op == "slice":
        return [u[slices(rec) + (slice(None),) * len(d)] for u, d in zip(pu[0], dims)]
    if op == "gate":
        K = rec["K"]
        z = bc(pu[0][0], P, (K,))
        r = []
        for u, d in zip(pu[1], dims):
            acc = 0
            for k in range(K):
                xk = np.take(u, k, axis=rec["c"] - len(d))
                acc = acc + z[..., k].reshape(P + (1,) * len(d)) * bc(xk, P, d)
            r.append(acc)
        return r
    if op == "concat":
        return [np.concatenate([p[j] for p in pu], axis=rec["ax"] - len(d))
                for j, d in enumerate(dims)]
    if op == "choose":
        K = rec["K"]
        z = bc(pu[0][0], P, (K,))
        r = []
        for j, d in enumerate(dims):
            r.append(sum(z[..., k].reshape(P + (1,) * len(d)) * bc(pu[1 + k][j], P, d)
                         for k in range(K)))
        return r
    raise KeyError(op)


def mirror_mask(rec, k, mask, pinfo):
    """Which plates of parent k are used by the active plates of this node."""
    op = rec["op"]
    t, shape, pl = pinfo[k]
    pl = tuple(pl)
    sh = tuple(shape)
    if op == "gard":
        full = mask.shape + tuple(rec["shape"])
        m = np.broadcast_to(mask.reshape(mask.shape + (1,) * len(rec["shape"])), full)
        if k == 0:
            r = dn.any_to(m, full, pl + sh)
            return r.reshape(pl + (-1,)).any(-1) if sh else r
        return dn.any_to(m, full, pl)
    if op in ("gmc", "cmc") and k >= (2 if op == "gmc" else 1):
        N = rec["N"]
        ex = (N - 1,) if (op == "gmc" and k == 4) else (N - 1, rec["shape"][0])
        full = mask.shape + ex
        m = np.broadcast_to(mask.reshape(mask.shape + (1,) * len(ex)), full)
        return dn.any_to(m, full, pl)
    if (op == "gate" and k == 1) or (op == "mixture" and k >= 1):
        ax = mask.ndim + rec["c"] + 1
        m = np.expand_dims(mask, ax)
        full = mask.shape[:ax] + (rec["K"],) + mask.shape[ax:]
        return dn.any_to(np.broadcast_to(m, full), full, pl)
    if op == "take":
        r = np.zeros(pl, dtype=bool)
        ax = len(pl) + rec["axis"]
        idx = np.array(rec["idx"], dtype=int).reshape(rec["ish"])
        ids = np.arange(pl[ax])[idx]
        nd = len(rec["ish"])
        for j in np.ndindex(*rec["ish"]):
            src = (slice(None),) * ax + j
            dst = (slice(None),) * ax + (int(ids[j]),)
            r[dst] = r[dst] | mask[src]
        return r
    if op == "diagw":
        return np.broadcast_to(mask[..., None], pl)
    if op == "flatten":
        return mask.reshape(pl + (-1,)).any(-1)
    if op == "slice":
        r = np.zeros(pl, dtype=bool)
        r[slices(rec)] = mask
        return r
    if op == "concat":
        st = sum(rec["lens"][:k])
        ax = mask.ndim + rec["ax"]
        r = mask[(slice(None),) * ax + (slice(st, st + rec["lens"][k]),)]
        return dn.any_to(r, r.shape, pl)
    return dn.any_to(mask, mask.shape, pl)


# --------------------------------------------------------------------- model

class Model:
    """A built model.  R: replicate every variable along a new outermost plate axis;
    copy: build only that copy."""

    def __init__(self, spec, R=None, copy=None, data=True, obs=None, names=False,
                 copies=None, shared=(), kwargs=None, drop=(), tile=False):
        """R: replicate along a new outermost axis.  copy: build only that copy (without
        the axis).  copies: build these copies (with the axis).  shared: indices of nodes
        that are not replicated (must be closed under parents).  kwargs: extra keyword
        arguments for the replicated stochastic nodes."""
        self.spec = spec
        self.copies = copies
        self.shared = set(shared)
        self.nR = R if copies is None else len(copies)
        self.kwargs = kwargs or {}
        self.drop = list(drop)      # copies whose observations are masked out
        self.tile = tile            # constants written out over all of their plates
        self.recs = []
        self.nodes = []
        self.R = R
        self.copy = copy
        NN = bayespy_nodes()
        for i, rec in enumerate(spec["nodes"]):
            rec = dict(rec)
            rec["rep"] = R is not None and i not in self.shared
            if rec["rep"] and copy is None:
                rec["plates"] = [self.nR] + [1] * (rec["lead"] - len(rec["plates"])) + rec["plates"]
            if rec["op"] in ("gmc", "cmc"):
                rec["N"] = rec["plates"][-1]
                rec["own"] = tuple(rec["plates"][:-1])
                rec["own_t"] = rec["op"]
                rec["own_shape"] = (rec["N"], rec["shape"][0])
            else:
                rec["own"] = tuple(rec["plates"])
                rec["own_t"] = rec["t"]
                rec["own_shape"] = tuple(rec["shape"])
            if rec["op"] == "summul":
                sz = {}
                for g, p in zip(rec["fac"], rec["par"]):
                    ss = self.ref_shape(p)
                    for kx, s in zip(g, ss):
                        sz[kx] = max(sz.get(kx, 1), s)
                rec["sizes"] = sz
            self.recs.append(rec)
            args = [self.arg(p, rec, k) for k, p in enumerate(rec["par"])]
            kw = dict(name="n%d" % i) if names else {}
            if rec["rep"] and rec["op"] in STOCH:
                kw.update(self.kwargs(i, rec) if callable(self.kwargs) else self.kwargs)
            self.nodes.append(self.build(NN, rec, args, kw))
        self.stoch = [i for i, r in enumerate(self.recs) if r["op"] in STOCH]
        self.obs = {}
        if data:
            for o in (obs if obs is not None else spec["obs"]):
                self.observe(o)
        self.masks()

    # -- references
    def ref_shape(self, p):
        return self.recs[p["i"]]["shape"] if "i" in p else p["shape"]

    def const(self, p, rep=None):
        if self.R is None or not rep:
            return const_value(p)
        P = p["plates"]
        rep = dict(p, plates=[self.R] + [1] * (p["lead"] - len(P)) + P)
        v = const_value(rep)
        if self.copies is not None:
            v = v[list(self.copies)]
        if self.copy is not None:
            v = v[self.copy]
            v = v.reshape(v.shape[p["lead"] - len(P):])
        return v

    def arg(self, p, rec, k):
        if "i" in p:
            return self.nodes[p["i"]]
        v = self.const(p, rec["rep"])
        if self.tile:
            full = target_plates(rec, k)
            if full is not None:
                v = np.asarray(v)
                nd = {"w": 2 * len(p["shape"]), "ga": 0, "df": 0, "c": 0}.get(p["t"], len(p["shape"]))
                v = np.array(np.broadcast_to(v, tuple(full) + v.shape[v.ndim - nd:]))
        return v

    def pinfo(self, rec):
        r = []
        for p in rec["par"]:
            if "i" in p:
                q = self.recs[p["i"]]
                r.append((q["t"], tuple(q["shape"]), tuple(q["plates"])))
            else:
                P = tuple(p["plates"])
                if rec["rep"] and self.copy is None:
                    P = (self.nR,) + (1,) * (p["lead"] - len(P)) + P
                r.append((p["t"], tuple(p["shape"]), P))
        return r

    # -- bayespy
    def build(self, NN, rec, a, kw):
        op = rec["op"]
        P = tuple(rec["own"])
        S = tuple(rec["shape"])
        if op == "gard":
            return NN.GaussianARD(a[0], a[1], shape=S, plates=P, **kw)
        if op == "gauss":
            return NN.Gaussian(a[0], a[1], plates=P, **kw)
        if op == "gamma":
            return NN.Gamma(a[0], a[1], plates=P, **kw)
        if op == "wishart":
            return NN.Wishart(a[0], a[1], plates=P, **kw)
        if op == "dirichlet":
            return NN.Dirichlet(a[0], plates=P, **kw)
        if op == "beta":
            return NN.Beta(a[0], plates=P, **kw)
        if op == "gg":
            if not S:
                lam = a[1].as_wishart() if hasattr(a[1], "as_wishart") else a[1]
                return NN.GaussianGamma(a[0], lam, a[2], a[3], ndim=0, plates=P, **kw)
            return NN.GaussianGamma(a[0], a[1], a[2], a[3], plates=P, **kw)
        if op == "diagw":
            if not hasattr(a[0], "as_diagonal_wishart"):
                from bayespy.inference.vmp.nodes.gamma import diagonal
                return diagonal(a[0])
            return a[0].as_diagonal_wishart()
        if op == "comp":
            return a[0].complement()
        if op == "flatten":
            return a[0]
        if op == "cat":
            return NN.Categorical(a[0], plates=P, **kw)
        if op == "poisson":
            return NN.Poisson(a[0], plates=P, **kw)
        if op == "bernoulli":
            return NN.Bernoulli(a[0], plates=P, **kw)
        if op == "binomial":
            return NN.Binomial(rec["n"], a[0], plates=P, **kw)
        if op == "multinomial":
            return NN.Multinomial(rec["n"], a[0], plates=P, **kw)
        if op == "gmc":
            if rec.get("ninp"):
                kw = dict(kw, inputs=a[4])
            return NN.GaussianMarkovChain(a[0], a[1], a[2], a[3], n=rec["N"], plates=P, **kw)
        if op == "cmc":
            return NN.CategoricalMarkovChain(a[0], a[1], states=rec["N"], plates=P, **kw)
        if op == "mixture":
            cls = {"gard": NN.GaussianARD, "gauss": NN.Gaussian, "gamma": NN.Gamma,
                   "wishart": NN.Wishart, "cat": NN.Categorical, "dirichlet": NN.Dirichlet,
                   "poisson": NN.Poisson, "multinomial": NN.Multinomial,
                   "bernoulli": NN.Bernoulli}[rec["cls"]]
            args = a[1:]
            if rec["cls"] == "multinomial":
                args = [rec["n"]] + args
            return NN.Mixture(a[0], cls, *args, cluster_plate=rec["c"], plates=P, **kw)
        if op == "summul":
            args = []
            for n, g in zip(a, rec["fac"]):
                args += [n, list(g)]
            return NN.SumMultiply(*(args + [list(rec["out"])]))
        if op == "add":
            return NN.Add(*a)
        if op == "concatg":
            return NN.ConcatGaussian(*a)
        if op == "take":
            return NN.Take(a[0], np.array(rec["idx"], dtype=int).reshape(rec["ish"]),
                           plate_axis=rec["axis"])
        if op == "slice":
            return a[0][slices(rec)]
        if op == "gate":
            return NN.Gate(a[0], a[1], gated_plate=rec["c"])
        if op == "concat":
            return NN.Concatenate(*a, axis=rec["ax"])
        if op == "choose":
            return NN.Choose(a[0], *a[1:])
        raise KeyError(op)

    def data(self, o):
        """Observation value (and dense moments) for one observation record."""
        rec = self.recs[o["i"]]
        base = self.spec["nodes"][o["i"]]
        rs = np.random.RandomState(o["seed"])
        if not rec["rep"]:
            P = tuple(rec["own"])
        else:
            P = (self.R,) + (1,) * (base["lead"] - len(base["plates"])) + tuple(base["plates"])
        S = tuple(rec["shape"])
        t = rec["t"]
        op = rec.get("cls", rec["op"])
        if op == "poisson":
            x = rs.poisson(2.0, size=P)
        elif op == "bernoulli":
            x = rs.randint(0, 2, size=P)
        elif op == "binomial":
            x = rs.randint(0, rec["n"] + 1, size=P)
        elif op == "multinomial":
            x = rs.multinomial(rec["n"], np.ones(S[0]) / S[0], size=P)
        else:
            x = dn.random_value(t, rs, P, S)
        mask = True
        if o["mask"] is not None:
            ms = tuple(o["mask"]["shape"])
            rm = np.random.RandomState(o["mask"]["seed"])
            if rec["rep"]:
                ms = (self.R,) + (1,) * (base["lead"] - len(ms)) + ms
            mask = rm.rand(*ms) < o["mask"]["p"]
            mask = np.asarray(mask)
        if rec["rep"] and self.drop:
            k = np.ones(self.R, bool)
            k[self.drop] = False
            mask = np.asarray(mask) & k.reshape((self.R,) + (1,) * (len(P) - 1))
        if rec["rep"] and self.copies is not None:
            x = np.asarray(x)[list(self.copies)]
            if mask is not True:
                mask = mask[list(self.copies)]
        if rec["rep"] and self.copy is not None:
            k = base["lead"] - len(base["plates"])
            x = np.asarray(x)[self.copy]
            x = x.reshape(x.shape[k:])
            if mask is not True:
                mask = mask[self.copy]
                mask = mask.reshape(mask.shape[base["lead"] - len(o["mask"]["shape"]):])
        return x, mask

    def obs_moments(self, rec, x):
        t = rec["t"]
        if t in ("cnt", "mn"):
            return [np.asarray(x, dtype=float)]
        return dn.fixed_moments(t, x, rec["shape"])

    def observe(self, o, x=None):
        d, mask = self.data(o)
        if x is None:
            x = d
        rec = self.recs[o["i"]]
        node = self.nodes[o["i"]]
        full = x
        if rec["op"] == "beta":
            x = x[..., 0]
        if mask is True:
            node.observe(x)
        else:
            node.observe(x, mask=mask)
        self.obs[o["i"]] = (full, np.broadcast_to(np.asarray(mask), tuple(rec["own"])))

    def unobserve(self, i, seed):
        """Remove the observations of node i and give it a random factor (False: left alone)."""
        rec = self.recs[i]
        if i not in self.obs or rec["own_t"] in ("cnt", "mn") or rec["op"] in ("mn", "cnt"):
            return False
        self.nodes[i].unobserve()
        del self.obs[i]
        self.masks()
        self.nodes[i].set_parameters(dn.random_phi(rec["own_t"], np.random.RandomState(seed),
                                                   rec["own"], rec["own_shape"]))
        return True

    # -- mirror
    def masks(self):
        """active[i]: plates of node i that (transitively) have observations."""
        n = len(self.recs)
        self.active = [np.zeros(tuple(r["own"]), dtype=bool) for r in self.recs]
        for i in range(n - 1, -1, -1):
            if i in self.obs:
                self.active[i] = self.active[i] | self.obs[i][1]
            rec = self.recs[i]
            for k, p in enumerate(rec["par"]):
                if "i" not in p:
                    continue
                m = mirror_mask(rec, k, self.active[i], self.pinfo(rec))
                q = self.recs[p["i"]]
                if q["op"] in ("gmc", "cmc"):
                    m = m.any(axis=-1)
                self.active[p["i"]] = self.active[p["i"]] | m

    def observed(self, i):
        if i in self.obs:
            return self.obs[i][1]
        return np.zeros(tuple(self.recs[i]["own"]), dtype=bool)

    def latents(self):
        return [i for i in self.stoch if not np.all(self.observed(i))]

    def own_moments(self, i):
        """Dense moments reported by the library for stochastic node i."""
        rec = self.recs[i]
        dims = dn.dims_of(rec["own_t"], rec["own_shape"])
        return [bc(u, rec["own"], d) for u, d in zip(self.nodes[i].get_moments(), dims)]

    def view(self, i, cache=None):
        """Dense moments of node i as its children see it."""
        cache = {} if cache is None else cache
        if i in cache:
            return cache[i]
        rec = self.recs[i]
        if rec["op"] in STOCH:
            u = self.own_moments(i)
            if rec["op"] == "gmc":
                u = [u[0], u[1]]
            elif rec["op"] == "cmc":
                p = u[1].sum(axis=-2)
                u = [np.concatenate([u[0][..., None, :], p], axis=-2)]
        else:
            u = mirror_moments(rec, self.parent_moments(rec, cache), self.pinfo(rec))
        cache[i] = u
        return u

    def parent_moments(self, rec, cache=None):
        r = []
        for p in rec["par"]:
            if "i" in p:
                r.append(self.view(p["i"], cache))
            else:
                v = self.const(p, rec["rep"])
                if p["t"] in ("df", "conc") or (rec["op"] in ("gamma",) and not r) \
                        or (rec["op"] == "gg" and len(r) == 2) \
                        or (rec["op"] == "mixture" and rec["cls"] == "gamma" and len(r) == 1):
                    r.append(v)
                else:
                    r.append(dn.fixed_moments(p["t"], v, p["shape"]))
        return r

    def phi(self, i):
        rec = self.recs[i]
        dims = dn.dims_of(rec["own_t"], rec["own_shape"])
        return [np.array(bc(p, rec["own"], d))
                for p, d in zip(self.nodes[i].get_parameters(), dims)]

    def elogp(self, i, cache=None):
        rec = self.recs[i]
        u = self.own_moments(i)
        return mirror_elogp(rec, u, self.parent_moments(rec, cache), self.pinfo(rec), rec["own"])

    def term(self, i, cache=None):
        """This node's share of the lower bound, from the independent formulas."""
        rec = self.recs[i]
        e = self.elogp(i, cache)
        obs = self.observed(i)
        H = 0.0
        if np.any(self.active[i] & ~obs):
            with np.errstate(all="ignore"):
                H = np.where(obs, 0.0, dn.entropy(rec["own_t"], self.phi(i), rec["own"],
                                                  rec["own_shape"]))
        return float(np.sum(np.where(self.active[i], e + H, 0.0)))

    def term_all(self, i, cache=None):
        """As term, every plate included."""
        rec, obs = self.recs[i], self.observed(i)
        with np.errstate(all="ignore"):
            e = self.elogp(i, cache)
            H = 0.0
            if not np.all(obs):
                H = np.where(obs, 0.0, dn.entropy(rec["own_t"], self.phi(i), rec["own"],
                                                  rec["own_shape"]))
        return float(np.sum(np.broadcast_to(e + H, tuple(rec["own"]))))

    def mirrorL(self):
        cache = {}
        return sum(self.term(i, cache) for i in self.stoch)

    def L(self):
        return sum(float(self.nodes[i].lower_bound_contribution()) for i in self.stoch)

    def Lscale(self):
        return 1.0 + sum(abs(float(self.nodes[i].lower_bound_contribution()))
                         for i in self.stoch)

    def init_random(self, seed, which=None, mode=0):
        """Random but valid variational parameters for the latent variables.

        mode 0: all set, every plate its own; 1: plates partly broadcast (as when
        initialised from a prior); 2: some variables keep their prior initialisation."""
        rs = np.random.RandomState(seed)
        full = rs.choice([0.1, 0.4, 0.7])
        for i in self.latents():
            if mode == 2 and rs.rand() < 0.5:
                continue
            if mode == 1:
                rec = self.recs[i]
                if rec["own_t"] in ("cnt", "mn"):
                    continue
                P = tuple(n if rs.rand() < full else 1 for n in rec["own"])
                self.nodes[i].set_parameters(
                    dn.random_phi(rec["own_t"], rs, P, rec["own_shape"]))
                continue
            rec = self.recs[i]
            if rec["own_t"] in ("cnt", "mn"):
                continue
            phi = dn.random_phi(rec["own_t"], rs, rec["own"], rec["own_shape"])
            if which is None or i in which:
                self.nodes[i].set_parameters(phi)

    def kl(self, i, phi_t, phi_s):
        """KL(q_t || q_s) per plate of node i."""
        rec = self.recs[i]
        t, P, S = rec["own_t"], rec["own"], rec["own_shape"]
        u = dn.moments_from_phi(t, phi_t, P, S)
        diff = [a - b for a, b in zip(phi_t, phi_s)]
        return (dn.dot_u(diff, u, P, dn.dims_of(t, S))
                + dn.logpartition(t, phi_s, P, S) - dn.logpartition(t, phi_t, P, S))


FLAVOURS = {
    "any": dict(),
    "mix": dict(leaf_ops=["mixture"], maxnodes=7),
    "gmc": dict(),
    "cmc": dict(),
    "gg": dict(),
}
DET_FLAVOURS = ["summul", "add", "concatg", "take", "slice", "gate", "concat", "choose",
                "flatten", "diagw", "comp", "ggsum"]
for _o in DET_FLAVOURS:
    FLAVOURS[_o] = dict()
MAIN = ["any", "any", "mix", "gmc", "cmc", "gg"] + DET_FLAVOURS


def draw_model(d, flavour=None, **kw):
    if flavour is None:
        flavour = d.choice(MAIN)
    k = dict(maxnodes=6)
    k.update(FLAVOURS[flavour])
    k.update(kw)
    g = Gen(d, **k)
    if flavour not in ("any", "mix"):
        g.want = flavour
    return g.model()


def close_shared(spec, seed, prob=0.5):
    """A random set of nodes, closed under parents; transformations follow their inputs."""
    rs = np.random.RandomState(seed)
    sh = set()
    for i, rec in enumerate(spec["nodes"]):
        pars = [p["i"] for p in rec["par"] if "i" in p]
        if any(p not in sh for p in pars):
            continue
        if rec["op"] not in STOCH:
            if pars:
                sh.add(i)
        elif not rec.get("leaf") and rs.rand() < prob:
            sh.add(i)
    return sh


def copy_parameters(src, dst, index=None, copies=None):
    """Set dst's variational parameters from src: copy number `index` of every replicated
    variable (without the axis), or the listed copies (with the axis)."""
    for i in dst.latents():
        rec = dst.recs[i]
        if rec["own_t"] in ("cnt", "mn"):
            continue
        dst.nodes[i].set_parameters(take_copy(src, dst, i, src.phi(i), index, copies))


def take_copy(src, dst, i, arrays, index=None, copies=None):
    rec = dst.recs[i]
    dims = dn.dims_of(rec["own_t"], rec["own_shape"])
    out = []
    for p, dd in zip(arrays, dims):
        if src.recs[i]["rep"]:
            if index is not None:
                p = p[index].reshape(tuple(rec["own"]) + tuple(dd))
            elif copies is not None:
                p = p[list(copies)]
        out.append(np.array(p))
    return out


def target_plates(rec, k):
    """The plates that parent k is broadcast to, or None when they are fixed anyway."""
    op = rec["op"]
    P = tuple(rec["own"])
    S = tuple(rec["shape"])
    if op == "gard":
        full = P + S
        if k == 1:
            return full
        return full[:len(full) - len(rec["par"][0]["shape"])]
    if op in ("gmc", "cmc"):
        if k < (2 if op == "gmc" else 1):
            return P
        return P + ((rec["N"] - 1,) if k == 4 else (rec["N"] - 1, S[0]))
    if (op == "mixture" or op == "gate") and k >= 1:
        j = len(P) + rec["c"] + 1
        return P[:j] + (rec["K"],) + P[j:]
    if op in ("take", "slice", "concat"):
        return None
    return P
