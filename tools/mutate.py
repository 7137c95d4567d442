#!/usr/bin/env python3
"""Development aid: mutation testing of the checks.

mutate.py OUT.jsonl N SEED [file ...]: N random small edits of bayespy; those which keep the stable
tests passing are run against the checks (reduced case numbers) until one reports a violation.
"""
import ast, json, os, random, subprocess, sys, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
from queue import Queue
NODES = "bayespy/inference/vmp/nodes/"
PREF = {
    "expfamily": "04 02 26 22 07 23 05 17 18 24", "stochastic": "26 09 18 04 27 24 23",
    "node": "09 11 23 27 10 24 08 26", "deterministic": "11 10 09 05", "gaussian":
    "06 05 04 02 25 20 17 10 07 24 30", "gaussian_markov_chain": "13 03 02 06 25 20 05 17",
    "categorical_markov_chain": "14 03 06 25 17", "categorical": "06 04 14 12 05 17 24",
    "multinomial": "06 04 12 05 17 24 25", "binomial": "06 04 05 17 24 25 12",
    "bernoulli": "06 04 25 05", "beta": "06 04 25 30", "dirichlet": "06 04 02 31 07 17 05",
    "gamma": "06 04 31 02 17 05 25 07", "wishart": "06 04 25 02 17 05 31", "poisson": "06 04 05 17",
    "mixture": "12 04 02 05 25 24", "gate": "11 12 25 24", "take": "11 09 24", "concatenate":
    "11 09 24", "concat_gaussian": "10", "dot": "10 04 02 24", "add": "10", "constant": "04 11 24",
    "converters": "25 11 06", "ml": "31", "vmp": "19 21 18 22 23 24 01", "transformations": "20",
    "linalg": "15 06 13", "misc": "16 09 11 18", "random": "05 17 14", "optimize": "20 31 21", "plot": "28",
}
FILES = [NODES + f + ".py" for f in
         "expfamily stochastic node deterministic gaussian gaussian_markov_chain "
         "categorical_markov_chain categorical multinomial binomial bernoulli beta dirichlet gamma "
         "wishart poisson mixture gate take concatenate concat_gaussian dot add constant converters "
         "ml".split()] + ["bayespy/inference/vmp/vmp.py", "bayespy/inference/vmp/transformations.py",
                          "bayespy/utils/linalg.py", "bayespy/utils/misc.py", "bayespy/utils/random.py",
                          "bayespy/utils/optimize.py", "bayespy/plot.py"] + [
                          "bayespy/demos/%s.py" % f for f in "pca lssm lssm_tvd lssm_sd hmm mog lda annealing "
                          "stochastic_inference pattern_search categorical collapsed_cg saving gamma_shape".split()]
ALL = [os.path.basename(f)[1:3] for f in sorted(os.listdir("/verif/checks")) if f[0] == "c"]
SKIPFUN = ("plot", "show", "__str__", "set_plotter", "set_axis", "animat", "bar", "tick")


def candidates(src, skip=True):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()

    def span(n):
        return (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)

    def text(n):
        s, e = span(n)
        return b[s:e].decode()
    out = []

    def add(n, new, kind):
        s, e = span(n)
        out.append((s, e, new, kind, n.lineno))

    def visit(n):
        if isinstance(n, ast.Raise) or isinstance(n, ast.Assert):
            add(n, "pass", "noraise")
            return
        if skip and isinstance(n, (ast.FunctionDef,)) and any(k in n.name for k in SKIPFUN):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.BinOp):
            ops = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}
            if type(n.op) in ops and not isinstance(n.left, ast.Constant) or \
                    type(n.op) in ops and not isinstance(n.left.value, str):
                add(n, "(%s) %s (%s)" % (text(n.left), ops[type(n.op)], text(n.right)), "op")
                add(n, "(%s)" % text(n.left), "left")
                add(n, "(%s)" % text(n.right), "right")
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            ops = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=",
                   ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is"}
            if type(n.ops[0]) in ops:
                add(n, "%s %s %s" % (text(n.left), ops[type(n.ops[0])], text(n.comparators[0])), "cmp")
        elif isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            add(n, o.join("(%s)" % text(v) for v in n.values), "bool")
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                add(n, str(not n.value), "const")
            elif isinstance(n.value, int):
                add(n, str(n.value + 1), "const")
                if n.value > 0:
                    add(n, str(n.value - 1), "const")
            elif isinstance(n.value, float):
                add(n, repr(n.value * 2 + (n.value == 0)), "const")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            add(n, "(%s)" % text(n.operand), "neg")
        elif isinstance(n, ast.If):
            add(n.test, "(%s) and False" % text(n.test), "iffalse")
            add(n.test, "(%s) or True" % text(n.test), "iftrue")
        elif isinstance(n, ast.AugAssign):
            add(n, "pass", "delete")
            add(n, "%s = %s" % (text(n.target), text(n.value)), "noaug")
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            add(n, "pass", "delete")
        elif isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg and len(n.args) + len(n.keywords) > 1:
                    rest = [text(a) for a in n.args] + ["%s=%s" % (q.arg, text(q.value)) if q.arg else
                                                        "**" + text(q.value)
                                                        for q in n.keywords if q is not k]
                    add(n, "%s(%s)" % (text(n.func), ", ".join(rest)), "nokw")
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                a = [text(x) for x in n.args]
                a[0], a[1] = a[1], a[0]
                rest = a + ["%s=%s" % (q.arg, text(q.value)) if q.arg else "**" + text(q.value)
                            for q in n.keywords]
                add(n, "%s(%s)" % (text(n.func), ", ".join(rest)), "swap")
            if len(n.args) >= 1 and isinstance(n.func, ast.Attribute) and n.func.attr in (
                    "copy", "asanyarray", "sum", "squeeze", "atleast_nd", "broadcast_to", "where",
                    "add_trailing_axes", "add_leading_axes", "sum_to_shape", "abs", "logical_not"):
                add(n, "(%s)" % text(n.args[0]), "unwrap")
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            for f in ("lower", "upper"):
                v = getattr(n.slice, f)
                if v is not None:
                    s, e = span(v)
                    out.append((s, e, "", "noslice", n.lineno))
        for c in ast.iter_child_nodes(n):
            if isinstance(n, ast.FunctionDef) and c in n.decorator_list:
                continue
            visit(c)
    visit(tree)
    return b, out


def sh(cmd, timeout=900, **k):
    try:
        return subprocess.run(cmd, shell=True, capture_output=True, text=True, timeout=timeout,
                              **k)
    except subprocess.TimeoutExpired:
        return None


def main():
    out, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    files = [f for f in FILES if not sys.argv[4:] or any(a == os.path.basename(f)[:-3] for a in sys.argv[4:])]
    rng = random.Random(seed)
    pool = []
    for f in files:
        b, c = candidates(open("/repo/" + f).read(), "plot" not in f)
        rng.shuffle(c)
        pool += [(f, b, x) for x in c[:int(os.environ.get("CAP", "40"))]]
    rng.shuffle(pool)
    done = set()
    J = int(os.environ.get("J", "8"))
    wts = Queue()
    base = tempfile.mkdtemp(prefix="mw_", dir="/tmp")
    for i in range(J):
        w = "%s/%d" % (base, i)
        sh("cp -a /repo/. %s" % ("%s" % w), ) if os.makedirs(w) is None else None
        wts.put(w)

    def go(t):
        f, b, (s, e, new, kind, line) = t
        w = wts.get()
        rec = dict(file=f, line=line, kind=kind, old=b[s:e].decode()[:300], new=new[:300], s=s, e=e)
        try:
            nb = b[:s] + new.encode() + b[e:]
            try:
                compile(nb, f, "exec")
            except SyntaxError:
                return
            open(w + "/" + f, "wb").write(nb)
            name = os.path.basename(f)[:-3]
            py = ". /opt/vp/env.sh; cd %s; PYTHONPATH=%s timeout 400 $PY -m pytest -x -q -p no:cacheprovider --doctest-modules -o doctest_optionflags=ELLIPSIS --ignore=bayespy/testing.py --disable-warnings --timeout=120 --deselect bayespy/utils/misc.py::bayespy.utils.misc.safe_indices " % (w, w)
            first = [p for p in ("bayespy/inference/vmp/nodes/tests/test_%s.py" % name,
                                 "bayespy/utils/tests/test_%s.py" % name,
                                 "bayespy/inference/vmp/tests/test_%s.py" % name)
                     if os.path.exists(w + "/" + p)]
            if not first:
                first = ["bayespy/inference/vmp/nodes/tests/test_dot.py"]
            for a in (" ".join(first), "bayespy"):
                r = sh(py + a, timeout=500)
                if r is None or r.returncode != 0:
                    rec["status"] = "tests"
                    break
            else:
                rec["status"] = "survived"
                order = PREF.get(name, "29" if "/demos/" in f else "").split()
                order += [c for c in ALL if c not in order]
                if os.environ.get("PREFONLY"):
                    order = PREF.get(name, "29" if "/demos/" in f else "").split()
                for c in order:
                    r = sh("VERIF_NOSHRINK=1 VERIF_REPO=%s VERIF_SEED=1 VERIF_PROCS=1 VERIF_SCALE=%s VERIF_BUDGET=200 "
                           "VERIF_EVIDENCE=%s/ev VERIF_REPLAYS=%s/rp ./run C%s"
                           % (w, os.environ.get("SCALE", "0.2"), w, w, c), cwd="/verif", timeout=900)
                    if r is None or r.returncode != 0:
                        rec["status"] = "caught"
                        rec["by"] = c
                        rec["msg"] = "timeout" if r is None else (r.stdout + r.stderr)[:300]
                        break
            with open(out, "a") as fo:
                fo.write(json.dumps(rec) + "\n")
        finally:
            open(w + "/" + f, "wb").write(b)
            wts.put(w)
    with ThreadPoolExecutor(J) as ex:
        list(ex.map(go, pool[:n]))
    shutil.rmtree(base)


if __name__ == "__main__":
    main()
