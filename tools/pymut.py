#!/usr/bin/env python3
"""Mutation testing of the Python checks (a development aid, not a check).

pymut.py WORKERS SAMPLE SEED     mutate py-forust/forust/__init__.py and serialize.py, run the Python
checks with a reduced number of cases on each mutant in a copy under /tmp/pm, log survivors to /tmp/pm/log.
Needs ./setup.sh to have been run. Survivors have to be judged by hand."""
import ast, copy, json, os, random, shutil, subprocess, sys, multiprocessing as mp
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = ["c22", "c24", "c23", "c26", "c25", "c20", "c14", "c27"]
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}


def sites(tree):
    """(description, function that mutates a deep copy in place given the same walk index)"""
    out = []
    for i, n in enumerate(ast.walk(tree)):
        ln = getattr(n, "lineno", 0)
        if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            out.append((i, ln, "cmp"))
        elif isinstance(n, ast.BoolOp):
            out.append((i, ln, "bool"))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            out.append((i, ln, "bin"))
        elif isinstance(n, ast.UnaryOp):
            out.append((i, ln, "unary"))
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            out.append((i, ln, "flip"))
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            out.append((i, ln, "plus"))
        elif isinstance(n, ast.Constant) and isinstance(n.value, str) and len(n.value) < 25 and "\n" not in n.value:
            out.append((i, ln, "str"))
        elif isinstance(n, (ast.If, ast.IfExp)):
            out += [(i, ln, "iftrue"), (i, ln, "iffalse")]
        elif isinstance(n, ast.Call):
            for k in range(len(n.keywords)):
                out.append((i, ln, f"kw{k}"))
            if len(n.args) > 1:
                out.append((i, ln, "swap"))
            if len(n.args) == 1 and isinstance(n.func, ast.Attribute) and not n.keywords:
                out.append((i, ln, "unwrap"))
            if len(n.args) == 0 and isinstance(n.func, ast.Attribute):
                out.append((i, ln, "uncall"))
        elif isinstance(n, (ast.FunctionDef, ast.With, ast.For)) or isinstance(n, ast.If):
            pass
        if hasattr(n, "body") and isinstance(n.body, list):
            for k, s in enumerate(n.body):
                if isinstance(s, (ast.Assign, ast.AugAssign, ast.Raise)) or (isinstance(s, ast.Expr) and isinstance(s.value, ast.Call)):
                    out.append((i, s.lineno, f"del{k}"))
    return out


def mutate(src, site):
    tree = ast.parse(src)
    i, ln, kind = site
    n = list(ast.walk(tree))[i]
    if kind == "cmp":
        n.ops[0] = CMP[type(n.ops[0])]()
    elif kind == "bool":
        n.op = ast.And() if isinstance(n.op, ast.Or) else ast.Or()
    elif kind == "bin":
        n.op = BIN[type(n.op)]()
    elif kind == "flip":
        n.value = not n.value
    elif kind == "plus":
        n.value = n.value + 1
    elif kind == "str":
        n.value = n.value + "x"
    elif kind in ("iftrue", "iffalse"):
        n.test = ast.Constant(kind == "iftrue")
    elif kind.startswith("kw"):
        del n.keywords[int(kind[2:])]
    elif kind == "swap":
        n.args[0], n.args[1] = n.args[1], n.args[0]
    elif kind.startswith("del"):
        n.body[int(kind[3:])] = ast.copy_location(ast.Pass(), n.body[int(kind[3:])])
    else:  # replace the node itself
        new = n.operand if kind == "unary" else n.args[0] if kind == "unwrap" else n.func.value
        for p in ast.walk(tree):
            for f, v in ast.iter_fields(p):
                if v is n:
                    setattr(p, f, new)
                elif isinstance(v, list):
                    for k, e in enumerate(v):
                        if e is n:
                            v[k] = new
    ast.fix_missing_locations(tree)
    return ast.unparse(tree)


def work(a):
    k, todo = a
    W = f"/tmp/pm/{k}"
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W + "/.build/rs/release")
    shutil.copytree(V + "/py", W + "/py")
    shutil.copytree(os.environ.get("PM_PKG", V + "/.build/pkg"), W + "/.build/pkg")
    for f in os.listdir(V):
        if f.endswith(".txt"):
            shutil.copy(V + "/" + f, W)
    for d in ("regress",):
        if os.path.isdir(V + "/" + d):
            shutil.copytree(V + "/" + d, W + "/" + d)
    shutil.copy(os.environ.get("PM_CORE", V + "/.build/rs/release/corefit"), W + "/.build/rs/release/")
    orig = {f: open(f"{W}/.build/pkg/forust/{f}").read() for f in ("__init__.py", "serialize.py")}
    for f, site in todo:
        try:
            new = mutate(orig[f], site)
        except Exception as e:
            continue
        open(f"{W}/.build/pkg/forust/{f}", "w").write(new)
        killed = None
        for c in CHECKS:
            for p in ("evidence", "replays"):
                shutil.rmtree(f"{W}/{p}", ignore_errors=True); os.makedirs(f"{W}/{p}")
            try:
                rc = subprocess.run(["bash", f"{W}/py/run.sh", c, "--cases", os.environ.get("PM_CASES", "320")], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300).returncode
            except subprocess.TimeoutExpired:
                rc = 9
            if rc:
                killed = f"{c}:{rc}"
                break
        line = orig[f].split("\n")[site[1] - 1].strip() if site[1] else ""
        open("/tmp/pm/log", "a").write(f"{'killed ' + killed if killed else 'SURVIVED'} {f}:{site[1]} {site[2]} | {line}\n")
        open(f"{W}/.build/pkg/forust/{f}", "w").write(orig[f])


if __name__ == "__main__":
    n, sample, seed = map(int, sys.argv[1:4])
    os.makedirs("/tmp/pm", exist_ok=True)
    allm = []
    for f in ("__init__.py", "serialize.py"):
        src = open(os.environ.get("PM_PKG", V + "/.build/pkg") + f"/forust/{f}").read()
        t = ast.parse(src)
        allm += [(f, s) for s in sites(t)]
    random.Random(seed).shuffle(allm)
    print(len(allm), "mutants")
    todo = allm[:sample]
    with mp.Pool(n) as p:
        p.map(work, [(k, todo[k::n]) for k in range(n)])
