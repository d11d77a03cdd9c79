"""Single-point mutants of /repo, judged by the checks whose evidence lists the mutated function.
usage: mutate.py [-n N] [-s SEED] [-j JOBS] [-o OUT] [file-or-function substring ...]"""
import ast, copy, glob, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
COST = dict(C16=90, C13=60, C14=50, C17=67, C04=45, C12=40, C10=30, C24=25, C11=10, C06=10, C07=10, C03=8, C05=6)
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.Div: ast.Mult, ast.FloorDiv: ast.Div, ast.Mod: ast.FloorDiv, ast.Pow: ast.Mult}


def logs(n):
    return isinstance(n, ast.Call) and "logg" in ast.unparse(n.func).lower() or isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "print"


def sites(fn):
    """(description, path of node, mutation) of one function"""
    out = []
    attrs = sorted({n.attr for n in ast.walk(fn) if isinstance(n, ast.Attribute)} - {"logger"})
    locs = sorted({n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | {a.arg for a in fn.args.args})

    def walk(n, path):
        if logs(n) or isinstance(n, ast.Raise):
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            out.append((path, "cmp"))
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant):
            out.append((path, "bin"))
        if isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            out.append((path, "bin"))
        if isinstance(n, ast.BoolOp):
            out.append((path, "bool"))
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            out.append((path, "neg"))
        if isinstance(n, ast.Constant) and (isinstance(n.value, (bool, int, float)) and not isinstance(n.value, complex)):
            out.append((path, "const"))
        if isinstance(n, ast.Call) and len(n.args) >= 2 and ast.dump(n.args[0]) != ast.dump(n.args[1]):
            out.append((path, "args"))
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.slice, ast.Name):
            out.append((path, "index"))
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and not (isinstance(n, ast.Expr) and (isinstance(n.value, ast.Constant) or logs(n.value))):
            if not (isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name)):
                out.append((path, "del"))
        if isinstance(n, ast.Break):
            out.append((path, "brk"))
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and len(attrs) > 1:
            out.append((path, "attr"))
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in locs and len(locs) > 1:
            out.append((path, "name"))
        for f, v in ast.iter_fields(n):
            if f in ("annotation", "decorator_list", "returns", "func") and not (f == "func" and isinstance(v, ast.Attribute)):
                continue
            if isinstance(v, ast.AST):
                walk(v, path + ((f, None),))
            elif isinstance(v, list):
                for i, x in enumerate(v):
                    if isinstance(x, ast.AST) and not (i == 0 and f == "body" and isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant)):
                        walk(x, path + ((f, i),))
    for i, s in enumerate(fn.body):
        walk(s, (("body", i),))
    return out, attrs, locs


def mutate(fn, path, kind, rnd, attrs, locs):
    fn = copy.deepcopy(fn)
    par, n = None, fn
    for f, i in path:
        par, key = n, (f, i)
        n = getattr(n, f) if i is None else getattr(n, f)[i]

    def put(x):
        f, i = key
        if i is None:
            setattr(par, f, x)
        else:
            getattr(par, f)[i] = x
    old = ast.unparse(n).split("\n")[0]
    if kind == "cmp": n.ops = [CMP[type(n.ops[0])]()]
    elif kind == "bin": n.op = BIN[type(n.op)]()
    elif kind == "bool": n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif kind == "neg": n.test = ast.UnaryOp(ast.Not(), n.test)
    elif kind == "const": n.value = (not n.value) if isinstance(n.value, bool) else n.value + 1 if isinstance(n.value, int) else n.value * 2 + 0.5
    elif kind == "args": n.args[0], n.args[1] = n.args[1], n.args[0]
    elif kind == "index": n.slice = ast.BinOp(n.slice, ast.Sub(), ast.Constant(1))
    elif kind == "del": put(ast.Pass()); n = ast.Pass()
    elif kind == "brk": put(ast.Pass()); n = ast.Pass()
    elif kind == "attr":
        o = [a for a in attrs if a != n.attr]
        n.attr = rnd.choice(o)
    elif kind == "name":
        o = [a for a in locs if a != n.id]
        n.id = rnd.choice(o)
    new = ast.unparse(n).split("\n")[0]
    if old == new:
        return None
    return fn, "%s: %s  ->  %s" % (kind, old[:110], new[:110])


def functions():
    """(file, qualified name, node position)"""
    for p in glob.glob(REPO + "/**/*.py", recursive=True):
        r = os.path.relpath(p, REPO)
        if "test" in r or "_pb2" in r:
            continue
        mod = r[:-3].replace("/", ".")
        t = ast.parse(open(p).read())
        for c in t.body:
            if isinstance(c, ast.FunctionDef):
                yield r, mod + "." + c.name, c
            if isinstance(c, ast.ClassDef):
                for f in c.body:
                    if isinstance(f, ast.FunctionDef):
                        yield r, mod + "." + c.name + "." + f.name, f


def checks():
    by = {}
    for p in glob.glob(V + "/evidence/C??.json"):
        e = json.load(open(p))
        for q in e["coverage"]["functions_analysed"]:
            by.setdefault(q, set()).add(e["property"])
    return by


def run(job):
    r, qual, line, fn, what, chs = job
    d = tempfile.mkdtemp(prefix="mut")
    try:
        shutil.copytree(REPO, d + "/r", ignore=shutil.ignore_patterns(".git", "__pycache__"))
        src = open(os.path.join(REPO, r)).read()
        t = ast.parse(src)
        for c in ast.walk(t):
            b = getattr(c, "body", None)
            if isinstance(b, list):
                for i, x in enumerate(b):
                    if isinstance(x, ast.FunctionDef) and x.name == fn.name and x.lineno == line:
                        b[i] = fn
        ast.fix_missing_locations(t)
        open(os.path.join(d, "r", r), "w").write(ast.unparse(t) + "\n")
        env = dict(os.environ, VP_REPO=d + "/r", VP_EVIDENCE=d + "/e", PYTHONDONTWRITEBYTECODE="1")
        und = []
        for c in chs:
            try:
                p = subprocess.run(["python3-vt", "run_check.py", c], cwd=V, env=env, capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                und.append(c + ":timeout")
                continue
            if p.returncode == 1 and "VIOLATION property=" in p.stdout:
                return "caught %s" % c, job
            if p.returncode != 0:
                und.append("%s:rc%d" % (c, p.returncode))
            elif "undecided:" in p.stdout:
                und.append("%s:undecided" % c)
        return "SURVIVED %s" % " ".join(und), job
    finally:
        shutil.rmtree(d, True)


def main():
    a = sys.argv[1:]
    opt = {"-k": "", "-n": "100", "-s": "1", "-j": "8", "-o": "/dev/stdout"}
    subs = []
    while a:
        x = a.pop(0)
        if x in opt: opt[x] = a.pop(0)
        else: subs.append(x)
    rnd = random.Random(int(opt["-s"]))
    by = checks()
    pool = []
    for r, q, f in functions():
        if subs and not any(s in r or s in q for s in subs):
            continue
        if q not in by:
            continue
        s, attrs, locs = sites(f)
        for path, k in s:
            if opt["-k"] and k not in opt["-k"].split(","):
                continue
            pool.append((r, q, f, path, k, attrs, locs))
    # the same weight for every function, less for the many name swaps
    perf = {}
    for x in pool:
        perf.setdefault(x[1], []).append(x)
    jobs, seen = [], set()
    n = int(opt["-n"])
    ks = sorted(perf)
    tries = 0
    while len(jobs) < n and tries < n * 20:
        tries += 1
        q = rnd.choices(ks, weights=[len(perf[k]) ** 0.5 for k in ks])[0]
        x = rnd.choice(perf[q])
        if x[4] == "name" and rnd.random() < 0.6:
            continue
        m = mutate(x[2], x[3], x[4], rnd, x[5], x[6])
        if m is None or (q, m[1]) in seen:
            continue
        seen.add((q, m[1]))
        chs = sorted(by[q], key=lambda c: COST.get(c, 2))
        jobs.append((x[0], q, x[2].lineno, m[0], m[1], chs))
    out = open(opt["-o"], "w")
    with ThreadPoolExecutor(int(opt["-j"])) as ex:
        for res, j in ex.map(run, jobs):
            print(res, "|", j[1], "|", j[4], file=out, flush=True)


if __name__ == "__main__":
    main()
