"""Forward substitution of temporaries: `t = e` directly before the only statement that reads t
(once) becomes that statement with e in place.  The flow-sensitive heap analyses read conditions
syntactically; this makes them independent of how a condition was named."""
import ast

SCOPES = (ast.Lambda, ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)
FNS = (ast.FunctionDef, ast.AsyncFunctionDef)


def head(s):
    """(owner, field) pairs of the expressions evaluated first, once, by the statement"""
    if isinstance(s, ast.If):
        return [(s, "test")]
    if isinstance(s, ast.For):
        return [(s, "iter")]
    if isinstance(s, (ast.Return, ast.Expr)):
        return [(s, "value")] if s.value is not None else []
    if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
        return [(s, "value")] if s.value is not None else []
    if isinstance(s, ast.Assert):
        return [(s, "test")]
    return []


class Put(ast.NodeTransformer):
    def __init__(self, name, e):
        self.name, self.e, self.done = name, e, 0

    def visit_Name(self, n):
        if n.id == self.name and isinstance(n.ctx, ast.Load):
            self.done += 1
            return self.e
        return n

    def scope(self, n):
        return n
    visit_Lambda = visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = scope


def names(fn):
    st, ld = {}, {}
    for c in ast.walk(fn):
        if isinstance(c, ast.Name):
            d = ld if isinstance(c.ctx, ast.Load) else st
            d[c.id] = d.get(c.id, 0) + 1
        elif isinstance(c, (ast.Global, ast.Nonlocal)):
            for x in c.names:
                st[x] = st.get(x, 0) + 9
    a = fn.args
    for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []):
        st[x.arg] = st.get(x.arg, 0) + 9
    return st, ld


def block(b, once):
    i = len(b) - 2
    while i >= 0:
        s = b[i]
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id in once and i + 1 < len(b) \
                and not isinstance(s.value, (ast.Yield, ast.YieldFrom, ast.Await)):
            n = b[i + 1]
            for own, f in head(n):
                p = Put(s.targets[0].id, s.value)
                v = p.visit(getattr(own, f))
                if p.done == 1:
                    setattr(own, f, v)
                    del b[i]
                    break
        i -= 1
    for s in b:
        if isinstance(s, FNS + (ast.ClassDef,)):
            continue
        for f in ("body", "orelse", "finalbody"):
            x = getattr(s, f, None)
            if isinstance(x, list) and x and isinstance(x[0], ast.stmt):
                block(x, once)
        for h in getattr(s, "handlers", ()):
            block(h.body, once)


def tidy(tree):
    for fn in ast.walk(tree):
        if isinstance(fn, FNS):
            st, ld = names(fn)
            once = {x for x in st if st[x] == 1 and ld.get(x) == 1}
            if once:
                block(fn.body, once)
    return tree


# ---- `v = a; while v < e: ...; v += 1`  ->  `for v in range(v, e): ...`
GROW = {"append", "extend", "insert", "pop", "remove", "clear", "update", "add", "popitem", "setdefault", "discard"}


def step(s, v):
    """is s `v += 1`"""
    if isinstance(s, ast.AugAssign):
        return isinstance(s.op, ast.Add) and isinstance(s.target, ast.Name) and s.target.id == v and isinstance(s.value, ast.Constant) and s.value.value == 1 and s.value.value is not True
    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == v and isinstance(s.value, ast.BinOp) and isinstance(s.value.op, ast.Add):
        a, b = s.value.left, s.value.right
        for x, y in ((a, b), (b, a)):
            if isinstance(x, ast.Name) and x.id == v and isinstance(y, ast.Constant) and y.value == 1 and y.value is not True:
                return True
    return False


def own_jumps(body, kind):
    """break / continue statements that belong to the loop with this body"""
    for s in body:
        if isinstance(s, kind):
            yield s
        elif isinstance(s, (ast.For, ast.While)):
            for x in own_jumps(s.orelse, kind):
                yield x
        elif not isinstance(s, FNS + (ast.ClassDef,)):
            for f in ("body", "orelse", "finalbody"):
                for x in own_jumps(getattr(s, f, None) or [], kind):
                    yield x
            for h in getattr(s, "handlers", ()):
                for x in own_jumps(h.body, kind):
                    yield x


def stores_of(nodes):
    ns, ats = set(), set()
    for s in nodes:
        for c in ast.walk(s):
            if isinstance(c, ast.Name) and not isinstance(c.ctx, ast.Load):
                ns.add(c.id)
            elif isinstance(c, ast.Attribute) and not isinstance(c.ctx, ast.Load):
                ats.add(c.attr)
            elif isinstance(c, (ast.Subscript,)) and not isinstance(c.ctx, ast.Load) and isinstance(c.ctx, ast.Del) and isinstance(c.value, ast.Name):
                ns.add(c.value.id)
            elif isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in GROW:
                if isinstance(c.func.value, ast.Name):
                    ns.add(c.func.value.id)
                elif isinstance(c.func.value, ast.Attribute):
                    ats.add(c.func.value.attr)
    return ns, ats


def called(nodes, fns):
    """functions of the module that the statements may call, by name, transitively"""
    seen, todo = set(), list(nodes)
    out = []
    while todo:
        for c in ast.walk(todo.pop()):
            if isinstance(c, ast.Call):
                x = c.func.attr if isinstance(c.func, ast.Attribute) else c.func.id if isinstance(c.func, ast.Name) else None
                if x in fns and x not in seen:
                    seen.add(x)
                    out += fns[x]
                    todo += fns[x]
    return out


def fixed(e, body, fns):
    """can the bound not change while the body runs"""
    if isinstance(e, ast.Constant):
        return True
    if isinstance(e, ast.BinOp):
        return fixed(e.left, body, fns) and fixed(e.right, body, fns)
    if isinstance(e, ast.Call):
        return isinstance(e.func, ast.Name) and e.func.id == "len" and len(e.args) == 1 and not e.keywords and fixed(e.args[0], body, fns)
    ns, ats = stores_of(body)
    if isinstance(e, ast.Name):
        return e.id not in ns
    if isinstance(e, ast.Attribute):
        return e.attr not in ats and e.attr not in stores_of(called(body, fns))[1] and fixed(e.value, body, fns)
    return False


def count(b, i, fn, fns):
    w = b[i]
    t = w.test
    if w.orelse or not isinstance(t, ast.Compare) or len(t.ops) != 1:
        return
    x, y, op = t.left, t.comparators[0], type(t.ops[0])
    if op in (ast.Gt, ast.GtE):
        x, y, op = y, x, {ast.Gt: ast.Lt, ast.GtE: ast.LtE}[op]
    if op not in (ast.Lt, ast.LtE) or not isinstance(x, ast.Name):
        return
    v = x.id
    init = [k for k in range(i) if isinstance(b[k], (ast.Assign, ast.AnnAssign)) and any(isinstance(q, ast.Name) and q.id == v for q in (b[k].targets if isinstance(b[k], ast.Assign) else [b[k].target]))]
    at = [k for k, s in enumerate(w.body) if step(s, v)]
    if not init or len(at) != 1:
        return
    k = at[0]
    rest = w.body[:k] + w.body[k + 1:]
    if v in stores_of(rest)[0] or v in stores_of(b[init[-1] + 1:i])[0]:
        return
    inside = sum(1 for c in ast.walk(w) if isinstance(c, ast.Name) and c.id == v and isinstance(c.ctx, ast.Load))
    whole = sum(1 for c in ast.walk(fn) if isinstance(c, ast.Name) and c.id == v and isinstance(c.ctx, ast.Load))
    if inside != whole or any(isinstance(c, (ast.Global, ast.Nonlocal)) and v in c.names for c in ast.walk(fn)):
        return
    if any(isinstance(c, ast.Name) and c.id == v for s in w.body[k + 1:] for c in ast.walk(s)):
        return
    if any(True for _ in own_jumps(w.body[:k], ast.Continue)) or not fixed(y, rest, fns):
        return
    hi = y if op is ast.Lt else ast.BinOp(y, ast.Add(), ast.Constant(1))
    st = b[init[-1]]
    f = ast.For(ast.Name(v, ast.Store()), ast.Call(ast.Name("range", ast.Load()), [ast.Name(v, ast.Load()), hi], []), rest or [ast.Pass()], [])
    if isinstance(st.value, ast.Constant) and isinstance(st.value.value, int):
        f.iter.args[0] = ast.Constant(st.value.value)
        if st.value.value == 0:
            del f.iter.args[0]
    b[i] = ast.fix_missing_locations(ast.copy_location(f, w))


def blocks(s):
    for f in ("body", "orelse", "finalbody"):
        x = getattr(s, f, None)
        if isinstance(x, list) and x and isinstance(x[0], ast.stmt):
            yield x
    for h in getattr(s, "handlers", ()):
        yield h.body


def counted(tree):
    if not any(isinstance(c, ast.While) for c in ast.walk(tree)):
        return tree
    fns = {}
    for f in ast.walk(tree):
        if isinstance(f, FNS):
            fns.setdefault(f.name, []).append(f)

    def go(b, fn):
        for i, s in enumerate(b):
            for x in blocks(s):
                go(x, s if isinstance(s, FNS) else fn)
            if isinstance(s, ast.While) and fn is not None:
                count(b, i, fn, fns)
    go(tree.body, None)
    return tree
