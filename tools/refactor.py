"""Behaviour-preserving rewrites of the whole tree, to see that the checks stay quiet.
usage: refactor.py NAME DEST [only-file-substring [function]]  -- copies /repo to DEST and rewrites it"""
import ast, os, sys, shutil, subprocess, copy, builtins

SKIP = ("tests", "test_", "_pb2", "arch/")
MARK = "zz"


def bound(fn):
    """names a function binds itself (not parameters)"""
    out, par = set(), {a.arg for a in fn.args.args + fn.args.kwonlyargs + fn.args.posonlyargs}
    if fn.args.vararg: par.add(fn.args.vararg.arg)
    if fn.args.kwarg: par.add(fn.args.kwarg.arg)
    gl = set()
    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(c, ast.Name) and isinstance(c.ctx, ast.Store):
                out.add(c.id)
            if isinstance(c, (ast.Global, ast.Nonlocal)):
                gl.update(c.names)
            walk(c)
    walk(fn)
    return out - par - gl


class Rename(ast.NodeTransformer):
    """every local variable gets another name"""
    def visit_FunctionDef(self, fn):
        names = bound(fn)
        # names nested functions bind themselves stay
        inner = set()
        for c in ast.walk(fn):
            if isinstance(c, (ast.FunctionDef, ast.Lambda)) and c is not fn:
                inner |= {a.arg for a in c.args.args}
                if isinstance(c, ast.FunctionDef):
                    inner |= bound(c)
                    inner.add(c.name)
            if isinstance(c, ast.ExceptHandler) and c.name:
                inner.add(c.name)
            if isinstance(c, (ast.Import, ast.ImportFrom)):
                inner |= {a.asname or a.name.split(".")[0] for a in c.names}
        names -= inner
        for c in ast.walk(fn):
            if isinstance(c, ast.Name) and c.id in names:
                c.id = c.id + "_" + MARK
        return fn


class Invert(ast.NodeTransformer):
    """if c: A else: B  ->  if not c: B else: A"""
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n
    def visit_IfExp(self, n):
        self.generic_visit(n)
        return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)


class Flip(ast.NodeTransformer):
    """a < b -> b > a, a == b -> b == a, a not in b -> not (a in b)"""
    M = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1:
            o = type(n.ops[0])
            if o in self.M and not any(isinstance(c, (ast.Call, ast.Await)) for x in (n.left, n.comparators[0]) for c in ast.walk(x)):
                return ast.Compare(n.comparators[0], [self.M[o]()], [n.left])
            if o is ast.NotIn:
                return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [ast.In()], n.comparators))
            if o is ast.IsNot:
                return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [ast.Is()], n.comparators))
        return n


class Blocks(ast.NodeTransformer):
    """rewrites statement lists"""
    def visit(self, n):
        n = self.generic_visit(n) or n
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and not isinstance(n, (ast.Module, ast.ClassDef)):
                setattr(n, f, self.block(b, n))
        return n


class Temp(Blocks):
    """call arguments and returned values go through temporaries"""
    k = 0
    def new(self):
        Temp.k += 1
        return "tmp_%d" % Temp.k
    def hoist(self, e, out):
        """arguments of the outermost call into temporaries"""
        if isinstance(e, ast.Call) and isinstance(e.func, (ast.Name, ast.Attribute)) and not (isinstance(e.func, ast.Name) and e.func.id in ("super", "locals")):
            b = e.func
            while isinstance(b, ast.Attribute):
                b = b.value
            if isinstance(b, ast.Name):
                for i, a in enumerate(e.args):
                    if not isinstance(a, (ast.Starred, ast.Name, ast.Constant)):
                        t = self.new(); out.append(ast.Assign([ast.Name(t, ast.Store())], a)); e.args[i] = ast.Name(t, ast.Load())
                for k in e.keywords:
                    if k.arg and not isinstance(k.value, (ast.Name, ast.Constant)):
                        t = self.new(); out.append(ast.Assign([ast.Name(t, ast.Store())], k.value)); k.value = ast.Name(t, ast.Load())
        return e
    def block(self, b, n):
        out = []
        for s in b:
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
                self.hoist(s.value, out)
                t = self.new()
                out.append(ast.Assign([ast.Name(t, ast.Store())], s.value)); s.value = ast.Name(t, ast.Load())
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
                self.hoist(s.value, out)
            elif isinstance(s, ast.Assign) and len(s.targets) == 1:
                self.hoist(s.value, out)
                if not isinstance(s.targets[0], ast.Name) and not isinstance(s.value, (ast.Name, ast.Constant)):
                    t = self.new(); out.append(ast.Assign([ast.Name(t, ast.Store())], s.value)); s.value = ast.Name(t, ast.Load())
            elif isinstance(s, ast.If) and not isinstance(s.test, (ast.Name, ast.Constant)):
                t = self.new(); out.append(ast.Assign([ast.Name(t, ast.Store())], s.test)); s.test = ast.Name(t, ast.Load())
            elif isinstance(s, ast.For) and not isinstance(s.iter, (ast.Name, ast.Constant)):
                t = self.new(); out.append(ast.Assign([ast.Name(t, ast.Store())], s.iter)); s.iter = ast.Name(t, ast.Load())
            out.append(s)
        return out


class Elif(Temp):
    pass


class Guard(Blocks):
    """if c: ...return  else: B   ->  if c: ...return ; B   and the other way round"""
    def block(self, b, n):
        out = []
        for s in b:
            out.append(s)
            if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)):
                rest, s.orelse = s.orelse, []
                out.extend(rest)
        return out


class Nest(Blocks):
    """if c: ...return ; rest  ->  if c: ...return else: rest"""
    def block(self, b, n):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)) and i + 1 < len(b):
                s.orelse = self.block(b[i + 1:], n)
                return b[:i + 1]
        return b


class While(Blocks):
    """for i in range(a, b): ...  ->  i = a; while i < b"""
    k = 0
    def block(self, b, n):
        out = []
        for s in b:
            if isinstance(s, ast.For) and isinstance(s.target, ast.Name) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "range" \
                    and len(s.iter.args) <= 2 and not s.orelse and not any(isinstance(c, ast.Continue) for c in ast.walk(s)):
                While.k += 1
                v, e = "pos_%d" % While.k, "end_%d" % While.k
                a = s.iter.args
                lo, hi = (ast.Constant(0), a[0]) if len(a) == 1 else a
                out.append(ast.Assign([ast.Name(v, ast.Store())], lo))
                out.append(ast.Assign([ast.Name(e, ast.Store())], hi))
                out.append(ast.While(ast.Compare(ast.Name(v, ast.Load()), [ast.Lt()], [ast.Name(e, ast.Load())]),
                                     [ast.Assign([s.target], ast.Name(v, ast.Load()))] + s.body + [ast.AugAssign(ast.Name(v, ast.Store()), ast.Add(), ast.Constant(1))], []))
            else:
                out.append(s)
        return out


class Comp(Blocks):
    """x = [e for v in s if c]  ->  loop with append"""
    def block(self, b, n):
        out = []
        for s in b:
            v = getattr(s, "value", None)
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(v, ast.ListComp) and len(v.generators) == 1:
                g = v.generators[0]
                t = Temp().new()
                used = {c.id for c in ast.walk(g.target) if isinstance(c, ast.Name)}
                body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(t, ast.Load()), "append", ast.Load()), [v.elt], []))]
                for c in g.ifs[::-1]:
                    body = [ast.If(c, body, [])]
                out.append(ast.Assign([ast.Name(t, ast.Store())], ast.List([], ast.Load())))
                out.append(ast.For(g.target, g.iter, body, []))
                s.value = ast.Name(t, ast.Load())
            out.append(s)
        return out


class Loop2Comp(Blocks):
    """x = []; for v in s: x.append(e)  ->  x = [e for v in s]"""
    def block(self, b, n):
        out = []
        i = 0
        while i < len(b):
            s = b[i]
            if i + 1 < len(b) and isinstance(s, ast.Assign) and isinstance(s.value, ast.List) and not s.value.elts and isinstance(s.targets[0], ast.Name) and len(s.targets) == 1:
                f = b[i + 1]
                x = s.targets[0].id
                if isinstance(f, ast.For) and not f.orelse and len(f.body) == 1 and isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Call):
                    c = f.body[0].value
                    if isinstance(c.func, ast.Attribute) and c.func.attr == "append" and isinstance(c.func.value, ast.Name) and c.func.value.id == x \
                            and not any(isinstance(q, ast.Name) and q.id == x for q in list(ast.walk(c.args[0])) + list(ast.walk(f.iter))):
                        out.append(ast.Assign([s.targets[0]], ast.ListComp(c.args[0], [ast.comprehension(f.target, f.iter, [], 0)])))
                        i += 2
                        continue
            out.append(s)
            i += 1
        return out


class Defs(Blocks):
    """lambdas handed to calls become nested functions"""
    k = 0
    def block(self, b, n):
        out = []
        for s in b:
            if isinstance(s, (ast.Assign, ast.Expr, ast.Return)) and isinstance(s.value, ast.Call):
                for i, a in enumerate(s.value.args):
                    if isinstance(a, ast.Lambda):
                        Defs.k += 1
                        t = "fn_%d" % Defs.k
                        out.append(ast.FunctionDef(t, a.args, [ast.Return(a.body)], [], None, lineno=0, type_params=[]))
                        s.value.args[i] = ast.Name(t, ast.Load())
            out.append(s)
        return out


class Impl(ast.NodeTransformer):
    """the body of every method moves to a helper method"""
    def visit_ClassDef(self, c):
        out = []
        for f in c.body:
            out.append(f)
            if not isinstance(f, ast.FunctionDef) or f.name.startswith("__") or f.args.vararg or f.args.kwarg or f.args.kwonlyargs:
                continue
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) or isinstance(x, ast.Name) and x.id == "super" for x in ast.walk(f)):
                continue
            dec = [d.id for d in f.decorator_list if isinstance(d, ast.Name)]
            if len(dec) != len(f.decorator_list) or set(dec) - {"staticmethod", "classmethod"}:
                continue
            g = copy.deepcopy(f)
            g.name = f.name + "_impl"
            for x in ast.walk(g):
                if isinstance(x, ast.arg): x.annotation = None
            g.args.defaults = []
            names = [a.arg for a in f.args.args]
            if "staticmethod" in dec:
                fn, names = ast.Attribute(ast.Name(c.name, ast.Load()), g.name, ast.Load()), names
            else:
                fn, names = ast.Attribute(ast.Name(names[0], ast.Load()), g.name, ast.Load()), names[1:]
            f.body = [ast.Return(ast.Call(fn, [ast.Name(x, ast.Load()) for x in names], []))]
            out.append(g)
        c.body = out
        return c


class Swap(Blocks):
    """neighbouring assignments of simple values to different fields or names change places"""
    def simple(self, s):
        if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], (ast.Name, ast.Attribute))):
            return None
        v = s.value
        if isinstance(s.targets[0], ast.Attribute) and not isinstance(s.targets[0].value, ast.Name):
            return None
        for c in ast.walk(v):
            if not isinstance(c, (ast.Constant, ast.Name, ast.Attribute, ast.Load, ast.List, ast.Dict)):
                return None
        return ast.unparse(s.targets[0]), ast.unparse(v)
    def block(self, b, n):
        b = list(b)
        i = 0
        while i + 1 < len(b):
            x, y = self.simple(b[i]), self.simple(b[i + 1])
            if x and y and x[0] != y[0] and x[0] not in y[1] and y[0] not in x[1] and not x[0].startswith(y[0]) and not y[0].startswith(x[0]):
                b[i], b[i + 1] = b[i + 1], b[i]
                i += 2
            else:
                i += 1
        return b


class Noop(Blocks):
    """a statement that does nothing, a log line, an annotated name"""
    def block(self, b, n):
        if isinstance(n, ast.FunctionDef):
            doc = b[:1] if isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) else []
            return doc + [ast.Assign([ast.Name("unused_" + MARK, ast.Store())], ast.Constant(0)), ast.Expr(ast.Constant("note")), ast.Pass()] + b[len(doc):]
        return b


class Unpack(Blocks):
    """x += 1 -> x = x + 1 for numbers; a, b = f() -> t = f(); a = t[0]; b = t[1]"""
    def block(self, b, n):
        out = []
        for s in b:
            if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, int):
                s = ast.Assign([s.target], ast.BinOp(ast.Name(s.target.id, ast.Load()), s.op, s.value))
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, (ast.Call, ast.Name)) \
                    and not any(isinstance(e, ast.Starred) for e in s.targets[0].elts):
                t = Temp().new()
                out.append(ast.Assign([ast.Name(t, ast.Store())], s.value))
                for i, e in enumerate(s.targets[0].elts):
                    out.append(ast.Assign([e], ast.Subscript(ast.Name(t, ast.Load()), ast.Constant(i), ast.Load())))
                continue
            out.append(s)
        return out


class Body(Blocks):
    """the body of a loop moves to a local function where it only changes objects"""
    k = 0
    def visit_FunctionDef(self, n):
        self.fn = n
        return self.visit(n) if False else super().generic_visit(n)
    def block(self, b, n):
        out = []
        for s in b:
            if isinstance(s, ast.For) and not s.orelse:
                bad = any(isinstance(c, (ast.Break, ast.Continue, ast.Return, ast.Yield, ast.Nonlocal, ast.Global, ast.Lambda, ast.FunctionDef, ast.ListComp)) for c in ast.walk(s))
                st = {c.id for q in s.body for c in ast.walk(q) if isinstance(c, ast.Name) and isinstance(c.ctx, ast.Store)}
                if not bad and not st:
                    Body.k += 1
                    names = [c.id for c in ast.walk(s.target) if isinstance(c, ast.Name)]
                    t = "step_%d" % Body.k
                    out.append(ast.FunctionDef(t, ast.arguments([], [ast.arg(x) for x in names], None, [], [], None, []), s.body, [], None, lineno=0, type_params=[]))
                    s.body = [ast.Expr(ast.Call(ast.Name(t, ast.Load()), [ast.Name(x, ast.Load()) for x in names], []))]
            out.append(s)
        return out


class Tern(Blocks):
    """if c: x = a else: x = b  ->  x = a if c else b;   and return likewise"""
    def block(self, b, n):
        out = []
        for s in b:
            if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1:
                x, y = s.body[0], s.orelse[0]
                if isinstance(x, ast.Return) and isinstance(y, ast.Return) and x.value is not None and y.value is not None:
                    s = ast.Return(ast.IfExp(s.test, x.value, y.value))
                elif isinstance(x, ast.Assign) and isinstance(y, ast.Assign) and ast.unparse(x.targets[0]) == ast.unparse(y.targets[0]) and len(x.targets) == len(y.targets) == 1:
                    s = ast.Assign(x.targets, ast.IfExp(s.test, x.value, y.value))
            out.append(s)
        return out


class Tern2(Blocks):
    """x = a if c else b -> if c: x = a else: x = b"""
    def block(self, b, n):
        out = []
        for s in b:
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp):
                e = s.value
                s = ast.If(e.test, [ast.Assign(s.targets, e.body)], [ast.Assign(copy.deepcopy(s.targets), e.orelse)])
            elif isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
                e = s.value
                s = ast.If(e.test, [ast.Return(e.body)], [ast.Return(e.orelse)])
            out.append(s)
        return out


class Enum(Blocks):
    """for x in s -> for i, x in enumerate(s);  for i in range(len(s)) -> for i, _ in enumerate(s)"""
    def block(self, b, n):
        for s in b:
            if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "range" and len(s.iter.args) == 1:
                a = s.iter.args[0]
                if isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id == "len" and isinstance(a.args[0], ast.Name):
                    grow = any(isinstance(c, ast.Attribute) and c.attr in ("append", "extend", "pop") and isinstance(c.value, ast.Name) and c.value.id == a.args[0].id for c in ast.walk(s))
                    if not grow and not any(isinstance(c, ast.Name) and isinstance(c.ctx, ast.Store) and c.id == a.args[0].id for c in ast.walk(s)):
                        s.target = ast.Tuple([s.target, ast.Name("item_" + MARK, ast.Store())], ast.Store())
                        s.iter = ast.Call(ast.Name("enumerate", ast.Load()), [a.args[0]], [])
        return b


class DeMorgan(ast.NodeTransformer):
    """a and b -> not (not a or not b) in conditions"""
    def visit_If(self, n):
        self.generic_visit(n)
        t = n.test
        if isinstance(t, ast.BoolOp):
            op = ast.Or() if isinstance(t.op, ast.And) else ast.And()
            n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v) for v in t.values]))
        return n


class Chain(Blocks):
    """if a and b: X (no else) -> if a: if b: X"""
    def block(self, b, n):
        for s in b:
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
                v = s.test.values
                for x in v[:0:-1]:
                    s.body = [ast.If(x, s.body, [])]
                s.test = v[0]
        return b


class Alias(Blocks):
    """self.x read often goes through a local (only methods and containers that are not reassigned in the function)"""
    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        if not f.args.args or f.args.args[0].arg != "self" or f.name.startswith("__"):
            return f
        stored = {c.attr for c in ast.walk(f) if isinstance(c, ast.Attribute) and isinstance(c.ctx, (ast.Store, ast.Del)) }
        called = {c.func.attr for c in ast.walk(f) if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.value.id == "self"}
        if called - {"logger"}:
            return f   # a method may replace the field
        reads = {}
        for c in ast.walk(f):
            if isinstance(c, ast.Attribute) and isinstance(c.value, ast.Name) and c.value.id == "self" and isinstance(c.ctx, ast.Load):
                reads.setdefault(c.attr, []).append(c)
        pre = []
        first = ast.unparse(f.body[0]) if f.body else ""
        for a, cs in reads.items():
            # read unconditionally at the top level of the first statements only
            if a in stored or len(cs) < 2:
                continue
            top = any(isinstance(s, (ast.Assign, ast.Expr, ast.Return)) and any(c in list(ast.walk(s)) for c in cs) and not any(isinstance(q, (ast.Lambda, ast.IfExp, ast.BoolOp, ast.ListComp)) for q in ast.walk(s)) for s in f.body[:3])
            if not top:
                continue
            for c in cs:
                c.aliased = a
            pre.append(a)
        if not pre:
            return f
        class R(ast.NodeTransformer):
            def visit_Attribute(self, n):
                self.generic_visit(n)
                return ast.Name("own_" + n.aliased, ast.Load()) if hasattr(n, "aliased") else n
        R().visit(f)
        doc = f.body[:1] if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else []
        f.body = doc + [ast.Assign([ast.Name("own_" + a, ast.Store())], ast.Attribute(ast.Name("self", ast.Load()), a, ast.Load())) for a in pre] + f.body[len(doc):]
        return f
    def block(self, b, n):
        return b


T = dict(rename=Rename, invert=Invert, flip=Flip, temp=Temp, guard=Guard, nest=Nest, loop=While, comp=Comp, tocomp=Loop2Comp, defs=Defs, impl=Impl, swap=Swap, noop=Noop,
         unpack=Unpack, body=Body, tern=Tern, tern2=Tern2, enum=Enum, demorgan=DeMorgan, chain=Chain, alias=Alias)


def apply(names, dest, only=None, fun=None, root="/repo"):
    if os.path.exists(dest):
        shutil.rmtree(dest)
    shutil.copytree(root, dest, ignore=shutil.ignore_patterns(".git", "__pycache__"))
    n = 0
    for d, ds, fs in os.walk(dest):
        for f in fs:
            p = os.path.relpath(os.path.join(d, f), dest)
            if not f.endswith(".py") or any(s in p for s in SKIP) or only and only not in p:
                continue
            src = open(os.path.join(d, f)).read()
            t = ast.parse(src)
            before = ast.dump(t)
            for nm in names:
                if fun:
                    for c in ast.walk(t):
                        for fld, val in ast.iter_fields(c):
                            if isinstance(val, list):
                                for i, x in enumerate(val):
                                    if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == fun:
                                        val[i] = T[nm]().visit(x)
                else:
                    t = T[nm]().visit(t)
            ast.fix_missing_locations(t)
            if ast.dump(t) != before:
                n += 1
                out = ast.unparse(t)
                compile(out, p, "exec")
                open(os.path.join(d, f), "w").write(out + "\n")
    return n


if __name__ == "__main__":
    a = sys.argv
    print(apply(a[1].split("+"), a[2], *(a[3:5])), "files rewritten")
