"""Information flow on top of the points-to analysis: which secrets reach which messages.

A secret is an immutable abstract object (a mark) that copies, arithmetic, containers, table operations and object
fields carry along exactly as the points-to analysis carries objects.  Encryption under the public key yields a
cipher, which carries nothing; decryption yields the mark "decrypted value"; a comparison turns its operands' marks
into verdict marks.  Only direct flow counts: the branch a value selects and the index it is used for do not mark.
Constants are tracked as objects, so that branches on mode strings and None tests are taken as the program takes them."""
import ast
from .alias import Analyser, Obj, Frame, NO, TABLE, MUT_LIST, TABLE_OPS, TooBig, has_closure

TYPES = ("tuple", "list", "dict", "set", "float", "int", "str", "bool", "ndarray", "Iterable")
DROP = {"len", "range", "isinstance", "issubclass", "type", "id", "hasattr", "callable", "dir", "open", "input", "print", "vars", "super", "hash"}
KEEPERS = ("ndarray", "list", "tuple", "set", "dict")
ENC = {"encrypt", "raw_encrypt", "apply_obfuscator", "increase_exponent_to"}
DEC = {"decrypt", "raw_decrypt"}

DBG = bool(__import__("os").environ.get("VGG_DEBUG"))


def single(fn):
    """name -> expression of the names a function assigns once (None for its parameters)"""
    fn = getattr(fn, "node", fn)
    n, v = {}, {}
    if not isinstance(fn, ast.AST):
        return v
    for c in ast.walk(fn):
        if isinstance(c, ast.Name) and not isinstance(c.ctx, ast.Load):
            n[c.id] = n.get(c.id, 0) + 1
        elif isinstance(c, ast.Assign) and len(c.targets) == 1 and isinstance(c.targets[0], ast.Name):
            v[c.targets[0].id] = c.value
        elif isinstance(c, ast.arg):
            n[c.arg] = n.get(c.arg, 0) + 1
            v.setdefault(c.arg, None)
    return {x: e for x, e in v.items() if n.get(x) == 1}


def length_of(e, once, k=0):
    """the name x if the expression is len(x)"""
    if isinstance(e, ast.Name) and isinstance(once.get(e.id), ast.AST) and k < 4:
        return length_of(once[e.id], once, k + 1)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "len" and len(e.args) == 1 and isinstance(e.args[0], ast.Name):
        return e.args[0].id
    return None


def same_length(x, y, once, k=0):
    """was one of the lists made as long as the other"""
    if x == y:
        return True
    if k > 4:
        return False
    for a, b in ((x, y), (y, x)):
        e = once.get(a)
        if a not in once or b not in once or e is None:
            continue
        o = None
        if isinstance(e, ast.Call) and len(e.args) == 1 and isinstance(e.args[0], ast.Name) and (
                isinstance(e.func, ast.Name) and e.func.id in ("list", "deepcopy") or isinstance(e.func, ast.Attribute) and e.func.attr in ("deepcopy", "copy")):
            o = e.args[0].id
        elif isinstance(e, ast.Call) and not e.args and isinstance(e.func, ast.Attribute) and e.func.attr == "copy" and isinstance(e.func.value, ast.Name):
            o = e.func.value.id
        elif isinstance(e, ast.Subscript) and isinstance(e.value, ast.Name) and isinstance(e.slice, ast.Slice) and e.slice.lower is None and e.slice.upper is None and e.slice.step is None:
            o = e.value.id
        elif isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mult) and isinstance(e.left, ast.List) and len(e.left.elts) == 1:
            o = length_of(e.right, once)
        elif isinstance(e, ast.ListComp) and len(e.generators) == 1 and not e.generators[0].ifs and isinstance(e.generators[0].iter, ast.Name):
            o = e.generators[0].iter.id
        elif isinstance(e, ast.Name):
            o = e.id
        if o is not None and same_length(o, b, once, k + 1):
            return True
    return False


class Taint(Analyser):
    ATOM = Analyser.ATOM + ("mark", "unk", "const", "cipher", "cls", "mod")

    def __init__(self, prog, skip=(), limit=12000000, rules=None):
        super().__init__(prog, skip, limit)
        self.rules = rules
        self.sent = []
        self.sinks = 0
        self.over = {}
        self.encrypted = NO
        self.masked = NO
        self.UNK = frozenset([self.static("unk", "?")])

    # ------------------------------------------------------------ values
    def mark(self, name, verdict=False):
        return self.static("mark", (name, verdict), "%s%s" % ("verdict on " if verdict else "", name))

    def const(self, v):
        return frozenset([self.static("const", (v,), "%s:%r" % (type(v).__name__, v))])

    def flat(self, *sets):
        """everything inside data containers, without entering objects and tables"""
        seen, todo = set(), [x for s in sets for x in s]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.ty in KEEPERS:
                for f, v in self.fields_of(x).items():
                    if f[0] != "$":
                        todo += v
        return seen

    def marks(self, *sets):
        return frozenset(x for x in self.flat(*sets) if x.ty == "mark")

    def put(self, k, f, v):
        if not v and (isinstance(k, tuple) or (f[0] == "[" and f != "[]")) and f[0] != "$":
            v = self.UNK
        super().put(k, f, v)

    def ev(self, e, fr):
        r = super().ev(e, fr)
        return r if r else self.UNK

    def elems(self, s):
        return super().elems(s) | frozenset(o for o in s if o.ty in ("mark", "cipher"))

    def values(self, s):
        return super().values(s) | frozenset(o for o in s if o.ty in ("mark", "cipher"))

    def nested(self, s):
        return frozenset(x for x in self.flat(s) if x.ty not in KEEPERS and x.ty not in ("unk", "const"))

    def e_Subscript(self, e, fr):
        r = super().e_Subscript(e, fr)
        if not isinstance(e.slice, ast.Slice) and any(o.ty == "dict" for o in self.ev(e.value, fr)):
            # a lookup renames its key
            r |= self.marks(self.ev(e.slice, fr))
        return r

    def setfield(self, base, f, v, weak=False):
        base = frozenset(o for o in base if o.ty not in self.ATOM)
        v = self.classify(base, f, v)
        super().setfield(base, f, v, weak)
        for o in base:
            if f[0] == "$":
                continue
            if len(base) > 1 or weak or not o.recent:
                for x in list(self.d):
                    if isinstance(x, Obj) and o in self.get(x, "$base"):
                        self.put(x, f, self.get(x, f) | v)
            for b in self.get(o, "$base"):
                self.put(b, f, self.get(b, f) | v)

    def classify(self, base, f, v):
        """fields whose content is secret by role"""
        if self.rules:
            for o in base:
                for ty, fld, name in self.rules.get("fields", ()):
                    if o.ty == ty and f == fld and any(x.ty != "const" for x in v):
                        v = v | frozenset([self.mark(name)])
        return v

    # ------------------------------------------------------------ calls
    def callfn(self, f, args, kw, node, frame=None, selfset=None):
        q = f.qual
        h = self.rules.get("calls", {}).get(q) if self.rules else None
        if h is not None:
            self.funcs.add(q)
            if h[0] == "cipher":
                self.encrypted |= self.marks(*args, *kw.values())
                return frozenset([self.static("cipher", "cipher")])
            if h[0] == "decrypted":
                return frozenset([self.mark("a decrypted value")])
            if h[0] == "after":
                r = super().callfn(f, args, kw, node, frame, selfset)
                h[1](self, r)
                return r
        if self.rules:
            for ty, m, name in self.rules.get("unmask", ()):
                if q == m:
                    return frozenset([self.mark(name)])
        r = super().callfn(f, args, kw, node, frame, selfset)
        if not r and any(q.startswith(s) for s in self.skip):
            r = self.marks(*args, *kw.values())
        return r

    def inline(self, f, args, kw, node, frame):
        r = super().inline(f, args, kw, node, frame)
        if not r and self.alive:
            r = self.const(None) if not isinstance(f.node, ast.Lambda) and not any(isinstance(n, ast.Return) and n.value is not None for n in ast.walk(f.node)) else self.UNK
        return r

    def construct(self, c, args, kw, node):
        r = super().construct(c, args, kw, node)
        k = (self.rules or {}).get("keys", {}).get(c.qual)
        if k:
            for o in r:
                for f, v in list(self.fields_of(o).items()):
                    if f[0] != "$" and f not in k:
                        self.put(o, f, v | frozenset([self.mark("the private key")]))
        return r

    def default(self, f, e, fr):
        if isinstance(e, (ast.Constant, ast.UnaryOp)):
            return self.ev(e, fr)
        if isinstance(e, (ast.Attribute, ast.Name)):
            g = Frame()
            g.id, g.mod, g.cls, g.parent, g.fn, g.locals, g.globals, g.ctx = ("f", 0, id(e)), f.mod, f.cls, None, f, set(), set(), 0
            return self.ev(e, g)
        return super().default(f, e, fr)

    def apply(self, fs, args, kw, node):
        known = frozenset(o for o in fs if o.ty not in ("unk", "const", "mark", "cipher"))
        if known:
            r = super().apply(known, args, kw, node)
            if known == fs:
                return r
        else:
            r = NO
        # a callee nobody knows: it may return or wrap anything it was given
        for a in list(args) + list(kw.values()):
            cb = frozenset(x for x in a if x.ty in ("fn", "bm", "partial"))
            if cb:
                self.row(cb, [self.UNK] * 3, node)
        e = NO
        for a in list(args) + list(kw.values()):
            e |= self.elems(a) | frozenset(x for x in a if x.ty in ("mark", "cipher"))
        return r | self.new("list", node, elems=e, tag="call") | self.marks(*args)

    def external(self, q, args, kw, node):
        base = q.split(".")[-1]
        if q in ("pickle.dumps", "dumps", "json.dumps", "marshal.dumps", "base64.b64encode"):
            return args[0] if args else NO
        if q.startswith("builtins."):
            return self.builtin(base, args, kw, node)
        if base in ("loads", "load") or q.startswith("socket."):
            return self.new("any", node, tag="recv")
        strip = lambda v: frozenset(x for x in v if x.ty not in ("unk", "const"))
        r = super().external(q, args if q.startswith("functools.") or "copy" in base else [strip(a) for a in args], {k: strip(v) for k, v in kw.items()} if "partial" not in base else kw, node)
        if base in ("copy", "deepcopy", "partial", "shuffle"):
            return r
        if base in ("shape", "ndim", "argsort", "argmax", "argmin", "searchsorted", "choice"):
            return r
        m = self.marks(*args, *kw.values())
        c = frozenset(x for x in self.flat(*args) if x.ty == "cipher")
        return r | m | c

    def builtin(self, name, args, kw, node):
        if name == "vgg_secret":
            return frozenset([self.mark(x.data[0]) for x in args[0] if x.ty == "const"])
        r = super().builtin(name, args, kw, node)
        if name in DROP:
            return r
        if name in ("list", "tuple", "set", "frozenset", "sorted", "reversed", "iter", "dict", "zip", "enumerate", "map", "filter", "max", "min", "next"):
            if name == "dict":
                k = NO
                for o in (args[0] if args else NO):
                    if o.ty == "dict":
                        k |= self.get(o, "{k}")
                    else:
                        for x in self.elems(frozenset([o])):
                            k |= self.get(x, "[0]") if x.ty == "tuple" else NO
                for o in r:
                    self.put(o, "{k}", self.get(o, "{k}") | k)
            return r
        m = self.marks(*args, *kw.values())
        c = frozenset(x for x in self.flat(*args) if x.ty == "cipher")
        if name in ("any", "all"):
            return r | frozenset(self.mark(x.data[0], True) for x in m)
        return r | m | c

    def method1(self, os_, ty, name, args, kw, node):
        if name in ("sendall", "send", "sendto", "sendmsg") and not ty.startswith("obj:"):
            self.sink(args, node)
            return self.UNK
        if ty in ("unk", "const", "cipher"):
            if ty == "cipher":
                return os_
            if ty == "const" and all(o.data[0] is None for o in os_):
                return NO
            for a in list(args) + list(kw.values()):
                cb = frozenset(x for x in a if x.ty in ("fn", "bm", "partial"))
                if cb:
                    self.row(cb, [self.UNK] * 3, node)
            return self.marks(*args, *kw.values()) | self.UNK
        if ty == "mark":
            if name in DEC:
                return frozenset([self.mark("a decrypted value")])
            return os_ | self.marks(*args)
        if ty == "any":
            if name in TABLE_OPS and name not in ("count",):
                return super().method1(os_, ty, name, args, kw, node)
            r = super().method1(os_, ty, name, args, kw, node)
            return r | self.marks(*args, *kw.values())
        if ty == "list" and name == "add" and kw and not args:
            o = self.new("pb", node, tag="add", **kw)
            self.setfield(os_, "[]", o, weak=True)
            return o
        if ty == "dict" and name == "update":
            k = NO
            for x in (args[0] if args else NO):
                k |= self.get(x, "{k}")
                if x.ty == "any":
                    self.setfield(os_, "[]", frozenset([x]), weak=True)
            self.setfield(os_, "{k}", k, weak=True)
        if ty == "ndarray":
            r = super().method1(os_, ty, name, args, kw, node)
            if name in ("argsort", "argmax", "argmin"):
                return r
            m = self.marks(os_, *args)
            c = frozenset(x for x in self.flat(os_, *args) if x.ty == "cipher")
            return r | m | c
        return super().method1(os_, ty, name, args, kw, node)

    def getattr(self, b, name, node, fr):
        r = super().getattr(b, name, node, fr)
        if name not in ("shape", "size", "ndim", "dtype", "count", "__name__", "__class__"):
            r |= frozenset(o for o in b if o.ty == "mark")
        if any(o.ty == "pb" for o in b):
            r |= self.field(frozenset(o for o in b if o.ty == "pb"), name)
        return r

    # ------------------------------------------------------------ tables
    def tablemethod(self, recv, name, args, kw, node):
        if name == "filter":
            fn = args[0] if args else kw.get("func", NO)
            vals = self.field(recv, "v")
            self.row(fn, [self.UNK, vals], node, name)
            yes = [o for o in vals if self.passes(fn, o) is not False]
            neg = [o for o in vals if self.passes(fn, o) is not True]
            t = self.mktable(node, yes)
            o = next(iter(t))
            self.put(o, "$from", frozenset(recv))
            self.put(o, "$neg", frozenset(neg))
            return t
        if name == "subtractByKey":
            oth = args[0] if args else kw.get("other", NO)
            vals = self.field(recv, "v")
            src = NO
            if len(oth) == 1 and len(recv) == 1:
                o, r = next(iter(oth)), next(iter(recv))
                src = self.get(r, "$src") | recv
                if o.recent and r.recent and len(self.get(o, "$from")) == 1 and self.get(o, "$from") <= src and all(x.recent for x in self.get(o, "$from")):
                    vals = frozenset(x for x in vals if x in self.get(o, "$neg"))
            t = self.mktable(node, vals)
            self.put(next(iter(t)), "$src", src)
            return t
        return super().tablemethod(recv, name, args, kw, node)

    def passes(self, fs, o):
        """does every row that is the object pass the predicate"""
        if len(fs) != 1:
            return None
        f = next(iter(fs))
        if f.ty != "fn":
            return None
        fn, parent = f.data
        n = fn.node
        if isinstance(n, ast.Lambda):
            body = n.body
        else:
            b = [s for s in n.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
            if len(b) != 1 or not isinstance(b[0], ast.Return):
                return None
            body = b[0].value
        ps = [a.arg for a in n.args.args]
        if len(ps) != 2:
            return None
        fr = Frame()
        fr.id = ("f", "passes", id(n))
        fr.mod, fr.cls, fr.parent, fr.fn, fr.ctx, fr.locals, fr.globals = fn.mod, fn.cls, parent, fn, self.ctx, set(ps), set()
        self.put(fr.id, ps[0], self.UNK)
        self.put(fr.id, ps[1], frozenset([o]))
        try:
            return self.truth(body, fr)
        finally:
            self.d.pop(fr.id, None)

    # ------------------------------------------------------------ conditions
    PURE = (ast.Name, ast.Attribute, ast.Constant, ast.UnaryOp)

    def constants(self, e, fr):
        """the values the expression may have, or None"""
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "len" and len(e.args) == 1 and isinstance(e.args[0], self.PURE):
            out = set()
            for o in self.ev(e.args[0], fr):
                if o.ty != "tuple" or self.has(o, "[]") or not self.has(o, "[0]"):
                    return None
                out.add(len(list(self.tfields(o))))
            return out
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "isinstance":
            t = self.truth(e, fr)
            return None if t is None else {t}
        if isinstance(e, ast.Attribute) and e.attr == "__name__" and isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Name) and e.value.func.id == "type" and len(e.value.args) == 1 \
                and isinstance(e.value.args[0], self.PURE):
            out = set()
            for o in self.ev(e.value.args[0], fr):
                if o.ty in KEEPERS:
                    out.add(o.ty)
                elif o.ty == "const":
                    out.add(type(o.data[0]).__name__)
                elif o.ty in ("mark", "cipher"):
                    out.add("a number")
                else:
                    return None
            return out
        if not isinstance(e, self.PURE):
            return None
        out = set()
        for o in self.ev(e, fr):
            if o.ty == "const":
                out.add(o.data[0])
            elif o.ty in KEEPERS + ("table", "fn", "bm", "cls", "mark", "cipher") or o.ty.startswith("obj:"):
                out.add(o)
            else:
                return None
        return out

    def decided(self, v):
        """the truth of a value all of whose alternatives are constants"""
        if not v or any(o.ty != "const" for o in v):
            return None
        out = {bool(o.data[0]) for o in v}
        return out.pop() if len(out) == 1 else None

    def truth(self, e, fr):
        if isinstance(e, ast.Constant):
            return bool(e.value)
        if isinstance(e, ast.Name):
            return self.decided(self.ev(e, fr))
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t = self.truth(e.operand, fr)
            return None if t is None else not t
        if isinstance(e, ast.BoolOp):
            ts = [self.truth(v, fr) for v in e.values]
            if isinstance(e.op, ast.And):
                return False if False in ts else None if None in ts else True
            return True if True in ts else None if None in ts else False
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "isinstance" and len(e.args) == 2 and isinstance(e.args[0], self.PURE):
            t = e.args[1]
            names = [x.id for x in (t.elts if isinstance(t, ast.Tuple) else [t]) if isinstance(x, ast.Name)]
            if isinstance(t, ast.Attribute):
                names = [t.attr]
            if not names or any(n not in TYPES for n in names) or len(names) != len(t.elts if isinstance(t, ast.Tuple) else [t]):
                return None
            out = set()
            for o in self.ev(e.args[0], fr):
                if o.ty in KEEPERS:
                    out.add(o.ty in names or "Iterable" in names)
                elif o.ty in ("mark", "cipher"):
                    if any(n in ("float", "int", "str", "bool") for n in names):
                        return None
                    out.add(False)
                elif o.ty == "const":
                    out.add(type(o.data[0]).__name__ in names)
                elif o.ty == "table" or o.ty.startswith("obj:"):
                    out.add(False)
                else:
                    return None
            return out.pop() if len(out) == 1 else None
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            a, b = self.constants(e.left, fr), self.constants(e.comparators[0], fr)
            if not a or not b or len(a) * len(b) > 40:
                return None
            op = e.ops[0]
            out = set()
            for x in a:
                for y in b:
                    if isinstance(x, Obj) and isinstance(y, Obj):
                        return None
                    try:
                        if isinstance(op, (ast.Eq, ast.Is)):
                            if isinstance(x, Obj) or isinstance(y, Obj):
                                o, v = (x, y) if isinstance(x, Obj) else (y, x)
                                if o.ty == "mark" and v is not None or o.ty == "cipher" and v is not None:
                                    return None
                                out.add(False)
                            else:
                                out.add(x == y and (type(x) is type(y) or isinstance(op, ast.Eq)))
                        elif isinstance(op, (ast.NotEq, ast.IsNot)):
                            if isinstance(x, Obj) or isinstance(y, Obj):
                                o, v = (x, y) if isinstance(x, Obj) else (y, x)
                                if o.ty in ("mark", "cipher") and v is not None:
                                    return None
                                out.add(True)
                            else:
                                out.add(not (x == y and (type(x) is type(y) or isinstance(op, ast.NotEq))))
                        elif isinstance(x, Obj) or isinstance(y, Obj):
                            return None
                        elif isinstance(op, ast.Lt):
                            out.add(x < y)
                        elif isinstance(op, ast.LtE):
                            out.add(x <= y)
                        elif isinstance(op, ast.Gt):
                            out.add(x > y)
                        elif isinstance(op, ast.GtE):
                            out.add(x >= y)
                        else:
                            return None
                    except TypeError:
                        return None
            return out.pop() if len(out) == 1 else None
        return None

    def narrow(self, test, fr):
        """(variable, what it may be if the test holds, and if not)"""
        names = set()
        for n in ast.walk(test):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("isinstance", "type") and n.args and isinstance(n.args[0], ast.Name):
                names.add(n.args[0].id)
            if isinstance(n, ast.Compare) and isinstance(n.left, ast.Name) and isinstance(n.ops[0], (ast.Is, ast.IsNot)):
                names.add(n.left.id)
        if len(names) != 1:
            return None
        v = names.pop()
        if v not in fr.locals:
            return None
        os_ = self.get(fr.id, v)
        if len(os_) < 2:
            return None
        yes, no = set(), set()
        for o in os_:
            self.put(fr.id, v, frozenset([o]))
            t = self.truth(test, fr)
            if t is not False:
                yes.add(o)
            if t is not True:
                no.add(o)
        self.put(fr.id, v, os_)
        return (v, frozenset(yes), frozenset(no)) if yes != no and yes and no else None

    def s_If(self, s, fr):
        t = self.truth(s.test, fr)
        if t is None:
            n = self.narrow(s.test, fr)
            if n is None:
                v = self.ev(s.test, fr)
                t = self.decided(v) if self.alive and isinstance(s.test, ast.Call) else None
                if t is not None:
                    return self.block(s.body if t else s.orelse, fr)
                return super().s_If(s, fr)
            self.ev(s.test, fr)
            if not self.alive:
                return None
            d0 = dict(self.d)
            self.put(fr.id, n[0], n[1])
            o1 = self.block(s.body, fr)
            p1 = (self.d, self.alive)
            self.d, self.alive = d0, True
            self.put(fr.id, n[0], n[2])
            o2 = self.block(s.orelse, fr)
            p2 = (self.d, self.alive)
            self.merge([p1, p2])
            return {k: o1[k] + o2[k] for k in o1}
        self.ev(s.test, fr)
        return self.block(s.body if t else s.orelse, fr)

    def e_IfExp(self, e, fr):
        t = self.truth(e.test, fr)
        if t is None:
            n = self.narrow(e.test, fr)
            if n is None:
                return super().e_IfExp(e, fr)
            self.ev(e.test, fr)
            d0 = dict(self.d)
            keep = self.get(fr.id, n[0])
            self.put(fr.id, n[0], n[1])
            a = self.ev(e.body, fr)
            d1 = self.d
            self.d = d0
            self.put(fr.id, n[0], n[2])
            b = self.ev(e.orelse, fr)
            self.d = self.join(d1, self.d)
            return a | b
        self.ev(e.test, fr)
        return self.ev(e.body if t else e.orelse, fr)

    # ------------------------------------------------------------ expressions
    def e_Constant(self, e, fr):
        v = e.value
        if v is None or isinstance(v, (str, bool, int, float)):
            return self.const(v)
        return self.UNK

    def globalname(self, mod, name, node):
        r = self.P.lookup(mod, name)
        if r is not None and r[0] == "expr":
            e = r[1][1]
            if isinstance(e, ast.Constant):
                return self.e_Constant(e, None)
            if not isinstance(e, (ast.List, ast.Dict, ast.Set, ast.Call, ast.ListComp, ast.DictComp)):
                return self.UNK
        return super().globalname(mod, name, node)

    def e_BinOp(self, e, fr):
        a, b = self.ev(e.left, fr), self.ev(e.right, fr)
        return self.binop(a, b, e.op, e)

    def crypt(self, s):
        return frozenset(o for o in s if o.ty == "cipher" or (o.ty == "any" and self.received(o)))

    def plain(self, s):
        """may the operand be something other than a ciphertext"""
        if not s:
            return True
        for o in s:
            if o.ty in KEEPERS:
                f = self.flat(frozenset([o]))
                if any(x.ty == "mark" for x in f) or not self.crypt(f):
                    return True
            elif not self.crypt(frozenset([o])):
                return True
        return False

    @staticmethod
    def received(o):
        return "recv" in str(o.key) or "loads" in str(o.key)

    def binop(self, a, b, op, node):
        s = a | b
        r = NO
        both = self.plain(a) and self.plain(b)
        m = self.marks(s) if both else NO
        if isinstance(op, (ast.Add, ast.Mult)) and any(o.ty in ("list", "tuple") for o in s):
            e = self.elems(frozenset(o for o in s if o.ty in ("list", "tuple")))
            r |= self.new("list", node, elems=e, tag="concat")
        if any(o.ty == "ndarray" for o in s):
            r |= self.new("ndarray", node, elems=m | frozenset(x for x in self.flat(s) if x.ty == "cipher"), tag="arith")
        for o in sorted(s, key=lambda o: str(o.key)):
            if o.ty.startswith("obj:"):
                c = self.P.find_class(o.ty[4:])
                for nm in OPS.get(type(op), ()):
                    meth = self.P.method(c, nm) if c else None
                    if meth:
                        r |= self.callfn(meth, [frozenset([o]), b if o in a else a], {}, node)
                        break
        ca, cb = self.crypt(self.flat(a)), self.crypt(self.flat(b))
        r |= frozenset(o for o in ca | cb if o.ty == "cipher") or frozenset(ca | cb)
        if both:
            r |= m
            if not any(o.ty in KEEPERS for o in s):
                r |= self.UNK
        if any(o.ty == "any" for o in s):
            r |= frozenset(o for o in s if o.ty == "any" and (both or self.received(o)))
        return r

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.USub) and len(v) == 1:
            o = next(iter(v))
            if o.ty == "const" and isinstance(o.data[0], (int, float)):
                return self.const(-o.data[0])
        if isinstance(e.op, ast.Not):
            return frozenset(self.mark(x.data[0], True) for x in self.marks(v)) or self.UNK
        return frozenset(o for o in v if o.ty in ("mark", "cipher", "any")) | (self.new("ndarray", e, elems=self.marks(v), tag="neg") if any(o.ty == "ndarray" for o in v) else NO) or self.UNK

    def e_Compare(self, e, fr):
        t = self.truth(e, fr)
        if t is not None:
            return self.const(t)
        s = self.ev(e.left, fr)
        for c in e.comparators:
            s = s | self.ev(c, fr)
        if any(isinstance(o, (ast.In, ast.NotIn, ast.Is, ast.IsNot)) for o in e.ops):
            return self.UNK
        m = frozenset(self.mark(x.data[0], True) for x in self.marks(s))
        if any(o.ty == "ndarray" for o in s):
            return self.new("ndarray", e, elems=m, tag="cmp") | m
        return m | self.UNK

    def e_JoinedStr(self, e, fr):
        r = NO
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                r |= self.marks(self.ev(v.value, fr))
        return r

    def e_Dict(self, e, fr):
        r = super().e_Dict(e, fr)
        k = NO
        for x in e.keys:
            if x is not None:
                k |= self.ev(x, fr)
        for o in r:
            self.put(o, "{k}", k)
        return r

    def e_DictComp(self, e, fr):
        r = super().e_DictComp(e, fr)
        k = self.marks(self.ev(e.key, fr))
        for o in r:
            self.put(o, "{k}", self.get(o, "{k}") | k)
        return r

    # ------------------------------------------------------------ statements
    def assign(self, t, v, fr, node):
        if isinstance(t, ast.Name) and isinstance(node, ast.Assign) and isinstance(node.value, ast.Subscript):
            v = self.focus(v, node)
        if isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
            b = self.ev(t.value, fr)
            ds = frozenset(o for o in b if o.ty == "dict")
            if ds:
                self.setfield(ds, "{k}", self.marks(self.ev(t.slice, fr)) or self.UNK, weak=True)
            secret = self.rules and isinstance(t.value, ast.Attribute) and self.rules.get("masks") and any((o.ty, t.value.attr) in self.rules["masks"] for o in self.ev(t.value.value, fr))
            if secret:
                # what goes into the mask table is what the table exists to hide
                m = frozenset([self.mark("what the mask table hides")])
                if isinstance(node, ast.Assign) and isinstance(node.value, ast.Name):
                    super().assign(node.value, v | m, fr, node)
                self.masked |= self.marks(v)
                v = v | m
        super().assign(t, v, fr, node)
        if id(node) in self.over:
            self.over[id(node)] = self.over[id(node)] | v

    def s_For(self, s, fr):
        name = self.rewrites(s, fr.fn)
        if name is None:
            return super().s_For(s, fr)
        before = self.ev(ast.copy_location(ast.Name(name[0], ast.Load()), s), fr)
        self.over[id(name[1])] = NO
        r = super().s_For(s, fr)
        if self.alive and all(o.ty == "list" for o in before) and self.ev(ast.copy_location(ast.Name(name[0], ast.Load()), s), fr) == before:
            v = frozenset(x if x in self.d or x.ty in self.ATOM else self.twin(x) for x in self.over[id(name[1])])
            if v:
                o = self.obj("list", s, "rewritten")
                self.put(o, "[]", v)
                self.put(o, "$base", before)
                self.assign(ast.copy_location(ast.Name(name[0], ast.Store()), s), frozenset([o]), fr, s)
        return r

    def rewrites(self, s, fn):
        """(list, store statement) if every pass of the loop replaces the element it stands at"""
        it, tgt, src = s.iter, None, None
        once = single(fn)
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and not it.keywords:
            a = it.args
            if it.func.id == "range" and isinstance(s.target, ast.Name) and (len(a) == 1 or len(a) == 2 and isinstance(a[0], ast.Constant) and a[0].value == 0):
                src, tgt = length_of(a[-1], once), s.target.id
            elif it.func.id == "enumerate" and len(a) == 1 and isinstance(a[0], ast.Name) and isinstance(s.target, ast.Tuple) and isinstance(s.target.elts[0], ast.Name):
                src, tgt = a[0].id, s.target.elts[0].id
        if tgt is None or src is None or any(isinstance(n, (ast.Break, ast.Continue, ast.Return)) for n in ast.walk(s)):
            return None
        tgts = {tgt}
        for b in s.body:
            if isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name) and isinstance(b.value, ast.Name) and b.value.id in tgts \
                    and sum(1 for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id == b.targets[0].id) == 1:
                tgts.add(b.targets[0].id)
        hit = None
        for b in s.body:
            if isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Subscript) and isinstance(b.targets[0].value, ast.Name) \
                    and isinstance(b.targets[0].slice, ast.Name) and b.targets[0].slice.id in tgts and same_length(b.targets[0].value.id, src, once):
                hit = b
        name = hit.targets[0].value.id if hit is not None else None
        if hit is None:
            for b in s.body:
                h = self.written(b, tgts, src, once, fn)
                if h is not None:
                    name, hit = h
        if hit is None:
            return None
        lst = name
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id in (lst, src, tgt) and n is not s.target and not (isinstance(s.target, ast.Tuple) and n in s.target.elts):
                return None
        for n in ast.walk(s if lst == src else getattr(fn, "node", fn)):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in (lst, src) and n.func.attr != "copy":
                return None
        return (lst, hit)

    def written(self, b, tgts, src, once, fn):
        """(list, store statement) if the statement calls a function that replaces the element"""
        c = b.value if isinstance(b, (ast.Expr, ast.Assign)) else None
        if not isinstance(c, ast.Call) or c.keywords or any(isinstance(a, ast.Starred) for a in c.args):
            return None
        node, args, free = None, list(c.args), True
        if isinstance(c.func, ast.Name):
            here = [n for n in ast.walk(fn.node) if isinstance(n, ast.FunctionDef) and n.name == c.func.id and n is not fn.node]
            node = here[0] if len(here) == 1 else None
            if node is None:
                g = self.P.lookup(fn.mod, c.func.id)
                node, free = (g[1].node if isinstance(g, tuple) and len(g) > 1 and hasattr(g[1], "kind") else getattr(g, "node", None)), False
        elif isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and fn.cls is not None:
            m = self.P.method(fn.cls, c.func.attr)
            if m is not None and c.func.value.id in ("self", fn.cls.name):
                node, free = m.node, False
                if not any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in node.decorator_list):
                    args = [c.func.value] + args
        if node is None or not isinstance(node, ast.FunctionDef) or node.args.vararg or len(node.args.args) < len(args):
            return None
        m = {p.arg: a.id for p, a in zip(node.args.args, args) if isinstance(a, ast.Name)}
        ps = set(p.arg for p in node.args.args)
        stored = set(n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store))
        moved = set(n.func.value.id for n in ast.walk(node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.attr != "copy")
        for i, q in enumerate(node.body):
            if isinstance(q, ast.Return) or any(isinstance(n, ast.Return) for n in ast.walk(q)) and i + 1 < len(node.body):
                return None
            if isinstance(q, ast.Assign) and len(q.targets) == 1 and isinstance(q.targets[0], ast.Subscript) and isinstance(q.targets[0].value, ast.Name) and isinstance(q.targets[0].slice, ast.Name):
                l, k = q.targets[0].value.id, q.targets[0].slice.id
                if l in stored or k in stored or l in moved:
                    continue
                l = m.get(l) if l in ps else l if free else None
                k = m.get(k) if k in ps else k if free else None
                if l and k in tgts and same_length(l, src, once):
                    return l, q
        return None

    def e_Call(self, e, fr):
        r = super().e_Call(e, fr)
        if self.rules:
            for ty, fld, name in self.rules.get("fields", ()):
                if any(o.ty == ty for o in r):
                    for k in e.keywords:
                        if k.arg == fld and isinstance(k.value, ast.Name):
                            # the variable the secret field was filled from holds the secret as well
                            v = self.ev(k.value, fr)
                            if any(x.ty != "const" for x in v):
                                self.assign(k.value, v | frozenset([self.mark(name)]), fr, e)
        return r

    def shallow(self, s, node):
        if len(s) > 1 and len(set(o.ty for o in s)) == 1 and next(iter(s)).ty.startswith("obj:"):
            # one new object, whichever it was copied from
            fs = {}
            for o in s:
                for f, v in self.fields_of(o).items():
                    if f[0] != "$":
                        fs[f] = fs.get(f, NO) | v
            n = self.obj(next(iter(s)).ty, node, ("copy", "one"))
            for f, v in fs.items():
                self.put(n, f, v)
            return frozenset([n])
        return super().shallow(s, node)

    def focus(self, v, node):
        """the one element a subscript picked, told apart from the others of its summary"""
        tys = set(o.ty for o in v if o.ty not in ("const",))
        if len(tys) != 1 or not next(iter(tys)).startswith("obj:") or all(o.recent for o in v if o.ty != "const"):
            return v
        os_ = frozenset(o for o in v if o.ty != "const")
        fs = {}
        for o in os_:
            for f, x in self.fields_of(o).items():
                if f[0] != "$":
                    fs[f] = fs.get(f, NO) | x
        o = self.obj(next(iter(tys)), node, "focus")
        for f in list(self.fields_of(o)):
            if f != "$live":
                self.drop(o, f)
        for f, x in fs.items():
            self.put(o, f, x)
        self.put(o, "$base", os_ - frozenset([o, self.twin(o)]) or os_)
        return frozenset([o])

    def s_AugAssign(self, s, fr):
        v = self.ev(s.value, fr)
        t = s.target
        if isinstance(t, ast.Name):
            b = self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t), fr)
        elif isinstance(t, ast.Attribute):
            b = self.getattr(self.ev(t.value, fr), t.attr, t, fr) or self.UNK
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            b = frozenset(x for x in self.values(o) if x not in o) or self.UNK
        else:
            return
        self.inplace(b, v, s)
        nd = frozenset(o for o in b if o.ty in ("ndarray", "list", "set", "dict"))
        if nd:
            self.setfield(frozenset(o for o in nd if o.ty == "ndarray"), "[]", self.marks(v) | self.crypt(self.flat(v)), weak=True)
        rest = b - nd
        r = nd | (self.binop(rest, v, s.op, s) if rest else NO)
        if isinstance(t, ast.Subscript):
            self.mutate(frozenset(x for x in o if x.ty in ("ndarray", "list", "dict", "any", "set")), t, "[...] +=")
            self.setfield(frozenset(x for x in o if x.ty in ("ndarray", "list", "dict")), "[]", r, weak=True)
        else:
            self.assign(t, r, fr, s)

    # ------------------------------------------------------------ messages
    def sink(self, args, node):
        self.sinks += 1
        p = frozenset(x for a in args for x in a)
        top = p
        seen, todo = {}, [(x, "") for x in sorted(p, key=lambda o: str(o.key))]
        bad = {}
        while todo:
            x, path = todo.pop()
            if x in seen:
                continue
            seen[x] = path
            if x.ty == "mark":
                name, verdict = x.data
                if verdict and x in top:
                    continue
                bad.setdefault(str(x.name), path)
                continue
            if x.ty.startswith("obj:") and x.ty[4:] in (self.rules or {}).get("forbidden", ()):
                bad.setdefault("an object of %s" % x.ty[4:], path)
            if x.ty == "cipher":
                continue
            for f, v in self.fields_of(x).items():
                if f[0] == "$":
                    continue
                step = {"[]": "[*]", "v": " row", "{k}": " key"}.get(f, f if f[0] == "[" else "." + f)
                todo += [(y, path + step) for y in sorted(v, key=lambda o: str(o.key))]
        at = "?"
        for fn in reversed(self.stack):
            if not fn.qual.startswith("federation."):
                at = fn.qual
                break
        chain = " > ".join(f.qual.split(".")[-1] for f in self.stack)
        kinds = sorted(set(x.ty.split(".")[-1] for x in seen if x.ty not in ("unk", "const")))
        if DBG and bad:
            print("SINK", bad, file=__import__("sys").stderr)
            for x in seen:
                print("   ", x, {f: sorted(map(str, v)) for f, v in self.fields_of(x).items()}, file=__import__("sys").stderr)
        self.sent.append((at, chain, tuple(sorted(bad.items())), tuple(kinds)))


OPS = {ast.Add: ("__add__", "__radd__"), ast.Sub: ("__sub__", "__rsub__"), ast.Mult: ("__mul__", "__rmul__"), ast.Div: ("__truediv__", "__rtruediv__")}
