"""Points-to analysis with allocation sites, strong updates and recency (who may share what with whom).

The program is read, not run: expressions evaluate to sets of abstract objects (numbers, strings and other
immutable values are the empty set), statements transform a state mapping variables and object fields to such
sets, branches join, loops are iterated to a fixpoint.  An object allocated inside a loop or a row function is a
single recent object within one pass and is folded into its site's summary at the end of the pass.
Every in-place change is recorded with the objects it may change."""
import ast
from .prog import Func, Class

NO = frozenset()
TABLE = "computing.d_table.DTable"
SCALAR_FUNCS = {"len", "int", "float", "str", "bool", "abs", "round", "id", "hash", "isinstance", "issubclass", "type", "repr", "print", "range", "sum_", "ord", "chr",
                "hasattr", "callable", "any", "all", "pow", "divmod", "format", "bytes", "dir", "exec", "open", "input"}
MUT_LIST = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "update", "setdefault", "popitem", "add", "discard",
            "appendleft", "extendleft", "popleft", "rotate", "fill", "resize", "put", "itemset", "partition", "setflags", "byteswap", "setfield", "itemadd",
            "__setitem__", "__delitem__", "__iadd__", "__setattr__", "difference_update", "intersection_update", "symmetric_difference_update", "move_to_end"}
NP_VIEW = {"asarray", "asanyarray", "ascontiguousarray", "asfortranarray", "ravel", "reshape", "squeeze", "atleast_1d", "atleast_2d", "transpose", "swapaxes", "expand_dims", "moveaxis",
           "broadcast_to", "flip", "fliplr", "flipud", "rollaxis", "nan_to_num_", "diagonal", "split", "array_split", "hsplit", "vsplit"}
ND_VIEW = {"ravel", "reshape", "squeeze", "transpose", "swapaxes", "view", "diagonal", "T", "flat", "real", "base", "data"}
NP_MUT0 = {"copyto", "put", "place", "putmask", "fill_diagonal", "put_along_axis", "random.shuffle"}
TABLE_OPS = {"map", "mapValues", "mapPartitions", "mapReducePartitions", "reduce", "filter", "join", "union", "subtractByKey", "collect", "take", "first",
             "count", "get_keys", "get_kvs", "get_values"}


class Obj(object):
    __slots__ = ("ty", "key", "regs", "recent", "ext", "twin", "name", "data")

    def __init__(self, ty, key, regs, recent, name, data=None):
        self.ty, self.key, self.regs, self.recent, self.name = ty, key, regs, recent, name
        self.ext = False
        self.twin = None
        self.data = data

    def __repr__(self):
        return "%s%s@%s" % ("" if self.recent else "*", self.ty, self.name)


class Rec(dict):
    """the fields of an object (never changed once stored)"""
    __slots__ = ("sg",)

    def sig(self):
        try:
            return self.sg
        except AttributeError:
            self.sg = frozenset(self.items())
            return self.sg


def origin(o):
    """the allocation an object is a copy of, and whether it stands for several"""
    k, many = o.key, o.key[-1] == "*"
    while len(k) > 2 and isinstance(k[2], tuple) and k[2] and k[2][0] in ("deep", "copy"):
        k = k[2][2]
    return (k[:3], many)


def union(a, b):
    """field-wise union, sharing the first when it already covers the second"""
    n = None
    for f, v in b.items():
        w = a.get(f)
        if w is None or (w is not v and not v <= w):
            if n is None:
                n = Rec(a)
            n[f] = v if w is None else w | v
    return a if n is None else n


class Frame(object):
    __slots__ = ("id", "mod", "cls", "locals", "parent", "fn", "globals", "ctx")


class Out(object):
    __slots__ = ("ret", "brk", "cont", "exc")


def assigned(node):
    s = set()
    body = [node.body] if isinstance(node, ast.Lambda) else node.body
    todo = list(body)
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []):
        s.add(x.arg)
    gl = set()
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            s.add(n.name)
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            todo += list(ast.iter_child_nodes(n))
            continue
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            gl |= set(n.names)
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            s.add(n.id)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for x in n.names:
                s.add((x.asname or x.name).split(".")[0])
        if isinstance(n, ast.ExceptHandler) and n.name:
            s.add(n.name)
        todo += list(ast.iter_child_nodes(n))
    return s - gl


class TooBig(Exception):
    pass


class Analyser(object):
    ATOM = ("fn", "cls", "bm", "ext", "any", "partial")

    def __init__(self, prog, skip=(), limit=6000000):
        self.P = prog
        self.objs = {}
        self.d = {}
        self.regions = ()
        self.ctx = 0
        self.ctxid = {}
        self.parent = {}
        self.memo = {}
        self.stack = []
        self.muts = {}      # (file, line, func) -> set of Obj
        self.shared = {}
        self.funcs = set()
        self.steps = 0
        self.limit = limit
        self.locs = {}
        self.skip = tuple(skip)
        self.reached = set()
        self.rowdepth = 0
        self.vague = set()
        self.sites = set()
        self.frames = {}
        self.alive = True

    # ------------------------------------------------------------ objects
    def obj(self, ty, node, tag=None, data=None):
        key = (self.ctx, id(node), tag)
        o = self.objs.get(key)
        if o is None:
            fn = self.stack[-1].qual if self.stack else "?"
            o = Obj(ty, key, frozenset(self.regions), True, "%s:%s" % (fn, getattr(node, "lineno", "?")), data)
            self.objs[key] = o
        if self.has(o, "$live"):
            self.fold(lambda x: x is o)
        self.put(o, "$live", NO)
        o.data = data
        return o

    def new(self, ty, node, elems=None, tag=None, **fields):
        o = self.obj(ty, node, tag)
        if elems:
            self.put(o, "[]", frozenset(elems))
        for f, v in fields.items():
            self.put(o, f, frozenset(v))
        return frozenset([o])

    def twin(self, o):
        if o.twin is None:
            t = Obj(o.ty, o.key + ("*",), o.regs, False, o.name, o.data)
            t.ext = o.ext
            o.twin = t
        return o.twin

    def get(self, k, f):
        r = self.d.get(k)
        return r.get(f, NO) if r is not None else NO

    def getn(self, k, f):
        r = self.d.get(k)
        return r.get(f) if r is not None else None

    def has(self, k, f):
        r = self.d.get(k)
        return r is not None and f in r

    def put(self, k, f, v):
        r = self.d.get(k)
        n = Rec(r) if r is not None else Rec()
        n[f] = v
        self.d[k] = n

    def drop(self, k, f):
        r = self.d.get(k)
        if r is None or f not in r:
            return NO
        n = Rec(r)
        v = n.pop(f)
        self.d[k] = n
        return v

    def fold(self, pred):
        """merge the recent objects satisfying pred into their summaries"""
        hit = set(k for k in self.d if isinstance(k, Obj) and k.recent and pred(k))
        if not hit:
            return
        m = {o: self.twin(o) for o in hit}
        n = {}
        for k, r in self.d.items():
            q = None
            for f, v in r.items():
                if v and not v.isdisjoint(hit):
                    if q is None:
                        q = Rec(r)
                    q[f] = frozenset([m.get(x, x) for x in v])
            if q is None:
                q = r
            if k in m:
                k = m[k]
            o = n.get(k)
            n[k] = q if o is None else union(o, q)
        self.d = n

    def region(self, rid):
        self.regions = self.regions + (rid,)

    def endpass(self, rid):
        self.fold(lambda o: rid in o.regs)

    # ------------------------------------------------------------ heap
    def field(self, s, f):
        r = NO
        for o in s:
            if o.ty == "any":
                r = r | frozenset([o])
            else:
                r = r | self.get(o, f)
        return r

    def elems(self, s):
        """what iterating over or indexing the objects yields"""
        r = NO
        for o in s:
            if o.ty == "any":
                r |= frozenset([o])
            elif o.ty == "tuple":
                for k in self.tfields(o):
                    r |= self.get(o, k)
                r |= self.get(o, "[]")
            elif o.ty == "ndarray":
                e = self.get(o, "[]")
                r |= e | (NO if o.ext else frozenset([o]))
            elif o.ty == "dict":
                r |= self.get(o, "{k}")
            else:
                r |= self.get(o, "[]")
        return r

    def values(self, s):
        r = NO
        for o in s:
            if o.ty == "dict":
                r |= self.get(o, "[]")
            else:
                r |= self.elems(frozenset([o]))
        return r

    def tfields(self, o):
        i = 0
        while self.has(o, "[%d]" % i):
            yield "[%d]" % i
            i += 1

    def setfield(self, base, f, v, weak=False):
        if len(base) == 1:
            o = next(iter(base))
            if o.recent and not weak:
                self.put(o, f, v)
                return
        for o in base:
            if o.ty != "any":
                self.put(o, f, self.get(o, f) | v)

    def mutate(self, base, node, what):
        self.steps += 1
        fn = self.stack[-1] if self.stack else None
        k = (fn.mod.path if fn else "?", getattr(node, "lineno", 0), fn.qual if fn else "?", what)
        self.sites.add(k)
        if base:
            self.muts.setdefault(k, set()).update(base)
            if self.rowdepth:
                for o in base:
                    for t in self.tables_of(o):
                        self.shared.setdefault(k, set()).add((o, t))

    def tables_of(self, o):
        """live tables whose rows share the object: it was not allocated in a pass that ended before the table was made"""
        if o.ext or o.ty in ("any",):
            return []
        out = []
        for t in list(self.d):
            if isinstance(t, Obj) and t.ty == "table" and o.regs <= t.regs and self.reaches(self.get(t, "v"), o):
                out.append(t)
        return out

    def reaches(self, s, o):
        return o in self.reach(s, stop=("table",))

    def fields_of(self, o):
        return self.d.get(o, {})

    def reach(self, s, stop=()):
        seen, todo = set(), list(s)
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.ty in stop:
                continue
            todo += self.succ(x)
        return seen

    def succ(self, x):
        out = []
        r = self.d.get(x)
        if r is not None:
            for v in r.values():
                out += v
        if x.ty == "bm":
            out += x.data[1]
        elif x.ty == "partial":
            for a in list(x.data[1]) + [b for _, b in x.data[2]] + [x.data[0]]:
                out += a
        elif x.ty == "fn" and x.data[1] is not None:
            fr = x.data[1]
            while fr is not None:
                r = self.d.get(fr.id)
                if r is not None:
                    for v in r.values():
                        out += v
                fr = fr.parent
        return out

    # ------------------------------------------------------------ states
    @staticmethod
    def join(a, b):
        if a is None:
            return b
        if b is None or a is b:
            return a
        n = dict(a)
        for k, v in b.items():
            o = n.get(k)
            if o is None:
                n[k] = v
            elif o is not v:
                n[k] = union(o, v)
        return n

    @staticmethod
    def leq(a, b):
        for k, r in a.items():
            o = b.get(k)
            if o is r:
                continue
            if o is None:
                return False
            for f, v in r.items():
                w = o.get(f)
                if w is None or (w is not v and not v <= w):
                    return False
        return True

    # ------------------------------------------------------------ calls
    def callfn(self, f, args, kw, node, frame=None, selfset=None):
        """inline a repository function; args: list of sets (self first for methods)"""
        if any(f.qual.startswith(s) for s in self.skip):
            self.reached.add(f.qual)
            return self.new("any", node, tag=("skip", f.qual))
        if sum(1 for g in self.stack if g.node is f.node) >= 2 or len(self.stack) > 40:
            self.vague.add("recursion %s" % f.qual)
            return NO
        if self.rowdepth or not has_calls(f.node):
            return self.inline(f, args, kw, node, frame)
        roots = [x for v in list(args) + list(kw.values()) for x in v]
        fr, fids = frame, []
        while fr is not None:
            fids.append(fr.id)
            fr = fr.parent
        for k in fids:
            for v in self.d.get(k, {}).values():
                roots += v
        seen = self.reach(roots)
        d = self.d
        sl = frozenset([(k, d[k].sig()) for k in list(seen) + fids if k in d])
        key = (f.node, self.ctx, id(node), frame.id if frame else None, tuple(args), tuple(sorted(kw.items())), self.regions, sl)
        m = self.memo.get(key)
        if m is not None:
            r, delta, gone, alive = m
            self.hits += 1
            d = dict(d)
            for k, v in delta.items():
                o = d.get(k)
                d[k] = v if o is None or k in seen or k in fids else union(o, v)
            for k in gone:
                if k in seen:
                    d.pop(k, None)
            self.d = d
            self.alive = self.alive and alive
            return r
        pre = dict(d)
        al = self.alive
        r = self.inline(f, args, kw, node, frame)
        post = self.d
        delta = {k: v for k, v in post.items() if pre.get(k) is not v}
        gone = [k for k in pre if k not in post]
        self.memo[key] = (r, delta, gone, self.alive or not al)
        return r

    hits = 0

    def inline(self, f, args, kw, node, frame):
        self.steps += 1
        if self.steps > self.limit:
            raise TooBig()
        self.funcs.add(f.qual)
        save = (self.ctx, self.alive)
        c = (self.ctx, id(node))
        self.ctx = self.ctxid.setdefault(c, len(self.ctxid) + 1)
        self.parent[self.ctx] = save[0]
        me = self.ctx
        fr = Frame()
        fr.id = ("f", self.ctx, id(f.node))
        fr.mod, fr.cls, fr.parent, fr.fn, fr.ctx = f.mod, f.cls, frame, f, self.ctx
        if f.node not in self.locs:
            self.locs[f.node] = assigned(f.node)
        fr.locals = self.locs[f.node]
        fr.globals = set()
        self.frames[fr.id] = fr
        self.d.pop(fr.id, None)
        self.bind(f, fr, list(args), dict(kw), node)
        self.stack.append(f)
        try:
            if isinstance(f.node, ast.Lambda):
                r = self.ev(f.node.body, fr)
            else:
                o = self.block(f.node.body, fr)
                r = NO
                st = self.d if self.alive else None
                for d, v in o["ret"]:
                    st = self.join(st, d)
                    r = r | v
                if st is None:
                    st = self.d
                    dead = True
                else:
                    dead = False
                self.d = st
                gen = self.getn(fr.id, "$yield")
                if gen is not None:
                    r = self.new("list", f.node, elems=gen, tag="gen")
                self.alive = not dead
        finally:
            self.stack.pop()
            alive = self.alive
            self.ctx = save[0]
            self.alive = save[1] and alive
        if not has_closure(f.node):
            self.d.pop(fr.id, None)
        if len(self.d) > self.gcat:
            self.gc(r, me)
            self.gcat = 2 * len(self.d) + 1500
        return r

    gcat = 1500

    def gc(self, ret, ctx):
        """drop what the returning call allocated and nobody can reach (callers may hold anything older)"""
        memo = {}

        def inside(c):
            r = memo.get(c)
            if r is None:
                r = memo[c] = c == ctx or (c in self.parent and inside(self.parent[c]))
            return r
        roots = list(ret)
        mine = lambda o: isinstance(o.key[0], int) and inside(o.key[0])
        for k, r in self.d.items():
            if not isinstance(k, Obj) or not mine(k):
                for v in r.values():
                    roots += v
        seen = self.reach(roots)
        self.d = {k: r for k, r in self.d.items() if not isinstance(k, Obj) or k in seen or not mine(k)}

    def bind(self, f, fr, args, kw, node):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        extra = []
        for i, v in enumerate(args):
            if i < len(names):
                self.put(fr.id, names[i], v)
            else:
                extra.append(v)
        nd = len(a.defaults)
        for i, n in enumerate(names[len(args):], len(args)):
            if n in kw:
                self.put(fr.id, n, kw.pop(n))
            else:
                j = i - (len(names) - nd)
                if j >= 0:
                    self.put(fr.id, n, self.default(f, a.defaults[j], fr))
                else:
                    self.put(fr.id, n, kw.get("**", NO))
        for x, dflt in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg in kw:
                self.put(fr.id, x.arg, kw.pop(x.arg))
            else:
                self.put(fr.id, x.arg, self.default(f, dflt, fr) if dflt is not None else NO)
        if a.vararg:
            self.put(fr.id, a.vararg.arg, self.new("tuple", node, elems=frozenset().union(*extra) if extra else NO, tag=("va", id(f.node))))
        if a.kwarg:
            self.put(fr.id, a.kwarg.arg, self.new("dict", node, elems=frozenset().union(*kw.values()) if kw else NO, tag=("kw", id(f.node))))

    def default(self, f, e, fr):
        if isinstance(e, ast.Constant):
            return NO
        # a default object is one object for the whole program
        save = self.ctx, self.regions
        self.ctx, self.regions = 0, ()
        try:
            key = (0, id(e), "default")
            o = self.objs.get(key)
            if o is not None and self.has(self.twin(o), "$live"):
                return frozenset([self.twin(o)])
            g = Frame()
            g.id, g.mod, g.cls, g.parent, g.fn, g.locals, g.globals, g.ctx = ("f", 0, id(e)), f.mod, f.cls, None, f, set(), set(), 0
            v = self.ev(e, g)
            if len(v) == 1:
                x = next(iter(v))
                self.objs[key] = x
                self.fold(lambda y: y is x)
                return frozenset([self.twin(x)]) if x.recent else v
            return v
        finally:
            self.ctx, self.regions = save

    def apply(self, fs, args, kw, node):
        """call every function in the set"""
        r = NO
        if not fs:
            return NO
        fs = sorted(fs, key=lambda o: str(o.key))
        return self.each([lambda o=o: self.apply1(o, args, kw, node) for o in fs])

    def each(self, thunks):
        """the alternatives of one call"""
        if len(thunks) == 1:
            return thunks[0]()
        r = NO
        base, al = self.d, self.alive
        parts = []
        for t in thunks:
            self.d, self.alive = dict(base), al
            v = t()
            if self.alive:
                r |= v
            parts.append((self.d, self.alive))
        self.merge(parts)
        return r

    def apply1(self, o, args, kw, node):
        if o.ty == "fn":
            f, fr = o.data
            return self.callfn(f, args, kw, node, fr)
        if o.ty == "bm":
            f, recv, fr = o.data
            if isinstance(f, str):
                return self.method(recv, f, args, kw, node)
            if f.kind == "staticmethod":
                return self.callfn(f, args, kw, node)
            return self.callfn(f, [recv] + list(args), kw, node)
        if o.ty == "cls":
            return self.construct(o.data, args, kw, node)
        if o.ty == "partial":
            fs, a, k = o.data
            kk = dict(k)
            kk.update(kw)
            return self.apply(fs, list(a) + list(args), kk, node)
        if o.ty == "ext":
            return self.external(o.data, args, kw, node)
        if o.ty.startswith("obj:"):
            c = self.P.find_class(o.ty[4:])
            m = self.P.method(c, "__call__") if c else None
            if m:
                return self.callfn(m, [frozenset([o])] + list(args), kw, node)
        if o.ty == "any":
            for a in list(args) + list(kw.values()):
                for x in a:
                    if x.ty in ("fn", "bm", "partial"):
                        self.row(frozenset([x]), [frozenset([o])] * 2, node)
            return frozenset([o])
        return NO

    def construct(self, c, args, kw, node):
        if c.qual == TABLE:
            return self.mktable(node, self.tabledata(args, kw), tag="ctor")
        if any(c.qual.startswith(s) for s in self.skip):
            return self.new("any", node, tag=("cls", c.qual))
        o = self.new("obj:" + c.qual, node, tag=("cls", c.qual))
        m = self.P.method(c, "__init__")
        if m:
            self.callfn(m, [o] + list(args), kw, node)
        if any("NamedTuple" in str(b) or "Exception" in str(b) for b in self.P.ext_bases(c)):
            pass
        return o

    def tabledata(self, args, kw):
        src = args[1] if len(args) > 1 else kw.get("data", NO)
        e = self.elems(src)
        # with keys the rows are pairs, without the rows are the elements: both readings of a pair
        r = NO
        for x in e:
            if x.ty == "tuple" and self.has(x, "[1]") and not self.has(x, "[2]"):
                r |= self.get(x, "[1]")
            r |= frozenset([x])
        return r

    # ------------------------------------------------------------ tables
    def mktable(self, node, vals, tag=None):
        t = self.new("table", node, tag=("table", tag))
        o = next(iter(t))
        self.put(o, "v", frozenset(vals))
        self.put(o, "schema", self.new("dict", node, tag=("schema", tag)))
        return t

    def pairs(self, vals, node, tag="pair"):
        p = self.obj("tuple", node, ("pairs", tag))
        self.put(p, "[0]", NO)
        self.put(p, "[1]", vals)
        self.fold(lambda x: x is p)
        return self.new("list", node, elems=[self.twin(p)], tag=("items", tag))

    def row(self, fs, args, node, tag="row"):
        """a function applied to every row: its objects are distinct per row"""
        rid = ("row", self.ctx, id(node), tag)
        save = self.regions
        self.region(rid)
        self.rowdepth += 1
        r = NO
        try:
            for _ in range(6):
                before = dict(self.d)
                al = self.alive
                v = self.apply(fs, args, {}, node)
                self.alive = al
                # the result and the state, with this pass's objects folded
                hold = self.obj("tuple", node, ("hold", tag))
                self.put(hold, "[0]", v | r)
                self.endpass(rid)
                ho = self.twin(hold) if self.has(self.twin(hold), "[0]") else hold
                r = self.drop(ho, "[0]")
                self.drop(ho, "$live")
                nd = self.join(before, self.d)
                self.d = nd
                if self.leq(nd, before):
                    break
        finally:
            self.regions = save
            self.rowdepth -= 1
        return r

    def tablemethod(self, recv, name, args, kw, node):
        vals = self.field(recv, "v")
        a = list(args)
        fn = a[0] if a else kw.get("func", NO)
        one = lambda s: self.row(s[0], s[1:], node, name)
        if name == "mapValues":
            return self.mktable(node, one([fn, vals]))
        if name == "map":
            return self.mktable(node, one([fn, NO, vals]))
        if name == "filter":
            one([fn, NO, vals])
            return self.mktable(node, vals)
        if name == "mapPartitions":
            it = self.pairs(vals, node)
            r = self.row(fn, [it], node, name)
            return self.mktable(node, self.elems(r))
        if name == "mapReducePartitions":
            mp = a[0] if a else kw.get("mapper", NO)
            rd = a[1] if len(a) > 1 else kw.get("reducer", NO)
            it = self.pairs(vals, node)
            r = self.row(mp, [it], node, name)
            v = NO
            for x in self.elems(r):
                v |= self.get(x, "[1]") if x.ty == "tuple" else self.elems(frozenset([x]))
            v2 = self.row(rd, [v, v], node, name + "2")
            return self.mktable(node, v | v2)
        if name == "reduce":
            v2 = self.row(fn, [vals, vals], node, name)
            return vals | v2
        if name in ("join", "union"):
            other = a[0] if a else kw.get("other", NO)
            fn = a[1] if len(a) > 1 else kw.get("func", NO)
            ov = self.field(other, "v")
            mine = self.deep(vals, node, "union") if name == "union" else vals
            r = self.row(fn, [mine, ov], node, name) if fn else mine
            return self.mktable(node, r | ((mine | ov) if name == "union" else NO))
        if name == "subtractByKey":
            return self.mktable(node, vals)
        if name in ("collect", "get_kvs", "take"):
            return self.pairs(vals, node)
        if name == "get_values":
            return self.new("list", node, elems=vals, tag="vals")
        if name == "first":
            return vals
        return NO

    # ------------------------------------------------------------ copies
    def deep(self, s, node, tag=""):
        m = {}

        def go(o):
            if o.ty in self.ATOM:
                return o
            if o in m:
                return m[o]
            n = self.obj(o.ty, node, ("deep", tag) + origin(o))
            if tag == "union":
                n.regs = n.regs | o.regs | frozenset(["rows"])
            m[o] = n
            for f, v in list(self.fields_of(o).items()):
                if f != "$live":
                    self.put(n, f, frozenset(go(x) for x in v))
            return n
        return frozenset(go(o) for o in s)

    def shallow(self, s, node):
        r = NO
        for o in sorted(s, key=lambda o: str(o.key)):
            if o.ty in self.ATOM:
                r |= frozenset([o])
                continue
            fs = self.fields_of(o)
            n = self.obj(o.ty, node, ("copy", "") + origin(o))
            for f, v in fs.items():
                if f != "$live":
                    self.put(n, f, v)
            r |= frozenset([n])
        return r

    # ------------------------------------------------------------ library calls
    def external(self, q, args, kw, node):
        allv = frozenset().union(*args, *kw.values()) if (args or kw) else NO
        base = q.split(".")[-1]
        if q in ("copy.copy",):
            return self.shallow(args[0] if args else NO, node)
        if q in ("copy.deepcopy",):
            return self.deep(args[0] if args else NO, node)
        if q == "functools.partial":
            o = self.obj("partial", node, "partial", (args[0], tuple(args[1:]), tuple(sorted(kw.items()))))
            return frozenset([o])
        if q == "functools.reduce":
            it = self.elems(args[1]) if len(args) > 1 else NO
            init = args[2] if len(args) > 2 else NO
            return it | init | self.row(args[0], [it | init, it], node)
        if q == "random.shuffle" or q.endswith("random.shuffle"):
            self.mutate(args[0] if args else NO, node, "shuffle")
            return NO
        if q.startswith("numpy.") or q.startswith("np."):
            if "out" in kw:
                self.mutate(kw["out"], node, base + "(out=)")
                return kw["out"]
            if base in NP_MUT0 or (base == "at" and len(q.split(".")) == 3):
                self.mutate(args[0] if args else NO, node, base)
                return NO
            a0 = args[0] if args else kw.get("a", kw.get("object", NO))
            if base in NP_VIEW:
                nd = frozenset(o for o in a0 if o.ty in ("ndarray", "any"))
                return nd | self.new("ndarray", node, elems=self.nested(a0 - nd), tag=base)
            if base in ("array", "append", "concatenate", "stack", "vstack", "hstack", "where", "full", "repeat", "tile"):
                if base == "array" and "copy" in kw:
                    return a0 | self.new("ndarray", node, tag=base)
                return self.new("ndarray", node, elems=self.nested(a0), tag=base)
            if not args:
                return NO
            return self.new("ndarray", node, tag=base)
        if q in ("heapq.heappush", "heapq.heapify", "heapq.heappop", "bisect.insort", "bisect.insort_left", "bisect.insort_right", "operator.setitem", "operator.iadd", "operator.delitem"):
            self.mutate(args[0] if args else NO, node, base)
            if len(args) > 1:
                self.setfield(args[0], "[]", args[-1], weak=True)
            return self.elems(args[0]) if base == "heappop" else args[0] if args else NO
        if q in ("operator.itemgetter", "operator.attrgetter"):
            return NO
        for a in args:
            fs = frozenset(x for x in a if x.ty in ("fn", "bm", "partial"))
            if fs:
                self.row(fs, [self.elems(allv - fs)] * 2, node)
        if base[:1].isupper() or q.startswith("ml.") or not allv:
            return self.new("any", node, tag=q)
        return self.new("list", node, elems=self.nested(allv), tag=q)

    def nested(self, s):
        """elements that stay shared when a container is turned into an array: nested non-array objects"""
        return frozenset(x for x in self.elems(s) if x.ty not in ("ndarray", "list", "tuple"))

    def builtin(self, name, args, kw, node):
        a0 = args[0] if args else NO
        if name in ("list", "tuple", "set", "frozenset", "sorted", "reversed", "iter"):
            ty = {"tuple": "tuple", "set": "set", "frozenset": "set"}.get(name, "list")
            if "key" in kw:
                self.row(kw["key"], [self.elems(a0)], node)
            if name == "iter":
                return a0
            return self.new(ty, node, elems=self.elems(a0), tag=name)
        if name == "dict":
            v = NO
            for o in a0:
                if o.ty == "dict":
                    v |= self.get(o, "[]")
                else:
                    for x in self.elems(frozenset([o])):
                        v |= self.get(x, "[1]") if x.ty == "tuple" else self.elems(frozenset([x]))
            for x in kw.values():
                v |= x
            return self.new("dict", node, elems=v, tag=name)
        if name in ("zip", "enumerate"):
            t = self.obj("tuple", node, ("zip",))
            vs = [NO] if name == "enumerate" else []
            for i, v in enumerate(vs + [self.elems(a) for a in (args[:1] if name == "enumerate" else args)]):
                self.put(t, "[%d]" % i, v)
            self.fold(lambda x: x is t)
            return self.new("list", node, elems=[self.twin(t)], tag=name)
        if name == "map":
            v = self.row(a0, [self.elems(x) for x in args[1:]], node, "map")
            return self.new("list", node, elems=v, tag=name)
        if name == "filter":
            if a0:
                self.row(a0, [self.elems(args[1]) if len(args) > 1 else NO], node, "filter")
            return self.new("list", node, elems=self.elems(args[1]) if len(args) > 1 else NO, tag=name)
        if name in ("max", "min", "next", "sum"):
            if "key" in kw:
                self.row(kw["key"], [self.elems(a0)], node)
            if name == "sum":
                return self.new("ndarray", node, tag="sum") if any(x.ty in ("ndarray", "any") for x in self.elems(a0)) else NO
            r = self.elems(a0) if len(args) == 1 or name == "next" else frozenset().union(*args)
            return r
        if name == "getattr":
            return NO
        if name == "vars":
            return NO
        if name == "super":
            return NO
        return NO

    # ------------------------------------------------------------ methods
    def method(self, recv, name, args, kw, node):
        r = NO
        groups = {}
        for o in recv:
            groups.setdefault(o.ty, set()).add(o)
        if groups:
            r = self.each([lambda ty=ty: self.method1(frozenset(groups[ty]), ty, name, args, kw, node) for ty in sorted(groups)])
        if not recv:
            for a in list(args) + list(kw.values()):
                fs = frozenset(x for x in a if x.ty in ("fn", "bm", "partial"))
                if fs:
                    self.row(fs, [NO, NO, NO], node, "unknown")
        return r

    def method1(self, os_, ty, name, args, kw, node):
        if ty == "table":
            return self.tablemethod(os_, name, args, kw, node)
        if ty == "any" and name in TABLE_OPS:
            return self.tablemethod(self.astable(os_, node), name, args, kw, node) | (os_ if name in ("collect", "take", "first") else NO)
        if ty.startswith("obj:"):
            c = self.P.find_class(ty[4:])
            if c is None:
                return NO
            v = self.field(os_, name)
            m = self.P.method(c, name)
            if v and m is None:
                return self.apply(v, args, kw, node)
            if m is not None:
                if m.kind == "staticmethod":
                    return self.callfn(m, args, kw, node)
                if m.kind == "classmethod":
                    return self.callfn(m, [NO] + list(args), kw, node)
                return self.callfn(m, [os_] + list(args), kw, node)
            return NO
        if ty == "mod":
            return NO
        if ty in ("fn", "bm", "cls", "partial", "ext"):
            if ty == "cls":
                r = NO
                for o in os_:
                    m = self.P.method(o.data, name)
                    if m:
                        r |= self.callfn(m, ([] if m.kind != "classmethod" else [NO]) + list(args), kw, node)
                return r
            return NO
        if name in MUT_LIST:
            if not (ty == "ndarray" and name in ("pop", "append")):
                self.mutate(os_, node, "." + name)
            if name in ("append", "add", "appendleft"):
                self.setfield(os_, "[]", args[0] if args else NO, weak=True)
            elif name in ("insert",):
                self.setfield(os_, "[]", args[1] if len(args) > 1 else NO, weak=True)
            elif name in ("extend", "extendleft"):
                self.setfield(os_, "[]", self.elems(args[0]) if args else NO, weak=True)
            elif name == "update":
                v = NO
                for x in (args[0] if args else NO):
                    v |= self.get(x, "[]")
                self.setfield(os_, "[]", v, weak=True)
            elif name == "setdefault":
                self.setfield(os_, "[]", args[1] if len(args) > 1 else NO, weak=True)
                return self.values(os_)
            elif name in ("pop", "popleft"):
                return self.values(os_)
            elif name == "popitem":
                return self.elems(self.pairs(self.values(os_), node))
            if "key" in kw:
                self.row(kw["key"], [self.elems(os_)], node)
            return NO
        if ty == "dict":
            if name in ("get", "__getitem__"):
                return self.values(os_) | (args[1] if len(args) > 1 else NO)
            if name == "values":
                return self.new("list", node, elems=self.values(os_), tag="values")
            if name == "items":
                t = self.obj("tuple", node, "items")
                self.put(t, "[0]", self.field(os_, "{k}"))
                self.put(t, "[1]", self.values(os_))
                self.fold(lambda x: x is t)
                return self.new("list", node, elems=[self.twin(t)], tag="itemlist")
            if name == "keys":
                return self.new("list", node, elems=self.field(os_, "{k}"), tag="keys")
        if name == "copy":
            return self.shallow(os_, node)
        if ty == "ndarray":
            if name in ND_VIEW or (name == "astype" and "copy" in kw):
                return os_
            if name == "tolist":
                return self.new("list", node, elems=self.nested(os_), tag="tolist")
            return self.new("ndarray", node, tag="m" + name)
        if ty == "any":
            for a in list(args) + list(kw.values()):
                fs = frozenset(x for x in a if x.ty in ("fn", "bm", "partial"))
                if fs:
                    self.row(fs, [os_, os_], node, "any")
            return os_
        if name in ("union", "difference", "intersection", "__add__", "__or__"):
            return self.new("set", node, elems=self.elems(os_) | (self.elems(args[0]) if args else NO), tag=name)
        if name in ("__getitem__",):
            return self.values(os_)
        return NO

    def astable(self, os_, node):
        return frozenset(os_)

    # ------------------------------------------------------------ expressions
    def ev(self, e, fr):
        self.steps += 1
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            for c in ast.iter_child_nodes(e):
                if isinstance(c, ast.expr):
                    self.ev(c, fr)
            return NO
        r = m(e, fr)
        return r

    def e_Constant(self, e, fr):
        return NO

    def e_Name(self, e, fr):
        f = fr
        while f is not None:
            if e.id in f.locals and e.id not in f.globals:
                v = self.getn(f.id, e.id)
                return v if v is not None else NO
            f = f.parent
        return self.globalname(fr.mod, e.id, e)

    def globalname(self, mod, name, node):
        r = self.P.lookup(mod, name)
        if r is None:
            return frozenset([self.static("ext", "builtins." + name)])
        if r[0] == "func":
            return frozenset([self.static("fn", (r[1], None), r[1].qual)])
        if r[0] == "class":
            return frozenset([self.static("cls", r[1], r[1].qual)])
        if r[0] == "mod":
            return frozenset([self.static("mod", r[1])])
        if r[0] == "ext":
            return frozenset([self.static("ext", r[1])])
        if r[0] == "expr" and isinstance(r[1][1], (ast.List, ast.Dict, ast.Set, ast.Call, ast.ListComp, ast.DictComp)):
            v = self.globalvalue(r[2], r[1][1])
            return v
        return NO

    def globalvalue(self, mod, e):
        key = (0, id(e), "global")
        o = self.objs.get(key)
        if o is not None:
            return o if isinstance(o, frozenset) else frozenset([o])
        self.objs[key] = NO
        g = Frame()
        g.id, g.mod, g.cls, g.parent, g.fn, g.locals, g.globals, g.ctx = ("f", 0, id(e)), mod, None, None, None, set(), set(), 0
        save = self.ctx, self.regions
        self.ctx, self.regions = 0, ()
        try:
            v = self.ev(e, g)
            self.fold(lambda y: y in v)
            v = frozenset(self.twin(x) if x.recent and x.ty not in ("fn", "cls", "mod", "ext") else x for x in v)
        finally:
            self.ctx, self.regions = save
        self.objs[key] = v
        return v

    def static(self, ty, data, name=None):
        key = ("static", ty, name or data)
        o = self.objs.get(key)
        if o is None:
            o = Obj(ty, key, frozenset(), False, str(name or data), data)
            self.objs[key] = o
        return o

    def e_Attribute(self, e, fr):
        b = self.ev(e.value, fr)
        return self.getattr(b, e.attr, e, fr)

    def getattr(self, b, name, node, fr):
        r = NO
        for o in sorted(b, key=lambda o: str(o.key)):
            if o.ty == "mod":
                m = self.P.module(o.data)
                if m is not None:
                    r |= self.globalname(m, name, node) if self.P.lookup(m, name) else frozenset([self.static("ext", o.data + "." + name)])
                elif self.P.module(o.data + "." + name) is not None or self.P.is_pkg(o.data + "." + name):
                    r |= frozenset([self.static("mod", o.data + "." + name)])
                else:
                    r |= frozenset([self.static("ext", o.data + "." + name)])
            elif o.ty == "ext":
                r |= frozenset([self.static("ext", o.data + "." + name)])
            elif o.ty == "any":
                r |= frozenset([o])
            elif o.ty == "ndarray":
                if name in ND_VIEW:
                    r |= frozenset([o])
            elif o.ty == "cls":
                m = self.P.method(o.data, name)
                if m:
                    r |= frozenset([self.static("fn", (m, None), m.qual)])
                else:
                    for c in self.P.mro(o.data):
                        if name in c.consts:
                            r |= self.globalvalue(c.mod, c.consts[name])
                            break
            elif o.ty.startswith("obj:") or o.ty == "table":
                if self.has(o, name):
                    r |= self.get(o, name)
                    continue
                c = self.P.find_class(o.ty[4:]) if o.ty != "table" else None
                m = self.P.method(c, name) if c else None
                if m is not None:
                    if m.kind == "property":
                        r |= self.callfn(m, [frozenset([o])], {}, node)
                    else:
                        r |= frozenset([self.bound(m, frozenset([o]), node)])
                elif c is not None:
                    for k in self.P.mro(c):
                        if name in k.consts:
                            r |= self.globalvalue(k.mod, k.consts[name])
                            break
                elif o.ty == "table" and name in TABLE_OPS:
                    r |= frozenset([self.bound(name, frozenset([o]), node)])
        return r

    def bound(self, m, recv, node):
        key = ("bm", m if isinstance(m, str) else m.qual, recv)
        o = self.objs.get(key)
        if o is None:
            o = Obj("bm", key, frozenset(), False, str(key[1]), (m, recv, None))
            self.objs[key] = o
        return o

    def e_Subscript(self, e, fr):
        b = self.ev(e.value, fr)
        if isinstance(e.slice, ast.Slice):
            for x in (e.slice.lower, e.slice.upper, e.slice.step):
                if x is not None:
                    self.ev(x, fr)
            nd = frozenset(o for o in b if o.ty in ("ndarray", "any"))
            rest = b - nd
            r = nd
            if rest:
                r |= self.new("list", e, elems=self.elems(rest), tag="slice")
            return r
        i = self.ev(e.slice, fr)
        r = NO
        tup = isinstance(e.slice, ast.Tuple)
        for o in b:
            if o.ty == "tuple" and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) and self.has(o, "[%d]" % e.slice.value):
                r |= self.get(o, "[%d]" % e.slice.value)
            elif o.ty == "ndarray" and tup and any(isinstance(x, ast.Slice) for x in e.slice.elts):
                r |= frozenset([o])
            elif o.ty.startswith("obj:"):
                c = self.P.find_class(o.ty[4:])
                m = self.P.method(c, "__getitem__") if c else None
                if m:
                    r |= self.callfn(m, [frozenset([o]), i], {}, e)
            else:
                r |= self.values(frozenset([o]))
        return r

    def e_Call(self, e, fr):
        f = e.func
        # super().method(...)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
            args, kw = self.args(e, fr)
            g = fr
            while g is not None and g.cls is None:
                g = g.parent
            if g is None:
                return NO
            me = None
            names = [a.arg for a in g.fn.node.args.args] if g.fn is not None else []
            me = self.get(g.id, names[0]) if names else NO
            for c in self.P.mro(g.cls)[1:]:
                if f.attr in c.methods:
                    return self.callfn(c.methods[f.attr], [me] + args, kw, e)
            return NO
        if isinstance(f, ast.Name) and self.is_builtin(f.id, fr):
            args, kw = self.args(e, fr)
            if f.id == "setattr" and args:
                self.mutate(args[0], e, "setattr")
                nm = e.args[1].value if len(e.args) > 1 and isinstance(e.args[1], ast.Constant) else None
                if nm and len(args) > 2:
                    self.setfield(args[0], nm, args[2])
                return NO
            if f.id == "delattr" and args:
                self.mutate(args[0], e, "delattr")
                return NO
            if f.id == "getattr" and args:
                nm = e.args[1].value if len(e.args) > 1 and isinstance(e.args[1], ast.Constant) else None
                if nm:
                    return self.getattr(args[0], nm, e, fr) | (args[2] if len(args) > 2 else NO)
                return frozenset(x for o in args[0] for v in self.fields_of(o).values() for x in v)
            return self.builtin(f.id, args, kw, e)
        if isinstance(f, ast.Attribute):
            b = self.ev(f.value, fr)
            args, kw = self.args(e, fr, keep=b)
            stat = frozenset(o for o in b if o.ty in ("mod", "ext", "cls"))
            r = NO
            if stat:
                fs = self.getattr(stat, f.attr, e, fr)
                fs2 = frozenset(o for o in fs if not (o.ty == "ext" and o.data.startswith("builtins.")))
                r |= self.apply(fs2, args, kw, e)
            rest = b - stat
            if rest or not stat:
                # calling a stored function
                st = frozenset(o for o in rest if o.ty.startswith("obj:") and self.has(o, f.attr))
                if st:
                    fs = self.field(st, f.attr)
                    r |= self.apply(fs, args, kw, e)
                if rest - st or not b:
                    r |= self.method(rest - st, f.attr, args, kw, e)
            return r
        fs = self.ev(f, fr)
        args, kw = self.args(e, fr, keep=fs)
        return self.apply(fs, args, kw, e)

    def is_builtin(self, name, fr):
        f = fr
        while f is not None:
            if name in f.locals:
                return False
            f = f.parent
        return self.P.lookup(fr.mod, name) is None

    def args(self, e, fr, keep=NO):
        args = []
        kw = {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, fr)
                t = [o for o in v if o.ty == "tuple"]
                if len(v) == 1 and t and self.has(t[0], "[0]"):
                    args += [self.get(t[0], k) for k in self.tfields(t[0])]
                else:
                    args += [self.elems(v)] * 3
            else:
                args.append(self.ev(a, fr))
        for k in e.keywords:
            v = self.ev(k.value, fr)
            if k.arg is None:
                kw["**"] = self.values(v)
            else:
                kw[k.arg] = v
        return args, kw

    def e_Lambda(self, e, fr):
        return frozenset([self.closure(e, fr)])

    def closure(self, node, fr):
        key = ("fn", id(node), fr.id)
        o = self.objs.get(key)
        if o is None:
            f = Func(node, fr.mod, (fr.fn.qual if fr.fn else fr.mod.name) + "." + getattr(node, "name", "<lambda>"), None)
            o = Obj("fn", key, frozenset(), False, f.qual, (f, fr))
            self.objs[key] = o
        return o

    def e_IfExp(self, e, fr):
        self.ev(e.test, fr)
        d0 = dict(self.d)
        a = self.ev(e.body, fr)
        d1 = self.d
        self.d = d0
        b = self.ev(e.orelse, fr)
        self.d = self.join(d1, self.d)
        return a | b

    def e_BoolOp(self, e, fr):
        r = NO
        for v in e.values:
            r |= self.ev(v, fr)
        return r

    def e_BinOp(self, e, fr):
        a = self.ev(e.left, fr)
        b = self.ev(e.right, fr)
        s = a | b
        for o in sorted(a, key=lambda o: str(o.key)):
            if o.ty.startswith("obj:"):
                return self.new("any", e, tag="op")
        if not s:
            return NO
        if isinstance(e.op, (ast.Add, ast.Mult)) and all(o.ty in ("list", "tuple") for o in s):
            return self.new("list", e, elems=self.elems(s), tag="concat")
        if any(o.ty in ("ndarray", "any", "list", "tuple", "set", "dict") for o in s):
            return self.new("ndarray" if any(o.ty == "ndarray" for o in s) else "any", e, tag="arith")
        return NO

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if any(o.ty in ("ndarray", "any") for o in v) and not isinstance(e.op, ast.Not):
            return self.new("ndarray", e, tag="neg")
        return NO

    def e_Compare(self, e, fr):
        s = self.ev(e.left, fr)
        for c in e.comparators:
            s = s | self.ev(c, fr)
        if any(o.ty in ("ndarray",) for o in s) and not any(isinstance(o, (ast.In, ast.NotIn, ast.Is, ast.IsNot)) for o in e.ops):
            return self.new("ndarray", e, tag="cmp")
        return NO

    def e_Tuple(self, e, fr):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            v = NO
            for x in e.elts:
                v |= self.elems(self.ev(x.value, fr)) if isinstance(x, ast.Starred) else self.ev(x, fr)
            return self.new("tuple", e, elems=v)
        vs = [self.ev(x, fr) for x in e.elts]
        o = self.obj("tuple", e)
        for i, v in enumerate(vs):
            self.put(o, "[%d]" % i, v)
        return frozenset([o])

    def e_List(self, e, fr):
        v = NO
        for x in e.elts:
            v |= self.elems(self.ev(x.value, fr)) if isinstance(x, ast.Starred) else self.ev(x, fr)
        return self.new("list", e, elems=v)

    def e_Set(self, e, fr):
        v = NO
        for x in e.elts:
            v |= self.ev(x, fr)
        return self.new("set", e, elems=v)

    def e_Dict(self, e, fr):
        v = NO
        for k, x in zip(e.keys, e.values):
            if k is None:
                v |= self.values(self.ev(x, fr))
            else:
                self.ev(k, fr)
                v |= self.ev(x, fr)
        return self.new("dict", e, elems=v)

    def e_Starred(self, e, fr):
        return self.ev(e.value, fr)

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.put(fr.id, e.target.id, v)
        return v

    def e_JoinedStr(self, e, fr):
        return NO

    def e_Yield(self, e, fr):
        v = self.ev(e.value, fr) if e.value is not None else NO
        self.put(fr.id, "$yield", self.get(fr.id, "$yield") | v)
        return NO

    def e_YieldFrom(self, e, fr):
        v = self.elems(self.ev(e.value, fr))
        self.put(fr.id, "$yield", self.get(fr.id, "$yield") | v)
        return NO

    def e_Await(self, e, fr):
        return self.ev(e.value, fr)

    def comp(self, e, fr, elts, ty):
        res = self.obj(ty, e, "comp")
        rid = ("comp", self.ctx, id(e))
        save = self.regions
        self.region(rid)
        try:
            for _ in range(5):
                before = dict(self.d)
                self.gens(e.generators, 0, fr)
                vs = [self.ev(x, fr) for x in elts]
                self.put(res, "[]", self.get(res, "[]") | vs[-1])
                self.endpass(rid)
                self.d = self.join(before, self.d)
                if self.leq(self.d, before):
                    break
        finally:
            self.regions = save
        return frozenset([res])

    def gens(self, gs, i, fr):
        for g in gs:
            it = self.ev(g.iter, fr)
            self.assign(g.target, self.elems(it), fr, g.iter)
            for c in g.ifs:
                self.ev(c, fr)

    def e_ListComp(self, e, fr):
        return self.comp(e, fr, [e.elt], "list")

    def e_GeneratorExp(self, e, fr):
        return self.comp(e, fr, [e.elt], "list")

    def e_SetComp(self, e, fr):
        return self.comp(e, fr, [e.elt], "set")

    def e_DictComp(self, e, fr):
        return self.comp(e, fr, [e.key, e.value], "dict")

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, fr, node):
        if isinstance(t, ast.Name):
            f = fr
            while f is not None:
                if t.id in f.locals and t.id not in f.globals:
                    self.put(f.id, t.id, v)
                    return
                f = f.parent
            # comprehension variables of a frame
            self.put(fr.id, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.assign(x.value, self.new("list", node, elems=self.elems(v), tag=("star", i)), fr, node)
                    continue
                r = NO
                for o in v:
                    if o.ty == "tuple" and self.has(o, "[%d]" % i):
                        r |= self.get(o, "[%d]" % i)
                    else:
                        r |= self.elems(frozenset([o]))
                self.assign(x, r, fr, node)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, fr)
            b = self.through_setter(b, t.attr, v, t)
            self.mutate(b, t, "." + t.attr + " =")
            self.setfield(b, t.attr, v)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, fr)
            if not isinstance(t.slice, ast.Slice):
                k = self.ev(t.slice, fr)
            cls = frozenset(o for o in b if o.ty.startswith("obj:"))
            for o in sorted(cls, key=lambda o: str(o.key)):
                c = self.P.find_class(o.ty[4:])
                m = self.P.method(c, "__setitem__") if c else None
                if m:
                    self.callfn(m, [frozenset([o]), NO, v], {}, t)
            b = b - cls
            b = frozenset(o for o in b if o.ty not in ("tuple", "table", "fn", "cls", "mod", "ext"))
            self.mutate(b, t, "[...] =")
            self.setfield(b, "[]", self.elems(v) if isinstance(t.slice, ast.Slice) else v, weak=True)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr, node)

    def through_setter(self, b, name, v, node):
        out = b
        for o in b:
            if o.ty.startswith("obj:"):
                c = self.P.find_class(o.ty[4:])
                for k in (self.P.mro(c) if c else ()):
                    if name in k.setters:
                        self.callfn(k.setters[name], [frozenset([o]), v], {}, node)
                        out = out - frozenset([o])
                        break
        return out

    # ------------------------------------------------------------ statements
    def block(self, body, fr):
        """returns the exits; self.d / self.alive is the fall-through state"""
        o = {"ret": [], "brk": [], "cont": []}
        for s in body:
            if not self.alive:
                break
            m = getattr(self, "s_" + type(s).__name__, None)
            if m is None:
                continue
            self.steps += 1
            if self.steps > self.limit:
                raise TooBig()
            r = m(s, fr)
            if r:
                for k in r:
                    o[k] += r[k]
        return o

    def s_Expr(self, s, fr):
        self.ev(s.value, fr)

    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr, s)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr, s)

    def s_AugAssign(self, s, fr):
        v = self.ev(s.value, fr)
        t = s.target
        if isinstance(t, ast.Name):
            b = self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t), fr)
            self.inplace(b, v, s)
            if not b and v:
                self.assign(t, self.new("any", s, tag="aug") if any(o.ty in ("ndarray", "any") for o in v) else NO, fr, s)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            b = self.getattr(o, t.attr, t, fr)
            self.inplace(b, v, s)
            self.mutate(o, t, "." + t.attr + " +=")
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            if not isinstance(t.slice, ast.Slice):
                self.ev(t.slice, fr)
            m = frozenset(x for x in o if x.ty in ("ndarray", "list", "dict", "any", "set"))
            self.mutate(m, t, "[...] +=")
            el = frozenset(x for x in self.values(o) if x not in o)
            self.inplace(el, v, s)

    def inplace(self, b, v, node):
        """an augmented assignment changes arrays, lists, sets and dicts in place, other values not"""
        m = frozenset(o for o in b if o.ty in ("ndarray", "list", "set", "dict"))
        for o in b:
            if o.ty.startswith("obj:"):
                c = self.P.find_class(o.ty[4:])
                f = self.P.method(c, "__iadd__") if c else None
                if f:
                    self.callfn(f, [frozenset([o]), v], {}, node)
        if m:
            self.mutate(m, node, "in-place operator")
            self.setfield(frozenset(o for o in m if o.ty != "ndarray"), "[]", self.elems(v), weak=True)

    def s_Return(self, s, fr):
        v = self.ev(s.value, fr) if s.value is not None else NO
        if not self.alive:
            return None
        d = self.d
        self.alive = False
        self.d = dict(d)
        return {"ret": [(d, v)]}

    def s_Raise(self, s, fr):
        if s.exc is not None:
            self.ev(s.exc, fr)
        self.alive = False

    def s_Break(self, s, fr):
        d = self.d
        self.alive = False
        self.d = dict(d)
        return {"brk": [d]}

    def s_Continue(self, s, fr):
        d = self.d
        self.alive = False
        self.d = dict(d)
        return {"cont": [d]}

    def merge(self, parts):
        st = None
        for d, a in parts:
            if a:
                st = self.join(st, d)
        self.alive = st is not None
        if st is not None:
            self.d = st

    def s_If(self, s, fr):
        self.ev(s.test, fr)
        if not self.alive:
            return None
        d0 = dict(self.d)
        o1 = self.block(s.body, fr)
        p1 = (self.d, self.alive)
        self.d, self.alive = d0, True
        o2 = self.block(s.orelse, fr)
        p2 = (self.d, self.alive)
        self.merge([p1, p2])
        return {k: o1[k] + o2[k] for k in o1}

    def loop(self, s, fr, head):
        rid = ("loop", self.ctx, id(s))
        rets, brks = [], []
        save = self.regions
        self.region(rid)
        try:
            for _ in range(8):
                before = dict(self.d)
                head()
                o = self.block(s.body, fr)
                parts = [(self.d, self.alive)] + [(d, True) for d in o["cont"]]
                self.merge(parts)
                rets += o["ret"]
                brks += o["brk"]
                if not self.alive:
                    self.alive = True
                    self.d = before
                    break
                self.endpass(rid)
                self.d = self.join(before, self.d)
                if self.leq(self.d, before):
                    break
            else:
                self.vague.add("loop at %s:%d" % (fr.mod.path, s.lineno))
        finally:
            self.regions = save
        cur = self.d
        # states leaving early: fold their pass's objects too
        outs = []
        for d in brks:
            self.d = d
            self.endpass(rid)
            outs.append((self.d, True))
        rr = []
        for d, v in rets:
            self.d = dict(d)
            self.put("hold", rid, v)
            self.endpass(rid)
            v = self.drop("hold", rid)
            rr.append((self.d, v))
        self.d = cur
        return rr, outs

    def s_For(self, s, fr):
        it = self.ev(s.iter, fr)

        def head():
            # the iterated objects may have been folded meanwhile
            i = frozenset(self.twin(o) if o.recent and not self.has(o, "$live") and o.ty not in ("fn", "cls", "mod", "ext", "bm", "partial") else o for o in it)
            self.assign(s.target, self.elems(i), fr, s)
        rets, brks = self.loop(s, fr, head)
        o = self.block(s.orelse, fr)
        self.merge([(self.d, self.alive)] + brks)
        o["ret"] += rets
        return o

    s_AsyncFor = s_For

    def s_While(self, s, fr):
        rets, brks = self.loop(s, fr, lambda: self.ev(s.test, fr))
        o = self.block(s.orelse, fr)
        alive = not (isinstance(s.test, ast.Constant) and s.test.value)
        self.merge([(self.d, self.alive and alive)] + brks)
        o["ret"] += rets
        return o

    def s_Try(self, s, fr):
        d0 = dict(self.d)
        o = self.block(s.body, fr)
        if self.alive:
            r = self.block(s.orelse, fr)
            o = {k: o[k] + r[k] for k in o}
        body = (self.d, self.alive)
        mid = self.join(d0, body[0])
        parts = [body]
        for h in s.handlers:
            self.d, self.alive = dict(mid), True
            r = self.block(h.body, fr)
            o = {k: o[k] + r[k] for k in o}
            parts.append((self.d, self.alive))
        self.merge(parts)
        if s.finalbody:
            al = self.alive
            self.alive = True
            r = self.block(s.finalbody, fr)
            self.alive = self.alive and al
            o = {k: o[k] + r[k] for k in o}
        return o

    def s_With(self, s, fr):
        for i in s.items:
            v = self.ev(i.context_expr, fr)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, fr, s)
        return self.block(s.body, fr)

    def s_FunctionDef(self, s, fr):
        self.put(fr.id, s.name, frozenset([self.closure(s, fr)]))

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                self.mutate(self.ev(t.value, fr), t, "del [...]")
            elif isinstance(t, ast.Attribute):
                self.mutate(self.ev(t.value, fr), t, "del ." + t.attr)

    def s_Global(self, s, fr):
        pass

    def s_Assert(self, s, fr):
        self.ev(s.test, fr)

    def s_Import(self, s, fr):
        for a in s.names:
            self.put(fr.id, (a.asname or a.name).split(".")[0], frozenset([self.static("mod", a.name if a.asname else a.name.split(".")[0])]))

    def s_ImportFrom(self, s, fr):
        for a in s.names:
            full = (s.module or "") + "." + a.name
            m = self.P.module(s.module or "")
            self.put(fr.id, a.asname or a.name, self.globalname(m, a.name, s) if m else frozenset([self.static("ext", full)]))


_CLO = {}
_CALLS = {}


def has_calls(node):
    """worth remembering: the function calls something or loops"""
    r = _CALLS.get(node)
    if r is None:
        r = _CALLS[node] = not isinstance(node, ast.Lambda) and sum(1 for n in ast.walk(node) if isinstance(n, (ast.Call, ast.For, ast.While, ast.ListComp))) > 1
    return r



def has_closure(node):
    r = _CLO.get(node)
    if r is None:
        r = any(isinstance(n, (ast.Lambda, ast.FunctionDef)) for n in ast.walk(node) if n is not node)
        _CLO[node] = r
    return r
