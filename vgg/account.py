"""Weight accounting: an abstract interpreter for code that moves weighted records between lists.

Every list is a sequence with a length, a total weight (the sum of its records' weight attribute)
and first and last value; every record read from a list knows its position.  Integers and weights
are linear expressions; a state carries linear constraints (indices, lengths) and order facts
between values.  A loop is summarised by
  * its conservation laws: the null space of the change of all tracked quantities over one iteration
    (affine relations that hold for any number of iterations),
  * inductive inequalities and order facts found by removing candidates an iteration does not keep."""
import ast
from fractions import Fraction
from .stream import L, ladd, lsub, lscale, lvar, lkey, lshow, infeasible, Unsupported


class Seq(object):
    """one version of a list's content"""
    __slots__ = ("id", "n", "w", "kind", "asc", "desc", "first", "last", "wcur", "dirty", "low", "parts", "open", "view")

    def __init__(self, id, n, w, kind, asc=False, desc=False, first=None, last=None):
        self.id, self.n, self.w, self.kind, self.asc, self.desc, self.first, self.last = id, n, w, kind, asc, desc, first, last
        self.wcur = w          # current total (records may be changed after they were put in)
        self.dirty = n         # records at and above this index may have another weight than at first
        self.low = {}          # records of which sequence it holds, and their lowest index there
        self.parts = frozenset()   # record and sequence ids it holds
        self.view = None       # (sequence, first index, +-1): its records are those of that sequence
        self.open = False      # may hold records from elsewhere

    def copy(self):
        s = Seq.__new__(Seq)
        for k in Seq.__slots__:
            setattr(s, k, getattr(self, k))
        s.low = dict(self.low)
        return s


class Rec(object):
    __slots__ = ("id", "g", "term", "home", "attrs")

    def __init__(self, id, g, term, home=None, attrs=None):
        self.id, self.g, self.term, self.home, self.attrs = id, g, term, home, attrs or {}

    def copy(self):
        return Rec(self.id, self.g, self.term, self.home, dict(self.attrs))


class St(object):
    def __init__(self):
        self.env, self.recs, self.lists, self.seqs, self.fields = {}, {}, {}, {}, {}
        self.cons, self.facts, self.P = {}, frozenset(), {}
        self.vague = []

    def copy(self):
        s = St()
        s.env, s.lists, s.fields = dict(self.env), dict(self.lists), dict(self.fields)
        s.recs = {k: v.copy() for k, v in self.recs.items()}
        s.seqs = {k: v.copy() for k, v in self.seqs.items()}
        s.cons, s.facts = dict(self.cons), self.facts
        s.P = {k: list(v) for k, v in self.P.items()}
        s.vague = list(self.vague)
        return s

    def ge(self, e):
        vs = [v for k, v in e.items() if v and k]
        if not vs and e.get("", 0) >= 0:
            return
        self.cons[lkey(e)] = (e, frozenset(k for k, v in e.items() if k and v))

    def is_ge(self, e):
        if not any(v for k, v in e.items() if k):
            return e.get("", 0) >= 0
        if lkey(e) in self.cons:
            return True
        neg = lsub(lscale(e, -1), L(1))
        return decide([(lkey(neg), (neg,))] + related(self.cons, neg))

    def is_eq(self, e):
        if not any(v for k, v in e.items() if k):
            return e.get("", 0) == 0
        return self.is_ge(e) and self.is_ge(lscale(e, -1))

    def dead(self):
        return decide(list(self.cons.items()))


MEMO = {}


def related(cons, e):
    """constraints connected to e by shared unknowns"""
    vs = set(k for k, v in e.items() if k and v)
    rest = list(cons.items())
    out = []
    while True:
        nx = []
        n = len(out)
        for t in rest:
            if vs.isdisjoint(t[1][1]):
                nx.append(t)
            else:
                out.append(t)
                vs |= t[1][1]
        if len(out) == n:
            return out
        rest = nx


def decide(cs):
    k = frozenset(c[0] for c in cs)
    r = MEMO.get(k)
    if r is None:
        r = MEMO[k] = infeasible([c[1][0] for c in cs])
    return r


def elem(sid, i):
    return ("e", sid, lkey(i))


def tolin(k):
    r = {x: v for x, v in k}
    r.setdefault("", 0)
    return r


class Account(object):
    def __init__(self, prog, rec_class, weight, value, own):
        self.prog, self.rec_class, self.weight, self.value, self.own = prog, rec_class, weight, value, own
        self.c = 0
        self.depth = 0
        self.inlined = set()
        self.contracts = {}
        self.laws = []
        self.raised = 0

    def fresh(self, tag):
        self.c += 1
        return "%s~%d" % (tag, self.c)

    # ------------------------------------------------------------ sequences and records
    def newseq(self, s, n, w, kind, **k):
        q = Seq(self.fresh("S"), n, w, kind, **k)
        s.seqs[q.id] = q
        s.ge(n)
        return q

    def newlist(self, s, q):
        l = self.fresh("l")
        s.lists[l] = q.id
        return ("list", l)

    def seq(self, s, v):
        return s.seqs[s.lists[v[1]]]

    def empty(self, s, kind=None):
        return self.newlist(s, self.newseq(s, L(0), L(0), kind, asc=True, desc=True))

    def prefix(self, s, q, i):
        """weight of the first i records (as first put in)"""
        if q.kind == "num":
            return i
        if q.view and q.view[0] in s.seqs:
            o, b, d = s.seqs[q.view[0]], q.view[1], q.view[2]
            if d > 0:
                return lsub(self.prefix(s, o, ladd(b, i)), self.prefix(s, o, b))
            return lsub(self.prefix(s, o, ladd(b, L(1))), self.prefix(s, o, lsub(ladd(b, L(1)), i)))
        t = s.P.setdefault(q.id, [(L(0), L(0)), (q.n, q.w)])
        k = lkey(i)
        for j, w in t:
            if lkey(j) == k:
                return w
        for j, w in t:
            if s.is_eq(lsub(j, i)):
                return w
        w = lvar(self.fresh("P"))
        t.append((i, w))
        return w

    def setprefix(self, s, q, i, w):
        if q.view and q.view[0] in s.seqs:
            o, b, d = s.seqs[q.view[0]], q.view[1], q.view[2]
            if d > 0:
                return self.setprefix(s, o, ladd(b, i), ladd(w, self.prefix(s, o, b)))
            b = ladd(b, L(1))
            return self.setprefix(s, o, lsub(b, i), lsub(self.prefix(s, o, b), w))
        s.P.setdefault(q.id, [(L(0), L(0)), (q.n, q.w)])
        s.P[q.id] = [(i, w)] + s.P[q.id]

    def unify(self, s):
        """positions found equal by now have the same prefix weight"""
        for t in s.P.values():
            for a in range(len(t)):
                for b in range(a):
                    d = lsub(t[a][1], t[b][1])
                    if lkey(d) and s.is_eq(lsub(t[a][0], t[b][0])):
                        s.ge(d)
                        s.ge(lscale(d, -1))

    def read(self, s, q, i):
        if q.view and q.view[0] in s.seqs:
            return self.read(s, s.seqs[q.view[0]], ladd(q.view[1], i) if q.view[2] > 0 else lsub(q.view[1], i))
        t = elem(q.id, i)
        if q.kind == "num":
            return ("val", t)
        for r in s.recs.values():
            if r.home and r.home[0] == q.id and (lkey(r.home[1]) == lkey(i) or s.is_eq(lsub(r.home[1], i))):
                return ("rec", r.id)
        if not s.is_ge(lsub(lsub(q.dirty, i), L(1))):
            s.vague.append("weight of a record that may have changed")
            g = lvar(self.fresh("g"))
        else:
            g = lsub(self.prefix(s, q, ladd(i, L(1))), self.prefix(s, q, i))
        r = Rec(self.fresh("r"), g, t, (q.id, i))
        s.recs[r.id] = r
        return ("rec", r.id)

    def term(self, s, v):
        if v[0] == "val":
            return v[1]
        if v[0] == "rec":
            return s.recs[v[1]].term
        return ("u", self.fresh("u"))

    def gw(self, s, v):
        return s.recs[v[1]].g if v[0] == "rec" else L(1)

    def leq(self, s, a, b):
        if a is None or b is None:
            return False
        seen, todo = {a}, [a]
        terms = {a, b}
        for x, y in s.facts:
            terms.add(x)
            terms.add(y)
        while todo:
            x = todo.pop()
            if x == b:
                return True
            if x != a and not self.exists(s, x):
                continue
            for y in terms:
                if y in seen:
                    continue
                ok = (x, y) in s.facts
                if not ok and x[0] == y[0] == "e" and x[1] == y[1] and x[1] in s.seqs:
                    q = s.seqs[x[1]]
                    d = lsub(tolin(y[2]), tolin(x[2]))
                    ok = (q.asc and s.is_ge(d)) or (q.desc and s.is_ge(lscale(d, -1)))
                if ok:
                    seen.add(y)
                    todo.append(y)
        return False

    def exists(self, s, t):
        """the value certainly exists (the list is not empty, the position is in range)"""
        if t[0] == "e":
            q = s.seqs.get(t[1])
            i = tolin(t[2])
            return q is not None and s.is_ge(i) and s.is_ge(lsub(lsub(q.n, i), L(1)))
        if t[0] in ("first", "last"):
            return False
        return True

    def minidx(self, s, a, b):
        if s.is_ge(lsub(b, a)):
            return a
        if s.is_ge(lsub(a, b)):
            return b
        return None

    def concat(self, s, a, b):
        """the sequence a followed by b"""
        if s.is_eq(a.n):
            a, b, one = a, b, b
        elif s.is_eq(b.n):
            one = a
        else:
            one = None
        kind = a.kind or b.kind
        q = self.newseq(s, ladd(a.n, b.n), ladd(a.wcur, b.wcur), kind)
        if one is not None:
            q.asc, q.desc, q.first, q.last = one.asc, one.desc, one.first, one.last
        else:
            q.asc = a.asc and b.asc and self.leq(s, a.last, b.first)
            q.desc = a.desc and b.desc and self.leq(s, b.first, a.last)
            q.first, q.last = (a.first, b.last)
            if not s.is_ge(lsub(a.n, L(1))) and a.first is not None:
                q.first = None
            if not s.is_ge(lsub(b.n, L(1))):
                # b may be empty: the last value is b's if it has one
                q.last = b.last if b.last is not None and self.leq(s, a.last, b.last) and q.asc else None
        q.parts = a.parts | b.parts | {a.id, b.id}
        q.open = a.open or b.open
        for x in (a, b):
            for k, i in x.low.items():
                self.addlow(s, q, k, i)
        for x in (a, b):
            if x.id in s.P or True:
                pass
        return q

    def addlow(self, s, q, k, i):
        if k in q.low:
            m = self.minidx(s, q.low[k], i)
            q.low[k] = m if m is not None else L(0)
        else:
            q.low[k] = i

    def single(self, s, v):
        q = self.newseq(s, L(1), self.gw(s, v), "num" if v[0] != "rec" else "rec", asc=True, desc=True)
        q.first = q.last = self.term(s, v)
        if v[0] == "rec":
            r = s.recs[v[1]]
            q.parts = frozenset([r.id])
            if r.home:
                q.low[r.home[0]] = r.home[1]
        return q

    def slice(self, s, q, a, b):
        """content of positions a..b-1, 0 <= a <= b <= n known"""
        if lkey(a) == lkey(L(0)) and lkey(b) == lkey(q.n):
            r = q.copy()
            r.id = self.fresh("S")
            r.parts = q.parts | {q.id}
            s.seqs[r.id] = r
            if q.kind != "num":
                s.P[r.id] = list(s.P.get(q.id, [(L(0), L(0)), (q.n, q.w)]))
            r.low = {q.id: L(0)} if not q.low else dict(q.low)
            if not r.view and s.is_ge(lsub(q.dirty, q.n)):
                r.view = (q.id, L(0), 1)
            return r
        clean = s.is_ge(lsub(q.dirty, b))
        w = lsub(self.prefix(s, q, b), self.prefix(s, q, a))
        if not s.is_ge(lsub(q.dirty, b)):
            if lkey(b) == lkey(q.n) and s.is_ge(lsub(q.dirty, a)):
                w = lsub(q.wcur, self.prefix(s, q, a))
            else:
                s.vague.append("weight of records that may have changed")
                w = lvar(self.fresh("w"))
        r = self.newseq(s, lsub(b, a), w, q.kind, asc=q.asc, desc=q.desc, first=elem(q.id, a), last=elem(q.id, lsub(b, L(1))))
        r.low[q.id] = a
        if clean:
            r.view = (q.id, a, 1)
        return r

    # ------------------------------------------------------------ conditions
    def cond(self, e, s, fr):
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(q, not t) for q, t in self.cond(e.operand, s, fr)]
        if isinstance(e, ast.BoolOp):
            outs = self.cond(e.values[0], s, fr)
            for v in e.values[1:]:
                nx = []
                for q, t in outs:
                    nx += self.cond(v, q, fr) if t == isinstance(e.op, ast.And) else [(q, t)]
                outs = nx
            return outs
        if isinstance(e, ast.Compare):
            out = []
            for q, vs in self.evs([e.left] + e.comparators, s, fr):
                sts = [(q, True)]
                for op, x, y in zip(e.ops, vs, vs[1:]):
                    nx = []
                    for z, t in sts:
                        nx += self.cmp(op, x, y, z) if t else [(z, t)]
                    sts = nx
                out += sts
            return out
        out = []
        for q, v in self.ev(e, s, fr):
            if v[0] == "list":
                out += self.split(q, lsub(self.seq(q, v).n, L(1)))
            elif v[0] == "int":
                out += [(z, not t) for z, t in self.cmp(ast.Eq(), v, ("int", L(0)), q)]
            elif v[0] == "const":
                out.append((q, bool(v[1])))
            elif v[0] in ("rec", "obj"):
                out.append((q, True))
            else:
                out += [(q.copy(), True), (q, False)]
        return out

    def split(self, s, e):
        a, b = s.copy(), s.copy()
        a.ge(e)
        b.ge(lsub(lscale(e, -1), L(1)))
        return [(q, t) for q, t in ((a, True), (b, False)) if not q.dead()]

    def cmp(self, op, x, y, s):
        if isinstance(op, (ast.Is, ast.IsNot)):
            if ("const", None) in (x, y):
                o = y if x == ("const", None) else x
                if o[0] != "unk":
                    return [(s, (o == ("const", None)) == isinstance(op, ast.Is))]
            if x[0] == y[0] and x[0] in ("obj", "list", "rec"):
                if x[1] == y[1]:
                    return [(s, isinstance(op, ast.Is))]
                if x[0] == "obj":
                    return [(s, isinstance(op, ast.IsNot))]
            return [(s.copy(), True), (s, False)]
        if x[0] == "int" and y[0] == "int":
            d = lsub(x[1], y[1])
            m = lscale(d, -1)
            if isinstance(op, ast.GtE):
                return self.split(s, d)
            if isinstance(op, ast.Gt):
                return self.split(s, lsub(d, L(1)))
            if isinstance(op, ast.LtE):
                return self.split(s, m)
            if isinstance(op, ast.Lt):
                return self.split(s, lsub(m, L(1)))
            if isinstance(op, (ast.Eq, ast.NotEq)):
                n = isinstance(op, ast.NotEq)
                out = []
                for q, t in self.split(s, d):
                    if not t:
                        out.append((q, n))
                        continue
                    out += [(z, u != n) for z, u in self.split(q, m)]
                return out
        if x[0] == "val" and y[0] == "val" and isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
            a, b = (x[1], y[1]) if isinstance(op, (ast.Lt, ast.LtE)) else (y[1], x[1])
            strict = isinstance(op, (ast.Lt, ast.Gt))
            t, f = s.copy(), s.copy()
            t.facts |= {(a, b)}
            f.facts |= {(b, a)}
            if not strict and self.leq(s, a, b):
                return [(t, True)]
            if strict and self.leq(s, b, a):
                return [(f, False)]
            return [(t, True), (f, False)]
        if x[0] == "list" and y[0] == "list" and isinstance(op, (ast.Eq, ast.NotEq)):
            a, b = self.seq(s, x), self.seq(s, y)
            for p, q in ((a, b), (b, a)):
                if s.is_eq(q.n):
                    return [(z, t != isinstance(op, ast.Eq)) for z, t in self.split(s, lsub(p.n, L(1)))]
        return [(s.copy(), True), (s, False)]

    # ------------------------------------------------------------ expressions
    def evs(self, es, s, fr):
        outs = [(s, [])]
        for e in es:
            nx = []
            for q, vs in outs:
                for z, v in self.ev(e, q, fr):
                    nx.append((z, vs + [v]))
            outs = nx
        return outs

    def ev(self, e, s, fr):
        m = getattr(self, "x_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s at line %d" % (type(e).__name__, e.lineno))
        return m(e, s, fr)

    def x_Constant(self, e, s, fr):
        v = e.value
        if isinstance(v, int) and not isinstance(v, bool):
            return [(s, ("int", L(v)))]
        if isinstance(v, float):
            return [(s, ("val", ("u", "const%r" % v)))]
        return [(s, ("const", v))]

    def x_Name(self, e, s, fr):
        if e.id in s.env:
            return [(s, s.env[e.id])]
        r = self.prog.lookup(fr["mod"], e.id)
        if r is not None and r[0] == "class":
            return [(s, ("cls", r[1]))]
        if r is not None and r[0] == "func":
            return [(s, ("fn", r[1]))]
        if r is not None and r[0] in ("mod", "ext"):
            return [(s, ("ext", r[1]))]
        if r is None and e.id in ("len", "sorted", "list", "reversed", "float", "int", "range", "enumerate", "min", "max", "sum", "abs", "bool", "isinstance", "super", "print", "iter", "map", "tuple", "set", "frozenset"):
            return [(s, ("bi", e.id))]
        if r is not None and r[0] == "expr":
            return [(s, ("unk",))]
        raise Unsupported("name %s at line %d" % (e.id, e.lineno))

    def x_JoinedStr(self, e, s, fr):
        return [(s, ("unk",))]

    def x_Tuple(self, e, s, fr):
        return [(q, ("tup", vs)) for q, vs in self.evs(e.elts, s, fr)]

    def x_List(self, e, s, fr):
        out = []
        for q, vs in self.evs(e.elts, s, fr):
            sq = self.newseq(q, L(0), L(0), None, asc=True, desc=True)
            for v in vs:
                sq = self.concat(q, sq, self.single(q, v))
            out.append((q, self.newlist(q, sq)))
        return out

    def x_IfExp(self, e, s, fr):
        out = []
        for q, t in self.cond(e.test, s, fr):
            out += self.ev(e.body if t else e.orelse, q, fr)
        return out

    def x_BoolOp(self, e, s, fr):
        return [(q, ("const", t)) for q, t in self.cond(e, s, fr)]

    x_Compare = x_BoolOp

    def x_NamedExpr(self, e, s, fr):
        out = []
        for q, v in self.ev(e.value, s, fr):
            q.env[e.target.id] = v
            out.append((q, v))
        return out

    def x_UnaryOp(self, e, s, fr):
        if isinstance(e.op, ast.Not):
            return [(q, ("const", t)) for q, t in self.cond(e, s, fr)]
        out = []
        for q, v in self.ev(e.operand, s, fr):
            if v[0] == "int" and isinstance(e.op, ast.USub):
                out.append((q, ("int", lscale(v[1], -1))))
            elif v[0] == "int" and isinstance(e.op, ast.UAdd):
                out.append((q, v))
            else:
                out.append((q, ("unk",)))
        return out

    def x_BinOp(self, e, s, fr):
        return [(q, self.binop(e.op, a, b, q)) for q, (a, b) in self.evs([e.left, e.right], s, fr)]

    def binop(self, op, a, b, s):
        if a[0] == "int" and b[0] == "int":
            if isinstance(op, ast.Add):
                return ("int", ladd(a[1], b[1]))
            if isinstance(op, ast.Sub):
                return ("int", lsub(a[1], b[1]))
            if isinstance(op, ast.Mult):
                for x, y in ((a[1], b[1]), (b[1], a[1])):
                    if not any(v for k, v in x.items() if k):
                        return ("int", lscale(y, x.get("", 0)))
            return ("unk",)
        if a[0] == "list" and b[0] == "list" and isinstance(op, ast.Add):
            return self.newlist(s, self.concat(s, self.seq(s, a), self.seq(s, b)))
        return ("unk",)

    def x_Attribute(self, e, s, fr):
        return [(q, self.attr(q, v, e.attr, e)) for q, v in self.ev(e.value, s, fr)]

    def attr(self, s, v, name, e):
        if v[0] == "rec":
            r = s.recs[v[1]]
            if name == self.weight:
                return ("int", r.g)
            if name == self.value:
                return ("val", r.term)
            return r.attrs.get(name, ("unk",))
        if v[0] == "obj":
            if (v[1], name) in s.fields:
                return s.fields[(v[1], name)]
            f = self.method_of(v, name)
            if f is not None:
                return ("bound", v, f)
            return ("unk",)
        if v[0] == "list":
            return ("meth", v, name)
        if v[0] == "ext":
            return ("ext", v[1] + "." + name)
        if v[0] == "sup":
            f = self.method_of(v[1], name, v[2])
            if f is not None:
                return ("bound", v[1], f)
        if v[0] == "cls":
            m = v[1].methods.get(name)
            if m is not None:
                return ("fn", m)
        return ("unk",)

    def method_of(self, v, name, after=None):
        c = v[2] if len(v) > 2 else None
        if c is None:
            return None
        seen = after is None
        for k in self.prog.mro(c):
            if seen and name in k.methods:
                return k.methods[name]
            if k is after:
                seen = True
        return None

    def x_Subscript(self, e, s, fr):
        out = []
        for q, v in self.ev(e.value, s, fr):
            if v[0] == "tup" and isinstance(e.slice, ast.Constant):
                out.append((q, v[1][e.slice.value]))
                continue
            if v[0] != "list":
                out.append((q, ("unk",)))
                continue
            if isinstance(e.slice, ast.Slice):
                out += self.subslice(e.slice, v, q, fr)
                continue
            for z, i in self.ev(e.slice, q, fr):
                if i[0] != "int":
                    raise Unsupported("index at line %d" % e.lineno)
                for y, j in self.position(z, self.seq(z, v), i[1]):
                    out.append((y, self.read(y, self.seq(y, v), j)))
        return out

    def position(self, s, q, i):
        """(state, index from the front) for every way the access succeeds"""
        out = []
        for z, t in self.split(s, i):
            j = i if t else ladd(i, q.n)
            z.ge(j)
            z.ge(lsub(lsub(q.n, j), L(1)))
            if not z.dead():
                out.append((z, j))
        return out

    def clamp(self, s, q, i, default):
        if i is None or i == ("const", None):
            return [(s, default)]
        if i[0] != "int":
            raise Unsupported("slice bound")
        out = []
        for z, t in self.split(s, i[1]):
            j = i[1] if t else ladd(i[1], q.n)
            for y, u in ([(z, True)] if t else self.split(z, j)):
                if not u:
                    out.append((y, L(0)))
                    continue
                for x, w in self.split(y, lsub(q.n, j)):
                    out.append((x, j if w else q.n))
        return out

    def subslice(self, sl, v, s, fr):
        q0 = self.seq(s, v)
        if sl.step is not None:
            if isinstance(sl.step, ast.UnaryOp) and isinstance(sl.step.op, ast.USub) and isinstance(sl.step.operand, ast.Constant) and sl.step.operand.value == 1 \
                    and sl.lower is None and sl.upper is None:
                return [(s, self.newlist(s, self.reversed(s, q0)))]
            if not (isinstance(sl.step, ast.Constant) and sl.step.value in (1, None)):
                raise Unsupported("slice step")
        out = []
        for z, vs in self.evs([x for x in (sl.lower, sl.upper) if x is not None], s, fr):
            lo = vs.pop(0) if sl.lower is not None else None
            hi = vs.pop(0) if sl.upper is not None else None
            q = self.seq(z, v)
            for y, a in self.clamp(z, q, lo, L(0)):
                for x, b in self.clamp(y, q, hi, q.n):
                    for w, t in self.split(x, lsub(b, a)):
                        out.append((w, self.newlist(w, self.slice(w, self.seq(w, v), a, b if t else a))))
        return out

    def reversed(self, s, q):
        r = self.newseq(s, q.n, q.wcur, q.kind, asc=q.desc, desc=q.asc, first=q.last, last=q.first)
        r.low, r.parts, r.open = dict(q.low), q.parts | {q.id}, q.open
        if s.is_ge(lsub(q.dirty, q.n)):
            r.view = (q.id, lsub(q.n, L(1)), -1)
        return r

    def x_Lambda(self, e, s, fr):
        return [(s, ("lam", e))]

    def x_GeneratorExp(self, e, s, fr):
        return self.x_ListComp(e, s, fr)

    def x_ListComp(self, e, s, fr):
        if len(e.generators) != 1 or e.generators[0].ifs or not isinstance(e.generators[0].target, ast.Name):
            raise Unsupported("comprehension at line %d" % e.lineno)
        out = []
        x = e.generators[0].target.id
        for q, v in self.ev(e.generators[0].iter, s, fr):
            if v[0] != "list":
                raise Unsupported("comprehension at line %d" % e.lineno)
            sq = self.seq(q, v)
            probe = q.copy()
            i = lvar(self.fresh("k"))
            probe.ge(i)
            probe.ge(lsub(lsub(sq.n, i), L(1)))
            item = self.read(probe, sq, i)
            probe.env[x] = item
            rs = self.ev(e.elt, probe, fr)
            if len(rs) != 1:
                raise Unsupported("comprehension at line %d" % e.lineno)
            z, r = rs[0]
            same = self.term(z, r) == self.term(z, item)
            if r[0] == "rec":
                rec = z.recs[r[1]]
                if rec.id == (item[1] if item[0] == "rec" else None):
                    out.append((q, self.newlist(q, self.slice(q, sq, L(0), sq.n))))
                    continue
                if any(v2 for k, v2 in rec.g.items() if k) or not same:
                    raise Unsupported("comprehension at line %d" % e.lineno)
                n = self.newseq(q, sq.n, lscale(sq.n, rec.g.get("", 0)), "rec", asc=sq.asc, desc=sq.desc, first=sq.first, last=sq.last)
            elif r[0] == "val" and same:
                n = self.newseq(q, sq.n, sq.n, "num", asc=sq.asc, desc=sq.desc, first=sq.first, last=sq.last)
            elif r[0] == "int" and item[0] == "rec" and lkey(r[1]) == lkey(z.recs[item[1]].g):
                out.append((q, ("weights", sq.id)))
                continue
            else:
                raise Unsupported("comprehension at line %d" % e.lineno)
            out.append((q, self.newlist(q, n)))
        return out

    def x_Call(self, e, s, fr):
        out = []
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in s.env:
            me = s.env[fr["fn"].node.args.args[0].arg]
            return [(s, ("sup", me, fr["fn"].cls))]
        if any(isinstance(a, ast.Starred) for a in e.args) or any(k.arg is None for k in e.keywords):
            raise Unsupported("call at line %d" % e.lineno)
        for q, f in self.ev(e.func, s, fr):
            for z, vs in self.evs(list(e.args) + [k.value for k in e.keywords], q, fr):
                a = vs[:len(e.args)]
                kw = {k.arg: v for k, v in zip(e.keywords, vs[len(e.args):])}
                out += self.call(f, a, kw, z, e, fr)
        return out

    def keyed(self, kw, e):
        """sorted/merge by the records' value"""
        k = kw.get("key")
        if k is None:
            return None
        if k[0] == "lam" and isinstance(k[1].body, ast.Attribute) and k[1].body.attr == self.value:
            return True
        if k[0] == "getter" and k[1] == self.value:
            return True
        raise Unsupported("sort key at line %d" % e.lineno)

    def call(self, f, a, kw, s, e, fr):
        if f[0] == "bi":
            n = f[1]
            if n == "len" and a[0][0] == "list":
                return [(s, ("int", self.seq(s, a[0]).n))]
            if n in ("list", "iter", "tuple") and not a:
                return [(s, self.empty(s))]
            if n in ("list", "iter", "tuple") and a[0][0] == "list":
                q = self.seq(s, a[0])
                return [(s, self.newlist(s, self.slice(s, q, L(0), q.n)))]
            if n in ("set", "frozenset") and a and a[0][0] == "list" and self.seq(s, a[0]).kind != "rec":
                # some of the values are gone
                q, m = self.seq(s, a[0]), lvar(self.fresh("distinct"))
                s.ge(m)
                s.ge(lsub(q.n, m))
                return [(s, self.newlist(s, self.newseq(s, m, m, q.kind)))]
            if n == "reversed" and a[0][0] == "list":
                return [(s, self.newlist(s, self.reversed(s, self.seq(s, a[0]))))]
            if n == "sorted" and a[0][0] == "list":
                q = self.seq(s, a[0])
                if q.kind == "rec":
                    if not self.keyed(kw, e):
                        raise Unsupported("sort at line %d" % e.lineno)
                elif kw.get("key") is not None:
                    raise Unsupported("sort at line %d" % e.lineno)
                rv = kw.get("reverse", ("const", False))
                if rv[0] != "const":
                    raise Unsupported("sort at line %d" % e.lineno)
                r = self.newseq(s, q.n, q.wcur, q.kind, asc=not rv[1], desc=bool(rv[1]))
                r.first, r.last = elem(r.id, L(0)), elem(r.id, lsub(r.n, L(1)))
                r.low, r.parts, r.open = dict(q.low), q.parts | {q.id}, q.open
                return [(s, self.newlist(s, r))]
            if n in ("float", "int") and a[0][0] in ("val", "int"):
                return [(s, a[0])]
            if n == "sum" and a[0][0] == "weights":
                return [(s, ("int", s.seqs[a[0][1]].wcur))]
            if n == "range" or n == "enumerate":
                return [(s, (n, a))]
            return [(s, ("unk",))]
        if f[0] == "cls":
            if f[1].name == self.rec_class:
                return self.make(f[1], a, kw, s, e)
            return [(s, ("unk",))]
        if f[0] == "bound":
            return self.inline(f[2], [f[1]] + a if f[2].kind not in ("staticmethod",) else a, kw, s, e)
        if f[0] == "fn":
            return self.inline(f[1], a, kw, s, e)
        if f[0] == "meth":
            return self.method(f[1], f[2], a, kw, s, e)
        if f[0] == "ext":
            if f[1] == "heapq.merge" and all(x[0] == "list" for x in a) and self.keyed(kw, e):
                r = None
                for x in a:
                    r = self.seq(s, x) if r is None else self.concat(s, r, self.seq(s, x))
                if not all(self.seq(s, x).asc for x in a):
                    r = r.copy()
                    return [(s, self.newlist(s, r))]
                q = self.newseq(s, r.n, r.wcur, r.kind, asc=True)
                q.first, q.last = elem(q.id, L(0)), elem(q.id, lsub(q.n, L(1)))
                q.low, q.parts, q.open = dict(r.low), r.parts | {r.id}, r.open
                return [(s, self.newlist(s, q))]
            if f[1] == "operator.attrgetter" and a[0][0] == "const":
                return [(s, ("getter", a[0][1]))]
            if f[1] in ("copy.copy",) and a[0][0] == "list":
                q = self.seq(s, a[0])
                return [(s, self.newlist(s, self.slice(s, q, L(0), q.n)))]
            return [(s, ("unk",))]
        if f[0] == "unk":
            if any(x[0] in ("list", "rec", "obj") for x in a):
                raise Unsupported("call at line %d" % e.lineno)
            return [(s, ("unk",))]
        raise Unsupported("call at line %d" % e.lineno)

    def make(self, cls, a, kw, s, e):
        init = cls.methods.get("__init__")
        ps = [p.arg for p in init.node.args.args][1:]
        b = dict(zip(ps, a))
        b.update(kw)
        for p, d in zip(reversed(ps), reversed(init.node.args.defaults)):
            if p not in b:
                b[p] = self.ev(d, s, {"mod": init.mod})[0][1]
        at = {}
        for n in init.node.body:
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in b:
                at[n.targets[0].attr] = b[n.value.id]
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and (isinstance(n.value, ast.Constant) or isinstance(n.value, ast.Name) and n.value.id in b):
                b[n.targets[0].id] = b[n.value.id] if isinstance(n.value, ast.Name) else self.ev(n.value, s, {"mod": init.mod})[0][1]
            elif not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)) and not isinstance(n, ast.Pass):
                raise Unsupported("constructor of %s" % cls.name)
        g = at.get(self.weight, ("unk",))
        if g[0] != "int":
            s.vague.append("weight of a new record")
            g = ("int", lvar(self.fresh("g")))
        v = at.get(self.value, ("unk",))
        r = Rec(self.fresh("r"), g[1], self.term(s, v), None, {k: x for k, x in at.items() if k not in (self.weight, self.value)})
        s.recs[r.id] = r
        return [(s, ("rec", r.id))]

    def method(self, v, name, a, kw, s, e):
        q = self.seq(s, v)
        none = ("const", None)
        if name == "append":
            s.lists[v[1]] = self.concat(s, q, self.single(s, a[0])).id
            return [(s, none)]
        if name == "extend" and a[0][0] == "list":
            s.lists[v[1]] = self.concat(s, q, self.seq(s, a[0])).id
            return [(s, none)]
        if name == "reverse":
            s.lists[v[1]] = self.reversed(s, q).id
            return [(s, none)]
        if name == "copy":
            return [(s, self.newlist(s, self.slice(s, q, L(0), q.n)))]
        if name == "clear":
            s.lists[v[1]] = self.newseq(s, L(0), L(0), q.kind, asc=True, desc=True).id
            return [(s, none)]
        if name == "sort":
            r = self.call(("bi", "sorted"), [v], kw, s, e, None)
            s.lists[v[1]] = s.lists[r[0][1][1]]
            return [(s, none)]
        if name == "insert" and a[0] == ("int", L(0)):
            s.lists[v[1]] = self.concat(s, self.single(s, a[1]), q).id
            return [(s, none)]
        if name == "pop":
            out = []
            i = a[0][1] if a else L(-1)
            for z, j in self.position(s, q, i):
                x = self.read(z, q, j)
                if z.is_eq(lsub(j, lsub(q.n, L(1)))):
                    n = self.slice(z, q, L(0), j)
                elif z.is_eq(j):
                    n = self.slice(z, q, L(1), q.n)
                else:
                    raise Unsupported("pop at line %d" % e.lineno)
                z.lists[v[1]] = n.id
                out.append((z, x))
            return out
        raise Unsupported("list method %s at line %d" % (name, e.lineno))

    def inline(self, f, a, kw, s, e):
        if f.qual in self.contracts:
            r = self.contracts[f.qual](self, a, s)
            if r is not None:
                return r
        self.depth += 1
        if self.depth > 12:
            raise Unsupported("call depth")
        self.inlined.add(f.qual)
        ps = [p.arg for p in f.node.args.args]
        env = dict(zip(ps, a))
        env.update(kw)
        for p, d in zip(reversed(ps), reversed(f.node.args.defaults)):
            if p not in env:
                env[p] = self.ev(d, s, {"mod": f.mod, "fn": f})[0][1]
        saved = s.env
        s.env = env
        fr = {"mod": f.mod, "fn": f}
        out = []
        for k, q, v in self.block(f.node.body, s, fr):
            if k in ("n", "ret"):
                q.env = dict(saved)
                out.append((q, v if k == "ret" else ("const", None)))
            else:
                self.raised += 1
        self.depth -= 1
        return out

    # ------------------------------------------------------------ statements
    def block(self, body, s, fr):
        cur, outs = [s], []
        for n in body:
            nx = []
            for q in cur:
                for k, z, v in self.stmt(n, q, fr):
                    if k == "n":
                        nx.append(z)
                    else:
                        outs.append((k, z, v))
            cur = nx
            if len(cur) > 200:
                raise Unsupported("too many cases")
        return outs + [("n", q, None) for q in cur]

    def join(self, outs):
        """states that differ only in what is known about them, or in values not tracked, become one"""
        res = []
        for k, q, v in outs:
            if k != "n":
                res.append((k, q, v))
                continue
            sig = (q.lists, {i: (lkey(x.n), lkey(x.wcur), lkey(x.dirty), x.asc, x.desc, x.first, x.last, x.parts, x.open) for i, x in q.seqs.items() if i in q.lists.values()},
                   q.fields, {i: (lkey(r.g), r.term) for i, r in q.recs.items() if r.home is None})
            for i, (k2, p, sg) in enumerate(res):
                if k2 == "n" and sg == sig and set(p.env) == set(q.env) and all(p.env[x] == y or ("unk",) in (p.env[x], y) for x, y in q.env.items()):
                    m = p.copy()
                    for x, y in q.env.items():
                        if p.env[x] != y:
                            m.env[x] = ("unk",)
                    m.cons = {x: c for x, c in p.cons.items() if x in q.cons or q.is_ge(c[0])}
                    m.cons.update({x: c for x, c in q.cons.items() if x not in m.cons and p.is_ge(c[0])})
                    m.facts = p.facts & q.facts
                    m.vague = p.vague + q.vague
                    m.P = {x: [y for y in l if y in q.P.get(x, [])] for x, l in p.P.items() if x in q.P}
                    m.recs = {x: r for x, r in p.recs.items() if x in q.recs}
                    res[i] = ("n", m, sg)
                    break
            else:
                res.append(("n", q, sig))
        return [(k, q, None if k == "n" else v) for k, q, v in res]

    def stmt(self, n, s, fr):
        if isinstance(n, (ast.Pass, ast.Import, ast.ImportFrom, ast.Global)):
            if isinstance(n, ast.Import):
                for x in n.names:
                    s.env[x.asname or x.name] = ("ext", x.name)
            elif isinstance(n, ast.ImportFrom):
                for x in n.names:
                    s.env[x.asname or x.name] = ("ext", "%s.%s" % (n.module, x.name))
            return [("n", s, None)]
        if isinstance(n, ast.Expr):
            if isinstance(n.value, ast.Constant):
                return [("n", s, None)]
            return [("n", q, None) for q, v in self.ev(n.value, s, fr)]
        if isinstance(n, (ast.Assign, ast.AnnAssign)):
            if n.value is None:
                return [("n", s, None)]
            out = []
            for q, v in self.ev(n.value, s, fr):
                cur = [q]
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    cur = [z for y in cur for z in self.assign(t, v, y, fr)]
                out += [("n", z, None) for z in cur]
            return out
        if isinstance(n, ast.AugAssign):
            out = []
            for q, (o, v) in self.evs([self.load(n.target), n.value], s, fr):
                if o[0] == "list" and isinstance(n.op, ast.Add):
                    if v[0] != "list":
                        raise Unsupported("augmented assignment at line %d" % n.lineno)
                    q.lists[o[1]] = self.concat(q, self.seq(q, o), self.seq(q, v)).id
                    out.append(("n", q, None))
                else:
                    out += [("n", z, None) for z in self.assign(n.target, self.binop(n.op, o, v, q), q, fr)]
            return out
        if isinstance(n, ast.Return):
            return [("ret", s, ("const", None))] if n.value is None else [("ret", q, v) for q, v in self.ev(n.value, s, fr)]
        if isinstance(n, ast.Raise):
            return [("raise", s, n.lineno)]
        if isinstance(n, ast.Assert):
            return [("n" if t else "raise", q, n.lineno) for q, t in self.cond(n.test, s, fr)]
        if isinstance(n, ast.Break):
            return [("brk", s, None)]
        if isinstance(n, ast.Continue):
            return [("cont", s, None)]
        if isinstance(n, ast.If):
            out = []
            for q, t in self.cond(n.test, s, fr):
                out += self.block(n.body if t else n.orelse, q, fr)
            return self.join(out)
        if isinstance(n, ast.While):
            return self.loop(n, n.test, n.body, n.orelse, [], s, fr)
        if isinstance(n, ast.For):
            return self.forloop(n, s, fr)
        if isinstance(n, ast.Try):
            # a handled failure leaves before the next statement; both ways are followed
            out = []
            for k, q, v in self.block(n.body, s.copy(), fr):
                if k == "n" and n.orelse:
                    out += self.block(n.orelse, q, fr)
                else:
                    out.append((k, q, v))
            for h in n.handlers:
                out += self.block(h.body, s.copy(), fr)
            if n.finalbody:
                raise Unsupported("finally at line %d" % n.lineno)
            return out
        if isinstance(n, ast.FunctionDef):
            from .prog import Func
            s.env[n.name] = ("fn", Func(n, fr["mod"], fr["fn"].qual + "." + n.name, None))
            return [("n", s, None)]
        raise Unsupported("%s at line %d" % (type(n).__name__, n.lineno))

    def load(self, t):
        t = ast.copy_location(ast.parse(ast.unparse(t), mode="eval").body, t)
        for x in ast.walk(t):
            ast.copy_location(x, t) if not hasattr(x, "lineno") else None
        return t

    def assign(self, t, v, s, fr):
        if isinstance(t, ast.Name):
            s.env[t.id] = v
            return [s]
        if isinstance(t, (ast.Tuple, ast.List)) and v[0] == "tup" and len(v[1]) == len(t.elts):
            cur = [s]
            for x, y in zip(t.elts, v[1]):
                cur = [z for q in cur for z in self.assign(x, y, q, fr)]
            return cur
        if isinstance(t, ast.Attribute):
            out = []
            for q, o in self.ev(t.value, s, fr):
                if o[0] == "obj":
                    q.fields[(o[1], t.attr)] = v
                elif o[0] == "rec":
                    self.mutate(q, o[1], t.attr, v)
                else:
                    raise Unsupported("assignment at line %d" % t.lineno)
                out.append(q)
            return out
        if isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Slice) and t.slice.lower is None and t.slice.upper is None and t.slice.step is None and v[0] == "list":
            out = []
            for q, o in self.ev(t.value, s, fr):
                x = self.seq(q, v)
                q.lists[o[1]] = self.slice(q, x, L(0), x.n).id
                out.append(q)
            return out
        raise Unsupported("assignment at line %d" % t.lineno)

    def mutate(self, s, rid, attr, v):
        r = s.recs[rid]
        if attr == self.value:
            raise Unsupported("a record's value is changed")
        if attr != self.weight:
            r.attrs[attr] = v
            return
        if v[0] != "int":
            s.vague.append("a record's weight is set to an unknown value")
            v = ("int", lvar(self.fresh("g")))
        d = lsub(v[1], r.g)
        r.g = v[1]
        live = set(s.lists.values())
        for sid in list(live):
            q = s.seqs[sid]
            if q.kind == "num":
                continue
            known = None     # is the record in q?
            if rid in q.parts:
                known = True
            elif r.home is None:
                known = False if not q.open else None
            elif q.id == r.home[0] or r.home[0] in q.parts:
                known = True
            elif r.home[0] not in q.low:
                known = False if not q.open else None
            elif s.is_ge(lsub(lsub(q.low[r.home[0]], r.home[1]), L(1))):
                known = False
            if known is False:
                continue
            if known is None:
                s.vague.append("a record that may be in two lists is changed")
                q.wcur = lvar(self.fresh("w"))
            else:
                q.wcur = ladd(q.wcur, d)
            if r.home and q.id == r.home[0]:
                m = self.minidx(s, q.dirty, r.home[1])
                q.dirty = m if m is not None else L(0)
            else:
                q.dirty = L(0)

    # ------------------------------------------------------------ loops
    def forloop(self, n, s, fr):
        out = []
        for q, it in self.ev(n.iter, s, fr):
            k = self.fresh("%k")
            if it[0] == "list":
                # the content at the start (the body must not change the list)
                src = q.lists[it[1]]
                frozen = self.fresh("l")
                q.lists[frozen] = src
                q.env[k + "l"] = ("list", frozen)
                q.env[k] = ("int", L(0))
                item = lambda z: [(z, self.read(z, z.seqs[src], z.env[k][1]))]
                n_ = q.seqs[src].n
                more = lambda z: self.split(z, lsub(lsub(n_, z.env[k][1]), L(1)))
                step = 1
                bounds = [lambda z: lsub(n_, z.env[k][1]), lambda z: z.env[k][1]]
            elif it[0] == "enumerate" and it[1][0][0] == "list":
                src = q.lists[it[1][0][1]]
                frozen = self.fresh("l")
                q.lists[frozen] = src
                q.env[k + "l"] = ("list", frozen)
                q.env[k] = ("int", L(0))
                st0 = it[1][1][1] if len(it[1]) > 1 else L(0)
                item = lambda z: [(z, ("tup", [("int", ladd(z.env[k][1], st0)), self.read(z, z.seqs[src], z.env[k][1])]))]
                n_ = q.seqs[src].n
                more = lambda z: self.split(z, lsub(lsub(n_, z.env[k][1]), L(1)))
                step = 1
                bounds = [lambda z: lsub(n_, z.env[k][1]), lambda z: z.env[k][1]]
            elif it[0] == "range" and all(x[0] == "int" for x in it[1]):
                a = [x[1] for x in it[1]]
                lo, hi = (L(0), a[0]) if len(a) == 1 else (a[0], a[1])
                step = 1
                if len(a) == 3:
                    if any(v for x, v in a[2].items() if x) or a[2].get("") not in (1, -1):
                        raise Unsupported("range step at line %d" % n.lineno)
                    step = int(a[2][""])
                q.env[k] = ("int", lo)
                item = lambda z: [(z, z.env[k])]
                more = (lambda z: self.split(z, lsub(lsub(hi, z.env[k][1]), L(1)))) if step == 1 else (lambda z: self.split(z, lsub(lsub(z.env[k][1], hi), L(1))))
                bounds = [(lambda z: lsub(hi, z.env[k][1])) if step == 1 else (lambda z: lsub(z.env[k][1], hi))]
            else:
                raise Unsupported("loop at line %d" % n.lineno)

            def test(z, more=more):
                return more(z)

            def body(z, item=item, step=step):
                res = []
                for y, v in item(z):
                    for x in self.assign(n.target, v, y, fr):
                        x.env[k] = ("int", ladd(x.env[k][1], L(step)))
                        res += self.block(n.body, x, fr)
                return res
            out += self.loop(n, test, body, n.orelse, bounds, q, fr)
        return out

    def comps(self, s):
        """tracked quantities of a state: name -> linear expression"""
        o = {}
        for k, v in s.env.items():
            if v[0] == "int":
                o[("v", k)] = v[1]
        for (a, b), v in s.fields.items():
            if v[0] == "int":
                o[("f", a, b)] = v[1]
        return o

    def holders(self, s):
        """(place, value) for every variable or field that holds a list or a record"""
        return [(("v", k), v) for k, v in s.env.items()] + [(("f",) + k, v) for k, v in s.fields.items()]

    def get(self, s, p):
        return s.env.get(p[1]) if p[0] == "v" else s.fields.get(p[1:])

    def setp(self, s, p, v):
        if p[0] == "v":
            s.env[p[1]] = v
        else:
            s.fields[p[1:]] = v

    def run_test(self, test, s, fr):
        return test(s) if callable(test) else self.cond(test, s, fr)

    def run_body(self, body, s, fr):
        return body(s) if callable(body) else self.block(body, s, fr)

    def once(self, test, body, s, fr):
        back, ext, rest = [], [], []
        for q, t in self.run_test(test, s, fr):
            if not t:
                ext.append(q)
                continue
            for k, z, v in self.run_body(body, q, fr):
                if k in ("n", "cont"):
                    back.append(z)
                elif k == "brk":
                    rest.append(("n", z, None))
                else:
                    rest.append((k, z, v))
        return back, ext, rest

    def loop(self, n, test, body, orelse, bounds, s, fr):
        outs = []
        # a loop that is not entered
        enter = []
        for q, t in self.run_test(test, s.copy(), fr):
            if t:
                enter.append(q)
            else:
                outs += self.block(orelse, q, fr) if orelse else [("n", q, None)]
        for q in enter:
            outs += self.inloop(n, test, body, orelse, bounds, q, fr)
        return outs

    def inloop(self, n, test, body, orelse, bounds, s, fr):
        # 1. what changes
        chg = set()      # changed places (numbers, lists, records)
        while True:
            head = self.havoc(s, chg, {}, {})[0]
            back, ext, rest = self.once(test, body, head.copy(), fr)
            more = set()
            for b in back:
                for p, v in self.holders(head):
                    w = self.get(b, p)
                    if w is None or (w[0] != v[0] and "unk" not in (w[0], v[0])):
                        if v[0] in ("rec", "val", "int", "list", "const", "unk"):
                            more.add(("drop",) + p)
                            continue
                        raise Unsupported("variable %s changes kind in the loop at line %d" % (p, n.lineno))
                    if v[0] == "list":
                        if v[1] != w[1] and p not in chg:
                            more.add(("bind",) + p)
                        if p in chg:
                            continue
                        if head.lists.get(v[1]) != b.lists.get(w[1]):
                            more.add(p)
                        elif lkey(head.seqs[head.lists[v[1]]].wcur) != lkey(b.seqs[b.lists[w[1]]].wcur) or \
                                lkey(head.seqs[head.lists[v[1]]].dirty) != lkey(b.seqs[b.lists[w[1]]].dirty):
                            more.add(("touch", head.lists[v[1]]))
                    elif v[0] == "int":
                        if lkey(v[1]) != lkey(w[1]):
                            more.add(p)
                    elif v[0] == "rec":
                        if v[1] != w[1] or lkey(head.recs[v[1]].g) != lkey(b.recs[w[1]].g):
                            more.add(p)
                    elif v[0] == "val":
                        if v[1] != w[1]:
                            more.add(p)
                    elif v != w:
                        more.add(("drop",) + p)
            if any(m[0] == "bind" for m in more):
                # a variable bound to another list: content is what counts, identity is not tracked
                for m in more:
                    if m[0] == "bind":
                        p = m[1:]
                        l = self.get(s, p)[1]
                        if sum(1 for _, v in self.holders(s) if v == ("list", l)) > 1:
                            raise Unsupported("a shared list is rebound in the loop at line %d" % n.lineno)
                        more = more | {p}
            more = {m for m in more if m[0] != "bind"}
            if more <= chg:
                break
            chg |= more
        # 2. quantities
        names, entry = {}, {}
        head, names, entry = self.havoc(s, chg, {}, {})
        ks = sorted(names, key=str)
        cands = []
        for i, a in enumerate(ks):
            if a[0] == "P" or a[0] == "w" or a[0] == "g":
                continue
            x, x0 = lvar(names[a]), entry[a]
            cands += [lsub(x, x0), lsub(x0, x)]
            if a[0] == "n" or a[0] == "v":
                cands += [x]
            for b in ks[i + 1:]:
                if b[0] in ("P", "w", "g"):
                    continue
                d, d0 = lsub(x, lvar(names[b])), lsub(x0, entry[b])
                cands += [lsub(d, d0), lsub(d0, d), d, lscale(d, -1)]
        probe = self.havoc(s, chg, names, {})[0]
        for c in ([x for x in ast.walk(n.test) if isinstance(x, ast.Compare)] if isinstance(n, ast.While) else []) + \
                [x for m in n.body for x in ast.walk(m) if isinstance(x, ast.Compare)]:
            try:
                for q, vs in self.evs([c.left] + c.comparators, probe.copy(), fr):
                    if len(vs) == 2 and vs[0][0] == vs[1][0] == "int":
                        d = lsub(vs[0][1], vs[1][1])
                        cands += [d, lscale(d, -1), ladd(d, L(1)), ladd(lscale(d, -1), L(1))]
            except (Unsupported, KeyError, IndexError):
                pass
        cands += [f(probe) for f in bounds]
        for p in chg:
            if p[0] in ("v", "f"):
                v = self.get(probe, p)
                if v[0] == "int":
                    for sid in set(probe.lists.values()):
                        q = probe.seqs[sid]
                        cands.append(lsub(q.n, v[1]))
        sub0 = {names[k]: entry[k] for k in ks}
        uniq = {}
        for c in cands:
            uniq[lkey(c)] = c
        cands = [c for c in uniq.values() if any(v for k, v in c.items() if k)]
        cands = [c for c in cands if s.is_ge(self.sub(c, sub0))]
        # 3. index relations, then conservation laws, then everything together
        first, _, _ = self.houdini(s, chg, names, {}, ks, cands, [], [], test, body, fr)
        laws = self.conserved(s, chg, names, first, ks, test, body, fr)
        elim = self.solve(laws, names, entry, ks)
        second = {}
        for c in cands:
            c = self.sub(c, elim)
            if any(v for k, v in c.items() if k):
                second[lkey(c)] = c
        cands, flags, ofacts = self.houdini(s, chg, names, elim, ks, list(second.values()), self.flag_candidates(s, chg), self.order_candidates(s, chg, names), test, body, fr)
        head = self.havoc(s, chg, names, elim)[0]
        for c in cands:
            head.ge(c)
        self.put_flags(head, flags, ofacts)
        back, ext, rest = self.once(test, body, head, fr)
        self.laws.append((n.lineno, [self.showlaw(l, ks) for l in laws], [lshow(c) + " >= 0" for c in cands], flags, ofacts))
        outs = list(rest)
        for q in ext:
            outs += self.block(orelse, q, fr) if orelse else [("n", q, None)]
        return outs

    def houdini(self, s, chg, names, elim, ks, cands, flags, ofacts, test, body, fr):
        """the candidates that hold at entry and that an iteration preserves"""
        c0, nl, nr = self.c, len(self.laws), self.raised
        while True:
            self.c = c0
            head = self.havoc(s, chg, names, elim)[0]
            for c in cands:
                head.ge(c)
            self.put_flags(head, flags, ofacts)
            back, ext, rest = self.once(test, body, head.copy(), fr)
            nows = [self.quantities(b, head, chg, ks, s) for b in back]
            keep = [c for c in cands if all(b.is_ge(self.sub(c, {names[k]: now[k] for k in ks})) for b, now in zip(back, nows))]
            kf = [f for f in flags if all(self.flag_holds(b, f) for b in back)]
            ko = [o for o in ofacts if all(self.order_holds(b, o) for b in back)]
            same = len(keep) == len(cands) and len(kf) == len(flags) and len(ko) == len(ofacts)
            cands, flags, ofacts = keep, kf, ko
            del self.laws[nl:]
            self.raised = nr
            if same:
                return cands, flags, ofacts

    def showlaw(self, l, ks):
        return " + ".join("%s*%s" % (a, "/".join(map(str, k))) for a, k in zip(l, ks) if a)

    def sub(self, e, m):
        r = L(0)
        for k, v in e.items():
            r = ladd(r, m[k] if k in m else ({k: 1, "": 0} if k else L(1)), v)
        return r

    def havoc(self, s, chg, names, elim):
        """the state at the start of an arbitrary iteration; names of the fresh symbols; their entry values"""
        h = s.copy()
        entry = {}
        names = dict(names)

        def sym(key, val):
            if key not in names:
                names[key] = self.fresh("/".join(str(x) for x in key))
            entry[key] = val
            return elim[names[key]] if names[key] in elim else lvar(names[key])
        dropped = {m[1:] for m in chg if m[0] == "drop"}
        for p in dropped:
            if p[0] == "v":
                h.env.pop(p[1], None)
            else:
                h.fields.pop(p[1:], None)
        places = sorted((p for p in chg if p[0] in ("v", "f") and p not in dropped), key=str)
        relisted = {}
        for p in places:
            v = self.get(s, p)
            if v[0] == "int":
                self.setp(h, p, ("int", sym(p, v[1])))
            elif v[0] == "val":
                self.setp(h, p, ("val", ("u", "loopval/%s" % "/".join(p))))
            elif v[0] == "list":
                q = s.seqs[s.lists[v[1]]]
                if v[1] in relisted:
                    continue
                relisted[v[1]] = p
                r = Seq("S/" + "/".join(p) + "#%d" % self.c, sym(("n",) + p, q.n), sym(("w",) + p, q.wcur), q.kind)
                r.n and h.ge(r.n)
                r.first, r.last = ("first",) + p, ("last",) + p
                for k in list(s.seqs):
                    if s.seqs[k].kind != "num" and k in s.lists.values() and s.lists[v[1]] != k:
                        lo = q.low.get(k, s.seqs[k].n)
                        r.low[k] = sym(("low", k) + p, lo)
                r.open = True
                r.dirty = r.n
                h.seqs[r.id] = r
                h.lists[v[1]] = r.id
        # kind of a list that is filled in the loop
        for m in sorted((m for m in chg if m[0] == "touch"), key=str):
            if m[1] in h.lists.values():
                q = h.seqs[m[1]]
                q.wcur = sym(("w", m[1]), s.seqs[m[1]].wcur)
                q.dirty = sym(("dirty", m[1]), s.seqs[m[1]].dirty)
        for p in places:
            v = self.get(s, p)
            if v[0] == "rec":
                r = s.recs[v[1]]
                x = Rec("rec/" + "/".join(p) + "#%d" % self.c, sym(("g",) + p, r.g), ("recval",) + p, None)
                if r.home is not None:
                    i = sym(("i",) + p, r.home[1])
                    x.home = (r.home[0], i)
                    x.term = elem(r.home[0], i)
                h.recs[x.id] = x
                self.setp(h, p, ("rec", x.id))
        # prefix weights at changed indices
        stable = [k for k in set(h.lists.values()) if k in s.seqs and s.seqs[k].kind == "rec"]
        for p in places:
            v = self.get(h, p)
            if v is None or v[0] != "int":
                continue
            for k in sorted(stable):
                for off in (-1, 0, 1):
                    i0 = ladd(self.get(s, p)[1], L(off))
                    w0 = self.prefix(s, s.seqs[k], i0)
                    w = sym(("P", k, off) + p, w0)
                    self.setprefix(h, h.seqs[k], ladd(v[1], L(off)), w)
        # records read in earlier iterations are forgotten
        keep = {v[1] for _, v in self.holders(h) if v[0] == "rec"}
        h.recs = {k: v for k, v in h.recs.items() if k in keep}
        return h, names, entry

    def quantities(self, b, head, chg, ks, s):
        """values of the tracked quantities at the end of an iteration"""
        now = {}
        self.unify(b)
        for k in ks:
            if k[0] in ("v", "f"):
                now[k] = self.get(b, k)[1]
            elif k[0] == "n":
                now[k] = self.seq(b, self.get(b, k[1:])).n
            elif k[0] == "w" and len(k) == 2:
                now[k] = b.seqs[k[1]].wcur
            elif k[0] == "w":
                now[k] = self.seq(b, self.get(b, k[1:])).wcur
            elif k[0] == "dirty":
                now[k] = b.seqs[k[1]].dirty
            elif k[0] == "low":
                q = self.seq(b, self.get(b, k[2:]))
                now[k] = q.low.get(k[1], b.seqs[k[1]].n)
            elif k[0] == "g":
                now[k] = b.recs[self.get(b, k[1:])[1]].g
            elif k[0] == "i":
                r = b.recs[self.get(b, k[1:])[1]]
                h0 = s.recs[self.get(s, k[1:])[1]].home[0]
                now[k] = r.home[1] if r.home and r.home[0] == h0 else lvar(self.fresh("?"))
            elif k[0] == "P":
                i = ladd(self.get(b, k[3:])[1], L(k[2]))
                now[k] = self.prefix(b, b.seqs[k[1]], i)
        return now

    def conserved(self, s, chg, names, cands, ks, test, body, fr):
        c0, nl = self.c, len(self.laws)
        head = self.havoc(s, chg, names, {})[0]
        for c in cands:
            head.ge(c)
        back, ext, rest = self.once(test, body, head.copy(), fr)
        rows = []
        for b in back:
            now = self.quantities(b, head, chg, ks, s)
            d = [lsub(now[k], lvar(names[k])) for k in ks]
            vs = set(x for e in d for x, v in e.items() if v)
            for x in vs:
                rows.append([e.get(x, 0) for e in d])
        self.c = c0
        del self.laws[nl:]
        return nullspace(rows, len(ks))

    def solve(self, laws, names, entry, ks):
        """fresh symbol -> expression, from the conservation laws"""
        def rank(k):
            return {"w": 0, "g": 1, "n": 2, "v": 3, "f": 3, "dirty": 4, "low": 4, "i": 5, "P": 6}[k[0]]
        order = sorted(range(len(ks)), key=lambda i: (rank(ks[i]), str(ks[i])))
        rows = [[l[i] for i in order] for l in laws]
        rows = rref(rows)
        out = {}
        for r in rows:
            p = next(i for i, a in enumerate(r) if a)
            e = L(0)
            for i, a in enumerate(r):
                if a:
                    k = ks[order[i]]
                    e = ladd(e, entry[k], a)
                    if i != p:
                        e = ladd(e, lvar(names[k]), -a)
            out[names[ks[order[p]]]] = e
        return out

    # order facts: candidates are guarded "if the list is not empty / the position exists"
    def flag_candidates(self, s, chg):
        out = []
        for p in sorted((p for p in chg if p[0] in ("v", "f")), key=str):
            v = self.get(s, p)
            if v is not None and v[0] == "list":
                q = self.seq(s, v)
                out += [(p, f) for f in ("asc", "desc") if getattr(q, f)]
        return out

    def flag_holds(self, b, f):
        return getattr(self.seq(b, self.get(b, f[0])), f[1])

    def value_of(self, s, t):
        """value term of an order-fact end: ('last', place) | ('rec', place) | ('val', place) | ('at', seq, place, off)"""
        if t[0] == "last":
            q = self.seq(s, self.get(s, t[1]))
            return q.last, s.is_eq(q.n)
        if t[0] in ("rec", "val"):
            return self.term(s, self.get(s, t[1])), False
        q = s.seqs[t[1]]
        i = ladd(self.get(s, t[2])[1], L(t[3]))
        out = s.is_ge(lsub(i, q.n)) or s.is_ge(lsub(L(-1), i))
        return elem(q.id, i), out

    def order_candidates(self, s, chg, names):
        ends, lasts = [], []
        places = sorted((p for p in chg if p[0] in ("v", "f")), key=str)
        for p in places:
            v = self.get(s, p)
            if v is None:
                continue
            if v[0] == "list":
                lasts.append(("last", p))
            elif v[0] == "rec":
                ends.append(("rec", p))
            elif v[0] == "val":
                ends.append(("val", p))
            elif v[0] == "int":
                for k in sorted(set(s.lists.values())):
                    if s.seqs[k].asc or s.seqs[k].desc:
                        ends += [("at", k, p, 0), ("at", k, p, -1)]
        for p, v in self.holders(s):
            if p not in chg and v[0] in ("rec", "val"):
                ends.append((v[0], p))
        c = []
        for l in lasts:
            for e in ends:
                c += [(l, e), (e, l)]
        for a in ends:
            for b in ends:
                if a != b and "at" in (a[0], b[0]) and a[:2] != b[:2]:
                    c.append((a, b))
        return [x for x in c if self.order_holds(s, x)]

    def order_holds(self, s, f):
        if ("drop",) + (f[0][1] if f[0][0] != "at" else ()) and False:
            return False
        a, va = self.value_of(s, f[0])
        b, vb = self.value_of(s, f[1])
        if va or vb:
            return True
        return self.leq(s, a, b)

    def put_flags(self, h, flags, ofacts):
        for p, f in flags:
            setattr(self.seq(h, self.get(h, p)), f, True)
        for a, b in ofacts:
            x, _ = self.value_of(h, a)
            y, _ = self.value_of(h, b)
            h.facts |= {(x, y)}


def rref(rows):
    rows = [list(r) for r in rows if any(r)]
    out = []
    c = 0
    n = len(rows[0]) if rows else 0
    while rows and c < n:
        p = next((r for r in rows if r[c]), None)
        if p is None:
            c += 1
            continue
        rows.remove(p)
        p = [a / p[c] for a in p]
        rows = [[a - r[c] * b for a, b in zip(r, p)] for r in rows]
        out = [[a - r[c] * b for a, b in zip(r, p)] for r in out]
        rows = [r for r in rows if any(r)]
        out.append(p)
        c += 1
    return out


def nullspace(rows, n):
    rr = rref([[Fraction(a) for a in r] for r in rows])
    piv = [next(i for i, a in enumerate(r) if a) for r in rr]
    free = [i for i in range(n) if i not in piv]
    out = []
    for f in free:
        v = [Fraction(0)] * n
        v[f] = Fraction(1)
        for r, p in zip(rr, piv):
            v[p] = -r[f]
        out.append(v)
    return out
