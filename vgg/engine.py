"""Gated value-graph construction by abstract interpretation of the syntax tree.

One abstract state per program point; branches are merged with gating
conditions, loops are closed into sums, comprehensions, write nests,
first-match searches or recurrence terms.  Repository functions are inlined.
"""
import ast
import sys
from .terms import *
from . import terms as TT
from .prog import Program, Func, Class, Module

sys.setrecursionlimit(20000)

UNDEF = mk("undef")
LOGGERV = mk("logger")
INF = mk("inf")


def is_cond(t):
    if t.op == "ite":
        return is_cond(t.args[1]) and is_cond(t.args[2])
    return t in (TRUE, FALSE) or kind(t) == "bool"


class Undecided(Exception):
    """the analysis met something it cannot model"""


class State(object):
    __slots__ = ("v", "pc")

    def __init__(self, v=None, pc=TRUE):
        self.v = v if v is not None else {}
        self.pc = pc

    def copy(self, c=None):
        return State(dict(self.v), self.pc if c is None else and_(self.pc, c))

    def set(self, o):
        self.v, self.pc = o.v, o.pc


class Frame(object):
    __slots__ = ("fid", "locals", "parent", "mod", "cls", "func", "selfv", "gen")

    def __init__(self, fid, locs, parent, mod, cls, func=None):
        self.fid, self.locals, self.parent, self.mod, self.cls, self.func = fid, locs, parent, mod, cls, func
        self.selfv = None
        self.gen = None


_LOCS = {}


def stored_names(body, args=None):
    out, glob = set(), set()
    if args is not None:
        for a in args.posonlyargs + args.args + args.kwonlyargs:
            out.add(a.arg)
        if args.vararg:
            out.add(args.vararg.arg)
        if args.kwarg:
            out.add(args.kwarg.arg)

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    out.add(x.target.id)
            return
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            glob.update(n.names)
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split(".")[0])
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        for c in ast.iter_child_nodes(n):
            walk(c)
    for s in body:
        walk(s)
    return out - glob


def is_gen(node):
    if isinstance(node, ast.Lambda):
        return False
    st = list(node.body)
    while st:
        n = st.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(n))
    return False


TEMPLATES = ("newlist", "new", "newdict", "newset")
IMMUT = ("int", "float", "num", "bool", "str", "bytes", "none")


def has_template(t):
    if t.op in TEMPLATES:
        return True
    if t.op == "ite":
        return has_template(t.args[1]) or has_template(t.args[2])
    return False


MUTK = ("list", "dict", "set", "ndarray")


def addr_like(e, cell):
    """does reading e out of a cell denote the part of the cell itself (an address)?"""
    if has_template(e):
        return True
    base = cell
    while base.op == "upd":
        base = base.args[0]
    if e.op == "ite":
        return addr_like(e.args[1], cell) and addr_like(e.args[2], cell)
    if e.op in ("upd", "rd"):
        return e.op == "upd" or mutk(kind(e)) or kind(e) is None
    if e.op in ("get", "attr", "dget", "tget") and mutk(kind(e)):
        return root_path(e)[0] is base
    return False


def mutk(k):
    return bool(k) and (k.startswith("obj:") or split_ty(k)[0] in MUTK)


def nonnil(t):
    """region where a sequence diagram is not the empty sequence"""
    if t is NIL:
        return FALSE
    if t.op == "ite":
        return ite(t.args[0], nonnil(t.args[1]), nonnil(t.args[2]))
    return TRUE


def mkcomp(dom, iv, s):
    """concatenation of s over iv in dom"""
    if s is NIL:
        return NIL
    if dom.op == "N" and is_num(dom.args[0]):
        n = int(dom.args[0].args[0])
        if n <= 0:
            return NIL
        if n <= 8:
            return cat(NIL, *[subst(s, {iv: num(j)}) for j in range(n)])
    c = nonnil(s)
    s = restrict(s, c)
    if iv not in c.fv and c is not TRUE:
        return ite(c, mkcomp(dom, iv, s), NIL)
    a = freeatom(c, iv)
    a = freeatom(s, iv) if a is None else a
    if a is not None:
        s = ite(c, s, NIL)
        return ite(a, mkcomp(dom, iv, imply(s, a, True)), mkcomp(dom, iv, imply(s, a, False)))
    return comp(dom, lam([iv], [c, s]))


_FREE = {}


def freeatom(t, iv):
    """a decision of diagram t that does not depend on iv, or None"""
    a = top(t)
    if a is None:
        return None
    if iv not in a.fv:
        return a
    if t.op != "ite":
        return None
    key = (t, iv)
    if key not in _FREE:
        x, y = freeatom(t.args[1], iv), freeatom(t.args[2], iv)
        _FREE[key] = x if y is None or (x is not None and akey(x) <= akey(y)) else y
    return _FREE[key]


def mksum(dom, iv, d):
    if d is ZERO:
        return ZERO
    if dom.op == "N":
        n = dom.args[0]
        if is_num(n):
            n = int(n.args[0])
            if n <= 0:
                return ZERO
            if n <= 8:
                r = ZERO
                for j in range(n):
                    r = add(r, subst(d, {iv: num(j)}))
                return r
        if iv not in d.fv:
            return mul(dom.args[0], d)
    if d.op == "ite":
        # conditions not depending on the index move out
        a = freeatom(d, iv)
        if a is not None:
            return ite(a, mksum(dom, iv, imply(d, a, True)), mksum(dom, iv, imply(d, a, False)))
        ls = leaves(d)
        nz = [(c, l) for c, l in ls if l is not ZERO]
        vals = set(l for c, l in nz)
        if len(vals) == 1:
            v = vals.pop()
            c = or_(*[c for c, l in nz])
            if is_num(v) or (iv not in v.fv):
                return mul(v, mk("count", dom, lam([iv], [c])))
            k, v = numfactor(v)
            return mul(num(k), mk("sum", dom, lam([iv], [ite(c, v, ZERO)])))
        return mk("sum", dom, lam([iv], [d]))
    if is_num(d):
        return mul(d, mk("card", dom))
    tot = ZERO
    for fs, c in monos(d).items():
        inn = [f for f in fs if iv in f.fv]
        out = [f for f in fs if iv not in f.fv]
        t = num(c)
        for f in out:
            t = mul(t, f)
        if inn:
            b = ONE
            for f in inn:
                b = mul(b, f)
            if dom.op == "N" and b is iv:
                n = dom.args[0]
                s = div(mul(n, sub(n, ONE)), num(2))
            else:
                s = mk("sum", dom, lam([iv], [b]))
        else:
            s = dom.args[0] if dom.op == "N" else mk("card", dom)
        tot = add(tot, mul(t, s))
    return tot


def numfactor(v):
    m = monos(v)
    if not m:
        return 1, v
    items = sorted(m.items(), key=lambda x: (len(x[0]), [f.h for f in x[0]]))
    k = items[0][1]
    if k == 1:
        return 1, v
    return k, mul(num(1 / k), v)


def memberof(dom, iv, c):
    """(k, L) when c says that the iv-th element of the list L over dom is k"""
    if c.op in ("eq", "eqc") and dom.op == "N":
        for x, k in ((c.args[0], c.args[1]), (c.args[1], c.args[0])):
            if x.op == "get" and x.args[1] is iv and iv not in k.fv and iv not in x.args[0].fv and dom.args[0] is length(x.args[0]):
                return k, x.args[0]
    return None


def mkexists(dom, iv, c):
    if c is FALSE:
        return FALSE
    if dom.op == "N":
        if is_num(dom.args[0]):
            n = int(dom.args[0].args[0])
            if n <= 8:
                return or_(*[subst(c, {iv: num(j)}) for j in range(max(n, 0))])
        if iv not in c.fv:
            return and_(c, lt(ZERO, dom.args[0]))
    elif iv not in c.fv:
        return and_(c, mk("exists", dom, lam([iv], [TRUE])))
    m = memberof(dom, iv, c)
    if m is not None:
        return mk("in", *m)
    # or over outer-invariant part
    a = freeatom(c, iv)
    if a is not None:
        return ite(a, mkexists(dom, iv, imply(c, a, True)), mkexists(dom, iv, imply(c, a, False)))
    return mk("exists", dom, lam([iv], [c]))


# ------------------------------------------------------------- writes
def peq(p, q):
    """equality condition of two path elements"""
    if p.op != q.op:
        return FALSE
    if p.op == "pa":
        return const(p.args[0] == q.args[0])
    return eq(p.args[0], q.args[0])


def pcmp(p, q):
    """(condition, relation) with relation eq | prefix (p of q) | ext (q of p)"""
    c = TRUE
    for x, y in zip(p, q):
        c = and_(c, peq(x, y))
        if c is FALSE:
            return FALSE, None
    if len(p) == len(q):
        return c, "eq"
    return c, ("prefix" if len(p) < len(q) else "ext")


WNIL = mk("ws")


def wpath(w):
    return w.args[0].args


def wconc(w):
    """may the write (entry) be reordered freely w.r.t. others of the same kind"""
    return w.op == "acc"


def allacc(W):
    if W.op == "ite":
        return allacc(W.args[1]) and allacc(W.args[2])
    for w in W.args:
        if w.op == "nest":
            if not allacc(w.args[1].args[2]):
                return False
        elif w.op != "acc":
            return False
    return True


def commute(a, b):
    def acc(w):
        return w.op == "acc" or (w.op == "nest" and allacc(w.args[1].args[2]))
    if acc(a) and acc(b):
        return True
    if a.op in ("set", "acc") and b.op in ("set", "acc"):
        c, r = pcmp(wpath(a), wpath(b))
        return c is FALSE
    return False


def wapp(W, w):
    """append write entry w to write tree W"""
    r = lift(wapp, (W, w))
    if r is not None:
        return r
    if w is WNIL:
        return W
    if w.op == "ws":
        for x in w.args:
            W = wapp(W, x)
        return W
    ws = list(W.args)
    if w.op == "acc":
        if w.args[1] is ZERO:
            return W
        for j in range(len(ws) - 1, -1, -1):
            e = ws[j]
            if e.op == "acc" and e.args[0] is w.args[0]:
                d = add(e.args[1], w.args[1])
                rest = ws[:j] + ws[j + 1:]
                out = mk("ws", *rest)
                return wapp(out, mkacc(w.args[0], d)) if d is not ZERO else out
            if e.op == "set" and e.args[0] is w.args[0]:
                rest = ws[:j] + ws[j + 1:]
                return wapp(mk("ws", *rest), mk("set", w.args[0], add(e.args[1], w.args[1])))
            if not commute(e, w):
                break
    elif w.op == "set":
        ws = [e for e in ws if not (e.op in ("set", "acc") and len(wpath(e)) >= len(wpath(w)) and wpath(e)[:len(wpath(w))] == wpath(w))]
    elif w.op == "nest":
        for j in range(len(ws) - 1, -1, -1):
            e = ws[j]
            if e.op == "nest" and e.args[0] is w.args[0]:
                b1, b2 = e.args[1].args[2], w.args[1].args[2]
                v = fresh(bvtag_of(e.args[1]))
                x1, x2 = instantiate(e.args[1], [v]), instantiate(w.args[1], [v])
                if (allacc(b1) and allacc(b2)) or (injective(x1, v) and injective(x2, v)):
                    rest = ws[:j] + ws[j + 1:]
                    return wapp(mk("ws", *rest), mknest(w.args[0], v, wapp(x1, x2)))
            if not commute(e, w):
                break
    ws.append(w)
    j = len(ws) - 1
    while j > 0 and commute(ws[j - 1], ws[j]) and ws[j].h < ws[j - 1].h:
        ws[j - 1], ws[j] = ws[j], ws[j - 1]
        j -= 1
    return mk("ws", *ws)


def bvtag_of(lm):
    return TT.bvtag(lm.args[2:], lm.args[0], 0)


def injective(W, v):
    if W.op == "ite":
        return injective(W.args[1], v) and injective(W.args[2], v)
    for w in W.args:
        if w.op == "nest":
            if not injective(w.args[1].args[2], v):
                return False
        elif not (wpath(w) and wpath(w)[0].op == "pg" and wpath(w)[0].args[0] is v):
            return False
    return True


def mkacc(path, d):
    r = lift(mkacc, (path, d))
    return r if r is not None else mk("acc", path, d)


def mkset(path, d):
    # a conditional value that keeps paths fixed stays inside one write
    r = lift(lambda p: mkset(p, d), (path,))
    return r if r is not None else mk("set", path, d)


def mkpath(els):
    return TT.rebuild("path", list(els))


def mknest(dom, iv, W):
    if W is WNIL:
        return WNIL
    if dom.op == "N" and is_num(dom.args[0]):
        n = int(dom.args[0].args[0])
        if n <= 8:
            out = WNIL
            for j in range(max(n, 0)):
                out = wapp(out, subst(W, {iv: num(j)}))
            return out
    a = freeatom(W, iv)
    if a is not None:
        return ite(a, mknest(dom, iv, imply(W, a, True)), mknest(dom, iv, imply(W, a, False)))
    return mk("ws", mk("nest", dom, lam([iv], [W])))


def mkupd(base, W):
    if W is WNIL:
        return base
    if base.op == "upd":
        return mkupd(base.args[0], wapp(base.args[1], W))
    if base.op == "ite":
        return ite(base.args[0], mkupd(base.args[1], imply(W, base.args[0], True)), mkupd(base.args[2], imply(W, base.args[0], False)))
    if W.op == "ws" and len(W.args) == 1 and W.args[0].op == "nest" and split_ty(kind(base) or "")[0] == "list":
        # every element replaced: the list of the new elements
        dom, lm = W.args[0].args
        if dom.op == "N" and dom.args[0] is length(base):
            v = fresh(bvtag_of(lm))
            w = instantiate(lm, [v])
            if w.op == "ws" and len(w.args) == 1 and w.args[0].op == "set" and wpath(w.args[0]) == (mk("pg", v),):
                return TT.rebuild("newlist", [mkcomp(dom, v, cat(NIL, one(w.args[0].args[1])))])
    return mk("upd", base, W)


TT.REBUILD["upd"] = mkupd
TT.REBUILD["set"] = mkset
TT.REBUILD["acc"] = mkacc


def _rb_ws(*ws):
    out = WNIL
    for w in ws:
        out = wapp(out, w)
    return out


def _rb_nest(dom, lm):
    v = fresh(bvtag_of(lm))
    r = mknest(dom, v, instantiate(lm, [v]))
    return r


TT.REBUILD["ws"] = _rb_ws
TT.REBUILD["nest"] = _rb_nest


def _rb_sum(dom, lm):
    v = fresh(bvtag_of(lm))
    return mksum(dom, v, instantiate(lm, [v]))


def _rb_comp(dom, lm):
    v = fresh(bvtag_of(lm))
    c, s = instantiate(lm, [v])
    return mkcomp(dom, v, ite(c, s, NIL))


def _rb_exists(dom, lm):
    v = fresh(bvtag_of(lm))
    return mkexists(dom, v, instantiate(lm, [v]))


TT.REBUILD["sum"] = _rb_sum
TT.REBUILD["comp"] = _rb_comp
TT.REBUILD["exists"] = _rb_exists


def step(c, p):
    if c.op == "ite":
        return ite(c.args[0], step(c.args[1], p), step(c.args[2], p))
    if c.op in ("copyof", "ndv"):
        return step(c.args[0], p)
    if p.op == "pg":
        if c.op == "newlist":
            return rd(c.args[0], (p,))
        if c.op == "newdict" or split_ty(kind(c) or "")[0] == "dict":
            return dget(c, p.args[0])
        return get(c, p.args[0])
    if p.op == "pd":
        if c.op in ("tab", "tseq") or split_ty(kind(c) or "")[0] == "table":
            return tval_of(c, p.args[0])
        return dget(c.args[0] if c.op == "newdict" else c, p.args[0])
    if c.op == "snap":
        for f in c.args[1:]:
            if f.args[0] == p.args[0]:
                return f.args[1]
        return step(c.args[0], p)
    if c.op == "new":
        for f in c.args[1:]:
            if f.args[0] == p.args[0]:
                return f.args[1]
    return attr(c, p.args[0])


def tval_of(c, k):
    from . import models
    return models.tval(c, k)


def rd(c, path):
    if not path:
        return c
    if c.op == "ite":
        return ite(c.args[0], rd(c.args[1], path), rd(c.args[2], path))
    if c.op == "upd":
        return rdw(c.args[1], path, c)
    return rd(step(c, path[0]), path[1:])


def rdw(W, path, c):
    if W.op == "ite":
        return ite(W.args[0], rdw(W.args[1], path, c), rdw(W.args[2], path, c))
    return _rdws(list(W.args), tuple(path), c)


def _rdws(ws, path, c):
    if not ws:
        return rd(c.args[0], path)
    w = ws[-1]
    if w.op in ("set", "acc"):
        cond, rel = pcmp(wpath(w), path)
        if cond is FALSE:
            return _rdws(ws[:-1], path, c)
        if rel == "eq":
            if w.op == "set":
                v = w.args[1]
            else:
                v = add(_rdws(ws[:-1], path, c), w.args[1])
        elif rel == "prefix":
            if w.op != "set":
                return mk("rd", c, mk("path", *path))
            v = rd(w.args[1], path[len(wpath(w)):])
        else:
            e = _rdws(ws[:-1], path, c)
            tail = mk("path", *wpath(w)[len(path):])
            nw = mkset(tail, w.args[1]) if w.op == "set" else mkacc(tail, w.args[1])
            if e.op == "newlist":
                v = mk("newlist", mkupd(e.args[0], wapp(WNIL, nw)))
            elif e.op == "new":
                return mk("rd", c, mk("path", *path))
            else:
                v = mkupd(e, wapp(WNIL, nw))
        if cond is TRUE:
            return v
        return ite(cond, v, _rdws(ws[:-1], path, c))
    # nest
    dom, lm = w.args
    v = fresh(bvtag_of(lm))
    body = instantiate(lm, [v])
    if not may_touch(body, path, v):
        return _rdws(ws[:-1], path, c)
    if path[0].op == "pg" and injective(body, v) and dom.op == "N":
        j = path[0].args[0]
        inner = rdw(instantiate(lm, [j]), path, mk("upd", _before(ws[:-1], c), WNIL_DUMMY))
        inn = lt(j, dom.args[0])
        if inn is TRUE or in_dom(j, dom):
            return inner
        return ite(inn, inner, _rdws(ws[:-1], path, c))
    return mk("rd", c, mk("path", *path))


WNIL_DUMMY = mk("ws", mk("set", mk("path", mk("pa", "$none")), NONE))


def _before(ws, c):
    return mkupd(c.args[0], mk("ws", *ws)) if ws else c.args[0]


def in_dom(j, dom):
    """index known to range over the domain (loop indices are tagged by their domain)"""
    return IDOM.get(j) is dom


IDOM = {}


def may_touch(W, path, v):
    if W.op == "ite":
        return may_touch(W.args[1], path, v) or may_touch(W.args[2], path, v)
    for w in W.args:
        if w.op == "nest":
            u = fresh(bvtag_of(w.args[1]))
            if may_touch(instantiate(w.args[1], [u]), path, v):
                return True
        else:
            c, r = pcmp(wpath(w), path)
            if c is not FALSE:
                return True
    return False


REBUILD["rd"] = lambda c, p: rd(c, p.args)


def pg(i):
    return TT.rebuild("pg", [i])


def root_path(c):
    """container -> (root, path elements); constant attribute chains stay in the root"""
    path = []
    x = c
    last = None
    while True:
        if x.op == "get":
            path.append(pg(x.args[1]))
            x = x.args[0]
            last = len(path)
        elif x.op in ("dget", "tget"):
            path.append(mk("pd", x.args[1]))
            x = x.args[0]
            last = len(path)
        elif x.op == "attr":
            path.append(mk("pa", x.args[1]))
            x = x.args[0]
        else:
            break
    if last is None:
        return c, ()
    # trailing attr chain below the innermost index belongs to the root
    keep = path[:last]
    x = c
    for _ in range(last):
        x = x.args[0]
    return x, tuple(reversed(keep))


class Out(object):
    """outcome of a block"""
    __slots__ = ("k", "st", "val")

    def __init__(self, k, st, val=NONE):
        self.k, self.st, self.val = k, st, val


class Interp(object):
    def __init__(self, prog, stubs=None, adt=True, opaque_mod=()):
        self.prog = prog
        self.stubs = stubs or {}
        self.adt = adt
        self.nref = 0
        self.nfid = 0
        self.nclo = 0
        self.pend = []
        self.clos = {}
        self.funcs = {}
        self.classes = {}
        self.stack = []
        self.opaque = []
        self.inlined = set()
        self.globals_memo = {}
        self.loops = 0
        self.calls = 0
        self.steps = 0
        self.max_steps = 400000
        self.effects = {}
        self.hooks = {}
        from . import models
        self.M = models.Models(self)

    # ---------------------------------------------------------- utilities
    def note(self, why, node=None, fr=None):
        loc = ""
        if fr is not None and node is not None and hasattr(node, "lineno"):
            loc = "%s:%d " % (fr.mod.name, node.lineno)
        self.opaque.append(loc + why)

    def newref(self, st, knd, content=None):
        self.nref += 1
        r = mk("ref", self.nref, knd)
        if content is not None:
            st.v[("c", r)] = content
        return r

    def newlist(self, st, content, knd="list"):
        return self.newref(st, knd, content)

    def newdict(self, st, content=DNIL):
        return self.newref(st, "dict", content)

    def fn(self, f, frame=None):
        """function value"""
        if frame is None:
            t = mk("fn", f.qual)
            self.funcs[t] = f
            return t
        self.nclo += 1
        t = mk("clo", self.nclo)
        self.clos[t] = (f, frame)
        return t

    def cls(self, c):
        t = mk("cls", c.qual)
        self.classes[t] = c
        return t

    def class_of(self, t):
        if t.op in ("new",):
            return self.prog.find_class(t.args[0])
        k = kind(t)
        if k and k.startswith("obj:"):
            return self.prog.find_class(k[4:])
        return None

    # ---------------------------------------------------------- state merge
    def merge(self, sts):
        sts = [s for s in sts if s is not None and s.pc is not FALSE]
        if not sts:
            return None
        r = sts[0]
        for s in sts[1:]:
            r = self.merge2(r, s)
        return r

    def slot_init(self, key):
        k = key[0]
        if k == "l":
            return UNDEF
        if k == "f":
            c = key[1]
            if c.op == "ref":
                b = None
                return UNDEF
            return attr(c, key[2])
        if k == "c":
            c = key[1]
            if c.op == "ref":
                return None
            return c
        if k == "x":
            if str(key[1]).startswith("log"):
                return NIL
            return ZERO
        return UNDEF

    def merge2(self, a, b):
        U = or_(a.pc, b.pc)
        d = under(a.pc, U)
        if d is TRUE:
            d = a.pc
        v = {}
        for k, va in a.v.items():
            vb = b.v.get(k)
            if vb is va:
                v[k] = va
                continue
            if vb is None:
                vb = self.slot_init(k)
                if vb is None or vb is UNDEF and k[0] == "f":
                    v[k] = va
                    continue
            v[k] = self.merge_val(d, va, vb)
        for k, vb in b.v.items():
            if k not in a.v:
                va = self.slot_init(k)
                if va is None or va is UNDEF and k[0] == "f":
                    v[k] = vb
                    continue
                v[k] = self.merge_val(d, va, vb)
        return State(v, U)

    def merge_val(self, d, a, b):
        if a is b:
            return a
        ua = a.args if a.op == "upd" else (a, WNIL)
        ub = b.args if b.op == "upd" else (b, WNIL)
        if (a.op == "upd" or b.op == "upd") and ua[0] is ub[0]:
            return mkupd(ua[0], ite(d, ua[1], ub[1]))
        return ite(d, a, b)

    # ---------------------------------------------------------- frames
    def frame(self, locs, parent, mod, cls, func=None):
        self.nfid += 1
        return Frame(self.nfid, locs, parent, mod, cls, func)

    def find_local(self, fr, name):
        f = fr
        while f is not None:
            if name in f.locals:
                return ("l", f.fid, name)
            f = f.parent
        return None

    def lookup(self, name, st, fr, node=None):
        key = self.find_local(fr, name)
        if key is not None:
            v = st.v.get(key, UNDEF)
            if v is not UNDEF:
                v = under(v, st.pc)
            if v is UNDEF:
                self.note("read of unassigned local %s" % name, node, fr)
                return mk("unbound", name)
            return v
        return self.global_name(fr.mod, name, st)

    def global_name(self, mod, name, st):
        gk = ("g", mod.name, name)
        if gk in st.v:
            return st.v[gk]
        r = self.prog.lookup(mod, name)
        if r is None:
            return self.M.builtin(name)
        k = r[0]
        if k == "func":
            return self.fn(r[1])
        if k == "class":
            return self.M.class_value(r[1])
        if k == "mod":
            return mk("mod", r[1])
        if k == "ext":
            return self.M.ext(r[1])
        # module-level expression
        m = r[2] if len(r) > 2 else mod
        key = (m.name, name)
        if key in self.globals_memo:
            return self.globals_memo[key]
        self.globals_memo[key] = mk("global", m.name, name)
        fr = self.frame(set(), None, m, None)
        s0 = State({}, TRUE)
        ex = r[1][1]
        try:
            v = self.ev(ex, s0, fr)
            if r[0] == "unpack" or r[1][0] == "unpack":
                v = get(v, num(r[1][2]))
            v = self.reify(v, s0)
            if not (is_const(v) or v.op in ("tuple", "fn", "cls", "mod", "ext", "logger", "poly", "newlist", "newdict")):
                k = kind(v)
                v = mk("global", m.name, name) if v.op != "logger" else v
                if k and k.startswith("obj:ext."):
                    declare(v, k)
        except Undecided:
            v = mk("global", m.name, name)
        self.pend = [p for p in self.pend if p.st is not s0]
        self.globals_memo[key] = v
        return v

    # ---------------------------------------------------------- statements
    def block(self, stmts, st, fr):
        outs = []
        cur = st
        for s in stmts:
            if cur is None or cur.pc is FALSE:
                cur = None
                break
            self.steps += 1
            if self.steps > self.max_steps:
                raise Undecided("analysis budget exhausted")
            save = self.pend
            self.pend = []
            rs = self.stmt(s, cur, fr)
            rs = rs + self.pend
            self.pend = save
            norm = []
            for o in rs:
                if o.st.pc is FALSE:
                    continue
                if o.k == "n":
                    norm.append(o.st)
                else:
                    outs.append(o)
            cur = self.merge(norm) if norm else None
        if cur is not None and cur.pc is not FALSE:
            outs.append(Out("n", cur))
        return outs

    def branch(self, c, st):
        c = under(c, st.pc)
        if c is TRUE or c is FALSE:
            return c, (st if c is TRUE else None), (st if c is FALSE else None)
        p1, p0 = and_(st.pc, c), and_(st.pc, not_(c))
        if p0 is FALSE:
            return TRUE, st, None
        if p1 is FALSE:
            return FALSE, None, st
        return c, State(dict(st.v), p1), State(st.v, p0)

    def cond(self, e, st, fr):
        return self.truth(self.ev(e, st, fr), st)

    def truth(self, v, st):
        v = self.rv(v, st)
        if v.op == "ite":
            a = v.args[0]
            return ite(a, self.truth(v.args[1], st), self.truth(v.args[2], st))
        if v.op in ("ref", "cp") or v.op in TEMPLATES:
            k = split_ty(kind(v) or "")[0]
            if k in ("list", "dict", "set"):
                return lt(ZERO, self.length(v, st))
            if v.op == "new" or (k and k.startswith("obj:")):
                return TRUE
        elif v.op in ("get", "attr", "dget", "sym", "var", "bv"):
            k = split_ty(kind(v) or "")[0]
            if k in ("list", "dict"):
                return lt(ZERO, self.length(v, st))
        return under(truth(v), st.pc)

    def stmt(self, s, st, fr):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.note("statement %s" % type(s).__name__, s, fr)
            raise Undecided("statement %s in %s" % (type(s).__name__, fr.mod.name))
        return m(s, st, fr)

    def s_Pass(self, s, st, fr):
        return [Out("n", st)]

    def s_Global(self, s, st, fr):
        return [Out("n", st)]
    s_Nonlocal = s_Global

    def s_Import(self, s, st, fr):
        for a in s.names:
            nm = a.asname or a.name.split(".")[0]
            st.v[("l", fr.fid, nm)] = mk("mod", a.name if a.asname else nm)
        return [Out("n", st)]

    def s_ImportFrom(self, s, st, fr):
        for a in s.names:
            base = s.module or ""
            m = self.prog.module(base)
            v = None
            if m is not None:
                r = self.prog.lookup(m, a.name)
                if r:
                    v = self.global_name(m, a.name, st)
            if v is None:
                full = base + "." + a.name
                v = mk("mod", full) if self.prog.module(full) or self.prog.is_pkg(full) else self.M.ext(full)
            st.v[("l", fr.fid, a.asname or a.name)] = v
        return [Out("n", st)]

    def s_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return [Out("n", st)]
        if isinstance(s.value, ast.Yield):
            v = self.ev(s.value.value, st, fr) if s.value.value is not None else NONE
            k = ("c", fr.gen)
            st.v[k] = cat(st.v[k], one(v))
            return [Out("n", st)]
        self.ev(s.value, st, fr)
        return [Out("n", st)]

    def s_Assert(self, s, st, fr):
        return [Out("n", st)]

    def s_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                k = self.find_local(fr, t.id)
                if k:
                    st.v[k] = UNDEF
            elif isinstance(t, ast.Subscript):
                c = self.ev(t.value, st, fr)
                k = self.ev(t.slice, st, fr)
                self.M.list_del(c, k, st)
        return [Out("n", st)]

    def s_FunctionDef(self, s, st, fr):
        f = Func(s, fr.mod, "%s.<locals>.%s" % (fr.func.qual if fr.func else fr.mod.name, s.name), fr.cls)
        self.set_defaults(f, st, fr)
        st.v[("l", fr.fid, s.name)] = self.fn(f, fr)
        return [Out("n", st)]

    def s_ClassDef(self, s, st, fr):
        c = Class(s, fr.mod, fr.mod.name + "." + s.name)
        st.v[("l", fr.fid, s.name)] = self.cls(c)
        return [Out("n", st)]

    def set_defaults(self, f, st, fr):
        pass

    def s_Return(self, s, st, fr):
        v = self.ev(s.value, st, fr) if s.value is not None else NONE
        return [Out("ret", st, v)]

    def s_Break(self, s, st, fr):
        return [Out("brk", st)]

    def s_Continue(self, s, st, fr):
        return [Out("cont", st)]

    def s_Raise(self, s, st, fr):
        if s.exc is None:
            return [Out("exc", st, mk("exc_t", "re"))]
        return [Out("exc", st, self.exc_type(s.exc, st, fr))]

    def exc_type(self, e, st, fr):
        c = e.func if isinstance(e, ast.Call) else e
        if isinstance(c, ast.Name):
            r = self.prog.lookup(fr.mod, c.id)
            if r and r[0] == "class":
                return mk("exc_t", r[1].qual)
            if self.find_local(fr, c.id) is None:
                return mk("exc_t", c.id)
        return mk("exc_t", "?")

    def s_If(self, s, st, fr):
        c = self.cond(s.test, st, fr)
        if st.pc is FALSE:
            return []
        c, a, b = self.branch(c, st)
        outs = []
        if a is not None:
            outs += self.block(s.body, a, fr)
        if b is not None:
            outs += self.block(s.orelse, b, fr) if s.orelse else [Out("n", b)]
        return outs

    def s_Assign(self, s, st, fr):
        v = self.ev(s.value, st, fr)
        for t in s.targets:
            self.assign(t, v, st, fr)
        return [Out("n", st)]

    def s_AnnAssign(self, s, st, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st, fr), st, fr)
        return [Out("n", st)]

    def s_AugAssign(self, s, st, fr):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, st, fr, t)
            v = self.ev(s.value, st, fr)
            nv = self.iop(s.op, old, v, st, fr, s)
            self.assign(t, nv, st, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st, fr)
            old = self.getattr(o, self.mangle(t.attr, fr), st, fr, t)
            v = self.ev(s.value, st, fr)
            self.setattr(o, self.mangle(t.attr, fr), self.iop(s.op, old, v, st, fr, s), st, fr)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st, fr)
            i = self.index(t.slice, st, fr)
            old = self.getitem(o, i, st, fr, t)
            v = self.ev(s.value, st, fr)
            self.setitem(o, i, self.iop(s.op, old, v, st, fr, s), st, fr)
        return [Out("n", st)]

    def iop(self, op, old, v, st, fr, node):
        if isinstance(op, ast.Add) and split_ty(kind(old) or "")[0] == "list" and old.op != "ite":
            self.M.list_extend(old, v, st)
            return old
        return self.binop(op, old, v, st, fr, node)

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            k = self.find_local(fr, t.id)
            if k is None:
                k = ("g", fr.mod.name, t.id)
            st.v[k] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    n = len(t.elts)
                    c = self.content(v, st)
                    hi = NONE if i == n - 1 else num(i - n + 1)
                    self.assign(e.value, self.newlist(st, slice_(c, num(i), hi)), st, fr)
                elif any(isinstance(x, ast.Starred) for x in t.elts[:i]):
                    self.assign(e, self.getitem(v, num(i - len(t.elts)), st, fr, t), st, fr)
                else:
                    self.assign(e, self.getitem(v, num(i), st, fr, t), st, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, st, fr), self.mangle(t.attr, fr), v, st, fr)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st, fr)
            if isinstance(t.slice, ast.Slice):
                self.M.slice_assign(o, t.slice, v, st, fr)
                return
            ix = self.index(t.slice, st, fr)
            if isinstance(t.value, ast.Name) and o.op in ("poly", "ite", "num") and is_cond(ix) and kind(o) in ("num", "int", "float"):
                # elementwise view of a[mask] = v on the result of array arithmetic
                self.assign(t.value, ite(ix, v, o), st, fr)
                return
            self.setitem(o, ix, v, st, fr)
        else:
            raise Undecided("assignment target")

    def s_With(self, s, st, fr):
        for it in s.items:
            v = self.ev(it.context_expr, st, fr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, fr)
        return self.block(s.body, st, fr)

    def s_Try(self, s, st, fr):
        """exceptions raised by repository code are caught precisely; an external
        call inside the body may raise (atom per handler set)"""
        entry = st.copy()
        self.M.try_depth += 1
        self.M.try_calls.append([])
        try:
            outs = self.block(s.body, st, fr)
        finally:
            self.M.try_depth -= 1
            ext = self.M.try_calls.pop()
        res = []
        hands = [(self.handler_names(h, fr), h) for h in s.handlers]
        norm = []
        for o in outs:
            if o.k == "exc":
                name = o.val.args[0] if o.val.op == "exc_t" else "?"
                for names, h in hands:
                    if names is None or name in names or "Exception" in names or "BaseException" in names:
                        if h.name:
                            o.st.v[("l", fr.fid, h.name)] = mk("exc", o.val)
                        res += self.block(h.body, o.st, fr)
                        break
                else:
                    res.append(o)
            elif o.k == "n" and s.orelse:
                res += self.block(s.orelse, o.st, fr)
            else:
                res.append(o)
        # possibly raising external operation: whole-body failure alternative
        if ext and hands:
            f = mk("exc", *sorted(set(ext), key=lambda t: t.h)[:4])
            res2 = []
            bad = entry.copy(f)
            for o in res:
                o.st.pc = and_(o.st.pc, not_(f))
                if o.st.pc is not FALSE:
                    res2.append(o)
            names, h = hands[0]
            if bad.pc is not FALSE:
                if h.name:
                    bad.v[("l", fr.fid, h.name)] = mk("exc_v", f)
                # effects inside the failed body are not modelled
                res2 += self.block(h.body, bad, fr)
            res = res2
        if s.finalbody:
            out = []
            for o in res:
                for o2 in self.block(s.finalbody, o.st, fr):
                    out.append(Out(o.k, o2.st, o.val) if o2.k == "n" else o2)
            res = out
        return res

    def handler_names(self, h, fr):
        if h.type is None:
            return None
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = set()
        for t in ts:
            if isinstance(t, ast.Name):
                r = self.prog.lookup(fr.mod, t.id)
                out.add(r[1].qual if r and r[0] == "class" else t.id)
            elif isinstance(t, ast.Attribute):
                out.add(t.attr)
        return out

    # ---------------------------------------------------------- loops
    def s_For(self, s, st, fr):
        it = self.ev(s.iter, st, fr)

        def body(stt, elem):
            self.assign(s.target, elem, stt, fr)
            return self.block(s.body, stt, fr)
        outs = self.iterate(it, st, body, fr, s)
        if s.orelse:
            res = []
            for o in outs:
                if o.k == "n0":
                    res += self.block(s.orelse, o.st, fr)
                else:
                    res.append(o)
            outs = res
        for o in outs:
            if o.k == "n0":
                o.k = "n"
        return outs

    def s_While(self, s, st, fr):
        def body(stt, i):
            save = self.pend
            self.pend = []
            c = self.cond(s.test, stt, fr)
            exc = self.pend
            self.pend = save
            outs = list(exc)
            if stt.pc is FALSE:
                return outs
            c, a, b = self.branch(c, stt)
            if b is not None:
                outs.append(Out("exit0", b))
            if a is not None:
                outs += self.block(s.body, a, fr)
            return outs
        outs = self.loop(INF, st, body, fr, s)
        if s.orelse:
            res = []
            for o in outs:
                if o.k == "n0":
                    res += self.block(s.orelse, o.st, fr)
                else:
                    res.append(o)
            outs = res
        for o in outs:
            if o.k == "n0":
                o.k = "n"
        return outs

    def iterate(self, it, st, body, fr, node=None):
        """for-loop over value it; body(state, element) -> outcomes"""
        it = under(it, st.pc)
        if it.op == "ite":
            c, a, b = self.branch(it.args[0], st)
            outs = []
            if a is not None:
                outs += self.iterate(it.args[1], a, body, fr, node)
            if b is not None:
                outs += self.iterate(it.args[2], b, body, fr, node)
            ns = [o.st for o in outs if o.k == "n0"]
            rest = [o for o in outs if o.k != "n0"]
            if ns:
                rest.append(Out("n0", self.merge(ns)))
            return rest
        segs = self.M.segments(it, st, fr)
        outs = []
        cur = st
        for seg in segs:
            if cur is None or cur.pc is FALSE:
                break
            if seg[0] in ("elem", "elemf"):
                save = self.pend
                self.pend = []
                el = seg[1] if seg[0] == "elem" else seg[2](seg[1], cur)
                rs = (body(cur, el) if cur.pc is not FALSE else []) + self.pend
                self.pend = save
                norm = []
                for o in rs:
                    if o.k in ("n", "cont"):
                        norm.append(o.st)
                    elif o.k == "brk":
                        outs.append(Out("n", o.st))
                    else:
                        outs.append(o)
                cur = self.merge(norm)
            elif seg[0] == "nest":
                _, dom, lm = seg

                def b3(stt, i, lm=lm):
                    g, q = instantiate(lm, [i])
                    c, a, b = self.branch(g, stt)
                    o2 = []
                    if b is not None:
                        o2.append(Out("n", b))
                    if a is not None:
                        for o in self.iterate(mk("seqv", q), a, body, fr, node):
                            if o.k == "n0":
                                o.k = "n"
                            elif o.k == "n":
                                o.k = "brk"
                            o2.append(o)
                    return o2
                rs = self.loop(dom, cur, b3, fr, node)
                cur = None
                for o in rs:
                    if o.k == "n0":
                        cur = o.st
                    else:
                        outs.append(o)
            else:
                _, dom, elemf, guard = seg

                def b2(stt, i, elemf=elemf, guard=guard):
                    if guard is not None:
                        g = guard(i, stt)
                        c, a, b = self.branch(g, stt)
                        o2 = []
                        if b is not None:
                            o2.append(Out("n", b))
                        if a is not None:
                            o2 += body(a, elemf(i, a))
                        return o2
                    return body(stt, elemf(i, stt))
                rs = self.loop(dom, cur, b2, fr, node)
                cur = None
                for o in rs:
                    if o.k == "n0":
                        cur = o.st
                    else:
                        outs.append(o)
        if cur is not None and cur.pc is not FALSE:
            outs.append(Out("n0", cur))
        return outs

    def loop(self, dom, st, body, fr, node=None):
        from . import loops
        return loops.run(self, dom, st, body, fr, node)

    # ---------------------------------------------------------- heap
    def cell(self, root, st):
        c = st.v.get(("c", root))
        if c is None and root.op in ("tab", "tseq"):
            return root
        return c

    def fields(self, c, st):
        return {k[2]: v for k, v in st.v.items() if k[0] == "f" and k[1] is c}

    def template(self, r, st, seen):
        if r in seen:
            return mk("cyc", kind(r) or "")
        k = kind(r) or ""
        h = split_ty(k)[0]
        seen = seen | {r}
        if k.startswith("obj:"):
            fs = self.fields(r, st)
            out = []
            for n in sorted(fs):
                out.append(mk("fld", n, self.reify(fs[n], st, seen)))
            base = st.v.get(("c", r))
            if base is not None:
                return mk("snap", self.reify(base, st, seen), *out) if out else self.reify(base, st, seen)
            return mk("new", k[4:], *out)
        c = st.v.get(("c", r))
        if c is None:
            return mk("lost", h)
        c = self.reify(c, st, seen)
        if h == "dict":
            return c if c.op == "newdict" else TT.rebuild("newdict", [c])
        if h == "ndarray":
            return c
        if h == "set":
            return TT.rebuild("newset", [c])
        return TT.rebuild("newlist", [c])

    def reify(self, v, st, seen=frozenset()):
        """value term with every reference replaced by a snapshot of what it refers to"""
        m = {}
        for x in v.fv:
            if x.op == "ref":
                m[x] = self.template(x, st, seen)
            elif x.op == "clo":
                m[x] = self.reify_clo(x, st, seen)
        cps = [x for x in v.fv if x.op == "cp"]
        for x in cps:
            m[x] = self.reify_cp(x, st, seen)
        if m:
            v = subst(v, m)
        return self.snap(v, st)

    def reify_cp(self, x, st, seen):
        c = st.v.get(("c", x))
        fs = self.fields(x, st)
        base = x.args[1]
        if c is not None and x in c.fv:
            c = subst(c, {x: base})      # an unchanged part of the copy is that part of the original
        b = self.reify(c if c is not None else base, st, seen)
        if fs:
            return mk("snap", b, *[mk("fld", n, self.reify(subst(fs[n], {x: base}), st, seen)) for n in sorted(fs)])
        return b

    def snap(self, v, st):
        """symbolic object whose own state has been changed: show the change"""
        if v.op not in ("sym", "attr", "get", "var", "dget", "tget"):
            return v
        fs = None
        for k, x in st.v.items():
            if k[0] == "f" and k[1] is v and x is not attr(v, k[2]):
                fs = fs or {}
                fs[k[2]] = x
        c = st.v.get(("c", v))
        if fs is None and (c is None or c is v):
            return v
        if ("$snap", v) in self.hooks:
            return v
        self.hooks[("$snap", v)] = 1
        try:
            out = [mk("fld", n, self.reify(fs[n], st)) for n in sorted(fs)] if fs else []
            b = v
            if c is not None and c is not v:
                b = self.reify(c, st)
            return mk("snap", b, *out) if out else b
        finally:
            del self.hooks[("$snap", v)]

    def reify_clo(self, x, st, seen):
        f, frame = self.clos[x]
        a = f.node.args
        ps = [fresh("p") for _ in a.args]
        if len(self.stack) > 40:
            return mk("fun", NONE)
        s2 = State(dict(st.v), TRUE)
        save, self.pend = self.pend, []
        try:
            r = self.call_func(f, frame, ps, {}, s2, None)
            r = self.reify(r, s2, seen)
        finally:
            self.pend = save
        return mk("fun", lam(ps, [r]))

    def reify_new(self, v, st, ctr):
        """replace references allocated after ctr by templates (loop bodies)"""
        m = {}
        for x in v.fv:
            if x.op == "ref" and x.args[0] > ctr:
                m[x] = self.template_new(x, st, ctr, frozenset())
            elif x.op == "cp" and abs(x.args[0]) > ctr:
                m[x] = self.template_cp(x, st, ctr, frozenset())
        return subst(v, m) if m else v

    def template_cp(self, x, st, ctr, seen):
        if x in seen:
            return mk("cyc", kind(x) or "")
        seen = seen | {x}
        c = st.v.get(("c", x))
        fs = self.fields(x, st)

        def rf(v):
            m = {}
            for y in v.fv:
                if y.op == "ref" and y.args[0] > ctr:
                    m[y] = self.template_new(y, st, ctr, seen)
                elif y.op == "cp" and abs(y.args[0]) > ctr and y is not x:
                    m[y] = self.template_cp(y, st, ctr, seen)
            return subst(v, m) if m else v
        # nested copies (fields of a deep copy) with their own changes
        if c is not None:
            h = split_ty(kind(x) or "")[0]
            c = rf(c)
            b = TT.rebuild({"dict": "newdict", "set": "newset", "ndarray": "ndv"}.get(h, "newlist"), [c])
        else:
            b = mk("copyof", rf(x.args[1]))
        for k2, v2 in st.v.items():
            if k2[0] in ("f", "c") and k2[1].op == "cp" and k2[1].args[0] == x.args[0] and k2[1] is not x:
                q = k2[1].args[1]
                if q.op == "attr" and q.args[0] is x.args[1] and q.args[1] not in fs:
                    fs[q.args[1]] = k2[1]
        if fs:
            return mk("snap", b, *[mk("fld", n, rf(fs[n])) for n in sorted(fs)])
        return b

    def template_new(self, r, st, ctr, seen):
        if r in seen:
            return mk("cyc", kind(r) or "")
        seen = seen | {r}

        def rf(v):
            m = {}
            for x in v.fv:
                if x.op == "ref" and x.args[0] > ctr:
                    m[x] = self.template_new(x, st, ctr, seen)
                elif x.op == "cp" and abs(x.args[0]) > ctr:
                    m[x] = self.template_cp(x, st, ctr, seen)
            return subst(v, m) if m else v
        k = kind(r) or ""
        h = split_ty(k)[0]
        if k.startswith("obj:"):
            fs = self.fields(r, st)
            out = [mk("fld", n, rf(fs[n])) for n in sorted(fs)]
            base = st.v.get(("c", r))
            if base is not None:
                return mk("snap", rf(base), *out) if out else rf(base)
            return mk("new", k[4:], *out)
        c = st.v.get(("c", r))
        if c is None:
            return mk("lost", h)
        c = rf(c)
        if h == "dict":
            return TT.rebuild("newdict", [c])
        if h == "ndarray":
            return TT.rebuild("ndv", [c])
        if h == "set":
            return TT.rebuild("newset", [c])
        return TT.rebuild("newlist", [c])

    def rv(self, v, st):
        """value of an address term used in a pure computation"""
        if v.op == "ref":
            if split_ty(kind(v))[0] == "ndarray":
                c = st.v[("c", v)]
                return self.rv(c, st) if c.fv else c
            return v
        if v.op in ("ndv", "copyof"):
            return v.args[0]
        if v.op == "cp":
            c = st.v.get(("c", v))
            if c is not None:
                return c
            if not self.fields(v, st):
                return self.rv(v.args[1], st)
            return v
        if v.op == "ite":
            a, b = self.rv(v.args[1], st), self.rv(v.args[2], st)
            return v if a is v.args[1] and b is v.args[2] else ite(v.args[0], a, b)
        return v

    def content(self, c, st):
        if c.op == "ite":
            a = c.args[0]
            return ite(a, self.content(c.args[1], st), self.content(c.args[2], st))
        if c.op == "ref":
            return st.v.get(("c", c), mk("lost", kind(c)))
        if c.op in ("newlist", "newdict", "newset", "ndv"):
            return c.args[0]
        if c.op == "tuple":
            return cat(NIL, *[one(x) for x in c.args])
        if c.op == "cp":
            x = st.v.get(("c", c))
            return x if x is not None else self.content(c.args[1], st)
        root, path = root_path(c)
        if root.op == "cp" and not path:
            return self.content(root, st)
        cell = self.cell(root, st)
        if cell is None:
            return c
        r = rd(cell, path)
        if r.op in ("newlist", "newdict", "newset"):
            return r.args[0]
        return r

    def length(self, v, st):
        v = under(v, st.pc)
        if v.op == "ite":
            return ite(v.args[0], self.length(v.args[1], st), self.length(v.args[2], st))
        if v.op == "str":
            return num(len(v.args[0]))
        if v.op == "tuple":
            return num(len(v.args))
        if TT.tuple_len(v) is not None:
            return num(TT.tuple_len(v))
        k = split_ty(kind(v) or "")[0]
        c = self.content(v, st)
        if k == "dict" or v.op == "newdict":
            return dlen(c)
        return self.seqlen(c)

    def seqlen(self, c):
        if c.op == "ite":
            return ite(c.args[0], self.seqlen(c.args[1]), self.seqlen(c.args[2]))
        if c.op == "upd":
            return self.seqlen(c.args[0])
        if c.op in ("dnil", "dput", "dcomp"):
            return dlen(c)
        if c.op == "tlist":
            return self.M.tcount(c.args[0])
        if c.op == "comp":
            return self.complen(c)
        if c.op == "cat":
            t = ZERO
            for p in c.args:
                t = add(t, ONE if p.op == "one" else self.seqlen(p))
            return t
        return length(c)

    def complen(self, c):
        dom, lm = c.args
        v = fresh(bvtag_of(lm))
        cc, s = instantiate(lm, [v])
        return mksum(dom, v, ite(cc, self.seqlen(s), ZERO))

    def getitem(self, c, i, st, fr=None, node=None):
        c = under(c, st.pc)
        i = under(self.rv(i, st), st.pc)
        if c.op == "ite":
            a = c.args[0]
            return ite(a, self.getitem(c.args[1], i, st, fr, node), self.getitem(c.args[2], i, st, fr, node))
        if i.op == "ite":
            a = i.args[0]
            return ite(a, self.getitem(c, i.args[1], st, fr, node), self.getitem(c, i.args[2], st, fr, node))
        if c.op == "tuple":
            return get(c, i)
        k = split_ty(kind(c) or "")[0]
        if k == "dict" or c.op == "newdict":
            return self.M.dict_get(c, i, st)
        if c.op == "cp" or c.op in ("sym", "attr", "get", "var", "bv", "dget", "tget", "call", "inp"):
            cell = None
            root, path = root_path(c)
            cell = self.cell(root, st)
            if cell is not None:
                e = rd(cell, path + (pg(i),)) if path else rd(cell, (pg(i),))
                if addr_like(e, cell):
                    return mk("get", c, i)
                if c.op == "cp" and e.op == "get" and not (kind(e) in IMMUT):
                    return mk("cp", c.args[0], e)
                return e
            if c.op == "cp":
                e = get(c.args[1], i)
                if kind(e) in IMMUT or c.args[0] < 0:
                    return e
                return mk("cp", c.args[0], e)
            if is_num(i) and i.args[0] < 0 and k in ("list",):
                i = add(length(c), i)
            return get(c, i)
        s = self.content(c, st)
        e = rd(s, (pg(i),)) if s.op == "upd" else get(s, i)
        if has_template(e) and (c.op == "ref" or root_path(c)[0].op == "ref"):
            return mk("get", c, i)
        if c.op == "ref" and e.op in ("get", "upd", "rd"):
            b = s
            while b.op == "upd":
                b = b.args[0]
            if b.op == "var" and mutk(kind(e)):
                return mk("get", c, i)
            if s.op == "upd":
                from .loops import skind
                if mutk(split_ty(skind(b) or "")[1]):
                    return mk("get", c, i)
        return e

    def getattr(self, o, name, st, fr=None, node=None):
        o = under(o, st.pc)
        if o.op == "ite":
            c, a, b = self.branch(o.args[0], st)
            if b is None:
                return self.getattr(o.args[1], name, st, fr, node)
            if a is None:
                return self.getattr(o.args[2], name, st, fr, node)
            x = self.getattr(o.args[1], name, a, fr, node)
            y = self.getattr(o.args[2], name, b, fr, node)
            st.set(self.merge([a, b]))
            return ite(c, x, y)
        if name in ("logger", "LOGGER") or o is LOGGERV:
            return LOGGERV
        if o.op == "mod":
            return self.M.mod_attr(o.args[0], name, st)
        if o.op in ("ext", "builtin") and name == "__name__":
            return const(o.args[0].split(".")[-1])
        if o.op == "ext":
            return self.M.ext(o.args[0] + "." + name)
        if o.op == "cls":
            c = self.classes[o]
            m = self.prog.method(c, name)
            if m is not None:
                t = self.fn(m)
                if m.kind == "classmethod":
                    return mk("bound", t, o)
                return t
            for cc in self.prog.mro(c):
                if name in cc.consts:
                    return self.class_const(cc, name)
            if name == "__name__":
                return const(c.name)
            return attr(o, name)
        if o.op == "new":
            for f in o.args[1:]:
                if f.args[0] == name:
                    return f.args[1]
        if o.op == "snap":
            for f in o.args[1:]:
                if f.args[0] == name:
                    return f.args[1]
            return self.getattr(o.args[0], name, st, fr, node)
        root, path = root_path(o)
        if path or o.op in ("get", "dget", "tget"):
            cell = self.cell(root, st)
            if cell is not None:
                base = rd(cell, path)
                if base.op == "ref":
                    return self.getattr(base, name, st, fr, node)
                if base.op == "ite" and any(l.op == "ref" for _, l in leaves(base)):
                    return self.getattr(base, name, st, fr, node)
                e = rd(cell, path + (mk("pa", name),))
                if e.op == "attr" and e.args[0] is base or e.op == "attr" and e.args[1] == name:
                    m = self.class_attr(base if base.op != "attr" else o, name, st, fr, o)
                    if m is not None:
                        return m
                if addr_like(e, cell):
                    return mk("attr", o, name)
                return e
        if name == "__dict__" and o.op == "ref":
            fs = [k[2] for k in st.v if k[0] == "f" and k[1] is o]
            if fs:
                d = DNIL
                for k in fs:
                    d = dput(d, const(k), self.getattr(o, k, st, fr, node))
                return self.newdict(st, d)
        v = st.v.get(("f", o, name))
        if v is not None:
            return under(v, st.pc)
        m = self.class_attr(o, name, st, fr, o)
        if m is not None:
            return m
        if o.op == "ref":
            b = st.v.get(("c", o))
            if (kind(o) or "").startswith("obj:") and b is not None:
                return self.getattr(b, name, st, fr, node)
            return self.M.ref_attr(o, name, st)
        if o.op == "cp":
            e = self.getattr(o.args[1], name, st, fr, node)
            if o.args[0] < 0 or kind(e) in IMMUT or is_const(e) or e.op in ("fn", "bound", "cls"):
                return e
            return mk("cp", o.args[0], e)
        return attr(o, name)

    def class_attr(self, o, name, st, fr, recv):
        c = self.class_of(o)
        if c is None:
            return None
        for cc in self.prog.mro(c):
            if name in cc.methods:
                f = cc.methods[name]
                if f.kind == "property":
                    return self.call_func(f, None, [recv], {}, st, fr)
                if f.kind == "staticmethod":
                    return self.fn(f)
                if f.kind == "classmethod":
                    return mk("bound", self.fn(f), self.cls(c))
                return mk("bound", self.fn(f), recv)
            if name in cc.consts:
                if any(name in c3.assigned() for c3 in self.prog.mro(c)) and o.op != "ref":
                    return None
                return self.class_const(cc, name)
        return None

    def class_const(self, cc, name):
        key = (cc.qual, name)
        if key not in self.globals_memo:
            s0 = State({}, TRUE)
            names = set(x.id for x in ast.walk(cc.consts[name]) if isinstance(x, ast.Name) and x.id in cc.consts and x.id != name)
            fr = self.frame(names, None, cc.mod, cc)
            self.globals_memo[key] = mk("global", cc.qual, name)
            for x in names:
                s0.v[("l", fr.fid, x)] = self.class_const(cc, x)
            v = self.reify(self.ev(cc.consts[name], s0, fr), s0)
            if kind(v) and kind(v).startswith("obj:ext."):
                v = declare(mk("global", cc.qual, name), kind(v))
            self.globals_memo[key] = v
        return self.globals_memo[key]

    def setattr(self, o, name, v, st, fr=None, node=None):
        o = under(o, st.pc)
        if o.op == "ite":
            c, a, b = self.branch(o.args[0], st)
            if b is None:
                return self.setattr(o.args[1], name, v, st, fr, node)
            if a is None:
                return self.setattr(o.args[2], name, v, st, fr, node)
            self.setattr(o.args[1], name, v, a, fr, node)
            self.setattr(o.args[2], name, v, b, fr, node)
            st.set(self.merge([a, b]))
            return
        if name in ("logger", "LOGGER"):
            return
        if "net:frozen" in self.stubs and self.stubs["net:frozen"](o):
            return
        c = self.class_of(o)
        if c is not None:
            for cc in self.prog.mro(c):
                if name in cc.setters:
                    self.call_func(cc.setters[name], None, [o, v], {}, st, fr)
                    return
        root, path = root_path(o)
        if path or o.op in ("get", "dget", "tget"):
            cell = st.v.get(("c", root), root if root.op != "ref" else None)
            if cell is not None:
                base = rd(cell, path)
                if base.op == "ref":
                    return self.setattr(base, name, v, st, fr, node)
                st.v[("c", root)] = self.write(cell, path + (mk("pa", name),), v)
                return
        if o.op in ("new", "snap", "newlist"):
            self.note("write to a value object field %s" % name, node, fr)
            return
        st.v[("f", o, name)] = v

    def write(self, cell, path, v):
        old = rd(cell, path)
        p = TT.rebuild("path", list(path))
        if v is old:
            return cell
        if not has_template(v) and v.op not in ("ref", "tuple", "str", "none", "true", "false", "ite", "num") and not is_seqk(v):
            d = sub(v, old)
            if not contains(d, lambda t: t is old) and old.op not in ("num", "none") and not contains_var_only(d, v):
                return mkupd(cell, wapp(WNIL, mkacc(p, d)))
            if is_num(old) and old is ZERO:
                pass
        if v.op == "ite" and all(l is old or (l.op == "poly" and not is_seqk(l)) for _, l in leaves(v)):
            d = sub(v, old)
            if not contains(d, lambda t: t is old) and old.op not in ("num", "none"):
                return mkupd(cell, wapp(WNIL, mkacc(p, d)))
        return mkupd(cell, wapp(WNIL, mkset(p, v)))

    def setitem(self, c, i, v, st, fr=None, node=None):
        c = under(c, st.pc)
        i = self.rv(i, st)
        if c.op == "ite" or i.op == "ite":
            d = c if c.op == "ite" else i
            cc, a, b = self.branch(d.args[0], st)
            for s, k in ((a, 1), (b, 2)):
                if s is not None:
                    if c.op == "ite":
                        self.setitem(c.args[k], i, v, s, fr, node)
                    else:
                        self.setitem(c, i.args[k], v, s, fr, node)
            st.set(self.merge([s for s in (a, b) if s is not None]))
            return
        k = split_ty(kind(c) or "")[0]
        if c.op == "ref":
            s = st.v[("c", c)]
            if k == "dict":
                st.v[("c", c)] = dput(s, i, v)
                return
            if s.op == "cat" and is_num(i) and all(p.op == "one" for p in s.args):
                n = int(i.args[0])
                if -len(s.args) <= n < len(s.args):
                    ps = list(s.args)
                    ps[n] = one(v)
                    st.v[("c", c)] = cat(NIL, *ps)
                    return
            st.v[("c", c)] = self.write(s, (pg(i),), v)
            return
        if c.op in ("newlist", "newdict", "tuple"):
            self.note("write to a value container", node, fr)
            return
        root, path = root_path(c)
        cell = st.v.get(("c", root), root)
        if k == "dict" and not path:
            st.v[("c", root)] = dput(cell, i, v)
            return
        base = rd(cell, path)
        if base.op == "ref":
            return self.setitem(base, i, v, st, fr, node)
        if (k == "dict" or base.op == "newdict") and path:
            inner = base.args[0] if base.op == "newdict" else base
            st.v[("c", root)] = mkupd(cell, wapp(WNIL, mkset(TT.rebuild("path", list(path)), mk("newdict", dput(inner, i, v)))))
            return
        st.v[("c", root)] = self.write(cell, path + (pg(i),), v)

    # ---------------------------------------------------------- calls
    def unstar(self, args, st):
        """spliced sequences of known length are their elements; a choice between sequences stays for the caller to split"""
        out = []
        for x in args:
            if x.op != "star":
                out.append(x)
                continue
            v = under(x.args[0], st.pc)
            c = self.content(v, st) if v.op != "ite" else v
            if v.op == "tuple":
                out.extend(v.args)
            elif c.op == "cat" and all(p.op == "one" for p in c.args):
                out.extend(p.args[0] for p in c.args)
            else:
                out.append(mk("star", v))
        return out

    def starsplit(self, again, args, st):
        for i, x in enumerate(args):
            if x.op == "star" and x.args[0].op == "ite":
                d = x.args[0]
                c, a, b = self.branch(d.args[0], st)
                go = lambda k, s: again(args[:i] + [mk("star", d.args[k])] + args[i + 1:], s)
                if b is None:
                    return go(1, st)
                if a is None:
                    return go(2, st)
                u, w = go(1, a), go(2, b)
                st.set(self.merge([a, b]))
                return ite(c, u, w)

    def call(self, f, args, kw, st, fr=None, node=None):
        f = under(f, st.pc)
        if any(x.op == "star" for x in args):
            args = self.unstar(args, st)
            r = self.starsplit(lambda xs, s: self.call(f, xs, kw, s, fr, node), args, st)
            if r is not None:
                return r
        if f.op == "ite":
            c, a, b = self.branch(f.args[0], st)
            if b is None:
                return self.call(f.args[1], args, kw, st, fr, node)
            if a is None:
                return self.call(f.args[2], args, kw, st, fr, node)
            x = self.call(f.args[1], args, kw, a, fr, node)
            y = self.call(f.args[2], args, kw, b, fr, node)
            st.set(self.merge([a, b]))
            return ite(c, x, y)
        o = f.op
        if f is LOGGERV:
            return LOGGERV
        if o == "fn":
            return self.call_func(self.funcs[f], None, args, kw, st, fr, node)
        if o == "clo":
            g, frame = self.clos[f]
            return self.call_func(g, frame, args, kw, st, fr, node)
        if o == "bound":
            return self.call(f.args[0], [f.args[1]] + args, kw, st, fr, node)
        if o == "part":
            k2 = {x.args[0]: x.args[1] for x in f.args[2].args}
            k2.update(kw)
            return self.call(f.args[0], list(f.args[1].args) + args, k2, st, fr, node)
        if o == "cls":
            return self.construct(self.classes[f], args, kw, st, fr, node)
        if o == "mbound":
            return self.callmethod(f.args[0], f.args[1], args, kw, st, fr, node)
        if o == "builtin" or o == "ext":
            return self.M.call(f, args, kw, st, fr, node)
        return self.M.call_unknown(f, args, kw, st, fr, node)

    def construct(self, c, args, kw, st, fr, node):
        q = c.qual
        if q in self.stubs:
            r = self.stubs[q](self, c, args, kw, st, fr, node)
            if r is not None:
                return r
        if self.adt and c.name == "DTable":
            return self.M.new_table(args, kw, st)
        r = self.newref(st, "obj:" + q)
        init = self.prog.method(c, "__init__")
        if init is not None:
            self.call_func(init, None, [r] + args, kw, st, fr, node)
        elif args or kw:
            pass
        return r

    def bind(self, f, args, kw, st, frame):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        if args and args[-1].op == "star" and a.vararg is None and not any(x.op == "star" for x in args[:-1]):
            # one spliced sequence that has to fill all remaining parameters
            rest = [n for n in names[len(args) - 1:] if n not in kw]
            if not set(rest) & set(names[len(names) - len(a.defaults):]) and rest == names[len(args) - 1:][:len(rest)]:
                v = args[-1].args[0]
                args = list(args[:-1]) + [self.getitem(v, num(i), st) for i in range(len(rest))]
        for n, v in zip(names, args):
            out[n] = v
        if a.vararg is not None:
            out[a.vararg.arg] = mk("tuple", *args[len(names):])
        elif len(args) > len(names):
            self.note("too many arguments for %s" % f.qual)
        extra = {}
        for k, v in kw.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in out and k in names[:len(args)]:
                    self.note("duplicate argument %s for %s" % (k, f.qual))
                out[k] = v
            else:
                extra[k] = v
        if a.kwarg is not None:
            d = DNIL
            for k in sorted(extra):
                d = dput(d, const(k), extra[k])
            out[a.kwarg.arg] = self.newdict(st, d)
        elif extra:
            self.note("unexpected argument %s for %s" % (sorted(extra), f.qual))
        defs = a.defaults
        dfr = frame if frame is not None else self.frame(set(), None, f.mod, f.cls)
        for n, d in zip(names[len(names) - len(defs):], defs):
            if n not in out:
                out[n] = self.ev(d, st, dfr)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in out and d is not None:
                out[x.arg] = self.ev(d, st, dfr)
        for n in names:
            if n not in out:
                self.note("missing argument %s for %s" % (n, f.qual))
                out[n] = mk("unbound", n)
        order = names + ([a.vararg.arg] if a.vararg is not None else []) + [x.arg for x in a.kwonlyargs] + ([a.kwarg.arg] if a.kwarg is not None else [])
        return names, {n: out[n] for n in order if n in out}

    def call_func(self, f, frame, args, kw, st, fr=None, node=None):
        self.calls += 1
        if f.qual in self.stubs:
            r = self.stubs[f.qual](self, f, args, kw, st, fr, node)
            if r is not None:
                return r
        if sum(1 for x in self.stack if x is f.node) >= 1:
            _, b = self.bind(f, args, kw, st, frame)
            return mk("call", "rec", *[self.reify(b[k], st) for k in b])
        if len(self.stack) > 60:
            raise Undecided("call depth in %s" % f.qual)
        self.inlined.add(f.qual)
        names, b = self.bind(f, args, kw, st, frame)
        if isinstance(f.node, ast.Lambda):
            locs = stored_names([], f.node.args)
        else:
            key = f.node
            if key not in _LOCS:
                _LOCS[key] = stored_names(f.node.body, f.node.args)
            locs = _LOCS[key]
        nf = self.frame(locs, frame, f.mod, f.cls, f)
        if names:
            nf.selfv = b[names[0]]
        for k, v in b.items():
            st.v[("l", nf.fid, k)] = v
        self.stack.append(f.node)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, st, nf)
            if is_gen(f.node):
                nf.gen = self.newlist(st, NIL)
            outs = self.block(f.node.body, st, nf)
        finally:
            self.stack.pop()
        rets = []
        for o in outs:
            if o.k in ("n", "ret"):
                o.st.v[("l", nf.fid, "$ret")] = o.val if o.k == "ret" else NONE
                rets.append(o.st)
            elif o.k == "exc":
                self.pend.append(o)
        m = self.merge(rets)
        if m is None:
            st.pc = FALSE
            return BOT
        val = m.v.pop(("l", nf.fid, "$ret"))
        st.set(m)
        if self.nclo_free(nf):
            for k in [k for k in st.v if k[0] == "l" and k[1] == nf.fid]:
                del st.v[k]
        if nf.gen is not None:
            return nf.gen
        return val

    def nclo_free(self, nf):
        for f, frame in list(self.clos.values())[-50:]:
            x = frame
            while x is not None:
                if x is nf:
                    return False
                x = x.parent
        return True

    def callmethod(self, recv, name, args, kw, st, fr=None, node=None):
        recv = under(recv, st.pc)
        if recv is LOGGERV:
            return LOGGERV
        if any(x.op == "star" for x in args):
            args = self.unstar(args, st)
            r = self.starsplit(lambda xs, s: self.callmethod(recv, name, xs, kw, s, fr, node), args, st)
            if r is not None:
                return r
        if recv.op == "ite":
            c, a, b = self.branch(recv.args[0], st)
            if b is None:
                return self.callmethod(recv.args[1], name, args, kw, st, fr, node)
            if a is None:
                return self.callmethod(recv.args[2], name, args, kw, st, fr, node)
            x = self.callmethod(recv.args[1], name, args, kw, a, fr, node)
            y = self.callmethod(recv.args[2], name, args, kw, b, fr, node)
            st.set(self.merge([a, b]))
            return ite(c, x, y)
        if recv.op in ("mod", "ext", "cls"):
            return self.call(self.getattr(recv, name, st, fr, node), args, kw, st, fr, node)
        h = self.M.method(recv, name, args, kw, st, fr, node)
        if h is not None:
            return h
        v = self.getattr(recv, name, st, fr, node)
        if v.op in ("bound", "fn", "clo", "part", "cls", "ite", "logger", "ext", "builtin", "mbound"):
            return self.call(v, args, kw, st, fr, node)
        return self.M.call_unknown_method(recv, name, v, args, kw, st, fr, node)

    # ---------------------------------------------------------- expressions
    def mangle(self, name, fr):
        if name.startswith("__") and not name.endswith("__") and fr.cls is not None:
            return "_" + fr.cls.name.lstrip("_") + name
        return name

    def ev(self, e, st, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Undecided("expression %s" % type(e).__name__)
        if st.pc is FALSE:
            return BOT
        return m(e, st, fr)

    def e_Constant(self, e, st, fr):
        return const(e.value)

    def e_Name(self, e, st, fr):
        return self.lookup(e.id, st, fr, e)

    def e_Tuple(self, e, st, fr):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self.newlist(st, self.elts(e, st, fr), "tuple")
        return mk("tuple", *[self.ev(x, st, fr) for x in e.elts])

    def elts(self, e, st, fr):
        parts = [NIL]
        for x in e.elts:
            if isinstance(x, ast.Starred):
                parts.append(self.M.as_seq(self.ev(x.value, st, fr), st, fr))
            else:
                parts.append(self.oneof(self.ev(x, st, fr)))
        return cat(*parts)

    def oneof(self, v):
        return mk("one", v) if top(v) is None else one(v)

    def e_List(self, e, st, fr):
        return self.newlist(st, self.elts(e, st, fr))

    def e_Set(self, e, st, fr):
        return self.newref(st, "set", self.elts(e, st, fr))

    def e_Dict(self, e, st, fr):
        d = DNIL
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.ev(v, st, fr)
                d = self.M.dict_merge(d, self.content(src, st))
            else:
                kk = self.rv(self.ev(k, st, fr), st)
                d = dput(d, kk, self.ev(v, st, fr))
        return self.newdict(st, d)

    def e_Attribute(self, e, st, fr):
        o = self.ev(e.value, st, fr)
        return self.getattr(o, self.mangle(e.attr, fr), st, fr, e)

    def index(self, s, st, fr):
        if isinstance(s, ast.Slice):
            return self.slice_val(s, st, fr)
        return self.ev(s, st, fr)

    def slice_val(self, s, st, fr):
        f = lambda x: NONE if x is None else self.rv(self.ev(x, st, fr), st)
        return mk("sl", f(s.lower), f(s.upper), f(s.step))

    def e_Subscript(self, e, st, fr):
        c = self.ev(e.value, st, fr)
        if isinstance(e.slice, ast.Slice):
            return self.M.slice_read(c, self.slice_val(e.slice, st, fr), st, fr)
        i = self.ev(e.slice, st, fr)
        return self.getitem(c, i, st, fr, e)

    def e_IfExp(self, e, st, fr):
        c = self.cond(e.test, st, fr)
        c, a, b = self.branch(c, st)
        if b is None:
            return self.ev(e.body, st, fr)
        if a is None:
            return self.ev(e.orelse, st, fr)
        x = self.ev(e.body, a, fr)
        y = self.ev(e.orelse, b, fr)
        m = self.merge([a, b])
        if m is None:
            st.pc = FALSE
            return BOT
        st.set(m)
        return ite(c, x, y)

    def e_BoolOp(self, e, st, fr):
        isand = isinstance(e.op, ast.And)
        return self.boolop(isand, e.values, st, fr)

    def boolop(self, isand, vals, st, fr):
        v = self.ev(vals[0], st, fr)
        if len(vals) == 1:
            return v
        t = self.truth(v, st)
        g = t if isand else not_(t)
        c, a, b = self.branch(g, st)
        if a is None:
            return v
        if b is None:
            return self.boolop(isand, vals[1:], st, fr)
        w = self.boolop(isand, vals[1:], a, fr)
        m = self.merge([a, b])
        st.set(m)
        # keep pure conditions as conditions
        if self.isbool(v):
            v = self.truth(v, st)
        if self.isbool(w):
            w = self.truth(w, st)
        return ite(c, w, v)

    def isbool(self, v):
        if v.op == "ite":
            return self.isbool(v.args[1]) and self.isbool(v.args[2])
        return v in (TRUE, FALSE) or kind(v) == "bool"

    def e_UnaryOp(self, e, st, fr):
        v = self.ev(e.operand, st, fr)
        if isinstance(e.op, ast.Not):
            return not_(self.truth(v, st))
        v = self.rv(v, st)
        if isinstance(e.op, ast.USub):
            return self.arith1(v, st, fr, e)
        if isinstance(e.op, ast.UAdd):
            return v
        return call("invert~", v)

    def arith1(self, v, st, fr, e):
        c = self.class_of(v)
        if c is not None and self.prog.method(c, "__neg__"):
            return self.callmethod(v, "__neg__", [], {}, st, fr, e)
        return neg(self.num(v))

    def num(self, v):
        if v is TRUE:
            return ONE
        if v is FALSE:
            return ZERO
        if v.op in BOOL_OPS:
            return ite(v, ONE, ZERO)
        if v.op == "ite" and self.isbool(v):
            return ite(v, ONE, ZERO)
        if v.op == "var" and kind(v) == "bool":
            return ite(truth(v), ONE, ZERO)
        return v

    OPM = {ast.Add: "__add__", ast.Sub: "__sub__", ast.Mult: "__mul__", ast.Div: "__truediv__", ast.FloorDiv: "__floordiv__",
           ast.Mod: "__mod__", ast.Pow: "__pow__"}

    def e_BinOp(self, e, st, fr):
        a = self.ev(e.left, st, fr)
        b = self.ev(e.right, st, fr)
        return self.binop(e.op, a, b, st, fr, e)

    def binop(self, op, a, b, st, fr, node):
        a, b = self.rv(a, st), self.rv(b, st)
        for x in (a, b):
            if x.op == "ite" and any(l.op == "ref" or (kind(l) or "").startswith("obj:") for _, l in leaves(x)):
                c, s1, s2 = self.branch(x.args[0], st)
                if s2 is None or s1 is None:
                    k = 1 if s2 is None else 2
                    return self.binop(op, x.args[k] if x is a else a, x.args[k] if x is b else b, st, fr, node)
                u = self.binop(op, x.args[1] if x is a else a, x.args[1] if x is b else b, s1, fr, node)
                w = self.binop(op, x.args[2] if x is a else a, x.args[2] if x is b else b, s2, fr, node)
                st.set(self.merge([s1, s2]))
                return ite(c, u, w)
        nm = self.OPM.get(type(op))
        ca = self.class_of(a)
        if nm and ca is not None and self.prog.method(ca, nm):
            return self.callmethod(a, nm, [b], {}, st, fr, node)
        cb = self.class_of(b)
        if nm and cb is not None:
            rn = "__r" + nm[2:]
            if self.prog.method(cb, rn):
                return self.callmethod(b, rn, [a], {}, st, fr, node)
        return self.M.binop(op, a, b, st, fr, node)

    def e_Compare(self, e, st, fr):
        a = self.ev(e.left, st, fr)
        r = TRUE
        for op, x in zip(e.ops, e.comparators):
            b = self.ev(x, st, fr)
            r = and_(r, self.compare(op, a, b, st, fr, e))
            a = b
        return r

    def compare(self, op, a, b, st, fr, node):
        o = type(op)
        a, b = self.rv(a, st), self.rv(b, st)
        if o in (ast.Is, ast.IsNot):
            c = self.identical(a, b)
            return not_(c) if o is ast.IsNot else c
        if o in (ast.In, ast.NotIn):
            c = self.M.contains(b, a, st, fr)
            return not_(c) if o is ast.NotIn else c
        if o in (ast.Eq, ast.NotEq):
            c = self.equal(a, b, st, fr, node)
            return not_(c) if o is ast.NotEq else c
        cl = self.class_of(a)
        nm = {ast.Lt: "__lt__", ast.LtE: "__le__", ast.Gt: "__gt__", ast.GtE: "__ge__"}[o]
        if cl is not None and self.prog.method(cl, nm):
            return self.truth(self.callmethod(a, nm, [b], {}, st, fr, node), st)
        a, b = self.reify(self.num(a), st), self.reify(self.num(b), st)
        if o is ast.Lt:
            return under(lt(a, b), st.pc)
        if o is ast.LtE:
            return under(le(a, b), st.pc)
        if o is ast.Gt:
            return under(lt(b, a), st.pc)
        return under(le(b, a), st.pc)

    def identical(self, a, b):
        if a.op == "ite" or b.op == "ite":
            x = a if a.op == "ite" else b
            return ite(x.args[0], self.identical(x.args[1] if x is a else a, x.args[1] if x is b else b),
                       self.identical(x.args[2] if x is a else a, x.args[2] if x is b else b))
        if a.op in ("ref", "cp") or b.op in ("ref", "cp"):
            return const(a is b)
        return eq(a, b)

    def equal(self, a, b, st, fr, node):
        if a.op == "ite" or b.op == "ite":
            x = a if a.op == "ite" else b
            return ite(x.args[0], self.equal(x.args[1] if x is a else a, x.args[1] if x is b else b, st, fr, node),
                       self.equal(x.args[2] if x is a else a, x.args[2] if x is b else b, st, fr, node))
        ca = self.class_of(a)
        if ca is not None and self.prog.method(ca, "__eq__"):
            return self.truth(self.callmethod(a, "__eq__", [b], {}, st, fr, node), st)
        if a.op == "ref" and b.op == "ref" and a is not b:
            a, b = self.reify(a, st), self.reify(b, st)
        elif a.op == "ref":
            a = self.reify(a, st)
        elif b.op == "ref":
            b = self.reify(b, st)
        return under(eq(a, b), st.pc)

    def e_Lambda(self, e, st, fr):
        f = Func(e, fr.mod, fr.mod.name + ".<lambda>", fr.cls)
        return self.fn(f, fr)

    def e_JoinedStr(self, e, st, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.rv(self.ev(v.value, st, fr), st)
                spec = ""
                if v.format_spec is not None:
                    sp = self.rv(self.ev(v.format_spec, st, fr), st)
                    if sp.op != "str":
                        parts.append(call("fmtspec", self.reify(x, st), self.reify(sp, st)))
                        continue
                    spec = sp.args[0]
                parts.append(self.M.fmt1(self.reify(x, st), spec, v.conversion))
        return self.M.strcat(parts)

    def e_NamedExpr(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        self.assign(e.target, v, st, fr)
        return v

    def e_Starred(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def comp_run(self, gens, st, fr, leaf):
        locs = set()
        for g in gens:
            locs |= stored_names([ast.Expr(g.target)])
        nf = self.frame(locs, fr, fr.mod, fr.cls, fr.func)
        nf.selfv = fr.selfv

        def go(i, s, cfr):
            if i == len(gens):
                leaf(s, nf)
                return [Out("n", s)]
            g = gens[i]
            it = self.ev(g.iter, s, fr if i == 0 else nf)

            def body(s2, elem):
                self.assign(g.target, elem, s2, nf)
                outs = []
                cur = s2
                for t in g.ifs:
                    c = self.cond(t, cur, nf)
                    c, a, b = self.branch(c, cur)
                    if b is not None:
                        outs.append(Out("n", b))
                    cur = a
                    if cur is None:
                        break
                if cur is not None:
                    outs += go(i + 1, cur, nf)
                return outs
            outs = self.iterate(it, s, body, nf)
            for o in outs:
                if o.k == "n0":
                    o.k = "n"
            return outs
        outs = go(0, st, nf)
        m = self.merge([o.st for o in outs if o.k == "n"])
        for o in outs:
            if o.k == "exc":
                self.pend.append(o)
        if m is None:
            st.pc = FALSE
        else:
            for k in [k for k in m.v if k[0] == "l" and k[1] == nf.fid]:
                if self.nclo_free(nf):
                    del m.v[k]
            st.set(m)

    def e_ListComp(self, e, st, fr):
        r = self.newlist(st, NIL)

        def leaf(s, nf):
            v = self.ev(e.elt, s, nf)
            s.v[("c", r)] = cat(s.v[("c", r)], self.oneof(v))
        self.comp_run(e.generators, st, fr, leaf)
        return r
    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, st, fr):
        l = self.e_ListComp(e, st, fr)
        return self.newref(st, "set", self.content(l, st))

    def e_DictComp(self, e, st, fr):
        r = self.newdict(st)

        def leaf(s, nf):
            k = self.rv(self.ev(e.key, s, nf), s)
            v = self.ev(e.value, s, nf)
            s.v[("c", r)] = dput(s.v[("c", r)], k, v)
        self.comp_run(e.generators, st, fr, leaf)
        return r

    def e_Await(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def e_Call(self, e, st, fr):
        # super()
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call) and isinstance(e.func.value.func, ast.Name) \
                and e.func.value.func.id == "super":
            return self.super_call(e, st, fr)
        if isinstance(e.func, ast.Attribute):
            recv = self.ev(e.func.value, st, fr)
            name = self.mangle(e.func.attr, fr)
            if recv is LOGGERV:
                return LOGGERV
            args, kw = self.args(e, st, fr)
            return self.callmethod(recv, name, args, kw, st, fr, e)
        if isinstance(e.func, ast.Name) and e.func.id == "print" and self.find_local(fr, "print") is None:
            return NONE
        f = self.ev(e.func, st, fr)
        args, kw = self.args(e, st, fr)
        return self.call(f, args, kw, st, fr, e)

    def args(self, e, st, fr):
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st, fr)
                c = self.content(v, st)
                if v.op == "tuple":
                    args.extend(v.args)
                elif c.op == "cat" and all(p.op == "one" for p in c.args):
                    args.extend(p.args[0] for p in c.args)
                else:
                    args.append(mk("star", v))
            else:
                args.append(self.ev(a, st, fr))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                v = self.ev(k.value, st, fr)
                d = self.content(v, st)
                while d.op == "dput" and d.args[1].op == "str":
                    kw.setdefault(d.args[1].args[0], d.args[2])
                    d = d.args[0]
                if d is not DNIL:
                    kw["**"] = mk("starstar", v)
            else:
                kw[k.arg] = self.ev(k.value, st, fr)
        return args, kw

    def super_call(self, e, st, fr):
        f = fr
        while f is not None and (f.func is None or f.cls is None or isinstance(f.func.node, ast.Lambda) or f.selfv is None):
            f = f.parent
        name = e.func.attr
        args, kw = self.args(e, st, fr)
        if f is None:
            return NONE
        recv = f.selfv
        rc = self.class_of(recv) or f.cls
        mro = self.prog.mro(rc)
        if f.cls in mro:
            mro = mro[mro.index(f.cls) + 1:]
        else:
            mro = self.prog.mro(f.cls)[1:]
        for c in mro:
            if name in c.methods:
                m = c.methods[name]
                a = args if m.kind == "staticmethod" else [recv] + args
                return self.call_func(m, None, a, kw, st, fr, e)
        if name in ("__init__",):
            return NONE
        return self.M.call_unknown_method(mk("super", recv), name, NONE, args, kw, st, fr, e)


def contains_var_only(d, v):
    return False


TT.GETX["upd"] = lambda s, i: rd(s, (pg(i),))
TT.GETX["newlist"] = lambda s, i: (rd(s.args[0], (pg(i),)) if s.args[0].op == "upd" else get(s.args[0], i))


def _rb_newlist(c):
    if c.op == "ite":
        return ite(c.args[0], _rb_newlist(c.args[1]), _rb_newlist(c.args[2]))
    return mk("newlist", c)


TT.REBUILD["newlist"] = _rb_newlist


def lift1(opn):
    def f(c, *rest):
        if c.op == "ite":
            return ite(c.args[0], f(c.args[1], *rest), f(c.args[2], *rest))
        return mk(opn, c, *rest)
    return f


TT.REBUILD["newdict"] = lift1("newdict")
TT.REBUILD["newset"] = lift1("newset")
_ndv = lift1("ndv")
# a copy of an array nobody wrote to equals the array; whether they share storage is alias.py's question
TT.REBUILD["ndv"] = lambda c, *r: c if c.op in ("sym", "attr", "var", "bv") and kind(c) and kind(c).split("[")[0] == "ndarray" else _ndv(c, *r)
