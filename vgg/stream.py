"""Byte-stream analysis: an abstract interpreter for receive functions.

Ghost variable R = number of bytes taken from the connection so far.  Integers are linear
expressions over ghost and unknown quantities, byte strings are segments S[a:b] of the incoming
stream, and a state carries a set of linear constraints (a polyhedron).  Loops are summarised by an
inductive invariant: candidate relations are generated from the entry state and the comparisons of
the loop, and those an iteration does not preserve are removed until a fixpoint is reached."""
import ast
import copy
from math import gcd


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------ linear expressions
def L(c=0, **kw):
    d = {k: v for k, v in kw.items() if v}
    d[""] = c
    return d


def ladd(a, b, k=1):
    d = dict(a)
    for x, v in b.items():
        d[x] = d.get(x, 0) + k * v
    return {x: v for x, v in d.items() if v or x == ""}


def lsub(a, b):
    return ladd(a, b, -1)


def lscale(a, k):
    return {x: v * k for x, v in a.items() if v * k or x == ""}


def lvar(n):
    return {n: 1, "": 0}


def lkey(a):
    return tuple(sorted((k, v) for k, v in a.items() if v))


def lshow(a):
    t = []
    for k, v in sorted(a.items()):
        if v and k:
            t.append(k if v == 1 else "-" + k if v == -1 else "%s*%s" % (v, k))
    if a.get("") or not t:
        t.append(str(a.get("", 0)))
    return " + ".join(t).replace("+ -", "- ")


def infeasible(cons, limit=6000):
    """no integer point satisfies all e >= 0 (Fourier-Motzkin elimination; incomplete for integers)"""
    names = {}
    rows = []
    for c in cons:
        d = 1
        for v in c.values():
            if v.__class__ is not int:
                d = d * v.denominator // gcd(d, v.denominator)
        rows.append([(names.setdefault(k, len(names)), int(v * d)) for k, v in c.items() if k and v] + [(-1, int(c.get("", 0) * d))])
    n = len(names)
    cur = {}

    def put(into, vec, k):
        """keep the strongest constraint with these coefficients"""
        g = 0
        for a in vec:
            if a:
                g = gcd(g, a)
                if g == 1:
                    break
        if g == 0:
            return k < 0
        if g > 1:
            vec = tuple(a // g for a in vec)
            k = k // g
        else:
            vec = tuple(vec)
        o = into.get(vec)
        if o is None or k < o:
            into[vec] = k
            m = into.get(tuple(-a for a in vec))
            if m is not None and m + k < 0:
                return True
        return False
    for r in rows:
        vec = [0] * n
        k = 0
        for i, v in r:
            if i < 0:
                k = v
            else:
                vec[i] = v
        if put(cur, vec, k):
            return True
    left = set(range(n))
    while left:
        best = None
        for x in left:
            p = m = 0
            for v in cur:
                a = v[x]
                if a > 0:
                    p += 1
                elif a < 0:
                    m += 1
            if best is None or p * m - p - m < best[0]:
                best = (p * m - p - m, x)
                if p * m == 0:
                    break
        x = best[1]
        left.discard(x)
        pos = [(v, k) for v, k in cur.items() if v[x] > 0]
        neg = [(v, k) for v, k in cur.items() if v[x] < 0]
        new = {v: k for v, k in cur.items() if v[x] == 0}
        for pv, pk in pos:
            a = pv[x]
            for nv, nk in neg:
                b = -nv[x]
                if put(new, [b * p + a * q for p, q in zip(pv, nv)], b * pk + a * nk):
                    return True
        cur = new
        if len(cur) > limit:
            raise Unsupported("constraint system too large")
    return False


class State(object):
    def __init__(self):
        self.env = {}
        self.heap = {}
        self.cons = []
        self.R = L(0)
        self.vague = False
        self.recvs = []
        self.decs = []

    def copy(self):
        s = State()
        s.env, s.heap, s.cons = dict(self.env), dict(self.heap), list(self.cons)
        s.R, s.vague, s.recvs, s.decs = self.R, self.vague, list(self.recvs), list(self.decs)
        return s

    def ge(self, e):
        """assume e >= 0"""
        self.cons.append(e)

    def entails_ge(self, e):
        return infeasible(self.cons + [lsub(lscale(e, -1), L(1))])

    def entails_eq(self, e):
        return self.entails_ge(e) and self.entails_ge(lscale(e, -1))

    def dead(self):
        return infeasible(self.cons)


class Analysis(object):
    MAXDEPTH = 8

    def __init__(self, prog):
        self.prog = prog
        self.n = 0
        self.calls = []      # what was analysed
        self.problems = []   # (state, line, text) definite failures
        self.loops = 0
        self.depth = 0

    def fresh(self, tag):
        self.n += 1
        return "%s%d" % (tag, self.n)

    # ------------------------------------------------------------ expressions: list of (state, value)
    def ev(self, e, s, fr):
        m = getattr(self, "x_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s at line %d" % (type(e).__name__, e.lineno))
        return m(e, s, fr)

    def evs(self, es, s, fr):
        outs = [(s, [])]
        for e in es:
            nx = []
            for st, vs in outs:
                for st2, v in self.ev(e, st, fr):
                    nx.append((st2, vs + [v]))
            outs = nx
        return outs

    def x_Constant(self, e, s, fr):
        v = e.value
        if isinstance(v, bool) or v is None:
            return [(s, ("const", v))]
        if isinstance(v, int):
            return [(s, ("int", L(v)))]
        if isinstance(v, bytes) and not v:
            return [(s, ("seg", s.R, s.R))]
        return [(s, ("const", v))]

    def x_Name(self, e, s, fr):
        if e.id in s.env:
            return [(s, s.env[e.id])]
        return [(s, self.glob(e.id, fr))]

    def glob(self, name, fr):
        r = self.prog.lookup(fr["mod"], name)
        return self.conv(r, name)

    def conv(self, r, name):
        if r is None:
            return ("ext", name)
        if r[0] == "func":
            return ("fn", r[1])
        if r[0] == "class":
            return ("cls", r[1])
        if r[0] in ("ext", "mod"):
            return ("ext", r[1])
        if r[0] == "expr":
            return self.ev(r[1][1], State(), {"mod": r[2], "cls": None})[0][1]
        return ("ext", name)

    def x_Attribute(self, e, s, fr):
        out = []
        for st, o in self.ev(e.value, s, fr):
            if o[0] == "self" and e.attr in ("logger", "LOGGER"):
                out.append((st, ("ext", "LOGGER")))
            elif o[0] in ("cls", "self"):
                c = o[1]
                m = self.prog.method(c, e.attr)
                if m is not None:
                    out.append((st, ("fn", m, o if m.kind not in ("staticmethod",) and o[0] == "self" or m.kind == "classmethod" else None)))
                    continue
                for cc in self.prog.mro(c):
                    if e.attr in cc.consts:
                        out += self.ev(cc.consts[e.attr], st, {"mod": cc.mod, "cls": cc})
                        break
                else:
                    raise Unsupported("attribute %s at line %d" % (e.attr, e.lineno))
            elif o[0] == "ext":
                out.append((st, ("ext", o[1] + "." + e.attr)))
            else:
                out.append((st, ("meth", o, e.attr)))
        return out

    def x_JoinedStr(self, e, s, fr):
        return [(s, ("text",))]

    def x_Tuple(self, e, s, fr):
        return [(st, ("tup", vs)) for st, vs in self.evs(e.elts, s, fr)]

    def x_List(self, e, s, fr):
        out = []
        for st, vs in self.evs(e.elts, s, fr):
            h = self.fresh("h")
            seg = ("seg", st.R, st.R)
            for v in vs:
                seg = self.cat(st, seg, v, e)
            st.heap[h] = ("list", seg)
            out.append((st, ("ref", h)))
        return out

    def x_IfExp(self, e, s, fr):
        out = []
        for st, t in self.cond(e.test, s, fr):
            out += self.ev(e.body if t else e.orelse, st, fr)
        return out

    def x_NamedExpr(self, e, s, fr):
        out = []
        for st, v in self.ev(e.value, s, fr):
            st.env[e.target.id] = v
            out.append((st, v))
        return out

    def x_UnaryOp(self, e, s, fr):
        if isinstance(e.op, ast.Not):
            return [(st, ("const", not t)) for st, t in self.cond(e.operand, s, fr)]
        out = []
        for st, v in self.ev(e.operand, s, fr):
            if v[0] == "int" and isinstance(e.op, ast.USub):
                out.append((st, ("int", lscale(v[1], -1))))
            else:
                raise Unsupported("operator at line %d" % e.lineno)
        return out

    def x_Compare(self, e, s, fr):
        return [(st, ("const", t)) for st, t in self.cond(e, s, fr)]

    x_BoolOp = x_Compare

    def seg(self, s, v):
        if v[0] == "seg":
            return v
        if v[0] == "ref":
            return self.seg(s, s.heap[v[1]][1])
        if v[0] == "view":
            return self.seg(s, v[1])
        return None

    def cat(self, s, a, b, e):
        x, y = self.seg(s, a), self.seg(s, b)
        if x is None or y is None:
            raise Unsupported("concatenation at line %d" % getattr(e, "lineno", 0))
        if lkey(x[2]) == lkey(y[1]) or s.entails_eq(lsub(x[2], y[1])):
            return ("seg", x[1], y[2])
        if s.entails_eq(lsub(x[2], x[1])):
            return y
        if s.entails_eq(lsub(y[2], y[1])):
            return x
        self.problem(s, e, "byte strings joined out of stream order: [%s:%s] + [%s:%s]" % tuple(map(lshow, (x[1], x[2], y[1], y[2]))))
        return ("seg", x[1], ladd(x[2], lsub(y[2], y[1])))

    def problem(self, s, e, text):
        self.problems.append((s.vague, getattr(e, "lineno", 0), text))

    def x_BinOp(self, e, s, fr):
        out = []
        for st, (a, b) in self.evs([e.left, e.right], s, fr):
            out.append((st, self.binop(e.op, a, b, st, e)))
        return out

    def binop(self, op, a, b, st, e):
        if a[0] == "int" and b[0] == "int":
            if isinstance(op, ast.Add):
                return ("int", ladd(a[1], b[1]))
            if isinstance(op, ast.Sub):
                return ("int", lsub(a[1], b[1]))
            if isinstance(op, (ast.Mult, ast.LShift, ast.Pow)):
                ca, cb = a[1], b[1]
                if set(ca) == {""} and set(cb) == {""}:
                    x, y = int(ca[""]), int(cb[""])
                    return ("int", L(x * y if isinstance(op, ast.Mult) else x << y if isinstance(op, ast.LShift) else x ** y))
                if isinstance(op, ast.Mult) and set(cb) == {""}:
                    return ("int", lscale(ca, cb[""]))
                if isinstance(op, ast.Mult) and set(ca) == {""}:
                    return ("int", lscale(cb, ca[""]))
            n = self.fresh("u")
            st.vague = True
            return ("int", lvar(n))
        if isinstance(op, ast.Add) and self.seg(st, a) and self.seg(st, b):
            return self.cat(st, a, b, e)
        if isinstance(op, ast.Mod) and a[0] in ("const", "text"):
            return ("text",)
        raise Unsupported("operation at line %d" % e.lineno)

    def length(self, st, v, e):
        g = self.seg(st, v)
        if g is not None and not (v[0] == "ref" and st.heap[v[1]][0] == "list"):
            return ("int", lsub(g[2], g[1]))
        if v[0] == "const" and isinstance(v[1], (str, bytes)):
            return ("int", L(len(v[1])))
        n = self.fresh("n")
        st.vague = True
        st.ge(lvar(n))
        return ("int", lvar(n))

    def x_Subscript(self, e, s, fr):
        out = []
        for st, o in self.ev(e.value, s, fr):
            if isinstance(e.slice, ast.Slice):
                sl = e.slice
                if sl.step is not None:
                    raise Unsupported("slice at line %d" % e.lineno)
                g = self.seg(st, o)
                if g is None:
                    raise Unsupported("slice at line %d" % e.lineno)
                for st2, (lo, hi) in self.evs([x if x is not None else ast.Constant(value=None) for x in (sl.lower, sl.upper)], st, fr):
                    if o[0] == "view" or (o[0] == "ref" and st2.heap[o[1]][0] == "pre"):
                        if hi != ("const", None) or lo[0] not in ("int", "const"):
                            raise Unsupported("slice of a buffer at line %d" % e.lineno)
                        out.append((st2, ("view", o[1] if o[0] == "view" else o, lo[1] if lo[0] == "int" else L(0))))
                        continue
                    out += self.slice(st2, g, lo, hi, e)
                continue
            for st2, i in self.ev(e.slice, st, fr):
                if o[0] == "tup" and i[0] == "int" and set(i[1]) == {""}:
                    out.append((st2, o[1][int(i[1][""])]))
                else:
                    raise Unsupported("subscript at line %d" % e.lineno)
        return out

    def slice(self, s, g, lo, hi, e):
        outs = [(s, L(0))] if lo == ("const", None) else self.clamp(s, lo, g, e)
        r = []
        for st, a in outs:
            for st2, b in ([(st, lsub(g[2], g[1]))] if hi == ("const", None) else self.clamp(st, hi, g, e)):
                r.append((st2, ("seg", ladd(g[1], a), ladd(g[1], b))))
        return r

    def clamp(self, s, v, g, e):
        if v[0] != "int":
            raise Unsupported("slice bound at line %d" % e.lineno)
        n = lsub(g[2], g[1])
        if set(v[1]) == {""} and v[1][""] < 0:
            raise Unsupported("negative slice bound at line %d" % e.lineno)
        a, b = s.copy(), s.copy()
        a.ge(lsub(n, v[1]))
        b.ge(lsub(lsub(v[1], n), L(1)))
        r = []
        if not a.dead():
            r.append((a, v[1]))
        if not b.dead():
            r.append((b, n))
        return r

    # ------------------------------------------------------------ calls
    def x_Call(self, e, s, fr):
        out = []
        for st, f in self.ev(e.func, s, fr):
            if f[0] == "ext" and ("LOGGER" in f[1].upper() or f[1].split(".")[0] in ("logging", "print", "warnings")):
                out.append((st, ("const", None)))
                continue
            if f[0] == "meth" and f[1][0] in ("const", "text") and f[2] in ("format",):
                out.append((st, ("text",)))
                continue
            if any(isinstance(a, ast.Starred) for a in e.args) or any(k.arg is None for k in e.keywords):
                raise Unsupported("star arguments at line %d" % e.lineno)
            for st2, vs in self.evs(list(e.args) + [k.value for k in e.keywords], st, fr):
                out += self.call(f, vs[:len(e.args)], dict(zip([k.arg for k in e.keywords], vs[len(e.args):])), st2, e, fr)
        return out

    def call(self, f, a, kw, s, e, fr):
        if f[0] == "fn":
            return self.call_fn(f[1], ([f[2]] if len(f) > 2 and f[2] is not None else []) + a, kw, s, e)
        if f[0] == "meth":
            return self.method(f[1], f[2], a, kw, s, e)
        if f[0] == "clo":
            if any(isinstance(x, ast.Nonlocal) for x in ast.walk(f[1].node)):
                raise Unsupported("nonlocal at line %d" % e.lineno)
            return self.call_fn(f[1], a, kw, s, e, dict(s.env))
        if f[0] == "lam":
            env = dict(s.env)
            lam, env0 = f[1], f[2]
            s.env = dict(env0, **{p.arg: v for p, v in zip(lam.args.args, a)})
            r = []
            for st, v in self.ev(lam.body, s, fr):
                st.env = env
                r.append((st, v))
            return r
        n = f[1] if f[0] == "ext" else ""
        n = {"bytes.decode": "str"}.get(n, n)
        if n == "len":
            return [(s, self.length(s, a[0], e))]
        if n == "int":
            if a[0][0] == "int":
                return [(s, a[0])]
            if a[0][0] in ("seg", "ref") or a[0][0] == "segtext":
                return [(s, self.decode(s, "dec", a[0]))]
        if n == "str" and a and self.seg(s, a[0]):
            return [(s, ("segtext", a[0]))]
        if n in ("bytes", "memoryview") and len(a) == 1 and self.seg(s, a[0]):
            return [(s, self.seg(s, a[0]) if n == "bytes" else ("view", a[0], L(0)))]
        if n == "bytes" and not a:
            return [(s, ("seg", s.R, s.R))]
        if n == "bytearray":
            h = self.fresh("h")
            if not a:
                s.heap[h] = ("buf", ("seg", s.R, s.R))
            elif self.seg(s, a[0]):
                s.heap[h] = ("buf", self.seg(s, a[0]))
            elif a[0][0] == "int":
                s.heap[h] = ("pre", ("seg", s.R, s.R), a[0][1])
            else:
                raise Unsupported("bytearray at line %d" % e.lineno)
            return [(s, ("ref", h))]
        if n == "list" and not a:
            h = self.fresh("h")
            s.heap[h] = ("list", ("seg", s.R, s.R))
            return [(s, ("ref", h))]
        if n in ("min", "max") and len(a) == 2 and all(x[0] == "int" for x in a):
            p, q = s.copy(), s.copy()
            d = lsub(a[1][1], a[0][1])
            p.ge(d)
            q.ge(lsub(lscale(d, -1), L(1)))
            r = [(p, a[0] if n == "min" else a[1]), (q, a[1] if n == "min" else a[0])]
            return [x for x in r if not x[0].dead()]
        if n.endswith("pickle.loads") or n == "loads":
            g = self.seg(s, a[0])
            if g is not None:
                return [(s, ("obj", g[1], g[2]))]
        if n == "struct.unpack" and len(a) == 2 and a[0][0] == "const" and self.seg(s, a[1]):
            return [(s, ("tup", [self.decode(s, ("struct", a[0][1]), a[1])]))]
        if n == "struct.calcsize" and a[0][0] == "const":
            import struct
            return [(s, ("int", L(struct.calcsize(a[0][1]))))]
        if n == "int.from_bytes" and self.seg(s, a[0]):
            o = a[1] if len(a) > 1 else kw.get("byteorder", ("const", "big"))
            return [(s, self.decode(s, ("bytes", o[1]), a[0]))]
        if n == "iter" and len(a) == 2:
            raise Unsupported("iter at line %d" % e.lineno)
        if n and n[0].isupper() or "Error" in n or "Exception" in n:
            return [(s, ("exc", n))]
        raise Unsupported("call of %s at line %d" % (n or f[0], e.lineno))

    def decode(self, s, codec, v):
        if v[0] == "segtext":
            v = v[1]
        g = self.seg(s, v)
        for c, a, b, x in s.decs:
            if c == codec and lkey(a) == lkey(g[1]) and lkey(b) == lkey(g[2]):
                return ("int", lvar(x))
        x = self.fresh("len")
        s.ge(lsub(lvar(x), L(1)))      # a pickle is never empty
        s.decs.append((codec, g[1], g[2], x))
        return ("int", lvar(x))

    def x_Lambda(self, e, s, fr):
        return [(s, ("lam", e, dict(s.env)))]

    def recv(self, s, n, e):
        if n[0] != "int":
            raise Unsupported("size of recv at line %d" % e.lineno)
        if not s.entails_ge(lsub(n[1], L(1))):
            self.problem(s, e, "recv may be asked for %s bytes, which need not be positive: an empty result would not mean a closed connection" % lshow(n[1]))
        m = lvar(self.fresh("m"))
        s.ge(m)
        s.ge(lsub(n[1], m))
        a = s.R
        s.R = ladd(s.R, m)
        s.recvs.append(m)
        return ("seg", a, s.R)

    def method(self, o, name, a, kw, s, e):
        if o[0] == "conn":
            if name == "recv" and len(a) >= 1:
                fl = a[1:]
                if fl:
                    if len(fl) == 1 and fl[0] == ("ext", "socket.MSG_WAITALL"):
                        pass    # may still return less on a signal or a closed peer
                    else:
                        raise Unsupported("recv flags at line %d" % e.lineno)
                return [(s, self.recv(s, a[0], e))]
            if name == "recv_into" and a and a[0][0] in ("view", "ref"):
                v = a[0] if a[0][0] == "view" else ("view", a[0], L(0))
                o2 = v[1]
                while o2[0] == "view":
                    o2 = o2[1]
                h = s.heap[o2[1]]
                if h[0] != "pre":
                    raise Unsupported("recv_into at line %d" % e.lineno)
                room = lsub(h[2], v[2])
                n = room
                if len(a) > 1 and a[1][0] == "int":
                    n = a[1][1]
                fill = h[1]
                if not s.entails_eq(lsub(v[2], lsub(fill[2], fill[1]))):
                    self.problem(s, e, "bytes written at offset %s of a buffer that holds %s" % (lshow(v[2]), lshow(lsub(fill[2], fill[1]))))
                g = self.recv(s, ("int", n), e)
                s.heap[o2[1]] = ("pre", self.cat(s, fill, g, e), h[2])
                return [(s, ("int", lsub(g[2], g[1])))]
            if name in ("settimeout", "setblocking", "fileno", "getpeername"):
                return [(s, ("const", None))]
            raise Unsupported("socket method %s at line %d" % (name, e.lineno))
        if o[0] == "ref":
            h = s.heap[o[1]]
            if name == "append" and h[0] == "list" or name in ("extend",) and h[0] == "buf":
                s.heap[o[1]] = (h[0], self.cat(s, h[1], a[0], e)) + h[2:]
                return [(s, ("const", None))]
        if o[0] in ("const", "seg") and name == "join" and (o[0] == "seg" and s.entails_eq(lsub(o[2], o[1])) or o[1] == b"") and a[0][0] == "ref":
            return [(s, self.seg(s, a[0]))]
        g = self.seg(s, o)
        if g is not None and name in ("decode", "strip", "rstrip", "lstrip", "tobytes"):
            return [(s, ("segtext", g) if name != "tobytes" else g)]
        if o[0] == "segtext" and name in ("strip", "rstrip", "lstrip"):
            return [(s, o)]
        if o[0] == "ext":
            return self.call(("ext", o[1] + "." + name), a, kw, s, e, None)
        raise Unsupported("method %s at line %d" % (name, e.lineno))

    def call_fn(self, f, a, kw, s, e, outer=None):
        if self.depth >= self.MAXDEPTH:
            raise Unsupported("recursion")
        if f.qual not in self.calls:
            self.calls.append(f.qual)
        node = f.node
        ar = node.args
        if ar.vararg or ar.kwarg:
            raise Unsupported("signature of %s" % f.qual)
        names = [x.arg for x in ar.posonlyargs + ar.args]
        env = dict(zip(names, a))
        env.update(kw)
        for x, d in zip(names[len(names) - len(ar.defaults):], ar.defaults):
            if x not in env:
                env[x] = self.ev(d, s, {"mod": f.mod, "cls": f.cls})[0][1]
        for x, d in zip(ar.kwonlyargs, ar.kw_defaults):
            if x.arg not in env and d is not None:
                env[x.arg] = self.ev(d, s, {"mod": f.mod, "cls": f.cls})[0][1]
        caller = s.env
        s.env = dict(outer or {}, **env)
        self.depth += 1
        outs = self.block(node.body, s, {"mod": f.mod, "cls": f.cls, "fn": f})
        self.depth -= 1
        r = []
        for k, st, v in outs:
            st.env = dict(caller)
            if k in ("n", "ret"):
                r.append((st, v if k == "ret" else ("const", None)))
            elif k == "raise":
                self.raised.append((st, v))
            else:
                raise Unsupported("control flow")
        return r

    # ------------------------------------------------------------ conditions: list of (state, bool)
    def cond(self, e, s, fr):
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(st, not t) for st, t in self.cond(e.operand, s, fr)]
        if isinstance(e, ast.BoolOp):
            outs = self.cond(e.values[0], s, fr)
            for v in e.values[1:]:
                nx = []
                for st, t in outs:
                    if t == isinstance(e.op, ast.And):
                        nx += self.cond(v, st, fr)
                    else:
                        nx.append((st, t))
                outs = nx
            return outs
        if isinstance(e, ast.Compare):
            out = []
            for st, vs in self.evs([e.left] + e.comparators, s, fr):
                sts = [(st, True)]
                for op, x, y in zip(e.ops, vs, vs[1:]):
                    nx = []
                    for q, t in sts:
                        nx += self.cmp(op, x, y, q) if t else [(q, t)]
                    sts = nx
                out += sts
            return out
        out = []
        for st, v in self.ev(e, s, fr):
            g = self.seg(st, v)
            if v[0] == "const":
                out.append((st, bool(v[1])))
            elif v[0] == "int":
                out += [(q, not t) for q, t in self.cmp(ast.Eq(), v, ("int", L(0)), st)]
            elif g is not None and not (v[0] == "ref" and st.heap[v[1]][0] == "list"):
                out += self.split(st, lsub(lsub(g[2], g[1]), L(1)))
            else:
                out += self.both(st)
        return out

    def both(self, s):
        a, b = s.copy(), s.copy()
        a.vague = b.vague = True
        return [(a, True), (b, False)]

    def split(self, s, e):
        """e >= 0 ?"""
        a, b = s.copy(), s.copy()
        a.ge(e)
        b.ge(lsub(lscale(e, -1), L(1)))
        return [(q, t) for q, t in ((a, True), (b, False)) if not q.dead()]

    def cmp(self, op, x, y, s):
        gx, gy = self.seg(s, x), self.seg(s, y)
        if isinstance(op, (ast.Is, ast.IsNot)) and ("const", None) in (x, y):
            t = x == y
            return [(s, t == isinstance(op, ast.Is))]
        if isinstance(op, (ast.Eq, ast.NotEq)) and gx is not None and gy is not None:
            n = isinstance(op, ast.NotEq)
            for g, h in ((gx, gy), (gy, gx)):
                if s.entails_eq(lsub(h[2], h[1])):
                    return [(q, t if n else not t) for q, t in self.split(s, lsub(lsub(g[2], g[1]), L(1)))]
            return self.both(s)
        if x[0] == "int" and y[0] == "int":
            d = lsub(x[1], y[1])
            m = lscale(d, -1)
            if isinstance(op, ast.GtE):
                return self.split(s, d)
            if isinstance(op, ast.Gt):
                return self.split(s, lsub(d, L(1)))
            if isinstance(op, ast.LtE):
                return self.split(s, m)
            if isinstance(op, ast.Lt):
                return self.split(s, lsub(m, L(1)))
            if isinstance(op, (ast.Eq, ast.NotEq)):
                n = isinstance(op, ast.NotEq)
                out = []
                for q, t in self.split(s, d):
                    if not t:
                        out.append((q, n))
                        continue
                    for q2, t2 in self.split(q, m):
                        out.append((q2, t2 != n))
                return out
        return self.both(s)

    # ------------------------------------------------------------ statements: list of (kind, state, value)
    def block(self, body, s, fr):
        cur = [s]
        outs = []
        for n in body:
            nx = []
            for st in cur:
                for k, st2, v in self.stmt(n, st, fr):
                    if k == "n":
                        nx.append(st2)
                    else:
                        outs.append((k, st2, v))
            cur = nx
            if len(cur) > 200:
                raise Unsupported("too many paths")
        return outs + [("n", st, None) for st in cur]

    def stmt(self, n, s, fr):
        if isinstance(n, (ast.Pass, ast.Import, ast.ImportFrom, ast.Global)):
            return [("n", s, None)]
        if isinstance(n, ast.Expr):
            return [("n", st, None) for st, v in self.ev(n.value, s, fr)]
        if isinstance(n, (ast.Assign, ast.AnnAssign)):
            if n.value is None:
                return [("n", s, None)]
            ts = n.targets if isinstance(n, ast.Assign) else [n.target]
            out = []
            for st, v in self.ev(n.value, s, fr):
                for t in ts:
                    self.assign(t, v, st, n)
                out.append(("n", st, None))
            return out
        if isinstance(n, ast.AugAssign):
            out = []
            for st, v in self.ev(n.value, s, fr):
                for st2, o in self.ev(n.target, st, fr):
                    if o[0] == "ref" and isinstance(n.op, ast.Add):
                        h = st2.heap[o[1]]
                        st2.heap[o[1]] = (h[0], self.cat(st2, h[1], v, n)) + h[2:]
                    else:
                        self.assign(n.target, self.binop(n.op, o, v, st2, n), st2, n)
                    out.append(("n", st2, None))
            return out
        if isinstance(n, ast.Return):
            if n.value is None:
                return [("ret", s, ("const", None))]
            return [("ret", st, v) for st, v in self.ev(n.value, s, fr)]
        if isinstance(n, ast.Raise):
            return [("raise", s, n.lineno)]
        if isinstance(n, ast.Assert):
            return [("n", st, None) if t else ("raise", st, n.lineno) for st, t in self.cond(n.test, s, fr)]
        if isinstance(n, ast.Break):
            return [("brk", s, None)]
        if isinstance(n, ast.Continue):
            return [("cont", s, None)]
        if isinstance(n, ast.If):
            out = []
            for st, t in self.cond(n.test, s, fr):
                out += self.block(n.body if t else n.orelse, st, fr)
            return out
        if isinstance(n, ast.While):
            return self.loop(n, s, fr)
        if isinstance(n, ast.With) and all(isinstance(i.context_expr, ast.Call) and "Lock" in ast.dump(i.context_expr) or isinstance(i.context_expr, ast.Attribute) for i in n.items):
            return self.block(n.body, s, fr)
        if isinstance(n, ast.Delete):
            return [("n", s, None)]
        if isinstance(n, ast.FunctionDef):
            from .prog import Func
            s.env[n.name] = ("clo", Func(n, fr["mod"], "%s.%s" % (fr["fn"].qual if "fn" in fr else fr["mod"].name, n.name), None), n.name)
            return [("n", s, None)]
        raise Unsupported("%s at line %d" % (type(n).__name__, n.lineno))

    def assign(self, t, v, s, n):
        if isinstance(t, ast.Name):
            s.env[t.id] = v
            return
        if isinstance(t, ast.Tuple) and v[0] == "tup" and len(v[1]) == len(t.elts):
            for x, y in zip(t.elts, v[1]):
                self.assign(x, y, s, n)
            return
        raise Unsupported("assignment at line %d" % n.lineno)

    # ------------------------------------------------------------ loops
    def numbers(self, s):
        """all numeric components of a state, by name"""
        out = {("R",): s.R}
        for k, v in s.env.items():
            if v[0] == "int":
                out[("v", k)] = v[1]
            elif v[0] == "seg":
                out[("v", k, 0)], out[("v", k, 1)] = v[1], v[2]
            elif v[0] == "view":
                out[("v", k, 2)] = v[2]
        for k, h in s.heap.items():
            out[("h", k, 0)], out[("h", k, 1)] = h[1][1], h[1][2]
        return out

    def put(self, s, key, e):
        if key == ("R",):
            s.R = e
        elif key[0] == "v":
            v = s.env[key[1]]
            if len(key) == 2:
                s.env[key[1]] = ("int", e)
            elif key[2] == 2:
                s.env[key[1]] = ("view", v[1], e)
            else:
                s.env[key[1]] = ("seg", e, v[2]) if key[2] == 0 else ("seg", v[1], e)
        else:
            h = s.heap[key[1]]
            g = h[1]
            s.heap[key[1]] = (h[0], ("seg", e, g[2]) if key[2] == 0 else ("seg", g[1], e)) + h[2:]

    def loop(self, n, s, fr):
        self.loops += 1
        s = s.copy()
        # an empty byte string has no position: move it to where the loop starts reading
        for k, v in list(s.env.items()):
            if v[0] == "seg" and s.entails_eq(lsub(v[2], v[1])):
                s.env[k] = ("seg", s.R, s.R)
        for k, h in list(s.heap.items()):
            if s.entails_eq(lsub(h[1][2], h[1][1])):
                s.heap[k] = (h[0], ("seg", s.R, s.R)) + h[2:]
        entry = self.numbers(s)
        # which components change?
        changed = {("R",)}
        while True:
            head, names = self.havoc(s, entry, changed)
            outs = self.quiet(lambda: self.once(n, head.copy(), fr))
            more = set()
            for k, st in outs:
                if k == "back":
                    now = self.numbers(st)
                    for c in entry:
                        if c not in now:
                            raise Unsupported("variable %s changes type in the loop at line %d" % (c, n.lineno))
                        if c not in changed and lkey(now[c]) != lkey(entry[c]):
                            more.add(c)
                    for x, v in st.env.items():
                        if x in s.env and v[0] != s.env[x][0]:
                            raise Unsupported("variable %s changes type in the loop at line %d" % (x, n.lineno))
            if not more:
                break
            changed |= more
        # candidate relations
        head, names = self.havoc(s, entry, changed)
        cands = []
        ks = sorted(changed, key=str)
        for i, a in enumerate(ks):
            x, x0 = lvar(names[a]), entry[a]
            cands += [(lsub(x, x0), x0), (lsub(x0, x), x0)]
            for b in ks[i + 1:]:
                y, y0 = lvar(names[b]), entry[b]
                for sg in (1, -1):
                    d = lsub(ladd(x, y, sg), ladd(x0, y0, sg))
                    cands += [(d, None), (lscale(d, -1), None)]
        for k in ks:                     # a segment ends after it starts
            if len(k) == 3 and k[2] in (0, 1) and k[0] in ("v", "h"):
                o = k[:2] + (1 - k[2],)
                e0, e1 = (lvar(names[x]) if x in names else entry[x] for x in (k[:2] + (0,), k[:2] + (1,)))
                cands.append((lsub(e1, e0), None))
        for c in self.compares(n):
            try:
                for st, vs in self.quiet(lambda: self.evs([c.left] + c.comparators, head.copy(), fr)):
                    if len(vs) == 2 and vs[0][0] == vs[1][0] == "int":
                        d = lsub(vs[0][1], vs[1][1])
                        cands += [(d, None), (lscale(d, -1), None)]
            except (Unsupported, KeyError, IndexError):
                pass
        cands = [c for c, _ in cands]
        sub = {names[k]: entry[k] for k in changed}
        cands = [c for c in cands if s.entails_ge(self.subst(c, sub))]
        while True:
            head, _ = self.havoc(s, entry, changed, names)
            head.cons += cands
            outs = self.quiet(lambda: self.once(n, head.copy(), fr))
            keep = []
            for c in cands:
                ok = True
                for k, st in outs:
                    if k == "back":
                        now = self.numbers(st)
                        if not st.entails_ge(self.subst(c, {names[x]: now[x] for x in changed})):
                            ok = False
                            break
                if ok:
                    keep.append(c)
            if len(keep) == len(cands):
                break
            cands = keep
        # final pass, reporting
        head, _ = self.havoc(s, entry, changed, names)
        head.cons += cands
        self.invariants = getattr(self, "invariants", []) + [(n.lineno, [lshow(c) + " >= 0" for c in cands])]
        outs = self.once(n, head.copy(), fr, True)
        res = []
        for k, st in outs:
            if k == "back":
                if not st.entails_ge(lsub(lsub(st.R, head.R), L(1))):
                    self.problem(st, n, "an iteration may end without having received anything: the loop need not end when the peer closes")
            elif k == "exit":
                res.append(("n", st, None))
        return res + self.exits

    def havoc(self, s, entry, changed, names=None):
        h = s.copy()
        names = names or {k: self.fresh("~" + "_".join(str(x) for x in k)) for k in sorted(changed, key=str)}
        for k in changed:
            self.put(h, k, lvar(names[k]))
        return h, names

    def subst(self, e, m):
        r = L(0)
        for k, v in e.items():
            r = ladd(r, m[k] if k in m else ({k: 1, "": 0} if k else L(1)), v)
        return r

    def compares(self, n):
        return [c for c in ast.walk(n) if isinstance(c, ast.Compare)]

    def quiet(self, f):
        p, r, l, ex = list(self.problems), list(self.raised), self.loops, getattr(self, "exits", None)
        inv = list(getattr(self, "invariants", []))
        try:
            return f()
        finally:
            self.problems, self.raised, self.loops, self.invariants = p, r, l, inv
            self.exits = ex

    def once(self, n, head, fr, final=False):
        """one pass through the loop: ('back', state) for every way to the next iteration, ('exit', state) for leaving"""
        outs = []
        exits = []
        for st, t in self.cond(n.test, head, fr):
            if not t:
                for k, s2, v in self.block(n.orelse, st, fr) if n.orelse else [("n", st, None)]:
                    if k == "n":
                        outs.append(("exit", s2))
                    else:
                        exits.append((k, s2, v))
                continue
            for k, s2, v in self.block(n.body, st, fr):
                if k in ("n", "cont"):
                    outs.append(("back", s2))
                elif k == "brk":
                    outs.append(("exit", s2))
                else:
                    exits.append((k, s2, v))
        self.exits = exits
        return outs

    def run(self, f, args):
        """all normal returns (state, value); raises are collected in self.raised"""
        self.raised = []
        s = State()
        return self.call_fn(f, args, {}, s, None)


class Sending(Analysis):
    """the same domain read the other way: the message is bytes [0, w) (header) and [w, w + n) (the pickled
    object), R counts the bytes handed to the connection so far"""
    W, N = lvar("w"), lvar("n")

    def header(self, s):
        return ("seg", L(0), self.W)

    def call(self, f, a, kw, s, e, fr):
        n = f[1] if f[0] == "ext" else ""
        if n.endswith("pickle.dumps") or n == "dumps":
            return [(s, ("seg", self.W, ladd(self.W, self.N)))]
        if n == "memoryview" and self.seg(s, a[0]):
            return [(s, self.seg(s, a[0]))]
        if n == "bytes" and len(a) == 2 and a[0][0] == "text":
            return [(s, self.header(s))]
        if n in ("str", "format", "repr") and a and a[0][0] in ("int", "text", "const"):
            return [(s, ("text",))]
        if n == "struct.pack" and len(a) == 2 and a[0][0] == "const" and a[1][0] == "int":
            return [(s, self.header(s))]
        return Analysis.call(self, f, a, kw, s, e, fr)

    def x_JoinedStr(self, e, s, fr):
        return [(s, ("text",))]

    def method(self, o, name, a, kw, s, e):
        if o[0] == "conn" and name in ("sendall", "send") and len(a) == 1:
            g = self.seg(s, a[0])
            if g is None:
                raise Unsupported("data sent at line %d" % e.lineno)
            n = lsub(g[2], g[1])
            if s.entails_eq(n):
                return [(s, ("const", None) if name == "sendall" else ("int", L(0)))]
            if not s.entails_eq(lsub(g[1], s.R)):
                self.problem(s, e, "bytes [%s, %s) of the message are written after %s bytes" % tuple(map(lshow, (g[1], g[2], s.R))))
            if name == "sendall":
                s.R = ladd(s.R, n)
                return [(s, ("const", None))]
            m = lvar(self.fresh("m"))
            s.ge(m)
            s.ge(lsub(n, m))
            if s.entails_ge(lsub(n, L(1))):
                s.ge(lsub(m, L(1)))
            s.R = ladd(s.R, m)
            return [(s, ("int", m))]
        if o[0] == "conn" and name in ("settimeout", "setblocking", "setsockopt", "fileno", "getpeername"):
            return [(s, ("const", None))]
        if o[0] in ("text", "const") and name in ("ljust", "rjust", "zfill", "center", "format"):
            return [(s, ("text",))]
        if o[0] in ("text", "const") and name == "encode":
            return [(s, self.header(s))]
        if o[0] == "int" and name == "to_bytes":
            return [(s, self.header(s))]
        return Analysis.method(self, o, name, a, kw, s, e)

    def stmt(self, n, s, fr):
        if isinstance(n, ast.For) and isinstance(n.target, ast.Name) and not n.orelse and isinstance(n.iter, ast.Call) \
                and isinstance(n.iter.func, ast.Name) and n.iter.func.id == "range" and 1 <= len(n.iter.args) <= 3:
            a = n.iter.args
            lo, hi = (ast.Constant(value=0), a[0]) if len(a) == 1 else a[:2]
            i, h = "~i%d" % n.lineno, "~h%d" % n.lineno
            outs = []
            for st, vs in self.evs([lo, hi] + list(a[2:]), s, fr):
                if any(v[0] != "int" for v in vs):
                    raise Unsupported("range at line %d" % n.lineno)
                step = vs[2][1] if len(a) == 3 else L(1)
                if not st.entails_ge(lsub(step, L(1))):
                    raise Unsupported("range step at line %d" % n.lineno)
                st.env[i], st.env[h], st.env["~s"] = vs[0], vs[1], ("int", step)
                src = "while I < H:\n    X = I\n    I = min(I + S, H)\n"
                w = ast.parse(src).body[0]
                for x in ast.walk(w):
                    if isinstance(x, ast.Name):
                        x.id = {"I": i, "H": h, "X": n.target.id, "S": "~s", "min": "min"}[x.id]
                    if hasattr(x, "lineno"):
                        x.lineno = n.lineno
                w.body += n.body
                outs += self.stmt(w, st, fr)
            return outs
        return Analysis.stmt(self, n, s, fr)

    def run(self, f, args):
        self.raised = []
        s = State()
        s.ge(lsub(self.W, L(1)))
        s.ge(lsub(self.N, L(1)))
        return self.call_fn(f, args, {}, s, None)
