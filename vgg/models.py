"""Abstract semantics of builtins, the numeric/standard library calls the
repository makes, containers, tables and protobuf messages."""
import ast
import builtins
from .terms import *
from . import terms as TT
from .prog import Class
from .engine import (freeatom, LOGGERV, BOT, mkcomp, mksum, mkexists, mkupd, mkset, wapp, WNIL, rd, root_path, pg,
                     has_template, fresh, Undecided, bvtag_of, TEMPLATES)

PYB = set(dir(builtins))
FILTER_OK = True


def declare_key(iv, dom):
    return None


# ------------------------------------------------------------------ tables
def tin(k, B):
    r = TT.lift(tin, (k, B))
    if r is not None:
        return r
    if B.op == "tab":
        return tcond(instantiate(B.args[0], [k]))
    if B.op == "tseq":
        return mk("tin", k, B)
    return mk("tin", k, B)


def tcond(d):
    if d.op == "ite":
        return ite(d.args[0], tcond(d.args[1]), tcond(d.args[2]))
    if d in (TRUE, FALSE) or d.op in TT.BOOL_OPS:
        return TRUE
    return FALSE if d is BOT else TRUE


def mutable(v):
    if v.op == "ite":
        return mutable(v.args[1]) or mutable(v.args[2])
    return v.op in TEMPLATES or v.op in ("upd", "copyof", "snap", "cp", "ndv")


def tget(B, k):
    r = TT.lift(tget, (B, k))
    if r is not None:
        return r
    if B.op == "tab":
        v = instantiate(B.args[0], [k])
        v = restrict(v, tcond(v))
        if mutable(v):
            return mk("tget", B, k)
        return v
    return mk("tget", B, k)


def tval(B, k):
    """plain value at key (no address)"""
    if B.op == "tab":
        v = instantiate(B.args[0], [k])
        return restrict(v, tcond(v))
    return mk("tget", B, k)


TT.REBUILD["tin"] = tin
TT.REBUILD["tget"] = tget


def diag(B, k):
    if B.op == "tab":
        return instantiate(B.args[0], [k])
    return ite(tin(k, B), mk("tget", B, k), BOT)


def mktab(k, d):
    """table from key variable and diagram; a table equal to a base table is that table"""
    if d.op == "ite" and d.args[0].op == "tin" and d.args[0].args[0] is k and d.args[2] is BOT:
        B = d.args[0].args[1]
        if d.args[1] is mk("tget", B, k) and k not in B.fv:
            return B
    a = freeatom(d, k)
    if a is not None:
        return TT.ite(a, mktab(k, TT.imply(d, a, True)), mktab(k, TT.imply(d, a, False)))
    return mk("tab", lam([k], [d]))


def _rb_tab(lm):
    v = fresh("p")
    return mktab(v, instantiate(lm, [v]))


TT.REBUILD["tab"] = _rb_tab


def K(T):
    k = fresh("p")
    return mk("K", lam([k], [tcond(diag(T, k))]))


TT.INT_OPS.add("card")
TT.INT_OPS.add("argfirst")


def pd(k):
    return mk("pd", k)


def elt1(q):
    """the element of a one-element sequence, or None"""
    if q.op == "ite":
        a, b = elt1(q.args[1]), elt1(q.args[2])
        return None if a is None or b is None else ite(q.args[0], a, b)
    if q.op == "cat" and len(q.args) == 1 and q.args[0].op == "one":
        return q.args[0].args[0]
    return None


def injective_key(lm):
    """is the key of a dict comprehension different for different positions?"""
    from .terms import open_lam
    vs, bodies = open_lam(lm)
    k, v = bodies[1], vs[0]

    def inj(k):
        return k is v or (k.op == "tuple" and any(inj(x) for x in k.args)) or (k.op == "dkey" and k.args[1] is v)
    return inj(k)


def ndstrip(c):
    return c


class Models(object):
    def __init__(self, I):
        self.I = I
        self.try_depth = 0
        self.try_calls = []
        self.tmp = 0

    # -------------------------------------------------------- names
    def builtin(self, name):
        if name in PYB:
            return mk("builtin", name)
        if name == "__name__":
            return sym("__name__", "str")
        if name in ("__file__", "__doc__"):
            return sym(name, "str")
        self.I.note("unknown name %s" % name)
        return mk("unbound", name)

    def ext(self, dotted):
        low = dotted.lower()
        if dotted == "sys.float_info.mant_dig":
            return num(53)
        if dotted.startswith("logging") or low.endswith("logger"):
            return LOGGERV
        if dotted.startswith("np."):
            dotted = "numpy." + dotted[3:]
        if dotted == "math.pi" or dotted == "numpy.pi":
            return mk("const", "pi")
        if dotted in ("numpy.inf", "math.inf"):
            return mk("const", "inf")
        return mk("ext", dotted)

    def class_value(self, c):
        if c.name in ("MyLoggerFactory", "MyLogger", "LoggerFactory"):
            return LOGGERV
        if c.mod.name.endswith("_pb2") and not c.mod.path.startswith("<model"):
            return mk("ext", "pb." + c.name)
        return self.I.cls(c)

    def mod_attr(self, modname, name, st):
        I = self.I
        full = modname + "." + name
        m = I.prog.module(modname)
        if m is not None:
            r = I.prog.lookup(m, name)
            if r is not None:
                return I.global_name(m, name, st)
        if I.prog.module(full) is not None or I.prog.is_pkg(full):
            return mk("mod", full)
        return self.ext(full)

    # -------------------------------------------------------- helpers
    def V(self, x, st):
        I = self.I
        x = I.rv(x, st)
        if x.op in ("range", "enum", "zip", "rev", "dview", "mapv"):
            x = mk("newlist", self.as_seq(x, st, None))
        return I.reify(self.val(x, st), st)

    def val(self, v, st):
        """value an address denotes in the current state"""
        I = self.I
        if v.op == "tuple":
            return mk("tuple", *[self.val(x, st) for x in v.args])
        if v.op == "ite":
            return ite(v.args[0], self.val(v.args[1], st), self.val(v.args[2], st))
        if v.op in ("tget", "get", "dget"):
            root, path = root_path(v)
            if path:
                cell = I.cell(root, st)
                if cell is not None and (cell is not root or root.op == "tab"):
                    return rd(cell, path)
        return v

    def event(self, chan, name, args, st):
        key = ("x", "log:" + chan)
        cur = st.v.get(key, NIL)
        vs = [self.V(a, st) for a in args]
        vs = [truth(v) if kind(v) == "bool" else v for v in vs]
        def ev(*xs):
            r = lift(ev, xs)
            return one(mk("ev", name, *xs)) if r is None else r
        st.v[key] = cat(cur, ev(*vs))

    def stream(self, chan, args, st, ty=None):
        """next value of an external input stream"""
        key = ("x", "n:" + chan)
        c = st.v.get(key, ZERO)
        st.v[key] = add(c, ONE)
        return mk("inp", chan, c, ty or "", *args)

    def mayraise(self, name, args):
        if self.try_depth and self.try_calls:
            self.try_calls[-1].append(mk("rz", name, *args))

    def k0(self, x):
        k = kind(x) or ""
        if k.startswith("opt:"):
            k = k[4:]
        return split_ty(k)[0] or ""

    def setcontent(self, c, new, st):
        I = self.I
        if c.op == "ref":
            st.v[("c", c)] = new
            return
        if c.op in ("newlist", "newdict", "tuple", "copyof", "ndv", "cat", "comp"):
            I.note("write to a value container")
            return
        root, path = root_path(c)
        if not path:
            st.v[("c", c)] = new
            return
        cell = I.cell(root, st) or root
        base = rd(cell, path)
        if base.op == "ref":
            st.v[("c", base)] = new
            return
        tag = "newdict" if new.op in ("dput", "dcomp", "dnil") or base.op == "newdict" else "newlist"
        nv = TT.rebuild(tag, [new])
        st.v[("c", root)] = mkupd(cell, wapp(WNIL, mkset(TT.rebuild("path", list(path)), nv)))

    def fold(self, it, st, fr, init, step, tag="acc"):
        I = self.I
        self.tmp += 1
        key = ("l", 0, "$%s%d" % (tag, self.tmp))
        st.v[key] = init

        def body(s, e):
            s.v[key] = step(s, s.v[key], e)
            from .engine import Out
            return [Out("n", s)]
        outs = I.iterate(it, st, body, fr)
        m = I.merge([o.st for o in outs if o.k in ("n", "n0")])
        for o in outs:
            if o.k not in ("n", "n0"):
                o.st.v.pop(key, None)
                I.pend.append(o)
        if m is None:
            st.pc = FALSE
            return BOT
        v = m.v.pop(key)
        st.set(m)
        return v

    # -------------------------------------------------------- iteration
    def segments(self, it, st, fr):
        I = self.I
        o = it.op
        if o == "tuple":
            return [("elem", x) for x in it.args]
        nt = TT.tuple_len(it)
        if nt is not None:
            return [("elem", get(it, num(i))) for i in range(nt)]
        if o == "seqv":
            return self.seq_segments(it, it.args[0], st)
        if o == "range":
            lo, hi, step = it.args
            if step is ONE:
                return [("dom", mk("N", sub(hi, lo)), lambda i, s: add(lo, i), None)]
            if is_num(step):
                k = step.args[0]
                from .loops import ceildiv
                n = ceildiv(sub(hi, lo), step) if k > 0 else ceildiv(sub(lo, hi), num(-k))
                return [("dom", mk("N", n), lambda i, s: add(lo, mul(step, i)), None)]
            from .loops import ceildiv
            return [("dom", mk("N", ceildiv(sub(hi, lo), step)), lambda i, s: add(lo, mul(step, i)), None)]
        if o == "rev":
            x = it.args[0]
            segs = self.segments(x, st, fr)
            if all(s[0] == "elem" for s in segs):
                return segs[::-1]
            if len(segs) == 1 and segs[0][1].op == "N" and segs[0][3] is None:
                _, dom, ef, g = segs[0]
                n = dom.args[0]
                return [("dom", dom, lambda i, s: ef(sub(sub(n, ONE), i), s), None)]
            n = I.length(x, st)
            return [("dom", mk("N", n), lambda i, s: I.getitem(x, sub(sub(n, ONE), i), s), None)]
        if o == "enum":
            out = []
            pos = it.args[1]
            for seg in self.segments(it.args[0], st, fr):
                if seg[0] == "elem":
                    out.append(("elem", mk("tuple", pos, seg[1])))
                    pos = add(pos, ONE)
                else:
                    _, dom, ef, g = seg
                    if dom.op == "N" and g is None:
                        out.append(("dom", dom, lambda i, s, p=pos, ef=ef: mk("tuple", add(p, i), ef(i, s)), g))
                        pos = add(pos, dom.args[0])
                    else:
                        out.append(("dom", dom, lambda i, s, p=pos, ef=ef, d=dom: mk("tuple", add(p, mk("posk", d, i)), ef(i, s)), g))
                        pos = add(pos, mk("card", dom))
            return out
        if o == "zip":
            segss = [self.segments(x, st, fr) for x in it.args]
            if all(all(s[0] == "elem" for s in ss) for ss in segss):
                return [("elem", mk("tuple", *xs)) for xs in zip(*[[s[1] for s in ss] for ss in segss])]
            if all(len(ss) == 1 and ss[0][0] == "dom" for ss in segss) and all(ss[0][1] is segss[0][0][1] and ss[0][3] is None for ss in segss):
                efs = [ss[0][2] for ss in segss]
                return [("dom", segss[0][0][1], lambda i, s: mk("tuple", *[ef(i, s) for ef in efs]), None)]
            def ix(ss, x):
                if len(ss) == 1 and ss[0][0] == "dom" and ss[0][1].op == "N" and ss[0][3] is None:
                    return ss[0][2], ss[0][1].args[0]
                return (lambda i, s: I.getitem(x, i, s)), I.length(x, st)
            prs = [ix(ss, x) for ss, x in zip(segss, it.args)]
            n = prs[0][1]
            for _, m in prs[1:]:
                if m is not n:
                    n = self.min2(n, m)
            efs = [p[0] for p in prs]
            return [("dom", mk("N", n), lambda i, s: mk("tuple", *[ef(i, s) for ef in efs]), None)]
        if o == "mapv":
            f, xs = it.args[0], it.args[1:]
            src = xs[0] if len(xs) == 1 else mk("zip", *xs)
            def app(e, s):
                return I.call(f, [e] if len(xs) == 1 else list(e.args), {}, s, fr)
            out = []
            for seg in self.segments(src, st, fr):
                if seg[0] == "elem":
                    out.append(("elemf", seg[1], app))
                else:
                    _, dom, ef, g = seg
                    out.append(("dom", dom, lambda i, s, ef=ef: app(ef(i, s), s), g))
            return out
        if o == "dview":
            which, d = it.args
            if kind_is_table(d):
                return self.table_segments(d, which, st)
            return self.dict_segments(d, which, st)
        k = self.k0(it)
        if k == "dict" or o == "newdict":
            return self.dict_segments(it, "keys", st)
        if k == "table" or o in ("tab", "tseq"):
            I.note("iteration over a table object")
            return self.table_segments(it, "keys", st)
        c = I.content(it, st)
        if c.op == "ite":
            c = under(c, st.pc)
        return self.seq_segments(it, c, st)

    def seq_segments(self, it, c, st):
        I = self.I
        parts = c.args if c.op == "cat" else (c,)
        if c.op == "ite":
            return [("dom", mk("N", I.length(it, st)), lambda i, s: I.getitem(it, i, s), None)]
        out = []
        off = ZERO
        single = len(parts) == 1
        addressable = it.op in ("ref", "sym", "attr", "get", "dget", "tget", "var", "cp", "bv")
        for p in parts:
            if p.op == "one":
                v = p.args[0]
                if addressable and has_template(v):
                    v = mk("get", it, off)
                out.append(("elem", v))
                off = add(off, ONE)
                continue
            n = I.seqlen(p)
            if p.op == "tlist" :
                T = p.args[0]
                out += self.table_segments(T, p.args[1] if len(p.args) > 1 else "items", st)
            elif p.op == "comp" and elt1(p.args[1].args[3]) is not None and not (addressable and self.comp_tmpl(p)):
                dom, lm = p.args
                def gd(i, s, lm=lm):
                    return instantiate(lm, [i])[0]
                def ef2(i, s, lm=lm):
                    c2, q = instantiate(lm, [i])
                    r = elt1(q)
                    return r if r is not None else get(q, ZERO)
                out.append(("dom", dom, ef2, None if lm.args[2] is TRUE else gd))
            elif p.op == "comp" and not (addressable and self.comp_tmpl(p)):
                dom, lm = p.args
                out.append(("nest", dom, lm))
            elif addressable and single:
                out.append(("dom", mk("N", n), lambda i, s: I.getitem(it, i, s), None))
            elif addressable and self.tmpl(p):
                out.append(("dom", mk("N", n), lambda i, s, off=off: I.getitem(it, add(off, i), s), None))
            elif p.op == "slice":
                base, lo, hi = p.args
                if addressable and single:
                    out.append(("dom", mk("N", n), lambda i, s: I.getitem(it, i, s), None))
                else:
                    out.append(("dom", mk("N", n), lambda i, s, p=p: get(p, i), None))
            else:
                out.append(("dom", mk("N", n), lambda i, s, p=p: get(p, i), None))
            off = add(off, n)
        return out

    def comp_tmpl(self, p):
        s = p.args[1].args[3]
        return self.tmpl(s)

    def tmpl(self, s):
        if s.op in ("cat",):
            return any(self.tmpl(x) for x in s.args)
        if s.op == "one":
            return has_template(s.args[0])
        if s.op == "comp":
            return self.comp_tmpl(s)
        if s.op == "ite":
            return self.tmpl(s.args[1]) or self.tmpl(s.args[2])
        if s.op == "upd":
            return self.tmpl(s.args[0])
        if s.op == "slice":
            return self.tmpl(s.args[0])
        return False

    def dict_segments(self, d, which, st):
        I = self.I
        c = I.content(d, st)
        return self.dict_segs(d, c, which, st)

    def dict_segs(self, d, c, which, st):
        I = self.I

        def pick(k, v):
            return k if which == "keys" else v if which == "values" else mk("tuple", k, v)
        if c.op == "upd":
            base = c.args[0]
            segs = self.dict_segs(d, base, "keys", st)
            out = []
            for seg in segs:
                if seg[0] == "elem":
                    out.append(("elem", pick(seg[1], self.dict_get(d, seg[1], st))))
                else:
                    _, dom, ef, g = seg
                    out.append(("dom", dom, lambda i, s, ef=ef: pick(ef(i, s), self.dict_get(d, ef(i, s), s)), g))
            return out
        if c is DNIL:
            return []
        if c.op == "newdict":
            c = c.args[0]
            return self.dict_segs(d, c, which, st)
        if c.op == "dput":
            chain = []
            x = c
            while x.op == "dput":
                chain.append((x.args[1], x.args[2]))
                x = x.args[0]
            seen, out = [], []
            for k, v in reversed(chain):
                for j, (k2, _) in enumerate(out):
                    if k2 is k:
                        out[j] = (k, v)
                        break
                else:
                    out.append((k, v))
            res = self.dict_segs(d, x, which, st) if x is not DNIL else []
            for k, v in out:
                if has_template(v):
                    v = mk("dget", d, k)
                res.append(("elem", pick(k, v)))
            return res
        if c.op == "dcomp" and injective_key(c.args[2]) and c.args[0] is DNIL:
            init, dom, lm = c.args
            res = self.dict_segs(d, init, which, st) if init is not DNIL else []
            tmplv = has_template(lm.args[4])

            def ef(i, s):
                cc, k, v = instantiate(lm, [i])
                if tmplv and d.op in ("ref", "sym", "attr", "get", "dget"):
                    v = mk("dget", d, k)
                return pick(k, v)

            def gd(i, s):
                return instantiate(lm, [i])[0]
            res.append(("dom", dom, ef, None if lm.args[2] is TRUE else gd))
            return res
        n = dlen(c)
        return [("dom", mk("N", n), lambda i, s: pick(dkey(c, i), self.dict_get(d, dkey(c, i), s)), None)]

    def table_segments(self, T, which, st):
        def pick(k, v):
            return k if which == "keys" else v if which == "values" else mk("tuple", k, v)
        if T.op == "tseq":
            x = T.args[0]
            out = []
            pos = ZERO
            for seg in self.seq_segments(mk("newlist", x), x, st):
                if seg[0] == "elem":
                    out.append(("elem", pick(pos, seg[1])))
                    pos = add(pos, ONE)
                else:
                    _, dom, ef, g = seg
                    if dom.op == "N" and g is None:
                        out.append(("dom", dom, lambda i, s, p=pos, ef=ef: pick(add(p, i), ef(i, s)), g))
                        pos = add(pos, dom.args[0])
                    else:
                        out.append(("dom", dom, lambda i, s, p=pos, ef=ef, d=dom: pick(add(p, mk("posk", d, i)), ef(i, s)), g))
                        pos = add(pos, mk("card", dom))
            return out
        return [("dom", K(T), lambda k, s: pick(k, tget(T, k)), None)]

    def as_seq(self, v, st, fr):
        """element sequence of any iterable"""
        I = self.I
        v = under(v, st.pc)
        if v.op == "ite":
            return ite(v.args[0], self.as_seq(v.args[1], st, fr), self.as_seq(v.args[2], st, fr))
        if v.op == "tuple":
            return cat(NIL, *[I.oneof(x) for x in v.args])
        k = self.k0(v)
        if v.op in ("range", "enum", "zip", "rev", "dview", "mapv") or k in ("dict",) or v.op == "newdict":
            return self.fold(v, st, fr, NIL, lambda s, acc, e: cat(acc, I.oneof(e)), "seq")
        nt = TT.tuple_len(v)
        if nt is not None:
            return cat(NIL, *[I.oneof(get(v, num(i))) for i in range(nt)])
        c = I.content(v, st)
        if c.op == "tuple":
            return cat(NIL, *[I.oneof(x) for x in c.args])
        return c

    # -------------------------------------------------------- lists
    def list_extend(self, old, v, st):
        I = self.I
        c = I.content(old, st)
        self.setcontent(old, cat(c, self.as_seq(v, st, None)), st)

    def list_del(self, c, k, st):
        I = self.I
        x = I.content(c, st)
        if self.k0(c) == "dict":
            self.setcontent(c, self.ddel(x, I.rv(k, st)), st)
            return
        self.setcontent(c, call("ldel", x, I.rv(k, st)), st)

    def ddel(self, d, k):
        if d.op == "dput":
            e = eq(d.args[1], k)
            if e is TRUE:
                return self.ddel(d.args[0], k)
            if e is FALSE:
                return dput(self.ddel(d.args[0], k), d.args[1], d.args[2])
        if d is DNIL:
            return d
        return mk("ddel", d, k)

    def slice_read(self, c, sl, st, fr):
        I = self.I
        c = under(c, st.pc)
        if c.op == "ite":
            return ite(c.args[0], self.slice_read(c.args[1], sl, st, fr), self.slice_read(c.args[2], sl, st, fr))
        lo, hi, step = sl.args
        k = self.k0(c)
        if c.op == "tuple":
            try:
                a = c.args[None if lo is NONE else int(cval(lo)):None if hi is NONE else int(cval(hi)):None if step is NONE else int(cval(step))]
                return mk("tuple", *a)
            except KeyError:
                pass
        x = I.content(c, st)
        n = None
        if lo is not NONE and is_num(lo) and lo.args[0] < 0:
            n = I.length(c, st)
            lo = add(n, lo)
        if hi is not NONE and is_num(hi) and hi.args[0] < 0:
            n = n or I.length(c, st)
            hi = add(n, hi)
        if step is not NONE and step is not ONE:
            if is_num(step) and step.args[0] == -1 and lo is NONE and hi is NONE:
                r = self.as_seq(mk("rev", c), st, fr)
            else:
                r = call("slice3", x, lo, hi, step)
        else:
            if hi is not NONE and I.length(c, st) is hi:
                hi = NONE
            r = slice_(x, lo, hi)
        if k in ("str", "bytes") or x.op == "str":
            return r
        if self.tmpl(x) and c.op in ("ref", "sym", "attr", "get", "dget", "tget") and r.op in ("slice", "comp", "cat"):
            # elements stay shared with c: represent as a list of element addresses
            lo2 = ZERO if lo is NONE else lo
            if step is NONE or step is ONE:
                i = fresh("i")
                nn = I.seqlen(r)
                r = mkcomp(mk("N", nn), i, one(mk("get", c, add(lo2, i))))
        return I.newlist(st, r, k if k == "ndarray" else "list")

    def slice_assign(self, o, sl, v, st, fr):
        I = self.I
        s = I.slice_val(sl, st, fr)
        lo, hi, step = s.args
        x = I.content(o, st)
        y = self.as_seq(v, st, fr)
        if lo is NONE and hi is NONE:
            self.setcontent(o, y, st)
            return
        parts = []
        if lo is not NONE:
            parts.append(slice_(x, NONE, lo))
        parts.append(y)
        if hi is not NONE:
            parts.append(slice_(x, hi, NONE))
        self.setcontent(o, cat(NIL, *parts), st)

    # -------------------------------------------------------- dicts
    def dict_get(self, c, i, st):
        I = self.I
        if c.op == "newdict":
            return dget(c.args[0], i)
        root, path = root_path(c)
        cell = I.cell(root, st)
        if cell is not None:
            b = rd(cell, path) if path else cell
            if b.op == "newdict":
                b = b.args[0]
            if b.op == "ref":
                return self.dict_get(b, i, st)
            if b.op == "upd":
                e = rd(b, (pd(i),))
            else:
                e = dget(b, i)
        else:
            e = dget(c, i)
            if c.op == "cp" and kind(e) not in TT.SEQK:
                e = dget(c.args[1], i)
        if has_template(e):
            return mk("dget", c, i)
        return e

    def dict_merge(self, d, src):
        if src is DNIL:
            return d
        if src.op == "dput":
            return dput(self.dict_merge(d, src.args[0]), src.args[1], src.args[2])
        if src.op == "newdict":
            return self.dict_merge(d, src.args[0])
        if d is DNIL:
            return src
        if src.op == "dcomp" and src.args[0] is DNIL:
            return mk("dcomp", d, src.args[1], src.args[2])
        return mk("dmerge", d, src)

    def din(self, c, i, st):
        I = self.I
        x = I.content(c, st)
        while x.op in ("upd", "newdict"):
            x = x.args[0]
        return under(din(x, i), st.pc)

    def contains(self, container, item, st, fr):
        I = self.I
        c = under(container, st.pc)
        if c.op == "ite":
            return ite(c.args[0], self.contains(c.args[1], item, st, fr), self.contains(c.args[2], item, st, fr))
        if item.op == "ite":
            return ite(item.args[0], self.contains(c, item.args[1], st, fr), self.contains(c, item.args[2], st, fr))
        if c.op == "dview":
            if kind_is_table(c.args[1]):
                if c.args[0] == "keys":
                    return tin(item, c.args[1])
            elif c.args[0] == "keys":
                return self.din(c.args[1], item, st)
        if c.op == "range":
            lo, hi, step = c.args
            if step is ONE:
                return and_(le(lo, item), lt(item, hi))
        k = self.k0(c)
        if k == "dict" or c.op == "newdict":
            return self.din(c, item, st)
        if c.op == "str" and item.op == "str":
            return const(item.args[0] in c.args[0])
        x = I.content(c, st)
        if x.op == "cat" and all(p.op == "one" for p in x.args):
            return or_(*[I.equal(p.args[0], item, st, fr, None) for p in x.args]) if x.args else FALSE
        if x.op == "tuple":
            return or_(*[I.equal(p, item, st, fr, None) for p in x.args])
        return mk("in", self.V(item, st), self.V(c, st) if c.op != "ref" else I.reify(x, st))

    # -------------------------------------------------------- operators
    def num(self, v):
        return self.I.num(v)

    def binop(self, op, a, b, st, fr, node):
        I = self.I
        o = type(op)
        ka, kb = self.k0(a), self.k0(b)
        if o is ast.Add:
            if ka == "list" or kb == "list" or a.op == "newlist" or b.op == "newlist":
                return I.newlist(st, cat(NIL, self.as_seq(a, st, fr), self.as_seq(b, st, fr)))
            if a.op == "tuple" and b.op == "tuple":
                return mk("tuple", *(a.args + b.args))
            if ka in ("str", "bytes") or kb in ("str", "bytes"):
                return cat(a, b)
        if o is ast.Mult:
            for x, y in ((a, b), (b, a)):
                kx = self.k0(x)
                if kx == "list" or x.op == "newlist":
                    c = I.content(x, st)
                    n = I.num(y)
                    if is_num(n) and n.args[0] <= 16:
                        return I.newlist(st, cat(NIL, *[c] * int(n.args[0])))
                    i = fresh("i")
                    return I.newlist(st, mkcomp(mk("N", n), i, c))
                if kx == "str":
                    return call("strrep", x, y)
        if o is ast.Mod and (ka == "str"):
            args = list(b.args) if b.op == "tuple" else [b]
            return call("fmt", a, *[self.V(x, st) for x in args])
        if ka == "set" or kb == "set" or (a.op in ("newset", "dview") or b.op in ("newset", "dview")):
            nm = {ast.Sub: "setminus", ast.BitOr: "setor", ast.BitAnd: "setand", ast.BitXor: "setxor"}.get(o)
            if nm:
                return I.newref(st, "set", call(nm, self.seqv(a, st), self.seqv(b, st)))
        a, b = I.num(a), I.num(b)
        a, b = self.V(a, st) if a.fv else a, self.V(b, st) if b.fv else b
        if o is ast.Add:
            return self.arith(add, a, b)
        if o is ast.Sub:
            return self.arith(sub, a, b)
        if o is ast.Mult:
            return self.arith(mul, a, b)
        if o is ast.Div:
            return div(a, b)
        if o is ast.Pow:
            return pow_(a, b)
        if o is ast.FloorDiv:
            return self.floordiv(a, b)
        if o is ast.Mod:
            return self.mod(a, b)
        nm = {ast.LShift: "shl", ast.RShift: "shr", ast.BitAnd: "band", ast.BitOr: "bor", ast.BitXor: "bxor", ast.MatMult: "matmul"}[o]
        if nm == "shl" and is_num(b):
            return mul(a, num(2 ** int(b.args[0])))
        if nm == "shl":
            return mul(a, pow_(num(2), b))
        if is_num(a) and is_num(b) and nm in ("band", "bor", "bxor", "shr"):
            x, y = int(a.args[0]), int(b.args[0])
            return num({"band": x & y, "bor": x | y, "bxor": x ^ y, "shr": x >> max(y, 0)}[nm])
        if nm in ("band", "bor", "bxor") and a.h > b.h:
            a, b = b, a
        if nm in ("band", "bor") and I.isbool(a) and I.isbool(b):
            return and_(a, b) if nm == "band" else or_(a, b)
        return call(nm, a, b)

    def arith(self, f, a, b):
        return f(a, b)

    def seqv(self, x, st):
        if x.op in ("dview", "range", "zip", "enum", "rev", "mapv"):
            return self.as_seq(x, st, None)
        return self.I.reify(self.I.content(x, st), st)

    def floordiv(self, a, b):
        r = TT.lift(self.floordiv, (a, b))
        if r is not None:
            return r
        if is_num(a) and is_num(b) and b.args[0] != 0:
            return num((a.args[0] // b.args[0]))
        if b is ONE and TT.isint(a):
            return a
        return call("floordiv", a, b)

    def mod(self, a, b):
        r = TT.lift(self.mod, (a, b))
        if r is not None:
            return r
        if is_num(a) and is_num(b) and b.args[0] != 0:
            return num(a.args[0] % b.args[0])
        return call("mod", a, b)

    # -------------------------------------------------------- strings
    def fmt1(self, x, spec, conv):
        if conv == 114:
            x = self.tostr(x, "repr")
        elif conv == 115:
            x = self.tostr(x, "str")
        if spec in ("", "s", None):
            return self.tostr(x, "str")
        m = spec
        if len(m) >= 2 and m[0] in "<>^" and m[1:].isdigit():
            nm = {"<": "ljust", ">": "rjust", "^": "center"}[m[0]]
            if m[1:][0] != "0":
                return call(nm, self.tostr(x, "str"), num(int(m[1:])))
        if m.isdigit() and m[0] != "0":
            return call("ljust" if self.k0(x) == "str" else "rjust", self.tostr(x, "str"), num(int(m)))
        return call("fmtspec", x, const(spec))

    def tostr(self, x, how="str"):
        if x.op == "ite":
            return ite(x.args[0], self.tostr(x.args[1], how), self.tostr(x.args[2], how))
        if how == "str" and self.k0(x) == "str":
            return x
        if how == "str" and is_const(x) and x.op in ("true", "false", "none"):
            return const({"true": "True", "false": "False", "none": "None"}[x.op])
        if how == "str" and is_num(x) and x.args[0].denominator == 1:
            return const(str(int(x.args[0])))
        return call(how, x)

    def strcat(self, parts):
        if not parts:
            return const("")
        if len(parts) == 1:
            return parts[0]
        return cat(*parts)

    def format(self, s, args, kw, st):
        """str.format with literal pattern"""
        if s.op != "str":
            return call("format", s, *[self.V(a, st) for a in args], *[mk("kw", k, self.V(v, st)) for k, v in sorted(kw.items())])
        import string
        parts, n = [], 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(s.args[0]):
                if lit:
                    parts.append(const(lit))
                if field is None:
                    continue
                if "{" in (spec or ""):
                    raise KeyError
                if field == "":
                    v = args[n]
                    n += 1
                elif field.isdigit():
                    v = args[int(field)]
                elif field in kw:
                    v = kw[field]
                else:
                    raise KeyError
                parts.append(self.fmt1(self.V(v, st), spec, {"r": 114, "s": 115}.get(conv, -1)))
        except (KeyError, IndexError, ValueError):
            return call("format", s, *[self.V(a, st) for a in args], *[mk("kw", k, self.V(v, st)) for k, v in sorted(kw.items())])
        return self.strcat(parts)

    # -------------------------------------------------------- attributes
    def ref_attr(self, o, name, st):
        I = self.I
        k = kind(o) or ""
        h = split_ty(k)[0]
        if h == "ndarray":
            if name == "shape":
                n = I.length(o, st)
                c = I.content(o, st)
                inner = None
                if c.op in ("comp", "cat"):
                    e = get(c, ZERO)
                    if e.op == "ndv" or e.op == "newlist":
                        inner = I.seqlen(e.args[0])
                return mk("tuple", n) if inner is None else mk("tuple", n, inner)
            if name == "size":
                return I.length(o, st)
            if name == "T":
                return call("transpose", self.V(o, st))
        if k.startswith("obj:pb."):
            r = I.newref(st, "pbf", NIL)
            st.v[("f", o, name)] = r
            return r
        return attr(o, name)

    # -------------------------------------------------------- tables
    def new_table(self, args, kw, st):
        I = self.I
        names = ["include_key", "data"]
        d = dict(zip(names, args))
        d.update(kw)
        ik, data = d.get("include_key", NONE), d.get("data", NONE)
        if data is NONE:
            k = fresh("p")
            return mk("tab", lam([k], [BOT]))
        seq = I.reify(self.as_seq(data, st, None), st)
        if ik is FALSE:
            return mk("tseq", seq)
        if ik is TRUE:
            t = self.table_from_pairs(seq)
            if t is not None:
                return t
            if seq.op == "ite":
                return ite(seq.args[0], self.tdict(seq.args[1]), self.tdict(seq.args[2]))
            return self.tdict(seq)
        return ite(I.truth(ik, st), self.tdict(seq), mk("tseq", seq))

    def tdict(self, seq):
        t = self.table_from_pairs(seq)
        return t if t is not None else mk("tdict", seq)

    def table_from_pairs(self, seq):
        if seq is NIL:
            k = fresh("p")
            return mk("tab", lam([k], [BOT]))
        if seq.op == "comp" and seq.args[0].op == "K":
            dom, lm = seq.args
            k = fresh("p")
            c, s = instantiate(lm, [k])
            base = instantiate(dom.args[0], [k])
            if s.op == "cat" and len(s.args) == 1 and s.args[0].op == "one":
                p = s.args[0].args[0]
                if p.op == "tuple" and len(p.args) == 2 and p.args[0] is k:
                    return mktab(k, ite(and_(base, c), p.args[1], BOT))
        return None

    def tmap(self, T, st, fr, f, keep=None):
        """new table: key -> f(key, value, state); keep(key, value, state) filters"""
        I = self.I
        if T.op == "ite":
            c, a, b = I.branch(T.args[0], st)
            if b is None:
                return self.tmap(T.args[1], st, fr, f, keep)
            if a is None:
                return self.tmap(T.args[2], st, fr, f, keep)
            x = self.tmap(T.args[1], a, fr, f, keep)
            y = self.tmap(T.args[2], b, fr, f, keep)
            st.set(I.merge([a, b]))
            return ite(c, x, y)
        if T.op == "tseq" and keep is None:
            r = I.newlist(st, NIL)
            base = mk("newlist", T.args[0])

            def stepf(s, acc, e):
                v = f(e.args[0], e.args[1], s)
                return cat(acc, I.oneof(self.val(v, s)))
            seq = self.fold(mk("dview", "items", T), st, fr, NIL, stepf, "tm")
            return mk("tseq", I.reify(seq, st) if any(x.op == "ref" for x in seq.fv) else seq)
        d = I.newdict(st)

        def stepk(s, acc, e):
            k, v = e.args
            if keep is not None:
                c = keep(k, v, s)
                c = under(c, s.pc)
                if c is FALSE:
                    return acc
                return ite(c, dput(acc, k, v), acc) if c is not TRUE else dput(acc, k, v)
            r = f(k, v, s)
            return dput(acc, k, I.reify_new(self.val(r, s), s, ctr))
        ctr = I.nref
        D = self.fold(mk("dview", "items", T), st, fr, DNIL, stepk, "tm")
        return self.from_dict(T, D, st)

    def from_dict(self, T, D, st):
        if D.op == "ite":
            return ite(D.args[0], self.from_dict(T, D.args[1], st), self.from_dict(T, D.args[2], st))
        if D is DNIL:
            k = fresh("p")
            return mk("tab", lam([k], [BOT]))
        if D.op == "dcomp" and D.args[0] is DNIL and D.args[1].op == "K":
            k = fresh("p")
            c, kk, v = instantiate(D.args[2], [k])
            base = instantiate(D.args[1].args[0], [k])
            if kk is k:
                return mktab(k, ite(and_(base, c), strip(v), BOT))
        return mk("tdict", D)

    def tcount(self, T):
        if T.op == "ite":
            return ite(T.args[0], self.tcount(T.args[1]), self.tcount(T.args[2]))
        if T.op == "tseq":
            return self.I.seqlen(T.args[0])
        k = K(T)
        lm = k.args[0]
        if lm.args[2] is FALSE:
            return ZERO
        return mk("card", k)

    def table_method(self, T, name, args, kw, st, fr, node):
        I = self.I
        if T.op == "ite":
            c, a, b = I.branch(T.args[0], st)
            if b is None:
                return self.table_method(T.args[1], name, args, kw, st, fr, node)
            if a is None:
                return self.table_method(T.args[2], name, args, kw, st, fr, node)
            x = self.table_method(T.args[1], name, args, kw, a, fr, node)
            y = self.table_method(T.args[2], name, args, kw, b, fr, node)
            st.set(I.merge([a, b]))
            return None if x is None else ite(c, x, y)
        A = list(args)
        if name in ("map", "mapValues", "mapPartitions", "reduce", "filter", "subtractByKey") and not A and kw:
            A = [list(kw.values())[0]]
        if "net:tables" in I.stubs:
            r = I.stubs["net:tables"](I, T, name)
            if r is not None:
                return r
        if name == "collect" or name == "get_kvs":
            return mk("dview", "items", T)
        if name == "get_keys":
            return mk("dview", "keys", T)
        if name == "get_values":
            return mk("dview", "values", T)
        if name == "count":
            if "net:count" in I.stubs:
                return self.stream("count", [], st, "int")
            return self.tcount(T)
        if name == "mapValues":
            return self.tmap(T, st, fr, lambda k, v, s: I.call(A[0], [v], {}, s, fr, node))
        if name == "map":
            return self.tmap(T, st, fr, lambda k, v, s: I.call(A[0], [k, v], {}, s, fr, node))
        if name == "filter":
            def keep(k, v, s):
                r = I.call(A[0], [k, v], {}, s, fr, node)
                return I.equal(I.rv(r, s), TRUE, s, fr, node)
            return self.tmap(T, st, fr, None, keep)
        if name in ("join", "union"):
            other = A[0] if A else kw.get("other")
            f = A[1] if len(A) > 1 else kw.get("func")
            if other.op == "ite":
                c, a, b = I.branch(other.args[0], st)
                if a is None or b is None:
                    other = other.args[1] if b is None else other.args[2]
                else:
                    x = self.table_method(T, name, [other.args[1]] + A[1:], kw, a, fr, node)
                    y = self.table_method(T, name, [other.args[2]] + A[1:], kw, b, fr, node)
                    st.set(I.merge([a, b]))
                    return ite(c, x, y)
            if not kind_is_table(other):
                declare(other, "table")
                TT._KCACHE.pop(other, None)
            k = fresh("p")
            ck = and_(tcond(diag(T, k)), tcond(diag(other, k)))
            dom = mk("K", lam([k], [ck]))
            ctr = I.nref

            def app(kk, s):
                v1, v2 = tget(T, kk), tget(other, kk)
                if f is None:
                    return v1
                return self.val(I.call(f, [v1, v2], {}, s, fr, node), s)
            if ck is FALSE:
                D = DNIL
            else:
                D = self.foldd(dom, st, fr, DNIL, lambda s, acc, kk: dput(acc, kk, I.reify_new(app(kk, s), s, ctr)))
            J = self.from_dict(None, D, st)
            if name == "join":
                return J
            if J.op == "ite":
                I.note("union of conditional tables")
            kk = fresh("p")
            d1, d2, dj = diag(T, kk), diag(other, kk), diag(J, kk)
            c1, c2 = tcond(d1), tcond(d2)
            return mktab(kk, ite(and_(c1, c2), dj, ite(c1, d1, d2)))
        if name == "subtractByKey":
            kk = fresh("p")
            d1 = diag(T, kk)
            c2 = tcond(diag(A[0], kk)) if not A[0].op == "ite" else tcond(diag(A[0], kk))
            return mktab(kk, ite(c2, BOT, d1))
        if name == "reduce":
            return self.treduce(T, A[0], st, fr, node)
        if name == "mapPartitions":
            r = I.call(A[0], [mk("dview", "items", T)], {}, st, fr, node)
            return self.new_table([FALSE, r], {}, st)
        if name == "mapReducePartitions":
            m = A[0] if A else kw["mapper"]
            r = A[1] if len(A) > 1 else kw["reducer"]
            l = I.call(m, [mk("dview", "items", T)], {}, st, fr, node)
            seq = I.reify(self.as_seq(l, st, fr), st)
            a, b = fresh("p"), fresh("p")
            s2 = st.copy()
            v = I.call(r, [a, b], {}, s2, fr, node)
            return mk("tmr", seq, lam([a, b], [I.reify(v, s2)]))
        if name == "first":
            k0 = mk("tkey", K(T), ZERO) if T.op != "tseq" else ZERO
            v = tget(T, k0) if T.op != "tseq" else get(T.args[0], ZERO)
            n = self.tcount(T)
            return ite(lt(ZERO, n), v, NONE)
        if name == "take":
            n = A[0] if A else kw.get("n", ONE)
            k0 = mk("tkey", K(T), ZERO) if T.op != "tseq" else ZERO
            if n is ONE:
                v = tget(T, k0) if T.op != "tseq" else get(T.args[0], ZERO)
                return I.newlist(st, ite(lt(ZERO, self.tcount(T)), one(mk("tuple", k0, v)), NIL)) if False else \
                    I.newlist(st, cat(NIL, one(mk("tuple", k0, v))))
            return I.newlist(st, mk("ttake", T, n))
        return None

    def foldd(self, dom, st, fr, init, step):
        from .engine import Out
        I = self.I
        self.tmp += 1
        key = ("l", 0, "$d%d" % self.tmp)
        st.v[key] = init

        def body(s, kk):
            s.v[key] = step(s, s.v[key], kk)
            return [Out("n", s)]
        outs = I.loop(dom, st, body, fr, None)
        m = I.merge([o.st for o in outs if o.k in ("n", "n0")])
        for o in outs:
            if o.k not in ("n", "n0"):
                o.st.v.pop(key, None)
                I.pend.append(o)
        if m is None:
            st.pc = FALSE
            return BOT
        v = m.v.pop(key)
        st.set(m)
        return v

    def treduce(self, T, f, st, fr, node):
        I = self.I
        if T.op == "tseq":
            x = T.args[0]
            if x.op == "cat" and all(p.op == "one" for p in x.args):
                if not x.args:
                    return NONE
                acc = x.args[0].args[0]
                acc = self.thaw(acc, st)
                for p in x.args[1:]:
                    acc = I.call(f, [acc, self.thaw(p.args[0], st)], {}, st, fr, node)
                return acc
        k = fresh("p")
        v = tval(T, k) if T.op != "tseq" else get(T.args[0], k)
        dom = K(T) if T.op != "tseq" else mk("N", self.tcount(T))
        # componentwise addition
        def shape(u):
            if u.op == "tuple":
                return len(u.args)
            if u.op == "ite":
                n = shape(u.args[1])
                return n if n == shape(u.args[2]) else None
            kk = split_ty(kind(u) or "")
            if kk[0] == "tuple" and kk[1] and "|" in kk[1]:
                return len(TT._split_bar(kk[1]))
            return None
        n = shape(v)
        s2 = st.copy()
        if n:
            a = [fresh("p") for _ in range(n)]
            b = [fresh("p") for _ in range(n)]
            r = I.call(f, [mk("tuple", *a), mk("tuple", *b)], {}, s2, fr, node)
            r = I.reify(r, s2)
            def addlike(j, x, p, q):
                # p + g(b) with g(element) = the element's own component: the same running sum
                if x is add(p, q):
                    return True
                g = sub(x, p)
                if contains(g, lambda u: u in a):
                    return False
                return subst(g, {b[i]: get(v, num(i)) for i in range(n)}) is get(v, num(j))
            if r.op == "tuple" and len(r.args) == n and all(addlike(j, x, p, q) for j, (x, p, q) in enumerate(zip(r.args, a, b))):
                return mk("tuple", *[self.tsum(dom, k, get(v, num(j))) for j in range(n)])
        else:
            a, b = fresh("p"), fresh("p")
            r = I.call(f, [a, b], {}, s2, fr, node)
            r = I.reify(r, s2)
            if r is add(a, b):
                return self.tsum(dom, k, v)
            g0, g1 = (get(a, ZERO), get(a, ONE)), (get(b, ZERO), get(b, ONE))
            if r.op == "tuple" and len(r.args) == 2 and r.args[0] is add(g0[0], g1[0]) and r.args[1] is add(g0[1], g1[1]):
                return mk("tuple", *[self.tsum(dom, k, get(v, num(j))) for j in range(2)])
        fv = I.reify(f, st)
        if fv.op == "fn" or fv.op in ("part", "bound"):
            a, b = fresh("p"), fresh("p")
            s3 = st.copy()
            r = I.reify(I.call(f, [a, b], {}, s3, fr, node), s3)
            fv = mk("fun", lam([a, b], [r]))
        return mk("treduce", dom, lam([k], [v]), fv)

    def tsum(self, dom, k, v):
        if dom.op == "N":
            i = fresh("i")
            return mksum(dom, i, subst(v, {k: i}))
        return mksum(dom, k, v)

    def thaw(self, v, st):
        """fresh heap objects for a value template"""
        I = self.I
        if v.op == "newlist":
            return I.newlist(st, self.thaw_seq(v.args[0], st))
        if v.op == "newdict":
            return I.newdict(st, v.args[0])
        return v

    def thaw_seq(self, c, st):
        return c

    # -------------------------------------------------------- calls
    def call(self, f, args, kw, st, fr, node):
        I = self.I
        name = f.args[0]
        if f.op == "ext":
            if name.startswith("pb.") or "_pb2." in name:
                r = I.newref(st, "obj:pb." + name.split(".")[-1])
                for k, v in kw.items():
                    st.v[("f", r, k)] = v
                return r
        h = getattr(self, "c_" + name.replace(".", "_"), None)
        if h is not None:
            r = h(args, kw, st, fr, node)
            if r is not None:
                return r
        if f.op == "builtin" and name.endswith(("Error", "Exception", "Warning")):
            return mk("exc_t", name)
        ps = NPSIG.get(name)
        if ps and len(args) > 1 and len(args) <= len(ps) + 1 and not set(ps[:len(args) - 1]) & set(kw):
            kw = dict(kw, **dict(zip(ps, args[1:])))
            args = args[:1]
        if ps and kw.get("axis") is NONE:
            kw = {k: v for k, v in kw.items() if k != "axis"}
        if name.startswith("warnings.") or name in ("numpy.random.seed", "random.seed") and False:
            return NONE
        if name.startswith(("random.", "numpy.random.", "os.urandom", "secrets.", "time.", "Cryptodome.Random", "gmpy2.random", "uuid.")):
            if name in ("random.SystemRandom", "numpy.random.RandomState", "random.Random"):
                r = I.newref(st, "obj:ext." + name)
                self.event("rand", name, args, st)
                return r
            if name in ("random.shuffle", "numpy.random.shuffle"):
                c = I.content(args[0], st)
                s = self.stream("rand:" + name, [], st)
                self.setcontent(args[0], call("shuffled", I.reify(c, st), s), st)
                return NONE
            vs = [self.V(a, st) for a in args] + [mk("kw", k, self.V(v, st)) for k, v in sorted(kw.items())]
            if name.endswith(".seed"):
                st.v[("x", "seed:" + name)] = vs[0] if vs else NONE
                self.event("rand", name, args, st)
                return NONE
            return self.stream("rand:" + name, vs, st)
        if name.startswith(("socket.", "open", "subprocess.", "shutil.")) or name in ("open", "input"):
            vs = [self.V(a, st) for a in args]
            self.event("io", name, args, st)
            return self.stream("io:" + name, vs, st)
        vs = [self.V(a, st) for a in args] + [mk("kw", k, self.V(v, st)) for k, v in sorted(kw.items())]
        if name not in PURE_SAFE:
            self.mayraise(name, vs)
        return call(name, *vs)

    def call_unknown(self, f, args, kw, st, fr, node):
        I = self.I
        if f.op in ("unbound", "undef"):
            I.note("call of unbound %s" % show(f, 2), node, fr)
        vs = [self.V(a, st) for a in args] + [mk("kw", k, self.V(v, st)) for k, v in sorted(kw.items())]
        h = I.hooks.get("unknown_call")
        if h:
            r = h(I, f, vs, st)
            if r is not None:
                return r
        if f.op == "fun":
            lm = f.args[0]
            if lm.op == "lam" and lm.args[1] == len(vs):
                return instantiate(lm, vs)
        if f.op == "attr" and isinstance(f.args[1], str) and not f.args[1].startswith("__"):
            # a method picked off an object and called later is the method call
            return self.call_unknown_method(f.args[0], f.args[1], f, args, kw, st, fr, node)
        return TT.lift(lambda g: mk("apply", g, *vs), (f,)) or mk("apply", f, *vs)

    # builtins -----------------------------------------------------
    def c_len(self, a, kw, st, fr, node):
        x = a[0]
        if x.op in ("dview",):
            d = x.args[1]
            return self.tcount(d) if kind_is_table(d) else self.I.length(d, st)
        if x.op in ("range", "zip", "enum", "rev", "mapv"):
            return self.I.seqlen(self.as_seq(x, st, fr))
        return under(self.I.length(x, st), st.pc)

    def c_range(self, a, kw, st, fr, node):
        a = [self.I.rv(x, st) for x in a]
        if len(a) == 1:
            return mk("range", ZERO, a[0], ONE)
        if len(a) == 2:
            return mk("range", a[0], a[1], ONE)
        return mk("range", *a)

    def c_enumerate(self, a, kw, st, fr, node):
        return mk("enum", a[0], a[1] if len(a) > 1 else kw.get("start", ZERO))

    def c_zip(self, a, kw, st, fr, node):
        return mk("zip", *a)

    def c_reversed(self, a, kw, st, fr, node):
        return mk("rev", a[0])

    def c_map(self, a, kw, st, fr, node):
        return self.I.newlist(st, self.as_seq(self.eager(mk("mapv", *a), st, fr), st, fr))

    def eager(self, v, st, fr):
        I = self.I
        f, xs = v.args[0], v.args[1:]
        src = xs[0] if len(xs) == 1 else mk("zip", *xs)

        def stepf(s, acc, e):
            r = I.call(f, [e] if len(xs) == 1 else [I.getitem(e, num(j), s) for j in range(len(xs))], {}, s, fr)
            return cat(acc, I.oneof(r))
        return mk("newlist", self.fold(src, st, fr, NIL, stepf, "map"))

    def c_filter(self, a, kw, st, fr, node):
        I = self.I

        def stepf(s, acc, e):
            c = I.truth(I.call(a[0], [e], {}, s, fr), s) if a[0] is not NONE else I.truth(e, s)
            return ite(c, cat(acc, I.oneof(e)), acc)
        return I.newlist(st, self.fold(a[1], st, fr, NIL, stepf, "flt"))

    def c_list(self, a, kw, st, fr, node):
        I = self.I
        if not a:
            return I.newlist(st, NIL)
        return I.newlist(st, self.elemaddr(a[0], self.as_seq(a[0], st, fr), st))

    def elemaddr(self, src, seq, st):
        """elements of a copied list stay the same objects"""
        I = self.I
        if self.tmpl(seq) and src.op in ("ref", "sym", "attr", "get", "dget", "tget") and self.k0(src) in ("list", "ndarray"):
            i = fresh("i")
            return mkcomp(mk("N", I.seqlen(seq)), i, one(mk("get", src, i)))
        return seq

    def c_tuple(self, a, kw, st, fr, node):
        if not a:
            return mk("tuple")
        if a[0].op == "tuple":
            return a[0]
        c = self.as_seq(a[0], st, fr)
        if c.op == "cat" and all(p.op == "one" for p in c.args):
            return mk("tuple", *[p.args[0] for p in c.args])
        return call("tuple", self.I.reify(c, st))

    def c_set(self, a, kw, st, fr, node):
        if not a:
            return self.I.newref(st, "set", NIL)
        return self.I.newref(st, "set", self.as_seq(a[0], st, fr))
    c_frozenset = c_set

    def c_dict(self, a, kw, st, fr, node):
        I = self.I
        d = DNIL
        if a:
            x = a[0]
            if self.k0(x) in ("dict",) or x.op == "newdict":
                d = I.content(x, st)
                while d.op == "newdict":
                    d = d.args[0]
            elif x.op in ("zip", "enum", "dview", "rev", "mapv") or x.op == "ref" and self.k0(x) == "list" or self.k0(x) in ("list",):
                def stepf(s, acc, e):
                    return dput(acc, I.rv(I.getitem(e, ZERO, s), s), I.getitem(e, ONE, s))
                d = self.fold(x, st, fr, DNIL, stepf, "dct")
            else:
                d = I.content(x, st)
        for k in kw:
            if k != "**":
                d = dput(d, const(k), kw[k])
        return I.newdict(st, d)

    def c_str(self, a, kw, st, fr, node):
        return self.tostr(self.V(a[0], st)) if a else const("")

    def c_repr(self, a, kw, st, fr, node):
        return self.tostr(self.V(a[0], st), "repr")

    def c_int(self, a, kw, st, fr, node):
        if not a:
            return ZERO
        x = self.I.num(self.V(a[0], st))
        return self.toint(x) if len(a) == 1 else call("int", x, *[self.V(y, st) for y in a[1:]])

    def toint(self, x):
        if x.op == "ite":
            return ite(x.args[0], self.toint(x.args[1]), self.toint(x.args[2]))
        k = kind(x)
        if k == "int":
            return x
        if is_num(x):
            return num(int(x.args[0]))
        if x.op == "str":
            try:
                return num(int(x.args[0]))
            except ValueError:
                pass
        if k not in ("float", "num"):
            self.mayraise("int", [x])
        return call("int", x)

    def c_float(self, a, kw, st, fr, node):
        if not a:
            return ZERO
        x = self.I.num(self.V(a[0], st))
        return self.tofloat(x)

    def tofloat(self, x):
        if x.op == "ite":
            return ite(x.args[0], self.tofloat(x.args[1]), self.tofloat(x.args[2]))
        if kind(x) in ("int", "float", "num"):
            return x
        if x.op == "str":
            return mk("const", x.args[0]) if x.args[0] in ("inf", "-inf", "nan") else call("float", x)
        if x.op == "call" and x.args[0] == "float":
            return x
        self.mayraise("float", [x])
        return call("float", x)

    def c_bool(self, a, kw, st, fr, node):
        return self.I.truth(a[0], st) if a else FALSE

    def c_abs(self, a, kw, st, fr, node):
        return self.abs(self.I.num(self.V(a[0], st)))

    def abs(self, x):
        if x.op == "ite":
            return ite(x.args[0], self.abs(x.args[1]), self.abs(x.args[2]))
        if is_num(x):
            return num(abs(x.args[0]))
        if kind(x) in ("int", "float", "num"):
            return ite(le(ZERO, x), x, neg(x))
        return call("abs", x)

    c_numpy_abs = c_numpy_fabs = c_math_fabs = c_numpy_absolute = c_abs

    def min2(self, a, b):
        if kind(a) in ("int", "num") and kind(b) in ("int", "num") and b.h < a.h:
            a, b = b, a
        return ite(le(a, b), a, b)

    def max2(self, a, b):
        if kind(a) in ("int", "num") and kind(b) in ("int", "num") and b.h < a.h:
            a, b = b, a
        return ite(le(b, a), a, b)

    def _mm(self, a, kw, st, fr, name):
        I = self.I
        if kw:
            return None
        if len(a) >= 2:
            xs = [I.num(self.V(x, st)) for x in a]
            if any(is_seqk(x) for x in xs):
                return None
            r = xs[0]
            for x in xs[1:]:
                r = self.min2(r, x) if name == "min" else self.max2(r, x)
            return r
        c = self.as_seq(a[0], st, fr)
        if c.op == "cat" and c.args and all(p.op == "one" for p in c.args):
            return self._mm([p.args[0] for p in c.args], {}, st, fr, name) if len(c.args) > 1 else c.args[0].args[0]
        return call(name, I.reify(c, st))

    def c_min(self, a, kw, st, fr, node):
        return self._mm(a, kw, st, fr, "min")

    def c_max(self, a, kw, st, fr, node):
        return self._mm(a, kw, st, fr, "max")

    def c_sum(self, a, kw, st, fr, node):
        I = self.I
        init = a[1] if len(a) > 1 else kw.get("start", ZERO)
        return self.fold(a[0], st, fr, init, lambda s, acc, e: I.binop(ast.Add(), acc, e, s, fr, node), "sum")

    def c_any(self, a, kw, st, fr, node):
        I = self.I
        return self.fold(a[0], st, fr, FALSE, lambda s, acc, e: or_(truth(acc), I.truth(e, s)), "any")

    def c_all(self, a, kw, st, fr, node):
        I = self.I
        return self.fold(a[0], st, fr, TRUE, lambda s, acc, e: and_(truth(acc), I.truth(e, s)), "all")

    def c_sorted(self, a, kw, st, fr, node):
        I = self.I
        seq = I.reify(self.as_seq(a[0], st, fr), st)
        kws = [mk("kw", k, self.V(v, st)) for k, v in sorted(kw.items())]
        return I.newlist(st, call("sorted", seq, *kws))

    def c_round(self, a, kw, st, fr, node):
        x = self.V(a[0], st)
        if len(a) == 1:
            if kind(x) == "int":
                return x
            if x.op == "ite":
                return ite(x.args[0], self.c_round([x.args[1]], kw, st, fr, node), self.c_round([x.args[2]], kw, st, fr, node))
            return call("round", x)
        return None

    def c_divmod(self, a, kw, st, fr, node):
        x, y = self.V(a[0], st), self.V(a[1], st)
        return mk("tuple", self.floordiv(x, y), self.mod(x, y))

    def c_pow(self, a, kw, st, fr, node):
        vs = [self.V(x, st) for x in a]
        if len(vs) == 2:
            return pow_(*vs)
        return call("powmod", *vs)

    def c_math_pow(self, a, kw, st, fr, node):
        return pow_(self.V(a[0], st), self.V(a[1], st))
    c_numpy_power = c_math_pow

    def c_numpy_square(self, a, kw, st, fr, node):
        x = self.V(a[0], st)
        return mul(x, x)

    def c_math_log(self, a, kw, st, fr, node):
        vs = [self.V(x, st) for x in a]
        if len(vs) == 2 and all(is_num(v) and v.args[0].denominator == 1 and v.args[0] > 1 for v in vs):
            v, b, k = int(vs[0].args[0]), int(vs[1].args[0]), 0
            while v % b == 0:
                v, k = v // b, k + 1
            if v == 1:
                return num(k)
        return call("math.log", *vs)

    def c_math_log2(self, a, kw, st, fr, node):
        return self.c_math_log([a[0], num(2)], kw, st, fr, node)

    def c_math_floor(self, a, kw, st, fr, node):
        x = self.V(a[0], st)
        if kind(x) == "int":
            return x
        if is_num(x):
            import math
            return num(math.floor(x.args[0]))
        return call("math.floor", x)

    def c_math_ceil(self, a, kw, st, fr, node):
        x = self.V(a[0], st)
        if kind(x) == "int":
            return x
        if is_num(x):
            import math
            return num(math.ceil(x.args[0]))
        return call("math.ceil", x)

    def c_type(self, a, kw, st, fr, node):
        x = under(self.I.rv(a[0], st), st.pc)
        if x.op == "ite":
            return ite(x.args[0], self.c_type([x.args[1]], kw, st, fr, node), self.c_type([x.args[2]], kw, st, fr, node))
        k = kind(x) or ""
        h = split_ty(k)[0] or ("tuple" if x.op == "tuple" else "")
        if h in ("tuple", "list", "dict", "set", "str", "bytes", "int", "float", "bool"):
            return mk("builtin", h)
        if h == "ndarray":
            return mk("ext", "numpy.ndarray")
        if h.startswith("obj:") and not h.startswith("obj:ext.") and not h.startswith("obj:pb."):
            c = self.I.class_of(x)
            if c is not None:
                return self.I.cls(c)
        return call("type", self.V(a[0], st))

    def c_isinstance(self, a, kw, st, fr, node):
        return self.isinstance(self.I.rv(a[0], st), a[1], st)

    def cname(self, c):
        if c.op == "cls":
            return c.args[0]
        if c.op in ("builtin", "ext"):
            return c.args[0]
        return None

    def isinstance(self, x, c, st):
        I = self.I
        x = under(x, st.pc)
        if x.op == "ite":
            return ite(x.args[0], self.isinstance(x.args[1], c, st), self.isinstance(x.args[2], c, st))
        if c.op == "tuple":
            return or_(*[self.isinstance(x, y, st) for y in c.args])
        cn = self.cname(c)
        if cn is None:
            return mk("isinst", I.reify(x, st), show(c, 4))
        al = {"typing.List": "list", "typing.Tuple": "tuple", "typing.Dict": "dict", "collections.abc.Iterable": "Iterable"}
        cn = al.get(cn, cn)
        k = kind(x) or ""
        if k.startswith("opt:"):
            k = ""
        h = split_ty(k)[0] or ""
        if x.op == "tuple":
            h = "tuple"
        if c.op == "cls" and h.startswith("obj:"):
            cc = I.class_of(x)
            if cc is not None:
                return const(any(z.qual == cn for z in I.prog.mro(cc)))
        simple = {"int": {"int"}, "float": {"float"}, "bool": {"bool", "int"}, "str": {"str"}, "bytes": {"bytes"}, "none": set(),
                  "list": {"list", "Iterable"}, "dict": {"dict", "Iterable"}, "tuple": {"tuple", "Iterable"}, "set": {"set", "Iterable"},
                  "ndarray": {"numpy.ndarray", "Iterable"}}
        if h in simple and cn in ("int", "float", "bool", "str", "bytes", "list", "dict", "tuple", "set", "numpy.ndarray", "Iterable"):
            return const(cn in simple[h])
        if h in simple and c.op == "cls":
            return FALSE
        if h.startswith("obj:") and cn in ("int", "float", "bool", "str", "bytes", "list", "dict", "tuple", "set", "numpy.ndarray"):
            return FALSE
        if (h == "table" or x.op in ("tab", "tseq")) and (cn.endswith("DTable")):
            return TRUE
        if h == "table":
            return FALSE
        if h in ("num",) and (cn in ("str", "bytes", "list", "dict", "tuple", "set", "numpy.ndarray", "bool", "Iterable") or c.op == "cls"):
            return FALSE
        return isinst(I.reify(x, st), cn)

    def c_issubclass(self, a, kw, st, fr, node):
        return mk("issub", self.V(a[0], st), self.V(a[1], st))

    def c_callable(self, a, kw, st, fr, node):
        if a[0].op in ("fn", "clo", "bound", "part", "cls"):
            return TRUE
        return mk("callable", self.V(a[0], st))

    def c_hasattr(self, a, kw, st, fr, node):
        x = a[0]
        if a[1].op == "str" and ("f", x, a[1].args[0]) in st.v:
            return TRUE
        return mk("hasattr", self.V(x, st), a[1])

    def c_getattr(self, a, kw, st, fr, node):
        if a[1].op == "str":
            v = self.I.getattr(a[0], a[1].args[0], st, fr, node)
            if len(a) > 2:
                return ite(self.c_hasattr(a[:2], {}, st, fr, node), v, a[2])
            return v
        return None

    def c_setattr(self, a, kw, st, fr, node):
        if a[1].op == "str":
            self.I.setattr(a[0], a[1].args[0], a[2], st, fr, node)
            return NONE
        self.I.note("setattr with computed name", node, fr)
        self.event("setattr", "setattr", a, st)
        return NONE

    def c_dir(self, a, kw, st, fr, node):
        if len(a) == 1 and (a[0].op == "ext" or a[0].op == "mod") and a[0].args[0] == "builtins":
            return self.I.newlist(st, cat(NIL, *[mk("one", const(x)) for x in sorted(PYB)]))
        return None

    def c_iter(self, a, kw, st, fr, node):
        return a[0]

    def c_next(self, a, kw, st, fr, node):
        I = self.I
        c = self.as_seq(a[0], st, fr)
        if len(a) > 1:
            return ite(lt(ZERO, I.seqlen(c)), get(c, ZERO), a[1])
        return get(c, ZERO)

    def c_bytes(self, a, kw, st, fr, node):
        if a and self.k0(a[0]) == "str":
            return call("encode", self.V(a[0], st), const("utf-8"))
        return None

    def c_bytearray(self, a, kw, st, fr, node):
        if not a:
            return const(b"")
        return self.V(a[0], st)

    def c_object(self, a, kw, st, fr, node):
        return self.I.newref(st, "obj:object")

    def c_id(self, a, kw, st, fr, node):
        return call("id", self.V(a[0], st))

    def c_print(self, a, kw, st, fr, node):
        return NONE

    # stdlib --------------------------------------------------------
    def c_functools_partial(self, a, kw, st, fr, node):
        f = a[0]
        return mk("part", f, mk("tuple", *a[1:]), mk("kws", *[mk("kw", k, v) for k, v in sorted(kw.items())]))

    def c_functools_reduce(self, a, kw, st, fr, node):
        I = self.I
        if len(a) > 2:
            return self.fold(a[1], st, fr, a[2], lambda s, acc, e: I.call(a[0], [acc, e], {}, s, fr), "red")
        return None

    def c_copy_deepcopy(self, a, kw, st, fr, node):
        return self.deepcopy(a[0], st, {})

    def deepcopy(self, v, st, memo):
        I = self.I
        if v in memo:
            return memo[v]
        if v.op == "ite":
            return ite(v.args[0], self.deepcopy(v.args[1], st, memo), self.deepcopy(v.args[2], st, memo))
        if v.op == "tuple":
            return mk("tuple", *[self.deepcopy(x, st, memo) for x in v.args])
        if is_const(v) or kind(v) in ("int", "float", "num", "bool", "str", "bytes", "none") or v.op in ("fn", "cls", "clo", "bound", "ext", "builtin"):
            return v
        if v.op == "ref":
            k = kind(v)
            r = I.newref(st, k)
            memo[v] = r
            c = st.v.get(("c", v))
            if c is not None:
                st.v[("c", r)] = self.deepcopy_term(c, st, memo)
            for n, x in I.fields(v, st).items():
                st.v[("f", r, n)] = self.deepcopy(x, st, memo)
            return r
        if v.op in ("tab", "tseq"):
            return v
        if v.op in TEMPLATES or v.op == "copyof":
            return v
        I.nref += 1
        return mk("cp", I.nref, v)

    def deepcopy_term(self, c, st, memo):
        m = {}
        for x in c.fv:
            if x.op == "ref":
                m[x] = self.deepcopy(x, st, memo)
        c = subst(c, m) if m else c
        return c

    def c_copy_copy(self, a, kw, st, fr, node):
        I = self.I
        v = a[0]
        if v.op == "ite":
            return ite(v.args[0], self.c_copy_copy([v.args[1]], kw, st, fr, node), self.c_copy_copy([v.args[2]], kw, st, fr, node))
        if is_const(v) or kind(v) in ("int", "float", "num", "bool", "str", "bytes", "none") or v.op == "tuple":
            return v
        if v.op == "ref":
            r = I.newref(st, kind(v))
            c = st.v.get(("c", v))
            if c is not None:
                st.v[("c", r)] = self.elemaddr(v, c, st)
            for n, x in I.fields(v, st).items():
                st.v[("f", r, n)] = x
            return r
        k = self.k0(v)
        if k in ("list", "ndarray", "dict"):
            return I.newref(st, k, self.elemaddr(v, I.content(v, st), st))
        I.nref += 1
        return mk("cp", -I.nref, v)

    def c_math_isnan(self, a, kw, st, fr, node):
        return mk("truth", call("isnan", self.V(a[0], st)))
    c_numpy_isnan = c_math_isnan

    def c_operator_itemgetter(self, a, kw, st, fr, node):
        return None

    # numpy ---------------------------------------------------------
    def arr(self, x, st, fr):
        I = self.I
        k = self.k0(x)
        if x.op in ("range", "zip", "enum", "rev", "mapv", "dview", "tuple") or k in ("list", "ndarray", "tuple") or x.op in ("newlist",):
            return I.newref(st, "ndarray", self.as_seq(x, st, fr))
        return None

    def c_numpy_array(self, a, kw, st, fr, node):
        if "dtype" in kw:
            dt = kw["dtype"]
            if dt.op == "builtin" and dt.args[0] == "object":
                pass
            else:
                return None
        if len(a) > 1:
            return None
        if self.k0(a[0]) == "table":
            return None
        return self.arr(a[0], st, fr)

    def c_numpy_asarray(self, a, kw, st, fr, node):
        if "dtype" in kw or len(a) > 1:
            return None
        if self.k0(a[0]) == "ndarray":
            return a[0]
        return self.arr(a[0], st, fr)

    def _full(self, n, v, st):
        I = self.I
        n = I.rv(n, st)
        if n.op == "tuple" and len(n.args) == 1:
            n = n.args[0]
        if n.op == "tuple" or kind(n) not in ("int", "num", None):
            return None
        if n.op == "ref":
            return None
        i = fresh("i")
        return I.newref(st, "ndarray", mkcomp(mk("N", n), i, one(v)))

    def c_numpy_zeros(self, a, kw, st, fr, node):
        return self._full(a[0] if a else kw["shape"], ZERO, st)

    def c_numpy_ones(self, a, kw, st, fr, node):
        return self._full(a[0] if a else kw["shape"], ONE, st)

    def c_numpy_full(self, a, kw, st, fr, node):
        return self._full(a[0], self.V(a[1], st), st)

    def c_numpy_ndim(self, a, kw, st, fr, node):
        x = self.I.rv(a[0], st)
        if kind(x) in ("int", "float", "num"):
            return ZERO
        return None

    # -------------------------------------------------------- methods
    def method(self, recv, name, args, kw, st, fr, node):
        I = self.I
        k = self.k0(recv)
        o = recv.op
        if k == "table" or o in ("tab", "tseq", "tdict", "tmr"):
            return self.table_method(recv, name, args, kw, st, fr, node)
        if o == "ext":
            return self.call(self.ext(recv.args[0] + "." + name), args, kw, st, fr, node)
        if o == "mod":
            return I.call(self.mod_attr(recv.args[0], name, st), args, kw, st, fr, node)
        if name in NETM:
            return self.net(recv, name, args, kw, st)
        if k in ("obj:ext.random.SystemRandom", "obj:ext.random.Random", "obj:ext.numpy.random.RandomState"):
            src = k.split("ext.")[1]
            if name == "shuffle":
                c = I.content(args[0], st)
                s = self.stream("rand:" + src + ".shuffle", [], st)
                self.setcontent(args[0], call("shuffled", I.reify(c, st), s), st)
                return NONE
            return self.stream("rand:" + src + "." + name, [self.V(a, st) for a in args], st)
        if k.startswith("obj:pb.") or k == "pbf":
            r = self.pb_method(recv, name, args, kw, st, fr)
            if r is not None:
                return r
        if k == "str" or k == "bytes" or o == "str":
            return self.str_method(recv, name, args, kw, st, fr)
        if k == "dict" or o == "newdict":
            return self.dict_method(recv, name, args, kw, st, fr, node)
        if k == "list" or o == "newlist" or k == "ndarray" or k == "set" or o == "newset":
            return self.list_method(recv, name, args, kw, st, fr, node)
        if o == "dview":
            return None
        return None

    def call_unknown_method(self, recv, name, v, args, kw, st, fr, node):
        I = self.I
        k = self.k0(recv) or ""
        k = "" if k == "any" else k
        if "method" in I.stubs:
            r = I.stubs["method"](I, recv, name, args, kw, st, fr, node)
            if r is not None:
                return r
        # duck-typed receivers of unknown kind
        if name in ("mapValues", "mapPartitions", "subtractByKey", "mapReducePartitions", "collect", "get_kvs") or \
                (name in ("join", "union") and args and (len(args) + len(kw) == 2 or self.k0(args[0]) == "table")) or \
                (name in ("join", "union", "reduce") and args and args[0].op in ("fn", "clo", "part", "bound", "fun", "tab", "sym", "attr", "get", "inp", "ref") and not self.k0(args[0]) in ("list", "str")):
            if recv.op not in ("ref",) and not k:
                declare(recv, "opt:table" if recv in TT.MAYBENONE else "table")
                TT._KCACHE.pop(recv, None)
                return self.table_method(recv, name, args, kw, st, fr, node)
        if not k or recv.op not in ("ref",):
            if name in ("append", "extend", "insert", "sort", "reverse") and not k.startswith("obj") and (name != "insert" or len(args) == 2) \
                    and (name not in ("append", "extend") or len(args) == 1):
                r = self.list_method(recv, name, args, kw, st, fr, node)
                if r is not None:
                    return r
            if name in ("items", "keys", "values", "setdefault", "update") or (name == "get" and args):
                r = self.dict_method(recv, name, args, kw, st, fr, node)
                if r is not None:
                    return r
            if name in ("format", "join", "split", "rstrip", "strip", "lower", "upper", "startswith", "endswith", "replace", "encode", "ljust", "rjust"):
                r = self.str_method(recv, name, args, kw, st, fr)
                if r is not None:
                    return r
        if name in ("tolist",):
            return I.newlist(st, self.seqv(recv, st)) if k in ("ndarray", "list") else call("tolist", self.V(recv, st))
        vs = [self.V(a, st) for a in args] + [mk("kw", kk, self.V(x, st)) for kk, x in sorted(kw.items())]
        h = I.hooks.get("unknown_method")
        if h:
            r = h(I, recv, name, vs, st)
            if r is not None:
                return r
        rr = self.V(recv, st)
        if name not in PUREM:
            self.event("call", name, [recv] + args, st)
        return call("." + name, rr, *vs)

    def net(self, recv, name, args, kw, st):
        I = self.I
        data = args[0] if args else kw.get("data", NONE)
        if "net:shape" in I.stubs:
            data = I.stubs["net:shape"](self, data, st)
        if name == "send_data_to_hosts":
            idx = args[1] if len(args) > 1 else kw.get("index", NONE)
            self.event("net", "send", [idx, data], st)
            return NONE
        if name == "recv_data_from_hosts":
            idx = args[0] if args else kw.get("index", NONE)
            n = self.stream("net", [], st)
            c = n.args[1]
            r = mk("inp", "recv", c, "")
            self.event("net", "recv", [idx, c], st)
            if idx is num(-1):
                return declare(mk("inp", "recvall", c, ""), I.stubs.get("net:all", "list"))
            return declare(r, I.stubs["net:one"]) if "net:one" in I.stubs else r
        if name == "send_data_to_guest":
            self.event("net", "send", [data], st)
            return NONE
        if name == "recv_data_from_guest":
            n = self.stream("net", [], st)
            c = n.args[1]
            self.event("net", "recv", [c], st)
            r = mk("inp", "recv", c, "")
            return declare(r, I.stubs["net:guest"]) if "net:guest" in I.stubs else r
        return None

    def pb_method(self, recv, name, args, kw, st, fr):
        I = self.I
        if name == "add":
            r = I.newref(st, "obj:pb.item")
            for k, v in kw.items():
                st.v[("f", r, k)] = v
            st.v[("c", recv)] = cat(st.v[("c", recv)], one(r))
            return r
        if name == "append":
            st.v[("c", recv)] = cat(st.v[("c", recv)], I.oneof(args[0]))
            return NONE
        if name == "extend":
            st.v[("c", recv)] = cat(st.v[("c", recv)], self.as_seq(args[0], st, fr))
            return NONE
        if name == "update":
            d = I.content(args[0], st)
            old = st.v.get(("c", recv), NIL)
            st.v[("c", recv)] = self.dict_merge(DNIL if old is NIL else old, d)
            return NONE
        if name in ("CopyFrom", "MergeFrom"):
            x = args[0]
            if x.op == "ref":
                for n, v in I.fields(x, st).items():
                    st.v[("f", recv, n)] = v
                c = st.v.get(("c", x))
                if c is not None:
                    st.v[("c", recv)] = c
            else:
                st.v[("c", recv)] = self.V(x, st)
            return NONE
        if name in ("items", "keys", "values"):
            return mk("dview", name, mk("newdict", self.pbd(recv, st)))
        if name == "get":
            d = self.pbd(recv, st)
            return ite(din(d, args[0]), dget(d, args[0]), args[1] if len(args) > 1 else NONE)
        return None

    def pbd(self, recv, st):
        c = st.v.get(("c", recv), NIL)
        return DNIL if c is NIL else c

    def str_method(self, s, name, args, kw, st, fr):
        I = self.I
        s = self.V(s, st)
        if name == "format":
            return self.format(s, args, kw, st)
        if name == "join":
            if len(args) != 1 or kw:
                return None
            c = I.reify(self.as_seq(args[0], st, fr), st)
            if s.op == "str" and c.op == "cat" and all(p.op == "one" for p in c.args):
                parts = []
                for j, p in enumerate(c.args):
                    if j and len(s.args[0]):
                        parts.append(s)
                    parts.append(p.args[0])
                if not parts:
                    return const(s.args[0][:0])
                return self.strcat(parts)
            if s.op == "str" and len(s.args[0]) == 0:
                return self.concat(c, s)
            return call("strjoin", s, c)
        vs = [self.V(a, st) for a in args]
        if s.op == "str" and all(v.op in ("str", "num") for v in vs) and name in ("lower", "upper", "strip", "split", "startswith", "endswith", "replace", "ljust", "rjust", "rstrip", "lstrip", "encode") and not kw:
            try:
                r = getattr(s.args[0], name)(*[cval(v) for v in vs])
                if isinstance(r, list):
                    return I.newlist(st, seq(*[const(x) for x in r]))
                return const(r)
            except Exception:
                pass
        if name in ("ljust", "rjust", "center"):
            return call(name, s, *vs)
        if name == "encode":
            return call("encode", s, vs[0] if vs else kw.get("encoding", const("utf-8")))
        if name in ("startswith", "endswith", "isdigit", "isnumeric", "isalpha"):
            return mk("truth", call("." + name, s, *vs))
        if name == "split":
            return I.newlist(st, call("split", s, *vs))
        return call("." + name, s, *vs)

    def concat(self, c, empty):
        """b''.join(seq)"""
        if c.op == "cat":
            return self.strcat([p.args[0] if p.op == "one" else self.concat(p, empty) for p in c.args]) if c.args else empty
        if c.op == "ite":
            return ite(c.args[0], self.concat(c.args[1], empty), self.concat(c.args[2], empty))
        return call("strjoin", empty, c)

    def dict_method(self, d, name, args, kw, st, fr, node):
        I = self.I
        if name in ("items", "keys", "values"):
            return mk("dview", name, d)
        if name == "get":
            k = I.rv(args[0], st)
            df = args[1] if len(args) > 1 else kw.get("default", NONE)
            if k.op == "ite":
                return ite(k.args[0], self.dict_method(d, name, [k.args[1]] + args[1:], kw, st, fr, node),
                           self.dict_method(d, name, [k.args[2]] + args[1:], kw, st, fr, node))
            return ite(self.din(d, k, st), self.dict_get(d, k, st), df)
        if name == "update":
            c = I.content(d, st)
            if args:
                c = self.dict_merge(c, I.content(args[0], st)) if self.k0(args[0]) in ("dict", "") else self.dict_merge(c, mk("dictof", self.V(args[0], st)))
            for k in kw:
                c = dput(c, const(k), kw[k])
            self.setcontent(d, c, st)
            return NONE
        if name == "setdefault":
            k = I.rv(args[0], st)
            c = self.din(d, k, st)
            b, s1, s0 = I.branch(c, st)
            if s0 is not None:
                I.setitem(d, k, args[1] if len(args) > 1 else NONE, s0, fr, node)
            m = I.merge([s for s in (s1, s0) if s is not None])
            st.set(m)
            return self.dict_get(d, k, st)
        if name == "copy":
            return I.newdict(st, I.content(d, st))
        if name == "pop":
            k = I.rv(args[0], st)
            v = self.dict_get(d, k, st)
            if len(args) > 1:
                v = ite(self.din(d, k, st), v, args[1])
            self.setcontent(d, self.ddel(I.content(d, st), k), st)
            return v
        if name == "clear":
            self.setcontent(d, DNIL, st)
            return NONE
        return None

    def list_method(self, l, name, args, kw, st, fr, node):
        I = self.I
        k = self.k0(l)
        if name in ("append", "add") and name == ("add" if k == "set" else "append"):
            c = I.content(l, st)
            self.setcontent(l, cat(c, I.oneof(args[0])), st)
            return NONE
        if name == "extend" or (name == "update" and k == "set"):
            self.list_extend(l, args[0], st)
            return NONE
        if name == "insert":
            c = I.content(l, st)
            p = I.rv(args[0], st)
            if p is ZERO:
                self.setcontent(l, cat(NIL, I.oneof(args[1]), c), st)
            else:
                self.setcontent(l, cat(NIL, slice_(c, NONE, p), I.oneof(args[1]), slice_(c, p, NONE)), st)
            return NONE
        if name == "pop":
            c = I.content(l, st)
            p = I.rv(args[0], st) if args else num(-1)
            n = I.length(l, st)
            if p is num(-1):
                v = I.getitem(l, sub(n, ONE), st)
                self.setcontent(l, self.init_(c, n), st)
                return v
            v = I.getitem(l, p, st)
            if p is ZERO:
                self.setcontent(l, slice_(c, ONE, NONE), st)
            elif is_num(p) and 0 < p.args[0] <= 4 and int(p.args[0]) == p.args[0]:
                # in range, so the elements before it exist
                self.setcontent(l, cat(NIL, *[I.oneof(I.getitem(l, num(j), st)) for j in range(int(p.args[0]))], slice_(c, add(p, ONE), NONE)), st)
            else:
                self.setcontent(l, cat(NIL, slice_(c, NONE, p), slice_(c, add(p, ONE), NONE)), st)
            return v
        if name == "copy":
            return I.newref(st, k or "list", self.elemaddr(l, I.content(l, st), st))
        if name == "tolist":
            return I.newlist(st, I.content(l, st))
        if name == "clear":
            self.setcontent(l, NIL, st)
            return NONE
        if name == "reverse" and not args:
            self.setcontent(l, self.as_seq(mk("rev", l), st, fr), st)
            return NONE
        if name == "sort":
            kws = [mk("kw", kk, self.V(v, st)) for kk, v in sorted(kw.items())]
            self.setcontent(l, call("sorted", I.reify(I.content(l, st), st), *kws), st)
            return NONE
        if name == "index":
            c = I.reify(I.content(l, st), st)
            return call("indexof", c, self.V(args[0], st))
        if name == "count":
            return call("countof", I.reify(I.content(l, st), st), self.V(args[0], st))
        if name == "remove" or name == "discard":
            c = I.content(l, st)
            self.setcontent(l, call("lremove", I.reify(c, st), self.V(args[0], st)), st)
            return NONE
        if name in ("issubset", "issuperset", "isdisjoint"):
            return mk("truth", call(name, self.seqv(l, st), self.seqv(args[0], st)))
        if name in ("union", "intersection", "difference") and k == "set":
            nm = {"union": "setor", "intersection": "setand", "difference": "setminus"}[name]
            return I.newref(st, "set", call(nm, self.seqv(l, st), self.seqv(args[0], st)))
        if name in ("flatten", "ravel"):
            return I.newref(st, "ndarray", call("flatten", I.reify(I.content(l, st), st)))
        return None

    def init_(self, c, n):
        if c.op == "cat" and c.args and c.args[-1].op == "one":
            return cat(NIL, *c.args[:-1])
        return slice_(c, NONE, sub(n, ONE))


def strip(v):
    return v


NPSIG = {"numpy." + n: ("axis", "dtype", "out") for n in ("sum", "mean", "prod", "cumsum", "cumprod", "std", "var")}
NPSIG.update({"numpy." + n: ("axis", "out") for n in ("max", "min", "amax", "amin", "argmax", "argmin", "any", "all")})
NPSIG.update({"numpy.random.choice": ("size", "replace", "p"), "numpy.clip": ("a_min", "a_max"), "numpy.sort": ("axis",),
              "numpy.argsort": ("axis",), "numpy.expand_dims": ("axis",), "numpy.linalg.norm": ("ord", "axis")})


def kind_is_table(t):
    if t.op == "ite":
        return kind_is_table(t.args[1])
    k = kind(t) or ""
    if k.startswith("opt:"):
        k = k[4:]
    return t.op in ("tab", "tseq", "tdict", "tmr") or split_ty(k)[0] == "table" or k.startswith("obj:computing.d_table")


NETM = ("send_data_to_hosts", "recv_data_from_hosts", "send_data_to_guest", "recv_data_from_guest")
PUREM = ("ciphertext", "astype", "reshape", "mean", "sum", "max", "min", "argmax", "bit_length", "get", "flatten", "any", "all", "dot", "copy", "query",
         "predict", "compute_loss", "compute_grad", "compute_hess", "initialize")
PURE_SAFE = {"pickle.dumps"}


def _get_attr(s, i):
    if s.args[1] == "shape" and i is ZERO:
        return length(s.args[0])
    return TT._get_raw(s, i)


TT.GETX["attr"] = _get_attr
TT.GETX["copyof"] = lambda s, i: get(s.args[0], i)
TT.GETX["ndv"] = lambda s, i: get(s.args[0], i)
