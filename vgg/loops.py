"""Loop closing: from one abstract body transfer to the value after n iterations."""
from .terms import *
from . import terms as TT
from .engine import (State, Out, UNDEF, INF, NIL, mkcomp, mksum, mkexists, mknest, mkupd, WNIL, wapp, IDOM,
                     Undecided, nonnil, TEMPLATES)

MAXTRY = 14
DEBUG = __import__("os").environ.get("VGG_DEBUG")


def widen(ki, ks):
    if ki == ks:
        return ki
    NU = ("int", "float", "num")
    if ki in NU and ks in NU:
        return "num"
    if ki in ("none", None) and ks and ks != "none" and ki == "none":
        return ks if ks.startswith("opt:") else "opt:" + ks
    if ki and ki.startswith("opt:") and ks in (ki, ki[4:], "none"):
        return ki
    if ki and ks and split_ty(ki)[0] == split_ty(ks)[0]:
        return split_ty(ki)[0]
    return None


def shape(t):
    """nested container kind of a literal container value: "list[list[list]]"; "*" = no element seen"""
    o = t.op
    if o == "ite":
        if t.args[1] is BOT:
            return shape(t.args[2])
        if t.args[2] is BOT:
            return shape(t.args[1])
        return joinshape(shape(t.args[1]), shape(t.args[2]))
    if o in ("newlist", "ndv"):
        h = "list" if o == "newlist" else "ndarray"
        c = shape(t.args[0])
        return h + c[4:] if c and c.startswith("list") else h
    if o == "cat":
        e = "*"
        for p in t.args:
            s = shape(p.args[0]) if p.op == "one" else split_ty(shape(p) or "")[1]
            e = joinshape(e, s)
        return "list[%s]" % e if e else "list"
    if o == "one":
        e = shape(t.args[0])
        return "list[%s]" % e if e else "list"
    if o == "comp":
        return shape(t.args[1].args[3])
    k = kind(t)
    return k if k and mutk_(k) else None


def mutk_(k):
    return k.startswith("obj:") or split_ty(k)[0] in ("list", "dict", "ndarray")


def joinshape(a, b):
    if a == b or b == "*":
        return a
    if a == "*":
        return b
    if a and b and split_ty(a)[0] == split_ty(b)[0]:
        e = joinshape(split_ty(a)[1], split_ty(b)[1])
        return "%s[%s]" % (split_ty(a)[0], e) if e else split_ty(a)[0]
    return None


def skind(t):
    """kind, with the nesting of container literals"""
    while t.op == "upd":
        t = t.args[0]
    k = kind(t)
    if k in ("list", "ndarray") and t.op in ("cat", "comp", "newlist", "ndv", "ite"):
        s = shape(t)
        if s and "[" in s and "*" not in s:
            return s
    return k


def leafkind(t, skip):
    """kind of a step value ignoring leaves that are the phi itself"""
    ks = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.op == "ite":
            stack.extend(x.args[1:])
        elif x is not skip:
            ks.add(skind(x) if "[" in (kind(skip) or "") else kind(x))
    if not ks:
        return kind(skip)
    r = ks.pop()
    while ks:
        k2 = ks.pop()
        if r == "none" and k2:
            r = widen(r, k2)
        elif k2 == "none" and r:
            r = widen(k2, r)
        else:
            r = widen(r, k2)
    return r


def predom(dom, j):
    if dom.op == "N" or dom is INF:
        return mk("N", j)
    return mk("B", dom, j)


def run(I, dom, st, body, fr, node):
    if dom.op == "N":
        n = under(dom.args[0], st.pc)
        if n.op == "ite":
            c, a, b = I.branch(n.args[0], st)
            outs = []
            if a is not None:
                outs += run(I, mk("N", n.args[1]), a, body, fr, node)
            if b is not None:
                outs += run(I, mk("N", n.args[2]), b, body, fr, node)
            ns = [o.st for o in outs if o.k == "n0"]
            outs = [o for o in outs if o.k != "n0"]
            if ns:
                outs.append(Out("n0", I.merge(ns)))
            return outs
        if is_num(n) and n.args[0] <= 8:
            cur, outs = st, []
            for j in range(int(n.args[0])):
                if cur is None or cur.pc is FALSE:
                    break
                save = I.pend
                I.pend = []
                rs = body(cur, num(j)) + I.pend
                I.pend = save
                norm = []
                for o in rs:
                    if o.k in ("n", "cont"):
                        norm.append(o.st)
                    elif o.k == "brk":
                        outs.append(Out("n", o.st))
                    else:
                        outs.append(o)
                cur = I.merge(norm)
            if cur is not None and cur.pc is not FALSE:
                outs.append(Out("n0", cur))
            return outs
        if n.op == "count":
            d, lm = n.args

            def b2(stt, i):
                c = instantiate(lm, [i])
                c, a, b = I.branch(c, stt)
                o2 = []
                if b is not None:
                    o2.append(Out("n", b))
                if a is not None:
                    o2 += body(a, mk("pos", d, lm, i))
                return o2
            return run(I, d, st, b2, fr, node)
        dom = mk("N", n)
    return general(I, dom, st, body, fr, node)


def within(dom, iv, t):
    """t, knowing that the index is inside its domain"""
    if dom.op == "N":
        lits = literals(lt(iv, dom.args[0]))
        if lits:
            t = deepimply(t, lits, iv, {})
    return t


def deepimply(t, lits, iv, memo):
    if iv not in fvset(t):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    u = t
    for a, v in lits:
        u = imply(u, a, v)
    args = [deepimply(x, lits, iv, memo) if isinstance(x, T) else x for x in u.args]
    r = u if all(x is y for x, y in zip(args, u.args)) else (mk("lam", *args) if u.op == "lam" else rebuild(u.op, args))
    memo[t] = r
    return r


def general(I, dom, st, body, fr, node):
    I.loops += 1
    iv = fresh("i" if dom.op == "N" or dom is INF else "p")
    if dom.op != "N" and dom is not INF:
        from . import models
        models.declare_key(iv, dom)
    IDOM[iv] = dom
    P = st.pc
    kinds = {}
    keys = []
    phis = {}
    for attempt in range(MAXTRY):
        phis = {}
        for k in keys:
            p = fresh("p")
            if kinds.get(k):
                declare(p, kinds[k])
            if st.v.get(k) is NONE:
                TT.MAYBENONE.add(p)
            phis[k] = p
        ctr0, fid0 = I.nref, I.nfid
        s0 = State(dict(st.v), P)
        for k, p in phis.items():
            s0.v[k] = p
        start = dict(s0.v)
        save = I.pend
        I.pend = []
        nop = len(I.opaque)
        outs = body(s0, iv) + I.pend
        I.pend = save
        outs = [o for o in outs if o.st.pc is not FALSE]
        norm = I.merge([o.st for o in outs if o.k in ("n", "cont")])
        exits = [o for o in outs if o.k not in ("n", "cont")]

        def internal(k):
            if k[0] in ("c", "f"):
                c = k[1]
                return (c.op == "ref" and c.args[0] > ctr0) or (c.op == "cp" and abs(c.args[0]) > ctr0)
            if k[0] == "l":
                return k[1] > fid0
            return False
        changed = []
        for s in ([norm] if norm else []) + [o.st for o in exits]:
            for k, v in s.v.items():
                if start.get(k) is not v and not internal(k) and k not in changed:
                    changed.append(k)
        # in-place writes into a loop-carried table or array that the iteration replaces:
        # its value at the start of an iteration is the slot's value
        carried = set(phis.values())
        dead = [k for k in changed if k[0] == "c" and k[1] in carried]
        if dead:
            byphi = {v: k for k, v in phis.items()}
            for k in dead:
                if norm is not None and norm.v.get(byphi[k[1]]) is k[1]:
                    raise Undecided("in-place write to a loop-carried object %s" % (byphi[k[1]],))
            changed = [k for k in changed if k not in dead]
            for s in ([norm] if norm else []) + [o.st for o in exits]:
                for k in dead:
                    s.v.pop(k, None)
        newk = [k for k in changed if k not in phis]
        # kinds
        refined = False
        if norm is not None:
            for k in keys:
                sv = I.reify_new(norm.v[k], norm, ctr0)
                ks = leafkind(sv, phis[k])
                w = widen(kinds.get(k), ks) if kinds.get(k) else None
                if kinds.get(k) and w != kinds[k]:
                    if DEBUG:
                        print("WIDEN", k, kinds[k], ks, show(sv)[:300])
                    kinds[k] = w
                    refined = True
        for k in newk:
            v0 = st.v.get(k)
            if v0 is None:
                v0 = I.slot_init(k)
            kinds[k] = (skind(v0) if k[0] == "c" else kind(v0)) if v0 is not None else None
        if not newk and not refined:
            break
        del I.opaque[nop:]
        keys += newk
    else:
        raise Undecided("loop did not stabilise: %s new %s" % ([(str(k)[:60], kinds[k]) for k in keys], newk))
    init = {}
    for k in keys:
        v0 = st.v.get(k)
        if v0 is None:
            v0 = I.slot_init(k)
        if k[0] == "c" and k[1].op == "cp" and v0 is k[1]:
            v0 = k[1].args[1]
        init[k] = v0 if v0 is not None else UNDEF
    # transfer of the continuing path
    steps = {}
    if norm is not None:
        for k in keys:
            v = I.reify_new(norm.v[k], norm, ctr0)
            steps[k] = v
        rel = restrict(norm.pc, P)
        for k in keys:
            steps[k] = splitrestrict(steps[k], norm.pc, P, phis[k])
    else:
        rel = FALSE
        for k in keys:
            steps[k] = phis[k]
    conds = [(o, restrict(o.st.pc, P)) for o in exits]
    for k in keys:
        steps[k] = within(dom, iv, steps[k])
    conds = [(o, within(dom, iv, c)) for o, c in conds]

    closed = close(I, dom, iv, keys, phis, init, steps)
    unk = [k for k in keys if k not in closed]
    m = {phis[k]: closed[k].at(iv) for k in closed}
    conds = [(o, subst(c, m)) for o, c in conds]
    E = or_(*[c for _, c in conds]) if conds else FALSE

    # while-counter loops become bounded
    if dom is INF and E is not FALSE:
        b = bound_of(E, iv, [phis[k] for k in unk])
        if b is not None:
            a, val, mm = b
            dom = mk("N", mm)
            IDOM[iv] = dom
            x0 = []
            rest = []
            for o, c in conds:
                c2 = imply(c, a, not val)
                if c2 is not FALSE:
                    rest.append((o, c2))
            conds = rest
            E = or_(*[c for _, c in conds]) if conds else FALSE
            if is_num(mm) and mm.args[0] <= 8:
                return run(I, dom, st, bounded(I, body), fr, node)
            if mm.op in ("count", "ite"):
                return run(I, dom, st, bounded(I, body), fr, node)
            for k in closed.values():
                k.dom = dom
    unkp = set(phis[k] for k in unk)
    outs = []
    if E is FALSE:
        if dom is INF:
            return []
        if unk:
            recs(I, dom, iv, unk, phis, init, steps, closed, m)
        fin = State(dict(st.v), P)
        for k in keys:
            fin.v[k] = closed[k].end(dom)
        return [Out("n0", fin)]
    dep = set()
    for x in E.fv:
        pass
    if not any(p in fvset(E) for p in unkp):
        if unk:
            recs(I, dom, iv, unk, phis, init, steps, closed, m)
        fi = ZERO if E is TRUE else mk("first", dom, lam([iv], [E]))
        if dom is INF:
            ex = TRUE
        elif E is TRUE and dom.op == "N":
            ex = lt(ZERO, dom.args[0])
        else:
            ex = mkexists(dom, iv, E)
        sm = {iv: fi}
        for k in keys:
            sm[phis[k]] = closed[k].at(fi)
        n0 = []
        for o, c in conds:
            cr = subst(restrict(c, E), sm)
            pcx = and_(P, ex, cr)
            if pcx is FALSE:
                continue
            ns = exit_state(I, o.st, start, sm, pcx, st)
            if o.k == "brk":
                outs.append(Out("n", ns))
            elif o.k == "exit0":
                n0.append(ns)
            else:
                outs.append(Out(o.k, ns, subst(o.val, sm)))
        pcn = and_(P, not_(ex))
        if pcn is not FALSE and dom is not INF:
            fin = State(dict(st.v), pcn)
            for k in keys:
                fin.v[k] = closed[k].end(dom)
            n0.append(fin)
        if n0:
            outs.append(Out("n0", I.merge(n0)))
        return outs
    # search with loop-carried exit condition
    W = Wloop(I, dom, iv, unk, phis, init, {k: within(dom, iv, subst(steps[k], m)) for k in unk}, E)
    fi = W.iter()
    sm = {iv: fi}
    for k in unk:
        sm[phis[k]] = W.val(k)
    for k in keys:
        if k not in unk:
            sm[phis[k]] = subst(closed[k].at(fi), {phis[q]: W.val(q) for q in unk})
    ex = TRUE if dom is INF else mk("exists_w", W.term())
    n0 = []
    for o, c in conds:
        pcx = and_(P, ex, subst(restrict(c, E), sm))
        if pcx is FALSE:
            continue
        ns = exit_state(I, o.st, start, sm, pcx, st)
        if o.k == "brk":
            outs.append(Out("n", ns))
        elif o.k == "exit0":
            n0.append(ns)
        else:
            outs.append(Out(o.k, ns, subst(o.val, sm)))
    if dom is not INF:
        recs(I, dom, iv, unk, phis, init, steps, closed, m)
        fin = State(dict(st.v), and_(P, not_(ex)))
        for k in keys:
            fin.v[k] = closed[k].end(dom)
        n0.append(fin)
    if n0:
        outs.append(Out("n0", I.merge(n0)))
    return outs


def fvset(t):
    return t.fv and set(_vars_of(t)) or set()


_VM = {}


def _vars_of(t):
    r = _VM.get(t)
    if r is None:
        r = frozenset(x for x in subterms(t) if x.op == "var")
        _VM[t] = r
    return r


def splitrestrict(v, c, P=TRUE, default=None):
    """v on the region c inside the enclosing region P; elsewhere the default, if one is given"""
    if v.op == "upd":
        return mkupd(v.args[0], splitrestrict(v.args[1], c, P, WNIL if default is v.args[0] else None))
    if default is None:
        return restrict(v, c)
    return region(underall(v, P), restrict(c, P), default)


def bounded(I, body):
    """body of a while loop with known trip count: its own exit test folds away"""
    def b(stt, i):
        return [Out("n", o.st, o.val) if o.k == "exit0" else o for o in body(stt, i)]
    return b


def exit_state(I, s, start, sm, pc, outer):
    v = {}
    for k, x in s.v.items():
        if start.get(k) is x and k in outer.v and outer.v[k] is x:
            v[k] = x
        else:
            v[k] = subst(splitrestrict(x, s.pc), sm)
    return State(v, pc)


def linear(q, iv):
    """q = A*i + r, or None"""
    A, r = ZERO, ZERO
    for fs, c in monos(q).items():
        cnt = [f for f in fs if f is iv]
        rest = [f for f in fs if f is not iv]
        t = num(c)
        for f in rest:
            if iv in f.fv:
                return None
            t = mul(t, f)
        if not cnt:
            r = add(r, t)
        elif len(cnt) == 1:
            A = add(A, t)
        else:
            return None
    if A is ZERO:
        return None
    return A, r


def atoms_of(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    out = []
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        a = top(x)
        if a is None:
            continue
        out.append(a)
        if x.op == "ite":
            st.extend(x.args[1:])
    return out


def ceildiv(a, b):
    if b is ONE:
        return a
    if is_num(a) and is_num(b):
        return num(-((-a.args[0]) // b.args[0]).__int__() if False else -int((-a.args[0]) // b.args[0]))
    return call("ceildiv", a, b)


def bound_of(E, iv, unkp):
    """atom a, value v and m such that a==v iff i >= m, and E holds whenever a==v"""
    for a in atoms_of(E):
        if a.op not in ("ge", "gt"):
            continue
        for val in (True, False):
            if imply(E, a, val) is not TRUE:
                continue
            lin = linear(a.args[0], iv)
            if lin is None:
                continue
            A, r = lin
            if any(p in fvset(A) or p in fvset(r) for p in unkp):
                continue
            k = num(a.args[1])
            if is_num(A) and (A.args[0] > 0) != val:
                continue
            if val:      # A*i + r >= k (or >)
                B, rhs, strict = A, sub(k, r), a.op == "gt"
            else:        # A*i + r < k (or <=)  ==  -A*i > r-k (or >=)
                B, rhs, strict = neg(A), sub(r, k), a.op == "ge"
            # B*i >= rhs  (strict: >)
            if B is ONE:
                m = add(rhs, ONE) if strict else rhs
            else:
                m = ceildiv(add(rhs, ONE) if strict else rhs, B)
            return a, val, m
    return None


# --------------------------------------------------------------- closed forms
class Closed(object):
    def __init__(self, dom, init):
        self.dom, self.init = dom, init


class Const(Closed):
    def at(self, j):
        return self.init

    def end(self, dom):
        return self.init


class Last(Closed):
    def __init__(self, dom, init, f):
        self.dom, self.init, self.f = dom, init, f

    def at(self, j):
        if j is ZERO:
            return self.init
        v = self.f(sub(j, ONE))
        return ite(lt(ZERO, j), v, self.init) if not (is_num(j) and j.args[0] > 0) else v

    def end(self, dom):
        if dom.op == "N":
            return self.at(dom.args[0])
        return mk("lastof", dom, self.init)


class LastK(Last):
    def __init__(self, dom, init, lm):
        self.dom, self.init, self.lm = dom, init, lm

    def at(self, j):
        return mk("lastof", predom(self.dom, j), self.lm, self.init)

    def end(self, dom):
        return mk("lastof", dom, self.lm, self.init)


class Fun(Closed):
    """value given by a function of the prefix domain"""
    def __init__(self, dom, init, f):
        self.dom, self.init, self.f = dom, init, f

    def at(self, j):
        if j is ZERO and (self.dom.op == "N" or self.dom is INF):
            return self.init
        return self.f(predom(self.dom, j))

    def end(self, dom):
        return self.f(dom)


def close(I, dom, iv, keys, phis, init, steps):
    closed = {}
    ordered = dom.op == "N" or dom is INF
    work = True
    cur = dict(steps)
    while work:
        work = False
        m = {phis[k]: closed[k].at(iv) for k in closed}
        open_ = [k for k in keys if k not in closed]
        openp = {phis[k]: k for k in open_}
        for k in open_:
            p = phis[k]
            s = subst(steps[k], m) if m else steps[k]
            deps = [q for q in openp if q in fvset(s)]
            c = None
            if s is p:
                c = Const(dom, init[k])
            elif [q for q in deps if q is not p]:
                c = try_mixed(I, dom, iv, p, s, init[k], deps)
            elif not deps:
                if ordered:
                    c = Last(dom, init[k], lambda j, s=s: subst(s, {iv: j}))
                else:
                    c = LastK(dom, init[k], lam([iv], [s]))
            else:
                c = closed_one(I, dom, iv, p, s, init[k], ordered)
            if c is not None:
                closed[k] = c
                work = True
                break
    return closed


def try_mixed(I, dom, iv, p, s, init, deps):
    return None


def factor_cat(s, p):
    """s = cat(p, rest) on every leaf; returns the rest diagram or None"""
    if s.op == "ite":
        a = factor_cat(s.args[1], p)
        if a is None:
            return None
        b = factor_cat(s.args[2], p)
        if b is None:
            return None
        return ite(s.args[0], a, b)
    if s is p:
        return NIL
    if s.op == "cat" and s.args and s.args[0] is p:
        rest = s.args[1:]
        r = cat(NIL, *rest) if rest else NIL
        return r if p not in fvset(r) else None
    return None


def factor_front(s, p):
    """s = cat(rest, p): prepending"""
    if s.op == "ite":
        a = factor_front(s.args[1], p)
        b = factor_front(s.args[2], p)
        return None if a is None or b is None else ite(s.args[0], a, b)
    if s is p:
        return NIL
    if s.op == "cat" and s.args and s.args[-1] is p:
        rest = s.args[:-1]
        r = cat(NIL, *rest) if rest else NIL
        return r if p not in fvset(r) else None
    return None


def factor_add(s, p):
    if s.op == "ite":
        a = s.args[0]
        if p in fvset(a):
            return None
        x = factor_add(s.args[1], p)
        if x is None:
            return None
        y = factor_add(s.args[2], p)
        if y is None:
            return None
        return ite(a, x, y)
    ms = monos(s)
    if ms.get((p,)) != 1:
        return None
    d = sub(s, p)
    if p in fvset(d):
        return None
    return d


def factor_mul(s, p):
    ms = monos(s)
    if len(ms) != 1:
        return None
    (fs, c), = ms.items()
    if fs.count(p) != 1:
        return None
    r = num(c)
    for f in fs:
        if f is not p:
            r = mul(r, f)
    return r if p not in fvset(r) else None


def factor_upd(s, p):
    if s is p:
        return WNIL
    if s.op == "upd" and s.args[0] is p and p not in fvset(s.args[1]):
        return s.args[1]
    if s.op == "ite" and p not in fvset(s.args[0]):
        a, b = factor_upd(s.args[1], p), factor_upd(s.args[2], p)
        if a is None or b is None:
            return None
        return ite(s.args[0], a, b)
    return None


def read_paths(t, p, out, seen):
    """maximal read paths of container p inside t; False if p occurs otherwise"""
    from .engine import root_path
    if t in seen:
        return True
    seen.add(t)
    if t is p:
        return False
    if p not in fvset(t):
        return True
    if t.op in ("get", "dget", "attr", "tget"):
        r, path = root_path(t)
        if r is p and path:
            out.append((t, path))
            return all(read_paths(x, p, out, seen) for e in path for x in e.args if isinstance(x, T))
    if t.op == "rd" and t.args[0] is p:
        out.append((t, t.args[1].args))
        return all(read_paths(x, p, out, seen) for e in t.args[1].args for x in e.args if isinstance(x, T))
    if t.op == "len":
        r, path = root_path(t.args[0])
        if r is p:
            # a length is not changed by element writes
            out.append((t, None))
            return all(read_paths(x, p, out, seen) for e in path for x in e.args if isinstance(x, T))
    return all(read_paths(x, p, out, seen) for x in t.args if isinstance(x, T))


def write_paths(W, pre=()):
    """paths written by W; indices of nests are opened with fresh variables"""
    from .engine import bvtag_of
    if W.op == "ite":
        return write_paths(W.args[1]) + write_paths(W.args[2])
    out = []
    for w in W.args:
        if w.op == "nest":
            v = fresh(bvtag_of(w.args[1]))
            out += write_paths(instantiate(w.args[1], [v]))
        else:
            out.append((w.args[0].args, w))
    return out


def upd_writes(s, p):
    if s is p:
        return []
    if s.op == "upd" and s.args[0] is p:
        return write_paths(s.args[1])
    if s.op == "ite":
        a, b = upd_writes(s.args[1], p), upd_writes(s.args[2], p)
        return None if a is None or b is None else a + b
    return None


def free_reads(s, p, iv, init):
    """reads of the container that no iteration writes see its initial value"""
    from .engine import pcmp
    ws = upd_writes(s, p)
    if not ws:
        return None
    reads = []

    def walk(x):
        if x is p:
            return True
        if x.op == "upd" and x.args[0] is p:
            return read_paths(x.args[1], p, reads, set())
        if x.op == "ite":
            return (p not in fvset(x.args[0]) or read_paths(x.args[0], p, reads, set())) and walk(x.args[1]) and walk(x.args[2])
        return False
    if not walk(s):
        return None
    m = {}
    j = fresh("i" if iv.args[0].startswith("i~") else "p")
    for t, path in reads:
        if path is None:
            m[t] = subst(t, {p: init})
            continue
        for wp, w in ws:
            c = pcmp([subst(e, {iv: j}) for e in wp], path)[0]
            if not implies(c, eq(j, iv)):
                return None     # neither untouched nor touched by this very iteration only, later
        m[t] = subst(t, {p: init})
    if not m:
        return None
    return subst(s, m)


def factor_dput(s, p):
    """tree with leaves tuple('dp',k,v) or NONE"""
    if s is p:
        return NONE
    if s.op == "dput" and s.args[0] is p:
        k, v = s.args[1], s.args[2]
        if p in fvset(k) or p in fvset(v):
            return None
        return mk("dp", k, v)
    if s.op == "ite" and p not in fvset(s.args[0]):
        a, b = factor_dput(s.args[1], p), factor_dput(s.args[2], p)
        if a is None or b is None:
            return None
        return ite(s.args[0], a, b)
    return None


def dpcond(t):
    if t.op == "ite":
        return ite(t.args[0], dpcond(t.args[1]), dpcond(t.args[2]))
    return FALSE if t is NONE else TRUE


def dppart(t, j):
    if t.op == "ite":
        return ite(t.args[0], dppart(t.args[1], j), dppart(t.args[2], j))
    return t.args[j]


def factor_dacc(s, p):
    """dict accumulate: leaves dput(p,k,dget(p,k)+d) / dput(p,k,d0) under membership; returns (k, d tree)"""
    return None


def rn(t, iv, v):
    return subst(t, {iv: v})


def mkdcomp(init, dom, iv, t):
    c = dpcond(t)
    r = restrict(t, c)
    if dom.op == "N" and is_num(dom.args[0]) and dom.args[0].args[0] <= 0:
        return init
    v = fresh("i" if iv.args[0].startswith("i~") else "p")
    mm = {iv: v}
    return mk("dcomp", init, dom, lam([v], [subst(c, mm), subst(dppart(r, 0), mm), subst(dppart(r, 1), mm)]))


def closed_one(I, dom, iv, p, s, init, ordered):
    tag = "i" if iv.args[0].startswith("i~") else "p"

    def over(f):
        """closed form f(prefix domain, fresh index)"""
        def g(d):
            v = fresh(tag)
            IDOM[v] = d
            return f(d, v)
        return g
    # boolean accumulation
    if s.op == "ite" or s.op in BOOL_OPS:
        hi, lo = imply(s, p, True) if False else None, None
    d = factor_add(s, p)
    if d is not None and not is_seqk(p) and (kind(p) in ("int", "float", "num", None)):
        return Fun(dom, init, over(lambda dm, v: add(init, mksum(dm, v, subst(d, {iv: v})))))
    r = factor_cat(s, p)
    if r is not None and ordered:
        return Fun(dom, init, over(lambda dm, v: cat(init, mkcomp(dm, v, subst(r, {iv: v})))))
    if r is not None:
        return Fun(dom, init, over(lambda dm, v: cat(init, mkcomp(dm, v, subst(r, {iv: v})))))
    w = factor_upd(s, p)
    if w is None:
        s1 = free_reads(s, p, iv, init)
        if s1 is not None:
            w = factor_upd(s1, p)
    if w is not None:
        return Fun(dom, init, over(lambda dm, v: mkupd(init, mknest(dm, v, subst(w, {iv: v})))))
    t = factor_dput(s, p)
    if t is not None:
        return Fun(dom, init, over(lambda dm, v: mkdcomp(init, dm, v, subst(t, {iv: v}))))
    q = factor_mul(s, p)
    if q is not None and kind(p) in ("int", "float", "num"):
        if iv not in fvset(q) and ordered:
            return Fun(dom, init, lambda dm: mul(init, pow_(q, dm.args[0])))
    # boolean or / and
    tp = truth_phi(s, p)
    if tp is not None:
        which, c = tp
        if which == "or":
            return Fun(dom, init, over(lambda dm, v: boolor(init, mkexists(dm, v, subst(c, {iv: v})))))
        return Fun(dom, init, over(lambda dm, v: booland(init, not_(mkexists(dm, v, not_(subst(c, {iv: v})))))))
    return None


def boolor(init, e):
    return ite(e, TRUE, init)


def booland(init, e):
    return ite(e, init, FALSE)


def is_bool(t):
    if t.op == "ite":
        return is_bool(t.args[1]) and is_bool(t.args[2])
    return t is TRUE or t is FALSE or t.op in BOOL_OPS


def truth_phi(s, p):
    """s == (p or c) / (p and c) with c free of p"""
    def tree(t):
        if t.op == "ite":
            if p in fvset(t.args[0]):
                return None
            a, b = tree(t.args[1]), tree(t.args[2])
            return None if a is None or b is None else ite(t.args[0], a, b)
        if t is p:
            return mk("sym", "$keep")
        if t is TRUE or t is FALSE:
            return t
        return None
    tp = truth(p)
    if tp.op == "truth" and tp.args[0] is p:
        def conv(t):
            if t is p:
                return tp
            if t.op == "ite":
                return ite(t.args[0], conv(t.args[1]), conv(t.args[2]))
            return t
        u = conv(s)
        s1, s0 = imply(u, tp, True), imply(u, tp, False)
        if p not in fvset(s1) and p not in fvset(s0) and is_bool(s1) and is_bool(s0):
            if s1 is TRUE:
                return "or", s0
            if s0 is FALSE:
                return "and", s1
    t = tree(s)
    if t is None:
        return None
    KEEP = mk("sym", "$keep")
    vals = set(l for _, l in leaves(t))
    if vals <= {TRUE, KEEP}:
        c = or_(*[c for c, l in leaves(t) if l is TRUE])
        return "or", c
    if vals <= {FALSE, KEEP}:
        c = or_(*[c for c, l in leaves(t) if l is FALSE])
        return "and", not_(c)
    return None


# --------------------------------------------------------------- recurrences
def order(I, keys, phis, init, steps, extra=()):
    """name-independent order of mutually recursive slots"""
    own = set(phis[k] for k in keys)
    anon = {}
    for t in [init[k] for k in keys] + [steps[k] for k in keys] + list(extra):
        for v in t.fv:
            if v.op == "var" and v not in own:
                anon[v] = mk("sym", "$o", "int") if v.args[0].startswith("i~") else mk("sym", "$o")
    sig = {}
    for k in keys:
        sig[k] = subst(init[k], anon).h[:24]
    for _ in range(3):
        m = {phis[k]: mk("sym", "$s" + sig[k]) for k in keys}
        m.update(anon)
        new = {}
        for k in keys:
            new[k] = mk("sig", subst(steps[k], m), mk("sym", sig[k]), *[subst(e, {**m, phis[k]: mk("sym", "$me")}) for e in extra]).h[:24]
        sig = new
    return sorted(keys, key=lambda k: sig[k])


def reach(keys, phis, steps, roots):
    inv = {phis[k]: k for k in keys}
    seen = set()
    st = list(roots)
    while st:
        k = st.pop()
        if k in seen:
            continue
        seen.add(k)
        for v in fvset(steps[k]):
            if v in inv:
                st.append(inv[v])
    return [k for k in keys if k in seen]


class Rec(Closed):
    def __init__(self, dom, init, lm, inits, idx):
        self.dom, self.init, self.lm, self.inits, self.idx = dom, init, lm, inits, idx

    def _mk(self, d):
        if d.op == "N" and d.args[0] is ZERO:
            return self.init
        return mk("rec", self.lm, mk("inits", *self.inits), self.idx, d)

    def at(self, j):
        return self._mk(predom(self.dom, j))

    def end(self, dom):
        return self._mk(dom)


class Idle(Rec):
    """a fold whose first iterations change nothing"""

    def __init__(self, dom, init, lm, inits, idx, skip):
        Rec.__init__(self, dom, init, lm, inits, idx)
        self.skip = skip

    def _mk(self, d):
        n = sub(d.args[0], num(self.skip))
        if is_num(n) and n.args[0] <= 0:
            return self.init
        return mk("rec", self.lm, mk("inits", *self.inits), self.idx, mk("N", n))


class Peeled(Rec):
    """a fold that starts from None and holds a value from its first iteration on"""

    def _mk(self, d):
        n = d.args[0]
        if n is ZERO:
            return self.init0
        n1 = mk("N", sub(n, ONE))
        return ite(lt(ZERO, n), mk("rec", self.lm, mk("inits", *self.inits), self.idx, n1), self.init0)

    def __init__(self, dom, init, lm, inits, idx):
        Rec.__init__(self, dom, init, lm, inits, idx)
        self.init0 = init


def peeled(iv, od, phis, init, steps):
    """(state after the first iteration, transfer of the later ones), when the first iteration settles every test for None"""
    at = [g for g in od if init[g] is NONE]
    if not at:
        return None
    m = {phis[g]: init[g] for g in od}
    m[iv] = ZERO
    ini = {g: subst(steps[g], m) for g in od}
    later = dict(steps)
    for g in at:
        if eq(ini[g], NONE) is not FALSE:
            if DEBUG: print("PEEL init", show(ini[g])[:200], kind(ini[g]))
            return None
        a = eq(phis[g], NONE)
        if a is FALSE or a is TRUE:
            if DEBUG: print("PEEL a", a, kind(phis[g]))
            return None
        later = {h: imply(t, a, False) for h, t in later.items()}
    for g in at:
        if eq(later[g], NONE) is not FALSE:
            if DEBUG: print("PEEL later", show(later[g])[:200], kind(later[g]))
            return None
    sh = {iv: add(iv, ONE)}
    return ini, lam([iv] + [phis[g] for g in od], [subst(later[g], sh) for g in od])


class Done(Closed):
    def __init__(self, dom, f):
        self.dom, self.f = dom, f

    def at(self, j):
        return self.f(predom(self.dom, j))

    def end(self, dom):
        return self.f(dom)


def deletions(I, dom, iv, p, init, s):
    if not (s.op == "ddel" and s.args[0] is p and s.args[1].op == "get" and s.args[1].args[1] is iv):
        return None
    x = s.args[1].args[0]
    if x.op != "call" or x.args[0] != "setminus" or dom.op != "N" or not (dom.args[0].op == "len" and dom.args[0].args[0] is x):
        return None
    c, used = x.args[1:]
    if c.op != "comp" or c.args[0].op != "N" or p in fvset(x) or iv in fvset(x):
        return None
    j = fresh("i")
    cond, item = instantiate(c.args[1], [j])[:2]
    if len(item.args) != 1:
        return None
    e = item.args[0]
    if e.op == "one":
        e = e.args[0]
    body = ite(and_(cond, not_(mk("in", e, used))), mk("ddel", p, e), p)
    lm = lam([j, p], [body])
    full = mk("rec", lm, mk("inits", init), 0, c.args[0])
    return Done(dom, lambda d: full if d is dom else mk("rec", lam([iv, p], [s]), mk("inits", init), 0, d))


def recs(I, dom, iv, unk, phis, init, steps, closed, m):
    st2 = all2 = {k: within(dom, iv, subst(steps[k], m)) for k in unk}
    # split tuple- and object-valued slots into components is left to the slots themselves
    for k in unk:
        grp = reach(unk, phis, st2, [k])
        od = order(I, grp, phis, init, st2)
        idle = 0
        if dom.op == "N":
            while not is_num(dom.args[0]) and idle < 4:
                # a first iteration that changes nothing is left out
                z = {phis[g]: init[g] for g in grp}
                z[iv] = ZERO
                if any(subst(st2[g], z) is not init[g] for g in grp):
                    break
                sh = {iv: add(iv, ONE)}
                st2 = {**st2, **{g: subst(st2[g], sh) for g in grp}}
                idle += 1
            if idle:
                od = order(I, grp, phis, init, st2)
                lm = lam([iv] + [phis[g] for g in od], [st2[g] for g in od])
                closed[k] = Idle(dom, init[k], lm, [init[g] for g in od], od.index(k), idle)
                st2 = all2
                continue
            p = peeled(iv, od, phis, init, st2)
            if p is not None:
                ini, lm = p
                closed[k] = Peeled(dom, init[k], lm, [ini[g] for g in od], od.index(k))
                continue
        if len(od) == 1:
            d = deletions(I, dom, iv, phis[k], init[k], st2[k])
            if d is not None:
                closed[k] = d
                continue
        lm = lam([iv] + [phis[g] for g in od], [st2[g] for g in od])
        closed[k] = Rec(dom, init[k], lm, [init[g] for g in od], od.index(k))
    # closed forms that mention open slots of the group are resolved by substitution
    back = {phis[k]: closed[k] for k in unk}
    for k, c in list(closed.items()):
        pass


class Wloop(object):
    def __init__(self, I, dom, iv, keys, phis, init, steps, E):
        self.I, self.dom, self.iv, self.keys, self.phis, self.init, self.steps, self.E = I, dom, iv, keys, phis, init, steps, E
        inv = {phis[k]: k for k in keys}
        self.roots = [inv[v] for v in fvset(E) if v in inv]
        self.memo = {}

    def build(self, more=()):
        grp = reach(self.keys, self.phis, self.steps, list(self.roots) + list(more))
        od = order(self.I, grp, self.phis, self.init, self.steps, [self.E])
        lm = lam([self.iv] + [self.phis[g] for g in od], [self.E] + [self.steps[g] for g in od])
        return mk("wloop", self.dom, lm, *[self.init[g] for g in od]), od

    def term(self):
        return self.build()[0]

    def iter(self):
        return mk("witer", self.build()[0])

    def val(self, k):
        if k not in self.memo:
            t, od = self.build([k])
            self.memo[k] = mk("wval", t, od.index(k))
        return self.memo[k]
