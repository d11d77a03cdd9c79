"""Canonical value-graph terms.

A term is a hash-consed node.  Two expressions the analysis can show equal are
the *same* node, so "these two functions compute the same value" is pointer
equality.  Nothing here executes repository code: terms are built from syntax.

Normal forms
  * numbers: polynomials with rational coefficients over atoms ('poly'/'num')
  * conditions: ordered decision diagrams over atoms, with threshold atoms on
    one linear form and equality atoms on one subject kept adjacent and pruned
  * conditional values: decision diagrams with value leaves, lifted to the top
  * sequences: flattened concatenations of one(v) and comp(...)
  * binders: nameless, numbered by binding height, so alpha-equivalent terms
    are equal
"""
from fractions import Fraction
import hashlib

_TAB = {}


class T(object):
    __slots__ = ("op", "args", "h", "fv", "hb", "size")

    def __repr__(self):
        return show(self, 6)

    def __iter__(self):
        return iter(self.args)


def _k(a):
    if isinstance(a, T):
        return a.h
    return "%s:%r" % (type(a).__name__, a)


def _a(a):
    if isinstance(a, T):
        return a.h[:24]
    return "%s:%r" % (type(a).__name__, a)


_EMPTY = frozenset()


def mk(op, *args):
    if op == "N" and args[0].op == "len" and args[0].args[0].op == "slice":
        # an iteration count is clamped at zero, so len(x[k:]) and len(x) - k count the same
        q = args[0].args[0]
        if q.args[2] is NONE and is_num(q.args[1]) and q.args[1].args[0] >= 0:
            return mk("N", sub(length(q.args[0]), q.args[1]))
    key = (op,) + tuple(id(a) if isinstance(a, T) else (type(a), a) for a in args)
    t = _TAB.get(key)
    if t is not None:
        return t
    t = T()
    t.op, t.args = op, args
    # the hash orders terms; its first half does not see the numbers of fresh variables and allocation sites,
    # so the order of tests does not depend on how many of them were drawn before
    full = hashlib.blake2b(("%s(%s)" % (op, ",".join(_k(a) for a in args))).encode("utf-8", "surrogatepass"), digest_size=12).hexdigest()
    if op == "var":
        anon = "var:" + args[0].split("~")[0]
    elif op in ("ref", "clo", "cp"):
        anon = "%s:%s" % (op, ",".join(_a(a) for a in args[1:]))
    else:
        anon = "%s(%s)" % (op, ",".join(_a(a) for a in args))
    t.h = hashlib.blake2b(anon.encode("utf-8", "surrogatepass"), digest_size=12).hexdigest() + full
    fv, hb, sz = _EMPTY, 0, 1
    for a in args:
        if isinstance(a, T):
            if a.fv:
                fv = fv | a.fv
            if a.hb > hb:
                hb = a.hb
            sz += a.size
    if op in ("var", "ref", "cp", "clo"):
        fv = fv | frozenset([t])
    elif op == "lam":
        hb = args[0]
    t.fv, t.hb, t.size = fv, hb, sz
    _TAB[key] = t
    return t


# ---------------------------------------------------------------- constants
def num(x):
    if isinstance(x, Fraction):
        return mk("num", x)
    if isinstance(x, bool):
        raise TypeError
    if isinstance(x, int):
        return mk("num", Fraction(x))
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            return mk("const", repr(x))
        return mk("num", Fraction(repr(x)))
    raise TypeError(x)


def const(v):
    if v is True:
        return TRUE
    if v is False:
        return FALSE
    if v is None:
        return NONE
    if isinstance(v, (int, float)):
        return num(v)
    if isinstance(v, (str, bytes)):
        return mk("str", v)
    if v is Ellipsis:
        return mk("const", "...")
    return mk("const", repr(v))


TRUE = mk("true")
FALSE = mk("false")
NONE = mk("none")
BOT = mk("bot")          # value of a path that does not return normally
ZERO, ONE = num(0), num(1)
NIL = mk("cat")

_ctr = [0]


def fresh(tag):
    _ctr[0] += 1
    return mk("var", "%s~%d" % (tag, _ctr[0]))


def sym(name, ty=None):
    return mk("sym", name, ty) if ty else mk("sym", name)


def is_num(t):
    return t.op == "num"


def cval(t):
    """python value of a constant term, else raises KeyError"""
    o = t.op
    if o == "num":
        f = t.args[0]
        return int(f) if f.denominator == 1 else float(f)
    if o == "str":
        return t.args[0]
    if o == "true":
        return True
    if o == "false":
        return False
    if o == "none":
        return None
    raise KeyError(t.op)


def is_const(t):
    return t.op in ("num", "str", "true", "false", "none", "const")


# ---------------------------------------------------------------- static kinds
INT_OPS = {"card", "argfirst", "posk", "len", "count", "pos", "idxint", "hash"}
BOOL_OPS = {"exists_w", "tin", "ge", "gt", "eq", "eqc", "truth", "isinst", "in", "exc", "exists", "boolsym", "callable", "hasattr", "issub"}
_TYPES = {}      # term -> declared kind string


CALL_TYPES = {}


def declare(t, ty):
    _TYPES[t] = ty
    if t.op == "call":
        CALL_TYPES[t.args[0]] = ty
    return t


MAYBENONE = set()  # loop-carried variables that start as None
ATTR_TYPES = {}   # (class, attr) -> kind, set per check


def split_ty(ty):
    """'list[int]' -> ('list','int'); 'tuple[a|b]' -> ('tuple','a|b')"""
    if ty and ty.endswith("]") and "[" in ty:
        i = ty.index("[")
        return ty[:i], ty[i + 1:-1]
    return ty, None


_KCACHE = {}


def kind(t):
    """best-effort static kind: int, float, num, bool, str, none, list, dict, tuple, table, obj:C, ..."""
    k = _KCACHE.get(t)
    if k is None:
        k = _kind(t) or ""
        _KCACHE[t] = k
    return k or None


def reset_types():
    _TYPES.clear()
    CALL_TYPES.clear()
    _KCACHE.clear()
    ATTR_TYPES.clear()


def tuple_len(t):
    """length of a value declared as a tuple of fixed shape"""
    h, e = split_ty(kind(t) or "")
    if h == "tuple" and e and "|" in e and t.op != "ite":
        return len(_split_bar(e))
    return None


def _kind(t):
    o = t.op
    if t in _TYPES:
        return _TYPES[t]
    if o == "num":
        return "int" if t.args[0].denominator == 1 else "float"
    if o in ("true", "false") or o in BOOL_OPS:
        return "bool"
    if o == "str":
        return "str" if isinstance(t.args[0], str) else "bytes"
    if o == "none":
        return "none"
    if o in INT_OPS:
        return "int"
    if o == "sym":
        return t.args[1] if len(t.args) > 1 else None
    if o == "ref":
        return t.args[1]
    if o in ("cp", "copyof"):
        return kind(t.args[-1])
    if o in ("upd", "snap"):
        return kind(t.args[0])
    if o == "newset":
        return "set"
    if o in ("rec", "wval"):
        k = kind(t.args[1].args[t.args[2]]) if o == "rec" else kind(t.args[0].args[2 + t.args[1]])
        if k in ("int", "float"):
            return "num"
        return None if k == "none" else k
    if o == "ndv":
        return "ndarray"
    if o == "rd":
        k = kind(t.args[0])
        for p in t.args[1].args:
            if not k:
                return None
            if p.op == "pa":
                k = ATTR_TYPES.get((k[4:], p.args[0])) if k.startswith("obj:") else None
            else:
                h, e = split_ty(k)
                if not e:
                    return None
                k = e.split(":", 1)[1] if h == "dict" else None if (h == "tuple" and "|" in e) else e
        return k
    if o == "tlist":
        return "list"
    if o in ("inp",):
        return t.args[2] if len(t.args) > 2 and isinstance(t.args[2], str) else None
    if o == "first" or o == "witer":
        return "int"
    if o == "var":
        return "int" if t.args[0].startswith("i~") else None
    if o == "bv":
        return "int" if len(t.args) > 2 and t.args[2] == "i" else None
    if o == "poly":
        ks = set()
        for m in t.args:
            if m.args[0].denominator != 1:
                ks.add("float")
            for f in m.args[1:]:
                ks.add(kind(f))
        return "int" if ks <= {"int"} else "num"
    if o == "inv":
        return "num"
    if o == "ite":
        if t.args[1] is BOT or t.args[2] is BOT:
            return kind(t.args[2] if t.args[1] is BOT else t.args[1])
        a, b = kind(t.args[1]), kind(t.args[2])
        if a == b:
            return a
        if {a, b} <= {"int", "float", "num"}:
            return "num"
        return None
    if o in ("cat", "slice"):
        for p in t.args[:4] if o == "cat" else t.args[:1]:
            if isinstance(p, T) and (p.op == "str" or p.op in ("sym", "attr", "slice", "cat") and kind(p) == "str"):
                return "str"
        return "list"
    if o in ("comp", "one"):
        return "list"
    if o == "tuple":
        return "tuple"
    if o in ("tab", "tseq"):
        return "table"
    if o == "new":
        return "obj:" + t.args[0]
    if o == "newlist":
        return "list"
    if o == "newdict":
        return "dict"
    if o == "attr":
        bk = kind(t.args[0])
        if bk and bk.startswith("obj:"):
            return ATTR_TYPES.get((bk[4:], t.args[1]))
        if t.args[1] == "shape":
            return "tuple[int]"
        return None
    if o == "tget" and t.args[0].op == "tab":
        return kind(t.args[0].args[0].args[2])
    if o in ("get", "tval", "dget", "dkey", "content", "tget"):
        bk = kind(t.args[0])
        if o == "content":
            return bk
        if bk:
            h, e = split_ty(bk[4:] if bk.startswith("opt:") else bk)
            if e:
                if h == "dict":
                    ks, vs = e.split(":", 1)
                    return ks if o == "dkey" else vs
                if h in ("list", "tuple", "table", "ndarray"):
                    if h == "tuple" and "|" in e:
                        parts = _split_bar(e)
                        if is_num(t.args[1]):
                            i = int(t.args[1].args[0])
                            if 0 <= i < len(parts):
                                return parts[i]
                        return None
                    return e
        return None
    if o == "call":
        f = t.args[0]
        if f in CALL_TYPES:
            return CALL_TYPES[f]
        if f in ("int", "math.floor", "math.ceil", "ord"):
            return "int"
        if f in ("float",):
            return "float"
        if f in ("abs",):
            return kind(t.args[1])
        if f in ("str", "repr", "fmt"):
            return "str"
        if f in ("bool",):
            return "bool"
        if f in ("sorted", "list"):
            return "list"
        if f == "tuple":
            return "tuple"
        if f in ("numpy.array", "numpy.asarray"):
            return "ndarray"
        if f in ("bytes", "pickle.dumps"):
            return "bytes"
        if f in ("divmod",):
            return "tuple"
        if f in ("floordiv", "mod") and kind(t.args[1]) == "int" and kind(t.args[2]) == "int":
            return "int"
        if f.startswith("numpy.") or f.startswith("math."):
            return "num"
        return None
    if o == "pow":
        return "num"
    if o in ("sum", "accread"):
        return "num"
    return None


def _split_bar(e):
    out, d, cur = [], 0, ""
    for c in e:
        if c == "[":
            d += 1
        elif c == "]":
            d -= 1
        if c == "|" and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += c
    out.append(cur)
    return out


SEQK = {"list", "str", "bytes", "tuple"}


def is_seqk(t):
    k = kind(t)
    return bool(k) and split_ty(k)[0] in SEQK


# ---------------------------------------------------------------- lifting
MAXLIFT = 14


def isatom(t):
    return t.op in BOOL_OPS


def top(t):
    """decision variable at the top of t, or None"""
    if t.op == "ite":
        return t.args[0]
    if t.op in BOOL_OPS:
        return t
    return None


def akey(a):
    o = a.op
    if o in ("ge", "gt"):
        return (a.args[0].h, 0, a.args[1], 1 if o == "gt" else 0, "")
    if o == "eqc":
        return (a.args[0].h, 1, 0, 0, a.args[1].h)
    return (a.h, 2, 0, 0, "")


def cof(t, a, v):
    """cofactor of decision diagram t by atom a (a not below t's top)"""
    if t is a:
        return TRUE if v else FALSE
    if t.op == "ite" and t.args[0] is a:
        return t.args[1] if v else t.args[2]
    return t


_NODE = {}


def node(a, hi, lo):
    hi = imply(hi, a, True)
    lo = imply(lo, a, False)
    if a.op == "eqc" and a.args[1] is NONE:
        if hi is a.args[0]:
            hi = NONE
        if hi is NONE and lo is a.args[0]:
            return lo
    if hi is lo:
        return hi
    if hi is TRUE and lo is FALSE:
        return a
    if a.op in ("ge", "gt", "eqc"):
        if top(hi) is not None and imply(hi, a, False) is lo:
            return hi
        if top(lo) is not None and imply(lo, a, True) is hi:
            return lo
    if a.op == "gt":
        # strictness is irrelevant when both branches agree at the tie
        if tied(hi, lo, a.args[0], a.args[1]):
            a = mk("ge", a.args[0], a.args[1])
    elif a.op == "ge" and isint(a.args[0]) and tied(hi, lo, a.args[0], a.args[1]):
        return ite(_ge(a.args[0], a.args[1] + 1, False), hi, lo)
    return mk("ite", a, hi, lo)


def tied(hi, lo, q, k):
    """hi and lo have the same value where q == k"""
    if hi is lo:
        return True
    a, b = top(hi), top(lo)
    if a is None and b is None:
        if not (NUMLEAF(hi) and NUMLEAF(lo)):
            return samewhen(hi, lo, q, k)
        d, s, c = direction(sub(hi, lo))
        return d is q and -c / s == k
    v = a if b is None or (a is not None and akey(a) < akey(b)) else b
    return tied(imply(hi, v, True), imply(lo, v, True), q, k) and tied(imply(hi, v, False), imply(lo, v, False), q, k)


_SW = [0]


def samewhen(hi, lo, q, k):
    """non-numeric terms equal once x = y, for q == k meaning x == y"""
    if hi.op != lo.op or k != 0 or _SW[0]:
        return False
    ms = monos(q)
    if len(ms) != 2:
        return False
    (f1, c1), (f2, c2) = ms.items()
    if len(f1) != 1 or len(f2) != 1 or c1 != -c2 or abs(c1) != 1:
        return False
    x, y = f1[0], f2[0]
    _SW[0] = 1
    try:
        f = lambda t: y if t is x else t
        return rewrite(hi, f) is rewrite(lo, f)
    finally:
        _SW[0] = 0


def NUMLEAF(t):
    return t.op in ("num", "poly", "inv") or kind(t) in ("int", "float", "num") or \
        t.op in ("attr", "get", "sym", "var", "bv", "pow", "call", "dget", "rec", "sum", "tget", "tval", "rd")


_IMP = {}


def implied(b, a, v):
    """value of atom b given atom a == v, or None"""
    if a is b:
        return v
    ao, bo = a.op, b.op
    if ao in ("ge", "gt") and bo in ("ge", "gt") and a.args[0] is b.args[0]:
        ka = (a.args[1], ao == "gt")
        kb = (b.args[1], bo == "gt")
        if v and kb <= ka:
            return True
        if not v and kb >= ka:
            return False
        return None
    if ao == "eqc" and bo == "eqc" and a.args[0] is b.args[0] and v:
        return False
    if ao == "eqc" and v and bo == "truth" and b.args[0] is a.args[0]:
        c = a.args[1]
        if is_const(c):
            return truth_const(c)
    if ao == "eqc" and v and bo in ("ge", "gt") and b.args[0] is a.args[0] and not is_num(a.args[1]):
        return False
    return None


def imply(t, a, v):
    """simplify diagram t under a == v"""
    if v and a.op == "eqc" and t is a.args[0] and a.args[1].op == "str":
        return a.args[1]
    b = top(t)
    if b is None:
        return t
    key = (t, a, v)
    r = _IMP.get(key)
    if r is not None:
        return r
    iv = implied(b, a, v)
    if iv is not None:
        r = imply(cof(t, b, iv), a, v)
    elif t.op == "ite":
        h = imply(t.args[1], a, v)
        l = imply(t.args[2], a, v)
        r = t if (h is t.args[1] and l is t.args[2]) else node(b, h, l)
    else:
        r = t
    _IMP[key] = r
    return r


_ITE = {}


def ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    key = (c, a, b)
    r = _ITE.get(key)
    if r is not None:
        return r
    v = min((x for x in (top(c), top(a), top(b)) if x is not None), key=akey)
    c1, c0 = imply(c, v, True), imply(c, v, False)
    a1, a0 = imply(a, v, True), imply(a, v, False)
    b1, b0 = imply(b, v, True), imply(b, v, False)
    r = node(v, ite(c1, a1, b1), ite(c0, a0, b0))
    _ITE[key] = r
    return r


def not_(c):
    return ite(c, FALSE, TRUE)


def and_(*cs):
    r = TRUE
    for c in cs:
        r = ite(r, c, FALSE)
    return r


def or_(*cs):
    r = FALSE
    for c in cs:
        r = ite(r, TRUE, c)
    return r


def implies(p, c):
    """p entails c"""
    return and_(p, not_(c)) is FALSE


def under(t, pc):
    """simplify diagram t on the region pc (a conjunction-like path condition)"""
    if pc is TRUE or top(t) is None:
        return t
    for a, v in alllits(pc):
        t = imply(t, a, v)
    return t


def literals(pc):
    """atoms whose value is fixed on the whole region pc"""
    out = []
    p = pc
    while True:
        a = top(p)
        if a is None:
            return out
        hi, lo = cof(p, a, True), cof(p, a, False)
        if lo is FALSE:
            out.append((a, True))
            p = hi
        elif hi is FALSE:
            out.append((a, False))
            p = lo
        else:
            return out


def lift(f, args):
    """apply f to args, moving decision diagrams in args to the top"""
    v = None
    for x in args:
        if isinstance(x, T):
            a = top(x)
            if a is not None and (v is None or akey(a) < akey(v)):
                v = a
    if v is None:
        return None
    hi = f(*[imply(x, v, True) if isinstance(x, T) else x for x in args])
    lo = f(*[imply(x, v, False) if isinstance(x, T) else x for x in args])
    return ite(v, hi, lo)


_RES = {}


def restrict(f, c):
    """f simplified on the region c (its value elsewhere is unspecified); drops tests of c that f does not need"""
    if c is TRUE or c is FALSE:
        return f
    a = top(f)
    if a is None:
        return f
    key = (f, c)
    r = _RES.get(key)
    if r is not None:
        return r
    b = top(c)
    v = min((a, b), key=akey)
    c1, c0 = imply(c, v, True), imply(c, v, False)
    if c1 is FALSE:
        r = restrict(imply(f, v, False), c0)
    elif c0 is FALSE:
        r = restrict(imply(f, v, True), c1)
    elif v is not a:
        r = restrict(f, or_(c1, c0))
    else:
        r = node(v, restrict(imply(f, v, True), c1), restrict(imply(f, v, False), c0))
    _RES[key] = r
    return r


_LITS = {}


def alllits(c):
    """every atom whose value is fixed on the region c"""
    r = _LITS.get(c)
    if r is None:
        r = []
        seen = set()
        st = [c]
        at = []
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            a = top(x)
            if a is None:
                continue
            if a not in at:
                at.append(a)
            if x.op == "ite":
                st.extend(x.args[1:])
        for a in at:
            if imply(c, a, False) is FALSE:
                r.append((a, True))
            elif imply(c, a, True) is FALSE:
                r.append((a, False))
        _LITS[c] = r
    return r


def region(f, c, default):
    """f on the region c, default elsewhere, except that tests fixed on the whole region are dropped:
    the same for all f that agree on c, whatever the order of tests"""
    if c is TRUE or c is FALSE or f is default:
        return f
    for a, v in alllits(c):
        f = imply(f, a, v)
        c = imply(c, a, v)
    if top(f) is None and not f.fv and False:
        return f
    return ite(c, f, default)


def underall(f, c):
    if c is TRUE or c is FALSE or top(f) is None:
        return f
    for a, v in alllits(c):
        f = imply(f, a, v)
    return f


def leaves(t, pc=TRUE):
    """(condition, leaf) pairs of a decision diagram"""
    a = top(t)
    if a is None:
        return [(pc, t)]
    if t.op in BOOL_OPS:
        return [(and_(pc, t), TRUE), (and_(pc, not_(t)), FALSE)]
    return leaves(t.args[1], and_(pc, a)) + leaves(t.args[2], and_(pc, not_(a)))


# ---------------------------------------------------------------- numbers
def monos(t):
    """dict factors(tuple of T sorted) -> coefficient"""
    if t.op == "num":
        return {(): t.args[0]} if t.args[0] else {}
    if t.op == "poly":
        return {m.args[1:]: m.args[0] for m in t.args}
    return {(t,): Fraction(1)}


def frommonos(d):
    items = [(fs, c) for fs, c in d.items() if c]
    if not items:
        return ZERO
    if len(items) == 1:
        fs, c = items[0]
        if not fs:
            return num(c)
        if c == 1 and len(fs) == 1:
            return fs[0]
    items.sort(key=lambda x: (len(x[0]), [f.h for f in x[0]]))
    return mk("poly", *[mk("mono", c, *fs) for fs, c in items])


def add(a, b):
    r = lift(add, (a, b))
    if r is not None:
        return r
    if is_seqk(a) or is_seqk(b):
        return cat(a, b)
    d = dict(monos(a))
    for fs, c in monos(b).items():
        d[fs] = d.get(fs, 0) + c
    return frommonos(d)


def neg(a):
    return mul(num(-1), a)


def sub(a, b):
    return add(a, neg(b))


def _mulfs(f1, f2):
    fs = list(f1)
    for f in f2:
        # cancel x * inv(x)
        done = False
        for i, g in enumerate(fs):
            if (f.op == "inv" and f.args[0] is g) or (g.op == "inv" and g.args[0] is f):
                del fs[i]
                done = True
                break
        if not done:
            fs.append(f)
    return tuple(sorted(fs, key=lambda f: f.h))


def mul(a, b):
    r = lift(mul, (a, b))
    if r is not None:
        return r
    if is_num(a) and is_num(b):
        return num(a.args[0] * b.args[0])
    for x, y in ((a, b), (b, a)):
        if is_seqk(x):
            return mk("rep", x, y)
    ma, mb = monos(a), monos(b)
    # x * inv(poly x)
    for x, y in ((a, b), (b, a)):
        if x.op == "inv" and x.args[0] is y:
            return ONE
    if len(ma) * len(mb) > 64:
        fs = sorted((a, b), key=lambda f: f.h)
        return mk("poly", mk("mono", Fraction(1), *fs))
    d = {}
    for f1, c1 in ma.items():
        for f2, c2 in mb.items():
            fs = _mulfs(f1, f2)
            d[fs] = d.get(fs, 0) + c1 * c2
    return frommonos(d)


def inv(a):
    r = lift(inv, (a,))
    if r is not None:
        return r
    if is_num(a):
        if a.args[0] == 0:
            return mk("inv", ZERO)
        return num(1 / a.args[0])
    m = monos(a)
    if len(m) == 1:
        (fs, c), = m.items()
        out = num(1 / c)
        for f in fs:
            out = mul(out, f.args[0] if f.op == "inv" else mk("inv", f))
        return out
    # normalise leading coefficient
    lead = a.args[-1].args[0]
    p = mul(num(1 / lead), a) if lead != 1 else a
    return mul(num(1 / lead), mk("inv", p))


def div(a, b):
    return mul(a, inv(b))


def pow_(a, b):
    r = lift(pow_, (a, b))
    if r is not None:
        return r
    if is_num(b):
        e = b.args[0]
        if e.denominator == 1 and is_num(a) and abs(e) <= 4096 and (a.args[0] or e > 0):
            return num(a.args[0] ** int(e))
        if e.denominator == 1 and 0 <= e <= 4:
            out = ONE
            for _ in range(int(e)):
                out = mul(out, a)
            return out
        if e.denominator == 1 and -4 <= e < 0:
            return inv(pow_(a, num(-e)))
    return mk("pow", a, b)


def direction(p):
    """p = s*(q) + k with q normalised (leading coefficient 1, no constant)"""
    d = dict(monos(p))
    k = d.pop((), Fraction(0))
    if not d:
        return None, Fraction(0), k
    q = frommonos(d)
    s = q.args[-1].args[0] if q.op == "poly" else Fraction(1)
    if s != 1:
        q = mul(num(1 / s), q)
    return q, s, k


def isint(t):
    return kind(t) == "int"


def _ge(q, k, strict):
    """q >= k or q > k, q normalised direction"""
    if isint(q):
        # integer valued
        if strict:
            k = Fraction(k.numerator // k.denominator + 1)
        else:
            k = Fraction(-((-k.numerator) // k.denominator))
        strict = False
        # len / count are non-negative
        if q.op in ("len", "count", "pos") and k <= 0:
            return TRUE
        if q.op in ("var", "bv") and k <= 0 and kind(q) == "int":
            return TRUE
    return mk("gt" if strict else "ge", q, k)


def le(a, b, strict=False):
    """a <= b (or a < b)"""
    f = lt if strict else le
    r = lift(f, (a, b))
    if r is not None:
        return r
    if a.op == "str" and b.op == "str" and type(a.args[0]) is type(b.args[0]):
        return const(a.args[0] < b.args[0] if strict else a.args[0] <= b.args[0])
    p = sub(b, a)            # 0 <= p
    q, s, k = direction(p)
    if q is None:
        return const(k > 0 if strict else k >= 0)
    # s*q + k >= 0
    if s > 0:
        return _ge(q, -k / s, strict)
    # q <= -k/s  ==  not (q > -k/s)
    return not_(_ge(q, -k / s, not strict))


def lt(a, b):
    return le(a, b, True)


def _distinct_consts(a, b):
    return is_const(a) and is_const(b) and a is not b


NONNULL_OPS = {"poly", "cat", "tuple", "lam", "tv", "new", "newlist", "newdict", "ref", "clo", "len", "comp", "cls", "mod",
               "slice", "inv", "true", "false", "num", "str", "newset", "part", "bound"}


def eq(a, b):
    if a is b:
        return TRUE
    r = lift(eq, (a, b))
    if r is not None:
        return r
    if a.op == "builtin":
        if b.op == "builtin" and a.args[0] in TYPENAMES and b.args[0] in TYPENAMES:
            return FALSE
        a, b = b, a
    if b.op == "builtin" and b.args[0] in TYPENAMES and a.op == "call" and a.args[0] == "type":
        return eq(attr(a, "__name__"), mk("str", b.args[0]))
    if _distinct_consts(a, b):
        return FALSE
    if a.op == "tuple" and b.op == "tuple":
        if len(a.args) != len(b.args):
            return FALSE
        return and_(*[eq(x, y) for x, y in zip(a.args, b.args)])
    if is_const(a):
        a, b = b, a
    if is_const(b):
        if b is NONE:
            if a.op == "attr" and a.args[1] == "__name__":
                return FALSE
            if a.op in NONNULL_OPS or kind(a) in ("int", "float", "num", "bool", "str", "bytes", "list", "dict", "tuple", "table"):
                return FALSE
            ka = kind(a)
            if ka and split_ty(ka)[0] in ("list", "dict", "tuple", "table", "ndarray"):
                return FALSE
            if ka and ka.startswith("obj:"):
                return FALSE
        elif b.op == "str" and b.args[0] in ("long", "unicode", "NoneType") and a.op == "attr" and a.args[1] == "__name__" and a.args[0].op == "call" and a.args[0].args[0] == "type":
            return eq(a.args[0].args[1], NONE) if b.args[0] == "NoneType" else FALSE
        elif b.op == "str" and a.op == "attr" and a.args[1] == "__name__" and a.args[0].op == "call" and a.args[0].args[0] == "type" \
                and kind(a.args[0].args[1]) in ("num", "int", "float") and b.args[0] not in ("int", "float", "float64", "int64", "bool"):
            return FALSE
        elif b.op in ("true", "false"):
            if kind(a) == "bool":
                return truth(a) if b is TRUE else not_(truth(a))
            if a.op in ("poly", "cat", "tuple", "new", "ref", "lam") and b.op in ("true", "false"):
                return FALSE
        elif b.op == "num":
            if kind(a) in ("int", "float", "num"):
                q, s, k = direction(sub(a, b))
                if q is None:
                    return const(k == 0)
                lo = _ge(q, -k / s, False)
                hi = _ge(q, -k / s, True)
                return and_(lo, not_(hi))
        if a.op in ("tuple", "ref", "new", "clo", "lam", "cls") and b.op in ("str", "num"):
            return FALSE
        if b.op in ("str", "num"):
            ka = kind(a)
            if ka and split_ty(ka)[0] in ("list", "dict", "tuple", "table"):
                return FALSE
        return mk("eqc", a, b)
    ka, kb = kind(a), kind(b)
    NUMK = ("int", "float", "num")
    if ka in NUMK and kb in NUMK:
        q, s, k = direction(sub(a, b))
        if q is None:
            return const(k == 0)
        if isint(q) and (k / s).denominator != 1:
            return FALSE
        return and_(_ge(q, -k / s, False), not_(_ge(q, -k / s, True)))
    if a.op == "ref" and b.op == "ref":
        return FALSE
    x, y = sorted((a, b), key=lambda t: t.h)
    return mk("eq", x, y)


def truth_const(t):
    o = t.op
    if o == "num":
        return t.args[0] != 0
    if o == "str":
        return len(t.args[0]) > 0
    if o == "true":
        return True
    return False


def truth(t):
    r = lift(truth, (t,)) if top(t) is not None and t.op == "ite" else None
    if r is not None:
        return r
    if t.op in BOOL_OPS or t in (TRUE, FALSE):
        return t
    if is_const(t):
        return const(truth_const(t))
    k = kind(t)
    if k == "bool":
        return mk("truth", t)
    if k in ("int", "num", "float"):
        return not_(eq(t, ZERO))
    if t.op == "tuple":
        return const(len(t.args) > 0)
    if t.op in ("clo", "cls", "lam", "bound", "part", "mod"):
        return TRUE
    if k:
        h = split_ty(k)[0]
        if h in ("list", "dict", "bytes", "str", "tuple"):
            return not_(eq(length(t), ZERO))
        if h == "table" or h.startswith("obj:"):
            return TRUE     # no __bool__/__len__ on these classes (checked by the engine)
    return mk("truth", t)


# ---------------------------------------------------------------- sequences
def one(v):
    r = lift(one, (v,))
    if r is not None:
        return r
    return mk("one", v)


def cat(*parts):
    r = lift(cat, parts)
    if r is not None:
        return r
    out = []
    for p in parts:
        if p.op == "cat":
            out.extend(p.args)
        elif p.op == "str" and len(p.args[0]) == 0 and len(parts) > 1:
            continue
        elif p.op == "tuple":
            out.extend(one(x) for x in p.args)
        elif p.op == "newlist" and len(p.args) == 1:
            out.extend(p.args[0].args if p.args[0].op == "cat" else [p.args[0]])
        else:
            out.append(p)
    if len(out) == 1 and out[0].op not in ("one",):
        return out[0]
    res = []
    for p in out:
        if res and p.op == "str" and res[-1].op == "str" and type(p.args[0]) is type(res[-1].args[0]):
            res[-1] = const(res[-1].args[0] + p.args[0])
        else:
            res.append(p)
    if len(res) == 1 and res[0].op != "one":
        return res[0]
    return mk("cat", *res)


def seq(*vals):
    return cat(NIL, *[one(v) for v in vals])


def N(n):
    return mk("N", n)


def comp(dom, lm):
    """comp(dom, lam(i; cond, seq)): concatenation over i of seq where cond"""
    r = lift(lambda d: comp(d, lm), (dom,))
    if r is not None:
        return r
    k, m = lm.args[0], lm.args[1]
    c, s = lm.args[2:]
    if c is FALSE or s is NIL:
        return NIL
    if dom.op == "N" and dom.args[0] is ZERO:
        return NIL
    # [x[i] for i in range(len(x))] == x
    if c is TRUE and s.op == "cat" and len(s.args) == 1 and s.args[0].op == "one":
        e = s.args[0].args[0]
        if e.op == "get" and e.args[1].op == "bv" and e.args[1].args[0] == k and e.args[0].hb < k and not has_bv(e.args[0], k):
            if dom is N(length(e.args[0])) and split_ty(kind(e.args[0]) or "")[0] == "list":
                return e.args[0]
    return mk("comp", dom, lm)


def has_bv(t, k, _memo=None):
    memo = {} if _memo is None else _memo
    if t.op == "bv":
        return t.args[0] == k
    if t in memo:
        return memo[t]
    r = any(isinstance(a, T) and has_bv(a, k, memo) for a in t.args)
    memo[t] = r
    return r


def length(t):
    r = lift(length, (t,)) if t.op == "ite" else None
    if r is not None:
        return r
    o = t.op
    nt = tuple_len(t)
    if nt is not None:
        return num(nt)
    if o == "cat":
        tot = ZERO
        for p in t.args:
            tot = add(tot, ONE if p.op == "one" else length(p))
        return tot
    if o == "one":
        return ONE
    if o == "tuple":
        return num(len(t.args))
    if o == "str":
        return num(len(t.args[0]))
    if o == "newlist":
        return length(t.args[0])
    if o == "comp":
        dom, lm = t.args
        c, s = lm.args[2:]
        if s.op == "cat" and all(p.op == "one" for p in s.args):
            n = len(s.args)
            if c is TRUE and dom.op == "N":
                return mul(num(n), dom.args[0])
            return mul(num(n), mk("count", dom, mk("lam", lm.args[0], 1, c)))
        if c is TRUE and dom.op == "N" and s.op == "comp" and False:
            pass
    if o == "call" and t.args[0] in ("sorted", "list", "reversed", "tuple") and len(t.args) >= 2:
        return length(t.args[1])
    if o == "content":
        return mk("len", t.args[0])
    if o == "listv":
        return length(t.args[0])
    if o in ("tmapped",):
        return length(t.args[0])
    return mk("len", t)


GETX = {}


def single(e):
    """a diagram of one-element sequences"""
    if e.op == "ite":
        return single(e.args[1]) and single(e.args[2])
    return e.op == "cat" and len(e.args) == 1 and e.args[0].op == "one"


def get(s, i):
    """element of a sequence / generic subscript"""
    r = lift(get, (s, i))
    if r is not None:
        return r
    o = s.op
    if o == "content" or o == "newlist" and len(s.args) == 1:
        return get(s.args[0], i) if o == "newlist" else _get_raw(s.args[0], i)
    if is_num(i) and i.args[0].denominator == 1:
        n = int(i.args[0])
        if o in ("tuple",):
            if -len(s.args) <= n < len(s.args):
                return s.args[n]
        if o == "cat":
            ps = s.args
            if n >= 0:
                j = 0
                for p in ps:
                    if p.op != "one":
                        break
                    if j == n:
                        return p.args[0]
                    j += 1
            else:
                j = -1
                for p in reversed(ps):
                    if p.op != "one":
                        break
                    if j == n:
                        return p.args[0]
                    j -= 1
        if o == "str" and -len(s.args[0]) <= n < len(s.args[0]) and isinstance(s.args[0], str):
            return const(s.args[0][n])
        if n < 0 and (o in ("cat", "comp", "content") or split_ty(kind(s) or "")[0] in ("list", "tuple", "str")):
            return get(s, add(length(s), i))
    if o in GETX:
        return GETX[o](s, i)
    if i.op == "first" and i.args[0].op == "N" and i.args[0].args[0] is length(s):
        c = i.args[1].args[2]
        if c.op in ("eq", "eqc"):
            for x, k in ((c.args[0], c.args[1]), (c.args[1], c.args[0])):
                if x.op == "get" and x.args[0] is s and x.args[1].op == "bv" and k.hb == 0:
                    return k
    if o == "comp":
        dom, lm = s.args
        c, e = lm.args[2:]
        if i is ZERO and c is not TRUE and e.op == "cat" and len(e.args) == 1 and e.args[0].op == "one":
            fi = mk("first", dom, mk("lam", lm.args[0], 1, c))
            return instantiate(mk("lam", lm.args[0], 1, e.args[0].args[0]), [fi])
        if e.op == "ite" and c is TRUE and single(e):
            return get(instantiate(mk("lam", lm.args[0], 1, e), [i]), ZERO)
        if e.op == "cat" and len(e.args) == 1 and e.args[0].op == "one":
            if c is TRUE:
                return instantiate(mk("lam", lm.args[0], 1, e.args[0].args[0]), [i])
            if i.op == "pos" and i.args[0] is dom and i.args[1] is mk("lam", lm.args[0], 1, c):
                return instantiate(mk("lam", lm.args[0], 1, e.args[0].args[0]), [i.args[2]])
    if o == "slice":
        base, lo, hi = s.args
        if lo is not NONE and (kind(i) == "int") and not (is_num(i) and i.args[0] < 0):
            return get(base, add(lo, i))
        if lo is NONE and not (is_num(i) and i.args[0] < 0):
            return get(base, i)
    return _get_raw(s, i)


def _get_raw(s, i):
    return mk("get", s, i)


def slice_(s, lo, hi):
    r = lift(slice_, (s, lo, hi))
    if r is not None:
        return r
    if lo is ZERO:
        lo = NONE
    if hi is not NONE and hi is length(s):
        hi = NONE
    if lo is NONE and hi is NONE:
        return s
    if s.op == "content":
        s = s.args[0]
    if s.op in ("cat", "tuple") and all(p.op == "one" for p in s.args) or s.op == "tuple":
        try:
            l = None if lo is NONE else int(cval(lo))
            h = None if hi is NONE else int(cval(hi))
            return mk(s.op, *s.args[l:h])
        except KeyError:
            pass
    if hi is NONE and is_num(lo) and lo.args[0] > 0:
        if s.op == "cat" and s.args and s.args[0].op == "one":
            return slice_(cat(NIL, *s.args[1:]), sub(lo, ONE), NONE)
        if s.op == "slice" and s.args[2] is NONE and is_num(s.args[1]) and s.args[1].args[0] > 0:
            return slice_(s.args[0], add(lo, s.args[1]), NONE)
    if s.op == "str":
        try:
            l = None if lo is NONE else int(cval(lo))
            h = None if hi is NONE else int(cval(hi))
            return const(s.args[0][l:h])
        except KeyError:
            pass
    return mk("slice", s, lo, hi)


# ---------------------------------------------------------------- binders
def lam(vars_, bodies):
    k = 1 + max([b.hb for b in bodies] + [0])
    m = {}
    for j, v in enumerate(vars_):
        tag = "i" if v.args[0].startswith("i~") else "p"
        m[v] = mk("bv", k, j, tag)
    return mk("lam", k, len(vars_), *[subst(b, m) for b in bodies])


def instantiate(lm, vals):
    """bodies of lam with bound variables replaced; one body -> the body itself"""
    k, n = lm.args[0], lm.args[1]
    bodies = lm.args[2:]
    m = {}
    for j, v in enumerate(vals):
        m[("bv", k, j)] = v
    out = [_subst(b, m, {}) for b in bodies]
    return out[0] if len(out) == 1 else out


def subst(t, m):
    """replace 'var' terms (or arbitrary terms) by mapping m"""
    return _subst(t, m, {})


REBUILD = {}


def _subst(t, m, memo):
    r = memo.get(t)
    if r is not None:
        return r
    if t in m:
        r = m[t]
    elif t.op == "bv":
        r = m.get(("bv", t.args[0], t.args[1]), t)
    elif t.op in ("num", "str", "true", "false", "none", "var", "sym"):
        r = t
    elif t.op == "lam":
        k, n = t.args[0], t.args[1]
        bodies = [_subst(b, m, memo) for b in t.args[2:]]
        if all(x is y for x, y in zip(bodies, t.args[2:])):
            r = t
        else:
            vs = []
            mm = {}
            for j in range(n):
                tag = bvtag(t.args[2:], k, j)
                v = fresh(tag)
                vs.append(v)
                mm[("bv", k, j)] = v
            # open with fresh names, substitute, close again (renumbers)
            opened = [_subst(b, mm, {}) for b in t.args[2:]]
            opened = [_subst(b, m, {}) for b in opened]
            r = lam(vs, opened)
    else:
        args = [(_subst(a, m, memo) if isinstance(a, T) else a) for a in t.args]
        if all(x is y for x, y in zip(args, t.args)):
            r = t
        else:
            r = rebuild(t.op, args)
    memo[t] = r
    return r


def bvtag(bodies, k, j):
    for b in bodies:
        tg = _bvtag(b, k, j, set())
        if tg:
            return tg
    return "i"


def _bvtag(t, k, j, seen):
    if t in seen:
        return None
    seen.add(t)
    if t.op == "bv":
        if t.args[0] == k and t.args[1] == j:
            return t.args[2]
        return None
    for a in t.args:
        if isinstance(a, T):
            r = _bvtag(a, k, j, seen)
            if r:
                return r
    return None


def rebuild(op, args):
    f = REBUILD.get(op)
    if f:
        return f(*args)
    r = lift(lambda *a: rebuild(op, list(a)), args)
    if r is not None:
        return r
    return mk(op, *args)


def _rb_poly(*ms):
    tot = ZERO
    for m in ms:
        # each m is a mono term rebuilt raw
        p = num(m.args[0])
        for f in m.args[1:]:
            p = mul(p, f)
        tot = add(tot, p)
    return tot


def _rb_mono(c, *fs):
    return mk("mono", c, *fs)


def _rb_ite(c, a, b):
    return ite(c, a, b)


def _rb_ge(q, k):
    return le(num(k), q)


def _rb_gt(q, k):
    return lt(num(k), q)


CALLFOLD = {}


def call(name, *args):
    r = lift(lambda *a: call(name, *a), args)
    if r is not None:
        return r
    f = CALLFOLD.get(name)
    if f:
        r = f(*args)
        if r is not None:
            return r
    return mk("call", name, *args)


def attr(o, name):
    r = lift(lambda x: attr(x, name), (o,))
    if r is not None:
        return r
    if o.op == "new":
        for fld in o.args[1:]:
            if fld.args[0] == name:
                return fld.args[1]
    return mk("attr", o, name)


def dget(d, k):
    r = lift(dget, (d, k))
    if r is not None:
        return r
    if d.op == "dput":
        return ite(eq(d.args[1], k), d.args[2], dget(d.args[0], k))
    if d.op in ("content", "newdict"):
        return dget(d.args[0], k)
    if d.op == "dcomp":
        # dcomp(init, dom, lam(i; cond, key, val)); injective keys
        init, dom, lm = d.args
        if k.op == "dkeyof" and k.args[0] is d:
            return instantiate(lm, [k.args[1]])[2]
        ix = match_key(lm, k)
        if ix is not None:
            c, kk, v = instantiate(lm, [ix])
            if c is TRUE:
                return v
    return mk("dget", d, k)


def match_key(lm, k):
    """index i with lam.key(i) is k, when the key is dkey(d,i)/i itself"""
    kb = lm.args[3]
    kk = lm.args[0]
    if kb.op == "bv" and kb.args[0] == kk:
        return k
    if kb.op in ("dkey", "get") and kb.args[1].op == "bv" and kb.args[1].args[0] == kk:
        if k.op == kb.op and k.args[0] is kb.args[0]:
            return k.args[1]
    return None


def dkey(d, i):
    r = lift(dkey, (d, i))
    if r is not None:
        return r
    if d.op in ("content", "newdict"):
        return dkey(d.args[0], i)
    if d.op == "dcomp" and d.args[0] is DNIL and d.args[1].op == "N":
        vs, bodies = open_lam(d.args[2])
        kk, v = bodies[1], vs[0]
        if bodies[0] is TRUE and (kk is v or (kk.op == "tuple" and v in kk.args) or (kk.op == "dkey" and kk.args[1] is v)):
            return instantiate(d.args[2], [i])[1]
    return mk("dkey", d, i)


def dlen(d):
    r = lift(dlen, (d,))
    if r is not None:
        return r
    if d.op in ("content", "newdict"):
        return dlen(d.args[0])
    if d is DNIL:
        return ZERO
    if d.op == "dcomp" and d.args[0] is DNIL and d.args[2].args[2] is TRUE and d.args[1].op == "N":
        return d.args[1].args[0]
    if d.op == "dput":
        return add(dlen(d.args[0]), ite(din(d.args[0], d.args[1]), ZERO, ONE))
    return mk("len", d)


DNIL = mk("dnil")


def dput(d, k, v):
    r = lift(dput, (d, k, v))
    if r is not None:
        return r
    if d.op == "dput" and d.args[1] is k:
        return dput(d.args[0], k, v)
    return mk("dput", d, k, v)


def din(d, k):
    r = lift(din, (d, k))
    if r is not None:
        return r
    if d.op in ("content", "newdict"):
        return din(d.args[0], k)
    if d is DNIL:
        return FALSE
    if d.op == "dput":
        return or_(eq(d.args[1], k), din(d.args[0], k))
    if k.op == "dkey" and k.args[0] is d:
        return TRUE
    if d.op == "dcomp" and match_key(d.args[2], k) is not None:
        pass
    return mk("in", k, d)


TYPENAMES = ("int", "float", "bool", "str", "bytes", "list", "dict", "tuple", "set")


def typename(x):
    return attr(call("type", x), "__name__")


def isinst(x, cname):
    r = lift(lambda y: isinst(y, cname), (x,))
    if r is not None:
        return r
    if cname in TYPENAMES and not kind(x):
        t = eq(typename(x), mk("str", cname))
        return or_(t, eq(typename(x), mk("str", "bool"))) if cname == "int" else t
    return mk("isinst", x, cname)


REBUILD.update(poly=_rb_poly, mono=_rb_mono, ite=_rb_ite, ge=_rb_ge, gt=_rb_gt, inv=inv, pow=pow_, eq=eq, eqc=eq,
               truth=truth, one=one, cat=cat, comp=comp, len=length, get=get, slice=slice_, attr=attr, dget=dget,
               dput=dput, dkey=dkey, call=call, isinst=isinst)
REBUILD["in"] = lambda k, d: din(d, k)


# ---------------------------------------------------------------- printing
def show(t, depth=8):
    if not isinstance(t, T):
        return repr(t)
    o = t.op
    if o == "num":
        f = t.args[0]
        return str(f) if f.denominator == 1 else repr(float(f))
    if o == "ref":
        return "#%s" % t.args[0]
    if o == "str":
        return repr(t.args[0])
    if o in ("true", "false", "none", "bot"):
        return {"true": "True", "false": "False", "none": "None", "bot": "⊥"}[o]
    if o in ("sym", "var"):
        return str(t.args[0])
    if o == "bv":
        return "%s%d.%d" % (t.args[2], t.args[0], t.args[1])
    if depth <= 0:
        return "…"
    d = depth - 1
    if o == "poly":
        out = []
        for m in t.args:
            c, fs = m.args[0], m.args[1:]
            s = "*".join(show(f, d) for f in fs)
            if not fs:
                s = str(c)
            elif c == -1:
                s = "-" + s
            elif c != 1:
                s = "%s*%s" % (c, s)
            out.append(s)
        return "(" + " + ".join(out) + ")"
    if o == "ite":
        return "(%s ? %s : %s)" % tuple(show(a, d) for a in t.args)
    if o == "ge":
        return "(%s >= %s)" % (show(t.args[0], d), t.args[1])
    if o == "gt":
        return "(%s > %s)" % (show(t.args[0], d), t.args[1])
    if o in ("eq", "eqc"):
        return "(%s == %s)" % (show(t.args[0], d), show(t.args[1], d))
    if o == "attr":
        return "%s.%s" % (show(t.args[0], d), t.args[1])
    if o == "get":
        return "%s[%s]" % (show(t.args[0], d), show(t.args[1], d))
    if o == "lam":
        return "λ%d/%d.{%s}" % (t.args[0], t.args[1], "; ".join(show(a, d) for a in t.args[2:]))
    if o == "call":
        return "%s(%s)" % (t.args[0], ", ".join(show(a, d) for a in t.args[1:]))
    if o == "one":
        return "<%s>" % show(t.args[0], d)
    if o == "cat":
        return "[%s]" % " ++ ".join(show(a, d) for a in t.args)
    return "%s(%s)" % (o, ", ".join(show(a, d) for a in t.args))


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        for a in x.args:
            if isinstance(a, T):
                stack.append(a)


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


def diff(a, b, depth=40):
    """smallest differing subterm pair on one path"""
    path = []
    while depth and isinstance(a, T) and isinstance(b, T) and a is not b and a.op == b.op and len(a.args) == len(b.args):
        nd = [(x, y) for x, y in zip(a.args, b.args) if x is not y and x != y]
        if len(nd) != 1:
            break
        if not isinstance(nd[0][0], T) or not isinstance(nd[0][1], T):
            break
        path.append(a.op)
        a, b = nd[0]
        depth -= 1
    return path, a, b


def open_lam(lm):
    """bodies of a binder with fresh variables in place of the bound ones"""
    k, n = lm.args[0], lm.args[1]
    vs = [fresh(bvtag(lm.args[2:], k, j)) for j in range(n)]
    m = {("bv", k, j): vs[j] for j in range(n)}
    return vs, [_subst(b, m, {}) for b in lm.args[2:]]


def rewrite(t, fn):
    """bottom-up rewriting with renormalisation; binders are opened and closed"""
    memo = {}

    def go(u):
        r = memo.get(u)
        if r is not None:
            return r
        if u.op == "lam":
            vs, bs = open_lam(u)
            nb = [go(b) for b in bs]
            r = u if all(x is y for x, y in zip(nb, bs)) else lam(vs, nb)
        elif any(isinstance(x, T) for x in u.args):
            ar = [go(x) if isinstance(x, T) else x for x in u.args]
            r = u if all(x is y for x, y in zip(ar, u.args)) else rebuild(u.op, ar)
            z = fn(r)
            r = r if z is None else z
        else:
            z = fn(u)
            r = u if z is None else z
        memo[u] = r
        return r
    return go(t)
