"""Algebra of encoded plaintexts and ciphertexts on extracted terms.

A plaintext is a Laurent polynomial modulo n: monomials of symbols times a power of the
encoding base whose exponent is a linear form.  A Paillier ciphertext is a unit modulo n^2;
D maps it to the plaintext it encrypts: D(a*b) = D(a)+D(b), D(a^k) = k*D(a),
D(1/a) = -D(a), D(1+n*m) = m, and n-th powers (the blinding factors) map to 0."""
from fractions import Fraction
from . import terms as TT
from .terms import *


class Unknown(Exception):
    pass


class Wrong(Exception):
    pass


class Split(Exception):
    """a decision inside a value: consider both cases"""

    def __init__(self, atom_):
        self.atom = atom_


def assume(t, a, v, memo):
    """the term when atom a has value v, decisions inside arguments included"""
    r = memo.get(t)
    if r is None:
        r = t
        if TT.top(t) is not None:
            r = TT.imply(t, a, v)
        if r.op == "ite":
            r = ite(r.args[0], assume(r.args[1], a, v, memo), assume(r.args[2], a, v, memo))
        elif any(isinstance(x, T) for x in r.args) and r.op not in TT.BOOL_OPS:
            n = [assume(x, a, v, memo) if isinstance(x, T) else x for x in r.args]
            if any(x is not y for x, y in zip(n, r.args)):
                r = TT.rebuild(r.op, n)
        memo[t] = r
    return r


def decision(t):
    """a decision anywhere inside the term"""
    if t.op == "ite":
        return TT.top(t)
    for x in t.args:
        if isinstance(x, T):
            d = decision(x)
            if d is not None:
                return d
    return None


def lin(t):
    """linear form of an exponent: sorted ((atoms), coefficient)"""
    return tuple(sorted(((fs, c) for fs, c in TT.monos(t).items()), key=lambda x: [f.h for f in x[0]]))


def lin_add(a, b, k=1):
    d = dict(a)
    for f, c in b:
        d[f] = d.get(f, 0) + k * c
    return tuple(sorted(((f, c) for f, c in d.items() if c), key=lambda x: [g.h for g in x[0]]))


class Val(object):
    """dict: (sorted ((atom, power)), linear exponent of the base) -> coefficient"""

    def __init__(self, d=None):
        self.d = {k: c for k, c in (d or {}).items() if c}

    def __add__(self, o):
        d = dict(self.d)
        for k, c in o.d.items():
            d[k] = d.get(k, 0) + c
        return Val(d)

    def __neg__(self):
        return Val({k: -c for k, c in self.d.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        d = {}
        for (f, e), c in self.d.items():
            for (g, h), k in o.d.items():
                m = dict(f)
                for a, p in g:
                    m[a] = m.get(a, 0) + p
                key = (tuple(sorted(((a, p) for a, p in m.items() if p), key=lambda x: str(x[0].h if isinstance(x[0], T) else x[0]))), lin_add(e, h))
                d[key] = d.get(key, 0) + c * k
        return Val(d)

    def inverse(self):
        if len(self.d) != 1:
            raise Unknown("inverse of a sum")
        ((f, e), c), = self.d.items()
        return Val({(tuple((a, -p) for a, p in f), lin_add((), e, -1)): Fraction(1) / c})

    def atoms(self):
        s = set()
        for f, e in self.d:
            s |= set(a for a, _ in f)
            for fs, _ in e:
                s |= set(fs)
        return s

    def __repr__(self):
        if not self.d:
            return "0"
        sh = lambda a: show(a, 4) if isinstance(a, T) else str(a)
        out = []
        for (f, e), c in self.d.items():
            x = [str(c)] if c != 1 or not f else []
            x += [sh(a) + ("^%d" % p if p != 1 else "") for a, p in f]
            if e:
                x.append("B^(%s)" % " + ".join("%s*%s" % (k, "*".join(sh(a) for a in fs) or "1") for fs, k in e))
            out.append("*".join(x))
        return " + ".join(out)


def const_(c):
    return Val({((), ()): Fraction(c)})


ONEV = const_(1)


def atom(a):
    return Val({(((a, 1),), ()): Fraction(1)})


def power(e):
    """B^e for an exponent term"""
    return Val({((), lin(e)): Fraction(1)})


class Ring(object):
    """values modulo the term n; zero: atoms that vanish modulo n"""

    def __init__(self, n, base, square=None, moduli=(), zero=(), logs=()):
        self.n, self.base = n, base
        self.square = square if square is not None else mul(n, n)
        self.moduli = set(moduli) | {n, self.square}
        self.zero = set(zero) | {n}
        self.logs = dict(logs)      # (modulus) -> kappa name
        self.cipher = {}            # ciphertext symbol -> plaintext atom

    def short(self, t):
        return str(t.args[0]).split(".")[-1]

    def val(self, t):
        o = t.op
        if o == "num":
            return const_(t.args[0])
        if o == "bool":
            return const_(1 if t is TRUE else 0)
        if t in self.zero:
            return Val()
        if o == "poly":
            tot = Val()
            for fs, c in TT.monos(t).items():
                tot = tot + const_(c) * self.product(fs)
            return tot
        if o == "inv":
            return self.val(t.args[0]).inverse()
        if o == "call" and t.args[0] == "mod":
            a, m = t.args[1:]
            if m in self.moduli:
                return self.val(a)
            return atom(t)
        if o == "pow":
            b, e = t.args[-2:]
            if b is self.base:
                return power(e)
            if is_num(e) and e.args[0].denominator == 1 and 0 <= e.args[0] < 9:
                r = ONEV
                for _ in range(int(e.args[0])):
                    r = r * self.val(b)
                return r
            return atom(t)
        if o == "call":
            f = t.args[0]
            if f == "fx.encoding":
                if t.args[3] not in self.moduli:
                    raise Wrong("encoded against %s instead of %s" % (show(t.args[3], 6), show(self.n, 6)))
                return self.val(t.args[1]) * power(t.args[2])
            if f == "fx.value" and t.args[3] in self.moduli:
                return self.val(t.args[1]) * power(neg(t.args[2]))
            if f == "raw":
                return self.D(t.args[1])
            if f == "invm":
                if t.args[2] in self.moduli:
                    return self.val(t.args[1]).inverse()
                return atom(t)
            if f == "int" and len(t.args) == 2:
                return self.val(t.args[1])
        if o == "call" and t.args[0] == "floordiv" and t.args[2] in self.logs:
            # L(x) = (x-1)//p of x = c^(p-1) mod p^2 is a homomorphism of ciphertexts
            p = t.args[2]
            d = decision(t.args[1])
            if d is not None:
                raise Split(d)
            x = add(t.args[1], ONE)
            if x.op == "call" and x.args[0] == "mod" and x.args[2] is mul(p, p):
                x = x.args[1]
            if x.op == "call" and x.args[0] == "powm" and x.args[2] is sub(p, ONE) and x.args[3] is mul(p, p):
                return self.D(x.args[1]) * atom(self.logs[p])
            if x.op == "call" and x.args[0] == "powm":
                raise Wrong("the logarithm is not taken of the (p-1)-th power modulo p^2: %s" % show(t, 8))
        if o == "ite":
            raise Split(TT.top(t))
        return atom(t)

    def product(self, fs):
        r = ONEV
        for f in fs:
            r = r * self.val(f)
        return r

    def plain(self, ms, nf):
        """every monomial is a multiple of n and holds no ciphertext"""
        return len(ms) > 1 and all(set(nf) <= set(fs) and not any(f in self.cipher for f in fs) for fs in ms)

    def D(self, t):
        """the plaintext of a ciphertext"""
        o = t.op
        if o == "ite":
            raise Split(TT.top(t))
        if t in self.cipher:
            return atom(self.cipher[t])
        if t is ONE:
            return Val()
        if o == "call" and t.args[0] == "mod":
            if t.args[2] is self.square:
                return self.D(t.args[1])
            if t.args[2] is self.n:
                raise Wrong("a ciphertext is reduced modulo %s, not modulo n^2" % show(t.args[2], 6))
            raise Unknown("reduced modulo %s" % show(t.args[2], 6))
        if o == "call" and t.args[0] == "powm":
            a, k, m = t.args[1:4]
            if m is not self.square:
                raise Wrong("a ciphertext is raised to a power modulo %s, not modulo n^2" % show(m, 6))
            v = self.val(k)
            if not v.d:
                return v
            return v * self.D(a)
        if o == "call" and t.args[0] == "invm":
            if t.args[2] is not self.square:
                raise Wrong("a ciphertext is inverted modulo %s, not modulo n^2" % show(t.args[2], 6))
            return -self.D(t.args[1])
        if o == "inv":
            raise Wrong("a ciphertext is divided as a number")
        ms = TT.monos(t)
        if len(ms) == 1:
            (fs, c), = ms.items()
            if c == 1 and len(fs) > 1:
                if t is self.n:
                    raise Unknown("n as ciphertext")
                r = Val()
                for f in fs:
                    r = r + self.D(f)
                return r
            raise Unknown("ciphertext %s" % show(t, 8))
        nf = list(TT.monos(self.n))[0]
        if () in ms or self.plain(ms, nf):
            tot = Val()
            c0 = ms.get((), 0)
            for fs, c in ms.items():
                if fs == ():
                    continue
                rest = list(fs)
                for f in nf:
                    if f in rest:
                        rest.remove(f)
                    else:
                        raise Unknown("not of the form 1+n*m: %s" % show(t, 8))
                tot = tot + const_(c) * self.product(rest)
            if c0 not in (1, -1):
                # a multiple of n is no unit; another constant carries a plaintext of its own
                raise Wrong("a ciphertext is formed as %s + n*m, not as 1 + n*m" % c0)
            # -1 is an n-th power (n is odd): it encrypts 0, and -1 + n*m = -(1 - n*m)
            return tot if c0 == 1 else -tot
        raise Unknown("ciphertext %s" % show(t, 8))


def equalities(pc):
    """linear forms that vanish on the region"""
    at, out = {}, []
    for a, v in TT.alllits(pc):
        if a.op == "ge" and isinstance(a.args[0], T):
            at.setdefault(a.args[0], {})[a.args[1]] = v
        elif a.op == "eqc" and v and isinstance(a.args[1], Fraction):
            out.append(sub(a.args[0], num(a.args[1])))
    for l, d in at.items():
        for k, v in d.items():
            if v and d.get(k + 1) is False and TT.isint(l):
                out.append(sub(l, num(k)))
    return out


def reduce_(v, eqs):
    """apply linear equalities to the exponents"""
    rel = []
    for e in eqs:
        l = lin(e)
        for f, c in reversed(l):
            if f:
                rel.append((f, c, l))
                break
    d = {}
    for (f, e), c in v.d.items():
        for g, k, l in rel:
            x = dict(e).get(g)
            if x:
                e = lin_add(e, l, -Fraction(x) / k)
        d[(f, e)] = d.get((f, e), 0) + c
    return Val(d)


def cases(t):
    """(condition, leaf) with every decision of the term and of its components resolved"""
    out = []
    for pc, leaf in TT.leaves(t):
        if pc is FALSE:
            continue
        if leaf.op != "tuple":
            out.append((pc, leaf))
            continue
        cur = [(pc, [])]
        for x in leaf.args:
            nxt = []
            for c, acc in cur:
                for c2, l in TT.leaves(TT.underall(x, c), c):
                    if c2 is not FALSE:
                        nxt.append((c2, acc + [l]))
            cur = nxt
        out += [(c, mk("tuple", *a)) for c, a in cur]
    return out
