"""C06: key material and blinding factors come from the OS generator, fresh for every ciphertext."""
from vgg.check import *
from vgg.rtypes import *
from vgg import ring as R
from vgg import terms as TT
from checks.c07 import ENC, POW, PA, GM, Bench, i, subterms
TECH = "provenance (taint) dataflow over random draws: every draw is a numbered source in the value graph; key and ciphertext terms are checked for the source and freshness of their draws"
SECURE = ("random.SystemRandom.", "os.urandom", "secrets.", "Cryptodome.Random", "prime")
EN = "ml.secureprotol.encrypt."


def draws(t):
    return [x for x in subterms(t) if x.op == "inp" and isinstance(x.args[0], str) and x.args[0].startswith("rand:")]


def source(d):
    return d.args[0][5:]


def secure(d):
    return source(d).startswith(SECURE)


def args_of(d):
    return [x for x in d.args[3:] if isinstance(x, T)]


def mentions(t, syms):
    s = subterms(t)
    return any(x in s for x in syms)


def factors(t, n, sq, out):
    """the values whose n-th power is a direct factor of the ciphertext"""
    while t.op == "call" and t.args[0] == "mod" and t.args[2] is sq:
        t = t.args[1]
    ms = TT.monos(t)
    if len(ms) != 1:
        return out
    (fs, c), = ms.items()
    if c != 1:
        return out
    for f in fs:
        if f.op == "call" and f.args[0] == "powm" and f.args[3] is sq and (f.args[2] is n):
            out.append(f.args[1])
        elif f is not t and f.op == "call" and f.args[0] == "mod":
            factors(f, n, sq, out)
    return out


def width(r, n):
    """problem with the range the blinding value is drawn from, None if there is none"""
    ds = draws(r)
    for d in ds:
        a = args_of(d)
        if a and not any(mentions(x, [n]) for x in a):
            return "%s draws from a range that does not depend on the modulus" % show(d, 5)
    if len(ds) == 1 and ds[0] is not r:
        k = sub(r, ds[0])
        if not is_num(k):
            return None
        lo = k
    else:
        lo = ZERO
    d = ds[0]
    a = args_of(d)
    nm = source(d).split(".")[-1]
    least = a[0] if nm in ("randrange", "randint") and len(a) == 2 else ZERO
    z = add(least, lo)
    if is_num(z) and z.args[0] < 0:
        return "%s may be negative" % show(r, 5)
    return None


class Keys(Bench):
    def keys(self, what, driver, args, stubs, where, size, names):
        o = self.run(what, driver, args, stubs)
        if o is None:
            return None
        res = o.parts.get("result")
        if res is None:
            self.rep.violation(what, where, "never returns")
            return None
        all_ = draws(res)
        bad = [d for d in all_ if not secure(d)]
        if bad:
            self.rep.violation(what, where, "key material is drawn from %s" % source(bad[0]))
            return o
        for d in all_:
            a = args_of(d)
            if a and not mentions_any(a, size):
                self.rep.violation(what, where, "%s does not depend on the requested key size" % show(d, 5))
                return o
        for pc, leaf in TT.leaves(res):
            if pc is FALSE or leaf is BOT or leaf.op == "bottom":
                continue
            if leaf.op != "tuple":
                self.rep.undecided(what, where, "result %s" % show(leaf, 5))
                return o
            for name, x in zip(names, leaf.args):
                if not draws(x):
                    if [y for y in subterms(x) if y.op in ("call", "ext", "global", "attr") and y not in (x,)] and not is_num(x) and unknown(x):
                        self.rep.undecided(what, where, "%s = %s" % (name, show(x, 5)))
                    else:
                        self.rep.violation(what, where, "%s is not random: %s" % (name, show(x, 5)))
                    return o
        self.rep.ok(what, where)
        return o

    def blinded(self, what, driver, args, where, explicit=(), skip=()):
        """every ciphertext returned has a fresh blinding factor of its own"""
        n = args[0]
        sq = mul(n, n)
        o = self.run(what, driver, args, ENC)
        if o is None:
            return
        res = o.parts.get("result")
        if res is None:
            self.rep.violation(what, where, "never returns")
            return
        for pc, leaf in R.cases(res):
            if pc is FALSE or leaf is BOT or leaf.op == "bottom":
                continue
            if leaf.op != "tuple":
                self.rep.undecided(what, where, "result %s" % show(leaf, 5))
                return
            if not self.fresh(what, where, list(leaf.args), n, sq, pc):
                return
        self.rep.ok(what, where)

    def fresh(self, what, where, items, n, sq, pc, row=None):
        fac = []
        for x in items:
            fs = factors(x, n, sq, [])
            good = []
            for r in fs:
                ds = draws(r)
                if not ds:
                    continue
                bad = [d for d in ds if not secure(d)]
                if bad:
                    self.rep.violation(what, where, "a ciphertext is blinded with a value from %s" % source(bad[0]))
                    return False
                w = width(r, n)
                if w:
                    self.rep.violation(what, where, w)
                    return False
                good.append(r)
            if not good:
                weak = [d for d in draws(x) if not secure(d)]
                if weak:
                    self.rep.violation(what, where, "a ciphertext uses randomness from %s" % source(weak[0]))
                else:
                    self.rep.violation(what, where, "ciphertext without a fresh blinding factor r^n%s: %s" % ("" if pc is TRUE else " when %s" % show(pc, 4), show(x, 6)))
                return False
            fac.append(good)
        for k, rs in enumerate(fac):
            rest = set(r for q in fac[:k] for r in q)
            own = [r for r in rs if r not in rest]
            if not own:
                self.rep.violation(what, where, "a blinding factor is used for two ciphertexts: %s" % show(rs[0], 5))
                return False
            if row is not None and not any(row in subterms(r) for r in own):
                self.rep.violation(what, where, "every row is blinded with the same factor %s" % show(own[0], 5))
                return False
        return True


def unknown(x):
    return any(y.op in ("ext", "global") for y in subterms(x))


def mentions_any(a, size):
    return any(mentions(x, size) for x in a)


def prime(I, f, args, kw, st, fr, node):
    _, b = I.bind(f, args, kw, st, None)
    return declare(I.M.stream("rand:prime", [I.M.V(list(b.values())[0], st)], st), "int")


def run(rep):
    rep.rule("every random draw that reaches key material or a blinding factor has a cryptographic OS source and is sized by the key; no draw serves two ciphertexts")
    P = program()
    install()
    B = Keys(rep, P)
    bits, n, cx, cy, ex, ey = i("bits"), i("n"), i("cx"), i("cy"), i("ex"), i("ey")
    s, t, r, p = sym("s", "num"), sym("t", "num"), i("r"), i("precision")
    pr = {GM + "getprimeover": prime}
    o = B.run("a random prime", "prime", [bits], None)
    if o is not None:
        res = o.parts.get("result", NONE)
        ds = draws(res)
        bad = [d for d in ds if not secure(d)]
        w = GM + "getprimeover"
        if bad or not ds:
            rep.violation("a random prime comes from the OS generator", w, "drawn from %s" % (source(bad[0]) if bad else "no random source: %s" % show(res, 5)))
        else:
            rep.ok("a random prime comes from the OS generator", w)
            rep.check(all(mentions_any(args_of(d), [bits]) for d in ds if args_of(d)), "a random prime has the requested size", w, "%s" % show(res, 5))
    o = B.keys("Paillier keys", "paillier_facade", [bits], dict(POW, **pr), PA + "PaillierKeypair.generate_keypair", [bits], ["n", "p", "q"])
    if o is not None and "result" in o.parts:
        pairs = [x for x in subterms(o.parts["result"]) if x.op == "poly" for fs in TT.monos(x)
                 if len(set(f for f in fs if f.op == "inp" and f.args[0] == "rand:prime")) > 1]
        one = [x for x in subterms(o.parts["result"]) if x.op == "poly" for fs in TT.monos(x) if any(f.op == "inp" and f.args[0] == "rand:prime" for f in fs)]
        what, where = "the two Paillier primes are drawn separately", PA + "PaillierKeypair.generate_keypair"
        if pairs:
            rep.ok(what, where)
        elif one:
            rep.violation(what, where, "both factors of n derive from one draw: %s" % show(one[0], 6))
        else:
            rep.undecided(what, where, "factors of n not found")
    B.keys("affine keys", "affine_keys", [bits, i("encode")], POW, "ml.secureprotol.affine.AffineCipher.generate_keypair", [bits], ["a", "b", "n"])
    B.keys("affine keys through AffineEncrypt", "affine_facade", [bits], POW, EN + "AffineEncrypt.generate_key", [bits], ["a", "b", "n"])
    # RSA
    o = B.run("RSA keys", "rsa_keys", [bits], None)
    if o is not None:
        what, where = "RSA keys come from the library generator and OS randomness", EN + "RsaEncrypt.generate_key"
        gens = [x for x in subterms(o.parts.get("result", NONE)) if x.op == "call" and str(x.args[0]).endswith("RSA.generate")]
        if not gens:
            rep.violation(what, where, "the keys %s are not generated" % show(o.parts.get("result", NONE), 5))
        for g in gens:
            a = list(g.args[1:])
            ds = draws(g)
            extra = [x for x in a[1:] if x is not NONE]
            if any(not secure(d) for d in ds):
                rep.violation(what, where, "randomness from %s" % source([d for d in ds if not secure(d)][0]))
            elif not mentions_any(a[:1], [bits]):
                rep.violation(what, where, "key size %s" % show(a[0], 4))
            elif [x for x in extra if not good_source(x)]:
                x = [x for x in extra if not good_source(x)][0]
                if any(y.op in ("num", "func", "fn") or (y.op == "ref" or kind(y) in ("obj:ext.random.Random", "obj:ext.numpy.random.RandomState")) for y in subterms(x)):
                    rep.violation(what, where, "randomness from %s" % show(x, 5))
                else:
                    rep.undecided(what, where, "random source %s" % show(x, 5))
            else:
                rep.ok(what, where)
    PK, EN_ = PA + "PaillierPublicKey.", PA + "PaillierEncryptedNumber."
    B.blinded("encryptions under one key", "blind_encrypt", [n, s, t], PK + "encrypt")
    B.blinded("encryptions to a precision", "blind_precise", [n, s, p], PK + "encrypt")
    B.blinded("encryptions through PaillierEncrypt", "blind_facade", [n, s], EN + "PaillierEncrypt.encrypt")
    B.blinded("encrypting a list", "encrypt_all", [n, s, t], EN + "Encrypt.encrypt_list")
    B.blinded("a secure ciphertext after an explicit random value", "blind_explicit", [n, s, r], EN_ + "ciphertext")
    B.blinded("secure ciphertexts of new encrypted numbers", "blind_new", [n, cx, ex], EN_ + "ciphertext")
    B.blinded("blinding on request", "blind_apply", [n, cx, ex], EN_ + "apply_obfuscator")
    B.blinded("secure ciphertexts of sums and differences", "blind_add", [n, cx, ex, cy, ey], EN_ + "__add__")
    B.blinded("secure ciphertexts of sums with numbers", "blind_scalar", [n, cx, ex, s], EN_ + "__add__")
    B.blinded("secure ciphertexts of multiples", "blind_scale", [n, cx, ex, s], EN_ + "__mul__")
    B.blinded("secure ciphertext after raising the exponent", "blind_raise", [n, cx, ex, i("d")], EN_ + "increase_exponent_to")
    rows(rep, B, n)


def good_source(x):
    s = subterms(x)
    return any(d.op == "inp" and secure(d) for d in s if d.op == "inp" and str(d.args[0]).startswith("rand:")) or \
        any(y.op == "ext" and y.args[0].startswith(("Cryptodome.Random", "os.urandom", "secrets.")) for y in s)


def rows(rep, B, n):
    what, where = "encrypting a table blinds every row afresh", EN + "Encrypt.distribute_encrypt"
    o = B.run(what, "encrypt_table", [n, sym("tab", "table[str,num]")], ENC)
    if o is None:
        return
    res = o.parts.get("result", NONE)
    if not any(leaf.op == "tab" for pc, leaf in TT.leaves(res)):
        rep.undecided(what, where, "result %s" % show(res, 4))
        return
    body = [x for x in subterms(res) if x.op == "new" and x.args[0] == PA + "PaillierEncryptedNumber"]
    sq = mul(n, n)
    if not body:
        rep.undecided(what, where, "no ciphertext in %s" % show(res, 6))
        return
    bound = [x for x in subterms(res) if x.op in ("var", "bv")]
    for b in body:
        c = [f.args[1] for f in b.args[1:] if f.args[0].endswith("__ciphertext")]
        if not c:
            rep.undecided(what, where, "no ciphertext field")
            return
        for pc, leaf in R.cases(c[0]):
            fs = [r for r in factors(leaf, n, sq, []) if draws(r)]
            bad = [d for r in fs for d in draws(r) if not secure(d)]
            if bad:
                rep.violation(what, where, "blinded with a value from %s" % source(bad[0]))
                return
            if not fs:
                rep.violation(what, where, "a row's ciphertext has no fresh blinding factor: %s" % show(leaf, 6))
                return
            if not any(d.args[1].op != "num" and any(v in subterms(d.args[1]) for v in bound) for r in fs for d in draws(r)):
                rep.violation(what, where, "every row is blinded with the same factor %s" % show(fs[0], 5))
                return
    rep.ok(what, where)
