"""C07: homomorphic and fixed-point arithmetic is plaintext arithmetic."""
from vgg.check import *
from vgg.rtypes import *
from vgg import ring as R
from vgg.ring import Ring, Unknown, Wrong, power, atom, const_
TECH = "dataflow extraction of every cryptographic operation to canonical terms; a homomorphism from ciphertext terms to plaintext polynomials (abstract interpretation in the group modulo n^2) decides each identity"
GM = "ml.secureprotol.gmpy_math."
PA = "ml.secureprotol.fate_paillier."
FX = "ml.secureprotol.fixedpoint.FixedPointNumber"


def encode(I, f, args, kw, st, fr, node):
    """contract of encode: an encoding e of the scalar with e = scalar * B^exponent modulo n"""
    _, b = I.bind(f, args, kw, st, None)
    g = lambda k: I.M.V(b[k], st) if k in b else NONE
    s = g("scalar")
    whole = kind(s) == "int" or (s.op == "pow" and kind(s.args[0]) == "int")
    x = ZERO if whole and g("precision") is NONE and g("max_exponent") is NONE else declare(call("fx.exponent", s, g("precision"), g("max_exponent")), "int")
    n, mi = g("n"), g("max_int")
    if n is NONE:
        n = declare(call("fx.Q"), "int")
    c = declare(call("fx.encoding", s, x, n), "int")
    r = I.newref(st, "obj:" + FX)
    for k, v in (("encoding", c), ("exponent", x), ("n", n), ("max_int", mi)):
        st.v[("f", r, k)] = v
    return r


def decode(I, f, args, kw, st, fr, node):
    o = args[0]
    g = lambda k: I.M.V(I.getattr(o, k, st, fr, node), st)
    return declare(call("fx.value", g("encoding"), g("exponent"), g("n")), "num")


POW = {GM + "powmod": opaque("powm", "int"), GM + "invert": opaque("invm", "int")}
ENC = dict(POW, **{FX + ".encode": encode, FX + ".decode": decode})


def spread(t):
    """the same value with decisions inside its components pulled out"""
    r = BOT
    for pc, leaf in R.cases(t):
        r = ite(pc, leaf, r)
    return r


def reduced(t, n):
    """is the term in [0, n)"""
    return t.op == "call" and t.args[0] == "mod" and t.args[2] is n


def subterms(t, seen=None):
    seen = {} if seen is None else seen
    if t not in seen:
        seen[t] = 1
        for x in t.args:
            if isinstance(x, T):
                subterms(x, seen)
    return seen


def i(s):
    return sym(s, "int")


class Bench(object):
    def __init__(self, rep, P):
        self.rep, self.P = rep, P
        o = execute(P, "s_crypt.base", [])
        self.base = o.parts["result"]

    def run(self, what, driver, args, stubs):
        try:
            o = execute(self.P, "s_crypt." + driver, args, stubs=stubs)
        except Undecided as e:
            self.rep.undecided(what, driver, e)
            return None
        except Missing as e:
            self.rep.missing.append(str(e))
            return None
        except RecursionError:
            self.rep.undecided(what, driver, "analysis depth")
            return None
        self.rep.stat(o)
        if o.opaque:
            self.rep.undecided(what, driver, o.opaque[:3])
            return None
        return o

    def law(self, what, driver, args, expected, n, stubs=ENC, where=None, cipher=(), mode="cipher", key=None, ring=None, known=(), given=TRUE, leafcheck=None):
        """every result of the driver encodes the expected plaintext"""
        where = where or driver
        o = self.run(what, driver, args, stubs)
        if o is None:
            return None
        res = o.parts.get("result")
        if res is None:
            self.rep.violation(what, where, "never returns")
            return o
        rg = ring or Ring(n, self.base)
        for s, m in cipher:
            rg.cipher[s] = m
        ok = set(known) | set(m for _, m in cipher) | set(x for x in args if isinstance(x, T))
        verdict = True
        todo = R.cases(res)
        while todo:
            pc, leaf = todo.pop()
            pc = and_(pc, given)
            if pc is FALSE or leaf is BOT or leaf.op == "bottom":
                continue
            try:
                eqs = R.equalities(pc)
                if leafcheck is not None and not leafcheck(leaf):
                    raise Unknown("result %s" % show(leaf, 6))
                if mode == "cipher":
                    if leaf.op != "tuple":
                        raise Unknown("result %s" % show(leaf, 6))
                    c, x, k = leaf.args
                    if key is not None and k is not key:
                        raise Wrong("the result belongs to key %s" % show(k, 6))
                    found, want = rg.D(c), expected * power(x)
                elif mode == "fixed":
                    if leaf.op != "tuple":
                        raise Unknown("result %s" % show(leaf, 6))
                    c, x, k = leaf.args
                    if k is not n:
                        raise Wrong("the result is encoded against %s" % show(k, 6))
                    found, want = rg.val(c), expected * power(x)
                elif mode == "raw":
                    found, want = rg.D(leaf), expected
                else:
                    found, want = rg.val(leaf), expected
                d = R.reduce_(found - want, eqs)
                if d.d:
                    odd = [a for a in d.atoms() if a not in ok and not (isinstance(a, T) and a.op == "call" and a.args[0] in ("fx.exponent",)) and not isinstance(a, str)]
                    for a in odd:
                        if isinstance(a, T) and a.op == "call" and a.args[0] in ("fx.value", "mod", "invm", "raw", "floordiv"):
                            raise Wrong("the result depends on %s, computed against another modulus or rounded" % show(a, 6))
                    if odd:
                        raise Unknown("atoms %s" % [show(a, 6) if isinstance(a, T) else a for a in odd[:3]])
                    raise Wrong("when %s the result encodes %s, expected %s" % (show(pc, 6), R.reduce_(found, eqs), R.reduce_(want, eqs)))
            except Wrong as e:
                self.rep.violation(what, where, str(e))
                return o
            except R.Split as e:
                todo += [(and_(pc, c), R.assume(leaf, e.atom, v, {})) for c, v in ((e.atom, True), (not_(e.atom), False))]
            except Unknown as e:
                verdict = None
                why = e
        if verdict:
            self.rep.ok(what, where)
        else:
            self.rep.undecided(what, where, why)
        return o

    def same(self, what, driver, spec, args, where, stubs=None, spec_args=None):
        """the driver and its definition have the same outcomes"""
        o = self.run(what, driver, args, stubs)
        if o is None:
            return
        r = self.run(what, spec, spec_args if spec_args is not None else args, stubs)
        if r is None:
            return
        for n in sorted(set(o.parts) | set(r.parts)):
            a, b = o.parts.get(n), r.parts.get(n)
            if a is not b and n == "result" and a is not None and b is not None:
                a, b = spread(a), spread(b)
            if a is not b:
                if n == "returns normally" or n.startswith("raises "):
                    a, b = FALSE if a is None else a, FALSE if b is None else b
                    if a is b:
                        continue
                self.rep.violation(what, where, "%s: found %s, expected %s" % (n, show(a, 9) if a is not None else None, show(b, 9) if b is not None else None))
                return
        self.rep.ok(what, where)

    def powers(self, what, driver, args, want, where):
        """every value returned is a^b mod c"""
        o = self.run(what, driver, args, None)
        if o is None:
            return
        for pc, leaf in R.cases(o.parts.get("result", NONE)):
            f = leaf
            while f.op == "call" and f.args[0] in ("int", "gmpy2.mpz") and len(f.args) == 2:
                f = f.args[1]
            if f is ONE and (and_(pc, not_(eq(args[0], ONE))) is FALSE or and_(pc, not_(eq(args[1], ZERO))) is FALSE):
                continue
            if f.op == "call" and f.args[0] in ("gmpy2.powmod", "powmod", "powm", "pow") and f.args[1:4] == tuple(args):
                continue
            if f.op == "pow" and f.args[-3:] == tuple(args):
                continue
            if f.op == "call" and f.args[0] == "mod":
                g = f.args[1]
                if f.args[2] is args[2] and (g.op == "pow" and g.args[-2:] == tuple(args[:2]) or g is ONE):
                    continue
            known = set(x.args[0] for x in subterms(f) if x.op == "call")
            if known - set(("gmpy2.powmod", "powmod", "powm", "pow", "mod", "int", "gmpy2.mpz", "gmpy2.invert")):
                self.rep.undecided(what, where, "result %s" % show(f, 6))
            else:
                self.rep.violation(what, where, "when %s returns %s, expected %s" % (show(pc, 6), show(f, 6), show(want, 6)))
            return
        self.rep.ok(what, where)

    def inverse(self, what, driver, args, where):
        o = self.run(what, driver, args, None)
        if o is None:
            return
        for pc, leaf in R.cases(o.parts.get("result", NONE)):
            if leaf is BOT:
                continue
            f = leaf
            while f.op == "call" and f.args[0] in ("int", "gmpy2.mpz") and len(f.args) == 2:
                f = f.args[1]
            if f.op == "call" and f.args[0] == "gmpy2.invert" and f.args[1:] == tuple(args):
                self.rep.check(and_(pc, eq(leaf, ZERO)) is FALSE, what + " refuses when there is none", where, "0 returned as an inverse")
                continue
            if f.op == "call" and f.args[0] == "powmod" and f.args[1:] == (args[0], num(-1), args[1]):
                continue
            if f.op == "call" and f.args[0] in ("gmpy2.invert", "gmpy2.powmod", "powmod") or f in args or is_num(f):
                self.rep.violation(what, where, "returns %s" % show(f, 6))
            else:
                self.rep.undecided(what, where, "result %s" % show(f, 6))
            return
        self.rep.ok(what, where)

    def refuses(self, what, o, bad, exc, where):
        """on the region bad the driver raises one of exc and never returns"""
        if o is None:
            return
        r = o.parts.get("returns normally", TRUE)
        self.rep.check(and_(r, bad) is FALSE, what, where, "returns a result when %s" % show(and_(r, bad), 8))
        for n, c in o.parts.items():
            if n.startswith("raises ") and n[7:] not in exc:
                self.rep.check(and_(c, bad) is FALSE, what + " with %s" % "/".join(exc), where, "%s instead" % n)


def run(rep):
    rep.rule("D(result) * B^-exponent equals the plaintext expression in every case of every operation, D being the decryption homomorphism")
    P = program()
    install()
    B = Bench(rep, P)
    n, k, cx, cy, ex, ey = map(i, "n k cx cy ex ey".split())
    s = sym("s", "num")
    X, Y = atom("x"), atom("y")
    neg_ = lambda v: -v
    vx, vy, vs = X * power(neg(ex)), Y * power(neg(ey)), atom(s)
    cc = [(cx, "x"), (cy, "y")]
    E = PA + "PaillierEncryptedNumber."
    both = [n, n, cx, ex, cy, ey]
    B.law("ciphertext + ciphertext", "add", both, vx + vy, n, cipher=cc, key=n, where=E + "__add__")
    B.law("ciphertext - ciphertext", "sub", both, vx - vy, n, cipher=cc, key=n, where=E + "__sub__")
    one = [n, cx, ex, s]
    for d, e, w in (("add_scalar", vx + vs, "__add__"), ("scalar_add", vx + vs, "__radd__"), ("sub_scalar", vx - vs, "__sub__"), ("scalar_sub", vs - vx, "__rsub__"),
                    ("mul", vx * vs, "__mul__"), ("rmul", vx * vs, "__rmul__"), ("div", vx * vs.inverse(), "__truediv__")):
        B.law("ciphertext and number: " + d, d, one, e, n, cipher=cc, key=n, where=E + w)
    e2 = i("e2")
    o = B.law("raising the exponent", "raise_exponent", [n, cx, ex, e2], vx, n, cipher=cc, key=n, where=E + "increase_exponent_to")
    B.refuses("lowering the exponent is refused", o, lt(e2, ex), ["ValueError"], E + "increase_exponent_to")
    o = B.run("keys", "add", [n, k, cx, ex, cy, ey], ENC)
    B.refuses("adding under different keys is refused", o, not_(eq(n, k)), ["ValueError"], E + "__add__")
    o = B.run("keys", "sub", [n, k, cx, ex, cy, ey], ENC)
    B.refuses("subtracting under different keys is refused", o, not_(eq(n, k)), ["ValueError"], E + "__sub__")
    # fixed point numbers
    m, l = i("m"), i("l")
    fx = lambda d, e, w, args, given=TRUE, known=(), what=None: B.law(what or "fixed point: " + d, d, args, e, n, mode="fixed", where=FX + "." + w, given=given, known=[cx, cy] + list(known))
    vx, vy = atom(cx) * power(neg(ex)), atom(cy) * power(neg(ey))
    two = [n, m, n, m, cx, ex, cy, ey]
    for d, e, w in (("fx_add", vx + vy, "__add__"), ("fx_sub", vx - vy, "__sub__"), ("fx_mul", vx * vy, "__mul__"), ("fx_div", vx * vy.inverse(), "__truediv__")):
        fx(d, e, w, two)
    for d, e, w in (("fx_add_scalar", vx + vs, "__add__"), ("fx_scalar_add", vx + vs, "__radd__"), ("fx_sub_scalar", vx - vs, "__sub__"), ("fx_scalar_sub", vs - vx, "__rsub__"),
                    ("fx_mul_scalar", vx * vs, "__mul__"), ("fx_scalar_mul", vx * vs, "__rmul__"), ("fx_div_scalar", vx * vs.inverse(), "__truediv__"),
                    ("fx_scalar_div", vs * vx.inverse(), "__rtruediv__")):
        fx(d, e, w, [n, m, cx, ex, s])
    o = fx("fx_raise", vx, "increase_exponent_to", [n, m, cx, ex, e2])
    B.refuses("lowering the exponent of a fixed-point number is refused", o, lt(e2, ex), ["ValueError"], FX + ".increase_exponent_to")
    # the other operand is encoded against another modulus: its value counts, or it is refused
    other = declare(call("fx.value", cy, ey, k), "num")
    vo = atom(other)
    for d, e, w in (("fx_add", vx + vo, "__add__"), ("fx_sub", vx - vo, "__sub__"), ("fx_mul", vx * vo, "__mul__")):
        fx(d, e, w, [n, m, k, l, cx, ex, cy, ey], given=not_(eq(n, k)), known=[other], what="fixed point of different moduli: " + d)
    B.same("a fixed-point number without a modulus uses the default one", "fx_plain", "fx_plain_spec", [cx, ex], FX + ".__init__")
    a = declare(call("fx.value", cx, ex, n), "num")
    b = declare(call("fx.value", cy, ey, k), "num")
    B.same("comparing fixed-point numbers compares their values", "fx_lt", "order_spec", [n, m, k, l, cx, ex, cy, ey], FX + " comparisons", ENC, [a, b])
    B.same("comparing a fixed-point number with a number", "fx_lt_scalar", "order_spec", [n, m, cx, ex, s], FX + " comparisons", ENC, [a, s])
    si, pr = i("s"), i("precision")
    for what, d, args in (("an integer", "int", [si, n, m]), ("a float", "float", [s, n, m]), ("a number to a precision", "precise", [s, n, m, pr]),
                          ("an integer with a least exponent", "max", [si, n, m, i("least")]), ("an integer without a modulus", "plain", [si])):
        B.same("encoding %s gives round(scalar * B^exponent) modulo n or a range error" % what, "encode_" + d, "encode_%s_spec" % d, args, FX + ".encode")
    B.same("decoding: positive, negative, corrupted and overflowed encodings", "fx_decode", "decode_spec", [n, m, cx, ex], FX + ".decode")
    # encryption
    B.law("encrypting", "encrypt", [n, s], vs, n, cipher=cc, key=n, where=PA + "PaillierPublicKey.encrypt")
    B.law("encrypting with a given blinding value", "encrypt_with", [n, s, i("r")], vs, n, cipher=cc, key=n, where=PA + "PaillierPublicKey.encrypt")
    B.law("raw encryption", "raw_encrypt", [n, cx], atom(cx), n, mode="raw", where=PA + "PaillierPublicKey.raw_encrypt")
    B.law("a blinded ciphertext", "secure", [n, cx, ex], atom("x"), n, cipher=cc, mode="raw", where=E + "ciphertext")
    B.law("encrypting through PaillierEncrypt", "facade_encrypt", [n, s], vs, n, cipher=cc, key=n, where="ml.secureprotol.encrypt.PaillierEncrypt.encrypt")
    # decryption
    p, q, c = i("p"), i("q"), i("c")
    pq = mul(p, q)
    for z in (p, q):
        rg = Ring(pq, B.base, moduli=[z, pq], zero=[z, pq], logs={z: "kappa"})
        B.law("decryption modulo a prime factor", "raw_decrypt", [p, q, c], atom("x"), pq, POW, PA + "PaillierPrivateKey.raw_decrypt", [(c, "x")], "num", ring=rg, leafcheck=lambda t: reduced(t, pq))
    DEC = dict(ENC, **{PA + "PaillierPrivateKey.raw_decrypt": lambda I, f, a, kw, st, fr, node: declare(call("raw", I.M.V(a[1], st)), "int")})
    w = PA + "PaillierPrivateKey.decrypt"
    o = B.law("decrypting and decoding", "decrypt", [n, n, p, q, c, ex], atom("x") * power(neg(ex)), n, DEC, w, [(c, "x")], "num")
    o = B.run("keys", "decrypt", [n, k, p, q, c, ex], DEC)
    B.refuses("decrypting under a different key is refused", o, not_(eq(n, k)), ["ValueError", "ZeroDivisionError"], w)
    o = B.run("types", "decrypt_other", [n, p, q, c], DEC)
    B.refuses("decrypting something else is refused", o, TRUE, ["TypeError", "ValueError", "ZeroDivisionError"], w)
    B.law("decrypting through PaillierEncrypt", "facade", [n, s, p, q, c, ex], atom("x") * power(neg(ex)), n, DEC, "ml.secureprotol.encrypt.PaillierEncrypt.decrypt", [(c, "x")], "num")
    o = B.run("keys", "make_private", [n, p, q], POW)
    B.refuses("a private key that does not factor the public one is refused", o, not_(eq(pq, n)), ["ValueError"], PA + "PaillierPrivateKey.__init__")
    B.refuses("a private key with equal primes is refused", o, eq(p, q), ["ValueError"], PA + "PaillierPrivateKey.__init__")
    o = B.run("types", "bad_ciphertext", [n, sym("t", "str")], POW)
    B.refuses("a ciphertext that is not an integer is refused", o, TRUE, ["TypeError"], E + "__init__")
    o = B.run("types", "bad_key", [n, c], POW)
    B.refuses("a ciphertext without a public key is refused", o, TRUE, ["TypeError"], E + "__init__")
    # modular arithmetic, RSA and the affine cipher
    a_, b_, v, d, e = i("a"), i("b"), i("v"), i("d"), i("e")
    B.powers("modular power", "powm", [a_, b_, n], call("powm", a_, b_, n), GM + "powmod")
    B.inverse("modular inverse", "invm", [a_, n], GM + "invert")
    B.same("RSA raises to the public and the private exponent", "rsa", "rsa_spec", [e, d, n, v], "ml.secureprotol.encrypt.RsaEncrypt", POW)
    B.same("RSA keys come from one generated key", "rsa_keys", "rsa_keys_spec", [i("bits")], "ml.secureprotol.encrypt.RsaEncrypt.generate_key")
    u, y, z, mult = atom(s), sym("y", "num"), sym("z", "num"), i("mult")
    AF = "ml.secureprotol.affine.Affine"
    key = [a_, b_, n, mult]
    af = lambda d, args, e, w: B.law("affine cipher: " + d, d, key + args, e, n, POW, AF + w, mode="num", ring=Ring(n, B.base))
    af("affine_once", [s], u, "CipherKey.decrypt")
    af("affine_sum", [s, y], u + atom(y), "Ciphertext.__add__")
    af("affine_total", [s, y, z], u + atom(y) + atom(z), "Ciphertext.__radd__")
    af("affine_difference", [s, y], u - atom(y), "Ciphertext.__sub__")
    af("affine_scaled", [s, y, i("k")], (u + atom(y)) * atom(i("k")), "Ciphertext.__mul__")
    o = B.run("types", "affine_add_other", [c, sym("f", "float")], POW)
    B.refuses("adding a number to an affine ciphertext is refused", o, TRUE, ["TypeError"], AF + "Ciphertext.__add__")
    o = B.run("types", "affine_mul_other", [c, sym("t", "str")], POW)
    B.refuses("scaling an affine ciphertext by a non-integer is refused", o, TRUE, ["TypeError"], AF + "Ciphertext.__mul__")
    af("affine_negated", [s], -u, "Ciphertext.__rsub__")
    # collections and key handling
    F = "ml.secureprotol.encrypt."
    me = sym("self", "obj:" + F + "Encrypt")
    est = {F + "Encrypt.encrypt": opaque("encrypted", "any", False), F + "Encrypt.decrypt": opaque("decrypted", "num", False)}
    for m, sp, t in (("encrypt_list", "each_encrypted", "list[num]"), ("decrypt_list", "each_decrypted", "list[any]"),
                     ("distribute_encrypt", "table_encrypted", "table[num]"), ("distribute_decrypt", "table_decrypted", "table[any]")):
        rep.equal("%s works element by element" % m, P, F + "Encrypt." + m, "s_crypt." + sp, [me, sym("values", t)], stubs=est)
    pk, sk = sym("pk", "obj:" + PA + "PaillierPublicKey"), sym("sk", "obj:" + PA + "PaillierPrivateKey")
    B.same("keys set are the keys returned", "hand_over", "hand_over_spec", [pk, sk], F + "PaillierEncrypt")
    B.same("RSA keys set are the keys returned", "hand_over_rsa", "hand_over_rsa_spec", [e, d, n], F + "RsaEncrypt")
    B.same("no key, no ciphertext", "no_key", "no_key_spec", [s], F + "PaillierEncrypt", POW)
    B.same("public keys are the same when their moduli are", "public_same", "public_same_spec", [n, k], PA + "PaillierPublicKey.__eq__")
    B.same("no affine key, no ciphertext", "no_affine_key", "no_affine_key_spec", [s], F + "AffineEncrypt")
    B.same("the affine cipher through AffineEncrypt", "affine_use", "affine_use_spec", key + [s, y], F + "AffineEncrypt", POW)
    for m, sp in (("recursive_encrypt", "array_encrypted"), ("recursive_decrypt", "array_decrypted")):
        hand = opaque(m, "ndarray[any]", False)
        rst = {F + "Encrypt." + m: lambda I, f, a, kw, st, fr, node, hand=hand: None if fr is None else hand(I, f, a, kw, st, fr, node),
               F + "Encrypt.encrypt_list": opaque("row", "list[any]", False), F + "Encrypt.decrypt_list": opaque("row", "list[num]", False)}
        for t in ("ndarray[ndarray[num]]", "list[ndarray[num]]", "table[num]"):
            rep.equal("%s of a %s" % (m, t.split("[")[0]), P, F + "Encrypt." + m, "s_crypt." + sp, [me, sym("values", t)], stubs=rst)
