"""Drivers for C06 and C07: what a user of the cryptography does, and reference encodings."""
import math
import numpy as np
from Cryptodome import Random
from Cryptodome.PublicKey import RSA
from ml.secureprotol.fixedpoint import FixedPointNumber
from ml.secureprotol.fate_paillier import PaillierPublicKey, PaillierPrivateKey, PaillierEncryptedNumber, PaillierKeypair
from ml.secureprotol.encrypt import PaillierEncrypt, RsaEncrypt, AffineEncrypt
from ml.secureprotol import gmpy_math
from ml.secureprotol.affine import AffineCipher, AffineCipherKey, AffineCiphertext


def out(r):
    return r.ciphertext(False), r.exponent, r.public_key.n


def add(n, k, cx, ex, cy, ey):
    return out(PaillierEncryptedNumber(PaillierPublicKey(n), cx, ex) + PaillierEncryptedNumber(PaillierPublicKey(k), cy, ey))


def sub(n, k, cx, ex, cy, ey):
    return out(PaillierEncryptedNumber(PaillierPublicKey(n), cx, ex) - PaillierEncryptedNumber(PaillierPublicKey(k), cy, ey))


def add_scalar(n, cx, ex, s):
    return out(PaillierEncryptedNumber(PaillierPublicKey(n), cx, ex) + s)


def scalar_add(n, cx, ex, s):
    return out(s + PaillierEncryptedNumber(PaillierPublicKey(n), cx, ex))


def sub_scalar(n, cx, ex, s):
    return out(PaillierEncryptedNumber(PaillierPublicKey(n), cx, ex) - s)


def scalar_sub(n, cx, ex, s):
    return out(s - PaillierEncryptedNumber(PaillierPublicKey(n), cx, ex))


def mul(n, cx, ex, s):
    return out(PaillierEncryptedNumber(PaillierPublicKey(n), cx, ex) * s)


def rmul(n, cx, ex, s):
    return out(s * PaillierEncryptedNumber(PaillierPublicKey(n), cx, ex))


def div(n, cx, ex, s):
    return out(PaillierEncryptedNumber(PaillierPublicKey(n), cx, ex) / s)


def raise_exponent(n, cx, ex, e2):
    return out(PaillierEncryptedNumber(PaillierPublicKey(n), cx, ex).increase_exponent_to(e2))


def encrypt(n, s):
    return out(PaillierPublicKey(n).encrypt(s))


def encrypt_with(n, s, r):
    return out(PaillierPublicKey(n).encrypt(s, random_value=r))


def raw_encrypt(n, m):
    return PaillierPublicKey(n).raw_encrypt(m)


def secure(n, cx, ex):
    return PaillierEncryptedNumber(PaillierPublicKey(n), cx, ex).ciphertext()


def base():
    return FixedPointNumber.BASE


def fout(r):
    return r.encoding, r.exponent, r.n


def fx_add(n, m, k, l, cx, ex, cy, ey):
    return fout(FixedPointNumber(cx, ex, n, m) + FixedPointNumber(cy, ey, k, l))


def fx_sub(n, m, k, l, cx, ex, cy, ey):
    return fout(FixedPointNumber(cx, ex, n, m) - FixedPointNumber(cy, ey, k, l))


def fx_mul(n, m, k, l, cx, ex, cy, ey):
    return fout(FixedPointNumber(cx, ex, n, m) * FixedPointNumber(cy, ey, k, l))


def fx_add_scalar(n, m, cx, ex, s):
    return fout(FixedPointNumber(cx, ex, n, m) + s)


def fx_scalar_add(n, m, cx, ex, s):
    return fout(s + FixedPointNumber(cx, ex, n, m))


def fx_sub_scalar(n, m, cx, ex, s):
    return fout(FixedPointNumber(cx, ex, n, m) - s)


def fx_scalar_sub(n, m, cx, ex, s):
    return fout(s - FixedPointNumber(cx, ex, n, m))


def fx_mul_scalar(n, m, cx, ex, s):
    return fout(FixedPointNumber(cx, ex, n, m) * s)


def fx_scalar_mul(n, m, cx, ex, s):
    return fout(s * FixedPointNumber(cx, ex, n, m))


def fx_div_scalar(n, m, cx, ex, s):
    return fout(FixedPointNumber(cx, ex, n, m) / s)


def fx_scalar_div(n, m, cx, ex, s):
    return fout(s / FixedPointNumber(cx, ex, n, m))


def fx_div(n, m, k, l, cx, ex, cy, ey):
    return fout(FixedPointNumber(cx, ex, n, m) / FixedPointNumber(cy, ey, k, l))


def fx_mod(n, m, cx, ex, s):
    return fout(FixedPointNumber(cx, ex, n, m) % s)


def fx_raise(n, m, cx, ex, e2):
    return fout(FixedPointNumber(cx, ex, n, m).increase_exponent_to(e2))


def fx_plain(cx, ex):
    r = FixedPointNumber(cx, ex)
    return r.n, r.max_int


def fx_lt(n, m, k, l, cx, ex, cy, ey):
    x, y = FixedPointNumber(cx, ex, n, m), FixedPointNumber(cy, ey, k, l)
    return bool(x < y), bool(x <= y), bool(x > y), bool(x >= y), bool(x == y), bool(x != y)


def fx_lt_scalar(n, m, cx, ex, s):
    x = FixedPointNumber(cx, ex, n, m)
    return bool(x < s), bool(x <= s), bool(x > s), bool(x >= s), bool(x == s), bool(x != s)


def order_spec(x, y):
    return bool(x < y), bool(x <= y), bool(x > y), bool(x >= y), bool(x == y), bool(x != y)


def fx_abs(n, m, cx, ex):
    return fout(abs(FixedPointNumber(cx, ex, n, m)))


def fx_encode(s, n, m, precision, max_exponent):
    r = FixedPointNumber.encode(s, n, m, precision, max_exponent)
    return r.encoding, r.exponent, r.n, r.max_int


def fx_decode(n, m, cx, ex):
    return FixedPointNumber(cx, ex, n, m).decode()


def make_private(n, p, q):
    PaillierPrivateKey(PaillierPublicKey(n), p, q)


def raw_decrypt(p, q, c):
    return PaillierPrivateKey(PaillierPublicKey(p * q), p, q).raw_decrypt(c)


def decrypt(n, k, p, q, c, e):
    return PaillierPrivateKey(PaillierPublicKey(n), p, q).decrypt(PaillierEncryptedNumber(PaillierPublicKey(k), c, e))


def decrypt_other(n, p, q, c):
    return PaillierPrivateKey(PaillierPublicKey(n), p, q).decrypt(c)


def add_fixed(n, k, l, cx, ex, cy, ey):
    return out(PaillierEncryptedNumber(PaillierPublicKey(n), cx, ex) + FixedPointNumber(cy, ey, k, l))


def bad_ciphertext(n, c):
    return PaillierEncryptedNumber(PaillierPublicKey(n), c, 0)


def bad_key(n, c):
    return PaillierEncryptedNumber(n, c, 0)


def facade(n, s, p, q, c, e):
    f = PaillierEncrypt()
    f.set_public_key(PaillierPublicKey(n))
    f.set_privacy_key(PaillierPrivateKey(f.get_public_key(), p, q))
    return f.decrypt(PaillierEncryptedNumber(f.get_public_key(), c, e))


def facade_encrypt(n, s):
    f = PaillierEncrypt()
    f.set_public_key(PaillierPublicKey(n))
    return out(f.encrypt(s))


def rsa(e, d, n, v):
    r = RsaEncrypt()
    r.set_public_key({"e": e, "n": n})
    r.set_privacy_key({"d": d, "n": n})
    return r.encrypt(v), r.decrypt(v)


def rsa_keys(bits):
    r = RsaEncrypt()
    r.generate_key(bits)
    return r.get_key_pair(), r.get_public_key(), r.get_privacy_key()


def affine_sum(a, b, n, mult, x, y):
    k = AffineCipherKey(a, b, n, mult)
    return k.decrypt(k.encrypt(x) + k.encrypt(y))


def affine_scaled(a, b, n, mult, x, y, s):
    k = AffineCipherKey(a, b, n, mult)
    return k.decrypt(s * k.encrypt(x) + k.encrypt(y) * s)


def affine_difference(a, b, n, mult, x, y):
    k = AffineCipherKey(a, b, n, mult)
    return k.decrypt(k.encrypt(x) - k.encrypt(y))


def affine_total(a, b, n, mult, x, y, z):
    k = AffineCipherKey(a, b, n, mult)
    return k.decrypt(sum([k.encrypt(x), k.encrypt(y), k.encrypt(z)]))


def affine_once(a, b, n, mult, x):
    k = AffineCipherKey(a, b, n, mult)
    return k.decrypt(k.encrypt(x))


def affine_add_other(c, s):
    return AffineCiphertext(c) + s


def affine_mul_other(c, s):
    return AffineCiphertext(c) * s


def keypair(bits):
    pk, sk = PaillierKeypair.generate_keypair(bits)
    return pk.n, sk.p, sk.q, sk.public_key.n


def powm(a, b, c):
    return gmpy_math.powmod(a, b, c)


def invm(a, b):
    return gmpy_math.invert(a, b)


def encode_int(s, n, m):
    r = FixedPointNumber.encode(s, n, m)
    return r.encoding, r.exponent, r.n, r.max_int


def encode_float(s, n, m):
    if isinstance(s, float) and not isinstance(s, (int, np.int16, np.int32, np.int64)):
        r = FixedPointNumber.encode(s, n, m)
        return r.encoding, r.exponent, r.n, r.max_int


def check_int(v, x, n, m):
    k = int(round(v * 16 ** x))
    if abs(k) > m:
        raise ValueError("range")
    return k % n, x, n, m


def encode_int_spec(s, n, m):
    return check_int(s, 0, n, m)


def encode_float_spec(s, n, m):
    if isinstance(s, float) and not isinstance(s, (int, np.int16, np.int32, np.int64)):
        if abs(s) < 1e-200:
            return check_int(0, 0, n, m)
        return check_int(s, math.floor((53 - math.frexp(s)[1]) / 4), n, m)


def encode_precise(s, n, m, precision):
    r = FixedPointNumber.encode(s, n, m, precision)
    return r.encoding, r.exponent, r.n, r.max_int


def encode_precise_spec(s, n, m, precision):
    return check_int(0 if abs(s) < 1e-200 else s, math.floor(math.log(precision, 16)), n, m)


def encode_max(s, n, m, max_exponent):
    r = FixedPointNumber.encode(s, n, m, max_exponent=max_exponent)
    return r.encoding, r.exponent, r.n, r.max_int


def encode_max_spec(s, n, m, max_exponent):
    return check_int(s, max(0, max_exponent), n, m)


def encode_plain(s):
    r = FixedPointNumber.encode(s)
    return r.encoding, r.exponent, r.n, r.max_int


def encode_plain_spec(s):
    return check_int(s, 0, FixedPointNumber.Q, FixedPointNumber.Q // 3 - 1)


def decode_spec(n, m, cx, ex):
    if cx >= n:
        raise ValueError("corrupted")
    if cx <= m:
        return cx * 16 ** -ex
    if cx >= n - m:
        return (cx - n) * 16 ** -ex
    raise OverflowError("overflow")


def powm_spec(a, b, c):
    return pow(a, b, c)


def fx_plain_spec(cx, ex):
    return FixedPointNumber.Q, FixedPointNumber.Q // 3 - 1


def rsa_spec(e, d, n, v):
    return gmpy_math.powmod(v, e, n), gmpy_math.powmod(v, d, n)


def rsa_keys_spec(bits):
    k = RSA.generate(bits, Random.new().read)
    return (k.e, k.d, k.n), (k.e, k.n), (k.d, k.n)


# ---- C06
def prime(bits):
    return gmpy_math.getprimeover(bits)


def affine_keys(size, precision):
    k = AffineCipher.generate_keypair(size, precision)
    return k.a, k.b, k.n


def affine_facade(size):
    f = AffineEncrypt()
    f.generate_key(size)
    return f.key.a, f.key.b, f.key.n


def paillier_facade(bits):
    f = PaillierEncrypt()
    f.generate_key(bits)
    return f.public_key.n, f.privacy_key.p, f.privacy_key.q


def blind_encrypt(n, s, t):
    k = PaillierPublicKey(n)
    return k.encrypt(s).ciphertext(False), k.encrypt(s).ciphertext(False), k.encrypt(t).ciphertext(False)


def blind_facade(n, s):
    f = PaillierEncrypt()
    f.set_public_key(PaillierPublicKey(n))
    return f.encrypt(s).ciphertext(False), f.encrypt(s).ciphertext()


def blind_precise(n, s, p):
    k = PaillierPublicKey(n)
    return k.encrypt(s, p).ciphertext(False), k.encrypt(s, precision=p).ciphertext(False)


def blind_explicit(n, s, r):
    k = PaillierPublicKey(n)
    x = k.encrypt(s, random_value=r)
    return x.ciphertext(), k.encrypt(s).ciphertext(False)


def blind_new(n, cx, ex):
    k = PaillierPublicKey(n)
    return PaillierEncryptedNumber(k, cx, ex).ciphertext(), PaillierEncryptedNumber(k, cx, ex).ciphertext(be_secure=True)


def blind_apply(n, cx, ex):
    k = PaillierPublicKey(n)
    a, b = PaillierEncryptedNumber(k, cx, ex), PaillierEncryptedNumber(k, cx, ex)
    a.apply_obfuscator()
    b.apply_obfuscator()
    return a.ciphertext(), b.ciphertext(False)


def blind_add(n, cx, ex, cy, ey):
    k = PaillierPublicKey(n)
    a, b = PaillierEncryptedNumber(k, cx, ex), PaillierEncryptedNumber(k, cy, ey)
    ca, cb = a.ciphertext(), b.ciphertext()
    return ca, cb, (a + b).ciphertext(), (a - b).ciphertext()


def blind_scalar(n, cx, ex, s):
    k = PaillierPublicKey(n)
    a = PaillierEncryptedNumber(k, cx, ex)
    ca = a.ciphertext()
    return ca, (a + s).ciphertext(), (s - a).ciphertext()


def blind_scale(n, cx, ex, s):
    k = PaillierPublicKey(n)
    a = PaillierEncryptedNumber(k, cx, ex)
    ca = a.ciphertext()
    return ca, (a * s).ciphertext(), (a / s).ciphertext()


def blind_raise(n, cx, ex, d):
    k = PaillierPublicKey(n)
    a = PaillierEncryptedNumber(k, cx, ex)
    ca = a.ciphertext()
    return ca, a.increase_exponent_to(ex + 3).ciphertext()


def encrypt_all(n, s, t):
    f = PaillierEncrypt()
    f.set_public_key(PaillierPublicKey(n))
    a, b, c = f.encrypt_list([s, t, s])
    return a.ciphertext(False), b.ciphertext(False), c.ciphertext(False)


def encrypt_table(n, tab):
    f = PaillierEncrypt()
    f.set_public_key(PaillierPublicKey(n))
    return f.distribute_encrypt(tab)


def affine_negated(a, b, n, mult, x):
    k = AffineCipherKey(a, b, n, mult)
    return k.decrypt(0 - k.encrypt(x))


# ---- collections: element by element
def each_encrypted(self, values):
    return [self.encrypt(v) for v in values]


def each_decrypted(self, values):
    return [self.decrypt(v) for v in values]


def table_encrypted(self, X):
    return X.mapValues(lambda v: self.encrypt(v))


def table_decrypted(self, X):
    return X.mapValues(lambda v: self.decrypt(v))


# ---- keys handed from one object to another
def hand_over(pk, sk):
    from ml.secureprotol.encrypt import PaillierEncrypt
    f = PaillierEncrypt()
    f.set_public_key(pk)
    f.set_privacy_key(sk)
    return f.get_public_key(), f.get_privacy_key(), f.get_key_pair()


def hand_over_spec(pk, sk):
    return pk, sk, (pk, sk)


def hand_over_rsa(e, d, n):
    from ml.secureprotol.encrypt import RsaEncrypt
    f = RsaEncrypt()
    f.set_public_key({"e": e, "n": n})
    f.set_privacy_key({"d": d, "n": n})
    return f.get_public_key(), f.get_privacy_key(), f.get_key_pair()


def hand_over_rsa_spec(e, d, n):
    return (e, n), (d, n), (e, d, n)


def no_key(v):
    from ml.secureprotol.encrypt import PaillierEncrypt, RsaEncrypt
    f, r = PaillierEncrypt(), RsaEncrypt()
    return f.encrypt(v), f.decrypt(v), r.encrypt(v), r.decrypt(v)


def no_key_spec(v):
    return None, None, None, None


def public_same(n, k):
    return bool(PaillierPublicKey(n) == PaillierPublicKey(k)), hash(PaillierPublicKey(n)) == hash(PaillierPublicKey(n))


def public_same_spec(n, k):
    return n == k, True


def no_affine_key(v):
    from ml.secureprotol.encrypt import AffineEncrypt
    a = AffineEncrypt()
    return a.encrypt(v), a.decrypt(v)


def no_affine_key_spec(v):
    return None, None


def affine_use(a, b, n, m, v, w):
    from ml.secureprotol.encrypt import AffineEncrypt
    f = AffineEncrypt()
    f.key = AffineCipherKey(a, b, n, m)
    return f.encrypt(v), f.decrypt(f.encrypt(w))


def affine_use_spec(a, b, n, m, v, w):
    k = AffineCipherKey(a, b, n, m)
    return k.encrypt(v), k.decrypt(k.encrypt(w))


def array_encrypted(self, A):
    if not isinstance(A, np.ndarray) and not isinstance(A, list):
        A = np.array(list(dict(A.collect()).values()))
    if isinstance(A, list):
        A = np.array(A)
    if len(A.shape) == 1:
        A = np.expand_dims(A, axis=0)
    return np.array([self.recursive_encrypt(r) if len(r.shape) >= 2 else self.encrypt_list(r) for r in A])


def array_decrypted(self, A):
    if not isinstance(A, np.ndarray) and not isinstance(A, list):
        A = np.array(list(dict(A.collect()).values()))
    if isinstance(A, list):
        A = np.array(A)
    if len(A.shape) == 1:
        A = np.expand_dims(A, axis=0)
    return np.array([self.recursive_decrypt(r) if len(r.shape) >= 2 else self.decrypt_list(r) for r in A], dtype=np.float64)
