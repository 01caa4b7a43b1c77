"""Symbolic models of base64, HMAC and a block cipher.

base64 is modelled exactly.  HMAC is a collision-free function (as the hashes in builtins_), the block cipher a
permutation: a block that was enciphered (deciphered) before on this path gives the same result again, any other one
a fresh block of random looking bytes.  Concrete arguments use the real algorithms.
"""
import base64
import hashlib
import hmac as _hmac
import z3
from .core import Engine
from .values import SymBytes, SymStr, codes_of, dec, mkq, chz, zc, remember, recall
from .builtins_ import PATCH, SymHash, _cin

ALPH = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
_SA = tuple(sorted(ALPH))


def _val(c):
    """6 bit value of a character of the alphabet"""
    if type(c) is int:
        return ALPH.index(c)
    return z3.If(c >= 97, c - 71, z3.If(c >= 65, c - 65, z3.If(c >= 48, c + 4, z3.If(c == 43, 62, 63))))


def _chr(v):
    if type(v) is int:
        return ALPH[v]
    return chz(z3.If(v < 26, v + 65, z3.If(v < 52, v + 71, z3.If(v < 62, v - 4, z3.If(v == 62, 43, 47)))))


def _simp(e):
    e = z3.simplify(e) if not isinstance(e, int) else e
    return e.as_long() if not isinstance(e, int) and z3.is_int_value(e) else e


def b64decode(s, altchars=None, validate=False):
    if not isinstance(s, SymStr):
        return base64.b64decode(s, altchars, validate)
    sk = bytearray()
    vals = []
    chars = []
    for c in s.c:
        if type(c) is int:
            if c > 255:
                raise ValueError('string argument should contain only ASCII characters')
            sk.append(c)
            if c in _SA:
                vals.append(_val(c))
                chars.append(c)
        elif dec(mkq(_cin(c, _SA))):
            sk.append(65)
            vals.append(_val(c))
            chars.append(c)
        elif dec(mkq(c == 61)):
            sk.append(61)
        elif not s.BYTES and dec(mkq(c > 127)):
            raise ValueError('string argument should contain only ASCII characters')
        else:
            sk.append(33)
    n = len(base64.b64decode(bytes(sk), altchars, validate))
    out = []
    for i in range(n):
        j, r = divmod(i * 8, 6)
        a, b = vals[j], vals[j + 1]
        if type(a) is int and type(b) is int:
            out.append(((a << 6 | b) >> (4 - r)) & 255)
        else:
            k = 1 << (4 - r)
            out.append(chz(((zc(a) * 64 + zc(b)) / k) % 256))
    for i in range(0, n - 2, 3):
        remember('b64', out[i:i + 3], chars[i // 3 * 4:i // 3 * 4 + 4])
    return SymBytes.of(out)


def b64encode(s, altchars=None):
    if not isinstance(s, SymBytes):
        return base64.b64encode(s, altchars)
    cs = s.c
    out = []
    for i in range(0, len(cs), 3):
        g = list(cs[i:i + 3])
        p = 3 - len(g)
        g += [0] * p
        if all(type(x) is int for x in g):
            e = list(base64.b64encode(bytes(g)))
        elif p == 0 and recall('b64', g) is not None:
            e = list(recall('b64', g))
        else:
            v = zc(g[0]) * 65536 + zc(g[1]) * 256 + zc(g[2])
            e = [_chr(_simp((v / (1 << k)) % 64)) for k in (18, 12, 6, 0)]
        for k in range(p):
            e[3 - k] = 61
        out += e
    return SymBytes.of(out)


def compare_digest(a, b):
    if isinstance(a, SymStr) or isinstance(b, SymStr):
        return a == b
    return _hmac.compare_digest(a, b)


def hmac_new(key, msg=None, digestmod=''):
    if isinstance(key, SymStr):
        key = b'sym'
    dm = digestmod if isinstance(digestmod, str) else getattr(digestmod, '__name__', 'sha256')
    return SymHash('hmac:%s:%s' % (dm, key.hex()), lambda d: _hmac.new(key, d, dm),
                   b'' if msg is None else msg)


class Cipher(object):
    block_size = 16

    def __init__(self, real, key):
        self.real = real
        self.k = 'aes:' + key.hex()
        self.block_size = real.block_size

    def _map(self, data, src, f):
        en = Engine.cur
        out = []
        B = self.block_size
        if len(data) % B:
            raise ValueError('Data must be aligned to block boundary in ECB mode')
        for i in range(0, len(data), B):
            d = data[i:i + B]
            for e in en.hash_log if en is not None else ():
                if e[0] == self.k and e[1 + src] == d:
                    r = e[2 - src]
                    break
            else:
                r = f(d) if not isinstance(d, SymBytes) else \
                    hashlib.md5(b'sx-block-%d-%d' % (len(en.hash_log), src)).digest()
                if en is not None:
                    en.hash_log.append((self.k, d, r) if src == 0 else (self.k, r, d))
            out += codes_of(r)
        return SymBytes.of(out)

    def encrypt(self, data):
        return self._map(data, 0, self.real.encrypt)

    def decrypt(self, data):
        return self._map(data, 1, self.real.decrypt)


def install():
    PATCH[base64.b64decode] = b64decode
    PATCH[base64.standard_b64decode] = b64decode
    PATCH[base64.b64encode] = b64encode
    PATCH[base64.standard_b64encode] = b64encode
    PATCH[_hmac.new] = hmac_new
    PATCH[_hmac.compare_digest] = compare_digest
    import secrets
    PATCH[secrets.compare_digest] = compare_digest
    try:
        from Crypto.Cipher import AES
    except ImportError:
        return
    new = AES.new

    def aes_new(key, mode, *a, **kw):
        r = new(key, mode, *a, **kw)
        return Cipher(r, key) if mode == AES.MODE_ECB else r
    PATCH[AES.new] = aes_new
