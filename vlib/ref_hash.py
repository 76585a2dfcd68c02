'''Reference RIPEMD-160 (pure Python) and hash helpers.  SHA-2 comes from Cryptodome rather than
hashlib, which the code under test uses.'''

import struct

from Cryptodome.Hash import RIPEMD160, SHA1, SHA256, SHA512

_r = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15,
      7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8,
      3, 10, 14, 4, 9, 15, 8, 1, 2, 7, 0, 6, 13, 11, 5, 12,
      1, 9, 11, 10, 0, 8, 12, 4, 13, 3, 7, 15, 14, 5, 6, 2,
      4, 0, 5, 9, 7, 12, 2, 10, 14, 1, 3, 8, 11, 6, 15, 13]
_rp = [5, 14, 7, 0, 9, 2, 11, 4, 13, 6, 15, 8, 1, 10, 3, 12,
       6, 11, 3, 7, 0, 13, 5, 10, 14, 15, 8, 12, 4, 9, 1, 2,
       15, 5, 1, 3, 7, 14, 6, 9, 11, 8, 12, 2, 10, 0, 4, 13,
       8, 6, 4, 1, 3, 11, 15, 0, 5, 12, 2, 13, 9, 7, 10, 14,
       12, 15, 10, 4, 1, 5, 8, 7, 6, 2, 13, 14, 0, 3, 9, 11]
_s = [11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8,
      7, 6, 8, 13, 11, 9, 7, 15, 7, 12, 15, 9, 11, 7, 13, 12,
      11, 13, 6, 7, 14, 9, 13, 15, 14, 8, 13, 6, 5, 12, 7, 5,
      11, 12, 14, 15, 14, 15, 9, 8, 9, 14, 5, 6, 8, 6, 5, 12,
      9, 15, 5, 11, 6, 8, 13, 12, 5, 12, 13, 14, 11, 8, 5, 6]
_sp = [8, 9, 9, 11, 13, 15, 15, 5, 7, 7, 8, 11, 14, 14, 12, 6,
       9, 13, 15, 7, 12, 8, 9, 11, 7, 7, 12, 7, 6, 15, 13, 11,
       9, 7, 15, 11, 8, 6, 6, 14, 12, 13, 5, 14, 13, 13, 7, 5,
       15, 5, 8, 11, 14, 14, 6, 14, 6, 9, 12, 9, 12, 5, 15, 8,
       8, 5, 12, 9, 12, 5, 14, 6, 8, 13, 6, 5, 15, 13, 11, 11]
_K = [0, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xa953fd4e]
_KP = [0x50a28be6, 0x5c4dd124, 0x6d703ef3, 0x7a6d76e9, 0]
M = 0xffffffff


def _f(j, x, y, z):
    if j < 16:
        return x ^ y ^ z
    if j < 32:
        return (x & y) | (~x & M & z)
    if j < 48:
        return (x | (~y & M)) ^ z
    if j < 64:
        return (x & z) | (y & ~z & M)
    return x ^ (y | (~z & M))


def _rol(x, n):
    return ((x << n) | (x >> (32 - n))) & M


def ripemd160(data):
    data = bytes(data)
    h = [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0]
    padded = data + b'\x80' + b'\0' * ((55 - len(data)) % 64) + struct.pack('<Q', 8 * len(data))
    for off in range(0, len(padded), 64):
        X = struct.unpack('<16I', padded[off: off + 64])
        a, b, c, d, e = h
        ap, bp, cp, dp, ep = h
        for j in range(80):
            t = (_rol((a + _f(j, b, c, d) + X[_r[j]] + _K[j // 16]) & M, _s[j]) + e) & M
            a, e, d, c, b = e, d, _rol(c, 10), b, t
            t = (_rol((ap + _f(79 - j, bp, cp, dp) + X[_rp[j]] + _KP[j // 16]) & M, _sp[j])
                 + ep) & M
            ap, ep, dp, cp, bp = ep, dp, _rol(cp, 10), bp, t
        t = (h[1] + c + dp) & M
        h[1] = (h[2] + d + ep) & M
        h[2] = (h[3] + e + ap) & M
        h[3] = (h[4] + a + bp) & M
        h[4] = (h[0] + b + cp) & M
        h[0] = t
    return struct.pack('<5I', *h)


def sha256(data):
    return SHA256.new(bytes(data)).digest()


def sha512(data):
    return SHA512.new(bytes(data)).digest()


def sha1(data):
    return SHA1.new(bytes(data)).digest()


def dsha(data):
    return sha256(sha256(data))


def hash160(data):
    return RIPEMD160.new(sha256(data)).digest()


def _hmac(key, msg, func, block):
    key = bytes(key)
    if len(key) > block:
        key = func(key)
    key += bytes(block - len(key))
    inner = func(bytes(b ^ 0x36 for b in key) + bytes(msg))
    return func(bytes(b ^ 0x5c for b in key) + inner)


def hmac_sha256(key, msg):
    return _hmac(key, msg, sha256, 64)


def hmac_sha512(key, msg):
    return _hmac(key, msg, sha512, 128)
