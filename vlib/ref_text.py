'''Reference text encodings: Base58(Check), CashAddr (encoder and decoder).'''

from vlib.ref_hash import dsha

B58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'


def b58_encode(data):
    '''Schoolbook base conversion on digit lists (no big integers).'''
    data = bytes(data)
    zeros = len(data) - len(data.lstrip(b'\0'))
    digits = []
    for byte in data:
        carry = byte
        for i, d in enumerate(digits):
            carry += d << 8
            digits[i] = carry % 58
            carry //= 58
        while carry:
            digits.append(carry % 58)
            carry //= 58
    return '1' * zeros + ''.join(B58[d] for d in reversed(digits))


def b58_decode(txt):
    '''bytes, or None if invalid.'''
    if not txt or any(c not in B58 for c in txt):
        return None
    zeros = len(txt) - len(txt.lstrip('1'))
    out = []
    for c in txt:
        carry = B58.index(c)
        for i, b in enumerate(out):
            carry += b * 58
            out[i] = carry & 0xff
            carry >>= 8
        while carry:
            out.append(carry & 0xff)
            carry >>= 8
    return bytes(zeros) + bytes(reversed(out))


def b58check_encode(payload):
    return b58_encode(payload + dsha(payload)[:4])


def b58check_decode(txt):
    raw = b58_decode(txt)
    if raw is None or len(raw) < 4:
        return None
    body, cs = raw[:-4], raw[-4:]
    return body if dsha(body)[:4] == cs else None


# CashAddr, from the specification (spec/cashaddr.md of Bitcoin Cash)

CHARSET = 'qpzry9x8gf2tvdw0s3jn54khce6mua7l'
GENERATOR = (0x98f2bc8e61, 0x79b76d99e2, 0xf33e5fb3c4, 0xae2eabe2a8, 0x1e4f43e470)
SIZES = (20, 24, 28, 32, 40, 48, 56, 64)


def polymod(values):
    c = 1
    for d in values:
        c0 = c >> 35
        c = ((c & 0x07ffffffff) << 5) ^ d
        for n in range(5):
            if c0 >> n & 1:
                c ^= GENERATOR[n]
    return c ^ 1


def expand(prefix):
    return [ord(c) & 31 for c in prefix] + [0]


def checksum_symbols(prefix, symbols):
    value = polymod(expand(prefix) + list(symbols) + [0] * 8)
    return [value >> (5 * (7 - n)) & 31 for n in range(8)]


def to_symbols(data):
    bits = ''.join(f'{b:08b}' for b in data)
    bits += '0' * (-len(bits) % 5)
    return [int(bits[n:n + 5], 2) for n in range(0, len(bits), 5)]


def cash_encode_symbols(prefix, symbols):
    symbols = list(symbols)
    return prefix + ':' + ''.join(CHARSET[v] for v in symbols + checksum_symbols(prefix, symbols))


def cash_encode(prefix, kind, addr_hash):
    version = kind << 3 | SIZES.index(len(addr_hash))
    return cash_encode_symbols(prefix, to_symbols(bytes([version]) + addr_hash))


def cash_decode(text):
    '''(prefix, kind, hash) or None.'''
    if not text.isascii():
        return None
    if any('a' <= c <= 'z' for c in text) and any('A' <= c <= 'Z' for c in text):
        return None
    upper = any('A' <= c <= 'Z' for c in text)
    low = text.lower()
    if ':' not in low:
        return None
    prefix, payload = low.split(':', 1)
    if not prefix or any(not 33 <= ord(c) <= 126 for c in prefix):
        return None
    if any(c not in CHARSET for c in payload) or len(payload) < 8:
        return None
    symbols = [CHARSET.index(c) for c in payload]
    if polymod(expand(prefix) + symbols):
        return None
    symbols = symbols[:-8]
    bits = ''.join(f'{v:05b}' for v in symbols)
    extra = len(bits) % 8
    if extra >= 5 or '1' in bits[len(bits) - extra:]:
        return None
    data = bytes(int(bits[n:n + 8], 2) for n in range(0, len(bits) - extra, 8))
    if not data:
        return None
    version, addr_hash = data[0], data[1:]
    if version & 0x80 or version >> 3 not in (0, 1):
        return None
    if SIZES[version & 7] != len(addr_hash):
        return None
    return (prefix.upper() if upper else prefix), version >> 3, addr_hash


# Base64, strictly: RFC 4648 alphabet, padding required, nothing else

B64 = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'


def b64_encode(data):
    out = []
    for n in range(0, len(data), 3):
        part = data[n: n + 3]
        value = int.from_bytes(part + bytes(3 - len(part)), 'big')
        word = ''.join(B64[value >> s & 63] for s in (18, 12, 6, 0))
        out.append(word[:len(part) + 1] + '=' * (3 - len(part)))
    return ''.join(out)


def b64_decode(text):
    '''(bytes, canonical) or None.  canonical is False if unused bits are set.'''
    if len(text) % 4:
        return None
    body = text.rstrip('=') if text.endswith('=') else text
    if len(text) - len(body) > 2 or any(c not in B64 for c in body):
        return None
    if len(body) % 4 == 1:
        return None
    value = 0
    for c in body:
        value = value << 6 | B64.index(c)
    extra = len(body) * 6 % 8
    data = (value >> extra).to_bytes(len(body) * 6 // 8, 'big') if body else b''
    return data, not value & ((1 << extra) - 1)
