'''Reference AES (FIPS-197) in CBC mode, without padding; computed from the field arithmetic.'''


def _xtime(a):
    a <<= 1
    return (a ^ 0x11b) & 0xff if a & 0x100 else a


def _gmul(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a = _xtime(a)
        b >>= 1
    return r


def _make_sbox():
    inv = [0] * 256
    exp = [1]
    for _ in range(254):
        exp.append(exp[-1] ^ _xtime(exp[-1]))       # powers of 3
    for n in range(255):
        inv[exp[n]] = exp[-n % 255]
    box = []
    for n in range(256):
        b = inv[n]
        v = 0x63
        for k in range(5):
            v ^= ((b << k) | (b >> (8 - k))) & 0xff
        box.append(v)
    return box


SBOX = _make_sbox()
INV_SBOX = [SBOX.index(n) for n in range(256)]
MUL = {k: [_gmul(n, k) for n in range(256)] for k in (2, 3, 9, 11, 13, 14)}


def expand_key(key):
    nk = len(key) // 4
    rounds = nk + 6
    words = [list(key[4 * n: 4 * n + 4]) for n in range(nk)]
    rcon = 1
    for n in range(nk, 4 * (rounds + 1)):
        t = list(words[-1])
        if n % nk == 0:
            t = [SBOX[b] for b in t[1:] + t[:1]]
            t[0] ^= rcon
            rcon = _xtime(rcon)
        elif nk > 6 and n % nk == 4:
            t = [SBOX[b] for b in t]
        words.append([a ^ b for a, b in zip(words[n - nk], t)])
    return [sum(words[4 * r: 4 * r + 4], []) for r in range(rounds + 1)]


def encrypt_block(keys, block):
    s = [a ^ b for a, b in zip(block, keys[0])]
    for r in range(1, len(keys)):
        s = [SBOX[s[(n + 4 * (n % 4)) % 16]] for n in range(16)]      # SubBytes, ShiftRows
        if r < len(keys) - 1:
            m2, m3 = MUL[2], MUL[3]
            t = []
            for c in range(0, 16, 4):
                a, b, d, e = s[c: c + 4]
                t += [m2[a] ^ m3[b] ^ d ^ e, a ^ m2[b] ^ m3[d] ^ e,
                      a ^ b ^ m2[d] ^ m3[e], m3[a] ^ b ^ d ^ m2[e]]
            s = t
        s = [a ^ b for a, b in zip(s, keys[r])]
    return bytes(s)


def decrypt_block(keys, block):
    s = [a ^ b for a, b in zip(block, keys[-1])]
    for r in range(len(keys) - 2, -1, -1):
        s = [INV_SBOX[s[(n - 4 * (n % 4)) % 16]] for n in range(16)]
        s = [a ^ b for a, b in zip(s, keys[r])]
        if r:
            m9, mb, md, me = MUL[9], MUL[11], MUL[13], MUL[14]
            t = []
            for c in range(0, 16, 4):
                a, b, d, e = s[c: c + 4]
                t += [me[a] ^ mb[b] ^ md[d] ^ m9[e], m9[a] ^ me[b] ^ mb[d] ^ md[e],
                      md[a] ^ m9[b] ^ me[d] ^ mb[e], mb[a] ^ md[b] ^ m9[d] ^ me[e]]
            s = t
    return bytes(s)


def cbc_encrypt(key, iv, data):
    assert len(data) % 16 == 0
    keys = expand_key(key)
    out = []
    prev = iv
    for n in range(0, len(data), 16):
        prev = encrypt_block(keys, bytes(a ^ b for a, b in zip(data[n: n + 16], prev)))
        out.append(prev)
    return b''.join(out)


def cbc_decrypt(key, iv, data):
    assert len(data) % 16 == 0
    keys = expand_key(key)
    out = []
    prev = iv
    for n in range(0, len(data), 16):
        block = data[n: n + 16]
        out.append(bytes(a ^ b for a, b in zip(decrypt_block(keys, block), prev)))
        prev = block
    return b''.join(out)


def pad(data):
    n = 16 - len(data) % 16
    return data + bytes([n]) * n


def unpad(data):
    '''The data, or None if the padding is not valid PKCS#7.'''
    if not data or len(data) % 16 or not 1 <= data[-1] <= 16:
        return None
    n = data[-1]
    if data[-n:] != bytes([n]) * n:
        return None
    return data[:-n]
