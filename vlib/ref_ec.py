'''Reference secp256k1: points, RFC6979 ECDSA, recovery, key parsing.  Independent of libsecp256k1;
written from SEC 1/2 and RFC 6979.'''

from vlib.ref_hash import hmac_sha256

P = 2**256 - 2**32 - 977
N = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141
GX = 0x79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798
GY = 0x483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8
G = (GX, GY)
HALF_N = N // 2



def _hmac_digest(key, msg, _name):
    return hmac_sha256(key, msg)


def on_curve(pt):
    x, y = pt
    return 0 <= x < P and 0 <= y < P and (y * y - x * x * x - 7) % P == 0


# Jacobian coordinates; None is infinity

def _jdouble(p):
    x, y, z = p
    if not y:
        return None
    yy = y * y % P
    s = 4 * x * yy % P
    m = 3 * x * x % P
    x3 = (m * m - 2 * s) % P
    y3 = (m * (s - x3) - 8 * yy * yy) % P
    return x3, y3, 2 * y * z % P


def _jadd(p, q):
    if p is None:
        return q
    if q is None:
        return p
    x1, y1, z1 = p
    x2, y2, z2 = q
    z1z1 = z1 * z1 % P
    z2z2 = z2 * z2 % P
    u1 = x1 * z2z2 % P
    u2 = x2 * z1z1 % P
    s1 = y1 * z2 * z2z2 % P
    s2 = y2 * z1 * z1z1 % P
    if u1 == u2:
        if s1 != s2:
            return None
        return _jdouble(p)
    h = (u2 - u1) % P
    r = (s2 - s1) % P
    hh = h * h % P
    hhh = h * hh % P
    v = u1 * hh % P
    x3 = (r * r - hhh - 2 * v) % P
    y3 = (r * (v - x3) - s1 * hhh) % P
    return x3, y3, h * z1 * z2 % P


def _affine(p):
    if p is None:
        return None
    x, y, z = p
    zi = pow(z, -1, P)
    zi2 = zi * zi % P
    return x * zi2 % P, y * zi2 * zi % P


def _jac(pt):
    return None if pt is None else (pt[0], pt[1], 1)


def add(p, q):
    return _affine(_jadd(_jac(p), _jac(q)))


def neg(p):
    return None if p is None else (p[0], -p[1] % P)


def _jmul(k, p):
    result = None
    while k:
        if k & 1:
            result = _jadd(result, p)
        k >>= 1
        if k:
            p = _jdouble(p)
            if p is None:
                break
    return result


_G_POWERS = []


def _g_powers():
    if not _G_POWERS:
        p = _jac(G)
        for _ in range(256):
            _G_POWERS.append(p)
            a = _affine(_jdouble(p))
            p = _jac(a)
    return _G_POWERS


def _jmul_g(k):
    result = None
    powers = _g_powers()
    n = 0
    while k:
        if k & 1:
            result = _jadd(result, powers[n])
        k >>= 1
        n += 1
    return result


def mul(k, p):
    k %= N
    if p is None or not k:
        return None
    return _affine(_jmul(k, _jac(p)))


def mul_g(k):
    return _affine(_jmul_g(k % N))


def lift_y(y):
    '''A point with the given y, or None.'''
    cube = (y * y - 7) % P
    x = pow(cube, (P + 2) // 9, P)     # P is 7 modulo 9
    return (x, y) if pow(x, 3, P) == cube and 0 <= y < P else None


def lift_x(x, odd):
    '''The point with the given x and y parity, or None.'''
    if not 0 <= x < P:
        return None
    yy = (x * x * x + 7) % P
    y = pow(yy, (P + 1) // 4, P)
    if y * y % P != yy:
        return None
    if (y & 1) != (1 if odd else 0):
        y = P - y
    return x, y


def ser(pt, compressed=True):
    x, y = pt
    if compressed:
        return bytes([2 + (y & 1)]) + x.to_bytes(32, 'big')
    return b'\x04' + x.to_bytes(32, 'big') + y.to_bytes(32, 'big')


def parse(data):
    '''The point a serialised public key denotes, or None.  Includes the hybrid form (06, 07) of 65
    bytes that libsecp256k1 accepts.'''
    data = bytes(data)
    if len(data) == 33 and data[0] in (2, 3):
        return lift_x(int.from_bytes(data[1:], 'big'), data[0] == 3)
    if len(data) == 65 and data[0] in (4, 6, 7):
        x = int.from_bytes(data[1:33], 'big')
        y = int.from_bytes(data[33:], 'big')
        if x >= P or y >= P or not on_curve((x, y)):
            return None
        if data[0] != 4 and (y & 1) != (data[0] & 1):
            return None
        return x, y
    return None


def rfc6979_k(secret, msg_hash):
    '''Yields candidate nonces.'''
    x = secret.to_bytes(32, 'big')
    h = (int.from_bytes(msg_hash, 'big') % N).to_bytes(32, 'big')       # bits2octets
    V = b'\x01' * 32
    K = b'\0' * 32
    K = _hmac_digest(K, V + b'\0' + x + h, 'sha256')
    V = _hmac_digest(K, V, 'sha256')
    K = _hmac_digest(K, V + b'\1' + x + h, 'sha256')
    V = _hmac_digest(K, V, 'sha256')
    while True:
        V = _hmac_digest(K, V, 'sha256')
        yield int.from_bytes(V, 'big')
        K = _hmac_digest(K, V + b'\0', 'sha256')
        V = _hmac_digest(K, V, 'sha256')


def sign(secret, msg_hash):
    '''(r, s, recid), low s.'''
    z = int.from_bytes(msg_hash, 'big') % N
    for k in rfc6979_k(secret, msg_hash):
        if not 1 <= k < N:
            continue
        x, y = mul_g(k)
        r = x % N
        if not r:
            continue
        s = pow(k, -1, N) * (z + r * secret) % N
        if not s:
            continue
        recid = (y & 1) | (2 if x >= N else 0)
        if s > HALF_N:
            s = N - s
            recid ^= 1
        return r, s, recid


def verify(pt, msg_hash, r, s):
    '''Strict: as libsecp256k1, high s is refused.'''
    if not (1 <= r < N and 1 <= s <= HALF_N):
        return False
    return verify_any_s(pt, msg_hash, r, s)


def verify_any_s(pt, msg_hash, r, s):
    z = int.from_bytes(msg_hash, 'big') % N
    w = pow(s, -1, N)
    q = _affine(_jadd(_jmul_g(z * w % N), _jmul(r * w % N, _jac(pt))))
    return q is not None and q[0] % N == r


def recover(msg_hash, r, s, recid):
    if not (1 <= r < N and 1 <= s < N):
        return None
    x = r + (N if recid & 2 else 0)
    if x >= P:
        return None
    R = lift_x(x, recid & 1)
    if R is None:
        return None
    z = int.from_bytes(msg_hash, 'big') % N
    ri = pow(r, -1, N)
    return _affine(_jadd(_jmul_g(-z * ri % N), _jmul(s * ri % N, _jac(R))))


def der(r, s):
    def integer(v):
        b = v.to_bytes((v.bit_length() + 8) // 8, 'big')
        return b'\x02' + bytes([len(b)]) + b
    body = integer(r) + integer(s)
    return b'\x30' + bytes([len(body)]) + body


def parse_der(sig):
    '''Strict DER as libsecp256k1 reads it.  Returns (r, s), out-of-range values being 0, or None if
    the encoding is invalid.'''
    sig = bytes(sig)

    def length(pos):
        # returns (length, new pos) or None
        if pos >= len(sig):
            return None
        b1 = sig[pos]
        pos += 1
        if b1 == 0xff:
            return None
        if not b1 & 0x80:
            return b1, pos
        if b1 == 0x80:
            return None
        n = b1 & 0x7f
        if n > len(sig) - pos:
            return None
        if sig[pos] == 0:
            return None
        if n > 8:
            return None
        value = int.from_bytes(sig[pos:pos + n], 'big')
        pos += n
        if value > len(sig) - pos:
            return None
        if value < 128:
            return None
        return value, pos

    def integer(pos):
        if pos >= len(sig) or sig[pos] != 2:
            return None
        lp = length(pos + 1)
        if lp is None:
            return None
        n, pos = lp
        if n == 0 or n > len(sig) - pos:
            return None
        data = sig[pos:pos + n]
        if n > 1 and data[0] == 0 and not data[1] & 0x80:
            return None
        if n > 1 and data[0] == 0xff and data[1] & 0x80:
            return None
        if data[0] & 0x80:
            value = 0           # negative: overflow
        else:
            value = int.from_bytes(data, 'big')
            if value >= N:
                value = 0
        return value, pos + n

    if not sig or sig[0] != 0x30:
        return None
    lp = length(1)
    if lp is None:
        return None
    n, pos = lp
    if n != len(sig) - pos:
        return None
    a = integer(pos)
    if a is None:
        return None
    b = integer(a[1])
    if b is None or b[1] != len(sig):
        return None
    return a[0], b[0]
