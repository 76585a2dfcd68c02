'''Reference BIP32.  A node is the plain tuple (secret or None, point, chain_code, depth,
parent_fingerprint, n).'''

from vlib import ref_ec, ref_hash, ref_text

N = ref_ec.N
H = 1 << 31

# From the coin definitions of the networks
XPUB = {0: bytes.fromhex('0488b21e'), 1: bytes.fromhex('043587cf'), 2: bytes.fromhex('043587cf'),
        3: bytes.fromhex('043587cf')}
XPRV = {0: bytes.fromhex('0488ade4'), 1: bytes.fromhex('04358394'), 2: bytes.fromhex('04358394'),
        3: bytes.fromhex('04358394')}


def private(secret, chain_code, depth=0, fp=bytes(4), n=0):
    return secret, ref_ec.mul_g(secret), chain_code, depth, fp, n


def from_seed(seed):
    '''None if invalid.'''
    I = ref_hash.hmac_sha512(b'Bitcoin seed', seed)
    secret = int.from_bytes(I[:32], 'big')
    return private(secret, I[32:]) if 0 < secret < N else None


def neuter(node):
    return (None,) + node[1:]


def identifier(node):
    return ref_hash.hash160(ref_ec.ser(node[1]))


def child(node, n):
    '''The child at n, or None if the derivation is invalid.'''
    secret, point, chain_code, depth, _fp, _n = node
    if n >= H:
        data = b'\0' + secret.to_bytes(32, 'big')
    else:
        data = ref_ec.ser(point)
    I = ref_hash.hmac_sha512(chain_code, data + n.to_bytes(4, 'big'))
    left = int.from_bytes(I[:32], 'big')
    if left >= N:
        return None
    if secret is None:
        point = ref_ec.add(ref_ec.mul_g(left) if left else None, point)
        if point is None:
            return None
    else:
        secret = (left + secret) % N
        if not secret:
            return None
        point = ref_ec.mul_g(secret)
    return secret, point, I[32:], depth + 1, identifier(node)[:4], n


def payload(node, coin):
    secret, point, chain_code, depth, fp, n = node
    key = ref_ec.ser(point) if secret is None else b'\0' + secret.to_bytes(32, 'big')
    version = (XPUB if secret is None else XPRV)[coin]
    return version + bytes([depth]) + fp + n.to_bytes(4, 'big') + chain_code + key


def text(node, coin):
    return ref_text.b58check_encode(payload(node, coin))


def compare(key, node, coin, check_eq, what=''):
    '''key: the library's object.  Uses only documented attributes.'''
    import bitcoinx
    secret, point, chain_code, depth, fp, n = node
    want = bitcoinx.BIP32PublicKey if secret is None else bitcoinx.BIP32PrivateKey
    if not isinstance(key, want):
        check_eq(type(key).__name__, want.__name__, f'{what} kind')
    d = key.derivation()
    check_eq(bytes(d.chain_code), chain_code, f'{what} chain code')
    check_eq(d.depth, depth, f'{what} depth')
    check_eq(d.n, n, f'{what} index')
    check_eq(bytes(d.parent_fingerprint), fp, f'{what} parent fingerprint')
    check_eq(key.identifier(), identifier(node), f'{what} identifier')
    check_eq(key.fingerprint(), identifier(node)[:4], f'{what} fingerprint')
    check_eq(key.is_compressed(), True, f'{what} compressed')
    check_eq(key.coin() is bitcoinx.all_coins[coin], True, f'{what} coin')
    if secret is None:
        check_eq(key.to_bytes(), ref_ec.ser(point), f'{what} point')
    else:
        check_eq(key.to_int(), secret, f'{what} secret')
        check_eq(key.to_bytes(), secret.to_bytes(32, 'big'), f'{what} secret bytes')
