import hashlib

from hypothesis import strategies as st

from bitcoinx import PrivateKey, PublicKey
from bitcoinx.signature import InvalidSignatureError
from vlib import gens, key_history as kh, ref_ec, ref_hash
from vlib.core import Check, check, check_eq, outcome, raises

C = Check('C14', rule=(
    'Keys and messages over the whole range incl. extreme hashes, RFC6979 signatures recomputed in '
    'reference arithmetic; every-byte tampering of a signature, high-S twins, other keys and '
    'messages, out-of-range r and s, bad recovery ids and malformed DER. Non-trivial: a signature '
    'was compared bit for bit, or a tampered one was judged.'))

N, P = ref_ec.N, ref_ec.P
# Messages whose signature by the secret 7 has a short r or s
SHORT = [4572433, 4038081, 4027212, 4205082, 11383043, 17968829,
         23453117]
HASHERS = {'default': None, 'none': None, 'double': ref_hash.dsha,
           'sha1': lambda m: hashlib.sha1(m).digest(), 'sha512': ref_hash.sha512}


def private(secret, compressed=True):
    return PrivateKey(secret.to_bytes(32, 'big'), compressed)


def hashed(msg, hasher):
    if hasher == 'none':
        return msg
    return (HASHERS[hasher] or ref_hash.sha256)(msg)


def args(hasher):
    return {} if hasher == 'default' else {'hasher': HASHERS[hasher]}


raw_hash = st.one_of(gens.hash32, gens.any_int256.map(lambda v: v.to_bytes(32, 'big')),
                     st.sampled_from([N, N - 1, N + 1, 0, 1, 2**256 - 1]).map(
                         lambda v: v.to_bytes(32, 'big')))
msg_hasher = st.one_of(
    st.tuples(st.binary(max_size=80), st.sampled_from(['default', 'double'])),
    st.tuples(raw_hash, st.just('none')))


def der_result(der, msg_hash, pt):
    '''True, False, or None for malformed.  (Every signature also verifies for the one other key that
    its flipped recovery id gives; that is ECDSA, not a defect.)'''
    rs = ref_ec.parse_der(der)
    if rs is None:
        return None
    return ref_ec.verify(pt, msg_hash, *rs)


def judge_der(pub, pt, der, msg, msg_hash, kw, what):
    want = der_result(der, msg_hash, pt)
    if want is None:
        raises(InvalidSignatureError, pub.verify_der_signature, der, msg, **kw)
    else:
        check_eq(pub.verify_der_signature(der, msg, **kw), want, what)
    return want


def judge_rec(pub, pt, rec, msg, msg_hash, kw, what):
    '''A recoverable signature is malformed if its recovery id or r, s are out of range.'''
    ok = len(rec) == 65 and rec[64] <= 3
    if ok:
        r, s = int.from_bytes(rec[:32], 'big'), int.from_bytes(rec[32:64], 'big')
        ok = r < N and s < N
    if not ok:
        raises(InvalidSignatureError, pub.verify_recoverable_signature, rec, msg, **kw)
        raises(InvalidSignatureError, PublicKey.from_recoverable_signature, rec, msg, **kw)
        return None
    check_eq(pub.verify_recoverable_signature(rec, msg, **kw),
             ref_ec.verify(pt, msg_hash, r, s), what)
    want = ref_ec.recover(msg_hash, r, s, rec[64])
    if want is None:
        raises(InvalidSignatureError, PublicKey.from_recoverable_signature, rec, msg, **kw)
    else:
        got = PublicKey.from_recoverable_signature(rec, msg, **kw)
        check_eq(tuple(got.to_point()), want, 'recovered')
    return True


def _edge_hashes(tier):
    # r, s or both start with zero bytes
    for n in SHORT:
        yield 7, (b'short %d' % n, 'default')
    for s in gens.edge_secrets:
        for v in (0, 1, N - 1, N, N + 1, 2**256 - 1, N - s):
            yield s, (v.to_bytes(32, 'big'), 'none')


@C.test(st.tuples(gens.secret, msg_hasher), quick=1600, shards=8, enum=_edge_hashes)
def signing(case, T):
    secret, (msg, hasher) = case
    kw = args(hasher)
    h = hashed(msg, hasher)
    r, s, recid = ref_ec.sign(secret, h)
    for compressed in (True, False):
        key = private(secret, compressed)
        der = key.sign(msg, **kw)
        check_eq(der, ref_ec.der(r, s), 'DER signature')
        rec = key.sign_recoverable(msg, **kw)
        check_eq(rec, r.to_bytes(32, 'big') + s.to_bytes(32, 'big') + bytes([recid]),
                 'recoverable signature')
        pub = key.public_key
        check(pub.verify_der_signature(der, msg, **kw) is True, 'DER signature does not verify')
        check(pub.verify_recoverable_signature(rec, msg, **kw) is True,
              'recoverable signature does not verify')
        got = PublicKey.from_recoverable_signature(rec, msg, **kw)
        check(got == pub and tuple(got.to_point()) == ref_ec.mul_g(secret), 'recovered key')
    check_eq(key.sign(msg, **kw), der, 'signing again')
    # Already hashed
    check_eq(key.sign(h, hasher=None), der, 'hash')
    check_eq(key.sign(h, None), der, 'hash')
    check_eq(key.sign_recoverable(h, None), rec, 'hash')
    check(pub.verify_der_signature(der, h, None), 'hash')
    check(pub.verify_recoverable_signature(rec, h, None), 'hash')
    check(PublicKey.from_recoverable_signature(rec, h, None) == pub, 'hash')
    T.label(hasher)
    T.label(f'recid {recid}')
    T.nontrivial()


@C.test(enum=lambda tier: [*range(1, 301), *gens.LARGE_SIZES], shards=8)
def long_messages(size, T):
    msg = gens.pattern_bytes(size, size % 251)
    secret = 0xfedcba9876543 << 99 | size
    r, s, recid = ref_ec.sign(secret, ref_hash.sha256(msg))
    key = private(secret)
    der, rec = key.sign(msg), key.sign_recoverable(msg)
    check_eq(der, ref_ec.der(r, s), 'DER signature')
    check_eq(rec, r.to_bytes(32, 'big') + s.to_bytes(32, 'big') + bytes([recid]), 'recoverable')
    pub = key.public_key
    for other in (msg, msg[:-1], msg + b'\0', msg[:-1] + bytes([msg[-1] ^ 1]), b'\1' + msg[1:],
                  msg[:size // 2] + bytes([msg[size // 2] ^ 1]) + msg[size // 2 + 1:]):
        check_eq(pub.verify_der_signature(der, other), other == msg, 'DER verification')
        check_eq(pub.verify_recoverable_signature(rec, other), other == msg, 'verification')
        check_eq(PublicKey.from_recoverable_signature(rec, other) == pub, other == msg, 'recovery')
    T.nontrivial()


@C.test(st.tuples(gens.secret, gens.secret, msg_hasher, msg_hasher), quick=500, shards=4)
def other_key_or_message(case, T):
    a, b, (msg, hasher), (msg2, hasher2) = case
    key, other = private(a), private(b)
    kw, kw2 = args(hasher), args(hasher2)
    h, h2 = hashed(msg, hasher), hashed(msg2, hasher2)
    der, rec = key.sign(msg, **kw), key.sign_recoverable(msg, **kw)
    # A hash of zero cannot tell a key from its negation
    if a != b and (int.from_bytes(h, 'big') % N or a + b != N):
        check(other.public_key.verify_der_signature(der, msg, **kw) is False, 'other key')
        check(other.public_key.verify_recoverable_signature(rec, msg, **kw) is False, 'other key')
        T.nontrivial()
    if int.from_bytes(h, 'big') % N != int.from_bytes(h2, 'big') % N:
        check(key.public_key.verify_der_signature(der, msg2, **kw2) is False, 'other message')
        check(key.public_key.verify_recoverable_signature(rec, msg2, **kw2) is False,
              'other message')
        got = outcome(PublicKey.from_recoverable_signature, rec, msg2, **kw2)
        check(got[0] == 'ok' and got[1] != key.public_key, 'recovered the key of other message')
        T.nontrivial()


def _tamper(tier):
    for n in range(2 if tier == 'quick' else 8):
        secret = 0xabcdef0123456789 * (n + 1) ** 9
        msg = b'message %d' % n
        r, s, recid = ref_ec.sign(secret, ref_hash.sha256(msg))
        for kind, sig in (('der', ref_ec.der(r, s)),
                          ('rec', r.to_bytes(32, 'big') + s.to_bytes(32, 'big') + bytes([recid]))):
            for pos in range(len(sig)):
                for bit in range(8):
                    yield kind, secret, msg, sig[:pos] + bytes([sig[pos] ^ 1 << bit]) + sig[
                        pos + 1:]
                yield kind, secret, msg, sig[:pos]
                yield kind, secret, msg, sig[:pos] + sig[pos + 1:]
                yield kind, secret, msg, sig[:pos] + b'\0' + sig[pos:]
            for tail in (b'\0', b'\1', b'\xff\0'):
                yield kind, secret, msg, sig + tail
            for low in range(256):
                yield kind, secret, msg, sig[:-1] + bytes([low])


@C.test(enum=_tamper, shards=8)
def every_alteration(case, T):
    kind, secret, msg, sig = case
    h = ref_hash.sha256(msg)
    r, s, recid = ref_ec.sign(secret, h)
    pub = private(secret).public_key
    pt = ref_ec.mul_g(secret)
    if kind == 'der':
        got = judge_der(pub, pt, sig, msg, h, {}, 'tampered DER')
        if sig != ref_ec.der(r, s):
            check(not got, 'altered signature verifies in the reference')
    else:
        judge_rec(pub, pt, sig, msg, h, {}, 'tampered recoverable')
        if sig != r.to_bytes(32, 'big') + s.to_bytes(32, 'big') + bytes([recid]):
            got = outcome(PublicKey.from_recoverable_signature, sig, msg)
            check(got[0] == 'raises' or got[1] != pub, 'altered signature recovers the signer')
    T.nontrivial()


@st.composite
def odd_signature(draw):
    secret = draw(gens.secret)
    msg, hasher = draw(msg_hasher)
    r, s, recid = ref_ec.sign(secret, hashed(msg, hasher))
    kind = draw(st.sampled_from(['high', 'range', 'swap', 'edit', 'loose', 'zero']))
    if kind == 'high':
        s, recid = N - s, recid ^ 1
    elif kind == 'range':
        r, s = draw(st.sampled_from([(r + N, s), (r, s + N), (N, s), (r, N), (N - 1, s), (r, N - 1),
                                     (2**256 - 1, s), (r, 2**256 - 1), (N + 1, N + 1)]))
        r, s = min(r, 2**256 - 1), min(s, 2**256 - 1)
    elif kind == 'swap':
        r, s = s, r
    elif kind == 'zero':
        r, s = draw(st.sampled_from([(0, s), (r, 0), (0, 0), (1, 1), (N - r, s)]))
    recid = draw(st.sampled_from([recid] * 4 + [0, 1, 2, 3, 4, 255]))
    der = ref_ec.der(r, s)
    rec = r.to_bytes(32, 'big') + s.to_bytes(32, 'big') + bytes([recid])
    if kind == 'edit':
        der = draw(gens.corrupt(st.just(der)))
        rec = draw(gens.corrupt(st.just(rec)))
    elif kind == 'loose':
        der = draw(gens.loose_der())
        rec = draw(st.binary(min_size=63, max_size=67))
    return secret, msg, hasher, der, rec, kind


@C.test(odd_signature(), quick=3000, shards=8)
def odd_signatures(case, T):
    secret, msg, hasher, der, rec, kind = case
    kw = args(hasher)
    h = hashed(msg, hasher)
    pub = private(secret).public_key
    pt = ref_ec.mul_g(secret)
    a = judge_der(pub, pt, der, msg, h, kw, kind)
    b = judge_rec(pub, pt, rec, msg, h, kw, kind)
    if kind == 'high':
        check(not a, 'high S verifies')
    T.label(kind, f'der {a}', f'rec {b}')
    T.nontrivial()


def _chosen_signatures(tier):
    '''Signatures of points and s with remarkable encodings.'''
    nonces = gens.edge_nonces()
    n = 0
    for R in nonces:
        for m in range(3 if tier == 'quick' else len(gens.edge_s)):
            yield R, gens.edge_s[n % len(gens.edge_s)], ref_hash.sha256(b'%d' % n)
            n += 1
    for s in gens.edge_s:
        for R in nonces[:5]:
            yield R, s, ref_hash.sha256(b'%d' % s)


@C.test(st.tuples(st.one_of(gens.edge_point, gens.secret.map(ref_ec.mul_g)),
                  st.one_of(st.sampled_from(gens.edge_s), gens.secret),
                  raw_hash), quick=1500, shards=8, enum=_chosen_signatures)
def chosen_signatures(case, T):
    '''Signatures with nonce point R and s for a hash; the key is what makes them right.'''
    R, s, h = case
    r = R[0] % N
    recid = (R[1] & 1) | (2 if R[0] >= N else 0)
    pt = ref_ec.recover(h, r, s, recid)
    if pt is None:
        pt = ref_ec.G
    pub = PublicKey.from_bytes(ref_ec.ser(pt, bool(h[0] & 1)))
    judge_der(pub, pt, ref_ec.der(r, s), h, h, {'hasher': None}, 'chosen DER')
    for i in (recid, recid ^ 1 + h[0] % 3):
        rec = r.to_bytes(32, 'big') + s.to_bytes(32, 'big') + bytes([i])
        judge_rec(pub, pt, rec, h, h, {'hasher': None}, 'chosen recoverable')
    twin = N - s
    judge_der(pub, pt, ref_ec.der(r, twin), h, h, {'hasher': None}, 'twin')
    T.label(f'recid {recid}', 'low s' if s <= N // 2 else 'high s')
    T.nontrivial()


@C.test(st.tuples(gens.secret, st.binary(max_size=80)), quick=300,
        enum=lambda tier: [(7, bytes(n)) for n in range(0, 100)])
def hash_sizes(case, T):
    '''Hashes that are not 32 bytes are refused, whoever computed them.'''
    secret, data = case
    key = private(secret)
    der, rec = key.sign(b'abc'), key.sign_recoverable(b'abc')
    pub = key.public_key
    cases = [(data, {'hasher': lambda m: hashlib.sha1(m).digest()}),
             (data, {'hasher': ref_hash.sha512}), (data, {'hasher': lambda m: b''})]
    if len(data) != 32:
        cases.append((data, {'hasher': None}))
    for msg, kw in cases:
        raises(ValueError, key.sign, msg, **kw)
        raises(ValueError, key.sign_recoverable, msg, **kw)
        raises(ValueError, pub.verify_der_signature, der, msg, **kw)
        raises(ValueError, pub.verify_recoverable_signature, rec, msg, **kw)
        raises(ValueError, PublicKey.from_recoverable_signature, rec, msg, **kw)
    T.nontrivial()


KINDS = ['sign', 'sign recoverable', 'verify', 'verify recoverable', 'recover']


def _histories(tier):
    for a, b in ((5, 77), (N - 2, 0xabcdef << 150)):
        for calls in kh.sweeps(KINDS):
            yield (a, b), calls
        # Every variant of a signature after every other, on one key
        for kind in KINDS[2:]:
            for form in (0, 3):
                yield (a, b), list(kh.pairs([(kind, 0, form, 0, 0, z) for z in range(5, 16)]))


@C.test(st.tuples(kh.ring, kh.history(KINDS)), quick=600, shards=8, enum=_histories)
def histories(case, T):
    '''Calls on kept keys: x the message, y the signer, z the variant of the signature.'''
    (a, b), calls = case
    ring = kh.Ring(a, b)
    msgs = [b'a message of more than a few bytes', b'a message of more than a few bytex',
            b'A message of more than a few bytes', b'']
    hashes = [ring.ref(ref_hash.sha256, m) for m in msgs]
    for n, (kind, i, form, x, y, z) in enumerate(calls):
        what = f'{kind} (call {n})'
        key, pub = ring.private(i, form), ring.public(i, form)
        msg, h = msgs[x], hashes[x]
        args = (h, None) if z & 1 else (msg,)
        r, s, recid = kh.variant(ring, ring.secrets[y], z, h, hashes[x ^ 1])
        if kind == 'sign':
            r, s, recid = ring.ref(ref_ec.sign, ring.secrets[i], h)
            check_eq(key.sign(*args), ref_ec.der(r, s), what)
        elif kind == 'sign recoverable':
            r, s, recid = ring.ref(ref_ec.sign, ring.secrets[i], h)
            check_eq(key.sign_recoverable(*args), kh.compact(r, s) + bytes([recid]), what)
        elif r >= N or s >= N:
            continue
        elif kind == 'verify':
            check_eq(pub.verify_der_signature(ref_ec.der(r, s), *args),
                     ring.ref(ref_ec.verify, ring.point(i), h, r, s), what)
        elif kind == 'verify recoverable':
            check_eq(pub.verify_recoverable_signature(kh.compact(r, s) + bytes([recid]), *args),
                     ring.ref(ref_ec.verify, ring.point(i), h, r, s), what)
        elif kind == 'recover':
            want = ring.ref(ref_ec.recover, h, r, s, recid)
            rec = kh.compact(r, s) + bytes([recid])
            if want is None:
                raises(InvalidSignatureError, PublicKey.from_recoverable_signature, rec, *args)
            else:
                got = PublicKey.from_recoverable_signature(rec, *args)
                check_eq(tuple(got.to_point()), want, what)
    T.label('length 2-6' if len(calls) < 7 else 'length 7-12' if len(calls) < 13 else 'sweep')
    T.nontrivial()
