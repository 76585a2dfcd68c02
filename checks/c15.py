import hashlib

from hypothesis import strategies as st

from bitcoinx import P2PKH_Address, PrivateKey, PublicKey
from bitcoinx.signature import InvalidSignatureError
from vlib import gens, key_history as kh, ref_ec, ref_hash, ref_text, ref_tx
from vlib.core import Check, check, check_eq, outcome, raises
from vlib.util import coin as get_coin

C = Check('C15', rule=(
    'Keys, messages of every varint length class (text and bytes), both encodings of signatures, '
    'hashers, addresses of all coins; headers 0-255, every-byte alterations, high S, out-of-range '
    'r and s, base64 damage and arbitrary text; against a reference signer and verifier. '
    'Non-trivial: a signature was compared, or an altered one judged.'))

N = ref_ec.N
# Messages whose signature by the secret 7 has zero bytes in front of r, s or both
SHORT = [604623, 611711, 633337]
HASHERS = {'default': None, 'sha256': ref_hash.sha256,
           'sha512_half': lambda m: hashlib.sha512(m).digest()[:32]}


def private(secret, compressed=True):
    return PrivateKey(secret.to_bytes(32, 'big'), compressed)


def kwargs(hasher):
    return {} if hasher == 'default' else {'hasher': HASHERS[hasher]}


def digest(msg, hasher):
    if isinstance(msg, str):
        msg = msg.encode('utf-8')
    data = b'\x18Bitcoin Signed Message:\n' + ref_tx.varint(len(msg)) + msg
    return (HASHERS[hasher] or ref_hash.dsha)(data)


def ref_sign(secret, compressed, msg, hasher='default'):
    r, s, recid = ref_ec.sign(secret, digest(msg, hasher))
    return bytes([27 + recid + (4 if compressed else 0)]) + r.to_bytes(32, 'big') + s.to_bytes(
        32, 'big')


text = st.text(st.characters(exclude_categories=('Cs',)), max_size=30)
message = gens.weighted(
    (3, text), (3, st.binary(max_size=60)), (2, gens.sized_data(big=False)),
    (1, st.tuples(st.sampled_from([252, 253, 254, 255, 256, 65535, 65536]), st.booleans()).map(
        lambda t: 'a' * t[0] if t[1] else b'\xfe' * t[0])),
    (1, st.sampled_from([84, 85, 126, 127]).map(lambda n: 'é€' * n)))
hasher = st.sampled_from(['default', 'default', 'default', 'sha256', 'sha512_half'])


def address_text(h, version):
    return ref_text.b58check_encode(bytes([version]) + h)


@C.test(st.tuples(gens.secret, gens.bool_, message, hasher), quick=700, shards=8, examples=[
    *((7, bool(n & 1), b'short %d' % n, 'default') for n in SHORT),
    (5, True, '', 'default'), (N - 1, False, b'', 'default'), (7, True, 'a' * 70000, 'default'),
    (7, True, b'\0' * 252, 'default'), (7, True, b'\0' * 253, 'default')])
def signing(case, T):
    secret, compressed, msg, hname = case
    kw = kwargs(hname)
    key = private(secret, compressed)
    want = ref_sign(secret, compressed, msg, hname)
    sig = key.sign_message(msg, **kw)
    check_eq(sig, want, 'signature')
    b64 = key.sign_message_to_base64(msg, **kw)
    check_eq(b64, ref_text.b64_encode(want), 'base64 signature')
    pt = ref_ec.mul_g(secret)
    hashes = [ref_hash.hash160(ref_ec.ser(pt, c)) for c in (True, False)]
    twin = msg.encode() if isinstance(msg, str) else msg
    for s in (sig, b64):
        for m in (msg, twin):
            for k in (key.public_key, key.public_key.complement()):
                check(k.verify_message(s, m, **kw) is True, 'does not verify')
            got = PublicKey.from_signed_message(s, m, **kw)
            check_eq(tuple(got.to_point()), pt, 'recovered key')
            for h in hashes:
                for version in (0, 0x6f):
                    check(PublicKey.verify_message_and_address(
                        s, m, address_text(h, version), **kw) is True, 'address text')
        for h in hashes:
            for cn in range(4):
                check(PublicKey.verify_message_and_address(
                    s, msg, P2PKH_Address(h, get_coin(cn)), **kw) is True, 'address')
    T.label(hname, 'text' if isinstance(msg, str) else 'bytes')
    T.nontrivial()


@C.test(enum=lambda tier: [*range(1, 301), *gens.LARGE_SIZES], shards=8)
def long_messages(size, T):
    secret = 0xfedcba9876543 << 99 | size
    key = private(secret)
    data = gens.pattern_bytes(size, size % 251)
    for msg in (data, '\u00e9' * (size // 2) + 'x'):
        sig = key.sign_message(msg)
        check_eq(sig, ref_sign(secret, True, msg), 'signature')
        address = address_text(ref_hash.hash160(ref_ec.ser(ref_ec.mul_g(secret))), 0)
        tail = b'y' if isinstance(msg, bytes) else 'y'
        for other in (msg, msg[:-1], msg + tail, msg[:-1] + tail, tail + msg[1:],
                      msg[:size // 3] + tail + msg[size // 3 + 1:]):
            check_eq(key.public_key.verify_message(sig, other), other == msg, 'verification')
            check_eq(PublicKey.verify_message_and_address(sig, other, address), other == msg,
                     'verification with the address')
    T.nontrivial()


@C.test(st.tuples(gens.secret, gens.secret, message, message, gens.bool_, gens.hash20), quick=400,
        shards=4)
def others(case, T):
    a, b, msg, msg2, compressed, h = case
    key, other = private(a, compressed), private(b, compressed)
    sig = key.sign_message(msg)
    b64 = key.sign_message_to_base64(msg)
    z = int.from_bytes(digest(msg, 'default'), 'big') % N
    hashes = [ref_hash.hash160(ref_ec.ser(ref_ec.mul_g(a), c)) for c in (True, False)]
    for s in (sig, b64):
        if a != b and z:
            check(other.public_key.verify_message(s, msg) is False, 'other key')
            for c in (True, False):
                for form in (other.public_key.to_address(compressed=c),
                             other.public_key.to_address(compressed=c).to_string()):
                    check(PublicKey.verify_message_and_address(s, msg, form) is False,
                          'address of another key')
        if h not in hashes:
            for form in (P2PKH_Address(h, get_coin(0)), address_text(h, 0)):
                check(PublicKey.verify_message_and_address(s, msg, form) is False, 'other address')
        for n in (0, 10, 19):
            near = hashes[0][:n] + bytes([hashes[0][n] ^ 1]) + hashes[0][n + 1:]
            check(PublicKey.verify_message_and_address(s, msg, address_text(near, 0)) is False,
                  'near address')
        if digest(msg, 'default') != digest(msg2, 'default'):
            check(key.public_key.verify_message(s, msg2) is False, 'other message')
            for h2 in hashes:
                check(PublicKey.verify_message_and_address(
                    s, msg2, address_text(h2, 0)) is False, 'other message')
            got = outcome(PublicKey.from_signed_message, s, msg2)
            check(got[0] == 'ok' and got[1] != key.public_key, 'other message, same key')
    T.nontrivial()


def ref_meaning(sig, h):
    '''(recovered point, r, s) or None if malformed.'''
    if not isinstance(sig, bytes) or len(sig) != 65 or not 27 <= sig[0] <= 34:
        return None
    r, s = int.from_bytes(sig[1:33], 'big'), int.from_bytes(sig[33:], 'big')
    if r >= N or s >= N:
        return None
    return ref_ec.recover(h, r, s, (sig[0] - 27) & 3), r, s


def judge(sig, raw, secret, msg, T):
    '''sig is the form passed, raw the bytes it denotes or None.'''
    h = digest(msg, 'default')
    key = private(secret)
    pt = ref_ec.mul_g(secret)
    hashes = [ref_hash.hash160(ref_ec.ser(pt, c)) for c in (True, False)]
    meaning = ref_meaning(raw, h)
    addresses = [P2PKH_Address(hashes[0], get_coin(0)), address_text(hashes[1], 0)]
    if meaning is None:
        T.label('malformed')
        raises(InvalidSignatureError, key.public_key.verify_message, sig, msg)
        raises(InvalidSignatureError, PublicKey.from_signed_message, sig, msg)
        for a in addresses:
            check(PublicKey.verify_message_and_address(sig, msg, a) is False,
                  'malformed signature accepted for an address')
        return
    rec, r, s = meaning
    verifies = ref_ec.verify(pt, h, r, s)
    check(key.public_key.verify_message(sig, msg) is verifies, 'verify_message is not {}',
          verifies)
    if rec is None:
        T.label('not recoverable')
        raises(InvalidSignatureError, PublicKey.from_signed_message, sig, msg)
    else:
        check_eq(tuple(PublicKey.from_signed_message(sig, msg).to_point()), rec, 'recovered')
    for a in addresses:
        check(PublicKey.verify_message_and_address(sig, msg, a) is (verifies and rec == pt),
              'verify_message_and_address')
    if rec is not None:
        rhash = ref_hash.hash160(ref_ec.ser(rec))
        check(PublicKey.verify_message_and_address(sig, msg, address_text(rhash, 5 and 0)) is
              ref_ec.verify(rec, h, r, s), 'address of the recovered key')
    T.label('verifies' if verifies else 'does not verify')


def _alterations(tier):
    for n in range(2 if tier == 'quick' else 6):
        secret = 0x1234567 * (n + 3) ** 11
        msg = f'message {n}'
        sig = ref_sign(secret, bool(n & 1), msg)
        for v in range(256):
            yield secret, msg, bytes([v]) + sig[1:]
        for pos in range(65):
            for bit in range(0, 8, 1 if tier == 'thorough' else 3):
                yield secret, msg, sig[:pos] + bytes([sig[pos] ^ 1 << bit]) + sig[pos + 1:]
            yield secret, msg, sig[:pos]
        for tail in (b'\0', b'\1\2'):
            yield secret, msg, sig + tail
        r, s = int.from_bytes(sig[1:33], 'big'), int.from_bytes(sig[33:], 'big')
        for head in range(27, 35):
            for rr, ss in ((r, N - s), (0, s), (r, 0), (N, s), (r, N), (2**256 - 1, s),
                           (r, 2**256 - 1), (1, 1), (5, s), (N - 1, s), (r, 1),
                           (ref_ec.P - N - 1, s), (ref_ec.P - N, s)):
                yield (secret, msg, bytes([head]) + rr.to_bytes(32, 'big')
                       + ss.to_bytes(32, 'big'))


    for n, R in enumerate(gens.edge_nonces() * (1 if tier == 'quick' else 5)):
        for s in (gens.edge_s[n % len(gens.edge_s)], gens.edge_s[-1 - n % len(gens.edge_s)]):
            head = 27 + (R[1] & 1) + (2 if R[0] >= N else 0) + (4 if n % 3 else 0)
            yield (11, f'message {n}', bytes([head]) + (R[0] % N).to_bytes(32, 'big')
                   + s.to_bytes(32, 'big'))
    for n in SHORT:
        for compressed in (True, False):
            msg = b'short %d' % n
            yield 7, msg, ref_sign(7, compressed, msg)


@C.test(enum=_alterations, shards=8)
def alterations(case, T):
    secret, msg, sig = case
    judge(sig, sig, secret, msg, T)
    judge(ref_text.b64_encode(sig), sig, secret, msg, T)
    T.nontrivial()


@st.composite
def damaged(draw):
    secret = draw(gens.secret)
    msg = draw(st.one_of(text, st.binary(max_size=20)))
    sig = ref_sign(secret, draw(gens.bool_), msg)
    kind = draw(st.sampled_from(['bytes', 'b64', 'b64', 'b64', 'text', 'sized', 'wrap']))
    if kind == 'bytes':
        return secret, msg, draw(gens.corrupt(st.just(sig)))
    if kind == 'sized':
        return secret, msg, ref_text.b64_encode(draw(st.binary(max_size=70)))
    if kind == 'text':
        return secret, msg, draw(st.one_of(
            st.text(max_size=90), st.text(ref_text.B64, max_size=90),
            st.text(ref_text.B64, min_size=87, max_size=87).map(lambda t: t + '=')))
    chars = list(ref_text.b64_encode(sig))
    if kind == 'wrap':
        chars = draw(st.sampled_from([chars + ['\n'], [' '] + chars, chars[:40] + ['\n'] + chars[
            40:], chars + ['='], chars + chars, chars[:-1], chars + ['A'], ['='] + chars,
            chars + ['\u20ac'], ['\ud800'] + chars, chars + ['\0']]))
        return secret, msg, ''.join(chars)
    for _ in range(draw(st.integers(1, 2))):
        n = draw(st.integers(0, len(chars) - 1))
        c = draw(st.one_of(st.sampled_from(ref_text.B64 + '=-_ \n\0'), st.characters()))
        how = draw(st.sampled_from(['set', 'set', 'ins', 'del']))
        if how == 'set':
            chars[n] = c
        elif how == 'ins':
            chars.insert(n, c)
        else:
            del chars[n]
    return secret, msg, ''.join(chars)


def _decorated(tier):
    secret = 0x123456789abcdef << 99
    for msg in ('', 'text'):
        for form in gens.decorations(ref_text.b64_encode(ref_sign(secret, True, msg))):
            yield secret, msg, form


@C.test(damaged(), quick=1600, shards=8, enum=_decorated, examples=[
    (5, 'x', ''), (5, 'x', b''), (5, 'x', 'é'), (5, 'x', '\ud800'), (5, b'', '='), (5, b'', '====')])
def damaged_signatures(case, T):
    secret, msg, sig = case
    if isinstance(sig, bytes):
        judge(sig, sig, secret, msg, T)
    else:
        decoded = ref_text.b64_decode(sig)
        if decoded and not decoded[1]:
            # Unused bits set: either reading of base64 is fine
            got = outcome(PublicKey.from_signed_message, sig, msg)
            check(got[0] == 'ok' or isinstance(got[1], InvalidSignatureError), '{}', got)
            return
        judge(sig, decoded[0] if decoded else None, secret, msg, T)
    T.nontrivial()


@C.test(st.tuples(gens.secret, message), quick=60)
def no_hasher(case, T):
    secret, msg = case
    key = private(secret)
    sig = key.sign_message(msg)
    raises(ValueError, key.sign_message, msg, None)
    raises(ValueError, key.public_key.verify_message, sig, msg, None)
    raises(ValueError, PublicKey.from_signed_message, sig, msg, None)
    T.nontrivial()


KINDS = ['sign', 'verify', 'recover', 'address', 'address object']


def _histories(tier):
    for a, b in ((5, 77), (N - 2, 0xabcdef << 150)):
        for calls in kh.sweeps(KINDS):
            yield (a, b), calls
        for kind in KINDS[1:]:
            for form in (0, 3):
                yield (a, b), list(kh.pairs([(kind, 0, form, 0, 0, z) for z in range(5, 16)]))


@C.test(st.tuples(kh.ring, kh.history(KINDS)), quick=500, shards=8, enum=_histories)
def histories(case, T):
    '''Calls on kept keys: x the message, y the signer, z the variant of the signature.'''
    (a, b), calls = case
    ring = kh.Ring(a, b)
    msgs = ['a message of more than a few letters', b'a message of more than a few letterz',
            'A message of more than a few letters', b'']
    hashes = [ring.ref(digest, m, 'default') for m in msgs]
    for n, (kind, i, form, x, y, z) in enumerate(calls):
        what = f'{kind} (call {n})'
        key, pub = ring.private(i, form), ring.public(i, form)
        msg, h = msgs[x], hashes[x]
        if kind == 'sign':
            want = ref_sign(ring.secrets[i], not form & 1, msg)
            if z & 1:
                check_eq(key.sign_message_to_base64(msg), ref_text.b64_encode(want), what)
            else:
                check_eq(key.sign_message(msg), want, what)
            continue
        r, s, recid = kh.variant(ring, ring.secrets[y], z, h, hashes[x ^ 1])
        if r >= N or s >= N:
            continue
        sig = bytes([27 + recid + (z & 4)]) + kh.compact(r, s)
        if z & 1:
            sig = ref_text.b64_encode(sig)
        good = ring.ref(ref_ec.verify, ring.point(i), h, r, s)
        signer = ring.ref(ref_ec.recover, h, r, s, recid)
        if kind == 'verify':
            check_eq(pub.verify_message(sig, msg), good, what)
        elif kind == 'recover':
            if signer is None:
                raises(InvalidSignatureError, PublicKey.from_signed_message, sig, msg)
            else:
                got = PublicKey.from_signed_message(sig, msg)
                check_eq(tuple(got.to_point()), signer, what)
        else:
            if kind == 'address':
                hash160 = ring.ref(ref_hash.hash160, ref_ec.ser(ring.point(i), not form & 1))
                to = address_text(hash160, 0 if form & 2 else 0x6f)
            else:
                key = 'address', i, form
                if key not in ring.objects:
                    ring.objects[key] = pub.to_address()
                to = ring.objects[key]
            want = signer == ring.point(i) and good
            check_eq(PublicKey.verify_message_and_address(sig, msg, to), want, what)
    T.label('length 2-6' if len(calls) < 7 else 'length 7-12' if len(calls) < 13 else 'sweep')
    T.nontrivial()


@C.test(st.tuples(gens.secret, st.binary(max_size=4), st.binary(max_size=3)), quick=200, enum=lambda tier: [
    (5, head, tail) for head in (b'', b'\0\0', b'\0\1\2', b'\x6f\0', b'\0' * 4)
    for tail in (b'', b'\0', b'\1')])
def odd_payloads(case, T):
    '''Base58Check text that holds more or less than the hash is no address.'''
    secret, head, tail = case
    if (len(head), len(tail)) == (1, 0):
        return
    sig = ref_sign(secret, True, 'text')
    h = ref_hash.hash160(ref_ec.ser(ref_ec.mul_g(secret)))
    for payload in (head + h + tail, head + h[1:], head + h[:-1]):
        if len(payload) == 21 and payload[1:] == h:
            continue
        got = outcome(PublicKey.verify_message_and_address, sig, 'text',
                      ref_text.b58check_encode(payload))
        check(got[0] == 'raises' or got[1] is False, 'odd payload: got {}', got)
    T.nontrivial()
