from hypothesis import strategies as st

from bitcoinx import DecryptionError, PrivateKey, PublicKey
from vlib import gens, key_history as kh, ref_aes, ref_ec, ref_hash, ref_text
from vlib.core import Check, check, check_eq, outcome, raises

C = Check('C16', rule=(
    'Keys, messages of all block alignments (text and bytes), magics of all lengths incl. empty, '
    'both encodings; ciphertexts made by a reference ECIES with all padding and authentication '
    'defects; every byte of a ciphertext altered; arbitrary input. With and without the native '
    'cipher. Non-trivial: something was decrypted by the other implementation, or a damaged '
    'ciphertext was judged.'))

N = ref_ec.N


def private(secret, compressed=True):
    return PrivateKey(secret.to_bytes(32, 'big'), compressed)


def split_key(point):
    key = ref_hash.sha512(ref_ec.ser(point))
    return key[:16], key[16:32], key[32:]


def ref_encrypt(pt, eph, data, magic, padded=None):
    '''padded: raw plaintext blocks in place of the padded data.'''
    iv, key_e, key_m = split_key(ref_ec.mul(eph, pt))
    body = magic + ref_ec.ser(ref_ec.mul_g(eph)) + ref_aes.cbc_encrypt(
        key_e, iv, ref_aes.pad(data) if padded is None else padded)
    return body + ref_hash.hmac_sha256(key_m, body)


def ref_decrypt(secret, blob, magic):
    '''bytes, or None if it must be refused.'''
    if not blob.startswith(magic) or len(blob) < len(magic) + 81:
        return None
    pt = ref_ec.parse(blob[len(magic): len(magic) + 33])
    if pt is None:
        return None
    iv, key_e, key_m = split_key(ref_ec.mul(secret, pt))
    if ref_hash.hmac_sha256(key_m, blob[:-32]) != blob[-32:]:
        return None
    ciphertext = blob[len(magic) + 33: -32]
    if not ciphertext or len(ciphertext) % 16:
        return None
    return ref_aes.unpad(ref_aes.cbc_decrypt(key_e, iv, ciphertext))


text = st.text(st.characters(exclude_categories=('Cs',)), max_size=40)
message = st.one_of(text, st.binary(max_size=70), st.integers(0, 66).map(lambda n: b'm' * n),
                    st.integers(0, 40).map(lambda n: bytes([16]) * n))
magic = st.one_of(st.just(b'BIE1'), st.binary(max_size=8), st.just(b''), st.just(b'BIE2'))


def encrypt(pub, msg, mag):
    return pub.encrypt_message(msg) if mag == b'BIE1' else pub.encrypt_message(msg, mag)


def _both(test_strategy, **kwargs):
    '''Register for the native and the pure Python cipher.'''
    def deco(func):
        C.test(test_strategy, **kwargs)(func)

        def pure(case, T):
            func(case, T)
        pure.__name__ = func.__name__ + '_pure'
        more = dict(kwargs)
        more['quick'] = kwargs.get('quick', 0) // 3
        more['shards'] = max(1, kwargs.get('shards', 1) // 2)
        C.test(test_strategy, env={'VERIF_NO_NATIVE_AES': '1'}, **more)(pure)
        return func
    return deco


def _sizes(tier):
    for n in range(34, 301):
        yield (0xabcdef << 99) + n, n % 2 == 0, gens.pattern_bytes(n, n % 251), b'BIE1'
    for n in [*range(0, 100), 127, 128, 255, 256, 257, 1000]:
        yield (0xabcdef << 98) + n, n % 2 == 0, b'abc', gens.pattern_bytes(n, n % 251)


@_both(st.tuples(gens.secret, gens.bool_, message, magic), quick=800, shards=4, enum=_sizes, examples=[
    (9, c, bytes(n), b'BIE1') for c in (True, False) for n in range(34)])
def encryption(case, T):
    secret, compressed, msg, mag = case
    key = private(secret, compressed)
    data = msg.encode() if isinstance(msg, str) else msg
    pub = key.public_key
    blob = encrypt(pub, msg, mag)
    check(isinstance(blob, bytes), 'not bytes')
    check_eq(len(blob), len(mag) + 33 + len(ref_aes.pad(data)) + 32, 'ciphertext length')
    check_eq(ref_decrypt(secret, blob, mag), data, 'read by the reference')
    for pub2 in (pub.complement(), PublicKey.from_bytes(pub.to_bytes())):
        check_eq(ref_decrypt(secret, encrypt(pub2, msg, mag), mag), data, 'other form of the key')
    kw = {} if mag == b'BIE1' else {'magic': mag}
    for k in (key, private(secret, not compressed)):
        check_eq(k.decrypt_message(blob, **kw), data, 'decrypted')
        check_eq(k.decrypt_message(ref_text.b64_encode(blob), **kw), data, 'decrypted base64')
    b64 = pub.encrypt_message_to_base64(msg, **kw)
    decoded = ref_text.b64_decode(b64)
    check(isinstance(b64, str) and decoded and decoded[1], 'not base64: {}', b64)
    check_eq(ref_decrypt(secret, decoded[0], mag), data, 'base64 read by the reference')
    check_eq(key.decrypt_message(b64, **kw), data, 'base64 decrypted')
    # Every encryption uses a fresh ephemeral key
    check(len({blob[len(mag): len(mag) + 33], decoded[0][len(mag): len(mag) + 33],
               encrypt(pub, msg, mag)[len(mag): len(mag) + 33]}) == 3, 'ephemeral key reused')
    T.nontrivial()


@_both(st.tuples(gens.secret, gens.secret, st.binary(max_size=70), magic), quick=800, shards=4,
       examples=[(5, 7, bytes(n), b'BIE1') for n in range(34)])
def from_the_reference(case, T):
    secret, eph, data, mag = case
    pt = ref_ec.mul_g(secret)
    blob = ref_encrypt(pt, eph, data, mag)
    key = private(secret)
    check_eq(key.decrypt_message(blob, mag), data, 'decrypted')
    check_eq(key.decrypt_message(ref_text.b64_encode(blob), mag), data, 'decrypted base64')
    other = private(eph)
    if eph != secret:
        raises(DecryptionError, other.decrypt_message, blob, mag)
    raises(DecryptionError, private(secret + 1 if secret < N - 1 else 1).decrypt_message, blob,
           mag)
    for mag2 in (mag + b'x', mag[:-1], b'BIE2', b'', mag[::-1], blob[:len(mag) + 1]):
        if mag2 != mag:
            raises(DecryptionError, key.decrypt_message, blob, mag2)
    if mag != b'BIE1':
        raises(DecryptionError, key.decrypt_message, blob)
    T.nontrivial()


def _chosen_secrets(tier):
    for n, pt in enumerate(gens.edge_points()):
        yield pt, (3, N - 2, 0xabcdef << 150)[n % 3], bytes(n % 35), (b'BIE1', b'', b'xyz')[n % 3]
    for n in (255, 256, 1000, 4096, 65535, 65536, 70001):
        yield ref_ec.G, 0xabcdef << 150, bytes(n), b'BIE1'


@C.test(enum=lambda tier: [(n, k) for k, n in enumerate(
    gens.LARGE_SIZES[4::3] + (gens.HUGE_SIZES[1:3] if tier != 'quick' else []))], shards=2)
def large(case, T):
    '''Messages of up to megabytes.'''
    size, salt = case
    secret = 0x1234567 << 70 | salt
    key = private(secret)
    data = gens.pattern_bytes(size, salt)
    for mag in (b'BIE1', b'other magic'):
        blob = encrypt(key.public_key, data, mag)
        check(isinstance(blob, bytes) and blob.startswith(mag), 'magic')
        check_eq(len(blob), len(mag) + 33 + size + 16 - size % 16 + 32, 'ciphertext length')
        check_eq(key.decrypt_message(blob, mag), data, 'decrypted')
        pt = ref_ec.parse(blob[len(mag): len(mag) + 33])
        iv, key_e, key_m = split_key(ref_ec.mul(secret, pt))
        check_eq(ref_hash.hmac_sha256(key_m, blob[:-32]), blob[-32:], 'authentication')
        body = blob[len(mag) + 33: -32]
        padded = ref_aes.pad(data)
        for n in {0, 1, len(body) // 32, len(body) // 16 - 2, len(body) // 16 - 1}:
            prev = body[16 * n - 16: 16 * n] if n else iv
            check_eq(body[16 * n: 16 * n + 16],
                     ref_aes.cbc_encrypt(key_e, prev, padded[16 * n: 16 * n + 16]), f'block {n}')
        for n in (len(mag) + 40, len(blob) // 2, len(blob) - 40, len(blob) - 1):
            bad = bytearray(blob)
            bad[n] ^= 1
            raises(DecryptionError, key.decrypt_message, bytes(bad), mag)
        raises(DecryptionError, key.decrypt_message, blob[:-16], mag)
        raises(DecryptionError, key.decrypt_message, blob + b'\0', mag)
    b64 = key.public_key.encrypt_message_to_base64(data)
    check_eq(key.decrypt_message(b64), data, 'decrypted base64')
    T.nontrivial()


@_both(st.tuples(gens.edge_point, gens.secret, st.binary(max_size=70), magic), quick=300, shards=2,
       enum=_chosen_secrets)
def chosen_secrets(case, T):
    '''The point that both parties arrive at has remarkable coordinates.'''
    pt, secret, data, mag = case
    # As the receiver: the sender's ephemeral key times our secret is that point
    there = ref_ec.mul(pow(secret, -1, N), pt)
    iv, key_e, key_m = split_key(pt)
    body = mag + ref_ec.ser(there) + ref_aes.cbc_encrypt(key_e, iv, ref_aes.pad(data))
    blob = body + ref_hash.hmac_sha256(key_m, body)
    key = private(secret)
    check_eq(key.decrypt_message(blob, mag), data, 'decrypted')
    check_eq(key.decrypt_message(ref_text.b64_encode(blob), mag), data, 'decrypted base64')
    # As the sender, whose ephemeral key is known because it is drawn from os.urandom
    T.entropy.script(secret.to_bytes(32, 'big'))
    for compressed in (True, False):
        pub = PublicKey.from_bytes(ref_ec.ser(there, compressed))
        mine = outcome(encrypt, pub, data, mag)
        check(mine[0] == 'ok', 'got {}', mine)
        eph = mine[1][len(mag): len(mag) + 33]
        if eph == ref_ec.ser(ref_ec.mul_g(secret)):
            body = mag + eph + ref_aes.cbc_encrypt(key_e, iv, ref_aes.pad(data))
            check_eq(mine[1], body + ref_hash.hmac_sha256(key_m, body), 'encrypted')
            T.label('ephemeral key known')
    # Encryption to the point itself
    blob = encrypt(PublicKey.from_bytes(ref_ec.ser(pt)), data, mag)
    check_eq(len(blob), len(mag) + 33 + len(ref_aes.pad(data)) + 32, 'ciphertext length')
    T.nontrivial()


def _every_byte(tier):
    for n, size in enumerate((0, 15, 16, 33)[:2 if tier == 'quick' else 4]):
        secret, eph = 0x987654321 * (n + 5) ** 9, 0x1234567 * (n + 7) ** 8
        mag = b'BIE1' if n < 3 else b''
        blob = ref_encrypt(ref_ec.mul_g(secret), eph, bytes(range(size)), mag)
        for pos in range(len(blob)):
            for delta in (range(256) if tier == 'thorough' else (0, 1, 2, 0x10, 0x80, 0xff)):
                yield secret, mag, blob[:pos] + bytes([blob[pos] ^ delta]) + blob[pos + 1:]
            yield secret, mag, blob[:pos]
            yield secret, mag, blob[pos + 1:]
            yield secret, mag, blob[:pos] + blob[pos + 1:]
            yield secret, mag, blob[:pos] + b'\0' + blob[pos:]
        for k in range(1, 33):
            yield secret, mag, blob + bytes(k)
            yield secret, mag, blob + blob[-k:]
            yield secret, mag, blob[:-32] + bytes(32 - k) + blob[-k:]
            yield secret, mag, blob[:-k] + bytes(k)


def judge(secret, mag, blob, T):
    want = ref_decrypt(secret, blob, mag)
    key = private(secret)
    for form in (blob, ref_text.b64_encode(blob)):
        if want is None:
            raises(DecryptionError, key.decrypt_message, form, mag)
        else:
            check_eq(key.decrypt_message(form, mag), want, 'decrypted')
    T.label('refused' if want is None else 'accepted')


@_both(None, enum=_every_byte, shards=4)
def every_byte(case, T):
    judge(*case, T)
    T.nontrivial()


@st.composite
def defective(draw):
    '''Correctly authenticated ciphertexts of odd plaintexts, and other damage.'''
    secret, eph = draw(gens.secret), draw(gens.secret)
    mag = draw(magic)
    pt = ref_ec.mul_g(secret)
    kind = draw(st.sampled_from(['padding', 'padding', 'length', 'corrupt', 'splice', 'key',
                                 'hmac']))
    if kind == 'padding':
        blocks = draw(st.integers(1, 3))
        last = draw(st.integers(0, 18))
        tail = bytes([draw(st.one_of(st.just(last), gens.byte))]) * min(last, 16)
        raw = draw(st.binary(min_size=16 * blocks, max_size=16 * blocks))
        raw = (raw + tail)[-16 * blocks:]
        raw = raw[:-1] + bytes([last])
        return secret, mag, ref_encrypt(pt, eph, b'', mag, raw)
    if kind == 'length':
        iv, key_e, key_m = split_key(ref_ec.mul(eph, pt))
        text = draw(st.binary(max_size=50))
        if draw(st.booleans()):
            # Good blocks with a few bytes more, or fewer
            text = ref_aes.cbc_encrypt(key_e, iv, ref_aes.pad(text))
            cut = draw(st.integers(1, 15))
            text = draw(st.sampled_from([text[:-cut], text[cut:], text + bytes(cut),
                                         text + text[:cut], bytes(cut) + text]))
        body = mag + ref_ec.ser(ref_ec.mul_g(eph)) + text
        return secret, mag, body + ref_hash.hmac_sha256(key_m, body)
    blob = ref_encrypt(pt, eph, draw(st.binary(max_size=40)), mag)
    if kind == 'corrupt':
        return secret, mag, draw(gens.corrupt(st.just(blob)))
    if kind == 'splice':
        other = ref_encrypt(pt, draw(gens.secret), draw(st.binary(max_size=40)), mag)
        n = draw(st.integers(0, len(blob)))
        return secret, mag, blob[:n] + other[n:]
    if kind == 'key':
        n = len(mag)
        bad = draw(st.one_of(st.binary(min_size=33, max_size=33), st.binary(
            min_size=32, max_size=32).map(lambda b: b'\2' + b), st.just(
            bytes([blob[n] ^ 1]) + blob[n + 1:n + 33]), st.just(b'\2' + b'\xff' * 32)))
        return secret, mag, blob[:n] + bad + blob[n + 33:]
    return secret, mag, blob[:-32] + draw(st.binary(min_size=32, max_size=32))


@_both(defective(), quick=1200, shards=4)
def defects(case, T):
    judge(*case, T)
    T.nontrivial()


@C.test(st.tuples(gens.secret, magic, st.one_of(
    st.binary(max_size=140), st.text(max_size=120), st.text(ref_text.B64 + '=', max_size=200))),
        quick=3000, shards=2, examples=[(5, b'BIE1', v) for v in (
            '', b'', 'é', '\ud800', 'BIE1', '=', '====', 'A', b'BIE1' + bytes(200))])
def arbitrary(case, T):
    secret, mag, value = case
    key = private(secret)
    if isinstance(value, bytes):
        check(ref_decrypt(secret, value, mag) is None, 'lucky case')
    raises(DecryptionError, key.decrypt_message, value, mag)
    T.nontrivial()


@C.test(st.tuples(gens.secret, gens.secret, st.binary(max_size=40), st.lists(
    st.tuples(st.integers(0, 400), st.one_of(st.sampled_from(ref_text.B64 + '=-_ \n\0'),
                                             st.characters()),
              st.sampled_from(['set', 'ins', 'del'])), min_size=1, max_size=2)), quick=2000,
        shards=4)
def damaged_text(case, T):
    secret, eph, data, edits = case
    blob = ref_encrypt(ref_ec.mul_g(secret), eph, data, b'BIE1')
    chars = list(ref_text.b64_encode(blob))
    for pos, c, how in edits:
        pos %= len(chars)
        if how == 'set':
            chars[pos] = c
        elif how == 'ins':
            chars.insert(pos, c)
        else:
            del chars[pos]
    judge_text(secret, ''.join(chars), T)


@C.test(enum=lambda tier: [(0x1234567 << 64, form) for form in gens.decorations(
    ref_text.b64_encode(ref_encrypt(ref_ec.mul_g(0x1234567 << 64), 0x77777 << 100, b'some text',
                                    b'BIE1')))], shards=2)
def decorated_text(case, T):
    judge_text(*case, T)


def judge_text(secret, text, T):
    decoded = ref_text.b64_decode(text)
    key = private(secret)
    want = ref_decrypt(secret, decoded[0], b'BIE1') if decoded else None
    got = outcome(key.decrypt_message, text)
    if want is None:
        check(got[0] == 'raises' and isinstance(got[1], DecryptionError), 'got {}', got)
        T.nontrivial()
    elif decoded[1]:
        check_eq(got, ('ok', want), 'decrypted')
    else:
        # Unused base64 bits set: either reading is fine
        check(got == ('ok', want) or isinstance(got[1], DecryptionError), 'got {}', got)


KINDS = ['encrypt', 'decrypt', 'decrypt text']


def _histories(tier):
    for a, b in ((5, 77), (N - 2, 0xabcdef << 150)):
        for calls in kh.sweeps(KINDS):
            yield (a, b), calls
        for form in (0, 3):
            yield (a, b), list(kh.pairs([('decrypt', 0, form, 0, 0, z) for z in range(16)]))


@_both(st.tuples(kh.ring, kh.history(KINDS)), quick=500, shards=4, enum=_histories)
def histories(case, T):
    '''Calls on kept keys: x the message, y the recipient, z the defect of the ciphertext.'''
    (a, b), calls = case
    ring = kh.Ring(a, b)
    msgs = [b'a message of more than a block', b'a message of more than a blocc', b'', bytes(16)]
    magics = [b'BIE1', b'BIE2', b'BIE1', b'']
    for n, (kind, i, form, x, y, z) in enumerate(calls):
        what = f'{kind} (call {n})'
        key, pub, secret = ring.private(i, form), ring.public(i, form), ring.secrets[i]
        msg, mag = msgs[x], magics[z % 4]
        if kind == 'encrypt':
            blob = encrypt(pub, msg, mag)
            check_eq(ref_decrypt(secret, blob, mag), msg, what)
            continue
        # Two ephemeral keys, one the negation of the other
        eph = 9 if z < 8 else N - 9
        blob = ring.ref(ref_encrypt, ring.point(y), eph, msg, mag)
        if z % 8 > 3:
            m = len(mag)
            at = [m, m + 32, m + 33, -34, -33, -32, -1, m + 34][(x + form + z) % 8] % len(blob)
            blob = kh.near(blob, 8 * at + (x + y) % 8)
        want = ring.ref(ref_decrypt, secret, blob, mag)
        form = ref_text.b64_encode(blob) if kind == 'decrypt text' else blob
        if want is None:
            raises(DecryptionError, key.decrypt_message, form, mag)
        else:
            check_eq(key.decrypt_message(form, mag), want, what)
    T.label('length 2-6' if len(calls) < 7 else 'length 7-12' if len(calls) < 13 else 'sweep')
    T.nontrivial()
