from hypothesis import strategies as st

from bitcoinx import (
    Bitcoin, BitcoinTestnet, P2PKH_Address, PrivateKey, PublicKey, is_minikey,
)
from vlib import gens, ref_ec, ref_hash, ref_text
from vlib.core import Check, check, check_eq, outcome, raises
from vlib.util import coin as get_coin

C = Check('C12', rule=(
    'Secrets over the whole range with edges of representations and of the curve order, all coins '
    'and compressions, every textual form; corrupted, truncated and out-of-range forms; minikeys; '
    'random sources that yield out-of-range draws. Against reference point arithmetic. '
    'Non-trivial: a key was built and compared, or a form one edit away from a valid one was '
    'judged.'))

N, P = ref_ec.N, ref_ec.P
VALID_ERRORS = (ValueError, TypeError, OverflowError)
secret32 = gens.any_int256.map(lambda v: v.to_bytes(32, 'big'))


def judge_private(key, secret, compressed, coin, what, full=True):
    check(isinstance(key, PrivateKey), '{}: not a private key', what)
    raw = secret.to_bytes(32, 'big')
    check_eq(key.to_bytes(), raw, what + ': to_bytes')
    check_eq(key.to_int(), secret, what + ': to_int')
    check_eq(key.to_hex(), raw.hex(), what + ': to_hex')
    check_eq(bool(key.is_compressed()), compressed, what + ': is_compressed')
    check(key.coin() is coin, '{}: coin {}', what, key.coin().name)
    check(raw.hex() not in str(key), 'str shows the secret')
    if full:
        pub = key.public_key
        check(isinstance(pub, PublicKey), 'public key')
        check_eq(pub.to_bytes(), ref_ec.ser(ref_ec.mul_g(secret), compressed),
                 what + ': public key')
        check_eq(bool(pub.is_compressed()), compressed, what + ': public key compression')
        check(pub.coin() is coin, '{}: public key coin', what)


def wif_byte(coin):
    return 0x80 if coin is Bitcoin else 0xef


def _edges(_tier):
    for s in gens.edge_secrets + [1 << n for n in range(0, 256, 8)]:
        if 1 <= s < N:
            yield s, True, 0, False, 1
            yield s, False, 1, True, 0


@C.test(st.tuples(gens.secret, gens.bool_, gens.coin_index, gens.bool_, gens.coin_index),
        quick=1200, shards=4, enum=_edges)
def private_round_trips(case, T):
    secret, compressed, cn, comp2, cn2 = case
    coin, coin2 = get_coin(cn), get_coin(cn2)
    raw = secret.to_bytes(32, 'big')
    judge_private(PrivateKey(raw), secret, True, Bitcoin, 'default')
    key = PrivateKey(raw, compressed, coin)
    judge_private(key, secret, compressed, coin, 'constructor')
    judge_private(PrivateKey.from_int(key.to_int()), secret, True, Bitcoin, 'from_int', False)
    judge_private(PrivateKey.from_hex(key.to_hex()), secret, True, Bitcoin, 'from_hex', False)
    judge_private(PrivateKey.from_text(key.to_hex()), secret, True, Bitcoin, 'text hex', False)
    judge_private(PrivateKey.from_hex(key.to_hex().upper()), secret, True, Bitcoin, 'HEX', False)

    def wif_text(c, k):
        return ref_text.b58check_encode(bytes([wif_byte(k)]) + raw + (b'\1' if c else b''))
    for text, c, k in (
            (key.to_WIF(), compressed, coin), (key.to_WIF(compressed=comp2), comp2, coin),
            (key.to_WIF(coin=coin2), compressed, coin2),
            (key.to_WIF(compressed=comp2, coin=coin2), comp2, coin2)):
        check_eq(text, wif_text(c, k), 'WIF')
        first = Bitcoin if wif_byte(k) == 0x80 else BitcoinTestnet
        for back, what in ((PrivateKey.from_WIF(text), 'from_WIF'),
                           (PrivateKey.from_text(text), 'from_text WIF')):
            check_eq(back.coin().WIF_byte, wif_byte(k), what + ': coin')
            judge_private(back, secret, c, back.coin(), what, False)
            check_eq(back.to_WIF(), text, what + ' back')
            check(back == key and hash(back) == hash(key), 'not equal')
        T.label(f'WIF {first.name} {c}')
    T.nontrivial()


def _range(_tier):
    for base in (0, N, 1 << 256, 1 << 255, 1 << 248):
        for d in range(-5, 6):
            if 0 <= base + d < 1 << 256:
                yield base + d


@C.test(gens.any_int256, quick=3000, enum=_range)
def private_range(value, T):
    raw = value.to_bytes(32, 'big')
    forms = [(PrivateKey, raw), (PrivateKey.from_hex, raw.hex()), (PrivateKey.from_int, value),
             (PrivateKey.from_text, raw.hex()),
             (PrivateKey.from_WIF, ref_text.b58check_encode(b'\x80' + raw)),
             (PrivateKey.from_WIF, ref_text.b58check_encode(b'\xef' + raw + b'\1')),
             (PrivateKey.from_text, ref_text.b58check_encode(b'\x80' + raw + b'\1'))]
    for func, arg in forms:
        if 1 <= value < N:
            check_eq(func(arg).to_int(), value, 'secret')
        else:
            raises(ValueError, func, arg)
    T.label('valid' if 1 <= value < N else 'out of range')
    # Any bytes reduced modulo the order
    for data in (raw, raw + b'\0', b'\xff' * 9 + raw):
        want = int.from_bytes(data, 'big') % N
        if want:
            check_eq(PrivateKey.from_arbitrary_bytes(data).to_int(), want, 'arbitrary bytes')
        else:
            raises(ValueError, PrivateKey.from_arbitrary_bytes, data)
    T.nontrivial()


def _arbitrary(tier):
    for n in [*range(1, 301), 1000, 4096]:
        for raw in (b'\xff' * n, gens.pattern_bytes(n, 7), b'\1' + bytes(n - 1),
                    b'\x80' + bytes(n - 1), bytes(n - 1) + b'\1', bytes(n)):
            yield raw
    # Multiples of the order and their neighbours
    for k in (1, 2, 3, 255, 256, 1 << 128, 1 << 256, N, N + 1, N ** 3, 1 << 1000):
        for d in (-1, 0, 1):
            value = k * N + d
            yield value.to_bytes((value.bit_length() + 7) // 8, 'big')


@C.test(st.one_of(st.binary(min_size=1, max_size=150), st.binary(min_size=33, max_size=100)),
        quick=1000, enum=_arbitrary)
def arbitrary_bytes(data, T):
    want = 0
    for b in data:
        want = (want * 256 + b) % N
    for raw in (data, bytes(3) + data):
        if want:
            judge_private(PrivateKey.from_arbitrary_bytes(raw), want, True, Bitcoin,
                          f'{len(raw)} arbitrary bytes', len(raw) == 64)
        else:
            raises(ValueError, PrivateKey.from_arbitrary_bytes, raw)
    T.nontrivial()


@C.test(st.one_of(st.binary(max_size=70), st.sampled_from([0, 31, 33, 64]).flatmap(
    lambda n: st.binary(min_size=n, max_size=n))), quick=800,
        examples=[b'\1' * n for n in range(70)])
def private_sizes(data, T):
    if len(data) != 32:
        raises(ValueError, PrivateKey, data)
        raises(ValueError, PrivateKey.from_hex, data.hex())
    for bad in (data.hex(), None, 1):
        raises(VALID_ERRORS, PrivateKey, bad)
    raises(VALID_ERRORS, PrivateKey.from_int, -1 - len(data))
    raises(VALID_ERRORS, PrivateKey.from_int, 1 << (256 + len(data)))
    T.nontrivial()


@st.composite
def wif_like(draw):
    version = draw(st.one_of(st.sampled_from([0x80, 0xef, 0x80, 0xef, 0, 0x6f, 0x81, 0xb0]),
                             gens.byte))
    secret = draw(secret32)
    tail = draw(st.one_of(st.sampled_from([b'', b'\1', b'', b'\1', b'\0', b'\2', b'\x81', b'\1\1',
                                           b'\0\1', b'\xff']), st.binary(max_size=3)))
    payload = bytes([version]) + secret + tail
    how = draw(st.sampled_from(['ok', 'ok', 'ok', 'cut', 'edit', 'space', 'short']))
    if how == 'cut':
        payload = payload[:draw(st.integers(0, len(payload)))]
    elif how == 'short':
        payload = bytes([version]) + secret[:31]
    text = ref_text.b58check_encode(payload)
    if how == 'edit':
        n = draw(st.integers(0, len(text) - 1))
        text = text[:n] + draw(st.sampled_from(ref_text.B58 + '0OIl ')) + text[n + 1:]
    elif how == 'space':
        text = draw(st.sampled_from([' ' + text, text + '\n', text + ' ']))
    return text


def wif_value(text):
    raw = ref_text.b58check_decode(text)
    if raw is None or len(raw) not in (33, 34) or raw[0] not in (0x80, 0xef):
        return None
    if len(raw) == 34 and raw[33] != 1:
        return None
    secret = int.from_bytes(raw[1:33], 'big')
    if not 1 <= secret < N:
        return None
    return secret, len(raw) == 34, raw[0]


def _wif_decorated(tier):
    for version in (0x80, 0xef):
        for tail in (b'', b'\1'):
            yield from gens.decorations(ref_text.b58check_encode(
                bytes([version]) + bytes(range(1, 33)) + tail))


@C.test(wif_like(), quick=5000, shards=2, enum=_wif_decorated, examples=['', '1', '5', 'K', 'L'])
def wif_texts(text, T):
    want = wif_value(text)
    funcs = [PrivateKey.from_WIF]
    if len(text) != 64:
        funcs.append(PrivateKey.from_text)
    for func in funcs:
        if want is None:
            raises(ValueError, func, text)
            T.label('refused')
        else:
            key = func(text)
            check_eq(key.coin().WIF_byte, want[2], 'WIF byte')
            judge_private(key, want[0], want[1], key.coin(), 'WIF', False)
            check_eq(key.to_WIF(), text, 'back')
            T.label('accepted')
    T.nontrivial()


# Public keys

@C.test(st.tuples(gens.secret, gens.bool_, gens.coin_index), quick=1500, shards=4,
        enum=lambda tier: [(s, c, 0) for s in gens.edge_secrets for c in (True, False)])
def public_round_trips(case, T):
    secret, compressed, cn = case
    pt = ref_ec.mul_g(secret)
    forms = {c: ref_ec.ser(pt, c) for c in (True, False)}

    def judge(key, c, what):
        check_eq(key.to_bytes(), forms[c], what + ': to_bytes')
        check_eq(bool(key.is_compressed()), c, what + ': is_compressed')
        for k in (True, False):
            check_eq(key.to_bytes(compressed=k), forms[k], what + ': to_bytes(compressed)')
            check_eq(key.to_hex(compressed=k), forms[k].hex(), what + ': to_hex(compressed)')
            check_eq(bytes(key.hash160(compressed=k)), ref_hash.hash160(forms[k]), 'hash160')
            address = key.to_address(compressed=k, coin=get_coin(cn))
            check(address == P2PKH_Address(ref_hash.hash160(forms[k]), get_coin(cn)), 'address')
            check_eq(address.to_string(), ref_text.b58check_encode(
                bytes([get_coin(cn).P2PKH_verbyte]) + ref_hash.hash160(forms[k])), 'address')
        check_eq(key.to_hex(), forms[c].hex(), what + ': to_hex')
        check_eq(str(key), forms[c].hex(), what + ': str')
        check_eq(bytes(key.hash160()), ref_hash.hash160(forms[c]), what + ': hash160')
        check_eq(bytes(key.to_address().hash160()), ref_hash.hash160(forms[c]), 'address')
        check_eq(tuple(key.to_point()), pt, what + ': to_point')
        check_eq(bytes(key.P2PK_script()), bytes([len(forms[c])]) + forms[c] + b'\xac', 'P2PK')
        check_eq(bytes(key.P2PKH_script()),
                 b'\x76\xa9\x14' + ref_hash.hash160(forms[c]) + b'\x88\xac', 'P2PKH')
    for c in (True, False):
        judge(PublicKey.from_bytes(forms[c]), c, 'from_bytes')
        judge(PublicKey.from_hex(forms[c].hex()), c, 'from_hex')
    point = PublicKey.from_point(*pt)
    judge(point, bool(point.is_compressed()), 'from_point')
    key = PrivateKey(secret.to_bytes(32, 'big'), compressed, get_coin(cn)).public_key
    judge(key, compressed, 'private')
    judge(key.complement(), not compressed, 'complement')
    check(key.complement().coin() is key.coin() is get_coin(cn), 'coin')
    judge(key, compressed, 'after complement')
    T.nontrivial()


def bad_x():
    x = 5
    while ref_ec.lift_x(x, False):
        x += 1
    return x


def small_y():
    '''Points whose y plus P still has 32 bytes.'''
    return [pt for pt in map(ref_ec.lift_y, (*range(1, 60), 2**256 - 1 - P)) if pt]


@st.composite
def public_like(draw):
    kind = draw(st.sampled_from(['x', 'xy', 'edit', 'lead', 'cut', 'hybrid', 'any', 'overP',
                                 'overPy']))
    pt = ref_ec.mul_g(draw(gens.secret))
    x = draw(st.one_of(gens.any_int256, st.integers(P, 2**256 - 1), st.just(pt[0])))
    if kind == 'x':
        return bytes([draw(st.sampled_from([2, 3, 2, 3, 0, 1, 4, 5, 6]))]) + x.to_bytes(32, 'big')
    if kind == 'xy':
        y = draw(st.sampled_from([pt[1], P - pt[1], (pt[1] + 1) % P, 0, P, 1]))
        return bytes([draw(st.sampled_from([4, 4, 6, 7]))]) + pt[0].to_bytes(32, 'big') + (
            y.to_bytes(32, 'big'))
    if kind == 'overP':
        # a small coordinate written as itself plus P
        small = draw(st.integers(0, 2**256 - 1 - P))
        lifted = ref_ec.lift_x(small, draw(gens.bool_))
        if lifted is None:
            return b'\2' + (small + P).to_bytes(32, 'big')
        return draw(st.sampled_from([
            b'\2' + (small + P).to_bytes(32, 'big'), b'\2' + small.to_bytes(32, 'big'),
            b'\4' + (small + P).to_bytes(32, 'big') + lifted[1].to_bytes(32, 'big'),
            b'\4' + small.to_bytes(32, 'big') + lifted[1].to_bytes(32, 'big')]))
    if kind == 'overPy':
        pt = draw(st.sampled_from(small_y()))
        return b'\4' + pt[0].to_bytes(32, 'big') + (
            pt[1] + draw(st.sampled_from([0, P]))).to_bytes(32, 'big')
    data = ref_ec.ser(pt, draw(gens.bool_))
    if kind == 'edit':
        return draw(gens.corrupt(st.just(data)))
    if kind == 'lead':
        return bytes([draw(gens.byte)]) + data[1:]
    if kind == 'cut':
        return data[:draw(st.integers(0, len(data)))] + draw(st.binary(max_size=2))
    if kind == 'hybrid':
        return bytes([draw(st.sampled_from([5, 6, 7, 8]))]) + ref_ec.ser(pt, False)[1:]
    return draw(st.binary(max_size=70))


def _pub_enum(_tier):
    for pt in (ref_ec.G, ref_ec.mul_g(12345)):
        for c in (True, False):
            data = ref_ec.ser(pt, c)
            for lead in range(256):
                yield bytes([lead]) + data[1:]
            for n in range(len(data) + 1):
                yield data[:n]
            for n in range(1, 4):
                yield data + bytes(n)
            for n in range(len(data)):
                yield data[:n] + bytes([data[n] ^ 1]) + data[n + 1:]
                yield data[:n] + bytes([data[n] ^ 0x80]) + data[n + 1:]
    for x in (0, bad_x(), P - 1, P, P + 1, N, 2**256 - 1):
        for lead in (2, 3):
            yield bytes([lead]) + x.to_bytes(32, 'big')
        for y in (0, 1, P):
            yield b'\4' + x.to_bytes(32, 'big') + y.to_bytes(32, 'big')


@C.test(public_like(), quick=5000, shards=2, enum=_pub_enum)
def public_forms(data, T):
    pt = ref_ec.parse(data)
    for func, arg in ((PublicKey.from_bytes, data), (PublicKey.from_hex, data.hex())):
        if pt is None:
            raises(ValueError, func, arg)
            T.label('refused')
        else:
            key = func(arg)
            check_eq(tuple(key.to_point()), pt, 'point')
            check_eq(bool(key.is_compressed()), len(data) == 33, 'compression')
            check_eq(key.to_bytes(), ref_ec.ser(pt, len(data) == 33), 'to_bytes')
            T.label('accepted')
    T.nontrivial()


coordinate = st.one_of(gens.any_int256, st.sampled_from([-1, 0, P, P + 1, 1 << 256, -P]))


def _points(_tier):
    for n in range(14):
        for small in range(1, 25):
            # Negative: the point with that y
            yield small, 0, n
            yield -small, 0, n


@C.test(st.tuples(gens.secret, coordinate, st.integers(0, 13)), quick=2000, enum=_points)
def points(case, T):
    secret, other, how = case
    pt = (ref_ec.mul_g(secret) if secret > 24 else ref_ec.lift_y(-secret) if secret < 0
          else ref_ec.lift_x(secret, other))
    x, y = pt or ref_ec.G
    x, y = [(x, y), (x, P - y), (x, other), (other, y), (y, x), (x + P, y), (x, y + P), (x, y - P),
            (x - P, y), (x, -y), (-x, y), (x + (1 << 256), y), (x, y + (1 << 256)),
            (x - (1 << 256), y - (1 << 256))][how]
    if ref_ec.on_curve((x, y)):
        check_eq(tuple(PublicKey.from_point(x, y).to_point()), (x, y), 'point')
        T.label('accepted')
    else:
        raises(VALID_ERRORS, PublicKey.from_point, x, y)
    T.nontrivial()


# Minikeys

def minikey_ok(text):
    return (len(text) in (22, 30) and text[0] == 'S' and all(c in ref_text.B58 for c in text)
            and ref_hash.sha256((text + '?').encode())[0] == 0)


@st.composite
def minikey_like(draw):
    size = draw(st.sampled_from([22, 30, 22, 30, 22, 30, 21, 23, 26, 29, 31, 0, 1]))
    seed = draw(st.integers(0, 2**64))
    want = draw(st.sampled_from(['ok', 'ok', 'ok', 'any', 'hash']))
    for n in range(1, 5000):
        digits = int.from_bytes(ref_hash.sha512(f'{seed}/{n}'.encode()), 'big')
        text = 'S'
        while len(text) < size:
            digits, d = divmod(digits, 58)
            text += ref_text.B58[d]
        text = text[:size]
        if want == 'any':
            break
        h = ref_hash.sha256((text + '?').encode())[0]
        if (want == 'ok' and h == 0) or (want == 'hash' and h in (1, 0x80)):
            break
    edit = draw(st.sampled_from(['', '', '', 'lead', 'char', 'pad']))
    if edit == 'lead' and text:
        # keep the check hash right where possible
        for a in ref_text.B58:
            for lead in 'sTRP5':
                t = lead + text[1:-1] + a
                if ref_hash.sha256((t + '?').encode())[0] == 0:
                    return t
    elif edit == 'char' and size > 2:
        bad = draw(st.sampled_from('0OIl+ é１'))
        n = draw(st.integers(1, size - 1))
        for a in ref_text.B58:
            for b in ref_text.B58:
                t = text[:n] + bad + text[n + 1:-2] + a + b
                t = t[:size]
                if ref_hash.sha256((t + '?').encode())[0] == 0:
                    return t
    elif edit == 'pad':
        text += draw(st.sampled_from(['?', ' ', '\n', 'A']))
    return text


def _minikey_decorated(tier):
    for text in ('S6c56bnXQiBjk9mqSYE7ykVQ7NzrRy', 'SzavMBLoXU6kDrqtUVmffv'):
        yield from gens.decorations(text)


@C.test(minikey_like(), quick=800, shards=4, enum=_minikey_decorated, examples=[
    'S6c56bnXQiBjk9mqSYE7ykVQ7NzrRy', 'SzavMBLoXU6kDrqtUVmffv', '', 'S', 'S' * 22, 'S' * 30])
def minikeys(text, T):
    ok = minikey_ok(text)
    check_eq(bool(is_minikey(text)), ok, f'is_minikey({text!r})')
    if ok:
        secret = int.from_bytes(ref_hash.sha256(text.encode()), 'big')
        judge_private(PrivateKey.from_minikey(text), secret, False, Bitcoin, 'minikey')
        judge_private(PrivateKey.from_text(text), secret, False, Bitcoin, 'minikey text', False)
        T.label('valid')
    else:
        raises(ValueError, PrivateKey.from_minikey, text)
        if wif_value(text) is None:
            raises(ValueError, PrivateKey.from_text, text)
        T.label('invalid')
    T.nontrivial()


# Random keys

draws = st.lists(st.one_of(
    st.sampled_from([0, N, N + 1, 2**256 - 1, N - 1, 1]), gens.any_int256,
    st.integers(N, 2**256 - 1)), max_size=6)


@C.test(draws, quick=1500)
def random_keys(values, T):
    stream = [v.to_bytes(32, 'big') for v in values] + [b'\x11' * 32]
    want = next(int.from_bytes(s, 'big') for s in stream if 1 <= int.from_bytes(s, 'big') < N)
    T.entropy.script(b''.join(stream))
    judge_private(PrivateKey.from_random(), want, True, Bitcoin, 'from_random')
    it = iter(stream)

    def source(n):
        check_eq(n, 32, 'bytes requested')
        return next(it)
    judge_private(PrivateKey.from_random(source=source), want, True, Bitcoin, 'source')
    if values and not 1 <= values[0] < N:
        T.label('out-of-range draw skipped')
        T.nontrivial()


@C.test(st.one_of(st.text(max_size=70), st.text('0123456789abcdefABCDEF', min_size=60,
                                                max_size=68),
                  st.text(ref_text.B58, min_size=50, max_size=53),
                  st.text('0123456789abcdef ', min_size=64, max_size=64)), quick=2000,
        enum=lambda tier: list(gens.decorations(bytes(range(1, 33)).hex())) + list(
            gens.decorations(bytes(range(1, 33)).hex()[1:])) + list(
            gens.decorations(bytes(range(1, 33)).hex()[2:])),
        examples=['0' * 64, 'g' * 64, 'f' * 64, '0' * 63 + '1', ' ' * 64, '１' * 64])
def texts(text, T):
    '''Text that is neither hex, minikey nor WIF is refused.'''
    got = outcome(PrivateKey.from_text, text)
    if len(text) == 64 and all(c in '0123456789abcdefABCDEF' for c in text):
        value = int(text, 16)
        want = value if 1 <= value < N else None
    elif len(text) == 64:
        want = None
    elif minikey_ok(text):
        want = int.from_bytes(ref_hash.sha256(text.encode()), 'big')
    else:
        want = (wif_value(text) or (None,))[0]
    if want is None:
        check(got[0] == 'raises' and isinstance(got[1], ValueError), 'from_text({}) {}', text, got)
    else:
        check(got[0] == 'ok' and got[1].to_int() == want, 'from_text({}): {}', text, got)
        T.label('accepted')
    T.nontrivial()
