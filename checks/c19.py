from hypothesis import strategies as st

from bitcoinx import BIP32PrivateKey, BIP32PublicKey, bip32_key_from_string
from vlib import gens, ref_bip32, ref_ec, ref_text
from vlib.core import Check, check, check_eq, raises

C = Check('C19', rule=(
    'Extended private and public keys over every depth and boundary indices, fingerprints, chain '
    'codes, secrets (leading zeros, curve order edges) and points, as strings built by a reference; '
    'strings with one field corrupted and the checksum recomputed, with a bad checksum, and with '
    'random edits. Acceptance decided by a reference parser. Non-trivial: a key was parsed, or a '
    'corrupted string judged.'))

N, P = ref_ec.N, ref_ec.P
H = 1 << 31
VERSIONS = {ref_bip32.XPUB[0]: (0, True), ref_bip32.XPRV[0]: (0, False),
            ref_bip32.XPUB[1]: (1, True), ref_bip32.XPRV[1]: (1, False)}

any_secret = st.one_of(gens.secret, st.integers(1, 1 << 200), st.integers(1, 255))
fp4 = st.one_of(st.binary(min_size=4, max_size=4),
                st.sampled_from([bytes(4), b'\xff' * 4, b'\0\0\0\1', b'\1\0\0\0']))
node_spec = st.tuples(any_secret, gens.hash32, gens.byte, fp4, gens.uint32)
case_node = st.tuples(node_spec, gens.bool_, st.integers(0, 1))


def build(case):
    spec, public, coin_n = case
    node = ref_bip32.private(*spec)
    return (ref_bip32.neuter(node) if public else node), coin_n


def judge(text):
    '''(node, coin) or None.'''
    raw = ref_text.b58check_decode(text)
    if raw is None or len(raw) != 78 or raw[:4] not in VERSIONS:
        return None
    coin_n, public = VERSIONS[raw[:4]]
    depth, fp, n, chain_code, key = (raw[4], raw[5:9], int.from_bytes(raw[9:13], 'big'),
                                     raw[13:45], raw[45:])
    if public:
        if key[0] not in (2, 3):
            return None
        point = ref_ec.parse(key)
        if point is None:
            return None
        return (None, point, chain_code, depth, fp, n), coin_n
    secret = int.from_bytes(key[1:], 'big')
    if key[0] or not 0 < secret < N:
        return None
    return ref_bip32.private(secret, chain_code, depth, fp, n), coin_n


def _nodes(tier):
    for depth in range(256):
        for public in (False, True):
            yield (depth + 1, bytes([depth] * 32), depth, b'abcd', depth), public, depth % 2
    for n in (0, 1, 255, 256, 65535, 65536, H - 1, H, H + 1, 2 * H - 1):
        for secret in (1, 255, 1 << 128, N - 1):
            for chain_code in (bytes(32), b'\xff' * 32):
                for public in (False, True):
                    yield (secret, chain_code, 0, bytes(4), n), public, 0


@C.test(case_node, quick=3000, shards=4, enum=_nodes)
def round_trip(case, T):
    node, coin_n = build(case)
    text = ref_bip32.text(node, coin_n)
    key = bip32_key_from_string(text)
    ref_bip32.compare(key, node, coin_n, check_eq, 'parsed')
    check_eq(key.to_extended_key_string(), text, 'printed')
    again = bip32_key_from_string(key.to_extended_key_string())
    check(again == key and type(again) is type(key), 'not equal')
    check(again.derivation() == key.derivation(), 'derivation data differ')
    ref_bip32.compare(again, node, coin_n, check_eq, 'parsed again')
    if node[0] is None:
        check_eq(str(key), text, 'str')
    else:
        pub = key.public_key
        ptext = ref_bip32.text(ref_bip32.neuter(node), coin_n)
        check_eq(pub.to_extended_key_string(), ptext, 'public printed')
        ref_bip32.compare(bip32_key_from_string(ptext), ref_bip32.neuter(node), coin_n, check_eq,
                          'public parsed')
        check(text not in str(key) and text not in repr(key), 'the private key is shown')
    T.label('public' if node[0] is None else 'private')
    T.nontrivial()


@C.test(st.tuples(node_spec, st.integers(0, 3), st.lists(gens.uint32, max_size=3), gens.bool_),
        quick=800, shards=4)
def derived(case, T):
    '''Keys of every coin that were derived rather than parsed.'''
    (secret, chain_code, _d, _f, _n), coin_n, path, public = case
    import bitcoinx
    seed = secret.to_bytes(32, 'big') + chain_code
    node = ref_bip32.from_seed(seed)
    key = BIP32PrivateKey.from_seed(seed, bitcoinx.all_coins[coin_n])
    for n in path:
        key, node = key.child(n), ref_bip32.child(node, n)
    if public:
        key, node = key.public_key, ref_bip32.neuter(node)
        for n in path:
            key, node = key.child(n % H), ref_bip32.child(node, n % H)
    text = ref_bip32.text(node, coin_n)
    check_eq(key.to_extended_key_string(), text, 'printed')
    back = bip32_key_from_string(text)
    # Test networks share their version bytes
    ref_bip32.compare(back, node, min(coin_n, 1), check_eq, 'parsed')
    check(back == key and hash(back) == hash(key), 'not equal')
    check(back.derivation() == key.derivation(), 'derivation data differ')
    check(isinstance(back, BIP32PublicKey if public else BIP32PrivateKey), 'kind')
    T.nontrivial()


bad_x = st.integers(1, 1 << 20).filter(lambda x: ref_ec.lift_x(x, False) is None)


@st.composite
def corrupted(draw):
    node, coin_n = build(draw(case_node))
    raw = bytearray(ref_bip32.payload(node, coin_n))
    what = draw(st.sampled_from(['version', 'prefix', 'key', 'point', 'length', 'swap', 'any',
                                 'checksum', 'edit', 'padding', 'hybrid']))
    if what == 'version':
        raw[:4] = draw(st.one_of(
            st.binary(min_size=4, max_size=4),
            st.sampled_from(sorted(VERSIONS)),
            st.tuples(st.integers(0, 3), st.integers(0, 7)).map(lambda t: bytes(
                b ^ (1 << t[1] if i == t[0] else 0) for i, b in enumerate(raw[:4])))))
    elif what == 'prefix':
        raw[45] = draw(gens.byte)
    elif what == 'key':
        raw[46:] = draw(gens.any_int256).to_bytes(32, 'big')
    elif what == 'point':
        raw[45] = draw(st.sampled_from([2, 3]))
        raw[46:] = draw(st.one_of(
            bad_x, st.sampled_from([0, P, P + 1, 2**256 - 1, P - 1, 5, 7]),
            gens.any_int256)).to_bytes(32, 'big')
    elif what == 'hybrid':
        raw[45:] = draw(gens.secret.map(lambda s: ref_ec.ser(ref_ec.mul_g(s), False)))
    elif what == 'length':
        n = draw(st.one_of(st.integers(0, 78), st.sampled_from([45, 46, 77, 13, 4, 0])))
        raw = raw[:n] if draw(gens.bool_) else raw + draw(st.binary(min_size=1, max_size=40))
    elif what == 'padding':
        pos = draw(st.integers(0, 78))
        raw[pos:pos] = b'\0'
        if draw(gens.bool_):
            del raw[draw(st.integers(0, 78))]
    elif what == 'swap':
        raw[:4] = draw(st.sampled_from([v for v in sorted(VERSIONS) if v != bytes(raw[:4])]))
    elif what == 'any':
        for _ in range(draw(st.integers(1, 3))):
            raw[draw(st.integers(0, 77))] = draw(gens.byte)
    text = ref_text.b58check_encode(bytes(raw))
    if what == 'checksum':
        full = bytearray(ref_text.b58_decode(text))
        full[draw(st.integers(len(full) - 4, len(full) - 1))] ^= 1 << draw(st.integers(0, 7))
        text = ref_text.b58_encode(bytes(full))
    elif what == 'edit':
        op = draw(st.integers(0, 3))
        pos = draw(st.integers(0, len(text) - 1))
        c = draw(st.one_of(st.sampled_from(ref_text.B58), st.sampled_from('0OIl \n+/é١')))
        if op == 0:
            text = text[:pos] + c + text[pos + 1:]
        elif op == 1:
            text = text[:pos] + c + text[pos:]
        elif op == 2:
            text = text[:pos] + text[pos + 1:]
        else:
            text = draw(st.sampled_from([' ' + text, text + ' ', text + '\n', '1' + text,
                                         text + '1', text[::-1], text.lower(), text.upper()]))
    return text, what


def _every_prefix(tier):
    point = ref_ec.ser(ref_ec.mul_g(9))
    rest = bytes([4]) + b'abcd' + bytes(4) + b'\7' * 32
    for version in sorted(VERSIONS):
        for prefix in range(256):
            for body in (point[1:], (9).to_bytes(32, 'big')):
                yield ref_text.b58check_encode(version + rest + bytes([prefix]) + body), 'prefix'
        for secret in (0, 1, N - 1, N, N + 1, 2**256 - 1, P, P - 1):
            for prefix in (0, 2, 3):
                yield ref_text.b58check_encode(
                    version + rest + bytes([prefix]) + secret.to_bytes(32, 'big')), 'range'
        full = version + rest + b'\0' + (9).to_bytes(32, 'big')
        for n in range(0, 79):
            yield ref_text.b58check_encode(full[:n]), 'length'
        for n in range(1, 40):
            yield ref_text.b58check_encode(full + bytes(n)), 'length'
        for pos in range(4):
            for bit in range(8):
                v = bytes(b ^ (1 << bit if i == pos else 0) for i, b in enumerate(version))
                yield ref_text.b58check_encode(v + rest + b'\0' + (9).to_bytes(32, 'big')), 'ver'
        text = ref_text.b58check_encode(full)
        for pos in range(len(text)):
            for c in 'zA1' if text[pos] not in 'zA1' else '29x':
                yield text[:pos] + c + text[pos + 1:], 'checksum'
        for form in gens.decorations(text):
            yield form, 'decorated'
    yield '', 'empty'
    yield '1', 'empty'
    yield ref_text.b58check_encode(b''), 'empty'


@C.test(corrupted(), quick=5000, shards=4, enum=_every_prefix)
def strictness(case, T):
    text, what = case
    want = judge(text)
    if want is None:
        raises(ValueError, bip32_key_from_string, text)
        T.label(f'{what} refused')
    else:
        key = bip32_key_from_string(text)
        ref_bip32.compare(key, *want, check_eq, 'parsed')
        check_eq(key.to_extended_key_string(), text, 'printed')
        T.label(f'{what} accepted')
    T.nontrivial()
