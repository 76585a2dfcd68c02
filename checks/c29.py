import array

from hypothesis import strategies as st

from bitcoinx import (
    Address, BIP32PrivateKey, BIP32PublicKey, OP_RETURN_Output, P2MultiSig_Output, P2PK_Output,
    P2PKH_Address, P2SH_Address, PrivateKey, PublicKey, Script, SigHash, Signature, Tx, TxInput,
    TxOutput, Unknown_Output, bip32_key_from_string, classify_output_script,
)
from vlib import gens, ref_bip32, ref_ec, ref_hash, ref_script, ref_text
from vlib.core import Check, check, check_eq
from vlib.util import coin

C = Check('C29', rule=(
    'Collections of keys, addresses, output descriptions, scripts, signatures and unrelated objects '
    'from small pools of near-equal identities (negated points, permuted keys, hashes one bit or '
    'one kind apart), each built by one of up to ten routes; all pairs are judged by identity. '
    'Non-trivial: the collection has two differently built objects with the same identity, or two '
    'near ones with different identities.'))

N, P = ref_ec.N, ref_ec.P


class Buffer:
    '''An object with a bytes representation.'''

    def __init__(self, data):
        self.data = data

    def __bytes__(self):
        return self.data


class Instance:
    '''An object which only looks as if it had one.'''

    def __init__(self):
        self.__bytes__ = lambda: b''


def scalar(n):
    return n.to_bytes(32, 'big')


def xkey(secret, point, cn, extra):
    '''A BIP32 key object.'''
    chain_code = ref_hash.sha256(b'%d' % (extra % 4))
    depth = extra % 3
    fp = ref_hash.sha256(chain_code)[:4] if depth else bytes(4)
    node = (secret, point, chain_code, depth, fp, extra % 5 if depth else 0)
    return bip32_key_from_string(ref_bip32.text(node, cn))


def build_private(secret, route, cn, extra):
    raw = scalar(secret)
    compressed = bool(extra & 1)
    wif = bytes([coin(cn).WIF_byte]) + raw + (b'\1' if compressed else b'')
    value = 1 + extra % 1000
    if route == 0:
        return PrivateKey(raw, compressed, coin(cn))
    if route == 1:
        return PrivateKey.from_int(secret)
    if route == 2:
        return PrivateKey.from_hex(raw.hex())
    if route == 3:
        return PrivateKey.from_WIF(ref_text.b58check_encode(wif))
    if route == 4:
        return PrivateKey.from_text(ref_text.b58check_encode(wif))
    if route == 5:
        return PrivateKey.from_arbitrary_bytes(raw.lstrip(b'\0'))
    if route == 6:
        return xkey(secret, ref_ec.mul_g(secret), cn, extra)
    if route == 7:
        before = (secret - value) % N
        if before == 0:
            return PrivateKey(raw)
        return PrivateKey(scalar(before), compressed).add(scalar(value))
    if route == 8:
        return PrivateKey(scalar(secret * pow(value, -1, N) % N), compressed).multiply(
            scalar(value))
    return PrivateKey.from_random(source=lambda size: raw)


def build_public(secret, route, cn, extra):
    point = ref_ec.mul_g(secret)
    compressed = bool(extra & 1)
    value = 1 + extra % 1000
    if route == 0:
        return PublicKey.from_bytes(ref_ec.ser(point, compressed))
    if route == 1:
        return PublicKey.from_hex(ref_ec.ser(point, compressed).hex())
    if route == 2:
        return PublicKey.from_point(*point)
    if route == 3:
        return PrivateKey(scalar(secret), compressed, coin(cn)).public_key
    if route == 4:
        return PublicKey.from_bytes(ref_ec.ser(point, compressed)).complement()
    if route == 5:
        return xkey(None, point, cn, extra)
    if route == 6:
        return xkey(secret, point, cn, extra).public_key
    if route == 7:
        before = (secret - value) % N
        if before == 0:
            return PublicKey.from_point(*point)
        return build_public(before, extra % 4, cn, extra).add(scalar(value))
    if route == 8:
        return build_public(secret * pow(value, -1, N) % N, extra % 4, cn, extra).multiply(
            scalar(value))
    before = (secret - value) % N
    if before == 0:
        return PublicKey.from_point(*point)
    return PublicKey.combine_keys([build_public(before, extra % 7, cn, extra),
                                   build_public(value, extra % 5, cn, extra)])


def build_hash(kind, h, route, cn, extra):
    cls = P2PKH_Address if kind == 'pkh' else P2SH_Address
    verbyte = coin(cn).P2PKH_verbyte if kind == 'pkh' else coin(cn).P2SH_verbyte
    script = (b'\x76\xa9\x14' + h + b'\x88\xac' if kind == 'pkh' else b'\xa9\x14' + h + b'\x87')
    route %= 5
    if route == 1:
        return Address.from_string(ref_text.b58check_encode(bytes([verbyte]) + h), coin(cn))
    if route == 2:
        return Address.from_string(ref_text.cash_encode(
            coin(cn).cashaddr_prefix, 0 if kind == 'pkh' else 1, h), coin(cn))
    if route == 3:
        return classify_output_script(Script(script), coin(cn))
    return cls(h, coin(cn))


def build_key_hash(secret, route, cn, extra):
    '''The address of a key.'''
    point = ref_ec.mul_g(secret)
    compressed = bool(extra & 1)
    ser = ref_ec.ser(point, compressed)
    route %= 5
    if route == 0:
        return build_public(secret, extra % 10, cn, extra).to_address(
            compressed=compressed, coin=coin(cn))
    if route == 1:
        return PublicKey.from_bytes(ser).to_address()
    if route == 2:
        return P2PK_Output(PublicKey.from_bytes(ser), coin(cn)).to_address()
    if route == 3:
        return P2PKH_Address(ref_hash.hash160(ser), coin(cn))
    return classify_output_script(Script(b'\x76\xa9\x14' + ref_hash.hash160(ser) + b'\x88\xac'),
                                  coin(cn))


def some_key(secret, route, cn, extra):
    '''A public key or something that stands for one.'''
    ser = ref_ec.ser(ref_ec.mul_g(secret), bool(extra & 1))
    if route % 4 == 0:
        return ser
    if route % 4 == 1:
        return ser.hex()
    return build_public(secret, extra % 10, cn, extra)


def build_pk(secret, route, cn, extra):
    if route % 3 == 0:
        ser = ref_ec.ser(ref_ec.mul_g(secret), bool(extra & 1))
        return classify_output_script(Script(ref_script.push(ser) + b'\xac'), coin(cn))
    return P2PK_Output(some_key(secret, extra, cn, route + extra), coin(cn))


def build_ms(secrets, m, route, cn, extra):
    m = 1 + (m - 1) % len(secrets)
    if route % 3 == 0:
        sers = [ref_ec.ser(ref_ec.mul_g(s), bool((extra >> n) & 1)) for n, s in enumerate(secrets)]
        num = lambda v: ref_script.push(ref_script.num_encode(v))
        return classify_output_script(
            Script(num(m) + b''.join(map(ref_script.push, sers)) + num(len(sers)) + b'\xae'),
            coin(cn))
    keys = [some_key(s, route + n, cn, extra + n) for n, s in enumerate(secrets)]
    if route % 3 == 1:
        return P2MultiSig_Output(iter(keys), m)
    return P2MultiSig_Output(keys, m)


def is_signature(data):
    return data == b'\xff' or data and ref_ec.parse_der(data[:-1]) is not None


def build_bytes(data, route, _cn, extra):
    if route in (1, 2) and is_signature(data):
        if route == 2 and data != b'\xff':
            return Signature.from_der_sig(data[:-1], SigHash(data[-1]))
        return Signature.from_hex(data.hex()) if extra & 1 else Signature(data)
    if route == 3:
        return Script.from_hex(data.hex())
    if route == 4:
        cut = extra % (len(data) + 1)
        return Script(data[:cut]) << Script(data[cut:])
    if route == 5:
        return Script(bytearray(data))
    if route == 6:
        return Script(memoryview(data))
    if route == 7:
        return data
    if route == 8:
        return [bytearray(data), memoryview(data), Buffer(data)][extra % 3]
    return Script(data)


UNRELATED = [
    lambda: None, lambda: 0, lambda: 1, lambda: -1, lambda: 1.5, lambda: float('nan'), lambda: '',
    lambda: 'ab', lambda: '00' * 32, lambda: (), lambda: [], lambda: [0], lambda: {}, lambda: set(),
    object, Instance, lambda: NotImplemented, lambda: Ellipsis, lambda: True,
    lambda: PrivateKey, lambda: PublicKey, lambda: Script, lambda: Signature, lambda: P2PKH_Address,
    lambda: Buffer, lambda: bytes, lambda: type, lambda: object, lambda: P2SH_Address,
    lambda: P2PK_Output, lambda: P2MultiSig_Output, lambda: OP_RETURN_Output,
    lambda: BIP32PrivateKey, lambda: BIP32PublicKey, lambda: Buffer.__bytes__,
    lambda: array.array('I', [1, 2]), lambda: range(3), lambda: coin(0), Unknown_Output,
    lambda: SigHash(1), lambda: TxOutput(0, Script()), lambda: TxInput(bytes(32), 0, Script(), 0),
    lambda: Tx(1, [], [], 0), lambda: memoryview(array.array('H', [1])), lambda: frozenset(),
]


def build(recipe):
    '''The pair (identity, object).'''
    kind, what, route, cn, extra = recipe
    if kind == 'priv':
        return ('priv', what), build_private(what, route, cn, extra)
    if kind == 'pub':
        return ('pub', ref_ec.mul_g(what)), build_public(what, route, cn, extra)
    if kind == 'keyhash':
        ser = ref_ec.ser(ref_ec.mul_g(what), bool(extra & 1))
        return ('pkh', ref_hash.hash160(ser)), build_key_hash(what, route, cn, extra)
    if kind in ('pkh', 'sh'):
        return (kind, what), build_hash(kind, what, route, cn, extra)
    if kind == 'pk':
        return ('pk', ref_ec.mul_g(what)), build_pk(what, route, cn, extra)
    if kind == 'ms':
        m, secrets = what
        return (('ms', 1 + (m - 1) % len(secrets), tuple(map(ref_ec.mul_g, secrets))),
                build_ms(secrets, m, route, cn, extra))
    if kind == 'ret':
        if route & 1:
            return ('ret',), classify_output_script(
                Script([b'\x6a', b'\0\x6a'][extra & 1]), coin(cn))
        return ('ret',), OP_RETURN_Output()
    if kind == 'bytes':
        obj = build_bytes(what, route, cn, extra)
        return ('bytes', what), obj
    return None, UNRELATED[extra % len(UNRELATED)]()


OURS = (PrivateKey, PublicKey, Address, P2PK_Output, P2MultiSig_Output, OP_RETURN_Output, Script,
        Signature)


def judge(case, T):
    built = [build(r) for r in case]
    want_hash = {}
    nontrivial = False
    for rounds in range(2):
        for i, (a_id, a) in enumerate(built):
            if not isinstance(a, OURS):
                continue
            check((a == a) is True and (a != a) is False, 'not equal to itself: {}', case[i])
            h = hash(a)
            check_eq(want_hash.setdefault(a_id, h), h, f'hash of equal object {case[i]}')
            check_eq(hash(a), h, 'hash again')
            for j, (b_id, b) in enumerate(built):
                if i == j:
                    continue
                want = a_id == b_id
                what = f'{case[i]} against {case[j]}'
                check_eq(bool(a == b), want, f'{what}: ==')
                check_eq(bool(b == a), want, f'{what}: reversed ==')
                check_eq(bool(a != b), not want, f'{what}: !=')
                check_eq(bool(b != a), not want, f'{what}: reversed !=')
                check_eq(b in [a], want, f'{what}: in list')
                if isinstance(b, OURS + (bytes,)):
                    check_eq(b in {a}, want, f'{what}: in set')
                    check_eq({a: 1}.get(b), 1 if want else None, f'{what}: in dict')
                    check_eq(len({a, b}), 1 if want else 2, f'{what}: set size')
                    if want:
                        check_eq(hash(b), h, f'{what}: hash')
                if want and case[i] != case[j]:
                    nontrivial = True
                if not want and b_id is not None and a_id[0] == b_id[0]:
                    T.label(f'different {a_id[0]}')
                    nontrivial = True
                if want:
                    T.label(f'equal {a_id[0]}')
        # Using the objects changes none of it
        for _id, a in built:
            if isinstance(a, PrivateKey):
                a.public_key.to_address()
            elif isinstance(a, PublicKey):
                a.to_address(), a.to_bytes(compressed=False), a.to_bytes(compressed=True)
            elif isinstance(a, (Address, P2PK_Output, P2MultiSig_Output)):
                a.to_script(), a.hash160()
            elif isinstance(a, Script):
                a.to_hex(), a << b'a'
    ours = [(i, o) for i, o in built if isinstance(o, OURS)]
    check_eq(len({o for _i, o in ours}), len({i for i, _o in ours}), 'size of the set of all')
    if nontrivial:
        T.nontrivial()


small_secret = st.sampled_from([1, 2, 3, N - 1, N - 2, N - 3, (N + 1) // 2, 255])
H = bytes(range(20))
some_hash = st.one_of(
    st.sampled_from([H, H[:-1] + b'\0', b'\1' + H[1:], H[::-1], bytes(20),
                     ref_hash.hash160(ref_ec.ser(ref_ec.G))]), gens.hash20)
DER = ref_ec.der(1, 2)
some_bytes = st.one_of(
    st.sampled_from([b'', b'\0', b'\xff', b'ab', b'ba', b'ab\0', DER + b'\1', DER + b'\x41', DER,
                     ref_ec.der(2, 1) + b'\1', ref_ec.ser(ref_ec.G), H, b'\x6a', scalar(1),
                     b'\x76\xa9\x14' + H + b'\x88\xac']), st.binary(max_size=6))


def recipes(kind, what):
    return st.tuples(st.just(kind), what, st.integers(0, 9), st.integers(0, 3),
                     st.integers(0, 1023))


def kind_recipes(what_secret):
    return {
        'priv': recipes('priv', what_secret),
        'pub': recipes('pub', what_secret),
        'keyhash': recipes('keyhash', what_secret),
        'pkh': recipes('pkh', some_hash),
        'sh': recipes('sh', some_hash),
        'pk': recipes('pk', what_secret),
        'ms': recipes('ms', st.tuples(st.integers(1, 3), st.lists(
            small_secret, min_size=1, max_size=4))),
        'ret': recipes('ret', st.none()),
        'bytes': recipes('bytes', some_bytes),
        'other': recipes('other', st.none()),
    }


BY_KIND = kind_recipes(small_secret)


def one_kind():
    def of(kind):
        if kind == 'ms':
            # Close to each other
            return st.lists(st.sampled_from([1, 2, N - 1, N - 2]), min_size=2, max_size=3).flatmap(
                lambda base: st.lists(recipes('ms', st.tuples(
                    st.integers(1, 3), st.permutations(base))), min_size=2, max_size=6))
        if kind in ('priv', 'pub', 'pk', 'keyhash'):
            return gens.secret.flatmap(lambda s: st.lists(recipes(
                kind, st.sampled_from([s, s, N - s, s % (N - 1) + 1])), min_size=2, max_size=6))
        return st.lists(BY_KIND[kind], min_size=2, max_size=6)
    return st.sampled_from(sorted(BY_KIND)).flatmap(of)


def _routes(tier):
    '''Every pair of routes.'''
    for kind, what, other in (('priv', 7, N - 7), ('pub', 7, N - 7), ('pk', 7, N - 7),
                              ('keyhash', 7, N - 7), ('pkh', H, H[::-1]), ('sh', H, H[::-1]),
                              ('ms', (2, [1, 2]), (2, [2, 1])), ('ret', None, None),
                              ('bytes', DER + b'\1', DER + b'\2'), ('bytes', b'\xff', b'')):
        for route in range(10):
            yield [(kind, w, r, (r + route) % 4, r * 3 + route * e)
                   for r in (route, (route + 1) % 10, (route + 3) % 10)
                   for w, e in ((what, 0), (what, 1), (other, 0))]
    # Scripts, keys and lists of keys of every size, and near twins
    for n in range(0, 301):
        data = gens.pattern_bytes(n, n % 251)
        yield [('bytes', d, n % 9, 0, n) for d in (
            data, data, data + b'\0', data[:-1], data[:n // 2] + b'\0' + data[n // 2 + 1:],
            data[:-1] + b'\xfe')] + [('bytes', data, 1 + n % 6, 0, 3 * n)]
    for n in range(2, 21):
        keys = list(range(1, n + 1))
        for other in (keys[1:] + keys[:1], keys[:-1], keys + [n + 1], keys[:-1] + [N - n],
                      keys[:n // 2] + [N - n // 2 - 1] + keys[n // 2 + 1:],
                      keys[:-2] + [n, n - 1]):
            yield [('ms', (n // 2 or 1, keys), 0, 0, n), ('ms', (n // 2 or 1, keys), 1, 1, 0),
                   ('ms', (n // 2 or 1, other), n % 3, 0, 5), ('ms', (n // 2 + 1, keys), 2, 0, n)]
    for extra in range(len(UNRELATED)):
        yield [('other', None, 0, 0, extra)] + [
            (kind, what, route, 0, 0)
            for kind, what in (('priv', 1), ('pub', 1), ('keyhash', 1), ('pkh', H), ('sh', H),
                               ('pk', 1), ('ms', (1, [1])), ('ret', None), ('bytes', b''),
                               ('bytes', DER + b'\1'))
            for route in (0, 1)]


@C.test(st.one_of(one_kind(), st.lists(st.sampled_from(sorted(BY_KIND)).flatmap(BY_KIND.get),
                                       min_size=2, max_size=7)),
        quick=6000, shards=8, enum=_routes)
def pairs(case, T):
    judge(case, T)
