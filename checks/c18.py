from hypothesis import strategies as st

from bitcoinx import BIP32PrivateKey, BIP32PublicKey, all_coins, bip32_key_from_string
from vlib import gens, ref_bip32, ref_ec, ref_hash
from vlib.core import HMAC_HOOK, Check, check, check_eq, raises

C = Check('C18', rule=(
    'Master keys from seeds of any length and extended keys with edge secrets, chain codes and '
    'depths; paths of hardened and plain boundary indices on the private side, from any point of '
    'the path on the public side; refused indices; derivations made invalid through an injected '
    'HMAC. All fields against a reference. Non-trivial: a child was derived.'),
    assumptions=['HMAC-SHA512 results with probability 2^-127 are injected by replacing '
                 "Python's hmac functions"])

N = ref_ec.N
H = 1 << 31

index = st.one_of(
    gens.uint32, st.integers(0, 20), st.integers(0, 20).map(lambda n: n + H),
    st.sampled_from([0, 1, H - 1, H - 2, H, H + 1, 2 * H - 1, 2 * H - 2]))
soft_index = index.map(lambda n: n % H)
coin = st.integers(0, 3)
small_secret = st.one_of(gens.secret, st.integers(1, 1 << 240), st.integers(1, 1 << 128),
                         st.integers(1, 255))
fp4 = st.binary(min_size=4, max_size=4)
depth = st.one_of(st.integers(0, 240), st.sampled_from([0, 1, 127, 128, 240]))
raw_node = st.tuples(small_secret, gens.hash32, depth, fp4, gens.uint32)
root = st.one_of(
    st.tuples(st.just('seed'), gens.sized_data(big=False)),
    st.tuples(st.just('seed'), st.binary(min_size=16, max_size=64)),
    st.tuples(st.just('raw'), raw_node))


def make_root(spec, coin_n):
    kind, value = spec
    if kind == 'seed':
        node = ref_bip32.from_seed(value)
        return BIP32PrivateKey.from_seed(value, all_coins[coin_n]), node, coin_n
    node = ref_bip32.private(*value)
    # The version bytes of the test networks are shared
    coin_n = min(coin_n, 1)
    return bip32_key_from_string(ref_bip32.text(node, coin_n)), node, coin_n


def _paths(tier):
    for seed in ('000102030405060708090a0b0c0d0e0f', 'ff' * 64, '', '00', 'aa' * 16, '01' * 300):
        for path in ([0], [H], [H, 1, H + 2, 2, 1000000000], [0, 2 * H - 1, 1, 2 * H - 2, 2],
                     [H - 1], [2 * H - 1], [1 << 8, 1 << 16, 1 << 24, 255, 65535]):
            yield ('seed', bytes.fromhex(seed)), 0, path
    for size in [*range(0, 140), 255, 256, 257, 1000, *gens.LARGE_SIZES]:
        yield ('seed', gens.pattern_bytes(size, size & 255)), size % 4, [size % 3]
    for n in range(141, 301):
        yield ('seed', gens.pattern_bytes(n, n & 255)), n % 4, [n % 7]
    # To the greatest depth from various depths
    for n in range(0, 245, 12):
        yield ('raw', (77 + n, bytes([n]) * 32, n, b'\1\2\3\4', n)), 0, [
            (n * 7 + k * 13) % H + (H if k % 5 == 4 else 0) for k in range(10)]
    yield ('seed', b'deep'), 0, [k + (H if k % 9 == 8 else 0) for k in range(255)]
    # Leading zero bytes in the secret and edge secrets
    for secret in (1, 2, 255, 1 << 240, (1 << 248) - 1, N - 1, N - 2, N >> 1):
        for n in (0, 1, H, H - 1, 2 * H - 1):
            yield ('raw', (secret, bytes(32), 0, bytes(4), 0)), 1, [n]
            yield ('raw', (secret, b'\xff' * 32, 240, b'\xff' * 4, 2 * H - 1)), 0, [n, 0]
    # Children whose secret or chain code has leading zeros, found by searching
    seeds = 3000 if tier == 'thorough' else 600
    for n in range(seeds):
        if n % 3 == 0:
            yield ('seed', n.to_bytes(16, 'big')), n % 4, [n]


@C.test(st.tuples(root, coin, st.lists(index, min_size=1, max_size=4)), quick=2000, shards=8,
        enum=_paths)
def derivation(case, T):
    spec, coin_n, path = case
    key, node, coin_n = make_root(spec, coin_n)
    ref_bip32.compare(key, node, coin_n, check_eq, 'root')
    ref_bip32.compare(key.public_key, ref_bip32.neuter(node), coin_n, check_eq, 'root public')
    public = None
    for pos, n in enumerate(path):
        pub = key.public_key
        child_node = ref_bip32.child(node, n)
        child = key.child(n)
        ref_bip32.compare(child, child_node, coin_n, check_eq, f'child {pos}')
        neutered = ref_bip32.neuter(child_node)
        ref_bip32.compare(child.public_key, neutered, coin_n, check_eq, f'child {pos} public')
        if n < H:
            pub_child = pub.child(n)
            ref_bip32.compare(pub_child, neutered, coin_n, check_eq, f'public child {pos}')
            check(pub_child == child.public_key, 'public child differs from child public')
            check(ref_bip32.child(ref_bip32.neuter(node), n) == neutered, 'reference is broken')
            if public is not None:
                public = public.child(n)
                ref_bip32.compare(public, neutered, coin_n, check_eq, f'public descent {pos}')
            else:
                public = pub_child
        else:
            for p in (pub, public):
                if p is not None:
                    raises(ValueError, p.child, n)
                    raises(ValueError, p.child_safe, n)
            public = None
            T.label('hardened')
        # The parent is unaffected and the safe derivation is the same one
        ref_bip32.compare(key, node, coin_n, check_eq, 'parent')
        if pos == 0:
            ref_bip32.compare(key.child_safe(n), child_node, coin_n, check_eq, 'safe child')
            if n < H:
                ref_bip32.compare(pub.child_safe(n), neutered, coin_n, check_eq,
                                  'public safe child')
        if child.to_bytes()[0] == 0 or key.to_bytes()[0] == 0:
            T.label('leading zero')
        key, node = child, child_node
    T.nontrivial()


bad_index = st.one_of(
    st.integers(2 * H, 1 << 70), st.integers(-(1 << 70), -1),
    st.sampled_from([-1, -H, -2 * H, 2 * H, 2 * H + 1, 3 * H, -H + 1, 1 << 63, 1 << 64,
                     -(1 << 32) + 1]))


@C.test(st.tuples(root, coin, bad_index, soft_index), quick=600, shards=2)
def refused_index(case, T):
    spec, coin_n, n, soft = case
    key, node, coin_n = make_root(spec, coin_n)
    pub = key.public_key
    for k in (key, pub):
        raises(ValueError, k.child, n)
        raises(ValueError, k.child_safe, n)
    for m in (H, H + soft, 2 * H - 1, 2 * H - 1 - soft):
        raises(ValueError, pub.child, m)
        raises(ValueError, pub.child_safe, m)
    T.nontrivial()


def run_hooked(bad, secret, func, n):
    '''func(n) with the derivations at the indices of bad made invalid.  bad: {index: kind}.'''
    def hook(_key, msg, digest, real):
        if digest != 'sha512' or len(msg) != 37:
            return None
        kind = bad.get(int.from_bytes(msg[-4:], 'big'))
        if kind is None:
            return None
        left = {'N': N, 'max': 2**256 - 1, 'N+1': N + 1, 'zero': N - secret}[kind]
        return left.to_bytes(32, 'big') + real[32:]

    HMAC_HOOK.calls = 0
    HMAC_HOOK.active = hook
    try:
        try:
            return 'ok', func(n), HMAC_HOOK.calls
        except ValueError as e:
            return 'refused', e, HMAC_HOOK.calls
    finally:
        HMAC_HOOK.active = None


kind = st.sampled_from(['N', 'max', 'N+1', 'zero'])
start = st.one_of(
    st.integers(0, 5).map(lambda d: H - 1 - d), st.integers(0, 5).map(lambda d: 2 * H - 1 - d),
    st.integers(0, 5), st.integers(0, 5).map(lambda d: H + d), index)


def _ranges(tier):
    for base in (0, 1, H - 1, H - 2, H - 3, H, H + 1, 2 * H - 1, 2 * H - 2, 2 * H - 3, 1000):
        for count in range(0, 5):
            for k in ('N', 'max', 'zero'):
                yield (5, bytes(32), 3, b'abcd', 7), base, [k] * count
        yield (N - 2, b'\1' * 32, 0, bytes(4), 0), base, ['N', None, 'N']
        yield (N - 2, b'\1' * 32, 0, bytes(4), 0), base, [None, 'N']


@C.test(st.tuples(raw_node, start, st.lists(st.one_of(kind, kind, st.none()), max_size=6)),
        quick=1200, shards=4, enum=_ranges)
def safe_derivation(case, T):
    value, n, kinds = case
    secret = value[0]
    key, node, coin_n = make_root(('raw', tuple(value)), 0)
    bad = {n + i: k for i, k in enumerate(kinds) if k}

    for side in ('private', 'public'):
        if side == 'public' and n >= H:
            continue
        k = key if side == 'private' else key.public_key
        if n in bad:
            result, value_, calls = run_hooked(bad, secret, k.child, n)
            if not calls:
                T.label('not injectable')
                return
            check(result == 'refused', '{} child {} with an invalid derivation was not refused: {}',
                  side, n, bad[n])
        end = H if n < H else 2 * H
        want = next((i for i in range(n, min(end, n + len(kinds) + 1)) if i not in bad), None)
        result, value_, calls = run_hooked(bad, secret, k.child_safe, n)
        if not calls:
            T.label('not injectable')
            return
        if want is None:
            check(result == 'refused', '{} safe child of {} is {}, none remains', side, n, value_)
            T.label('none remains')
        else:
            check(result == 'ok', '{} safe child of {} was refused: {}', side, n, value_)
            child = ref_bip32.child(node, want)
            if side == 'public':
                child = ref_bip32.neuter(child)
            ref_bip32.compare(value_, child, coin_n, check_eq, f'{side} safe child')
        if bad:
            T.nontrivial()


@C.test(st.tuples(gens.any_int256, gens.hash32, coin), quick=400)
def invalid_master(case, T):
    left, right, coin_n = case

    def hook(key, _msg, digest, _real):
        if digest == 'sha512' and key == b'Bitcoin seed':
            return left.to_bytes(32, 'big') + right
        return None

    HMAC_HOOK.calls = 0
    HMAC_HOOK.active = hook
    try:
        key = BIP32PrivateKey.from_seed(b'seed', all_coins[coin_n])
    except ValueError:
        key = None
    finally:
        HMAC_HOOK.active = None
    if not HMAC_HOOK.calls:
        T.label('not injectable')
        return
    if 0 < left < N:
        check(key is not None, 'master key {} was refused', left)
        ref_bip32.compare(key, ref_bip32.private(left, right), coin_n, check_eq, 'master')
    else:
        check(key is None, 'master key {} was accepted', left)
        T.label('invalid')
    T.nontrivial()


@C.test(st.tuples(st.lists(st.sampled_from([0, N, N + 1, 2**256 - 1]), max_size=3), gens.secret,
                  gens.hash32, gens.bool_), quick=400)
def random_key(case, T):
    invalid, secret, chain_code, builtin = case
    script = b''.join(v.to_bytes(32, 'big') + ref_hash.sha256(b'%d' % i)
                      for i, v in enumerate(invalid))
    script += secret.to_bytes(32, 'big') + chain_code
    if builtin:
        T.entropy.script(script)
        key = BIP32PrivateKey.from_random()
    else:
        stream = [script]

        def source(size):
            result, stream[0] = stream[0][:size], stream[0][size:]
            return result

        key = BIP32PrivateKey.from_random(source=source)
    d = key.derivation()
    check(0 < key.to_int() < N, 'secret out of range')
    check(isinstance(d.chain_code, bytes) and len(d.chain_code) == 32, 'chain code')
    # 64 bytes at a time: secret and chain code
    ref_bip32.compare(key, ref_bip32.private(secret, chain_code), 0, check_eq, 'random')
    child = ref_bip32.child(ref_bip32.private(secret, chain_code), 5)
    ref_bip32.compare(key.child(5), child, 0, check_eq, 'child of random')
    T.nontrivial()
