from hypothesis import strategies as st

from bitcoinx import (
    Coin, OP_RETURN_Output, P2MultiSig_Output, P2PK_Output, P2PKH_Address, P2SH_Address,
    PublicKey, Script, Unknown_Output, all_coins, classify_output_script,
)
from vlib import gens, ref_ec, ref_hash, ref_script, ref_text
from vlib.core import Check, check, check_eq, raises

C = Check('C11', rule=(
    'Locking scripts built by the library and by hand, with ineffective operations inserted '
    'anywhere, near-standard corruptions, truncated and arbitrary scripts, classified in histories '
    'over several coins; against a reference classifier. Non-trivial: the script is of a standard '
    'kind, or differs from such a script by one edit.'))

KINDS = {'P2PKH': P2PKH_Address, 'P2SH': P2SH_Address, 'P2PK': P2PK_Output,
         'MULTISIG': P2MultiSig_Output, 'OP_RETURN': OP_RETURN_Output, 'UNKNOWN': Unknown_Output}


def coins(T):
    if 'coins' not in T.store:
        base = all_coins[0]
        T.store['coins'] = list(all_coins) + [
            Coin('other', base.genesis_header.hex(), base.required_bits, 0x30, 0x32, 0xb0,
                 bytes.fromhex('019da462'), bytes.fromhex('019d9cfe'), 'other'),
            Coin('third', base.genesis_header.hex(), base.required_bits, 0x1e, 0x16, 0x9e,
                 bytes.fromhex('02facafd'), bytes.fromhex('02fac398'), 'third')]
    return T.store['coins']


coin_number = st.integers(0, 5)


def judge(script, coin, T):
    want = ref_script.classify(script)
    got = classify_output_script(Script(script), coin)
    T.label(want[0])
    check(type(got) is KINDS[want[0]], 'classified as {}, want {}: {}', type(got).__name__,
          want, script.hex())
    if want[0] in ('P2PKH', 'P2SH'):
        check_eq(bytes(got.hash160()), want[1], 'hash160')
        check(got.coin() is coin, 'coin')
        verbyte = coin.P2PKH_verbyte if want[0] == 'P2PKH' else coin.P2SH_verbyte
        check_eq(got.to_string(), ref_text.b58check_encode(bytes([verbyte]) + want[1]), 'text')
        canonical = (b'\x76\xa9\x14' + want[1] + b'\x88\xac' if want[0] == 'P2PKH'
                     else b'\xa9\x14' + want[1] + b'\x87')
        check_eq(bytes(got.to_script()), canonical, 'canonical script')
    elif want[0] == 'P2PK':
        point = ref_ec.parse(want[1])
        ser = ref_ec.ser(point, len(want[1]) == 33)
        check_eq(got.public_key.to_bytes(), ser, 'public key')
        check_eq(bytes(got.hash160()), ref_hash.hash160(ser), 'hash160')
        address = got.to_address()
        check(type(address) is P2PKH_Address and address.coin() is coin, 'address coin')
        check_eq(bytes(address.hash160()), ref_hash.hash160(ser), 'address hash')
        check_eq(bytes(got.to_script()), ref_script.push(ser) + b'\xac', 'canonical script')
    elif want[0] == 'MULTISIG':
        _, m, keys = want
        sers = [ref_ec.ser(ref_ec.parse(k), len(k) == 33) for k in keys]
        check_eq(got.threshold, m, 'threshold')
        check_eq([k.to_bytes() for k in got.public_keys], sers, 'public keys')
        check_eq(got.public_key_count(), len(keys), 'public_key_count')
        canonical = (ref_script.push(ref_script.num_encode(m))
                     + b''.join(map(ref_script.push, sers))
                     + ref_script.push(ref_script.num_encode(len(keys))) + b'\xae')
        check_eq(bytes(got.to_script()), canonical, 'canonical script')
        check_eq(bytes(got.hash160()), ref_hash.hash160(canonical), 'hash160')
    return want, got


scripts = gens.weighted(
    (4, gens.standard_script()), (4, gens.noisy_script()), (3, gens.corrupt(
        gens.standard_script())), (2, gens.any_script), (2, gens.corrupt(gens.noisy_script())),
    (1, gens.truncated_script()))


@C.test(st.lists(st.tuples(scripts, coin_number), min_size=1, max_size=4), quick=6000, shards=4)
def histories(case, T):
    for script, cn in case:
        want, _got = judge(script, coins(T)[cn], T)
        T.count()
        if want[0] != 'UNKNOWN':
            T.nontrivial([script])
    # Same again, in other order
    for script, cn in reversed(case):
        judge(script, coins(T)[(cn + 1) % 6], T)


def random_keys():
    return st.one_of(gens.pool_key, gens.hybrid_free_key)


@C.test(st.tuples(st.sampled_from(['pkh', 'sh', 'pk', 'ms', 'ret']), gens.hash20,
                  st.lists(st.one_of(gens.pool_key, gens.pool_key, gens.hybrid_free_key),
                           min_size=1, max_size=20),
                  st.integers(1, 20), st.lists(gens.push_data, max_size=4), st.booleans(),
                  coin_number),
        quick=2000, shards=4)
def library_built(case, T):
    '''Every standard script the library builds is classified as that kind, unchanged.'''
    kind, h, keys, m, data, flag, cn = case
    coin = coins(T)[cn]
    if kind == 'pkh':
        obj = P2PKH_Address(h, coin)
        want = ('P2PKH', h)
    elif kind == 'sh':
        obj = P2SH_Address(h, coin)
        want = ('P2SH', h)
    elif kind == 'pk':
        key = keys[0]
        obj = P2PK_Output(key if flag else PublicKey.from_bytes(key), coin)
        want = ('P2PK', key)
    elif kind == 'ms':
        m = 1 + m % len(keys)
        objs = [k if flag else k.hex() if n % 2 else PublicKey.from_bytes(k)
                for n, k in enumerate(keys)]
        obj = P2MultiSig_Output(objs, m)
        want = ('MULTISIG', m, keys)
    else:
        obj = None
        want = ('OP_RETURN',)
    if obj is not None:
        script = bytes(obj.to_script())
        check_eq(bytes(obj.to_script_bytes()), script, 'to_script_bytes')
    else:
        script = bytes((Script() << 0 if flag else Script()) .push_many([]))
        script += bytes(OP_RETURN_Output().to_script()) + b''.join(map(ref_script.push, data))
    check_eq(ref_script.classify(script), want, 'kind of the built script ' + script.hex())
    want2, got = judge(script, coin, T)
    if obj is not None:
        check_eq(bytes(got.to_script()), script, 'regenerated script')
        check(got == obj and hash(got) == hash(obj), 'not equal to what it was built from')
    T.nontrivial()


def _thresholds(tier):
    top = 25 if tier == 'thorough' else 18
    for n in range(0, top):
        for m in range(-1, n + 2):
            yield m, n
    for n in [*range(top, 71), 75, 127, 128, 130, 255, 256]:
        for m in sorted({1, 2, 3, 10, 15, 16, 17, 20, 21, n // 2, 127, 128, n - 1, n}):
            yield m, n


@C.test(enum=_thresholds, shards=2)
def thresholds(case, T):
    m, n = case
    pool = gens.key_pool()
    keys = [pool[i % len(pool)] for i in range(n)]
    if not 1 <= m <= n:
        raises(ValueError, P2MultiSig_Output, keys, m)
    else:
        out = P2MultiSig_Output(keys, m)
        script = bytes(out.to_script())
        check_eq(ref_script.classify(script), ('MULTISIG', m, keys), 'built')
        judge(script, all_coins[0], T)
    # Wrong counts, odd encodings
    body = b''.join(map(ref_script.push, keys))
    enc = ref_script.num_encode
    for mm, nn in ((enc(m), enc(n + 1)), (enc(m), enc(n - 1)), (enc(m) + b'\0', enc(n)),
                   (enc(m), enc(n) + b'\0\0'), (enc(m), enc(-n)), (enc(m), b'')):
        judge(ref_script.push(mm) + body + ref_script.push(nn) + b'\xae', all_coins[0], T)
        T.count()
    T.nontrivial()


INEFFECTIVE = st.one_of(
    st.just(b'\x61'),
    gens.raw_push().map(lambda p: p + b'\x75'),
    st.tuples(gens.raw_push(), gens.raw_push()).map(lambda t: t[0] + t[1] + b'\x6d'),
    st.sampled_from([b'\x51\x75', b'\x4f\x75', b'\0\x75', b'\x51\x52\x6d', b'\x51\x61\x75',
                     b'\x51\x52\x61\x75\x75', b'\x51\x52\x53\x6d\x75', b'\x51\x51\x75\x75']))


@C.test(st.tuples(st.one_of(scripts, gens.standard_script()),
                  st.lists(st.tuples(st.integers(0, 30), INEFFECTIVE), min_size=1, max_size=4),
                  coin_number), quick=6000, shards=4)
def ineffective_operations(case, T):
    '''Metamorphic: the classification before and after the insertion is the same.'''
    script, insertions, cn = case
    coin = coins(T)[cn]
    parts = gens.split_ops(script)
    before, a = judge(script, coin, T)
    noisy = [b''] + parts
    for pos, op in insertions:
        pos %= len(noisy)
        noisy[pos] = noisy[pos] + op if pos else op + noisy[pos]
    if gens.split_ops(b''.join(noisy)) and ref_script.parse(script)[1]:
        # nothing can be inserted after a truncated push
        noisy = [b''.join(op for _p, op in insertions)] + parts
    after, b = judge(b''.join(noisy), coin, T)
    check_eq(after[0], before[0], 'reference kind')
    check(type(a) is type(b), 'kind changed')
    if before[0] not in ('UNKNOWN', 'OP_RETURN'):
        check(a == b, 'classification changed')
        check_eq(bytes(a.to_script()), bytes(b.to_script()), 'script changed')
        T.nontrivial()


def _near(tier):
    h = bytes(range(20))
    pool = gens.key_pool()
    base = [b'\x76\xa9\x14' + h + b'\x88\xac', b'\xa9\x14' + h + b'\x87',
            ref_script.push(pool[0]) + b'\xac',
            b'\x51' + ref_script.push(pool[0]) + ref_script.push(pool[3]) + b'\x52\xae',
            b'\0\x6a\4data', b'\x6a']
    for script in base:
        parts = gens.split_ops(script)
        for n in range(len(script) + 1):
            yield script[:n]
            yield script[:n] + b'\x4c'
        for n in range(len(parts) + 1):
            for op in range(0x4f, 256):
                yield b''.join(parts[:n]) + bytes([op]) + b''.join(parts[n:])
                if n < len(parts):
                    yield b''.join(parts[:n]) + bytes([op]) + b''.join(parts[n + 1:])
            if n < len(parts):
                yield b''.join(parts[:n]) + b''.join(parts[n + 1:])
    # An operation and something that drops, anywhere
    for script in base:
        parts = gens.split_ops(script)
        for n in range(len(parts) + 1):
            for op in range(0x4f, 256):
                for lead, tail in ((b'', b'\x75'), (b'', b'\x6d'), (b'\x51', b'\x6d'),
                                   (b'\x51', b'\x75'), (b'\x51', b'\x75\x75'), (b'\x76', b'\x6d'),
                                   (b'\x51\x51', b'\x75'), (b'\x51\x51', b'\x6d')):
                    yield b''.join(parts[:n]) + lead + bytes([op]) + tail + b''.join(parts[n:])
    for op in range(0x4f, 256):
        for op2 in range(0x4f, 256):
            yield bytes([op, op2]) + base[op2 % 4]
    for size in range(0, 600):
        d = gens.pattern_bytes(size, 2)
        for script in base:
            yield ref_script.push(d) + b'\x75' + script
            yield script + ref_script.push(d) + b'\x75'
            yield script + ref_script.push(d)
        yield b'\x6a' + ref_script.push(d)
        yield b'\0\x6a' + d
        if size >= 70:
            continue
        yield b'\x76\xa9' + ref_script.push(d) + b'\x88\xac'
        yield b'\xa9' + ref_script.push(d) + b'\x87'
        yield ref_script.push(d) + b'\xac'
        for lead in range(0, 9):
            yield ref_script.push(bytes([lead]) + d) + b'\xac'
    for key in pool:
        for lead in range(0, 9):
            yield ref_script.push(bytes([lead]) + key[1:]) + b'\xac'
    # Many operations, and much data
    yield from gens.long_scripts(tier)
    for n in gens.LONG_COUNTS:
        for script in base:
            parts = gens.split_ops(script)
            for noise in (b'\x61' * n, b'\x51\x75' * (n // 2), b'\x51' * n + b'\x75' * n):
                yield noise + script
                yield script + noise
                yield b''.join(parts[:1]) + noise + b''.join(parts[1:])
                yield noise + script + b'\x61\x4c'
    for n in (76, 255, 256, 521, 10_000, 65_535, 65_536, 70_000, 1 << 20):
        for script in base:
            yield ref_script.push(bytes(n)) + b'\x75' + script
            yield script + ref_script.push(bytes(n)) + b'\x75'
            yield script + ref_script.push(bytes(n))
        yield b'\x6a' + ref_script.push(bytes(n))
        yield b'\0\x6a' + ref_script.push(bytes(n)) + b'\xac'
    # non-minimal pushes
    for how in (1, 2, 4):
        yield b'\x76\xa9' + gens.encode_push(h, how) + b'\x88\xac'
        yield b'\xa9' + gens.encode_push(h, how) + b'\x87'
        yield gens.encode_push(pool[0], how) + b'\xac'
        yield (gens.encode_push(b'\1', how) + gens.encode_push(pool[0], how)
               + gens.encode_push(b'\1', 'direct') + b'\xae')


@C.test(enum=_near, shards=4)
def near_standard(script, T):
    judge(script, all_coins[0], T)
    T.nontrivial()


@C.test(st.one_of(st.binary(max_size=60), gens.structured_script), quick=4000, shards=2)
def arbitrary(script, T):
    want, _got = judge(script, all_coins[len(script) % 4], T)
    if want[0] != 'UNKNOWN':
        T.nontrivial()
