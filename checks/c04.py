import datetime
import json

from hypothesis import strategies as st

from bitcoinx import JSONFlags, Script, classify_output_script
from vlib import gens, ref_ec, ref_hash, ref_script, ref_text, ref_tx
from vlib.core import Check, check, check_eq
from vlib.util import coin as get_coin, make_tx, norm_tx, plain_tx

C = Check('C04', rule=(
    'Transactions of arbitrary, standard, noisy, truncated and random scripts, coinbase and '
    'near-coinbase inputs, all 64 flag combinations and all coins, against a JSON view built '
    'independently from the wire data. Non-trivial: at least one output with the classification '
    'flag, or a coinbase input, or an input script with a signature.'))

KINDS = {'P2PKH': 'pubkeyhash', 'P2SH': 'scripthash', 'P2PK': 'pubkey', 'MULTISIG': 'multisig',
         'OP_RETURN': 'op_return', 'UNKNOWN': 'unknown'}

sig_push = st.tuples(gens.any_sig, gens.byte).map(
    lambda t: ref_script.push(t[0] + bytes([t[1]])))
valid_sig_push = st.tuples(gens.valid_der, gens.byte).map(
    lambda t: ref_script.push(t[0] + bytes([t[1]])))
sig_script = st.lists(st.one_of(valid_sig_push, sig_push, gens.raw_push()), max_size=3).map(
    b''.join)
in_script = st.one_of(sig_script, gens.any_script)
null_in = st.tuples(st.just(bytes(32)), st.just(0xffffffff),
                    st.one_of(st.binary(max_size=100), st.text(max_size=30).map(
                        lambda s: s.encode(errors='replace')), sig_script), gens.uint32)
near_null = st.one_of(
    st.tuples(st.just(bytes(32)), st.sampled_from([0, 0xfffffffe]), in_script, gens.uint32),
    st.tuples(gens.hash32, st.just(0xffffffff), in_script, gens.uint32))
any_in = gens.weighted((4, gens.tx_input(in_script)), (2, null_in), (1, near_null))
tx_strategy = st.tuples(gens.int32, st.lists(any_in, max_size=3),
                        st.lists(gens.tx_output(gens.any_script), max_size=4),
                        st.one_of(gens.uint32, st.sampled_from([0, 1, 499_999_999, 500_000_000])))
flags_strategy = st.one_of(st.integers(0, 63), st.just(63), st.just(16), st.just(0))


def script_json(script, flags, is_sig, coin):
    items, truncated = ref_script.parse(script)
    result = {'asm': ref_script.asm(script, is_sig), 'hex': script.hex()}
    if not is_sig and flags & 16:
        kind = ref_script.classify(script)
        result['type'] = KINDS[kind[0]]

        def address(verbyte, h):
            return ref_text.b58check_encode(bytes([verbyte]) + h)
        if kind[0] == 'P2PKH':
            result['address'] = address(coin.P2PKH_verbyte, kind[1])
        elif kind[0] == 'P2PK':
            key = ref_ec.ser(ref_ec.parse(kind[1]), len(kind[1]) == 33)
            result['pubkey'] = key.hex()
            result['address'] = address(coin.P2PKH_verbyte, ref_hash.hash160(key))
        elif kind[0] == 'P2SH':
            result['?address'] = address(coin.P2SH_verbyte, kind[1])
    return result


def input_json(i, flags, index):
    if i[0] == bytes(32) and i[1] == 0xffffffff:
        result = {'coinbase': i[2].hex(), 'text': i[2].decode('utf-8', 'replace'),
                  'sequence': i[3]}
    else:
        result = {'hash': i[0].hex(), 'idx': i[1], 'script': script_json(i[2], flags, True, None),
                  'sequence': i[3]}
    if flags & 1 and index is not None:
        result['nInput'] = index
    return result


def output_json(o, flags, coin, index):
    result = {'value': o[0], 'script': script_json(o[1], flags, False, coin)}
    if flags & 2 and index is not None:
        result['nOutput'] = index
    return result


def locktime_text(n):
    if n == 0:
        return 'valid in any block'
    if n < 500_000_000:
        digits = str(n)
        groups = []
        while digits:
            groups.insert(0, digits[-3:])
            digits = digits[:-3]
        return 'valid in blocks with height greater than ' + ','.join(groups)
    when = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=n)
    return f'valid in blocks with MTP greater than {when:%Y-%m-%d %H:%M:%S} UTC'


def same(got, want, path):
    '''want may have optional keys, written with a leading "?".'''
    if isinstance(want, dict):
        check(isinstance(got, dict), 'not a dict at {}', path)
        required = {k for k in want if not k.startswith('?')}
        optional = {k[1:] for k in want if k.startswith('?')}
        check(required <= set(got) <= required | optional, 'keys at {}: {} want {}', path,
              sorted(got), sorted(required))
        for k in got:
            same(got[k], want[k if k in want else '?' + k], f'{path}/{k}')
    elif isinstance(want, list):
        check(isinstance(got, (list, tuple)) and len(got) == len(want), 'list at {}', path)
        for n, (g, w) in enumerate(zip(got, want)):
            same(g, w, f'{path}/{n}')
    else:
        check_eq(got, want, path)


@C.test(st.tuples(tx_strategy, flags_strategy, gens.coin_index), quick=3200, shards=8, examples=[
    ((1, [], [(1, b'\xa9\x14' + bytes(20) + b'\x87')], 0), 63, 0),
    ((1, [(bytes(32), 0xffffffff, b'\xff\xfe', 1)], [(1, b'\x6a')], 0xffffffff), 63, 1),
    ((1, [], [], 500_000_000), 63, 0),
])
def tx_json(case, T):
    t, flags, cn = case
    t = norm_tx(t)
    coin = get_coin(cn)
    version, ins, outs, locktime = t
    wire = ref_tx.ser(t)
    tx = make_tx(t)
    want = {
        'version': version, 'nInputs': len(ins), 'nOutputs': len(outs), 'locktime': locktime,
        'vin': [input_json(i, flags, n) for n, i in enumerate(ins)],
        'vout': [output_json(o, flags, coin, n) for n, o in enumerate(outs)],
        'hash': ref_hash.dsha(wire)[::-1].hex(),
    }
    if flags & 4:
        want['size'] = len(wire)
    if flags & 8:
        want['locktimeMeaning'] = locktime_text(locktime)
    got = tx.to_json(JSONFlags(flags), coin)
    text = json.dumps(got)
    same(json.loads(text), json.loads(json.dumps(want)), 'tx')
    same(tx.to_json(flags, coin), want, 'tx with int flags')
    check_eq(plain_tx(tx), t, 'to_json altered the tx')
    # Agreement with what the library reports elsewhere
    for n, (txin, i) in enumerate(zip(tx.inputs, ins)):
        same(txin.to_json(JSONFlags(flags)), input_json(i, flags, None), 'input without index')
        same(txin.to_json(JSONFlags(flags), n + 5), input_json(i, flags, n + 5), 'input')
    for n, (txout, o) in enumerate(zip(tx.outputs, outs)):
        same(txout.to_json(JSONFlags(flags), coin), output_json(o, flags, coin, None),
             'output without index')
        same(txout.to_json(JSONFlags(flags), coin, n), output_json(o, flags, coin, n), 'output')
        js = txout.script_pubkey.to_json(JSONFlags(flags), False, coin)
        if flags & 16:
            kind = classify_output_script(txout.script_pubkey, coin)
            check_eq(js['type'], kind.KIND, 'KIND')
            T.label(js['type'])
            if 'address' in js and js['type'] != 'pubkey':
                check_eq(js['address'], kind.to_string(), 'address')
    if ((flags & 16 and outs) or any(i[0] == bytes(32) and i[1] == 0xffffffff for i in ins)
            or any('[' in ref_script.asm(i[2], True) for i in ins)):
        T.nontrivial()
    if any('[' in ref_script.asm(i[2], True) and len(i[2]) > 8 for i in ins):
        T.label('input signature shown')


@C.test(st.tuples(st.one_of(gens.any_script, sig_script), st.integers(0, 63), st.booleans(),
                  gens.coin_index), quick=2400, shards=4)
def scripts(case, T):
    script, flags, is_sig, cn = case
    coin = get_coin(cn)
    got = Script(script).to_json(JSONFlags(flags), is_sig, coin)
    same(json.loads(json.dumps(got)), script_json(script, flags, is_sig, coin), 'script')
    if is_sig:
        same(Script(script).to_json(JSONFlags(flags), True, None),
             script_json(script, flags, True, None), 'script without coin')
    T.nontrivial()


def _enum_lock(tier):
    base = [0, 1, 9, 10, 99, 100, 999, 1000, 9999, 10000, 999999, 1000000, 499999999, 500000000,
            500000001, 951782400, 951868800, 1582934400, 2147483647, 2147483648, 4294967295,
            1709164800, 978307199, 978307200]
    for v in base:
        for d in (-1, 0, 1):
            if 0 <= v + d < 1 << 32:
                yield v + d


@C.test(gens.uint32, enum=_enum_lock, quick=1000)
def locktimes(n, T):
    judge_locktime(n, T)


# Whatever the time zone
@C.test(gens.uint32, enum=_enum_lock, quick=300, env={'TZ': 'ABC+7:30'})
def locktimes_west(n, T):
    judge_locktime(n, T)


@C.test(gens.uint32, enum=_enum_lock, quick=300, env={'TZ': 'DEF-11GHI,M3.2.0,M11.1.0'})
def locktimes_east(n, T):
    judge_locktime(n, T)


def judge_locktime(n, T):
    tx = make_tx((1, [], [], n))
    check_eq(tx.to_json(JSONFlags.LOCKTIME_MEANING, get_coin(0))['locktimeMeaning'],
             locktime_text(n), 'locktimeMeaning')
    T.nontrivial()


def _enum_flags(tier):
    sig = ref_ec.der(5, 7) + b'\x41'
    ins = [(bytes(32), 0xffffffff, b'abc', 5), (b'\1' * 32, 0, ref_script.push(sig), 1)]
    outs = [(1, b'\x76\xa9\x14' + bytes(20) + b'\x88\xac'), (2, b'\xa9\x14' + bytes(20) + b'\x87'),
            (3, ref_script.push(ref_ec.ser(ref_ec.G)) + b'\xac'), (4, b'\x6a\1a'), (5, b'\x51'),
            (6, b'\x51' + ref_script.push(ref_ec.ser(ref_ec.G)) + b'\x51\xae'), (7, b'\x05'),
            (8, ref_script.push(sig)),
            (9, ref_script.push(ref_ec.ser(ref_ec.G, False)) + b'\xac')]
    for coin in range(4):
        for flags in range(64):
            yield (2, ins, outs, 700000000 + flags), flags, coin


def _large(tier):
    key = ref_script.push(ref_ec.ser(ref_ec.G)) + b'\xac'
    kinds = [b'\x76\xa9\x14' + bytes(20) + b'\x88\xac', b'\xa9\x14' + bytes(20) + b'\x87', key, b'\x51']
    sig = ref_script.push(ref_ec.der(5, 7) + b'\x41')
    for n in [*range(5, 41), 64, 99, 100, 101, 127, 128, 200, 252, 253, 255, 256, 257, 1000]:
        ins = [(k.to_bytes(32, 'big'), k, sig if k % 3 else b'', k) for k in range(n)]
        outs = [(k, kinds[k % 4]) for k in range(n)]
        yield (2, ins, outs[:3], 5), 63, n % 4
        yield (2, ins[:3], outs, 5), 63, n % 4
        yield (2, ins, outs, 5), 31, 0
    points = [ref_ec.ser(ref_ec.mul(k, ref_ec.G), k % 3 != 0) for k in range(1, 31)]
    for n in range(1, 31):
        outs = [(1, ref_script.push(ref_script.num_encode(m))
                 + b''.join(map(ref_script.push, points[:n]))
                 + ref_script.push(ref_script.num_encode(n + d)) + b'\xae')
                for m in {1, n // 2, n - 1, n, n + 1} for d in (0, 1)]
        yield (2, [], outs, 5), 63, n % 4
    for n, script in enumerate(gens.long_scripts(tier)):
        if n % 3 == 0 or len(script) > 50000:
            yield (1, [(b'\5' * 32, 1, script, 2)], [(1, script)], 0), 63 - n % 2, n % 4
    for n in (521, 65_536, 100_000, (1 << 20) + 1):
        yield (1, [(bytes(32), 0xffffffff, gens.pattern_bytes(n, 3), 2)], [(1, b'\x6a')], 0), 63, 0


def _sizes(tier):
    '''Scripts of every size in each of the places.'''
    sig = ref_ec.der(5, 7) + b'\x41'
    for n in range(0, 600):
        data = gens.pattern_bytes(n, n % 251)
        yield ((1, [(bytes(32), 0xffffffff, data, 2), (b'\5' * 32, 1, ref_script.push(sig)
                                                      + ref_script.push(data), 3)],
                [(1, b'\x6a' + data), (2, b'\0\x6a' + ref_script.push(data)),
                 (3, ref_script.push(data)), (4, b'\x61' * n + b'\x6a'), (5, b'\x51' * n)], 0),
               (63, 63, 16, 47)[n % 4], n % 4)


@C.test(enum=_sizes, shards=4)
def every_size(case, T):
    tx_json(case, T)


@C.test(enum=_large, shards=4)
def large(case, T):
    tx_json(case, T)


@C.test(enum=_enum_flags)
def every_flag_combination(case, T):
    tx_json(case, T)
