from hypothesis import strategies as st

from bitcoinx import Script, SigHash, TxOutput
from vlib import gens, ref_tx
from vlib.core import Check, check, check_eq, raises
from vlib.util import make_shared_tx, make_tx, norm_tx, plain_tx

C = Check('C02', rule=(
    'Transactions with 1 to 6 inputs and 0 to 6 outputs, any input index, value, script code (also '
    'as bytes) and every sighash byte or 32-bit flags, against a reference BIP143 digest; pairs of '
    'transactions differing in one field, with a commitment table deciding whether the hash must '
    'change. Non-trivial: more than one input or output, or a flag other than ALL|FORKID.'))

_script = gens.weighted((6, gens.small_script), (1, gens.sized_data()))
_tx = gens.transaction(_script, min_in=1, max_in=6, max_out=6).filter(lambda t: len(t[1]) > 0)
_value = gens.edge_ints(0, (1 << 63) - 1)
_flags = gens.weighted(
    (6, st.sampled_from([0x41, 0x42, 0x43, 0xc1, 0xc2, 0xc3, 1, 2, 3, 0x81, 0x82, 0x83, 0, 0x40,
                         0x80, 0xc0, 0x1f, 0x22, 0x23, 0x5f, 0x61, 0x62, 0x63, 0xe3, 0x44])),
    (3, gens.byte), (1, gens.uint32))
_opt_flags = st.one_of(st.none(), _flags)


def sig_hash(tx, index, value, script, flags):
    if flags is None:
        return tx.signature_hash(index, value, script)
    return tx.signature_hash(index, value, script, sighash=SigHash(flags))


@C.test(st.tuples(_tx, st.integers(0, 1000), _value, _script, _opt_flags, st.booleans()),
        quick=3600, shards=6)
def matches_bip143(case, T):
    t, n, value, script, flags, as_bytes = case
    t = norm_tx(t)
    index = n % len(t[1])
    tx = make_tx(t)
    eff = 0x41 if flags is None else flags
    want = ref_tx.sighash(t, index, value, script, eff)
    code = script if as_bytes else Script(script)
    check_eq(sig_hash(tx, index, value, code, flags), want, f'signature_hash flags {eff:#x}')
    check_eq(plain_tx(tx), t, 'signature_hash altered the tx')
    # Asking again, in another order, gives the same answers (no stale state)
    for other in {0, len(t[1]) - 1}:
        for f in (None, 0xc3, 0x42):
            check_eq(sig_hash(tx, other, value, code, f),
                     ref_tx.sighash(t, other, value, script, 0x41 if f is None else f),
                     f'signature_hash index {other}')
    check_eq(sig_hash(tx, index, value, code, flags), want, 'signature_hash repeated')
    T.label('single-no-output' if eff & 0x1f == 3 and index >= len(t[2]) else 'other',
            f'base={eff & 0x1f}' if eff & 0x1f in (1, 2, 3) else 'base=other',
            'acp' if eff & 0x80 else 'all-inputs')
    if len(t[1]) > 1 or len(t[2]) > 1 or eff != 0x41:
        T.nontrivial()


@C.test(st.tuples(st.tuples(gens.int32, gens.repeating(gens.tx_input(gens.small_script), 1),
                            gens.repeating(gens.tx_output(gens.small_script)), gens.uint32),
                  _value, gens.small_script, _flags), quick=800, shards=2)
def shared_objects(case, T):
    '''The same input, output or script object in several places.'''
    t, value, script, flags = case
    t = norm_tx(t)
    tx = make_shared_tx(t)
    for index in range(len(t[1])):
        for f in (flags, 0xc3, 0x43):
            check_eq(sig_hash(tx, index, value, script, f),
                     ref_tx.sighash(t, index, value, script, f), f'index {index}, flags {f:#x}')
    # The signed script as the code object itself
    if t[2]:
        check_eq(sig_hash(tx, 0, value, tx.outputs[0].script_pubkey, flags),
                 ref_tx.sighash(t, 0, value, t[2][0][1], flags), 'script of an output')
    check_eq(plain_tx(tx), t, 'signature_hash altered the tx')
    if len(t[1]) > 1 or len(t[2]) > 1:
        T.nontrivial()


def _enum_flags(tier):
    t = (2, [(bytes([n]) * 32, n, b'\x51' * n, 0xfffffff0 + n) for n in range(4)],
         [(1000 + n, b'\x76' * n) for n in range(3)], 77)
    for flags in range(256):
        for index in range(4):
            yield t, index, 5000000000 + index, b'\x76\xa9\x14' + bytes(20) + b'\x88\xac', flags
    for flags in (1 << 8 | 0x41, 0xffffffff, 1 << 31, 0x1c3):
        yield t, 2, 0, b'', flags


@C.test(enum=_enum_flags)
def every_flag_byte(case, T):
    t, index, value, script, flags = case
    t = norm_tx(t)
    check_eq(sig_hash(make_tx(t), index, value, Script(script), flags),
             ref_tx.sighash(t, index, value, script, flags), f'flags {flags:#x} index {index}')
    T.nontrivial()


def _enum_sizes(tier):
    counts = [7, 15, 16, 31, 33, 64, 100, 127, 128, 129, 252, 253, 254, 255, 256, 257, 300]
    counts += [999, 1000, 1001, 1024] if tier == 'quick' else [1024, 4096, 5000, 65535, 65536]
    for n in counts:
        for ins, outs in ((n, 2), (2, n), (n, n)):
            for flags in (0x41, 0x42, 0x43, 0xc1, 0xc3):
                yield ins, outs, flags
    for ins, outs in ((70000, 3), (3, 70000)):
        for flags in (0x41, 0x43):
            yield ins, outs, flags
    for n in (251, 252, 253, 254, 519, 520, 521, 10000, 10001, *gens.LARGE_SIZES):
        yield n, 0, 0x41


@C.test(enum=_enum_sizes)
def large(case, T):
    '''Many inputs, many outputs, or (no outputs) a long script code.'''
    n, m, flags = case
    if not m:
        tx = make_tx(norm_tx((1, [(b'\3' * 32, 1, b'', 2)], [(5, b'\x51' * n)], 0)))
        code = b'\xab' * n
        check_eq(tx.signature_hash(0, 7, Script(code)), ref_tx.sighash(
            plain_tx(tx), 0, 7, code, 0x41), f'code of {n} bytes')
        T.nontrivial()
        return
    t = norm_tx((1, [((k + 5).to_bytes(32, 'little'), k, b'', 0xffffffff - k) for k in range(n)],
                 [(k * 1009, b'\x51' * (k % 5)) for k in range(m)], n))
    tx = make_tx(t)
    for index in sorted({0, 1, n // 2, min(m, n) - 1, min(m, n - 1), n - 1}):
        check_eq(sig_hash(tx, index, n * m, b'\x52', flags),
                 ref_tx.sighash(t, index, n * m, b'\x52', flags),
                 f'{n} inputs, {m} outputs, index {index}, flags {flags:#x}')
    T.nontrivial()


def _enum_every(tier):
    for n in range(1, 301 if tier == 'quick' else 1000):
        yield n, 2
        yield 2, n
    for n in range(0, 700):
        yield n, None


@C.test(enum=_enum_every, shards=4)
def every_size(case, T):
    '''Every number of inputs, of outputs, and (outputs None) every length of script code.'''
    n, m = case
    if m is None:
        t = norm_tx((1, [(b'\3' * 32, 1, b'', 2)], [(5, gens.pattern_bytes(n, 1))], 0))
        tx = make_tx(t)
        code = gens.pattern_bytes(n, n % 251)
        for flags in (0x41, 0x43):
            check_eq(sig_hash(tx, 0, n, Script(code), flags),
                     ref_tx.sighash(t, 0, n, code, flags), f'code of {n} bytes')
        T.nontrivial()
        return
    t = norm_tx((1, [((k + 5).to_bytes(32, 'little'), k, b'', 0xffffffff - k) for k in range(n)],
                 [(k * 1009, b'\x51' * (k % 5)) for k in range(m)], n))
    tx = make_tx(t)
    for k, index in enumerate(sorted({0, n // 2, min(m, n) - 1, min(m, n - 1), n - 1})):
        for flags in ((0x41, 0x43) if k % 2 else (0x41, 0x42, 0xc1, 0xc3)):
            check_eq(sig_hash(tx, index, n * m, b'\x52', flags),
                     ref_tx.sighash(t, index, n * m, b'\x52', flags),
                     f'{n} inputs, {m} outputs, index {index}, flags {flags:#x}')
    T.nontrivial()


def commits(field, flags, same, exists):
    '''Is the field committed to?  same: it is of the signed input (or the output of its index).'''
    base, acp = flags & 0x1f, flags & 0x80
    if field in ('version', 'locktime', 'flags', 'value', 'code'):
        return True
    if field in ('prev_hash', 'prev_idx'):
        return same or not acp
    if field == 'sequence':
        return same or not (acp or base in (2, 3))
    if field == 'script_sig':
        return False
    if field in ('out_value', 'out_script'):
        return base not in (2, 3) or (base == 3 and same)
    if field == 'add_in':
        return not acp
    if field == 'add_out':
        # index of the added output is len(outputs)
        return base not in (2, 3) or (base == 3 and same)
    raise AssertionError(field)


_fields = ['version', 'locktime', 'flags', 'value', 'code', 'prev_hash', 'prev_idx', 'sequence',
           'script_sig', 'out_value', 'out_script', 'add_in', 'add_out']


@C.test(st.tuples(_tx, st.integers(0, 5), _value, gens.small_script, _flags,
                  st.sampled_from(_fields), st.integers(0, 5), gens.uint32),
        quick=1600, shards=2)
def commitment(case, T):
    '''Changing a selected field changes the hash; changing an unselected one does not.'''
    t, n, value, script, flags, field, m, x = case
    t = norm_tx(t)
    index = n % len(t[1])
    version, ins, outs, locktime = t
    tx = make_tx(t)
    before = sig_hash(tx, index, value, Script(script), flags)
    same = False
    k = m % len(ins)
    if field == 'version':
        tx.version = version + 1 if version < (1 << 31) - 1 else 0
    elif field == 'locktime':
        tx.locktime = (locktime + 1) & 0xffffffff
    elif field == 'flags':
        flags ^= 1 << (x % 32)
        if flags & 0x9f != case[4] & 0x9f:
            field = 'flags'
    elif field == 'value':
        value = value + 1 if value < (1 << 63) - 1 else 0
    elif field == 'code':
        script = script + b'\x51'
    elif field in ('prev_hash', 'prev_idx', 'sequence', 'script_sig'):
        same = k == index
        txin = tx.inputs[k]
        if field == 'prev_hash':
            b = bytearray(txin.prev_hash)
            b[x % 32] ^= 1 << (x >> 5) % 8
            txin.prev_hash = bytes(b)
        elif field == 'script_sig':
            txin.script_sig = Script(bytes(txin.script_sig) + b'\0')
        else:
            setattr(txin, field, (getattr(txin, field) + 1 + x % 5) & 0xffffffff)
    elif field in ('out_value', 'out_script'):
        if not outs:
            return
        k = m % len(outs)
        same = k == index
        out = tx.outputs[k]
        if field == 'out_value':
            out.value = out.value + 1 if out.value < (1 << 63) - 1 else 0
        else:
            out.script_pubkey = Script(bytes(out.script_pubkey) + b'\0')
    elif field == 'add_in':
        tx.inputs.append(make_tx((1, [(bytes([7]) * 32, x, b'', x)], [], 0)).inputs[0])
    else:
        same = len(tx.outputs) == index
        tx.outputs.append(TxOutput(x, Script(b'\x52')))
    after = sig_hash(tx, index, value, Script(script), flags)
    want = commits(field, flags, same, True)
    check(want == (before != after), 'field {}: hash changed {} want {}', field, before != after,
          want)
    check_eq(after, ref_tx.sighash(plain_tx(tx), index, value, script, flags), 'after the change')
    T.label(f'{field}:{"selected" if want else "unselected"}')
    T.nontrivial()


@C.test(st.tuples(_tx, st.sampled_from([-1, -2, 0, 1, 2, 1 << 31, -(1 << 40)]),
                  gens.edge_ints(-(1 << 63), -1), _flags,
                  st.sampled_from(['index', 'value', 'type'])), quick=400)
def refusals(case, T):
    t, delta, value, flags, kind = case
    t = norm_tx(t)
    tx = make_tx(t)
    sighash = SigHash(flags)
    if kind == 'index':
        index = len(t[1]) + delta if delta >= 0 else delta
        raises(IndexError, tx.signature_hash, index, 5, Script(), sighash=sighash)
        raises(IndexError, tx.signature_hash, index, 5, Script())
    elif kind == 'value':
        raises(ValueError, tx.signature_hash, 0, value, Script(), sighash=sighash)
        raises(ValueError, tx.signature_hash, 0, value, Script())
    else:
        for bad in (flags, float(flags), str(flags), bytes([flags & 0xff]), True, False, 0):
            raises(TypeError, tx.signature_hash, 0, 5, Script(), sighash=bad)
    check_eq(plain_tx(tx), t, 'tx altered')
    T.label(kind)
    T.nontrivial()
