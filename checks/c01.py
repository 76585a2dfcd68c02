import struct
from io import BytesIO
import os

from hypothesis import strategies as st

import bitcoinx
from bitcoinx import Tx, TxInput, TxOutput, Script
from vlib import gens, ref_tx
from vlib.core import Check, check, check_eq, raises
from vlib.ref_hash import dsha
from vlib.util import (
    make_input, make_output, make_shared_tx, make_tx, norm_tx, plain_input, plain_output, plain_tx,
)

C = Check('C01', rule=(
    'Transactions as plain data (edge-weighted fields, scripts of boundary sizes, 0 to 300 inputs '
    'and outputs) compared with a reference codec; wire bytes with edits, non-minimal or huge '
    'counts and lengths; every proper prefix of serialisations. Non-trivial: at least one input '
    'or output, or bytes of at least 10.'))

_script = gens.weighted((6, gens.small_script), (2, gens.sized_data()), (1, gens.any_script))
_tx = gens.transaction(_script)


def exact_reader(data, T=None):
    '''A read function that never returns more than asked for; tracks consumption.'''
    return BytesIO(data)


def tx_checks(t, T):
    t = norm_tx(t)
    tx = make_tx(t)
    wire = ref_tx.ser(t)
    check_eq(tx.to_bytes(), wire, 'to_bytes')
    check_eq(tx.to_hex(), wire.hex(), 'to_hex')
    check_eq(tx.size(), len(wire), 'size')
    check_eq(Tx.size_io(tx.inputs, tx.outputs), len(wire), 'size_io')
    check_eq(tx.hash(), dsha(wire), 'hash')
    check_eq(tx.hex_hash(), dsha(wire)[::-1].hex(), 'hex_hash')
    for tx2 in (Tx.from_bytes(wire), Tx.from_hex(wire.hex()), Tx.from_hex(wire.hex().upper())):
        check_eq(plain_tx(tx2), t, 'parsed')
        check(tx2 == tx and not tx2 != tx, 'parsed tx is not equal')
        check(isinstance(tx2, Tx), 'type')
        check(all(isinstance(i, TxInput) and isinstance(i.script_sig, Script)
                  for i in tx2.inputs), 'input types')
        check(all(isinstance(o, TxOutput) and isinstance(o.script_pubkey, Script)
                  for o in tx2.outputs), 'output types')
        check_eq(tx2.to_bytes(), wire, 're-serialised')
    check_eq(plain_tx(tx), t, 'serialising altered the tx')


repeating_tx = st.tuples(
    gens.int32, gens.repeating(gens.tx_input(_script)), gens.repeating(gens.tx_output(_script)),
    gens.uint32)


@C.test(repeating_tx, quick=800, shards=2)
def shared_objects(t, T):
    '''The same input, output or script object in several places.'''
    t = norm_tx(t)
    tx = make_shared_tx(t)
    wire = ref_tx.ser(t)
    for _ in range(2):
        check_eq(tx.to_bytes(), wire, 'to_bytes')
        check_eq(tx.size(), len(wire), 'size')
        check_eq(tx.hash(), dsha(wire), 'hash')
    check(tx == make_tx(t) and make_tx(t) == tx, 'not equal to one of separate objects')
    check_eq(plain_tx(tx), t, 'serialising altered the tx')
    tx_checks(t, T)
    if len(t[1]) > 1 or len(t[2]) > 1:
        T.nontrivial()


@C.test(enum=lambda tier: gens.LARGE_SIZES + (gens.HUGE_SIZES if tier != 'quick' else [1 << 24]),
        shards=2)
def large_scripts(size, T):
    script = gens.pattern_bytes(size, size % 251)
    tx_checks((1, [(b'\7' * 32, 1, script, 2), (b'\6' * 32, 1, script[::-1], 3)],
               [(5, script), (7, script[1:])], 9), T)
    T.nontrivial()


@C.test(enum=lambda tier: range(0, 700), shards=2)
def every_script_size(size, T):
    script = gens.pattern_bytes(size, size % 251)
    ins = [(b'\7' * 32, 1, script, 2), (b'\6' * 32, 1, script[::-1], 3)]
    outs = [(5, script), (7, script[1:])]
    tx_checks((1, ins, outs, 9), T)
    for plain, make, cls, ser, back in ((ins[0], make_input, TxInput, ref_tx.ser_in, plain_input),
                                        (outs[0], make_output, TxOutput, ref_tx.ser_out,
                                         plain_output)):
        wire = ser(plain)
        check_eq(make(plain).to_bytes(), wire, 'to_bytes')
        check_eq(make(plain).size(), len(wire), 'size')
        check_eq(back(cls.from_bytes(wire)), plain, 'parsed')
        check_eq(back(cls.from_hex(wire.hex())), plain, 'parsed hex')
    T.nontrivial()


def _enum_counts(tier):
    for n in range(0, 301 if tier == 'quick' else 1500):
        yield n, 1
        yield 1, n
        if n % 4 == 0:
            yield n, n


@C.test(enum=_enum_counts, shards=4)
def every_count(case, T):
    nin, nout = case
    ins = [(n.to_bytes(32, 'big'), n * 3, bytes([n & 0xff]) * (n % 3), 0xffffffff - n)
           for n in range(nin)]
    outs = [(n * 10**6, bytes([n & 0xff]) * (n % 4)) for n in range(nout)]
    tx_checks((nin, ins, outs, nout), T)
    T.nontrivial()


@C.test(_tx, quick=3200, shards=4, examples=[
    (1, [], [], 0),
    (-1, [(bytes(32), 0xffffffff, b'', 0xffffffff)], [(-1, b'')], 0xffffffff),
    (2, [(b'\1' * 32, 7, b'x' * n, n) for n in (0, 1, 252, 253, 254, 65535, 65536)],
     [(n, b'y' * n) for n in (0, 1, 252, 253, 254, 65535, 65536)], 5),
])
def roundtrip(t, T):
    tx_checks(t, T)
    T.label(f'inputs={min(len(t[1]), 3)}', f'outputs={min(len(t[2]), 3)}')
    if t[1] or t[2]:
        T.nontrivial()


_counts = [0, 1, 2, 251, 252, 253, 254, 255, 256, 257, 300]


@C.test(st.tuples(st.sampled_from(_counts), st.sampled_from(_counts), gens.int32, gens.uint32,
                  st.integers(0, 3)), quick=60, thorough=600, shards=1,
        examples=[(65535, 2, 1, 0, 0), (2, 65536, 1, 0, 0), (65536, 65535, 1, 0, 1)])
def many_items(case, T):
    nin, nout, version, locktime, ssize = case
    ins = [(bytes([n & 0xff]) * 32, n, bytes([n & 0xff]) * ssize, 0xffffffff - n)
           for n in range(nin)]
    outs = [(n * 10**6, bytes([n & 0xff]) * ssize) for n in range(nout)]
    tx_checks((version, ins, outs, locktime), T)
    T.nontrivial()


@C.test(st.tuples(st.lists(gens.tx_input(_script), max_size=3),
                  st.lists(gens.tx_output(_script), max_size=3)), quick=800)
def parts(case, T):
    '''Inputs and outputs on their own, and from a stream.'''
    ins, outs = case
    for plain, make, cls, ser, back in (
            [(i, make_input, TxInput, ref_tx.ser_in, plain_input) for i in ins]
            + [(o, make_output, TxOutput, ref_tx.ser_out, plain_output) for o in outs]):
        obj = make(plain)
        wire = ser(plain)
        check_eq(obj.to_bytes(), wire, 'to_bytes')
        check_eq(obj.to_hex(), wire.hex(), 'to_hex')
        check_eq(obj.size(), len(wire), 'size')
        for obj2 in (cls.from_bytes(wire), cls.from_hex(wire.hex())):
            check_eq(back(obj2), tuple(plain), 'parsed')
            check(obj2 == obj, 'parsed part is not equal')
        stream = BytesIO(wire + b'\xaa' * 9)
        check(cls.read(stream.read) == obj, 'read')
        check_eq(stream.tell(), len(wire), 'consumed')
        cuts = range(len(wire)) if len(wire) < 150 else \
            sorted({0, 31, 36, 40, 41, 45, len(wire) // 2, len(wire) - 5, len(wire) - 1})
        for cut in cuts:
            raises(struct.error, cls.from_bytes, wire[:cut])
            raises(struct.error, cls.from_hex, wire[:cut].hex())
            T.count()
    if ins or outs:
        T.nontrivial()


@C.test(st.lists(_tx, min_size=1, max_size=5), quick=400)
def stream(txs, T):
    '''Consecutive transactions from one stream, each consuming its own bytes only.'''
    wires = [ref_tx.ser(norm_tx(t)) for t in txs]
    f = BytesIO(b''.join(wires))
    pos = 0
    for t, wire in zip(txs, wires):
        tx = Tx.read(f.read)
        pos += len(wire)
        check_eq(f.tell(), pos, 'stream position')
        check_eq(plain_tx(tx), norm_tx(t), 'tx read')
    raises(struct.error, Tx.read, f.read)
    # The same from a file, which then ends in a script declared far longer than the file
    path = os.path.join(T.scratch(), 'stream')
    with open(path, 'wb') as f:
        f.write(b''.join(wires) + bytes(4) + b'\1' + bytes(36) + b'\xff' + bytes(7) + b'\x40abc')
    for buffering in (-1, 0):
        with open(path, 'rb', buffering=buffering) as f:
            for t in txs:
                check_eq(plain_tx(Tx.read(f.read)), norm_tx(t), 'tx read from a file')
            check_eq(f.tell(), pos, 'position in the file')
            raises(struct.error, Tx.read, f.read)
    if len(txs) > 1:
        T.nontrivial()


@C.test(gens.transaction(gens.small_script, max_in=3, max_out=3), quick=240, shards=2)
def prefixes(t, T):
    '''Every proper prefix is refused.'''
    wire = ref_tx.ser(norm_tx(t))
    for cut in range(len(wire)):
        raises(struct.error, Tx.from_bytes, wire[:cut])
        if cut % 7 == 0:
            raises(struct.error, Tx.from_hex, wire[:cut].hex())
        T.count()
    T.nontrivial()


@st.composite
def _loose_wire(draw):
    '''Wire bytes with arbitrary encodings of counts and lengths.'''
    def varint(n):
        form = draw(st.sampled_from(['min'] * 6 + ['fd', 'fe', 'ff', 'huge', 'plus']))
        if form == 'fd' and n < 65536:
            return b'\xfd' + n.to_bytes(2, 'little')
        if form == 'fe':
            return b'\xfe' + n.to_bytes(4, 'little')
        if form == 'ff':
            return b'\xff' + n.to_bytes(8, 'little')
        if form == 'huge' and draw(st.integers(0, 3)) == 0:
            return b'\xff' + draw(st.sampled_from(
                [(1 << 63) - 1, 1 << 63, (1 << 64) - 1, 1 << 40, 1 << 32, 1 << 62])).to_bytes(
                    8, 'little')
        if form == 'plus' and draw(st.integers(0, 3)) == 0:
            return ref_tx.varint(n + draw(st.integers(1, 300)))
        return ref_tx.varint(n)
    version, ins, outs, locktime = draw(gens.transaction(gens.small_script, max_in=3, max_out=3))
    parts = [version.to_bytes(4, 'little', signed=True), varint(len(ins))]
    for h, idx, script, seq in ins:
        parts += [h, idx.to_bytes(4, 'little'), varint(len(script)), script,
                  seq.to_bytes(4, 'little')]
    parts.append(varint(len(outs)))
    for value, script in outs:
        parts += [value.to_bytes(8, 'little', signed=True), varint(len(script)), script]
    parts.append(locktime.to_bytes(4, 'little'))
    return b''.join(parts)


@C.test(st.one_of(_loose_wire(), gens.corrupt(_loose_wire()), st.binary(max_size=90)),
        quick=2400, shards=2, examples=[
            b'', bytes(9), bytes(10), bytes(11),
            bytes(4) + b'\1' + bytes(36) + b'\xff' + b'\xff' * 8 + bytes(20),
            bytes(4) + b'\1' + bytes(36) + b'\xff' + bytes(7) + b'\x80' + bytes(20),
            bytes(4) + b'\xff' * 9 + bytes(20),
            bytes(5) + b'\xff' * 9 + bytes(20),
        ])
def any_wire(data, T):
    want = ref_tx.parse(data)
    if want is None:
        T.label('short')
        raises(struct.error, Tx.from_bytes, data)
    else:
        T.label('complete')
        t, used = want
        f = BytesIO(data)
        tx = Tx.read(f.read)
        check_eq(f.tell(), used, 'consumed')
        check_eq(plain_tx(tx), t, 'parsed')
        check_eq(tx.to_bytes(), ref_tx.ser(t), 'serialised')
        check_eq(tx.size(), len(ref_tx.ser(t)), 'size')
    if len(data) >= 10:
        T.nontrivial()


@C.test(st.tuples(_tx, st.sampled_from(['version', 'locktime', 'prev_hash', 'prev_idx', 'sequence',
                                        'value', 'script_sig', 'script_pubkey', 'add_in',
                                        'add_out', 'swap_in', 'swap_out']), gens.uint32),
        quick=500)
def changes_tracked(case, T):
    '''Size, hash and bytes follow a change made to a transaction already used.'''
    t, field, x = case
    tx = make_tx(norm_tx(t))
    before = (tx.to_bytes(), tx.hash(), tx.size())
    check_eq(before[0], ref_tx.ser(norm_tx(t)), 'bytes before')
    if field in ('version', 'locktime'):
        setattr(tx, field, x & 0x7fffffff)
    elif field in ('prev_hash', 'prev_idx', 'sequence', 'script_sig'):
        if not tx.inputs:
            return
        txin = tx.inputs[x % len(tx.inputs)]
        setattr(txin, field, {'prev_hash': x.to_bytes(32, 'big'), 'prev_idx': x, 'sequence': x,
                              'script_sig': Script(x.to_bytes(x % 300 + 4, 'big'))}[field])
    elif field in ('value', 'script_pubkey'):
        if not tx.outputs:
            return
        out = tx.outputs[x % len(tx.outputs)]
        setattr(out, field, {'value': x, 'script_pubkey': Script(x.to_bytes(x % 300 + 4, 'big'))}
                [field])
    elif field == 'add_in':
        tx.inputs.append(TxInput(bytes(32), x, Script(), 0))
    elif field == 'add_out':
        tx.outputs.append(TxOutput(x, Script()))
    elif field == 'swap_in':
        tx.inputs.reverse()
    else:
        tx.outputs.reverse()
    wire = ref_tx.ser(plain_tx(tx))
    check_eq(tx.to_bytes(), wire, 'bytes after change')
    check_eq(tx.hash(), dsha(wire), 'hash after change')
    check_eq(tx.hex_hash(), dsha(wire)[::-1].hex(), 'hex hash after change')
    check_eq(tx.size(), len(wire), 'size after change')
    check_eq(tx == make_tx(norm_tx(t)), wire == before[0], 'equality')
    T.nontrivial()


@C.test(st.tuples(_tx, st.sampled_from(['version', 'locktime', 'prev_idx', 'sequence', 'value']),
                  st.sampled_from([-(1 << 31) - 1, 1 << 31, -1, 1 << 32, 1 << 63,
                                   -(1 << 63) - 1, 1 << 64])), quick=200)
def out_of_range_refused(case, T):
    '''A field outside its wire range is never silently serialised.'''
    t, field, x = case
    lo, hi = {'version': (-(1 << 31), (1 << 31) - 1), 'value': (-(1 << 63), (1 << 63) - 1)}.get(
        field, (0, (1 << 32) - 1))
    if lo <= x <= hi:
        return
    tx = make_tx(norm_tx(t))
    if field in ('version', 'locktime'):
        setattr(tx, field, x)
    elif field == 'value':
        tx.outputs.append(TxOutput(x, Script()))
    else:
        tx.inputs.append(TxInput(bytes(32), 0, Script(), 0))
        setattr(tx.inputs[-1], field, x)
    raises(Exception, tx.to_bytes)
    T.nontrivial()
