import io
import mmap
import os
import struct

from hypothesis import strategies as st

import bitcoinx
from bitcoinx import packing
from vlib import gens, ref_tx
from vlib.core import Check, check, check_eq, raises

C = Check('C05', rule=(
    'For each of the fixed-width codecs, edge-weighted values in and out of range, at offsets in '
    'buffers and in streams, against int.to_bytes; varints of every length class, byte strings and '
    'lists round trip through streams (also an mmap and files), truncated at every point; non-minimal and '
    'over-long declarations. Non-trivial: a value of more than one byte or a non-empty container.'))

# name: (size, signed, order)
CODECS = {'le_int32': (4, True, 'little'), 'le_int64': (8, True, 'little'),
          'le_uint16': (2, False, 'little'), 'le_uint32': (4, False, 'little'),
          'le_uint64': (8, False, 'little'), 'be_uint16': (2, False, 'big'),
          'be_uint32': (4, False, 'big'), 'be_uint64': (8, False, 'big')}


@C.test(st.tuples(st.sampled_from(sorted(CODECS)), gens.edge_ints(-(1 << 65), 1 << 65),
                  st.integers(0, 9), st.binary(max_size=9)), quick=8000, shards=4)
def fixed_width(case, T):
    name, value, offset, tail = case
    size, signed, order = CODECS[name]
    pack = getattr(bitcoinx, f'pack_{name}')
    unpack = getattr(bitcoinx, f'unpack_{name}')
    unpack_from = getattr(bitcoinx, f'unpack_{name}_from')
    read = getattr(bitcoinx, f'read_{name}', None)
    lo, hi = (-(1 << 8 * size - 1), (1 << 8 * size - 1) - 1) if signed else (0, (1 << 8 * size) - 1)
    for v in {value, max(lo, min(hi, value)), value & hi}:
        if not lo <= v <= hi:
            raises((struct.error, ValueError, OverflowError), pack, v)
            T.label('out of range')
            continue
        wire = v.to_bytes(size, order, signed=signed)
        check_eq(pack(v), wire, f'pack_{name}')
        check_eq(unpack(wire), (v,), f'unpack_{name}')
        buf = bytes(range(offset)) + wire + tail
        check_eq(unpack_from(buf, offset), (v,), f'unpack_{name}_from')
        check_eq(unpack_from(bytearray(buf), offset), (v,), f'unpack_{name}_from bytearray')
        if not offset:
            check_eq(unpack_from(buf), (v,), f'unpack_{name}_from no offset')
        f = io.BytesIO(buf)
        f.seek(offset)
        if read:
            check_eq(read(f.read), v, f'read_{name}')
            check_eq(f.tell(), offset + size, f'read_{name} consumed')
            for cut in range(size):
                raises(struct.error, read, io.BytesIO(wire[:cut]).read)
        for cut in range(size):
            raises(struct.error, unpack, wire[:cut])
            raises(struct.error, unpack_from, bytes(offset) + wire[:cut], offset)
        raises(struct.error, unpack, wire + b'\0')
        if v > 255 or v < 0:
            T.nontrivial()


def _bytes_enum(tier):
    yield from range(-2, 260)
    yield from (65534, 65535, 65536, 65537, 1 << 32)


@C.test(enum=_bytes_enum)
def byte_and_port(n, T):
    if 0 <= n <= 255:
        check_eq(bitcoinx.pack_byte(n), bytes([n]), 'pack_byte')
        check_eq(bitcoinx.unpack_byte(bytes([n])), (n,), 'unpack_byte')
    else:
        raises(struct.error, bitcoinx.pack_byte, n)
    if 0 <= n <= 65535:
        check_eq(bitcoinx.pack_port(n), n.to_bytes(2, 'big'), 'pack_port')
        check_eq(bitcoinx.unpack_port(n.to_bytes(2, 'big')), (n,), 'unpack_port')
    else:
        raises(struct.error, bitcoinx.pack_port, n)
    T.nontrivial()


def _varint_enum(tier):
    for base in (0, 252, 253, 254, 255, 256, 65535, 65536, (1 << 32) - 1, 1 << 32, (1 << 64) - 1,
                 1 << 63, 1 << 16, 1 << 24, 1 << 31, 1 << 40, 1 << 48):
        for d in (-2, -1, 0, 1, 2):
            yield base + d
    if tier == 'quick':
        yield from range(0, 70000, 13)
    else:
        yield from range(0, 1 << 18)


@C.test(gens.edge_ints(-5, (1 << 64) + 5), enum=_varint_enum, quick=3000, shards=2)
def varint(n, T):
    if not 0 <= n < 1 << 64:
        raises(ValueError, bitcoinx.varint_len, n)
        raises((struct.error, ValueError), bitcoinx.pack_varint, n)
        return
    wire = ref_tx.varint(n)
    check_eq(bitcoinx.pack_varint(n), wire, 'pack_varint')
    check_eq(bitcoinx.varint_len(n), len(wire), 'varint_len')
    f = io.BytesIO(wire + b'\x99')
    check_eq(bitcoinx.read_varint(f.read), n, 'read_varint')
    check_eq(f.tell(), len(wire), 'read_varint consumed')
    for cut in range(len(wire)):
        raises(struct.error, bitcoinx.read_varint, io.BytesIO(wire[:cut]).read)
    # Longer forms denote the same number
    for prefix, size in ((b'\xfd', 2), (b'\xfe', 4), (b'\xff', 8)):
        if n < 1 << 8 * size:
            form = prefix + n.to_bytes(size, 'little')
            f = io.BytesIO(form + b'\1')
            check_eq(bitcoinx.read_varint(f.read), n, f'read_varint {prefix}')
            check_eq(f.tell(), len(form), 'consumed')
    if n > 252:
        T.nontrivial()


def _varbytes_enum(tier):
    for n in range(0, 700 if tier == 'quick' else 5000):
        yield [gens.pattern_bytes(n, n % 251)]
        yield [b'', gens.pattern_bytes(n, 1), gens.pattern_bytes(n + 1, 2), b'\xfd']


@C.test(st.lists(gens.sized_data(), min_size=1, max_size=4), quick=800, shards=2,
        enum=_varbytes_enum)
def varbytes(items, T):
    wires = []
    for d in items:
        wire = ref_tx.varint(len(d)) + d
        check_eq(bitcoinx.pack_varbytes(d), wire, 'pack_varbytes')
        wires.append(wire)
        head = len(wire) - len(d)
        cuts = set(range(min(12, len(wire)))) | {len(wire) - 1, len(wire) // 2, head}
        for cut in cuts:
            if cut < len(wire):
                raises(struct.error, bitcoinx.read_varbytes, io.BytesIO(wire[:cut]).read)
    f = io.BytesIO(b''.join(wires))
    for d in items:
        check_eq(bitcoinx.read_varbytes(f.read), d, 'read_varbytes')
    check_eq(f.tell(), sum(map(len, wires)), 'consumed')
    raises(struct.error, bitcoinx.read_varbytes, f.read)
    # From a memory map, as header files are read
    m = mmap.mmap(-1, len(b''.join(wires)))
    m[:] = b''.join(wires)
    for d in items:
        check_eq(bytes(bitcoinx.read_varbytes(m.read)), d, 'read_varbytes from mmap')
    m.close()
    if any(items):
        T.nontrivial()


@C.test(enum=lambda tier: gens.LARGE_SIZES + gens.HUGE_SIZES[:None if tier != 'quick' else 3],
        shards=2)
def large_varbytes(size, T):
    data = gens.pattern_bytes(size, size % 253)
    wire = ref_tx.varint(size) + data
    check_eq(bitcoinx.pack_varbytes(data), wire, 'pack_varbytes')
    f = io.BytesIO(wire + b'\1' + wire)
    check_eq(bitcoinx.read_varbytes(f.read), data, 'read_varbytes')
    check_eq(f.tell(), len(wire), 'consumed')
    check_eq(f.read(1), b'\1', 'next byte')
    check_eq(bitcoinx.read_varbytes(f.read), data, 'read_varbytes again')
    for cut in {len(wire) - 1, len(wire) // 2, len(wire) - 4096, (1 << 16) + 5, (1 << 20) + 5}:
        if 0 < cut < len(wire):
            raises(struct.error, bitcoinx.read_varbytes, io.BytesIO(wire[:cut]).read)
    wire = b'\3' + wire + b'\0' + wire
    f = io.BytesIO(wire + b'\1')
    check_eq(bitcoinx.read_list(f.read, bitcoinx.read_varbytes), [data, b'', data], 'read_list')
    check_eq(f.tell(), len(wire), 'consumed')
    check_eq(bitcoinx.pack_list([data, b'', data], bitcoinx.pack_varbytes), wire, 'pack_list')
    T.nontrivial()


@C.test(enum=lambda tier: [(4096 + d, k) for d in (-1, 0, 1) for k in range(3)] + [
    (n, k) for n in (10_000, 65_535, 65_536, 65_537, 70_000, 131_073) for k in range(3)])
def large_lists(case, T):
    count, kind = case
    items = list(range(count))
    pack, read, ser = (
        (bitcoinx.pack_le_uint32, bitcoinx.read_le_uint32, lambda v: v.to_bytes(4, 'little')),
        (bitcoinx.pack_varint, bitcoinx.read_varint, ref_tx.varint),
        (lambda n: bitcoinx.pack_varbytes(b'x' * (n % 5)),
         lambda read: len(bitcoinx.read_varbytes(read)),
         lambda n: bytes([n % 5]) + b'x' * (n % 5)))[kind]
    if kind == 2:
        items = [n % 5 for n in items]
    wire = ref_tx.varint(count) + b''.join(map(ser, items))
    check_eq(bitcoinx.pack_list(items, pack), wire, 'pack_list')
    f = io.BytesIO(wire + b'\0\0')
    check_eq(list(bitcoinx.read_list(f.read, read)), items, 'read_list')
    check_eq(f.tell(), len(wire), 'consumed')
    for cut in (len(wire) - 1, len(wire) // 2):
        raises(struct.error, bitcoinx.read_list, io.BytesIO(wire[:cut]).read, read)
    T.nontrivial()


@C.test(st.tuples(st.one_of(st.integers(0, 300), gens.uint64), st.binary(max_size=40),
                  st.sampled_from(['min', 'fd', 'fe', 'ff'])), quick=1500,
        examples=[(1 << 63, b'', 'ff'), ((1 << 64) - 1, b'abc', 'ff'), ((1 << 63) - 1, b'', 'ff'),
                  (1 << 32, b'', 'ff'), (1 << 62, b'abc', 'ff'), (1 << 47, b'', 'ff')])
def declared_length(case, T):
    '''A declared length beyond the data is refused, whatever its size and form.'''
    n, data, form = case
    if form == 'fd' and n < 1 << 16:
        wire = b'\xfd' + n.to_bytes(2, 'little')
    elif form == 'fe' and n < 1 << 32:
        wire = b'\xfe' + n.to_bytes(4, 'little')
    elif form == 'ff':
        wire = b'\xff' + n.to_bytes(8, 'little')
    else:
        wire = ref_tx.varint(n)
    f = io.BytesIO(wire + data)
    # Files, buffered or not, allocate what they are asked for, so nothing sizeable that succeeds
    if n < 1 << 24 or n >= 1 << 46:
        path = os.path.join(T.scratch(), 'stream')
        with open(path, 'wb') as out:
            out.write(wire + data)
        for buffering in (-1, 0):
            with open(path, 'rb', buffering=buffering) as file:
                if n > len(data):
                    raises(struct.error, bitcoinx.read_varbytes, file.read)
                else:
                    check_eq(bitcoinx.read_varbytes(file.read), data[:n], 'read_varbytes of a file')
                    check_eq(file.tell(), len(wire) + n, 'consumed')
        T.label('file')
    if n > len(data):
        raises(struct.error, bitcoinx.read_varbytes, f.read)
        T.label('beyond')
        if data or n < 1 << 20:
            f2 = io.BytesIO(wire + data)
            raises(struct.error, bitcoinx.read_list, f2.read, bitcoinx.read_le_uint16)
    else:
        check_eq(bitcoinx.read_varbytes(f.read), data[:n], 'read_varbytes')
        check_eq(f.tell(), len(wire) + n, 'consumed')
        T.label('within')
    T.nontrivial()


@C.test(st.one_of(
    st.tuples(st.just('u32'), st.lists(gens.uint32, max_size=20)),
    st.tuples(st.just('u16'), st.lists(gens.edge_ints(0, 65535), min_size=250, max_size=260)),
    st.tuples(st.just('bytes'), st.lists(gens.sized_data(big=False), max_size=6)),
    st.tuples(st.just('varint'), st.lists(gens.uint64, max_size=20)),
    st.tuples(st.just('byte'), st.integers(0, 66000).map(
        lambda n: list(gens.pattern_bytes(n, 3))))), quick=600,
    examples=[('byte', [1] * n) for n in (252, 253, 254, 65535, 65536)])
def lists(case, T):
    kind, items = case
    pack, read, ser = {
        'u32': (bitcoinx.pack_le_uint32, bitcoinx.read_le_uint32,
                lambda v: v.to_bytes(4, 'little')),
        'u16': (bitcoinx.pack_be_uint16, bitcoinx.read_be_uint16,
                lambda v: v.to_bytes(2, 'big')),
        'bytes': (bitcoinx.pack_varbytes, bitcoinx.read_varbytes,
                  lambda v: ref_tx.varint(len(v)) + v),
        'varint': (bitcoinx.pack_varint, bitcoinx.read_varint, ref_tx.varint),
        'byte': (bitcoinx.pack_byte, lambda read: bitcoinx.unpack_byte(read(1))[0],
                 lambda v: bytes([v])),
    }[kind]
    wire = ref_tx.varint(len(items)) + b''.join(map(ser, items))
    check_eq(bitcoinx.pack_list(items, pack), wire, 'pack_list')
    check_eq(bitcoinx.pack_list(tuple(items), pack), wire, 'pack_list of a tuple')
    f = io.BytesIO(wire + b'\0\0')
    check_eq(list(bitcoinx.read_list(f.read, read)), items, 'read_list')
    check_eq(f.tell(), len(wire), 'consumed')
    for cut in {0, 1, len(wire) - 1, len(wire) // 2}:
        if cut < len(wire):
            raises(struct.error, bitcoinx.read_list, io.BytesIO(wire[:cut]).read, read)
    T.label(kind)
    if items:
        T.nontrivial()


@C.test(st.tuples(gens.edge_ints(0, 1 << 300), st.integers(0, 45)), quick=3000,
        examples=[(0, 0), (0, 1), (255, 1), (256, 1), (256, 2), (1 << 64, 8)])
def int_bytes(case, T):
    value, size = case
    minimal = (value.bit_length() + 7) // 8
    for to, back, order in (
            (bitcoinx.int_to_be_bytes, bitcoinx.be_bytes_to_int, 'big'),
            (bitcoinx.int_to_le_bytes, bitcoinx.le_bytes_to_int, 'little')):
        check_eq(to(value), value.to_bytes(minimal, order), 'minimal size')
        check_eq(back(to(value)), value, 'inverse')
        check_eq(back(value.to_bytes(minimal + size, order)), value, 'padded')
        if size >= minimal:
            check_eq(to(value, size), value.to_bytes(size, order), 'sized')
            check_eq(to(value, size=size), value.to_bytes(size, order), 'sized keyword')
        else:
            raises((OverflowError, ValueError), to, value, size)
            T.label('too small')
        raises((OverflowError, ValueError), to, -1 - value, 40)
    if value > 255:
        T.nontrivial()


@C.test(st.tuples(gens.int32, gens.hash32, gens.hash32, gens.uint32, gens.uint32, gens.uint32),
        quick=500)
def header_unpack(case, T):
    version, prev, root, ts, bits, nonce = case
    raw = (version.to_bytes(4, 'little', signed=True) + prev + root + ts.to_bytes(4, 'little')
           + bits.to_bytes(4, 'little') + nonce.to_bytes(4, 'little'))
    check_eq(bitcoinx.unpack_header(raw), case, 'unpack_header')
    raises(struct.error, bitcoinx.unpack_header, raw[:-1])
    raises(struct.error, bitcoinx.unpack_header, raw + b'\0')
    T.nontrivial()
