from hypothesis import strategies as st

from bitcoinx import (
    Ops, Script, ScriptError, TruncatedScriptError, item_to_int, push_and_drop_item,
    push_and_drop_items, push_int, push_item,
)
from vlib import gens, ref_script
from vlib.core import Check, check, check_eq, raises

C = Check('C09', rule=(
    'Data of all push-boundary sizes, integers around every byte boundary, scripts built from '
    'mixed items one by one and in bulk, arbitrary and truncated bytes; against a parser of the '
    'script grammar and a small stack machine. Non-trivial: at least one item was pushed or '
    'parsed.'))

integer = st.one_of(gens.edge_ints(-(1 << 70), 1 << 70), st.integers(-300, 300),
                    st.integers(1, 600).flatmap(lambda n: st.sampled_from([-1, 1]).flatmap(
                        lambda s: st.integers(-2, 2).map(lambda d: s * ((1 << n) + d)))))


def shortest_ok(data, script):
    '''script is a push of data in no more bytes than any other push of it.'''
    items, truncated = ref_script.parse(script)
    check(not truncated and len(items) == 1 and items[0] == data and isinstance(items[0], bytes),
          'pushing {} gives {}', data, script)
    check_eq(script, ref_script.push(data), f'push of {len(data)} bytes')


def _sizes(tier):
    top = 600 if tier == 'quick' else 3000
    for n in range(top):
        yield gens.pattern_bytes(n, n & 255)
    for n in (65534, 65535, 65536, 65537, 100000, *gens.LARGE_SIZES,
              *(gens.HUGE_SIZES if tier != 'quick' else ())):
        yield gens.pattern_bytes(n, 9)
    for n in range(256):
        yield bytes([n])
        for m in (0, 1, 0x10, 0x80, 0x81, 0xff):
            yield bytes([n, m])
            yield bytes([m, n])


@C.test(gens.sized_data(), quick=3000, enum=_sizes)
def pushes(data, T):
    got = push_item(data)
    shortest_ok(data, bytes(got))
    check_eq(bytes(push_item(bytearray(data))), bytes(got), 'push of a bytearray')
    check_eq(list(Script(got).ops()), [data], 'ops')
    check_eq(bytes(Script() << data), bytes(got), '<<')
    check_eq(bytes(Script() << bytearray(data)), bytes(got), '<< bytearray')
    check_eq(len(Script(got)), len(got), 'len')
    T.nontrivial()


def _ints(tier):
    top = 70_000 if tier == 'thorough' else 1100
    yield from range(-top, top)
    for bits in range(8, 130):
        for d in range(-2, 3):
            yield (1 << bits) + d
            yield -(1 << bits) + d


@C.test(integer, quick=3000, enum=_ints)
def integers(value, T):
    want = ref_script.num_encode(value)
    got = bytes(push_int(value))
    shortest_ok(want, got)
    items = list(Script(got).ops())
    check_eq(items, [want], 'ops')
    check_eq(item_to_int(items[0]), value, 'item_to_int')
    check_eq(bytes(Script() << value), got, '<<')
    T.nontrivial()


@C.test(st.one_of(st.binary(max_size=12), st.tuples(st.binary(max_size=4), st.sampled_from(
    [b'\0', b'\x80', b'\0\0', b'\0\x80', b'\x7f', b'\xff'])).map(b''.join)), quick=3000,
        enum=lambda tier: [bytes([n]) for n in range(256)] + [
            bytes([a, b]) for a in (0, 1, 127, 128, 255) for b in range(256)])
def stack_items(data, T):
    check_eq(item_to_int(data), ref_script.num_decode(data), 'item_to_int')
    T.nontrivial()


OP_CODES = [int(op) for op in Ops]
item = st.one_of(
    st.tuples(st.just('data'), gens.push_data), st.tuples(st.just('int'), integer),
    st.tuples(st.just('op'), st.sampled_from(OP_CODES)),
    st.tuples(st.just('op'), st.sampled_from(ref_script.OPCODES)),
    st.tuples(st.just('barray'), st.binary(max_size=80)),
    st.tuples(st.just('script'), gens.structured_script))


def make_item(i):
    kind, value = i
    if kind == 'op':
        return Ops(value)
    if kind == 'barray':
        return bytearray(value)
    if kind == 'script':
        return Script(value)
    return value


def wire(i):
    kind, value = i
    if kind == 'op':
        return bytes([value])
    if kind == 'script':
        return value
    return ref_script.push(ref_script.num_encode(value) if kind == 'int' else value)


def _equal_items(tier):
    '''An operation and the number of its code, and other items that compare equal.'''
    for code in OP_CODES:
        op, num = ('op', code), ('int', code)
        for items in ([op, num], [num, op], [op, num, op], [num, num, op, op]):
            yield b'', items, 1
    for data in (b'', b'\1', b'\x51', b'abc', b'\x76\xa9', bytes(75), bytes(76), bytes(300)):
        kinds = [('data', data), ('barray', data)]
        if not ref_script.parse(data)[1]:
            kinds.append(('script', data))
        for a in kinds:
            for b in kinds:
                yield b'', [a, b], 1
                yield b'\x52\x76', [b, a, b], 2
    for n in [*range(9, 301), 1000, 5000]:
        yield b'', [('op', 0x51 + k % 16) for k in range(n)], n // 2
        yield b'', [('int', k) for k in range(n)], n // 2
        yield b'', [('data', gens.pattern_bytes(k % 90, k & 255)) for k in range(n)], n // 2


@C.test(st.tuples(gens.structured_script,
                  st.one_of(st.lists(item, max_size=8), gens.repeating(item)), st.integers(0, 8)),
        quick=5000, shards=4, enum=_equal_items)
def building(case, T):
    base, items, split = case
    want = base + b''.join(map(wire, items))
    start = Script(base)
    s = start
    for i in items:
        s = s << make_item(i)
    check(isinstance(s, Script), 'not a Script')
    check_eq(bytes(s), want, '<< one by one')
    check_eq(bytes(start), base, 'base script changed')
    objs = [make_item(i) for i in items]
    check_eq(bytes(start.push_many(objs)), want, 'push_many')
    check_eq(bytes(start.push_many(iter(objs))), want, 'push_many of an iterator')
    check_eq(bytes(start.push_many(objs[:split]).push_many(objs[split:])), want, 'push_many twice')
    check_eq(bytes(start), base, 'base script changed')
    check(s == start.push_many(objs) and hash(s) == hash(start.push_many(objs)), 'equality')
    parsed, truncated = ref_script.parse(want)
    if not truncated:
        check_eq(list(s.ops()), parsed, 'ops')
    if not any(i[0] == 'op' and i[1] <= 0x4e for i in items):
        # Exactly the items, in order
        expected = ref_script.parse(base)[0]
        for i in items:
            if i[0] == 'script':
                expected += ref_script.parse(i[1])[0]
            elif i[0] == 'int':
                expected.append(ref_script.num_encode(i[1]))
            elif i[0] == 'op':
                expected += ref_script.parse(bytes([i[1]]))[0]
            else:
                expected.append(i[1])
        check_eq(list(s.ops()), expected, 'items')
    if items:
        T.nontrivial()
    for i in items:
        T.label(i[0])


@C.test(st.one_of(st.text(max_size=3), st.none(), st.floats(), st.just([]), st.just({})),
        quick=100, examples=[None, 'ab', [], 1.5])
def unpushable(value, T):
    raises(TypeError, lambda: Script() << value)
    raises(TypeError, Script().push_many, [b'a', value])
    T.nontrivial()


def _all_short(tier):
    for a in range(256):
        yield bytes([a])
        for b in (range(256) if tier == 'thorough' else (0, 1, 2, 3, 0x4c, 0x51, 0x60, 0xac, 255)):
            yield bytes([a, b])
            yield bytes([a, b, 0])
    for op, width in ((0x4c, 1), (0x4d, 2), (0x4e, 4)):
        for size in (0, 1, 2, 3, 75, 76, 127, 128, 255, 256, 257, 300):
            if size >= 1 << 8 * width:
                continue
            head = bytes([op]) + size.to_bytes(width, 'little')
            for n in range(len(head) + 1):
                yield head[:n]
            for n in (size - 1, size, size + 1):
                if n >= 0:
                    yield head + bytes(n)
                    yield b'\x51' + head + b'\x61' * n


def _long_scripts(tier):
    yield from _all_short(tier)
    yield from gens.long_scripts(tier)


@C.test(gens.weighted((3, gens.any_script), (2, st.binary(max_size=40)),
                      (2, gens.truncated_script())), quick=6000, shards=4, enum=_long_scripts)
def parsing(script, T):
    want, truncated = ref_script.parse(script)
    got = []
    error = None
    gen = Script(script).ops()
    try:
        for op in gen:
            got.append(op)
    except Exception as e:
        error = e
    check_eq(len(got), len(want), 'number of operations')
    for g, w in zip(got, want):
        check(isinstance(g, bytes) == isinstance(w, bytes) and g == w, 'op {} want {}', g, w)
    if truncated:
        check(isinstance(error, TruncatedScriptError) and isinstance(error, ScriptError),
              'truncated script: {!r}'.format(error))
        T.label('truncated')
    else:
        check(error is None, 'not truncated: {!r}'.format(error))
    if got:
        T.nontrivial()
    s = Script(script)
    check_eq(bytes(s), script, 'bytes')
    check_eq(s.to_bytes(), script, 'to_bytes')
    check_eq(len(s), len(script), 'len')
    check_eq(s.to_hex(), script.hex(), 'to_hex')
    check_eq(str(s), script.hex(), 'str')
    check_eq(bytes(Script.from_hex(script.hex())), script, 'from_hex')
    check_eq(bytes(Script(bytearray(script))), script, 'from bytearray')
    check_eq(bytes(Script(memoryview(script))), script, 'from memoryview')


def run_drops(script, stack):
    '''Execute pushes and drops.'''
    items, truncated = ref_script.parse(script)
    check(not truncated, 'truncated helper script {}', script)
    pushed = []
    low = len(stack)
    for i in items:
        if isinstance(i, bytes):
            stack.append(i)
            pushed.append(i)
        elif i == 0x75:
            stack.pop()
        elif i == 0x6d:
            stack.pop()
            stack.pop()
        else:
            check(False, 'operation {} in a push-and-drop script', i)
        check(len(stack) >= low, 'dropped items that were there before')
    return pushed


@C.test(st.lists(gens.push_data, max_size=9), quick=2000,
        enum=lambda tier: [[bytes([n & 255]) * (n % 3)] * n for n in range(301)]
        + [[gens.pattern_bytes(n, 3)] for n in range(700)]
        + [[gens.pattern_bytes(n, 3), b'', gens.pattern_bytes(n, 4)] for n in range(700)]
        + [[bytes([n & 0x7f]) * (n % 3)] * n for n in (126, 127, 128, 129, 254, 255, 256, 257, 258,
                                                       509, 510, 511, 512, 513, 514, 515, 2000)]
        + ([[b''] * n for n in (1023, 1025, 65534, 65537, 131074)] if tier != 'quick' else []))
def push_and_drop(items, T):
    stack = [b'x', b'y', b'z']
    pushed = run_drops(bytes(push_and_drop_items(items)), stack)
    check_eq(stack, [b'x', b'y', b'z'], 'stack')
    check_eq(pushed, items, 'pushed items')
    check_eq(bytes(push_and_drop_items(tuple(items))), bytes(push_and_drop_items(items)), 'tuple')
    for i in items[:40]:
        stack = [b'x']
        check_eq(run_drops(bytes(push_and_drop_item(i)), stack), [i], 'pushed item')
        check_eq(stack, [b'x'], 'stack')
        T.nontrivial()


@C.test(st.tuples(gens.small_script, gens.small_script), quick=2000)
def equality(case, T):
    a, b = case
    sa, sb = Script(a), Script(b)
    check_eq(sa == sb, a == b, '==')
    check_eq(sa != sb, a != b, '!=')
    for same in (Script(a), a, bytearray(a), memoryview(a)):
        check(sa == same and not sa != same, 'script != {}', type(same))
    check_eq(hash(sa), hash(Script(bytearray(a))), 'hash')
    if a != b:
        for other in (b, bytearray(b), memoryview(b)):
            check(not sa == other, 'equal to other bytes')
        check(len({sa, sb, Script(a)}) == 2, 'set')
    for other in (None, 'x', 1, a.hex(), [], 1.5):
        check(not sa == other and sa != other, 'equal to {}', other)
    T.nontrivial()
