from hypothesis import strategies as st

from bitcoinx import Ops, Script, ScriptError
from vlib import gens, ref_ec, ref_script
from vlib.core import Check, check, check_eq, raises

C = Check('C10', rule=(
    'All kinds of scripts incl. signature pushes, near-signatures and truncated ones, rendered '
    'with and without sighash decoding; scripts of named opcodes and minimal pushes (all-digit '
    'hex of every length, boundary numbers) read back; ASM-like and arbitrary text. Against a '
    'reference renderer and reader. Non-trivial: the script has an operation, or the text a '
    'word.'))

sig_byte = st.one_of(gens.byte, st.sampled_from([1, 0x41, 0xc3, 0]))
sig_push = st.tuples(gens.any_sig, sig_byte, st.sampled_from(['min', 1, 2, 4])).map(
    lambda t: gens.encode_push(t[0] + bytes([t[1]]), t[2]))
valid_sig_push = st.tuples(gens.valid_der, sig_byte).map(
    lambda t: ref_script.push(t[0] + bytes([t[1]])))
renderable = st.one_of(
    gens.any_script, gens.structured_script,
    st.lists(st.one_of(valid_sig_push, sig_push, gens.raw_push(), gens.piece), max_size=5).map(
        b''.join))


def _single(tier):
    yield from gens.long_scripts(tier)
    for n in gens.LONG_COUNTS:
        sig = ref_script.push(ref_ec.der(n, 5) + b'\x41')
        yield b'\x51' * n + sig
        yield sig * (n // 10) + b'\x51' * n + sig + b'\5ab'
    for n in range(256):
        yield bytes([n])
        yield bytes([0x51, n, 0x51])
        yield bytes([1, n])
        for m in (0, 1, 0x7f, 0x80, 0x81, 0xff):
            yield bytes([2, n, m])
            yield bytes([3, m, n, m])
            yield bytes([4, n, m, n, m])
            yield bytes([5, n, m, n, m, n])
    for n in [*range(5, 301), 519, 520, 521, 65535, 65536]:
        for first in (0, 0x30, 0xff):
            yield ref_script.push(bytes([first]) + bytes(n - 2) + b'\x41') + b'\x87'
    for n in range(76):
        yield bytes([n]) + b'\x30' * (n - 1 if n else 0)       # one byte short
    for r in (0, 1, 127, 128, 255, 1 << 255, ref_ec.N - 1):
        for s in (0, 1, 127, 128, 1 << 255, ref_ec.N - 1):
            for byte in (range(256) if r == 1 and s == 1 else (0, 1, 0x41, 0xff)):
                yield ref_script.push(ref_ec.der(r, s) + bytes([byte]))


@C.test(renderable, quick=8000, shards=4, enum=_single)
def rendering(script, T):
    s = Script(script)
    for decode in (True, False):
        check_eq(s.to_asm(decode), ref_script.asm(script, decode), f'to_asm({decode})')
    check_eq(s.to_asm(decode_sighash=True), s.to_asm(True), 'keyword')
    items, truncated = ref_script.parse(script)
    if not truncated:
        for i in items:
            for decode in (True, False):
                check_eq(Script.op_to_asm_word(i, decode), ref_script.asm_word(i, decode), 'word')
    if items:
        T.nontrivial()
    if truncated:
        T.label('truncated')
    elif '[' in s.to_asm(True):
        T.label('signature')


digits_hex = st.integers(1, 24).flatmap(lambda n: st.text(
    '0123456789', min_size=2 * n, max_size=2 * n)).map(bytes.fromhex)
edge_digits = st.sampled_from([
    '0000000000', '0000000001', '0123456789', '1000000000', '2147483647', '2147483648',
    '2147483646', '9999999999', '00000000000000', '000000000001', '123456789012', '0000012345',
    '0214748364', '11111111111111111111', '0' * 40, '1' * 66, '9' * 66, '0000000000000000001e',
    '1e10000000', '1e00000000', '0e00000000', '00000000e0', '0x00000000'.replace('x', 'a'),
]).map(bytes.fromhex)
min_number = st.one_of(
    gens.edge_ints(-0x7fffffff, 0x7fffffff),
    st.sampled_from([10**k + d for k in range(10) for d in (-1, 0, 1)])).map(ref_script.num_encode)
long_data = st.one_of(st.binary(min_size=5, max_size=9), gens.sized_data(big=False), digits_hex,
                      edge_digits, gens.push_data, st.binary(min_size=70, max_size=80))


def readable(data):
    return len(data) > 4 or ref_script.num_encode(ref_script.num_decode(data)) == data


element = st.one_of(
    st.one_of(min_number, long_data.filter(readable)).map(lambda d: ('push', d)),
    st.one_of(gens.named_opcode, st.sampled_from([0, 0x4f, 0x50] + list(range(0x51, 0x61)))).map(
        lambda o: ('op', o)))


def _each_element(tier):
    for code in ref_script.NAMES:
        if not 0x4c <= code <= 0x4e:
            yield [('op', code)]
            yield [('op', code)] * 2 + [('push', b'abcde')]
    for n in [*range(5, 301), 519, 520, 521, 65535, 65536]:
        for d in (b'\0', b'\1', b'\x12', b'\x99', b'\xff', b'\x0e', b'\x1e'):
            yield [('push', d * n)]
    for n in gens.LONG_COUNTS:
        yield [('op', 0x51 + k % 16) for k in range(n)]
        yield [('push', ref_script.num_encode(k)) for k in range(n)]
        yield [('push', gens.pattern_bytes(5 + k % 80, k & 255)) for k in range(n)]
    for n in (100_000, 1 << 20, (1 << 20) + 1):
        yield [('push', gens.pattern_bytes(n, 3)), ('op', 0x76)]
    for data in ('0123456789', '2147483648', '9999999999', '0000000000', '1000000000'):
        for more in ('', '00', '12'):
            yield [('push', bytes.fromhex(data + more))]
    step = 1 if tier == 'thorough' else 7
    for n in range(0, 70000, step):
        yield [('push', ref_script.num_encode(n)), ('push', ref_script.num_encode(-n))]


@C.test(st.lists(element, max_size=8), quick=8000, shards=4, enum=_each_element)
def reading_back(elements, T):
    parts = []
    ambiguous = False
    for kind, value in elements:
        if kind == 'op':
            parts.append(bytes([value]))
        else:
            ambiguous |= ref_script.ambiguous_asm(value)
            parts.append(ref_script.push(value))
    script = b''.join(parts)
    text = Script(script).to_asm(False)
    check_eq(text, ref_script.asm(script, False), 'asm')
    if ambiguous:
        T.label('ambiguous')
        Script.from_asm(text)
        return
    for form in (text, ' ' + text + '\n', text.replace(' ', '  ')):
        check_eq(bytes(Script.from_asm(form)), script, f'from_asm({form!r})')
    check_eq(Script.from_asm(text).to_asm(False), text, 'asm again')
    if elements:
        T.nontrivial()


word = st.one_of(
    st.sampled_from(sorted(ref_script.CODES)),
    st.integers(-10**11, 10**11).map(str),
    st.sampled_from([str(s * (b + d)) for b in (0, 0x7fffffff, 0x80000000, 2**32, 10**9, 10**10)
                     for d in (-1, 0, 1) for s in (1, -1)]),
    st.text('0123456789', min_size=1, max_size=14),
    st.text('0123456789', min_size=1, max_size=14).map(lambda t: '-' + t),
    st.text('0123456789abcdefABCDEF', min_size=1, max_size=24),
    st.text('0123456789abcdefg-+_.xOP', min_size=1, max_size=10),
    st.text(min_size=1, max_size=6).map(lambda t: ''.join(t.split())).filter(bool),
    st.sampled_from(['OP_', 'OP', 'op_dup', 'OP_dup', 'OP_17', 'OP_UNKNOWN', 'OP_INVALIDOPCODE',
                     'OP_DUP1', '-', '--1', '+1', '1_000', '0x12', '٣', '１２', '²', '-٣', '1.0',
                     '[error]', 'ab[ALL]', '-0', '-00', '00', '000', '0', '𝟏', '१२३४५६', 'a', 'abc',
                     'ab-cd', 'OP_NOP2', 'OP_NOP3', 'OP_TRUE', 'OP_FALSE', 'OP_PUSHDATA1',
                     '__class__', 'OP_mro', 'OP___class__', '१२']))


@C.test(st.lists(word, max_size=4), quick=8000, shards=2,
        examples=[[w] for w in sorted(ref_script.CODES)])
def reading_text(words, T):
    text = ' '.join(words)
    words = text.split()
    want = [ref_script.from_asm_word(w) for w in words]
    for w, expect in zip(words, want):
        if expect is None:
            raises(ScriptError, Script.asm_word_to_bytes, w)
        else:
            check_eq(bytes(Script.asm_word_to_bytes(w)), expect, f'word {w!r}')
    if None in want:
        raises(ScriptError, Script.from_asm, text)
        T.label('refused')
    else:
        check_eq(bytes(Script.from_asm(text)), b''.join(want), f'from_asm({text!r})')
        T.label('accepted')
    if words:
        T.nontrivial()


def _names(_tier):
    return [(name, code) for name, code in ref_script.CODES.items()]


@C.test(enum=_names)
def opcode_table(case, T):
    name, code = case
    check_eq(int(Ops[name]), code, name)
    if name not in ref_script.ALIASES:
        check_eq(Ops(code).name, name, 'name')
    T.nontrivial()
