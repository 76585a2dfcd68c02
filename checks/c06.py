from hypothesis import strategies as st

from bitcoinx import (
    Base58Error, base58_decode, base58_decode_check, base58_encode, base58_encode_check,
)
from vlib import gens, ref_hash, ref_text
from vlib.core import Check, check, check_eq, raises

C = Check('C06', rule=(
    'Byte strings with runs of leading zeros and boundary values, strings over the Base58 '
    'alphabet with runs of leading ones, strings with foreign characters (look-alikes, '
    'whitespace, non-ASCII), and corrupted Base58Check strings; against a digit-list base '
    'conversion. Non-trivial: every case whose outcome (value or refusal) was compared.'))

zeros = st.sampled_from([0, 0, 0, 1, 2, 3, 5, 21, 40])
data = st.one_of(
    st.tuples(zeros, st.binary(max_size=40)).map(lambda t: bytes(t[0]) + t[1]),
    st.tuples(zeros, st.integers(0, 80), gens.byte).map(
        lambda t: bytes(t[0]) + bytes([t[2]]) + b'\xff' * t[1]),
    st.integers(0, 60).map(lambda n: (58 ** n).to_bytes(60, 'big').lstrip(b'\0')),
    st.integers(1, 60).map(lambda n: (58 ** n - 1).to_bytes(60, 'big').lstrip(b'\0')),
    st.binary(max_size=200))
alphabet_text = st.one_of(
    st.tuples(zeros, st.text(ref_text.B58, max_size=60)).map(lambda t: '1' * t[0] + t[1]),
    st.tuples(st.sampled_from(ref_text.B58), st.integers(1, 60)).map(lambda t: t[0] * t[1]),
    st.text('1z2', min_size=1, max_size=30)).filter(bool)
FOREIGN = '0OIl \t\n+/=_-.\0\x7f\x80é１２①Ⅰ²٣İıſK١𝟏\ud800'


@C.test(data.filter(bool), quick=4000, shards=2, examples=[
    bytes(n) for n in range(1, 10)] + [b'\0' * 200, b'\xff' * 200])
def bytes_round_trip(raw, T):
    text = base58_encode(raw)
    check_eq(text, ref_text.b58_encode(raw), 'encoding')
    check_eq(bytes(base58_decode(text)), raw, 'decoding')
    check_eq(base58_encode(bytearray(raw)), text, 'encoding of a bytearray')
    lead = len(raw) - len(raw.lstrip(b'\0'))
    check_eq(len(text) - len(text.lstrip('1')), lead, 'leading ones')
    T.label(f'leading zeros {min(lead, 3)}')
    T.nontrivial()


def _long_data(tier):
    sizes = [300, 511, 512, 513, 745, 746, 1000, 1023, 1024, 1025, 1500]
    if tier != 'quick':
        sizes += [2047, 2048, 2049, 4096, 5000, 8192]
    for n in sizes:
        yield gens.pattern_bytes(n, 3)
        yield b'\xff' * n
        yield b'\1' + bytes(n - 1)
        yield bytes(n // 2) + b'\xff' * (n - n // 2)
        yield b'\xff' * (n // 3) + bytes(n // 3) + gens.pattern_bytes(n // 3, 5)
    # Powers of 58: long runs of zero digits within the text
    for n in (100, 511, 512, 513, 700, 1023, 1024, 1025, 1400, 2000):
        for value in (58 ** n, 58 ** n - 1, 58 ** n + 1, 58 ** (2 * n) + 58 ** (n // 2) * 7,
                      57 * 58 ** n + 5):
            yield value.to_bytes((value.bit_length() + 7) // 8, 'big')


def _big_encode(raw):
    '''Big integers; for data too long for schoolbook arithmetic.'''
    value, digits = int.from_bytes(raw, 'big'), []
    while value:
        value, rest = divmod(value, 58 ** 32)
        for _ in range(32):
            digits.append(ref_text.B58[rest % 58])
            rest //= 58
    return '1' * (len(raw) - len(raw.lstrip(b'\0'))) + ''.join(reversed(digits)).lstrip('1')


@C.test(enum=_long_data, shards=4)
def long_data(raw, T):
    text = base58_encode(raw)
    check_eq(text, _big_encode(raw), 'encoding')
    if len(raw) <= 600:
        check_eq(text, ref_text.b58_encode(raw), 'encoding')
    check_eq(bytes(base58_decode(text)), raw, 'decoding')
    for form in ('1' + text, '111' + text, '1' * 1024 + text):
        check_eq(bytes(base58_decode(form)), bytes(len(form) - len(text)) + raw, 'more zeros')
        check_eq(base58_encode(bytes(len(form) - len(text)) + raw), form, 'more zeros')
    for n in (1, len(text) // 2, len(text) - 1):
        for c in ('0', 'l', ' ', '\u0661'):
            raises(Base58Error, base58_decode, text[:n] + c + text[n:])
    whole = base58_encode_check(raw)
    check_eq(whole, _big_encode(raw + ref_hash.dsha(raw)[:4]), 'with the checksum')
    check_eq(bytes(base58_decode_check(whole)), raw, 'decoding')
    for n in {1, len(whole) // 2, 1023, 1024, len(whole) - 1}:
        if n < len(whole):
            other = ref_text.B58[(ref_text.B58.index(whole[n]) + 1) % 58]
            raises(Base58Error, base58_decode_check, whole[:n] + other + whole[n + 1:])
            raises(Base58Error, base58_decode_check, whole[:n] + whole[n + 1:])
    T.nontrivial()


def _short_texts(tier):
    for a in ref_text.B58:
        yield a
        for b in ref_text.B58:
            yield a + b
            yield '1' + a + b
            if tier == 'thorough':
                for c in ref_text.B58:
                    yield a + b + c


@C.test(alphabet_text, quick=4000, shards=2, enum=_short_texts)
def text_round_trip(text, T):
    raw = base58_decode(text)
    check_eq(bytes(raw), ref_text.b58_decode(text), 'decoding')
    check_eq(base58_encode(raw), text, 'encoding back')
    T.nontrivial()


@st.composite
def foreign_text(draw):
    text = draw(st.one_of(st.just(''), alphabet_text,
                          data.map(lambda d: ref_text.b58check_encode(d))))
    n = draw(st.integers(0, len(text)))
    bad = draw(st.one_of(st.sampled_from(FOREIGN), st.characters()))
    return text[:n] + bad + text[n:] if draw(st.booleans()) else text[:n] + bad + text[n + 1:]


def _each_char(tier):
    top = 0x3000 if tier == 'quick' else 0x110000
    for n in range(top):
        yield chr(n)
    for text in (ref_text.b58check_encode(b'\0' + bytes(range(20))), 'abcXYZ', '1', '11z',
                 ref_text.b58check_encode(b''), ref_text.b58check_encode(bytes(40))):
        yield from gens.decorations(text)


@C.test(foreign_text(), quick=4000, examples=[''], enum=_each_char)
def foreign_characters(text, T):
    want = ref_text.b58_decode(text)
    for func, value in ((base58_decode, want), (base58_decode_check,
                                                ref_text.b58check_decode(text))):
        if value is None:
            raises(Base58Error, func, text)
            check(issubclass(Base58Error, ValueError), 'Base58Error is a ValueError')
        else:
            check_eq(bytes(func(text)), value, 'decoding')
    T.label('refused' if want is None else 'accepted')
    T.nontrivial()


@C.test(data, quick=4000, shards=2, examples=[b'', b'\0', b'\0\0\0\0'])
def check_round_trip(payload, T):
    text = base58_encode_check(payload)
    check_eq(text, ref_text.b58check_encode(payload), 'encoding')
    check_eq(bytes(base58_decode_check(text)), payload, 'decoding')
    T.nontrivial()


@st.composite
def altered(draw):
    payload = draw(data)
    text = ref_text.b58check_encode(payload)
    for _ in range(draw(st.integers(1, 2))):
        kind = draw(st.sampled_from(['sub', 'sub', 'del', 'ins', 'swap', 'trunc', 'lead',
                                     'unlead', 'byte', 'cut', 'dup']))
        n = draw(st.integers(0, max(0, len(text) - 1)))
        c = draw(st.sampled_from(ref_text.B58))
        if kind == 'sub':
            text = text[:n] + c + text[n + 1:]
        elif kind == 'del':
            text = text[:n] + text[n + 1:]
        elif kind == 'ins':
            text = text[:n] + c + text[n:]
        elif kind == 'swap' and n + 1 < len(text):
            text = text[:n] + text[n + 1] + text[n] + text[n + 2:]
        elif kind == 'trunc':
            text = text[:n]
        elif kind == 'lead':
            text = '1' + text
        elif kind == 'unlead':
            text = text[1:]
        elif kind == 'dup':
            text = text + text
        else:
            raw = bytearray(ref_text.b58_decode(text) or b'')
            if raw and kind == 'byte':
                n = draw(st.integers(0, len(raw) - 1))
                raw[-1 - n] ^= 1 << draw(st.integers(0, 7))
            elif raw:
                del raw[-draw(st.integers(1, len(raw))):]
            text = ref_text.b58_encode(raw)
    return text


@C.test(altered(), quick=6000, shards=2)
def alterations(text, T):
    want = ref_text.b58check_decode(text)
    if want is None:
        raises(Base58Error, base58_decode_check, text)
        T.label('refused')
    else:
        check_eq(bytes(base58_decode_check(text)), want, 'decoding')
        T.label('accepted')
    T.nontrivial()


@C.test(st.tuples(data, st.integers(0, 31), st.integers(1, 3)), quick=3000)
def partial_checksums(case, T):
    '''Right up to one bit, right in all but some bytes, reversed, cut.'''
    payload, bit, nbytes = case
    cs = ref_hash.dsha(payload)[:4]
    flipped = (int.from_bytes(cs, 'big') ^ 1 << bit).to_bytes(4, 'big')
    single = ref_hash.sha256(payload)[:4]
    tail = ref_hash.dsha(payload)[-4:]
    for bad in (flipped, cs[::-1], cs[:-nbytes], single, cs + bytes(nbytes),
                cs[:4 - nbytes] + bytes(b ^ 0x80 for b in cs[4 - nbytes:]), tail, b''):
        text = ref_text.b58_encode(payload + bad)
        want = ref_text.b58check_decode(text)
        if want is None:
            raises(Base58Error, base58_decode_check, text)
            T.count()
        else:
            check_eq(bytes(base58_decode_check(text)), want, 'decoding')
    T.nontrivial()


@C.test(st.one_of(st.binary(max_size=20), st.integers(), st.none(), st.floats(),
                  st.lists(st.text(max_size=2), max_size=2), st.tuples()), quick=200, examples=[
                      b'', b'1', ['1'], [], (), {}, 0, None, False])
def non_strings(value, T):
    raises(TypeError, base58_decode, value)
    raises(TypeError, base58_decode_check, value)
    if isinstance(value, bytes):
        raises(TypeError, base58_decode, bytearray(value))
    T.nontrivial()
