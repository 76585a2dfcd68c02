from hypothesis import strategies as st

from bitcoinx import cashaddr
from vlib import gens, ref_text
from vlib.core import Check, check, check_eq, raises

C = Check('C07', rule=(
    'Valid CashAddr strings of all prefixes, types and sizes; strings with a right checksum over '
    'bad type, size, reserved bit, padding or payload length; every kind of corruption, case '
    'mixing and foreign characters; against a decoder written from the specification. '
    'Non-trivial: the text has a right checksum or is one edit away from such a text.'))

PREFIXES = ['bitcoincash', 'bchtest', 'bchreg', 'bitcoin', 'prefix', 'a', 'z1!', '1', 'p:q'[:1],
            'x' * 40, '!', '~', 'a-b', '{|}', '00']
prefix = st.one_of(
    st.sampled_from(PREFIXES),
    st.text(''.join(chr(n) for n in range(33, 127) if chr(n) != ':' and not chr(n).isupper()),
            min_size=1, max_size=12))
addr_hash = st.sampled_from(ref_text.SIZES).flatmap(
    lambda n: st.one_of(st.binary(min_size=n, max_size=n), st.just(bytes(n)),
                        st.just(b'\xff' * n)))


def cased(text, how):
    if how == 'upper':
        return text.upper()
    if how == 'lower':
        return text
    if how == 'prefix':
        head, tail = text.split(':', 1)
        return head.upper() + ':' + tail
    if how == 'payload':
        head, tail = text.split(':', 1)
        return head + ':' + tail.upper()
    n = how % len(text)
    return text[:n] + text[n].swapcase() + text[n + 1:]


case_kind = st.one_of(st.sampled_from(['lower', 'upper', 'lower', 'upper', 'prefix', 'payload']),
                      st.integers(0, 150))
valid = st.tuples(prefix, st.sampled_from([0, 1]), addr_hash).map(
    lambda t: ref_text.cash_encode(*t))


def decide(text, T):
    want = ref_text.cash_decode(text)
    if want is None:
        raises(ValueError, cashaddr.decode, text)
        T.label('refused')
    else:
        got = cashaddr.decode(text)
        check_eq(tuple(got), want, f'decode({text!r})')
        check(isinstance(got[2], bytes), 'hash is not bytes: {}', got)
        T.label('accepted')
    return want


@C.test(st.tuples(prefix, st.sampled_from([0, 1]), addr_hash, case_kind), quick=3000, shards=2,
        examples=[(p, k, bytes(n), c) for p in PREFIXES for k in (0, 1)
                  for n in ref_text.SIZES for c in ('lower', 'upper')])
def valid_texts(case, T):
    p, kind, h, how = case
    text = ref_text.cash_encode(p, kind, h)
    got = decide(text, T)
    check_eq(got, (p, kind, h), 'reference')
    decide(cased(text, how), T)
    T.nontrivial()


def _long(tier):
    for size in [*range(60, 100), 127, 128, 129, 200, 255, 256, 257, 1000, 1023, 1024, 1025, 5000]:
        p = ''.join(chr(97 + (n * 7 + size) % 26) for n in range(size))
        for kind in (0, 1):
            for n in (20, 64):
                yield p, kind, gens.pattern_bytes(n, size & 255)


@C.test(enum=_long)
def long_prefixes(case, T):
    p, kind, h = case
    text = ref_text.cash_encode(p, kind, h)
    for how in ('lower', 'upper', 'prefix', 'payload', 0, len(p) // 2, len(text) - 1):
        decide(cased(text, how), T)
    for n in (0, len(p) - 1, len(p) + 1, len(p) + 9, len(text) - 1):
        c = 'q' if text[n] != 'q' else 'p'
        decide(text[:n] + c + text[n + 1:], T)
        decide(text[:n] + text[n + 1:], T)
        decide(text[:n] + c + text[n:], T)
    T.nontrivial()


@C.test(enum=lambda tier: [(n, v) for n in [*range(60, 140), 200, 255, 256, 257, 1000, 5000]
                           for v in (0, 7, 8, 15, 128)])
def long_payloads(case, T):
    '''A right checksum over more data than any address has.'''
    size, version = case
    symbols = ref_text.to_symbols(bytes([version]) + gens.pattern_bytes(size, 3))
    for p in ('bitcoincash', 'a'):
        decide(ref_text.cash_encode_symbols(p, symbols), T)
        decide(ref_text.cash_encode_symbols(p, symbols + [0]), T)
    T.nontrivial()


@st.composite
def crafted(draw):
    '''A right checksum over arbitrary symbols.'''
    p = draw(prefix)
    kind = draw(st.sampled_from(['version', 'size', 'padbits', 'extra', 'symbols', 'tiny']))
    h = draw(addr_hash)
    if kind == 'version':
        symbols = ref_text.to_symbols(bytes([draw(gens.byte)]) + h)
    elif kind == 'size':
        version = draw(st.integers(0, 15))
        symbols = ref_text.to_symbols(bytes([version]) + draw(st.binary(max_size=66)))
    elif kind == 'padbits':
        version = draw(st.sampled_from([0, 8])) | ref_text.SIZES.index(len(h))
        symbols = ref_text.to_symbols(bytes([version]) + h)
        symbols[-1] ^= draw(st.integers(0, 31))
    elif kind == 'extra':
        version = draw(st.sampled_from([0, 8])) | ref_text.SIZES.index(len(h))
        symbols = ref_text.to_symbols(bytes([version]) + h)
        symbols += draw(st.lists(st.sampled_from([0, 0, 0, 1, 31]), min_size=1, max_size=4))
    elif kind == 'tiny':
        symbols = draw(st.lists(st.integers(0, 31), max_size=3))
    else:
        symbols = draw(st.lists(st.integers(0, 31), max_size=130))
    text = ref_text.cash_encode_symbols(p, symbols)
    return cased(text, draw(st.sampled_from(['lower', 'lower', 'upper'])))


@C.test(crafted(), quick=6000, shards=2, examples=[
    ref_text.cash_encode_symbols('bitcoincash', s) for s in (
        [], [0], [1], [0, 0], [0, 0, 0], [0] * 34, [0] * 33, [0] * 35, [0] * 36)] + [
    ref_text.cash_encode_symbols('bchtest', ref_text.to_symbols(bytes([v]) + bytes(n)))
    for v in range(256) for n in (20, 40)])
def crafted_payloads(text, T):
    decide(text, T)
    T.nontrivial()


@st.composite
def edited(draw):
    text = cased(draw(valid), draw(st.sampled_from(['lower', 'upper'])))
    alphabet = ref_text.CHARSET if draw(st.booleans()) else ''.join(map(chr, range(32, 127)))
    if text.isupper():
        alphabet = alphabet.upper()
    chars = list(text)
    for _ in range(draw(st.integers(1, 5))):
        n = draw(st.integers(0, max(0, len(chars) - 1)))
        kind = draw(st.sampled_from(['sub'] * 6 + ['del', 'ins', 'swap', 'case', 'foreign',
                                                   'alike', 'trunc']))
        if kind == 'sub' and chars:
            chars[n] = draw(st.sampled_from(alphabet))
        elif kind == 'del' and chars:
            del chars[n]
        elif kind == 'ins':
            chars.insert(n, draw(st.sampled_from(alphabet)))
        elif kind == 'swap' and n + 1 < len(chars):
            chars[n], chars[n + 1] = chars[n + 1], chars[n]
        elif kind == 'case' and chars:
            chars[n] = chars[n].swapcase()
        elif kind == 'alike':
            chars = list(draw(st.sampled_from(list(gens.lookalikes(''.join(chars))) or [''])))
        elif kind == 'foreign':
            chars.insert(n, draw(st.one_of(st.characters(), st.sampled_from(
                '\u212aſıİ１\x80\xa0\n\t \0\x7f:'))))
        elif kind == 'trunc':
            del chars[n:]
    return ''.join(chars)


@C.test(edited(), quick=10000, shards=4)
def edited_texts(text, T):
    decide(text, T)
    T.nontrivial()


def _single_edits(tier):
    texts = [('bitcoincash', 0, bytes(range(20)), 'lower'), ('bchtest', 1, b'\xab' * 20, 'upper'),
             ('a', 1, bytes(32), 'lower'), ('bchreg', 0, b'\x5a' * 64, 'upper')]
    for p, k, h, c in texts[:2 if tier == 'quick' else 4]:
        text = cased(ref_text.cash_encode(p, k, h), c)
        yield text
        for n in range(len(text) + 1):
            yield text[:n]
            yield text[n:]
            yield text[:n] + ':' + text[n:]
            for c in map(chr, range(128)):
                yield text[:n] + c + text[n + 1:]
            for c in '\u212aſıİ\ud800\xb5１é':
                yield text[:n] + c + text[n + 1:]
                yield text[:n] + c + text[n:]
        for h2 in (h, bytes(20), bytes.fromhex('76a04053bda0a88bda5177b86a15c3b29f559873')):
            # Payloads with every character
            yield from gens.lookalikes(ref_text.cash_encode(p, k, h2))
        yield from gens.decorations(text)
        yield from gens.decorations(text.split(':')[1])
        for form in gens.decorations(text.split(':')[0]):
            yield form + ':' + text.split(':')[1]


@C.test(enum=_single_edits, shards=2)
def every_single_edit(text, T):
    decide(text, T)
    T.nontrivial()


@C.test(st.one_of(st.text(max_size=20),
                  st.text(ref_text.CHARSET, max_size=130).map(lambda s: 'bitcoincash:' + s),
                  st.text(ref_text.CHARSET, max_size=20).map(lambda s: s + ':'),
                  st.text(':aq', max_size=12)), quick=3000, examples=[
    '', ':', ' ', 'bitcoincash', 'bitcoincash:', ':qqqqqqqq', '::', 'a:b:c'])
def arbitrary_texts(text, T):
    decide(text, T)


# The polynomial code detects every change of up to five characters
@C.test(st.tuples(valid, st.lists(st.tuples(st.integers(0, 200), st.integers(1, 31)), min_size=1,
                                  max_size=5)), quick=3000)
def up_to_five_changes(case, T):
    text, changes = case
    head, tail = text.split(':', 1)
    chars = list(tail)
    for pos, delta in changes:
        pos %= len(chars)
        chars[pos] = ref_text.CHARSET[ref_text.CHARSET.index(tail[pos]) ^ delta]
    altered = head + ':' + ''.join(chars)
    check(altered != text, 'no change')
    raises(ValueError, cashaddr.decode, altered)
    raises(ValueError, cashaddr.decode, altered.upper())
    T.nontrivial()


@C.test(st.one_of(valid.map(lambda s: s.encode()), st.binary(max_size=20), st.integers(),
                  st.none(), st.lists(st.text(max_size=3), max_size=2)), quick=300,
        examples=[None, b'', b'bitcoincash:', 5, ['a:b'], ()])
def non_strings(value, T):
    raises(TypeError, cashaddr.decode, value)
    T.nontrivial()
