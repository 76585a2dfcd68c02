from hypothesis import strategies as st

from bitcoinx import (
    bip32_build_chain_string, bip32_decompose_chain_string, bip32_is_valid_chain_string,
    bip32_validate_derivation,
)
from vlib import gens
from vlib.core import Check, check, check_eq, raises

C = Check('C20', rule=(
    'Lists of 32-bit indices (boundary values, empty, long) to text and back; path-like strings '
    'from a grammar with edits (whitespace, signs, other digits, other apostrophes, leading zeros, '
    'over-range numbers) judged by a hand-written acceptor; index lists with foreign elements. '
    'Non-trivial: a non-empty list, or a string other than m.'))

H = 1 << 31

index = st.one_of(gens.uint32, st.integers(0, 100), st.integers(0, 100).map(lambda n: n + H),
                  st.sampled_from([0, 1, 9, 10, H - 1, H, H + 1, 2 * H - 1]))


def accept(text):
    '''The index list or None.'''
    if not text or text[0] != 'm':
        return None
    result = []
    pos = 1
    while pos < len(text):
        if text[pos] != '/':
            return None
        pos += 1
        value, digits = 0, 0
        while pos < len(text) and text[pos] in '0123456789':
            value = value * 10 + '0123456789'.index(text[pos])
            digits += 1
            pos += 1
        if not digits or value >= H:
            return None
        if pos < len(text) and text[pos] == "'":
            value += H
            pos += 1
        result.append(value)
    return result


def _lists(tier):
    yield []
    for n in (0, 1, H - 1, H, H + 1, 2 * H - 1):
        yield [n]
        yield [n] * 300
        yield [n] * 2500
    for size in [*range(9, 301), 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 3000]:
        yield [(n * 2654435761) % (2 * H) for n in range(size)]
        yield list(range(size))
    for k in range(10):
        for d in (-1, 0, 1):
            n = 10**k + d
            if 0 <= n < H:
                yield [n, n + H]
    for k in range(32):
        yield [(1 << k) - 1, 1 << k]


@C.test(st.one_of(st.lists(index, max_size=8), st.lists(index, max_size=60)), quick=4000, shards=2,
        enum=_lists)
def building(case, T):
    path = case
    want = 'm' + ''.join(f'/{n}' if n < H else f"/{n - H}'" for n in path)
    for arg in (path, tuple(path), iter(path)):
        check_eq(bip32_build_chain_string(arg), want, 'text')
    check_eq(bip32_decompose_chain_string(want), path, 'list')
    check_eq(bip32_is_valid_chain_string(want), True, 'validity')
    check_eq(accept(want), path, 'acceptor')
    for arg in (path, tuple(path), iter(path)):
        check_eq(bip32_validate_derivation(arg), path, 'validated')
    # Not even one index more or less, or the same one with the other hardening
    for other in (path[:-1], path + [0], path + path[-1:], [n ^ H for n in path]):
        text = 'm' + ''.join(f'/{n}' if n < H else f"/{n - H}'" for n in other)
        check_eq(bip32_build_chain_string(other), text, 'text of a similar list')
        check_eq(bip32_decompose_chain_string(text), other, 'similar list')
    if path:
        T.nontrivial()


digits = st.one_of(
    st.integers(0, 300).map(str),
    st.sampled_from([H - 1, H, H - 2, H + 1, 2 * H - 1, 2 * H, 10**9, 10**10, 2**64, 10**30]).map(
        str),
    gens.uint32.map(str), st.integers(0, 99).map(lambda n: f'0{n}'),
    st.integers(0, 99).map(lambda n: f'{n:011d}'),
    st.tuples(st.sampled_from([0, 1, 2, 3, 5, 10, 20, 50, 300]), st.sampled_from(
        [0, 7, H - 1, H, H + 1, 2 * H, 10**10, 10**12, 10**20])).map(lambda t: '0' * t[0] + str(t[1])),
    st.sampled_from([f'0{H - 1}', f'0{H}', '00', '']))
odd_digits = st.sampled_from([
    '+1', '-1', '-0', '1_0', '_1', '1_', ' 1', '1 ', '\t1', '1\n', '\n1', '0x1', '1e3', '1.0', '٣',
    '１', '²', '1٣', '٣1', '1h', '1H', "1''", "'1", "'", '1’', '1′', '1`', '"', '\0', '1\0', '*',
    'm', 'M', '1m', '\u00a01', '1\u2028', '१', 'a', '1L', '1\r', '1\x0b', '1\x1c', "1'\n", "1' ",
    "1 '", "1\n'", '∞', '½', '1j', '10' * 3000])
part = gens.weighted((8, st.tuples(digits, st.sampled_from(['', "'"])).map(''.join)),
                     (1, st.tuples(odd_digits, st.sampled_from(['', "'"])).map(''.join)))
path_text = st.tuples(
    st.sampled_from(['m'] * 12 + ['', 'M', 'm ', ' m', '\nm', 'm\n', 'mm', "m'", 'n', '/m', '0']),
    st.lists(part, max_size=5),
    st.sampled_from([''] * 12 + ['/', '\n', ' ', '//', "'", '\r', '\0', '/m', '\u2028'])).map(
        lambda t: '/'.join([t[0]] + t[1]) + t[2])


def _texts(tier):
    yield from ['', 'm', 'm/', 'm\n', '/', 'm//', "m'", "m/'", 'm/0\n', "m/0'\n", 'm/0/', 'm /0',
                'm/ 0', 'm/0 ', 'm/+0', 'm/-1', 'm/0x0', 'm/1e1', "m/0''", "m/'0", 'm\\0', 'M/0',
                'm/2147483647', 'm/2147483648', "m/2147483647'", "m/2147483648'", 'm/02147483647',
                'm/4294967295', 'm/00', 'm/0/0\n', '0', '/0', 'm/m/0', 'mm/0', 'm/0m', 'm/1_0',
                'm/٣', 'm/１', 'm/²', "m/0'/", "m/0'0"]
    for c in range(0, 0x3100):
        if 0xd800 <= c < 0xe000:
            continue
        yield f'm/{chr(c)}'
        if c < 128 or tier == 'thorough' or c % 16 == 0:
            yield f'm/1{chr(c)}'
            yield f'm/{chr(c)}1'
            yield f"m/1'{chr(c)}"
            yield f'm{chr(c)}'
            yield f'{chr(c)}m'
            yield f'm{chr(c)}1'
            yield f'm/1{chr(c)}2'
    for n in range(1, 60):
        for value in (0, 1, H - 1, H, 2 * H - 1, 10**10, 10**n, H * 10**n, (1 << 64) + 1):
            yield f'm/{"0" * n}{value}'
            yield f"m/1/{'0' * n}{value}'"
    for text in ('m', 'm/0', "m/44'/0'/0'/1/2", 'm/2147483647', "m/1'"):
        yield from gens.decorations(text)
    for size in (50, 100, 127, 128, 250, 255, 256, 257, 1000, 2000):
        whole = 'm' + ''.join(f'/{n}' + "'" * (n & 1) for n in range(size))
        yield whole
        for bad in ('/', '/x', "/1''", '/2147483648', ' ', '\n', '//1', '/-1'):
            yield whole + bad
            yield 'm' + bad + whole[1:]
            yield whole[:len(whole) // 2] + bad + whole[len(whole) // 2:]
    # All short strings over the significant characters
    alphabet = "m/0'9\n"
    words = ['']
    for _ in range(5 if tier == 'quick' else 6):
        words = [w + c for w in words for c in alphabet]
        yield from words


@C.test(st.one_of(path_text, st.text("m/0123456789' \n", max_size=12), st.text(max_size=6)),
        quick=8000, shards=4, enum=_texts)
def accepting(case, T):
    text = case
    want = accept(text)
    if want is None:
        raises(ValueError, bip32_decompose_chain_string, text)
    else:
        got = bip32_decompose_chain_string(text)
        check_eq(got, want, 'list')
        check(all(type(n) is int for n in got), 'not integers')
        text2 = bip32_build_chain_string(got)
        check_eq(bip32_decompose_chain_string(text2), want, 'and back')
        # What a caller does to a list that was returned has no effect on later ones
        if isinstance(got, list):
            got += [1, 2]
            got[0] ^= 1
        check_eq(bip32_decompose_chain_string(text), want, 'list again')
        check_eq(bip32_build_chain_string(want), text2, 'text again')
    check_eq(bip32_is_valid_chain_string(text), want is not None, 'validity')
    T.label('valid' if want is not None else 'invalid')
    if text not in ('m', ''):
        T.nontrivial()


foreign = st.one_of(st.text(max_size=3), st.none(), st.floats(allow_nan=False), st.just(1.0),
                    st.binary(max_size=3), st.just([1]))
out_of_range = st.one_of(st.integers(-(1 << 70), -1), st.integers(2 * H, 1 << 70),
                         st.sampled_from([-1, 2 * H, -H, 2 * H + 1, 1 << 63, 1 << 64]))


@C.test(st.tuples(st.lists(index, max_size=5), st.one_of(
    foreign.map(lambda v: ('TypeError', v)), out_of_range.map(lambda v: ('ValueError', v))),
    st.lists(index, max_size=5)), quick=2500, shards=2)
def bad_lists(case, T):
    before, (kind, value), after = case
    exc = {'TypeError': TypeError, 'ValueError': ValueError}[kind]
    bad = before + [value] + after
    for func in (bip32_validate_derivation, bip32_build_chain_string):
        for arg in (bad, tuple(bad), iter(bad)):
            raises(exc, func, arg)
    T.label(kind)
    T.nontrivial()
