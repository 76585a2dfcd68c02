import math

from hypothesis import strategies as st

from bitcoinx import ElectrumMnemonic, Wordlists
from vlib import gens, ref_hash, ref_mnemonic
from vlib.core import Check, check, check_eq, raises

C = Check('C22', rule=(
    'Seeds of both sizes with boundary 32-bit groups in any letter case and spacing, word-index '
    'sequences of every count with groups at and beyond 2^32, hex and other texts; new mnemonics '
    'over lists of many sizes (incl. all old words), strengths, prefixes and scripted entropy; '
    'version tests of arbitrary texts. Against a reference. Non-trivial: a conversion or a '
    'mnemonic was compared.'))

N_OLD = 1626


def old_words():
    wl = Wordlists.original_electrum_wordlist()
    check_eq(ref_mnemonic.list_digest(wl), ref_mnemonic.DIGESTS['electrum_old.txt'][1], 'digest')
    return wl


_cache = []


def old():
    if not _cache:
        _cache.append(tuple(old_words()))
    return _cache[0]


group = st.one_of(
    gens.uint32, st.sampled_from([0, 1, N_OLD - 1, N_OLD, N_OLD + 1, N_OLD**2 - 1, N_OLD**2,
                                  N_OLD**2 + 1, 2**32 - 1, 2**32 - 2, 2**31, 255, 65536]))
old_seed = st.tuples(st.sampled_from([4, 8]), st.lists(group, min_size=8, max_size=8)).map(
    lambda t: b''.join(v.to_bytes(4, 'big') for v in t[1][:t[0]]))
SPACES = [' ', '  ', '\t', '\n', '\r\n', '   \n', '\u3000', '\u00a0']
spelling = st.tuples(st.sampled_from(['lower', 'upper', 'title', 'mixed']),
                     st.lists(st.sampled_from(SPACES), min_size=1, max_size=3),
                     st.sampled_from([''] + SPACES), st.sampled_from([''] + SPACES))
PLAIN = ('lower', [' '], '', '')


def cased(text, case):
    if case == 'upper':
        return text.upper()
    if case == 'title':
        return text.title()
    if case == 'mixed':
        return ''.join(c.upper() if i % 3 else c for i, c in enumerate(text))
    return text


def respell(parts, how):
    case, seps, lead, trail = how
    text = lead
    for i, word in enumerate(parts):
        text += (seps[i % len(seps)] if i else '') + cased(word, case)
    return text + trail


def _seeds(tier):
    for size in (16, 32):
        for fill in (0, 0xff, 0x7f, 0x80, 1):
            yield bytes([fill]) * size, PLAIN
        for n in range(N_OLD - 2, N_OLD + 3):
            yield n.to_bytes(4, 'big') * (size // 4), PLAIN
        for e in range(0, 33):
            v = min(1 << e, 2**32 - 1)
            yield v.to_bytes(4, 'big') * (size // 4), PLAIN


@C.test(st.tuples(old_seed, spelling), quick=4000, shards=4, enum=_seeds)
def old_round_trip(case, T):
    seed, how = case
    wl = old()
    parts = [wl[i] for i in ref_mnemonic.old_indices(seed)]
    hex_seed = seed.hex()
    for form in (hex_seed, cased(hex_seed, how[0])):
        text = ElectrumMnemonic.hex_seed_to_old(form)
        check_eq(text, ' '.join(parts), f'mnemonic of {form}')
        check_eq(ElectrumMnemonic.is_valid_old(form), True, 'hex seed validity')
    check_eq(len(parts), 12 if len(seed) == 16 else 24, 'number of words')
    for text in (' '.join(parts), respell(parts, how)):
        check_eq(ElectrumMnemonic.old_to_hex_seed(text), hex_seed, f'seed of {text!r}')
        check_eq(ElectrumMnemonic.is_valid_old(text), True, 'validity')
        check_eq(ElectrumMnemonic.normalize_old(text), ' '.join(parts), 'normalised')
        check_eq(ElectrumMnemonic.normalize_new(text), ' '.join(parts), 'normalised as new')
    T.nontrivial()


old_index = st.integers(0, N_OLD - 1)


def triple(value):
    '''The indices that denote value, possibly beyond 32 bits.'''
    w1 = value % N_OLD
    w2 = (value // N_OLD + w1) % N_OLD
    w3 = (value // N_OLD**2 + w2) % N_OLD
    return [w1, w2, w3]


TOP = N_OLD**3 - 1
triple_value = st.one_of(group, st.integers(0, TOP), st.integers(2**32, TOP),
                         st.sampled_from([2**32 - 1, 2**32, 2**32 + 1, TOP, TOP - 1]))
sequence = st.one_of(
    st.sampled_from([4, 8]).flatmap(lambda n: st.lists(triple_value, min_size=n, max_size=n)).map(
        lambda l: [i for v in l for i in triple(v)]),
    st.sampled_from([4, 8]).flatmap(lambda n: st.lists(group, min_size=n, max_size=n)).map(
        lambda l: [i for v in l for i in triple(v)]),
    st.lists(old_index, max_size=26),
    st.sampled_from([12, 24]).flatmap(lambda n: st.lists(old_index, min_size=n, max_size=n)))


def _sequences(tier):
    good = triple(12345)
    for count in range(0, 49):
        yield (good * 16)[:count], PLAIN
    for value in (2**32 - 1, 2**32, 2**32 + 1, TOP):
        for size in (4, 8):
            for pos in range(size):
                values = [7] * size
                values[pos] = value
                yield [i for v in values for i in triple(v)], PLAIN
    for word in range(N_OLD):
        yield [word] * 12, PLAIN
        yield [word, (word + 1) % N_OLD, word] * 4, PLAIN


@C.test(st.tuples(sequence, spelling), quick=4000, shards=4, enum=_sequences)
def old_validity(case, T):
    indices, how = case
    wl = old()
    parts = [wl[i] for i in indices]
    seed = ref_mnemonic.old_decode(indices)
    for text in (' '.join(parts), respell(parts, how)):
        if seed is None:
            raises(ValueError, ElectrumMnemonic.old_to_hex_seed, text)
        else:
            check_eq(ElectrumMnemonic.old_to_hex_seed(text), seed.hex(), 'seed')
        check_eq(ElectrumMnemonic.is_valid_old(text), seed is not None, f'validity of {text!r}')
    if seed is not None:
        check_eq(ElectrumMnemonic.hex_seed_to_old(seed.hex()), ' '.join(parts), 'back')
        T.label('valid')
    elif len(indices) in (12, 24):
        T.label('beyond 32 bits')
    T.nontrivial()


@C.test(st.one_of(
    st.tuples(st.just('word'), sequence, st.integers(0, 25), st.one_of(
        st.text('abcdefghijklmnopqrstuvwxyz', min_size=1, max_size=8),
        st.sampled_from(['lik', 'like ly', 'abandon', 'zoo', 'é', '1', '0x1']))),
    st.tuples(st.just('hex'), st.integers(0, 70), gens.byte, st.none()),
    st.tuples(st.just('odd'), st.integers(0, 40), gens.byte, st.sampled_from('gzxG_-+ .é١'))),
    quick=3000, shards=2)
def foreign_texts(case, T):
    kind = case[0]
    wl = old()
    if kind == 'word':
        parts = [wl[i] for i in case[1]]
        parts.insert(case[2], case[3])
        text = ' '.join(parts)
        found = text.split()
        if all(w in wl for w in found):
            want = ref_mnemonic.old_decode([wl.index(w) for w in found]) is not None
            check_eq(ElectrumMnemonic.is_valid_old(text), want, 'validity')
            return
        raises(ValueError, ElectrumMnemonic.old_to_hex_seed, text)
        if any(c not in '0123456789abcdefABCDEF ' for c in text):
            check_eq(ElectrumMnemonic.is_valid_old(text), False, 'validity')
            T.nontrivial()
        return
    size, fill = case[1:3]
    if kind == 'hex':
        text = (f'{fill:02x}' * size)[:size]
        check_eq(ElectrumMnemonic.is_valid_old(text), size in (32, 64), f'validity of {text}')
        if size in (32, 64):
            ElectrumMnemonic.hex_seed_to_old(text)
        else:
            raises(ValueError, ElectrumMnemonic.hex_seed_to_old, text)
    else:
        for total in (32, 64):
            text = (f'{fill:02x}' * 40)[:total]
            pos = size % total
            text = text[:pos] + case[3] + text[pos + 1:]
            if case[3] != ' ':
                check_eq(ElectrumMnemonic.is_valid_old(text), False, f'validity of {text!r}')
            raises(ValueError, ElectrumMnemonic.old_to_hex_seed, text)
    T.nontrivial()


@C.test(st.tuples(st.sampled_from([12, 24] * 4 + [0, 1, 3, 11, 13, 15, 16, 18, 21, 23, 25, 32, 36,
                                                  48, -12, 128]),
                  st.one_of(st.binary(min_size=32, max_size=32),
                            st.sampled_from([bytes(32), b'\xff' * 32, bytes(31) + b'\1']))),
        quick=800)
def new_old_seed(case, T):
    count, entropy = case
    if count not in (12, 24):
        raises(ValueError, ElectrumMnemonic.generate_old_seed, word_count=count)
        return
    T.entropy.script(entropy)
    seed = ElectrumMnemonic.generate_old_seed(word_count=count)
    check_eq(seed, entropy[:count * 4 // 3].hex(), 'seed')
    check_eq(ElectrumMnemonic.is_valid_old(seed), True, 'validity')
    text = ElectrumMnemonic.hex_seed_to_old(seed)
    check_eq(len(text.split()), count, 'number of words')
    check_eq(ElectrumMnemonic.old_to_hex_seed(text), seed, 'back')
    check_eq(len(ElectrumMnemonic.generate_old_seed()), 32, 'default')
    T.nontrivial()


#
# New mnemonics
#

def version(text):
    '''Hex of the HMAC of a text without odd spacing.'''
    return ref_hash.hmac_sha512(b'Seed version', ref_mnemonic.nfkd(text).lower().encode()).hex()


def single_spaced(text):
    return ' '.join(text.split()) == text and ' '.join(
        ref_mnemonic.nfkd(text).split()) == ref_mnemonic.nfkd(text)


version_text = st.one_of(
    st.text(max_size=30), st.lists(st.text('abcdeé ÄñＡが', min_size=1, max_size=8)).map(' '.join),
    st.lists(st.sampled_from(['wild', 'father', 'TREE', 'Among', 'éa', 'ＷＩＤＥ', 'ﬁ']),
             min_size=1, max_size=13).map(' '.join))


def _long_texts(tier):
    words = ['wild', 'father', 'TREE', 'éa', 'among', 'universe', 'ＷＩＤＥ', 'such']
    for n in [*range(0, 301), 511, 512, 513, 1000, 4096, 65536]:
        yield ('abcdefghij' * (n // 10 + 1))[:n], n % 7
        yield ('éÄñ日本Ａ' * (n // 6 + 1))[:n], n % 5
        if n < 1000:
            yield ' '.join(words[(k * 3 + n) % 8] for k in range(n)), 3
            yield ' '.join('が' if (k + n) % 3 else 'x' for k in range(n)), 3


@C.test(st.tuples(version_text, st.one_of(st.integers(0, 12),
                                          st.sampled_from(['01', '100', '101', '102', '2', '']))),
        quick=4000, shards=2, enum=_long_texts)
def version_test(case, T):
    text, prefix = case
    if not single_spaced(text):
        T.label('odd spacing')
        return
    digest = version(text)
    if isinstance(prefix, int):
        # The right prefix, and wrong ones at each digit
        for n in range(prefix + 1):
            check_eq(ElectrumMnemonic.is_valid_new(text, digest[:n]), True, f'prefix of {n}')
        for n in range(prefix):
            other = digest[:n] + ('0' if digest[n] != '0' else 'f') + digest[n + 1:prefix]
            check_eq(ElectrumMnemonic.is_valid_new(text, other), False, f'prefix {other}')
        check_eq(ElectrumMnemonic.is_valid_new(text, digest), True, 'all')
        check_eq(ElectrumMnemonic.is_valid_new(text, digest + '0'), False, 'more than all')
        if digest[:1] != digest[1:2]:
            check_eq(ElectrumMnemonic.is_valid_new(text, digest[1:2]), False, 'inside')
    else:
        check_eq(ElectrumMnemonic.is_valid_new(text, prefix), digest.startswith(prefix), prefix)
    upper = ''.join(c.upper() if c.upper().lower() == c else c for c in text)
    if ref_mnemonic.nfkd(upper).lower() == ref_mnemonic.nfkd(text).lower():
        check_eq(ElectrumMnemonic.is_valid_new(upper, digest[:9]), True, 'upper case')
    T.nontrivial()


def make_list(kind, size):
    if kind == 'old':
        return (list(old()) + [f'zz{i}' for i in range(max(0, size - N_OLD))])[:size]
    if kind == 'oldlast':
        extra = max(0, size - N_OLD)
        return ([f'zz{i}' for i in range(extra)] + list(old()))[:size]
    if kind == 'bip39':
        return (list(Wordlists.bip39_wordlist('english.txt'))
                + [f'qq{i}' for i in range(max(0, size - 2048))])[:size]
    return [f'w{i}' for i in range(size)]


list_size = st.one_of(st.integers(2048, 5000), st.sampled_from(
    [2048, 2048, 2048, 2049, 2050, 2896, 2897, 4095, 4096, 4097, 7131, 7132, 8192, 16384, 65536]))
strength = st.one_of(st.integers(132, 300), st.sampled_from(
    [132, 132, 132, 133, 143, 144, 145, 154, 155, 264, 265, 264 - 1, 512]))
prefix_st = st.sampled_from(['', '0', 'f', '01', '01', '2', 'ab', '100'])
entropy_st = st.one_of(
    st.binary(min_size=80, max_size=80), st.sampled_from([b'\0' * 80, b'\xff' * 80, b'']),
    st.lists(st.integers(0, 1625), min_size=40, max_size=40),
    # Next to the least value having enough words, and to the greatest
    st.tuples(st.sampled_from(['low', 'high']), st.integers(0, 300)))


def _new(tier):
    for size in (2048, 2049, 4095, 4096, 4097, 8192, 16384, 32768, 65536):
        top = size.bit_length()
        for bits in list(range(132, 160)) + [k * (top - 1) for k in range(12, 20)] + [
                k * (top - 1) + 1 for k in range(12, 16)]:
            if bits >= 132:
                yield ('plain', size), bits, '', b'', True
    for kind in ('old', 'oldlast', 'bip39'):
        for prefix in ('', '0', '01'):
            for skip in (True, False, None):
                for n in range(6 if tier == 'quick' else 60):
                    yield (kind, 2048), 132, prefix, [(n * 97 + i * 211) % N_OLD
                                                     for i in range(40)], skip
    for size in (2048, 2049, 5000):
        for where in ('low', 'high'):
            for n in range(8):
                yield ('plain', size), 132, '01' if n & 1 else '2', (where, n), True


def scripted(entropy, size, count, kind):
    '''Bytes whose value modulo size**count has the given digits, for an implementation that draws
    one big-endian integer; others just see other random bytes.'''
    if isinstance(entropy, bytes):
        return entropy
    width = (math.ceil(count * math.log(size, 2)) + 16 + 7) // 8
    if isinstance(entropy, tuple):
        where, n = entropy
        value = size**(count - 1) + n if where == 'low' else size**count - 1 - n
        return value.to_bytes(width, 'big')
    offset = size - N_OLD if kind == 'oldlast' else 0
    value = 0
    for digit in entropy[:count]:
        value = value * size + digit + offset
    return value.to_bytes(width, 'big')


@C.test(st.tuples(st.tuples(st.sampled_from(['plain', 'old', 'oldlast', 'bip39']), list_size),
                  strength, prefix_st, entropy_st, st.sampled_from([True, False, None])),
        quick=1200, shards=8, enum=_new)
def generate(case, T):
    (kind, size), bits, prefix, entropy, skip = case
    wl = make_list(kind, size)
    # The least number of words with size**count >= 2**bits
    count = 1
    while size**count < 1 << bits:
        count += 1
    T.entropy.script(scripted(entropy, size, count, kind))
    kwargs = {} if skip is None else {'skip_old': skip}
    if (bits, prefix) != (132, '01'):
        kwargs.update(bits=bits, prefix=prefix)
    text = ElectrumMnemonic.generate_new(wl, **kwargs)
    parts = text.split(' ')
    allowed = set(wl)
    check(all(p in allowed for p in parts), 'word not in the list: {}', text)
    check_eq(len(parts), count, f'number of words for {bits} bits of {size}')
    check(version(text).startswith(prefix), '{} lacks the prefix {}', text, prefix)
    check_eq(ElectrumMnemonic.is_valid_new(text, prefix), True, 'version')
    index = {w: i for i, w in enumerate(old())}
    is_old = (all(p in index for p in parts)
              and ref_mnemonic.old_decode([index[p] for p in parts]) is not None)
    check_eq(ElectrumMnemonic.is_valid_old(text), is_old, 'validity as old')
    if skip is not False:
        check(not is_old, '{} is also an old seed', text)
    elif is_old:
        T.label('is also old')
    T.nontrivial()


@C.test(st.tuples(st.one_of(st.integers(-5, 131), st.sampled_from([131, 130, 128, 0, -132])),
                  st.one_of(st.integers(0, 2047), st.sampled_from([2047, 2046, 1626, 1024, 1, 0])),
                  strength), quick=800)
def bad_arguments(case, T):
    bits, size, good_bits = case
    raises(ValueError, ElectrumMnemonic.generate_new, make_list('plain', 2048), bits=bits)
    raises(ValueError, ElectrumMnemonic.generate_new, make_list('plain', size), bits=good_bits)
    raises(ValueError, ElectrumMnemonic.generate_new, make_list('bip39', size))
    raises(ValueError, ElectrumMnemonic.generate_new, make_list('plain', size), bits=bits)
    T.nontrivial()
