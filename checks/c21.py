import unicodedata

from hypothesis import strategies as st

from bitcoinx import BIP39Mnemonic, Wordlists
from vlib import gens, ref_mnemonic
from vlib.core import Check, check, check_eq, outcome, raises

C = Check('C21', rule=(
    'Entropies of all strengths (random, all-zero, all-one, scripted through os.urandom) in all '
    'languages against a reference encoder; word sequences of every count 0-30 with right and '
    'wrong checksums, all 2048 last words, and unknown words, spelled in any case, Unicode form '
    'and spacing; seeds against an independent PBKDF2; the word lists against their digests in '
    'several locales. Non-trivial: a checksum was judged, a seed or list compared.'))

LANGS = ref_mnemonic.LANGUAGES
STRENGTHS = (128, 160, 192, 224, 256)
language = st.sampled_from(LANGS)


def words_of(name):
    words = Wordlists.bip39_wordlist(name)
    check_eq(ref_mnemonic.list_digest(words), ref_mnemonic.DIGESTS[name][1], f'{name} digest')
    return words


_words = {}


def words(name):
    if name not in _words:
        _words[name] = tuple(words_of(name))
    return list(_words[name])


def entropies(sizes=(16, 20, 24, 28, 32)):
    return st.sampled_from(sizes).flatmap(lambda n: st.one_of(
        st.binary(min_size=n, max_size=n),
        st.sampled_from([bytes(n), b'\xff' * n, b'\x80' + bytes(n - 1), bytes(n - 1) + b'\1',
                         b'\x7f' * n, b'\x80' * n])))


def _all_lists(tier):
    yield from ref_mnemonic.DIGESTS


def check_list(name, T):
    count, digest = ref_mnemonic.DIGESTS[name]
    for _ in range(2):
        if count == 1626:
            got = Wordlists.original_electrum_wordlist()
        else:
            got = Wordlists.bip39_wordlist(name)
        check_eq(len(got), count, f'{name} size')
        check_eq(len(set(got)), count, f'{name} distinct')
        for word in got:
            check(isinstance(word, str) and word == unicodedata.normalize('NFKD', word)
                  and word == word.lower() and not any(c.isspace() for c in word) and word,
                  '{}: {} is not normalised', name, word)
        check_eq(ref_mnemonic.list_digest(got), digest, f'{name} digest')
    T.nontrivial()


@C.test(enum=_all_lists, env={'LC_ALL': 'C', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0'})
def lists_ascii_locale(case, T):
    check_list(case, T)


@C.test(enum=_all_lists, env={'LC_ALL': 'POSIX', 'LANG': 'C', 'PYTHONUTF8': '0',
                              'PYTHONCOERCECLOCALE': '0', 'PYTHONIOENCODING': 'latin-1'})
def lists_posix_locale(case, T):
    check_list(case, T)


@C.test(enum=_all_lists, env={'LC_ALL': 'C.utf8'})
def lists_utf8_locale(case, T):
    check_list(case, T)


@C.test(enum=_all_lists, env={'PYTHONUTF8': '1'})
def lists_utf8_mode(case, T):
    check_list(case, T)


def _strengths(tier):
    for lang in LANGS:
        for n in (16, 20, 24, 28, 32):
            for e in (bytes(n), b'\xff' * n, b'\x7f' * n, b'\x80' * n, bytes(range(n)),
                      bytes(n - 1) + b'\1', b'\1' + bytes(n - 1)):
                yield lang, e


@C.test(st.tuples(language, entropies()), quick=3000, shards=4, enum=_strengths)
def generating(case, T):
    lang, entropy = case
    wl = words(lang)
    T.entropy.script(entropy)
    bits = 8 * len(entropy)
    mnemonic = BIP39Mnemonic.generate(wl, bits)
    parts = mnemonic.split(' ')
    check_eq(len(parts), {128: 12, 160: 15, 192: 18, 224: 21, 256: 24}[bits], 'number of words')
    index = {w: i for i, w in enumerate(wl)}
    check(all(w in index for w in parts), 'word not in the list: {}', mnemonic)
    got = ref_mnemonic.bip39_decode([index[w] for w in parts])
    check(got is not None, 'wrong checksum: {}', mnemonic)
    check_eq(got, entropy, 'entropy')
    check_eq(BIP39Mnemonic.is_valid(mnemonic, wl), True, 'generated is valid')
    # The default strength, and fresh entropy for each
    other = BIP39Mnemonic.generate(wl)
    check_eq(len(other.split(' ')), 12, 'default')
    check_eq(BIP39Mnemonic.is_valid(other, wl), True, 'default is valid')
    another = BIP39Mnemonic.generate(wl, bits=bits)
    check(another != mnemonic or not any(entropy), 'entropy is reused')
    T.nontrivial()


@C.test(st.tuples(language, st.one_of(st.integers(-10, 600), st.sampled_from(
    [0, 32, 64, 96, 127, 129, 144, 159, 161, 176, 255, 257, 288, 320, 512, 1 << 70])),
    st.sampled_from([2048, 2047, 2049, 0, 1, 1626, 4096])), quick=800)
def bad_arguments(case, T):
    lang, bits, size = case
    wl = words(lang)
    wl = (wl * 2)[:size]
    if size != 2048 or bits not in STRENGTHS:
        raises(ValueError, BIP39Mnemonic.generate, wl, bits)
        T.nontrivial()
    else:
        BIP39Mnemonic.generate(wl, bits)
    if size != 2048:
        raises(ValueError, BIP39Mnemonic.generate, wl)
        for text in ('', ' '.join(words(lang)[:12]), ' '.join(words(lang)[:11]), 'junk'):
            raises(ValueError, BIP39Mnemonic.is_valid, text, wl)


SPACES = [' ', '  ', '\t', '\n', '\r\n', '\u3000', '\u00a0', '\u2003', ' \n ', '\u2028', '\x0b']


# Compatibility letters; the mathematical ones have no case of their own
LETTERS = {'bold': (0x1d400, 0x1d41a), 'monospace': (0x1d670, 0x1d68a), 'circled': (0x24b6, 0x24d0)}


def respell(text_words, style):
    '''The words in another spelling.  style: (case, form, list of separators, lead, trail).'''
    case, form, seps, lead, trail = style
    out = []
    for word in text_words:
        if case == 'upper':
            word = ''.join(c.upper() if c.upper().lower() == c else c for c in word)
        elif case == 'title':
            word = ''.join(c.upper() if not i and c.upper().lower() == c else c
                           for i, c in enumerate(word))
        elif case == 'mixed':
            word = ''.join(c.upper() if i % 2 and c.upper().lower() == c else c
                           for i, c in enumerate(word))
        if form == 'wide':
            word = ''.join(chr(ord(c) + 0xfee0) if 0x21 <= ord(c) <= 0x7e else c for c in word)
        elif form in LETTERS:
            upper, lower = LETTERS[form]
            word = ''.join(chr(upper + ord(c) - 65) if 'A' <= c <= 'Z'
                           else chr(lower + ord(c) - 97) if 'a' <= c <= 'z' else c for c in word)
        elif form:
            word = unicodedata.normalize(form, word)
        out.append(word)
    text = lead
    for i, word in enumerate(out):
        text += (seps[i % len(seps)] if i else '') + word
    return text + trail


style = st.tuples(
    st.sampled_from(['lower', 'upper', 'title', 'mixed']),
    st.sampled_from(['', 'NFC', 'NFD', 'NFKC', 'NFKD', 'wide', 'bold', 'monospace', 'circled']),
    st.lists(st.sampled_from(SPACES), min_size=1, max_size=3),
    st.sampled_from([''] + SPACES), st.sampled_from([''] + SPACES))
indices_any = st.lists(st.integers(0, 2047), max_size=30)
indices_good = entropies().map(ref_mnemonic.bip39_indices)


@st.composite
def index_list(draw):
    kind = draw(st.sampled_from(['good', 'good', 'last', 'any', 'count', 'edit', 'unsupported']))
    if kind == 'any':
        return draw(indices_any)
    result = list(draw(indices_good))
    if kind == 'unsupported':
        # Right checksums of unsupported strengths
        n = draw(st.sampled_from([4, 8, 12, 36, 40]))
        return ref_mnemonic.bip39_indices(draw(st.binary(min_size=n, max_size=n)))
    if kind == 'last':
        result[-1] ^= 1 << draw(st.integers(0, 10))
    elif kind == 'count':
        n = draw(st.integers(1, 4))
        result = result[:-n] if draw(gens.bool_) else result + result[:n]
    elif kind == 'edit':
        op = draw(st.integers(0, 3))
        i, j = (draw(st.integers(0, len(result) - 1)) for _ in range(2))
        if op == 0:
            result[i] = draw(st.integers(0, 2047))
        elif op == 1:
            result[i], result[j] = result[j], result[i]
        elif op == 2:
            result.insert(i, result.pop(j))
        else:
            result.reverse()
    return result


def _last_words(tier):
    for lang in LANGS if tier == 'thorough' else LANGS[:2]:
        for count in (12, 15, 18, 21, 24):
            first = [(i * 397 + count) % 2048 for i in range(count - 1)]
            step = 1 if tier == 'thorough' or count in (12, 24) else 16
            for last in range(0, 2048, step):
                yield lang, first + [last], ('lower', '', [' '], '', '')


@C.test(st.tuples(language, index_list(), style), quick=8000, shards=8, enum=_last_words)
def validity(case, T):
    lang, indices, how = case
    wl = words(lang)
    text = respell([wl[i] for i in indices], how)
    if ref_mnemonic.bip39_words(text) != [wl[i] for i in indices]:
        T.label('spelling is not equivalent')
        return
    want = ref_mnemonic.bip39_decode(indices) is not None
    check_eq(BIP39Mnemonic.is_valid(text, wl), want, 'validity')
    check_eq(BIP39Mnemonic.is_valid(text, tuple(wl)), want, 'validity with a tuple')
    if want:
        T.label(f'valid {len(indices)}')
        check_eq(BIP39Mnemonic.normalize(text), ' '.join(wl[i] for i in indices), 'normalised')
        # Word order of the list is significant
        check_eq(BIP39Mnemonic.is_valid(text, wl[::-1]),
                 ref_mnemonic.bip39_decode([2047 - i for i in indices]) is not None, 'reversed')
    if len(indices) in (12, 15, 18, 21, 24):
        T.nontrivial()


junk = st.one_of(
    st.text('abcdefghijklmnopqrstuvwxyz', min_size=1, max_size=9),
    st.sampled_from(['abandonn', 'abando', 'zo', 'zoo.', 'zoo,', '1', 'ábaco2', 'n\u0303', '-', '亅',
                     'zoö', 'a\u200bb', 'abandon\u200b', '\u0301abaco', 'ß', 'ﬁ']),
    st.text(min_size=1, max_size=4).filter(
        lambda t: len(ref_mnemonic.bip39_words(t)) == 1))


@C.test(st.tuples(language, st.sampled_from([11, 12, 13, 15, 18, 20, 21, 24, 25]),
                  st.lists(st.tuples(st.integers(0, 24), junk), min_size=1, max_size=5), style),
        quick=2500, shards=2)
def unknown_words(case, T):
    lang, count, bad, how = case
    wl = words(lang)
    parts = [wl[(i * 31 + count) % 2048] for i in range(count)]
    for pos, word in bad:
        parts[pos % count] = word
    text = respell(parts, how)
    seen = ref_mnemonic.bip39_words(text)
    index = {w: i for i, w in enumerate(wl)}
    unknown = [w for w in seen if w not in index]
    if len(seen) not in (12, 15, 18, 21, 24):
        check_eq(BIP39Mnemonic.is_valid(text, wl), False, 'unsupported count')
        T.label('unsupported count')
    elif unknown:
        e = raises(BIP39Mnemonic.BadWords, BIP39Mnemonic.is_valid, text, wl)
        check_eq(list(e.args[0]), unknown, 'bad words')
        T.nontrivial()
    else:
        want = ref_mnemonic.bip39_decode([index[w] for w in seen]) is not None
        check_eq(BIP39Mnemonic.is_valid(text, wl), want, 'validity')


any_text = st.one_of(
    st.text(max_size=20),
    st.text('abcdeéñÑÉüÜ ABC\u3000\u0301\u0303が\u3099かΣς', max_size=20),
    st.integers(0, 200).map(lambda n: 'x' * n))
real_text = st.tuples(language, indices_good, style).map(
    lambda t: ('real',) + t)


def _long_texts(tier):
    plain = ('lower', '', [' '], '', '')
    for size in (111, 112, 113, 119, 120, 121, 127, 128, 129, 239, 240, 241, 255, 256, 257, 511, 512,
                 513, 1000, 1023, 1024, 1025, 4096, 65_535, 65_537):
        yield 'ab ' * (size // 3), 'p' * size, plain, ''
        yield 'word', 'é' * size, plain, 'NFD'
        yield 'w' * size, '\u3042' * (size % 1000), plain, 'NFC'
    for lang in LANGS:
        for size in (16, 24, 32):
            yield ('real', lang, ref_mnemonic.bip39_indices(gens.pattern_bytes(size, 7)), plain), \
                'x' * (100 * size), plain, ''


@C.test(st.tuples(st.one_of(real_text, any_text), any_text, style,
                  st.sampled_from(['', 'NFC', 'NFD', 'NFKC', 'NFKD'])), quick=1500, shards=8,
        enum=_long_texts, examples=[('', '', ('lower', '', [' '], '', ''), ''),
                  ('a' * 127, 'TREZOR', ('lower', '', [' '], '', ''), ''),
                  ('a' * 128, 'b', ('lower', '', [' '], '', ''), ''),
                  ('a' * 129, 'b' * 200, ('lower', '', [' '], '', ''), ''),
                  ('a', ' Pass  Word ', ('lower', '', [' '], '', ''), '')])
def seeds(case, T):
    text, passphrase, other, form = case
    if isinstance(text, tuple):
        _real, lang, indices, how = text
        wl = words(lang)
        text = respell([wl[i] for i in indices], how)
    want = ref_mnemonic.bip39_seed(text, passphrase)
    check_eq(BIP39Mnemonic.to_seed(text, passphrase), want, 'seed')
    # Equivalent spellings
    parts = ref_mnemonic.bip39_words(text)
    check_eq(BIP39Mnemonic.normalize(text), ' '.join(parts), 'normalised')
    variant = respell(parts, other)
    if ref_mnemonic.bip39_words(variant) == parts:
        phrase = unicodedata.normalize(form, passphrase) if form else passphrase
        if ref_mnemonic.nfkd(phrase) == ref_mnemonic.nfkd(passphrase):
            check_eq(BIP39Mnemonic.to_seed(variant, phrase), want, 'seed of an equivalent spelling')
            T.label('equivalent spelling')
    # The passphrase's case and spacing matter
    for differing in (passphrase + ' ', passphrase.swapcase(), passphrase + '\u0301'):
        if ref_mnemonic.nfkd(differing) != ref_mnemonic.nfkd(passphrase):
            got = outcome(BIP39Mnemonic.to_seed, text, differing)
            check(got == ('ok', ref_mnemonic.bip39_seed(text, differing)), 'seed of {}', differing)
            break
    T.nontrivial()
