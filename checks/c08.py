from hypothesis import strategies as st

from bitcoinx import Address, P2PKH_Address, P2SH_Address, Script, classify_output_script
from vlib import gens, ref_text
from vlib.core import Check, check, check_eq, raises
from vlib.util import coin as get_coin

C = Check('C08', rule=(
    'All coins, hashes with leading zeros and extremes, both kinds and every spelling (Base58, '
    'CashAddr with and without prefix, both cases), and texts of other networks, versions, '
    'lengths and checksums. Non-trivial: a valid address was parsed, or a text that is a valid '
    'address apart from one stated defect was refused.'))

KINDS = {0: P2PKH_Address, 1: P2SH_Address}
VERS = {0: (0x00, 0x05), 1: (0x6f, 0xc4), 2: (0x6f, 0xc4), 3: (0x6f, 0xc4)}
CASH = {0: 'bitcoincash', 1: 'bchtest', 2: 'bchtest', 3: 'bchtest'}


def script_for(kind, h):
    if kind == 0:
        return b'\x76\xa9\x14' + h + b'\x88\xac'
    return b'\xa9\x14' + h + b'\x87'


def judge(addr, cn, kind, h, what):
    coin = get_coin(cn)
    check(type(addr) is KINDS[kind], '{}: kind {}', what, type(addr))
    check_eq(bytes(addr.hash160()), h, what + ': hash160')
    check(addr.coin() is coin, '{}: coin', what)
    check(addr == KINDS[kind](h, coin), '{}: not equal', what)
    check(addr != KINDS[1 - kind](h, coin), '{}: equal to the other kind', what)
    text = ref_text.b58check_encode(bytes([VERS[cn][kind]]) + h)
    check_eq(addr.to_string(), text, what + ': text')
    check_eq(str(addr), text, what + ': str')
    script = addr.to_script()
    check(isinstance(script, Script), 'not a script')
    check_eq(bytes(script), script_for(kind, h), what + ': script')
    check_eq(bytes(addr.to_script_bytes()), script_for(kind, h), what + ': script bytes')
    again = classify_output_script(script, coin)
    check(type(again) is KINDS[kind] and again == addr, '{}: classified as {}', what, again)
    check(again.coin() is coin, '{}: classified coin', what)
    check_eq(bytes(again.hash160()), h, what + ': classified hash')


def _edge(_tier):
    for cn in range(4):
        for kind in (0, 1):
            for n in range(21):
                yield cn, kind, bytes(n) + b'\xff' * (20 - n)
                yield cn, kind, bytes(n) + bytes(range(1, 21))[n:]


@C.test(st.tuples(gens.coin_index, st.sampled_from([0, 1]), gens.hash20), quick=3000, shards=4,
        enum=_edge)
def valid_addresses(case, T):
    cn, kind, h = case
    coin = get_coin(cn)
    judge(KINDS[kind](h, coin), cn, kind, h, 'built')
    text = ref_text.b58check_encode(bytes([VERS[cn][kind]]) + h)
    judge(Address.from_string(text, coin), cn, kind, h, 'base58')
    cash = ref_text.cash_encode(CASH[cn], kind, h)
    bare = cash.split(':', 1)[1]
    for form in (cash, bare, cash.upper(), bare.upper()):
        judge(Address.from_string(form, coin), cn, kind, h, 'cashaddr ' + form)
    # other networks
    for other in range(4):
        ocoin = get_coin(other)
        if VERS[other] == VERS[cn]:
            check(Address.from_string(text, ocoin) == KINDS[kind](h, ocoin), 'same version')
        else:
            raises(ValueError, Address.from_string, text, ocoin)
        if CASH[other] != CASH[cn]:
            for form in (cash, bare, cash.upper(), bare.upper()):
                raises(ValueError, Address.from_string, form, ocoin)
    T.nontrivial()


def accepts(text, cn):
    '''(kind, hash) by the rules, or None.'''
    raw = ref_text.b58check_decode(text)
    if raw is not None and len(raw) == 21 and raw[0] in VERS[cn]:
        return VERS[cn].index(raw[0]), raw[1:]
    for form in (text, CASH[cn] + ':' + text, CASH[cn].upper() + ':' + text):
        got = ref_text.cash_decode(form)
        if got and got[0].lower() == CASH[cn] and len(got[2]) == 20:
            return got[1], got[2]
    return None


def decide(text, cn, T):
    want = accepts(text, cn)
    coin = get_coin(cn)
    if want is None:
        raises(ValueError, Address.from_string, text, coin)
        T.label('refused')
    else:
        judge(Address.from_string(text, coin), cn, *want, text)
        T.label('accepted')


@st.composite
def text_strategy(draw):
    cn = draw(gens.coin_index)
    h = draw(gens.hash20)
    kind = draw(st.sampled_from([0, 1]))
    how = draw(st.sampled_from(['ver', 'len', 'cs', 'edit', 'cashprefix', 'cashkind', 'cashlen',
                                'cashedit', 'case', 'text', 'colon']))
    ver = VERS[cn][kind]
    if how == 'ver':
        text = ref_text.b58check_encode(bytes([draw(gens.byte)]) + h)
    elif how == 'len':
        text = ref_text.b58check_encode(bytes([ver]) + draw(st.binary(max_size=40)))
    elif how == 'cs':
        raw = bytearray(ref_text.b58_decode(ref_text.b58check_encode(bytes([ver]) + h)))
        raw[draw(st.integers(0, 24))] ^= 1 << draw(st.integers(0, 7))
        text = ref_text.b58_encode(raw)
    elif how == 'edit':
        text = list(ref_text.b58check_encode(bytes([ver]) + h))
        n = draw(st.integers(0, len(text) - 1))
        text[n] = draw(st.one_of(st.sampled_from(ref_text.B58 + '0OIl '), st.just('')))
        text = ''.join(text)
    elif how == 'cashprefix':
        p = draw(st.sampled_from(['bitcoincash', 'bchtest', 'bchreg', 'bitcoin', 'a', 'simpleledger',
                                  'bitcoincash2', 'bitcoincashs', 'bitcoincas', 'xbitcoincash',
                                  'bchtest2', 'bchtes', 'bchtestbchtest', 'b']))
        text = ref_text.cash_encode(p, kind, h)
        if draw(st.booleans()):
            text = text.split(':')[1]
        if draw(st.booleans()):
            text = text.upper()
    elif how == 'cashkind':
        text = ref_text.cash_encode_symbols(
            CASH[cn], ref_text.to_symbols(bytes([draw(gens.byte)]) + h))
    elif how == 'cashlen':
        n = draw(st.sampled_from(ref_text.SIZES))
        text = ref_text.cash_encode(CASH[cn], kind, draw(st.binary(min_size=n, max_size=n)))
    elif how == 'cashedit':
        text = list(ref_text.cash_encode(CASH[cn], kind, h))
        for _ in range(draw(st.integers(1, 3))):
            n = draw(st.integers(0, len(text) - 1))
            text[n] = draw(st.sampled_from(ref_text.CHARSET + ':'))
        text = ''.join(text)
    elif how == 'case':
        text = ref_text.cash_encode(CASH[cn], kind, h)
        n = draw(st.integers(0, len(text)))
        text = text[:n].upper() + text[n:]
        if draw(st.booleans()):
            text = text.split(':')[1]
    elif how == 'colon':
        text = ref_text.cash_encode(CASH[cn], kind, h)
        text = draw(st.sampled_from([text + ':', ':' + text, text.replace(':', '::'),
                                     text.replace(':', ''), CASH[cn] + ':' + text,
                                     text.replace(':', ': '), ' ' + text, text + '\n',
                                     text.split(':')[1] + ' ', ':' + text.split(':')[1]]))
    else:
        text = draw(st.one_of(st.text(max_size=50), st.text(ref_text.B58, max_size=50),
                              st.text(ref_text.CHARSET, min_size=30, max_size=60)))
    return text, cn


def _decorated(tier):
    for cn in range(4):
        for kind in (0, 1):
            for h in (bytes(range(1, 21)), bytes(20)):
                cash = ref_text.cash_encode(CASH[cn], kind, h)
                for text in (ref_text.b58check_encode(bytes([VERS[cn][kind]]) + h), cash,
                             cash.upper(), cash.split(':')[1], cash.split(':')[1].upper()):
                    for form in gens.decorations(text):
                        yield form, cn


@C.test(text_strategy(), quick=8000, shards=4, enum=_decorated, examples=[('', 0), ('1', 0), ('\u212a' * 42, 0)])
def texts(case, T):
    text, cn = case
    decide(text, cn, T)
    T.nontrivial()


@C.test(st.tuples(st.binary(max_size=40), gens.coin_index), quick=500,
        examples=[(bytes(n), 0) for n in range(41)])
def hash_lengths(case, T):
    h, cn = case
    for kind in KINDS.values():
        if len(h) == 20:
            check_eq(bytes(kind(h, get_coin(cn)).hash160()), h, 'hash160')
        else:
            raises(ValueError, kind, h, get_coin(cn))
    T.nontrivial()
