import os
import pickle
import select
import signal
import sys
import threading
import time

from hypothesis import strategies as st

import bitcoinx as bx
from bitcoinx import cashaddr
from bitcoinx.aes import aes_decrypt_with_iv, aes_encrypt_with_iv
from vlib import gens, ref_aes, ref_bip32, ref_ec, ref_hash, ref_mnemonic, ref_text, ref_tx
from vlib.core import Check, HarnessError, brief, check

C = Check('C32', scale=1, rule=(
    'Sequences of 2 to 14 calls of a hundred kinds over small pools of near-equal arguments (other coin, '
    'compression, one byte, text or bytes), on fresh and on shared objects, run in a fresh process '
    'in the given and in the reverse order, and two or three at a time under generated thread '
    'schedules (switching between given lines of library code) and free-running threads; every '
    'answer against that of the same call alone in a fresh process. Non-trivial: at least two '
    'different calls.'))

N, P = ref_ec.N, ref_ec.P
H = 1 << 31

#
# Pools of arguments: plain data, built without the library
#

SECRETS = [1, 2, 3, N - 1, N - 3, 0x1234567, 1 << 200, 5 << 120 | 77]
SCALARS = SECRETS[:6] + [0, N]
POINTS = [ref_ec.mul_g(s) for s in SECRETS[:6]]
KEYS = [ref_ec.ser(p, c) for p in POINTS for c in (True, False)] + [
    b'\2' + b'\0' * 31 + b'\5', b'\4' + bytes(64), b'', b'\2' * 32,
    ref_ec.ser(POINTS[2], False)[:-1] + b'\0']
HASH20 = [bytes(20), bytes(range(20)), b'\xff' * 20, bytes(19), ref_hash.hash160(KEYS[0]),
          ref_hash.hash160(KEYS[1])]
HASH32 = [bytes(32), bytes(range(32)), b'\xff' * 32, bytes(31), ref_hash.sha256(b'x')]
DATA = [b'', b'\0', b'a', b'ab', b'\x81', b'\x10', b'\x11', b'\xff' * 4, b'\0' * 5,
        b'12345', bytes.fromhex('1234567890'), bytes(75), bytes(76), bytes(range(256)), b'm' * 300,
        KEYS[0], b'text', b'\1\0', b'\0\x80', b'1']
MESSAGES = ['', 'a', b'a', 'text', b'text', 'é', 'e\u0301', 'm' * 300, b'\xff\xfe', b'']
INTS = [0, 1, -1, 16, 17, 127, 128, 255, 256, -128, 32767, 65535, 2**31 - 1, 2**31, 2**32 - 1, 2**32,
        2**63, True, False, -2**40]
SHORT = [b'\x51', b'\x76\xa9\x14' + HASH20[1] + b'\x88\xac', b'\xa9\x14' + HASH20[1] + b'\x87',
         b'\x21' + KEYS[0] + b'\xac', b'\x41' + KEYS[1] + b'\xac', b'\x21' + KEYS[2] + b'\xac',
         b'\x52\x21' + KEYS[0] + b'\x21' + KEYS[2] + b'\x52\xae',
         b'\x51\x21' + KEYS[0] + b'\x21' + KEYS[2] + b'\x52\xae',
         b'\x51\x21' + KEYS[2] + b'\x21' + KEYS[0] + b'\x52\xae',
         b'\x00\x6a\x04text', b'\x6a\x05words', b'', b'\x4c', b'\x4b\1', b'\x4d\1\0\1',
         b'\x61\x76\xa9\x14' + HASH20[1] + b'\x88\xac', b'\1\1\x75\xa9\x14' + HASH20[2] + b'\x87',
         b'\x76\xa9\x14' + HASH20[0] + b'\x88\xac', b'\xff\xba\x50', b'\1\x05', b'\x55']
DER = [ref_ec.der(r, s) for r, s in ((1, 1), (N - 1, N // 2), (255, 128), (1 << 200, 5))]
REC = [ref_ec.sign(s, ref_hash.sha256(b'text')) for s in SECRETS[:3]]
DER += [ref_ec.der(r, s) for r, s, _i in REC] + [DER[0][:-1], b'', b'\x30\6\2\1\1\2\1\1\0',
                                                ref_ec.der(REC[0][0], N - REC[0][1])]
SIGS = [d + bytes([f]) for d in DER for f in (1, 0x41, 0xc3, 0)] + [b'\xff', b'']
COMPACT = [r.to_bytes(32, 'big') + s.to_bytes(32, 'big') for r, s, _i in REC] + [
    bytes(64), b'\xff' * 64, bytes(63), bytes(31) + b'\1' + bytes(31) + b'\1']
RECSIGS = [c + bytes([i]) for c in COMPACT[:3] for i in (0, 1, 4)] + [b'', bytes(65)]
MSGSIGS = []
for _s in SECRETS[:2]:
    for _m in (b'text', b'a'):
        _h = ref_hash.dsha(b'\x18Bitcoin Signed Message:\n' + bytes([len(_m)]) + _m)
        _r, _t, _i = ref_ec.sign(_s, _h)
        for _c in (27, 31):
            MSGSIGS.append(bytes([_c + _i]) + _r.to_bytes(32, 'big') + _t.to_bytes(32, 'big'))
MSGSIGS += [ref_text.b64_encode(m) for m in MSGSIGS] + [b'', '', 'é', MSGSIGS[0][:-1]]
TEXTS58 = [ref_text.b58check_encode(v + h) for v in (b'\0', b'\5', b'\x6f', b'\xc4')
           for h in HASH20[:3]]
CASH = [ref_text.cash_encode(p, k, h) for p in ('bitcoincash', 'bchtest') for k in (0, 1)
        for h in HASH20[:2]]
CASH += [c.upper() for c in CASH] + [c.split(':')[1] for c in CASH]
WIFS = [ref_text.b58check_encode(v + s.to_bytes(32, 'big') + t) for v in (b'\x80', b'\xef')
        for s in SECRETS[:2] for t in (b'', b'\1', b'\2')]
TEXTS = TEXTS58 + CASH + WIFS + ['', '1', 'z', TEXTS58[0][:-1], CASH[0][:-1] + 'q', ' ' + TEXTS58[0],
                                 'S6c56bnXQiBjk9mqSYE7ykVQ7NzrRy', 'SzavMBLoXU6kDrqtUVmffv',
                                 (5).to_bytes(32, 'big').hex()]
NODES = [ref_bip32.from_seed(bytes([n]) * 16) for n in range(2)]
NODES += [ref_bip32.child(NODES[0], n) for n in (0, H)]
# Nodes that differ in one part only
_S, _P, _C, _D, _F, _N = NODES[2]
NODES += [(_S, _P, NODES[0][2], _D, _F, _N), (_S, _P, _C, _D + 1, _F, _N), (_S, _P, _C, _D, _F, 1),
          (_S, _P, _C, _D, b'abcd', _N), ref_bip32.private(ref_ec.N - _S, _C, _D, _F, _N)]
XKEYS = [ref_bip32.text(n if private else ref_bip32.neuter(n), coin)
         for n in NODES for private in (True, False) for coin in (0, 1)]
XKEYS += [XKEYS[0][:-1], '', TEXTS58[0]]
SEEDS = [bytes(16), bytes([1]) * 16, bytes(64), bytes(15)]
INDICES = [0, 1, 2, H - 1, H, H + 1, 2 * H - 1, 2 * H, -1]
PATHS = ['m', 'm/0', "m/0'", "m/44'/0'/1", 'm/1', 'm/', 'm/2147483648', 'M/0', 'm/0\n', '']
LISTS = [[], [0], [H], [44 + H, H, 1], [1], [-1], [2 * H], ['a'], [True], [0, 1]]
HEXSEEDS = ['0' * 32, 'ab' * 16, 'AB' * 16, '12' * 32, '0' * 31, 'zz' * 16, '']
OLD = ['like ' * 12, 'forgot never', 'just just just', 'LIKE ' * 24, '', 'like just love know never '
       'want time out there make look eye', 'like x love']
BIP39_ENTROPY = [bytes(16), b'\xff' * 16, bytes(range(32))]
BIP39_TEXTS = ['abandon ' * 11 + 'about', 'ABANDON ' * 11 + 'About', 'zoo ' * 11 + 'wrong',
               'abandon ' * 12, 'abandon', 'x ' * 12, '',
               'abandon\u3000' * 11 + 'about', 'zoo ' * 24]
LANGS = ['english.txt', 'japanese.txt', 'spanish.txt']
PASS = ['', 'TREZOR', 'é', 'e\u0301']
BITS = [0x1d00ffff, 0x207fffff, 0x1b0404cb, 0x03123456, 0, 1, 0x01010000, 0x2100ffff, 0x2100fffe,
        0x1d800000, 0x1e00ffff, 0xffffffff]
TARGETS = [0, 1, 0x7fffff, 0x800000, (1 << 224) - 1, 0xffff << 208, (1 << 256) - 1, 1 << 256, -1]
HEADERS = [(v % (1 << 32)).to_bytes(4, 'little') + HASH32[a] + HASH32[b] + t.to_bytes(4, 'little')
           + bits.to_bytes(4, 'little') + n.to_bytes(4, 'little')
           for v, a, b, t, bits, n in ((1, 0, 1, 5, 0x1d00ffff, 7), (2, 1, 0, 5, 0x1d00ffff, 7),
                                       (-1, 2, 1, 1 << 31, 0x207fffff, 0), (1, 0, 1, 5, 1, 7))]
INPUTS = [(HASH32[n % 3], i, SHORT[k], q) for n, i, k, q in (
    (1, 0, 0, 0xffffffff), (1, 1, 11, 0), (0, 0xffffffff, 9, 5), (2, 7, 1, 0xfffffffe))]
OUTPUTS = [(v, s) for v, s in ((0, SHORT[1]), (5000, SHORT[2]), (21 * 10**14, SHORT[9]),
                               (-1, SHORT[12]), (1, SHORT[4]))]
TXS = [ref_tx.ser(t) for t in (
    (1, INPUTS[:1], OUTPUTS[:1], 0), (1, INPUTS[:1], OUTPUTS[:2], 0), (2, INPUTS[:2], OUTPUTS, 500),
    (1, INPUTS[2:3], OUTPUTS[:1], 0), (1, INPUTS[1:2], OUTPUTS[1:2], 1500000000),
    (-1, INPUTS, OUTPUTS[2:], 0xffffffff), (1, INPUTS[:1], OUTPUTS[:1], 1))]
FLAGS = [0, 1, 2, 4, 8, 16, 31]
SIGHASHES = [0x41, 0x42, 0x43, 0xc1, 0xc2, 0xc3, 1, 0, 0xff, None]
_EPH = ref_ec.mul_g(99)
_K = ref_hash.sha512(ref_ec.ser(ref_ec.mul(99, POINTS[0])))
BLOBS = []
for _m in (b'', b'text'):
    _b = b'BIE1' + ref_ec.ser(_EPH) + ref_aes.cbc_encrypt(_K[16:32], _K[:16], ref_aes.pad(_m))
    BLOBS.append(_b + ref_hash.hmac_sha256(_K[32:], _b))
BLOBS += [BLOBS[1][:-1] + b'\0', b'', ref_text.b64_encode(BLOBS[1])]
AESKEYS = [bytes(16), bytes(range(16)), bytes(24), bytes(32)]
VARINTS = [0, 1, 252, 253, 255, 65535, 65536, 2**32 - 1, 2**32, 2**64 - 1, 2**64, -1]
STREAMS = [b'', b'\0', b'\xfd\0', b'\xfd\xfd\0', b'\xfe\0\0\1\0', b'\xff' * 9, b'\2ab', b'\3ab']


#
# Kinds of calls.  Each gets an object store and four small integers.
#

class Store:
    '''Objects that calls of one sequence share.'''

    def __init__(self):
        self.objects = {}
        self.kept = []

    def arg(self, x):
        '''An argument that the call may not change.'''
        self.kept.append((x, plain(x)))
        return x

    def get(self, shared, kind, key, build):
        if not shared:
            return build()
        key = kind, key
        if key not in self.objects:
            self.objects[key] = build()
        return self.objects[key]


KINDS = {}


def kind(func):
    KINDS[func.__name__.rstrip('_')] = func
    return func


def pick(pool, n):
    return pool[n % len(pool)]


def coin(n):
    return pick(bx.all_coins, n)


def private(o, sh, a, b, c):
    secret, compressed, n = pick(SECRETS, a), bool(b & 1), c % 4
    return o.get(sh, 'private', (secret, compressed, n), lambda: bx.PrivateKey(
        secret.to_bytes(32, 'big'), compressed, coin(n)))


def public(o, sh, a):
    data = KEYS[a % 12]
    return o.get(sh, 'public', data, lambda: bx.PublicKey.from_bytes(data))


def script(o, sh, a):
    raw = pick(SHORT, a)
    return o.get(sh, 'script', raw, lambda: bx.Script(raw))


def tx(o, sh, a):
    raw = pick(TXS, a)
    return o.get(sh, 'tx', raw, lambda: bx.Tx.from_bytes(raw))


def xkey(o, sh, a):
    text = XKEYS[a % (4 * len(NODES))]
    return o.get(sh, 'xkey', text, lambda: bx.bip32_key_from_string(text))


def buffer(data, how):
    return (bytes, bytearray, memoryview)[how % 3](data)


def xpart(key):
    d = key.derivation()
    return (key, d.chain_code, d.n, d.depth, bytes(d.parent_fingerprint))


def _hash_kind(name):
    def call(o, sh, a, b, c, d):
        return getattr(bx, name)(buffer(pick(DATA, a), b))
    KINDS[name] = call


for _n in ('sha1', 'sha256', 'sha512', 'double_sha256', 'ripemd160', 'hash160'):
    _hash_kind(_n)


def _fixed_kind(name, pool):
    def call(o, sh, a, b, c, d):
        value = pick(pool, a)
        if isinstance(value, list):
            value = o.arg(list(value))
        return getattr(bx, name)(value)
    KINDS[name] = call


for _n, _p in (
        ('hash_to_hex_str', HASH32), ('hash_to_value', HASH32), ('push_int', INTS),
        ('push_item', DATA), ('item_to_int', DATA), ('push_and_drop_item', DATA),
        ('base58_encode', DATA), ('base58_decode', TEXTS), ('base58_encode_check', DATA),
        ('base58_decode_check', TEXTS), ('is_minikey', TEXTS), ('bits_to_target', BITS),
        ('target_to_bits', TARGETS), ('bits_to_work', BITS), ('pack_varint', VARINTS),
        ('varint_len', VARINTS), ('pack_varbytes', DATA), ('int_to_le_bytes', VARINTS),
        ('int_to_be_bytes', VARINTS), ('pack_le_uint32', VARINTS), ('pack_be_uint16', VARINTS),
        ('bip32_decompose_chain_string', PATHS), ('bip32_is_valid_chain_string', PATHS),
        ('bip32_build_chain_string', LISTS), ('bip32_validate_derivation', LISTS),
        ('bip32_key_from_string', XKEYS), ('der_signature_to_compact', DER),
        ('compact_signature_to_der', COMPACT)):
    if hasattr(bx, _n):
        _fixed_kind(_n, _p)


@kind
def hmac_sha512(o, sh, a, b, c, d):
    return bx.hmac_sha512(pick(DATA, a), buffer(pick(DATA, b), c)), bx.hmac_sha512_halves(
        pick(DATA, b), pick(DATA, a))


@kind
def hex_str_to_hash(o, sh, a, b, c, d):
    return bx.hex_str_to_hash(pick(HASH32, a).hex())


@kind
def read_varint(o, sh, a, b, c, d):
    from io import BytesIO
    f = BytesIO(pick(STREAMS, a))
    return bx.read_varint(f.read), f.tell()


@kind
def read_varbytes(o, sh, a, b, c, d):
    from io import BytesIO
    f = BytesIO(pick(STREAMS, a))
    return bx.read_varbytes(f.read), f.tell()


@kind
def read_list(o, sh, a, b, c, d):
    from io import BytesIO
    items = o.arg([pick(DATA, a + n) for n in range(b % 5)])
    packed = bx.pack_list(items, bx.pack_varbytes)
    return packed, bx.read_list(BytesIO(packed).read, bx.read_varbytes)


@kind
def cash_decode(o, sh, a, b, c, d):
    return cashaddr.decode(pick(CASH + TEXTS58, a))


@kind
def address(o, sh, a, b, c, d):
    t, n = pick(TEXTS58 + CASH, a), b % 4
    found = o.get(sh, 'address', (t, n), lambda: bx.Address.from_string(t, coin(n)))
    return found, found.to_string(), bytes(found.to_script_bytes())


@kind
def classify(o, sh, a, b, c, d):
    return bx.classify_output_script(script(o, sh, a), coin(b))


@kind
def template(o, sh, a, b, c, d):
    return script(o, sh, a).to_template()


@kind
def ops(o, sh, a, b, c, d):
    out = []
    try:
        for op in script(o, sh, a).ops():
            out.append(op)
    except bx.TruncatedScriptError:
        out.append('truncated')
    return out


@kind
def asm(o, sh, a, b, c, d):
    raw = b''.join(bytes([len(s)]) + s for s in (pick(SIGS, a), pick(SIGS, c)) if s)
    s = o.get(sh, 'sig script', raw, lambda: bx.Script(raw))
    return s.to_asm(bool(b & 1)), script(o, sh, d).to_asm(bool(b & 1))


@kind
def from_asm(o, sh, a, b, c, d):
    text = script(o, sh, a).to_asm(False)
    return text, bx.Script.from_asm(text)


@kind
def script_append(o, sh, a, b, c, d):
    s = script(o, sh, a)
    before = bytes(s)
    items = o.arg([pick(INTS, b), pick(DATA, c), bx.OP_CHECKSIG, script(o, sh, d),
                   bytearray(pick(DATA, d))])
    one = s
    for item in items:
        one = one << item
    return one, s.push_many(items), bytes(s) == before


@kind
def script_json(o, sh, a, b, c, d):
    return script(o, sh, a).to_json(bx.JSONFlags(pick(FLAGS, b)), bool(c & 1), coin(d))


@kind
def push_and_drop_items(o, sh, a, b, c, d):
    items = o.arg([pick(DATA, a + n) for n in range(b % 5)])
    return bx.push_and_drop_items(items)


@kind
def tx_bytes(o, sh, a, b, c, d):
    t = tx(o, sh, a)
    return t.to_bytes(), t.size(), t.hash(), t.hex_hash(), t.to_hex()


@kind
def tx_json(o, sh, a, b, c, d):
    return tx(o, sh, a).to_json(bx.JSONFlags(pick(FLAGS, b)), coin(c))


@kind
def tx_sighash(o, sh, a, b, c, d):
    s = pick(SIGHASHES, c)
    kw = {} if s is None else {'sighash': bx.SigHash(s)}
    value = (0, 1000, 21 * 10**14, 1 << 63, -1)[d % 5]
    return tx(o, sh, a).signature_hash(b % 4, value, script(o, sh, d), **kw)


@kind
def tx_queries(o, sh, a, b, c, d):
    t = tx(o, sh, a)
    return (t.is_coinbase(), t.are_inputs_final(), t.total_output_value(),
            t.is_final_for_block(b * 100, c * 250_000_000), [i.is_coinbase() for i in t.inputs],
            repr(t))


@kind
def tx_parts(o, sh, a, b, c, d):
    t = tx(o, sh, a)
    return [(i.to_bytes(), i.size(), i.is_final()) for i in t.inputs], [
        (p.to_bytes(), p.size(), p.to_json(bx.JSONFlags(b % 32), coin(c), d)) for p in t.outputs]


@kind
def wif(o, sh, a, b, c, d):
    k = private(o, sh, a, b, c)
    return k.to_WIF(), k.to_WIF(compressed=bool(d & 1), coin=coin(d)), k.to_hex(), k.to_int()


@kind
def from_text(o, sh, a, b, c, d):
    return bx.PrivateKey.from_text(pick(TEXTS, a))


@kind
def from_wif(o, sh, a, b, c, d):
    return bx.PrivateKey.from_WIF(pick(WIFS, a))


@kind
def public_of(o, sh, a, b, c, d):
    k = private(o, sh, a, b, c)
    p = k.public_key
    return p, p.to_bytes(), p.to_bytes(compressed=bool(d & 1)), p.coin().name, p.to_address()


@kind
def public_forms(o, sh, a, b, c, d):
    k = bx.PublicKey.from_bytes(pick(KEYS, a))
    return (k, k.to_hex(), tuple(k.to_point()), k.complement(), k.hash160(),
            k.hash160(compressed=bool(b & 1)), k.to_address(compressed=bool(b & 1), coin=coin(c)),
            bytes(k.P2PK_script()), bytes(k.P2PKH_script()))


@kind
def from_point(o, sh, a, b, c, d):
    x, y = pick(POINTS, a)
    return bx.PublicKey.from_point(x, (y, P - y, y ^ 1)[b % 3])


@kind
def private_add(o, sh, a, b, c, d):
    k = private(o, sh, a, b, c)
    return k.add(pick(SCALARS, d).to_bytes(32, 'big')), k


@kind
def private_multiply(o, sh, a, b, c, d):
    k = private(o, sh, a, b, c)
    return k.multiply(pick(SCALARS, d).to_bytes(32, 'big')), k


@kind
def public_add(o, sh, a, b, c, d):
    k = public(o, sh, a)
    return k.add(pick(SCALARS, b).to_bytes(32, 'big')), k


@kind
def public_multiply(o, sh, a, b, c, d):
    k = public(o, sh, a)
    return k.multiply(pick(SCALARS, b).to_bytes(32, 'big')), k


@kind
def combine(o, sh, a, b, c, d):
    keys = o.arg([public(o, sh, n) for n in (a, b, c)[:1 + d % 3]])
    return bx.PublicKey.combine_keys(keys)


@kind
def multisig(o, sh, a, b, c, d):
    keys = o.arg([public(o, sh, n) for n in (a, b, c)[:1 + d % 3]])
    found = o.get(sh, 'multisig', (a % 12, b % 12, c % 12, d % 6),
                  lambda: bx.P2MultiSig_Output(keys, 1 + d // 3 % 2))
    return found, found.public_key_count(), bytes(found.to_script())


@kind
def buffers(o, sh, a, b, c, d):
    out = []
    for build in (bx.Script, bx.push_item, bx.push_and_drop_item, bx.item_to_int):
        data = bytearray(pick(DATA, a))
        # What was built does not change with the buffer it was built from
        out.append(o.arg(build(data)))
        for n, byte in enumerate(data):
            data[n] = byte ^ 0x55
    return out


@kind
def iterate(o, sh, a, b, c, d):
    '''Two readers of one script at a time.'''
    x, y = script(o, sh, a).ops(), script(o, sh, a + b % 2).ops()
    out = []
    for n in range(c % 4 + 1):
        for r in (x, y):
            try:
                out.append(next(r, None))
            except bx.TruncatedScriptError:
                out.append('truncated')
    return out


@kind
def shared_secret(o, sh, a, b, c, d):
    return private(o, sh, a, b, c).shared_secret(public(o, sh, d), pick(DATA, b))


@kind
def ecdh(o, sh, a, b, c, d):
    return private(o, sh, a, b, c).ecdh_shared_secret(public(o, sh, d))


def hasher(n):
    return ({}, {'hasher': ref_hash.sha256}, {'hasher': ref_hash.dsha})[n % 3]


@kind
def sign(o, sh, a, b, c, d):
    m = pick(MESSAGES, c)
    return private(o, sh, a, b, 0).sign(m.encode() if isinstance(m, str) else m, **hasher(d))


@kind
def sign_hash(o, sh, a, b, c, d):
    return private(o, sh, a, b, 0).sign(pick(HASH32, c), None)


@kind
def sign_recoverable(o, sh, a, b, c, d):
    return private(o, sh, a, b, 0).sign_recoverable(pick(HASH32, c), None)


@kind
def sign_message(o, sh, a, b, c, d):
    k = private(o, sh, a, b, 0)
    return k.sign_message(pick(MESSAGES, c), **hasher(d)), k.sign_message_to_base64(
        pick(MESSAGES, c))


@kind
def verify_der(o, sh, a, b, c, d):
    return public(o, sh, a).verify_der_signature(pick(DER, b), (b'text', b'a')[c % 2])


@kind
def verify_recoverable(o, sh, a, b, c, d):
    return public(o, sh, a).verify_recoverable_signature(pick(RECSIGS, b), (b'text', b'a')[c % 2])


@kind
def recover(o, sh, a, b, c, d):
    return bx.PublicKey.from_recoverable_signature(pick(RECSIGS, a), (b'text', b'a')[b % 2])


@kind
def verify_message(o, sh, a, b, c, d):
    return public(o, sh, a).verify_message(pick(MSGSIGS, b), ('text', b'text', 'a', b'')[c % 4],
                                           **hasher(d))


@kind
def recover_message(o, sh, a, b, c, d):
    return bx.PublicKey.from_signed_message(pick(MSGSIGS, a), ('text', b'text', 'a')[b % 3])


@kind
def verify_address(o, sh, a, b, c, d):
    text = ref_text.b58check_encode((b'\0', b'\x6f')[d % 2] + ref_hash.hash160(KEYS[c % 12]))
    return bx.PublicKey.verify_message_and_address(pick(MSGSIGS, a), ('text', 'a')[b % 2], text)


@kind
def decrypt(o, sh, a, b, c, d):
    kw = {} if c % 3 else {'magic': b'BIE2'}
    return private(o, sh, a % 2, b, 0).decrypt_message(pick(BLOBS, d), **kw)


@kind
def aes(o, sh, a, b, c, d):
    key, iv, data = pick(AESKEYS, a), bytes([b % 3]) * 16, pick(DATA, c)
    blob = aes_encrypt_with_iv(key, iv, data)
    return blob, aes_decrypt_with_iv(key, iv, blob)


@kind
def aes_decrypt(o, sh, a, b, c, d):
    if d % 2:
        return aes_decrypt_with_iv(pick(AESKEYS, a), bytes(16), bytes([b % 5]) * (16 * (c % 3)))
    blob = ref_aes.cbc_encrypt(pick(AESKEYS, a), bytes(16), ref_aes.pad(pick(DATA, b)))
    return aes_decrypt_with_iv(pick(AESKEYS, a + c % 2), bytes(16), blob)


@kind
def hd_child(o, sh, a, b, c, d):
    k = xkey(o, sh, a)
    return xpart(k.child(pick(INDICES, b))), xpart(k)


@kind
def hd_child_safe(o, sh, a, b, c, d):
    return xpart(xkey(o, sh, a).child_safe(pick(INDICES, b)))


@kind
def hd_parts(o, sh, a, b, c, d):
    k = xkey(o, sh, a)
    return (xpart(k), k.fingerprint(), k.identifier(), k.to_extended_key_string(), k.to_bytes(),
            k.coin().name, str(k))


@kind
def hd_public(o, sh, a, b, c, d):
    k = xkey(o, sh, 4 * (a // 4) + a % 2)
    return xpart(k.public_key), k.public_key.to_extended_key_string(), k.to_extended_key_string()


@kind
def hd_seed(o, sh, a, b, c, d):
    k = bx.BIP32PrivateKey.from_seed(pick(SEEDS, a), coin(b))
    return xpart(k), k.to_extended_key_string()


def words(n):
    return bx.Wordlists.bip39_wordlist(pick(LANGS, n))


@kind
def wordlist(o, sh, a, b, c, d):
    if a % 4 == 3:
        return ref_mnemonic.list_digest(bx.Wordlists.original_electrum_wordlist())
    return ref_mnemonic.list_digest(words(a))


@kind
def bip39_valid(o, sh, a, b, c, d):
    return bx.BIP39Mnemonic.is_valid(pick(BIP39_TEXTS, a), words(b))


@kind
def bip39_seed(o, sh, a, b, c, d):
    return bx.BIP39Mnemonic.to_seed(pick(BIP39_TEXTS, a), pick(PASS, b))


@kind
def bip39_normalize(o, sh, a, b, c, d):
    return bx.BIP39Mnemonic.normalize(pick(BIP39_TEXTS, a))


@kind
def encrypt(o, sh, a, b, c, d):
    blob = public(o, sh, 2 * (a % 6) + b % 2).encrypt_message(pick(MESSAGES, c))
    return len(blob), private(o, sh, a % 6, b, 0).decrypt_message(blob)


@kind
def electrum_new(o, sh, a, b, c, d):
    return bx.ElectrumMnemonic.is_valid_new(pick(OLD + BIP39_TEXTS, a), ('01', '1', '')[b % 3])


@kind
def electrum_old(o, sh, a, b, c, d):
    t = pick(OLD, a)
    return bx.ElectrumMnemonic.is_valid_old(t), bx.ElectrumMnemonic.normalize_old(t)


@kind
def electrum_to_hex(o, sh, a, b, c, d):
    return bx.ElectrumMnemonic.old_to_hex_seed(pick(OLD, a))


@kind
def electrum_from_hex(o, sh, a, b, c, d):
    return bx.ElectrumMnemonic.hex_seed_to_old(pick(HEXSEEDS, a))


@kind
def header(o, sh, a, b, c, d):
    raw, n, k = pick(HEADERS, a), b % 4, c % 3
    h = o.get(sh, 'header', (raw, n, k), lambda: coin(n).deserialized_header(raw, k))
    return (h.version, h.prev_hash, h.merkle_root, h.timestamp, h.bits, h.nonce, h.hash, h.height,
            h.hex_str(), h.work(), h.target(), h.difficulty(), str(h))


@kind
def header_access(o, sh, a, b, c, d):
    k, raw = coin(b), pick(HEADERS, a)
    return (k.header_hash(raw), k.header_prev_hash(raw), k.header_timestamp(raw),
            k.header_bits(raw), k.header_work(raw), k.bits_to_difficulty(k.header_bits(raw)))


@kind
def signature(o, sh, a, b, c, d):
    raw = pick(SIGS, a)
    s = o.get(sh, 'signature', raw, lambda: bx.Signature(raw))
    if raw == b'\xff':
        return s.to_bytes(), s.is_present()
    return (s.to_bytes(), s.to_hex(), s.der_signature, int(s.sighash), s.r_value(), s.s_value(),
            s.to_string(), s.to_compact())


@kind
def sighash_text(o, sh, a, b, c, d):
    s = bx.SigHash((a * 16 + b) % 256)
    return s.to_string(), int(s.base), bool(s.anyone_can_pay)


@kind
def equality(o, sh, a, b, c, d):
    k, l = private(o, sh, a, b, c), private(o, sh, a + d % 2, c, b)
    p, q = public(o, sh, a), public(o, sh, a + d % 3)
    s, t = script(o, sh, a), script(o, sh, a + d % 2)
    return (k == l, hash(k) == hash(l), p == q, hash(p) == hash(q), s == t, hash(s) == hash(t),
            k == p, s == bytes(s), s == 5)


NAMES = sorted(KINDS)
# Kinds whose first argument chooses an object of the same kind
FAMILIES = [
    ['tx_bytes', 'tx_json', 'tx_sighash', 'tx_queries', 'tx_parts'],
    ['classify', 'template', 'ops', 'iterate', 'asm', 'from_asm', 'script_append', 'script_json'],
    ['wif', 'public_of', 'private_add', 'private_multiply', 'shared_secret', 'ecdh', 'sign',
     'sign_hash', 'sign_recoverable', 'sign_message', 'decrypt', 'equality'],
    ['public_add', 'public_multiply', 'combine', 'multisig', 'verify_der', 'verify_recoverable',
     'verify_message', 'encrypt', 'public_forms', 'equality'],
    ['hd_child', 'hd_child_safe', 'hd_parts', 'hd_public', 'bip32_key_from_string'],
    ['header', 'header_access', 'bits_to_work', 'bits_to_target', 'target_to_bits'],
    ['wordlist', 'bip39_valid', 'bip39_seed', 'bip39_normalize', 'electrum_new', 'electrum_old',
     'electrum_to_hex', 'electrum_from_hex'],
    ['address', 'classify', 'cash_decode', 'base58_decode', 'base58_decode_check', 'from_text',
     'from_wif', 'is_minikey', 'verify_address'],
    ['signature', 'asm', 'sighash_text', 'der_signature_to_compact', 'compact_signature_to_der',
     'recover', 'recover_message', 'verify_der', 'verify_recoverable', 'verify_message'],
    ['aes', 'aes_decrypt', 'encrypt', 'decrypt'],
    ['push_int', 'push_item', 'item_to_int', 'push_and_drop_item', 'push_and_drop_items', 'buffers'],
]
for _f in FAMILIES:
    for _n in _f:
        if _n not in KINDS:
            raise HarnessError(_n)


#
# Running calls
#

def plain(x):
    '''Plain data for any answer.'''
    if x is None or isinstance(x, (bool, int, float, str)):
        # Not repr: enumerations and subclasses are compared by value
        return (type(x) if type(x) in (bool, float) else 'int' if isinstance(x, int) else 'str',
                x if x is None or isinstance(x, (bool, float)) else
                int(x) if isinstance(x, int) else str(x))
    if isinstance(x, (bytes, bytearray, memoryview)):
        return 'bytes', bytes(x)
    if isinstance(x, (list, tuple)):
        return 'list', [plain(v) for v in x]
    if isinstance(x, dict):
        return 'dict', [(plain(k), plain(v)) for k, v in x.items()]
    if isinstance(x, (bx.PrivateKey, bx.PublicKey)):
        return type(x).__name__, x.to_bytes(), x.is_compressed(), x.coin().name
    if isinstance(x, bx.Script):
        return 'Script', bytes(x)
    if isinstance(x, bx.Address):
        return type(x).__name__, x.to_string(), bytes(x.hash160()), x.coin().name
    if isinstance(x, bx.P2PK_Output):
        return 'P2PK', x.public_key.to_bytes(), x.to_address().to_string()
    if isinstance(x, bx.P2MultiSig_Output):
        return 'multisig', x.threshold, [k.to_bytes() for k in x.public_keys], x.to_script_bytes()
    return (type(x).__name__,)


CHANGED = 'changes its argument'


def call(store, c):
    '''(rendered answer, the answer itself).'''
    name, a, b, n, d, shared = c
    try:
        kept = len(store.kept)
        try:
            value = KINDS[name](store, shared, a, b, n, d)
        finally:
            for x, before in store.kept[kept:]:
                if plain(x) != before:
                    return (CHANGED, before, plain(x)), None
            del store.kept[kept:]
        return ('ok', plain(value)), value
    except Exception as e:
        # Any kind of value error is one kind; the properties of each function say more
        for base in (bx.InvalidSignatureError, bx.DecryptionError, bx.Base58Error):
            if isinstance(e, base):
                return ('raises', base.__name__), None
        return ('raises', type(e).__name__), None


def in_child(func, limit=60):
    '''func() in a fork of this process, which has not called the library.'''
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        code = 1
        try:
            signal.setitimer(signal.ITIMER_PROF, 0)
            os.close(r)
            data = pickle.dumps(func())
            with os.fdopen(w, 'wb') as f:
                f.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    data = b''
    end = time.time() + limit
    try:
        while True:
            left = end - time.time()
            if left <= 0 or not select.select([r], [], [], left)[0]:
                os.kill(pid, signal.SIGKILL)
                return None
            part = os.read(r, 1 << 20)
            if not part:
                break
            data += part
    finally:
        os.close(r)
        _pid, status = os.waitpid(pid, 0)
    if status or not data:
        return 'died'
    return pickle.loads(data)


def alone(T, c):
    '''The answer of the call in a process that made no other.'''
    known = T.store.setdefault('alone', {})
    key = c[:5]
    if key not in known:
        got = in_child(lambda: [call(Store(), c)[0]])
        if not isinstance(got, list):
            raise HarnessError(f'{c}: {got}')
        known[key] = got[0]
    return known[key]


def scribble(x):
    '''Change what a caller may change of an answer.'''
    if isinstance(x, tuple):
        for v in x:
            scribble(v)
    elif isinstance(x, list):
        for v in x:
            scribble(v)
        x.reverse()
        x.append('scribbled')
    elif type(x) is dict:
        for k in list(x):
            scribble(x[k])
            x[k] = 'scribbled'
        x['scribbled'] = True
    elif isinstance(x, bytearray):
        x[:] = b'scribbled'


def changing(calls):
    '''Answers, each changed by the caller before the next call.'''
    store = Store()
    out = []
    for c in calls:
        answer, value = call(store, c)
        out.append(answer)
        scribble(value)
    return out


def sequence(calls):
    '''Answers when made, and the same answers looked at again at the end.'''
    store = Store()
    first, values = [], []
    for c in calls:
        answer, value = call(store, c)
        first.append(answer)
        values.append(value)
    again = [('ok', plain(v)) if f[0] == 'ok' else f for f, v in zip(first, values)]
    return first, again


def compare(T, calls, answers, what):
    check(isinstance(answers, (list, tuple)), '{}: the process {}', what,
          'hangs' if answers is None else answers)
    for c, got in zip(calls, answers):
        want = alone(T, c)
        check(got[0] != CHANGED, '{}: {} changes an argument: {}', what, c, got[1:])
        check(got == want, '{}: {} gives {} but {} alone', what, c, got, want)
        T.count()


small = st.integers(0, 63)
one_call = st.one_of(
    st.tuples(st.sampled_from(NAMES), small, small, small, small, st.booleans()),
    st.tuples(st.sampled_from(NAMES), *[st.integers(0, 3)] * 4, st.booleans()))


@st.composite
def similar_calls(draw, size=14):
    '''Calls of few kinds over few arguments.'''
    pool = draw(st.one_of(st.just(NAMES), st.sampled_from(FAMILIES)))
    names = draw(st.lists(st.sampled_from(pool), min_size=1, max_size=4))
    value = st.integers(0, draw(st.sampled_from([1, 3, 63])))
    return draw(st.lists(st.tuples(st.sampled_from(names), value, value, value, value,
                                   st.booleans()), min_size=2, max_size=size))


calls_strategy = st.one_of(similar_calls(), st.lists(one_call, min_size=2, max_size=14))


def _each_kind(tier):
    for name in NAMES:
        for base in range(0, 64, 6 if tier == 'quick' else 1):
            for shared in (False, True):
                # One argument changes at a time, and back
                calls = []
                for n in range(4):
                    for delta in (0, 1, 2, 3):
                        args = [base] * 4
                        args[n] += delta
                        calls.append((name, *args, shared))
                yield calls + calls[:1]


    # Every value of one argument
    for name in NAMES:
        for base in (0, 1) if tier == 'quick' else range(6):
            for n in range(4):
                args = [(name, *[base] * n, v, *[base] * (3 - n), base == 1) for v in range(64)]
                yield args
    # Every two kinds of a family on the same object, and on another
    for family in FAMILIES:
        for one in family:
            for two in family:
                for base in (0, 1, 2, 5, 9) if tier == 'quick' else range(12):
                    calls = [(two, base, 0, 0, 0, True)]
                    for n in range(5):
                        calls += [(one, base + (n == 4), n, n, n, True),
                                  (two, base, n % 3, n % 2, n, True)]
                    yield calls


@C.test(calls_strategy, quick=2400, shards=8, enum=_each_kind)
def orders(calls, T):
    for what, seq in (('in order', calls), ('reversed', calls[::-1]),
                      ('twice', [c for c in calls for _ in (0, 1)])):
        got = in_child(lambda: sequence(seq))
        if isinstance(got, tuple):
            compare(T, seq, got[0], what)
            compare(T, seq, got[1], what + ', looked at again later')
        else:
            compare(T, seq, got, what)
    compare(T, calls + calls, in_child(lambda: changing(calls + calls)),
            'each answer changed by the caller')
    if len(set(calls)) > 1:
        T.nontrivial()


# Threads

class Scheduler:
    '''Lets one of several threads run at a time, switching after given numbers of traced lines.'''

    def __init__(self, count, schedule):
        self.cond = threading.Condition()
        self.turn = 0
        self.live = set(range(count))
        self.schedule = schedule
        self.pos = 0
        self.left = schedule[0] if schedule else 1 << 60
        self.free = False
        self.switches = 0

    def tracer(self, me):
        prefix = os.path.dirname(bx.__file__)

        def trace(frame, event, _arg):
            if not frame.f_code.co_filename.startswith(prefix):
                return None
            if event == 'line':
                self.step(me)
            return trace
        return trace

    def wait(self, me):
        # A thread that waits for something of the library's own cannot pass the turn on
        end = time.time() + 2
        while self.turn != me and not self.free:
            if not self.cond.wait(0.5) and time.time() > end:
                self.free = True
                self.cond.notify_all()

    def step(self, me):
        if self.free:
            return
        with self.cond:
            self.wait(me)
            self.left -= 1
            if self.left <= 0:
                self.advance(me)
                self.wait(me)

    def advance(self, me):
        self.pos += 1
        self.left = self.schedule[self.pos] if self.pos < len(self.schedule) else 1 << 60
        others = sorted(self.live - {me})
        if others:
            self.turn = next((n for n in others if n > me), others[0])
            self.switches += 1
            self.cond.notify_all()

    def run(self, me, func, out):
        with self.cond:
            self.wait(me)
        sys.settrace(self.tracer(me))
        try:
            out[me] = func()
        finally:
            sys.settrace(None)
            with self.cond:
                self.live.discard(me)
                others = sorted(self.live)
                if others and self.turn == me:
                    self.turn = others[0]
                self.cond.notify_all()


def scheduled(parts, schedule):
    store = Store()
    sched = Scheduler(len(parts), schedule)
    out = [None] * len(parts)
    threads = [threading.Thread(target=sched.run, args=(
        n, lambda part=part: [call(store, c)[0] for c in part], out)) for n, part in enumerate(parts)]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    return out, sched.switches


@st.composite
def thread_case(draw):
    parts = draw(st.one_of(
        st.lists(similar_calls(3), min_size=2, max_size=3),
        st.lists(st.lists(one_call, min_size=1, max_size=3), min_size=2, max_size=3)))
    if draw(st.booleans()):
        # The same kind on both sides
        parts[1][0] = (parts[0][0][0],) + tuple(parts[1][0][1:])
    schedule = draw(st.lists(st.one_of(st.integers(1, 12), st.integers(1, 60)), min_size=1,
                             max_size=40))
    return parts, schedule


def _pairs(tier):
    for name in NAMES:
        for n in (1, 2, 3, 5, 8) if tier == 'quick' else range(1, 14):
            for other in (1, 2):
                for shared in (True, False):
                    a, b = (name, 0, 0, 0, 0, shared), (name, other, 0, other, other, shared)
                    yield [[a, b], [b, a]], [n, 1] + [n] * 30
                    yield [[a], [b]], [n] + [3] * 40


@C.test(thread_case(), quick=2400, shards=8, enum=_pairs)
def schedules(case, T):
    parts, schedule = case
    got = in_child(lambda: scheduled(parts, schedule))
    check(isinstance(got, tuple), 'the process {}', 'hangs' if got is None else got)
    answers, switches = got
    for n, (part, answer) in enumerate(zip(parts, answers)):
        check(answer is not None, 'thread {} ended', n)
        compare(T, part, answer, f'thread {n}')
    T.label('switches 0' if not switches else 'switches 1-9' if switches < 10 else 'switches 10+')
    if switches and len({c for part in parts for c in part}) > 1:
        T.nontrivial()


def free(parts):
    sys.setswitchinterval(1e-6)
    store = Store()
    out = [None] * len(parts)
    barrier = threading.Barrier(len(parts))

    def run(n):
        barrier.wait()
        out[n] = [call(store, c)[0] for _ in range(4) for c in parts[n]]
    threads = [threading.Thread(target=run, args=(n,)) for n in range(len(parts))]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    return out


@C.test(st.lists(st.lists(one_call, min_size=2, max_size=6), min_size=2, max_size=4), quick=800,
        shards=4)
def threads(parts, T):
    got = in_child(lambda: free(parts))
    check(isinstance(got, list), 'the process {}', 'hangs' if got is None else got)
    for n, (part, answer) in enumerate(zip(parts, got)):
        check(answer is not None, 'thread {} ended', n)
        compare(T, part * 4, answer, f'thread {n}')
    T.nontrivial()
