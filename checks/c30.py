from fractions import Fraction
import hashlib

from hypothesis import strategies as st

from bitcoinx import (
    all_coins, double_sha256, hash160, hash_to_hex_str, hash_to_value, hex_str_to_hash, hmac_digest,
    hmac_sha512, hmac_sha512_halves, ripemd160, sha1, sha256, sha512,
)
from vlib import gens, ref_hash, ref_work
from vlib.core import Check, check, check_eq, raises

C = Check('C30', rule=(
    'Byte strings of every length to 300 and around larger block multiples, random and patterned, '
    'as bytes, bytearray and memoryview, against independent hash implementations (RIPEMD-160 and '
    'HMAC from their specifications); 80-byte headers with boundary fields, canonical and '
    'non-canonical bits. Non-trivial: a digest or a header was compared.'))

FUNCS = [(sha1, ref_hash.sha1), (sha256, ref_hash.sha256), (sha512, ref_hash.sha512),
         (ripemd160, ref_hash.ripemd160), (double_sha256, ref_hash.dsha),
         (hash160, ref_hash.hash160)]

content = st.one_of(
    st.binary(max_size=300),
    st.tuples(st.sampled_from([n + d for n in (55, 64, 111, 119, 128, 256, 1024, 4096)
                               for d in (-1, 0, 1, 2)]), gens.byte).map(
        lambda t: gens.pattern_bytes(*t)),
    st.tuples(st.integers(0, 3000), gens.byte).map(lambda t: bytes([t[1]]) * t[0]))


def _lengths(tier):
    for size in range(301):
        yield gens.pattern_bytes(size, 1 + size)
        yield bytes(size)
    for size in gens.LARGE_SIZES + (gens.HUGE_SIZES if tier != 'quick' else []):
        yield gens.pattern_bytes(size, 3)


@C.test(content, quick=4000, shards=8, enum=_lengths)
def digests(data, T):
    for func, ref in FUNCS:
        want = ref(data)
        got = func(data)
        check(type(got) is bytes, '{} gives {}', func.__name__, type(got))
        check_eq(got, want, func.__name__)
        check_eq(func(bytearray(data)), want, f'{func.__name__} of a bytearray')
        check_eq(func(memoryview(data)), want, f'{func.__name__} of a memoryview')
        check_eq(func(data), want, f'{func.__name__} again')
        # A buffer that is hashed, changed and hashed again
        if 0 < len(data) < 400:
            buf = bytearray(data)
            view = memoryview(buf)
            for n in (0, len(data) - 1):
                check_eq(func(buf), ref(bytes(buf)), f'{func.__name__} of a buffer')
                check_eq(func(view), ref(bytes(buf)), f'{func.__name__} of its view')
                buf[n] ^= 1
                check_eq(func(view), ref(bytes(buf)), f'{func.__name__} of the changed view')
                check_eq(func(buf), ref(bytes(buf)), f'{func.__name__} of the changed buffer')
        T.count()
    T.nontrivial()


def _hmacs(tier):
    for size in list(range(0, 300)):
        yield gens.pattern_bytes(size, 5), gens.pattern_bytes((size * 7) % 301, 9)
        yield gens.pattern_bytes((size * 7) % 301, 5), gens.pattern_bytes(size, 9)
    for size in gens.LARGE_SIZES:
        yield gens.pattern_bytes(size, 5), gens.pattern_bytes(size % 333, 9)
        yield gens.pattern_bytes(size % 151, 5), gens.pattern_bytes(size, 9)


@C.test(st.tuples(content, content), quick=3000, shards=4, enum=_hmacs)
def hmacs(case, T):
    key, msg = case
    want = ref_hash.hmac_sha512(key, msg)
    check_eq(hmac_sha512(key, msg), want, 'hmac_sha512')
    check_eq(tuple(hmac_sha512_halves(key, msg)), (want[:32], want[32:]), 'halves')
    check_eq(hmac_digest(key, msg, hashlib.sha256), ref_hash.hmac_sha256(key, msg), 'hmac_digest')
    check_eq(hmac_sha512(key, memoryview(msg)), want, 'hmac_sha512 of a memoryview')
    if key and msg:
        kbuf, mbuf = bytearray(key), bytearray(msg)
        check_eq(hmac_sha512(kbuf, mbuf), want, 'hmac_sha512 of buffers')
        kbuf[-1] ^= 1
        check_eq(hmac_sha512(kbuf, mbuf), ref_hash.hmac_sha512(bytes(kbuf), msg), 'changed key')
        mbuf[0] ^= 1
        check_eq(hmac_sha512(kbuf, mbuf), ref_hash.hmac_sha512(bytes(kbuf), bytes(mbuf)),
                 'changed message')
    T.nontrivial()


@C.test(st.one_of(gens.hash32, gens.hash20, st.binary(max_size=70)), quick=6000, shards=2)
def text(data, T):
    want = ''.join('%02x' % b for b in data[::-1])
    got = hash_to_hex_str(data)
    check_eq(got, want, 'hash_to_hex_str')
    check_eq(hash_to_hex_str(bytearray(data)), want, 'hash_to_hex_str of a bytearray')
    check_eq(hash_to_hex_str(memoryview(data)), want, 'hash_to_hex_str of a memoryview')
    back = hex_str_to_hash(got)
    check(type(back) is bytes and back == data, 'hex_str_to_hash gives {}', back)
    check_eq(hex_str_to_hash(got.upper()), data, 'hex_str_to_hash of upper case')
    check_eq(hash_to_value(data), sum(b << 8 * i for i, b in enumerate(data)), 'hash_to_value')
    T.nontrivial()


mantissa = st.one_of(st.integers(0x8000, 0x7fffff), st.integers(0, 0xffffff),
                     st.sampled_from([0x8000, 0x7fffff, 0x7fff, 0x800000, 0xffff]))
header_bits = st.one_of(
    st.tuples(st.integers(0, 34), mantissa).map(lambda t: t[0] << 24 | t[1]), gens.uint32,
    st.sampled_from([0x1d00ffff, 0x207fffff, 0x1b0404cb, 0]))
header = st.tuples(gens.int32, gens.hash32, gens.hash32, gens.uint32, header_bits, gens.uint32,
                   st.integers(0, 3), st.one_of(st.integers(0, 2_000_000), st.sampled_from([-1])))


def le(value, size):
    return (value % (1 << 8 * size)).to_bytes(size, 'little')


@C.test(header, quick=6000, shards=2)
def headers(case, T):
    version, prev, merkle, timestamp, bits, nonce, cn, height = case
    raw = le(version, 4) + prev + merkle + le(timestamp, 4) + le(bits, 4) + le(nonce, 4)
    coin = all_coins[cn % len(all_coins)]
    digest = ref_hash.dsha(raw)
    check_eq(coin.header_hash(raw), digest, 'header_hash')
    check_eq(coin.header_prev_hash(raw), prev, 'header_prev_hash')
    check_eq(coin.header_timestamp(raw), timestamp, 'header_timestamp')
    check_eq(coin.header_bits(raw), bits, 'header_bits')
    h = coin.deserialized_header(raw, height)
    check_eq((h.version, h.prev_hash, h.merkle_root, h.timestamp, h.bits, h.nonce),
             (version, prev, merkle, timestamp, bits, nonce), 'deserialized header')
    check_eq((h.hash, h.raw, h.height), (digest, raw, height), 'header hash, raw and height')
    check_eq(h.hex_str(), ''.join('%02x' % b for b in digest[::-1]), 'hex_str')
    check_eq(h.hash_value(), int.from_bytes(digest, 'little'), 'hash_value')
    check(h == coin.deserialized_header(raw, height), 'the same header differs')
    check(hash_to_hex_str(prev) in str(h) and h.hex_str() in str(h), 'str: {}', h)
    target = ref_work.target(bits)
    if target is None:
        for func in (h.work, h.target, h.difficulty):
            raises(ValueError, func)
        raises(ValueError, coin.header_work, raw)
        T.label('bad bits')
    else:
        check_eq(h.target(), target, 'target')
        check_eq(h.work(), ref_work.work(target), 'work')
        check_eq(coin.header_work(raw), ref_work.work(target), 'header_work')
        if target:
            # Relative to the easiest mainnet target
            want = Fraction(0xffff << 208, target)
            got = Fraction(h.difficulty())
            check(abs(got - want) <= want * Fraction(1, 2 ** 50), 'difficulty {} want {}',
                  float(got), float(want))
            T.label('good bits')
    T.nontrivial()
