from fractions import Fraction
import struct

from hypothesis import strategies as st

from bitcoinx import all_coins, bits_to_target, bits_to_work, target_to_bits
from vlib import gens, ref_work
from vlib.core import Check, check, check_eq, outcome, raises

C = Check('C23', rule=(
    'Bits over every exponent with boundary and random mantissas, canonical or not, negative and '
    'beyond the range; targets 0 to 2^256-1 (all small ones, around every power of two and every '
    'representable boundary), and beyond; pairs for order; headers for work and difficulty. '
    'Against reference arithmetic. Non-trivial: a value was converted or refused.'))

MAX_BITS = ref_work.MAX_BITS

mantissa = st.one_of(
    st.integers(0x8000, 0x7fffff), st.integers(0, 0xffffff),
    st.sampled_from([0, 1, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0x8001, 0xffff, 0x10000,
                     0x7f0000, 0x7fff00, 0x7fffff, 0x800000, 0x800001, 0xff0000, 0xffffff]))
any_bits = st.one_of(
    st.tuples(st.integers(0, 36), mantissa).map(lambda t: t[0] << 24 | t[1]),
    st.tuples(st.integers(0, 4), st.integers(0, 255), st.integers(0, 2)).map(
        lambda t: t[0] << 24 | t[1] << 8 * t[2]),
    st.integers(-(1 << 33), 1 << 33), st.integers(-(1 << 300), 1 << 300),
    st.sampled_from([0, 1, -1, MAX_BITS, MAX_BITS + 1, MAX_BITS - 1, 0x2000ffff, 0x207fffff,
                     0x1d00ffff, 0x21010000, 0x21008000, 0x21007fff, 0xffffffff, 1 << 32]))
target = st.one_of(
    st.integers(0, 256).flatmap(lambda n: st.integers(0, (1 << n) - 1)),
    st.tuples(st.integers(0, 256), st.integers(-3, 3)).map(lambda t: (1 << t[0]) + t[1]),
    st.tuples(st.integers(1, 33), mantissa, st.integers(-2, 2)).map(
        lambda t: (t[1] << 8 * (t[0] - 3) if t[0] > 3 else t[1] >> 8 * (3 - t[0])) + t[2]),
    st.integers(0, 1 << 25),
    st.sampled_from([0, 1, (1 << 256) - 1, (1 << 256) - 2])).map(
        lambda v: min(max(v, 0), (1 << 256) - 1))


def _bits(tier):
    for exponent in range(0, 37):
        for m in (list(range(0, 0x120)) + [0x7fff, 0x8000, 0x8001, 0xff00, 0xffff, 0x10000, 0x10001,
                  0x7f0000, 0x7f8000, 0x7fff00, 0x7fff01, 0x7fffff, 0x800000, 0x800001, 0x80ffff,
                  0xff0000, 0xffff00, 0xffffff]
                  + list(range(0x8000, 0x7fffff, 0x10fff if tier == 'quick' else 0xfff))
                  + [k << 8 for k in range(256)] + [k << 16 for k in range(256)]):
            yield exponent << 24 | m
    for n in range(-300, 0):
        yield n
    for n in (1 << 31, 1 << 32, 1 << 33, (1 << 32) - 1, MAX_BITS + 1, MAX_BITS + 2):
        yield n
        yield -n
    yield 0


@C.test(any_bits, quick=20000, shards=4, enum=_bits)
def from_bits(bits, T):
    want = ref_work.target(bits)
    if want is None:
        raises(ValueError, bits_to_target, bits)
        raises(ValueError, bits_to_target, bits)      # not remembered as good
        raises(ValueError, bits_to_work, bits)
        T.label('refused')
    else:
        check_eq(bits_to_target(bits), want, f'target of {bits:#x}')
        check_eq(bits_to_target(bits), want, f'target of {bits:#x} again')
        check_eq(target_to_bits(want), bits, f'bits of {want:#x}')
        check_eq(bits_to_work(bits), ref_work.work(want), f'work of {bits:#x}')
        T.label('canonical')
    T.nontrivial()


def judge_target(value):
    got = target_to_bits(value)
    check_eq(got, ref_work.bits(value), f'bits of {value:#x}')
    low = bits_to_target(got)
    check(low <= value, 'target {} was raised to {}', value, low)
    check_eq(target_to_bits(low), got, f'bits of {low:#x}')


def _targets(tier):
    for n in range(257):
        for d in range(-4, 5):
            v = (1 << n) + d
            if 0 <= v < 1 << 256:
                yield v
    for exponent in range(1, 34):
        for m in (0x8000, 0x8001, 0xffff, 0x10000, 0x7fffff, 0x7f0000, 0x7fff00):
            for d in (-1, 0, 1):
                v = (m << 8 * (exponent - 3) if exponent > 3 else m >> 8 * (3 - exponent)) + d
                if 0 <= v < 1 << 256:
                    yield v


@C.test(target, quick=16000, shards=4, enum=_targets)
def from_target(value, T):
    judge_target(value)
    T.nontrivial()


def _blocks(tier):
    size = 1024
    for n in range(0, (1 << 17 if tier == 'quick' else 1 << 24) // size):
        yield n * size, size
    # Across the mantissa boundaries
    for base in (1 << 23, 1 << 24, 1 << 31):
        yield base - 600, 1200


@C.test(enum=_blocks, shards=4)
def small_targets(case, T):
    start, size = case
    last = -1
    for value in range(start, start + size):
        if value < 1 << 23:
            # Small targets are exact
            bits = target_to_bits(value)
            check(bits_to_target(bits) == value, 'target {} becomes {}', value,
                  bits_to_target(bits))
            check(bits > last, 'order at {}', value)
            last = bits
        else:
            judge_target(value)
    T.count(size)
    T.nontrivial()


@C.test(st.one_of(
    st.integers(-(1 << 300), -1), st.integers(1 << 256, 1 << 300),
    st.sampled_from([-1, -2, -255, -256, -(1 << 23), -(1 << 255), -(1 << 256), 1 << 256,
                     (1 << 256) + 1, 1 << 257, 1 << 264, 1 << 512])), quick=2000)
def bad_targets(value, T):
    raises(ValueError, target_to_bits, value)
    T.nontrivial()


@C.test(st.one_of(st.tuples(target, target),
                  st.tuples(target, st.integers(0, 300)).map(
                      lambda t: (t[0], min(t[0] + t[1], (1 << 256) - 1))),
                  st.tuples(target, st.integers(1, 40)).map(
                      lambda t: (t[0], min(t[0] + (t[0] >> t[1]), (1 << 256) - 1)))),
        quick=8000, shards=2)
def order(case, T):
    low, high = sorted(case)
    a, b = target_to_bits(low), target_to_bits(high)
    check(a <= b, 'bits of {} and {} are out of order', low, high)
    check(bits_to_target(a) <= bits_to_target(b), 'targets of {} and {} are out of order', a, b)
    check(bits_to_work(a) >= bits_to_work(b), 'works of {} and {} are out of order', a, b)
    T.nontrivial()


canonical = target.map(ref_work.bits)


@C.test(st.tuples(canonical, gens.uint32, gens.uint32, gens.hash32, gens.hash32, gens.uint32,
                  st.integers(0, 3)), quick=4000, shards=2)
def header_values(case, T):
    bits, version, timestamp, prev, merkle, nonce, coin_n = case
    coin = all_coins[coin_n]
    raw = struct.pack('<I32s32sIII', version & 0x7fffffff, prev, merkle, timestamp, bits, nonce)
    header = coin.deserialized_header(raw, 5)
    value = ref_work.target(bits)
    work = (1 << 256) // (value + 1)
    check_eq(header.target(), value, 'target')
    check_eq(header.work(), work, 'work')
    check_eq(coin.header_work(raw), work, 'work of raw')
    check_eq(coin.header_bits(raw), bits, 'bits')
    if value:
        want = Fraction(0xffff << 208, value)
        for got in (header.difficulty(), coin.bits_to_difficulty(bits)):
            check(abs(Fraction(got) - want) <= want / 10**12, 'difficulty {} of {}', got, bits)
    T.nontrivial()
