from hypothesis import strategies as st

from bitcoinx import (
    InvalidSignatureError, SigHash, Signature, compact_signature_to_der, der_signature_to_compact,
)
from vlib import gens, ref_ec, ref_script
from vlib.core import Check, check, check_eq, raises

C = Check('C31', rule=(
    'Compact signatures with r and s of every length and around zero, the curve order and 2^256; DER '
    'of every pair of integer lengths, structural corruptions (lengths, padding, tags, negative '
    'integers, trailing bytes, every single-byte change), arbitrary bytes; all sighash bytes; '
    'against a strict reference parser. Non-trivial: a conversion was compared or an invalid '
    'signature refused.'))

N = ref_ec.N
MISSING = b'\xff'


def compact(r, s):
    return r.to_bytes(32, 'big') + s.to_bytes(32, 'big')


def judge_der(sig, T):
    '''Conversions of a DER or other byte string.'''
    want = ref_ec.parse_der(sig)
    if want is None:
        raises(InvalidSignatureError, der_signature_to_compact, sig)
        T.label('not DER')
    else:
        # The reference gives zero where out of range
        got = der_signature_to_compact(sig)
        check(type(got) is bytes, 'compact is {}', type(got))
        check_eq(got, compact(*want), 'compact')
        canonical = ref_ec.der(*want)
        check_eq(compact_signature_to_der(got), canonical, 'back to DER')
        T.label('canonical' if canonical == sig else 'out of range')
    T.nontrivial()
    return want


def judge_signature(raw, T):
    '''A signature object of a byte string.'''
    if raw == MISSING:
        for sig in (Signature(raw), Signature.from_hex('ff'), Signature.MISSING):
            check(sig.is_present() is False, 'missing is present')
            check_eq((bytes(sig), sig.to_bytes(), sig.to_hex()), (MISSING, MISSING, 'ff'), 'missing')
            for func in (lambda: sig.der_signature, lambda: sig.sighash, sig.r_value, sig.s_value,
                         sig.to_compact):
                raises(InvalidSignatureError, func)
        T.label('missing')
        return
    want = ref_ec.parse_der(raw[:-1]) if raw else None
    if want is None:
        raises(InvalidSignatureError, Signature, raw)
        raises(InvalidSignatureError, Signature.from_hex, raw.hex())
        if raw:
            raises(InvalidSignatureError, Signature.from_der_sig, raw[:-1], SigHash(raw[-1]))
        T.label('refused')
        return
    der, byte = raw[:-1], raw[-1]
    for sig in (Signature(raw), Signature.from_hex(raw.hex()), Signature.from_hex(raw.hex().upper()),
                Signature.from_der_sig(der, SigHash(byte)), Signature.from_der_sig(der, byte)):
        for _again in range(2):
            check(sig.is_present() is True, 'not present')
            check_eq((bytes(sig), sig.to_bytes(), sig.to_hex()), (raw, raw, raw.hex()), 'bytes')
            check_eq(sig.der_signature, der, 'der_signature')
            check_eq(sig.sighash, byte, 'sighash')
            check(isinstance(sig.sighash, SigHash), 'sighash is {}', type(sig.sighash))
            check_eq((sig.r_value(), sig.s_value()), want, 'r and s')
            check_eq(sig.to_compact(), compact(*want), 'to_compact')
            check_eq(sig.to_string(), f'{der.hex()}[{ref_script.sighash_text(byte)}]', 'text')
    T.label('signature')


number = st.one_of(
    gens.any_int256,
    st.integers(0, 256).flatmap(lambda n: st.integers(0, (1 << n) - 1)),
    st.sampled_from([0, 1, 0x7f, 0x80, 0xff, 0x100, N - 1, N, N + 1, N // 2, N // 2 + 1,
                     (1 << 256) - 1, 1 << 255, (1 << 255) - 1]))
in_range = number.map(lambda v: v % N)


def _lengths(tier):
    values = [0] + [v for n in range(0, 256) for v in (1 << n, (1 << n + 1) - 1)] + [N - 1, N, N + 1]
    for n, r in enumerate(values):
        yield r, values[(n * 7 + 3) % len(values)]
        yield values[(n * 11 + 5) % len(values)], r
    for r in (0, 1, N - 1, N, N + 1, (1 << 256) - 1):
        for s in (0, 1, N - 1, N, N + 1, (1 << 256) - 1):
            yield r, s


@C.test(st.tuples(st.one_of(in_range, number), st.one_of(in_range, number)), quick=10000, shards=2,
        enum=_lengths)
def from_compact(case, T):
    r, s = case
    raw = compact(r, s)
    if r < N and s < N:
        der = compact_signature_to_der(raw)
        check(type(der) is bytes, 'DER is {}', type(der))
        check_eq(der, ref_ec.der(r, s), 'DER')
        check_eq(der_signature_to_compact(der), raw, 'back to compact')
        T.label('in range')
    else:
        raises(InvalidSignatureError, compact_signature_to_der, raw)
        T.label('out of range')
    T.nontrivial()


@C.test(st.one_of(st.binary(max_size=130), st.tuples(number, number, st.integers(-64, 64)).map(
            lambda t: (compact(t[0], t[1]) + bytes(64))[:64 + t[2]])), quick=3000,
        enum=lambda tier: (bytes([b]) * n for n in range(200) for b in (0, 1)))
def compact_sizes(raw, T):
    if len(raw) != 64:
        raises(InvalidSignatureError, compact_signature_to_der, raw)
        T.nontrivial()


def _twisted(tier):
    '''Every small change of some encodings.'''
    full = tier != 'quick'
    for r, s in ((1, 1), (0, 0), (0x80, 0x7f), (N - 1, N // 2), (1 << 255, 1), (0x1234, N - 2)):
        der = ref_ec.der(r, s)
        for pos in range(len(der)):
            header = pos < 5 or pos in (4 + der[3] + i for i in range(4))
            for value in (range(256) if header or full else (0, 1, 0x7f, 0x80, 0xff)):
                yield der[:pos] + bytes([value]) + der[pos + 1:]
            for value in (0, 2, 0x30, 0x80, 0xff):
                yield der[:pos] + bytes([value]) + der[pos:]
            yield der[:pos]
            yield der[:pos] + der[pos + 1:]
        yield der + b'\0'
        yield der + der
    # Every length of the integers
    for rlen in range(0, 36):
        for slen in range(0, 36):
            for lead in (0, 1, 0x7f, 0x80, 0xff):
                a = (bytes([lead]) + b'\x85' * 35)[:rlen]
                b = (bytes([lead if slen & 1 else 1]) + b'\x15' * 35)[:slen]
                body = b'\2' + bytes([rlen]) + a + b'\2' + bytes([slen]) + b
                yield b'\x30' + bytes([len(body)]) + body
    # Long integers
    for extra in (0, 1, 50, 127, 128, 200, 250, 300, 1000, 70000):
        big = b'\1' * (32 + extra)

        def length(n):
            if n < 128:
                return bytes([n])
            size = (n.bit_length() + 7) // 8
            return bytes([0x80 | size]) + n.to_bytes(size, 'big')
        for first, second in ((big, b'\1'), (b'\1', big), (big, big), (b'\0' + big, b'\1')):
            body = b'\2' + length(len(first)) + first + b'\2' + length(len(second)) + second
            yield b'\x30' + length(len(body)) + body


@C.test(gens.any_sig, quick=15000, shards=4, enum=_twisted)
def der_input(sig, T):
    judge_der(sig, T)
    for byte in (0, 1, 0x41, 0xff):
        judge_signature(sig + bytes([byte]), T)
        T.count()


def _bytes(tier):
    for byte in range(256):
        for r, s in ((1, 2), (N - 1, N // 2), (0, N)):
            yield ref_ec.der(r, s) + bytes([byte])
        yield bytes([byte])
        yield bytes([byte]) * 2
        yield b'\xff' + bytes([byte])
    yield b''


@C.test(st.one_of(st.tuples(st.one_of(gens.valid_der, gens.any_sig), gens.byte).map(
            lambda t: t[0] + bytes([t[1]])), st.binary(max_size=12)), quick=6000, shards=2,
        enum=_bytes)
def signatures(raw, T):
    judge_signature(raw, T)
    T.nontrivial()


NAMES = {1: 'ALL', 2: 'NONE', 3: 'SINGLE'}


@C.test(gens.byte, quick=100, enum=lambda tier: range(256))
def sighash(byte, T):
    value = SigHash(byte)
    check_eq(value, byte, 'value')
    text = value.to_string()
    check_eq(text, ref_script.sighash_text(byte), 'text')
    words = text.split('|') if text else []
    for flag, name in ((0x80, 'ANYONE_CAN_PAY'), (0x40, 'FORKID')):
        check_eq(name in words, bool(byte & flag), f'{name} in {text}')
    for kind, name in NAMES.items():
        check_eq(name in words, byte & 3 == kind, f'{name} in {text}')
    check_eq(bool(value.anyone_can_pay), byte & 0x80 != 0, 'anyone_can_pay')
    check_eq(value.base, byte & 0x1f, 'base')
    for other in range(256):
        if other != byte:
            check(SigHash(other).to_string() != text, '{} and {} are both {}', byte, other, text)
    check_eq((SigHash.ALL, SigHash.NONE, SigHash.SINGLE, SigHash.FORKID, SigHash.ANYONE_CAN_PAY),
             (1, 2, 3, 0x40, 0x80), 'constants')
    check(all(isinstance(value, SigHash) for value in (
        SigHash.ALL, SigHash.NONE, SigHash.SINGLE, SigHash.FORKID, SigHash.ANYONE_CAN_PAY)),
        'constants are not signature hash values')
    T.nontrivial()
