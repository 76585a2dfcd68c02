from hypothesis import strategies as st

from bitcoinx.aes import aes_decrypt_with_iv, aes_encrypt_with_iv
from vlib import gens, ref_aes
from vlib.core import Check, HarnessError, check_eq, raises

C = Check('C17', rule=(
    'Keys of 16, 24 and 32 bytes, IVs, data of all block alignments up to several blocks, and '
    'ciphertexts whose plaintext has every possible last byte and padding defect, run with the '
    'native cipher and with it made unavailable; against a FIPS-197 reference. Non-trivial: a '
    'ciphertext was compared, or a padding judged.'))

NATIVE = {}
PURE = {'VERIF_NO_NATIVE_AES': '1'}

key = st.sampled_from([16, 24, 32]).flatmap(lambda n: st.one_of(
    st.binary(min_size=n, max_size=n), st.just(bytes(n)), st.just(b'\xff' * n)))
iv = st.one_of(st.binary(min_size=16, max_size=16), st.just(bytes(16)), st.just(b'\xff' * 16))
data = st.one_of(st.binary(max_size=70), st.integers(0, 130).map(lambda n: gens.pattern_bytes(n, n)),
                 st.tuples(st.integers(1, 16), st.integers(0, 48)).map(
                     lambda t: bytes([t[0]]) * t[1]))


def both(strategy=None, **kwargs):
    def deco(func):
        for suffix, env in (('', NATIVE), ('_pure', PURE)):
            def test(case, T, func=func):
                func(case, T)
            test.__name__ = func.__name__ + suffix
            C.test(strategy, env=env, **kwargs)(test)
        return func
    return deco


def _lengths(tier):
    for size in (16, 24, 32):
        for n in range(0, 70 if tier == 'quick' else 600):
            yield bytes(range(n & 7, size + (n & 7))), bytes(range(16)), gens.pattern_bytes(n, n)
        for n in range(70 + size // 8 % 3, 0 if tier != 'quick' else 400, 3):
            yield bytes(range(n & 7, size + (n & 7))), bytes(range(16)), gens.pattern_bytes(n, n)
        # Around the sizes of buffers
        for n in (512, 1024, 2048, 4096, 8192, 3 * 1024, 3 * 4096)[:7 if size == 32 else 2]:
            for d in (-17, -16, -15, -1, 0, 1):
                yield bytes(range(size)), bytes(range(n % 7, n % 7 + 16)), gens.pattern_bytes(n + d, d)
        if tier == 'thorough':
            for n in (16384, 65536):
                for d in (-17, -16, -15, -1, 0, 1):
                    yield bytes(range(size)), bytes(range(16)), gens.pattern_bytes(n + d, d)


def _long_ciphertexts(tier):
    for n in list(range(16, 2100, 16)) + [4096, 8192]:
        yield bytes(range(16)), bytes(range(16)), gens.pattern_bytes(n, 5)
        yield bytes(range(32)), bytes(range(16)), gens.pattern_bytes(n, 5)[:-1] + b'\1'
        yield bytes(range(24)), bytes(range(16)), gens.pattern_bytes(n, 5)[:-16] + b'\x10' * 16


@both(st.tuples(key, iv, data), quick=1500, shards=2, enum=_lengths)
def encryption(case, T):
    k, v, plain = case
    want = ref_aes.cbc_encrypt(k, v, ref_aes.pad(plain))
    got = aes_encrypt_with_iv(k, v, plain)
    check_eq(got, want, 'ciphertext')
    check_eq(aes_decrypt_with_iv(k, v, got), plain, 'decrypted')
    check_eq(aes_encrypt_with_iv(k, v, plain), want, 'again')
    T.label(f'key {len(k)}')
    T.nontrivial()


def _large(tier):
    for n, size in enumerate(gens.LARGE_SIZES[12:] + (gens.HUGE_SIZES if tier != 'quick' else [])):
        yield (16, 24, 32)[n % 3], size, n


@C.test(enum=_large, shards=2)
def large(case, T):
    '''Long data, of which blocks about every likely boundary are judged.'''
    size, length, salt = case
    k, v = gens.pattern_bytes(size, salt), gens.pattern_bytes(16, salt + 1)
    plain = gens.pattern_bytes(length, salt)
    padded = ref_aes.pad(plain)
    got = aes_encrypt_with_iv(k, v, plain)
    check_eq(len(got), len(padded), 'length of the ciphertext')
    blocks = {n for b in range(0, len(got) + 1, 4096) for n in (b // 16 - 1, b // 16)
              if b & (b - 1) == 0 or b % (1 << 16) == 0}
    blocks |= {0, 1, len(got) // 16 - 2, len(got) // 16 - 1}
    blocks |= {salt * 7919 * n % (len(got) // 16) for n in range(40)}
    for n in sorted(blocks):
        if 0 <= n < len(got) // 16:
            prev = got[16 * n - 16: 16 * n] if n else v
            want = ref_aes.cbc_encrypt(k, prev, padded[16 * n: 16 * n + 16])
            check_eq(got[16 * n: 16 * n + 16], want, f'block {n} of {len(got) // 16}')
    check_eq(aes_decrypt_with_iv(k, v, got), plain, 'decrypted')
    # Wrong padding after much data
    for bad in (got[:-16], got[:-1], got + b'\0'):
        want = None
        if len(bad) % 16 == 0:
            want = ref_aes.unpad(ref_aes.cbc_decrypt(k, bad[-32:-16], bad[-16:]))
        if want is None:
            raises(Exception, aes_decrypt_with_iv, k, v, bad)
        else:
            check_eq(aes_decrypt_with_iv(k, v, bad), plain[:len(bad) - 16] + want, 'decrypted')
    T.nontrivial()


def judge(k, v, blob, T):
    want = None
    if blob and len(blob) % 16 == 0:
        want = ref_aes.unpad(ref_aes.cbc_decrypt(k, v, blob))
    if want is None:
        raises(Exception, aes_decrypt_with_iv, k, v, blob)
        T.label('refused')
    else:
        check_eq(aes_decrypt_with_iv(k, v, blob), want, 'decrypted')
        T.label('accepted')
    T.nontrivial()


@st.composite
def odd_plain(draw):
    blocks = draw(st.integers(1, 4))
    raw = bytearray(draw(st.binary(min_size=16 * blocks, max_size=16 * blocks)))
    last = draw(st.one_of(st.integers(0, 18), st.integers(0, 255), st.sampled_from([32, 48])))
    count = draw(st.one_of(st.just(last), st.integers(0, 17)))
    for n in range(min(count, len(raw))):
        raw[-1 - n] = last
    raw[-1] = last
    if draw(st.booleans()):
        raw[-draw(st.integers(1, min(17, len(raw))))] ^= draw(st.sampled_from([1, 0x80, 0xff, 0x10]))
    return bytes(raw)


@both(st.tuples(key, iv, odd_plain()), quick=2500, shards=2, enum=_long_ciphertexts)
def paddings(case, T):
    k, v, raw = case
    judge(k, v, ref_aes.cbc_encrypt(k, v, raw), T)


def _all_paddings(tier):
    k, v = bytes(range(16)), bytes(range(16, 32))
    for blocks in (1, 2, 3):
        for last in range(256):
            yield k, v, bytes(16 * blocks - 1) + bytes([last])
            yield k, v, bytes([last]) * 16 * blocks
        for last in range(1, 17):
            good = bytes([0xaa]) * (16 * blocks - last) + bytes([last]) * last
            yield k, v, good
            for n in range(1, last + 1):
                for delta in (1, 0x80, 0x10 ^ last, 0xaa ^ last):
                    bad = bytearray(good)
                    bad[-n] ^= delta
                    yield k, v, bytes(bad)


@both(enum=_all_paddings)
def every_padding(case, T):
    k, v, raw = case
    judge(k, v, ref_aes.cbc_encrypt(k, v, raw), T)


@both(st.tuples(key, iv, st.one_of(st.binary(max_size=70), st.integers(0, 5).flatmap(
    lambda n: st.binary(min_size=16 * n, max_size=16 * n)))), quick=1500,
      enum=lambda tier: [(bytes(16), bytes(16), gens.pattern_bytes(n, 3)) for n in range(100)])
def arbitrary(case, T):
    judge(*case, T)


@both(st.tuples(key, iv, data, st.integers(0, 200), st.integers(1, 255)), quick=800)
def tampering(case, T):
    k, v, plain, pos, delta = case
    blob = bytearray(ref_aes.cbc_encrypt(k, v, ref_aes.pad(plain)))
    blob[pos % len(blob)] ^= delta
    judge(k, v, bytes(blob), T)
    judge(k, v, bytes(blob[:pos % len(blob)]), T)


@C.test(enum=lambda tier: [0], env=PURE)
def native_library_is_unavailable(_case, T):
    try:
        from Cryptodome.Cipher import AES   # noqa: F401
    except ImportError:
        T.nontrivial()
        return
    raise HarnessError('the pure Python runs have the native library')
