'''Generators of plain data shared by the checks.'''

import glob
import os

from hypothesis import strategies as st

from vlib import ref_ec, ref_script
from vlib.core import PKG

N, P = ref_ec.N, ref_ec.P


def weighted(*pairs):
    '''One of the strategies, picked with the given weights.'''
    pool = []
    for weight, strategy in pairs:
        pool.extend([strategy] * weight)
    return st.sampled_from(range(len(pool))).flatmap(lambda i: pool[i])


# A dictionary, as fuzzers use: the constants of the code under test.  What it singles out by value
# is generated, and so are the values next to it.

_CODE = None


def code_constants():
    '''The integers and byte strings in the code, in a fixed order.'''
    global _CODE
    if _CODE is None:
        ints, datas = set(), set()

        def walk(value):
            if isinstance(value, bool):
                return
            if isinstance(value, int):
                ints.add(value)
            elif isinstance(value, bytes):
                datas.add(value)
            elif isinstance(value, (tuple, frozenset)):
                for item in value:
                    walk(item)
            elif hasattr(value, 'co_consts'):
                walk(value.co_consts)

        for path in sorted(glob.glob(os.path.join(PKG, '**', '*.py'), recursive=True)):
            try:
                with open(path, encoding='utf-8') as f:
                    walk(compile(f.read(), path, 'exec'))
            except (OSError, SyntaxError, ValueError):
                pass
        _CODE = sorted(ints), sorted(datas)
    return _CODE


def code_ints(lo, hi, least=256):
    '''Integers of [lo, hi] in the code or next to one, of at least that magnitude.'''
    found = {s * n + d for n in code_constants()[0] if abs(n) >= least for s in (1, -1)
             for d in (-1, 0, 1)}
    return sorted(n for n in found if lo <= n <= hi)


def code_data(size=None):
    '''Byte strings in the code, and its integers as bytes.'''
    found = set(code_constants()[1])
    for n in code_constants()[0]:
        if n >= 256:
            for width in (2, 3, 4, 8, 20, 32) if size is None else (size,):
                if n < 1 << 8 * width:
                    found |= {n.to_bytes(width, 'little'), n.to_bytes(width, 'big')}
    return sorted(d for d in found if size is None or len(d) == size)


def or_code(strategy, pool, weight=6):
    '''The strategy, and now and then one of the pool.'''
    return weighted((weight, strategy), (1, st.sampled_from(pool))) if pool else strategy


def edge_ints(lo, hi):
    '''Integers of [lo, hi]: uniform, and near boundaries of representations.'''
    edges = set()
    for base in (0, 1, 127, 128, 252, 253, 255, 256, 0x7fff, 0x8000, 65535, 65536, 1 << 24,
                 499_999_999, 500_000_000, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32,
                 1 << 48, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, 1 << 64, 21_000_000 * 10**8,
                 lo, hi):
        for d in (-1, 0, 1):
            for v in (base + d, -(base + d)):
                if lo <= v <= hi:
                    edges.add(v)
    return or_code(st.one_of(st.integers(lo, hi), st.sampled_from(sorted(edges))),
                   code_ints(lo, hi))


int32 = edge_ints(-(1 << 31), (1 << 31) - 1)
uint32 = edge_ints(0, (1 << 32) - 1)
int64 = edge_ints(-(1 << 63), (1 << 63) - 1)
uint64 = edge_ints(0, (1 << 64) - 1)
byte = st.integers(0, 255)
bool_ = st.booleans()

hash32 = or_code(st.one_of(
    st.binary(min_size=32, max_size=32),
    st.sampled_from([bytes(32), b'\xff' * 32, bytes(31) + b'\1', b'\1' + bytes(31)])),
    code_data(32), 15)
hash20 = st.one_of(
    st.binary(min_size=20, max_size=20),
    st.sampled_from([bytes(20), b'\xff' * 20, bytes(19) + b'\1', b'\1' + bytes(19)]),
    st.integers(1, 19).flatmap(lambda n: st.binary(min_size=20 - n, max_size=20 - n).map(
        lambda b: bytes(n) + b)))


def pattern_bytes(size, seed):
    '''Deterministic filler of any size.'''
    block = bytes((seed * 7 + i * 13 + (i >> 8)) & 0xff for i in range(min(size, 1024)))
    return (block * (size // max(1, len(block)) + 1))[:size] if size else b''


_BOUNDARY_SIZES = [0, 1, 2, 3, 4, 5, 8, 9, 15, 16, 17, 20, 31, 32, 33, 55, 56, 63, 64, 65, 72, 73,
                   74, 75, 76, 77, 78, 127, 128, 129, 251, 252, 253, 254, 255, 256, 257, 258, 520]
_BIG_SIZES = [65533, 65534, 65535, 65536, 65537, 65540]


# Sizes about those of buffers and chunks
LARGE_SIZES = [b + d for b in (4096, 8192, 1 << 14, 1 << 15, 1 << 16, 1 << 17, 1 << 18, 1 << 20)
               for d in (-1, 0, 1, 17)] + [70_000, 100_000, 1_000_000, 1_048_577 + 65_536,
                                           1_100_000, (1 << 21) + 1]
HUGE_SIZES = [(1 << 24) - 1, 1 << 24, (1 << 24) + 1, 20_000_000]


def repeating(element, min_size=0, max_size=8):
    '''Lists in which elements often occur more than once.'''
    return st.tuples(st.lists(element, min_size=min(1, min_size), max_size=3),
                     st.lists(st.integers(0, 2), min_size=min_size, max_size=max_size)).map(
                         lambda t: [t[0][n % len(t[0])] for n in t[1]] if t[0] else [])


LONG_COUNTS = [50, 99, 100, 101, 127, 128, 199, 200, 201, 255, 256, 257, 500, 511, 512, 513, 999,
               1000, 1001, 1023, 1024, 1025, 2000]


def long_scripts(tier):
    '''Scripts of many operations, whole and truncated, and of long pushes.'''
    counts = LONG_COUNTS if tier == 'quick' else LONG_COUNTS + [4096, 10_000, 65_535, 65_537]
    for n in counts:
        body = [b'\x51' * n, b'\1a' * n, b'\x61\x75' * (n // 2) + b'\x61' * (n % 2),
                b''.join(bytes([2, k & 255, k >> 8 & 255]) for k in range(n)),
                b'\x51' * (n - 1) + b'\5abcde']
        for b in body:
            yield b
            for tail in (b'\5abc', b'\x4c', b'\x4d\1', b'\x4e\xff\xff\xff', b'\x4c\x50abc',
                         b'\1'):
                yield b + tail
    for n in (521, 10_000, 65_535, 65_536, 70_000, 1 << 20, (1 << 20) + 1):
        data = pattern_bytes(n, 3)
        yield ref_script.push(data)
        yield b'\x51' + ref_script.push(data) + b'\x87'
        yield ref_script.push(data)[:-1]


def sized_data(big=True, max_small=40):
    '''Byte strings concentrated on sizes where encodings change.'''
    parts = [(8, st.binary(max_size=max_small)),
             (3, st.tuples(st.sampled_from(_BOUNDARY_SIZES + code_ints(0, 3000, 16)), byte).map(
                 lambda t: pattern_bytes(*t))),
             (1, st.sampled_from(code_data())),
             (1, st.integers(0, 600).flatmap(lambda n: byte.map(lambda s: pattern_bytes(n, s))))]
    if big:
        parts.append((1, st.tuples(st.sampled_from(_BIG_SIZES), byte).map(
            lambda t: pattern_bytes(*t))))
    return weighted(*parts)


# Texts next to a valid one

_ODD_CHARS = [' ', '\n', '\t', '\r', '\r\n', '\x0b', '\x0c', '\x1c', '\x1f', '\x85', '\xa0',
              '\u200b', '\u2028', '\u2060', '\u3000', '\ufeff', '\u0301', '\0', '\x7f', '.', ',',
              ';', '"', "'", '<', '>', '(', ')', '=', '-', '_', '+', '/', '#', '\\', '\ud800']


# Characters that become the ASCII one in a change of case, or count as the same digit
_LOOKALIKES = {'k': '\u212a', 'K': '\u212a', 's': '\u017f', 'S': '\u017f', 'i': '\u0131',
               'I': '\u0131\u0130', 'a': '\u00aa', 'o': '\u00ba'}
for _n in range(10):
    _LOOKALIKES[str(_n)] = ''.join(chr(base + _n) for base in (
        0x660, 0x6f0, 0x966, 0xff10, 0x1d7ce, 0x1d7d8)) + '\u2070\xb9\xb2\xb3\u2074'[_n: _n + 1]


def lookalikes(text):
    '''The text with one or every character of a kind replaced by one easily taken for it.'''
    for form in dict.fromkeys((text, text.upper(), text.lower())):
        done = set()
        for n, c in enumerate(form):
            for other in _LOOKALIKES.get(c, ''):
                yield form[:n] + other + form[n + 1:]
                if c not in done:
                    yield form.replace(c, other)
            done.add(c)


def decorations(text):
    '''Texts that a lenient reader might take for the given one.'''
    mid = len(text) // 2
    for c in _ODD_CHARS:
        yield text + c
        yield c + text
        yield c + text + c
        yield text[:mid] + c + text[mid:]
        yield text[:1] + c + text[1:]
        yield text[:-1] + c + text[-1:]
        yield text[:-1] + c
        yield text + c * 2
        yield text + c * 7
    for size in range(1, 9):
        yield text[size:]
        yield text[:-size]
        yield ' ' * size + text + ' ' * size
    for other in (text.upper(), text.lower(), text.swapcase(), text.title(), text[::-1],
                  text + text, text + ' ' + text, text + '\n' + text, text + ',' + text,
                  'bitcoin:' + text, 'bitcoincash:' + text, 'BITCOIN:' + text, text + '?x=1',
                  '"' + text + '"', "'" + text + "'", '<' + text + '>', '0x' + text, '//' + text,
                  ' '.join(text), '\n'.join(text), '-'.join(text), '\0'.join(text),
                  text.replace('1', 'l'), text.replace('o', '0'), text.replace('B', '8'),
                  ''.join(chr(ord(c) + 0xfee0) if '!' <= c <= '~' else c for c in text),
                  text.encode().hex(), text.encode('utf-16-le').decode('latin-1'),
                  '\n'.join(text[n: n + 64] for n in range(0, len(text), 64)) + '\n',
                  '\n'.join(text[n: n + 20] for n in range(0, len(text), 20))):
        yield other
    for n, c in enumerate(text):
        if '!' <= c <= '~':
            yield text[:n] + chr(ord(c) + 0xfee0) + text[n + 1:]
        yield text[:n] + c + '\u0301' + text[n + 1:]
        yield text[:n] + c.swapcase() + text[n + 1:]
        yield text[:n] + ' ' + text[n:]
        yield text[:n] + chr(ord(c) + 0x100) + text[n + 1:]
        yield text[:n] + chr(ord(c) + 0x80) + text[n + 1:]
        yield text[:n] + chr(ord(c) + 0x10000) + text[n + 1:]
    yield from lookalikes(text)


# Secrets and points

edge_secrets = [1, 2, 3, 5, 7, 15, 16, 255, 256, (N - 1) // 2, (N + 1) // 2, N - 1, N - 2, N - 3,
                1 << 255, 1 << 248, 1 << 128, (1 << 128) - 1, (1 << 64) + 1]
secret = or_code(st.one_of(
    st.integers(1, N - 1),
    st.sampled_from(edge_secrets),
    st.integers(1, 1 << 20),
    st.integers(1, 1 << 16).map(lambda k: N - k)), code_ints(1, N - 1), 15)
any_int256 = or_code(st.one_of(
    st.integers(0, 2**256 - 1),
    st.sampled_from([0, N, N + 1, N + 2, P, P - 1, P + 1, P - N, 2**256 - 1, 2**256 - 2]
                    + edge_secrets),
    st.integers(0, 1 << 16),
    st.integers(0, 1 << 16).map(lambda k: N + k)), code_ints(0, 2**256 - 1), 15)

hybrid_free_key = st.tuples(secret, bool_).map(lambda t: ref_ec.ser(ref_ec.mul_g(t[0]), t[1]))

# Points with remarkable coordinates, of which nobody knows the secret
_POINTS = None


def _cube_root(v):
    r = pow(v, (P + 2) // 9, P)
    return r if pow(r, 3, P) == v % P else None


def edge_points():
    '''Points whose x or y start or end with zero bytes, or x is above the group order.'''
    global _POINTS
    if _POINTS is None:
        def from_x(x, step):
            while ref_ec.lift_x(x, 0) is None:
                x += step
            return x

        xs = [from_x((1 << 8 * size) - 1, -1) for size in range(1, 32)]
        xs += [from_x(1 << 8 * size, 1) for size in (0, 1, 8, 24, 30, 31)]
        xs += [from_x(0x80 << 8 * size, 1) for size in (0, 1, 30, 31)]
        xs += [from_x(5 << 8 * size, 1 << 8 * size) for size in (1, 2, 3, 8, 16, 30)]
        xs += [from_x(N, 1), from_x(N + 1000, 1), from_x(N - 1, -1), from_x(P - 1, -1),
               from_x(P - 1000, -1)]
        points = [ref_ec.lift_x(x, odd) for x in dict.fromkeys(xs) for odd in (0, 1)]
        for size in (1, 2, 3, 8, 16, 24, 30, 31):
            for y, step in ((1 << 8 * size, -1), (7 << 8 * size, 1 << 8 * size)):
                x = None
                while x is None:
                    y += step
                    x = _cube_root(y * y - 7)
                points += [(x, y), (x, P - y)]
        assert all(ref_ec.on_curve(pt) for pt in points)
        _POINTS = points
    return _POINTS


edge_point = st.integers(0, 1 << 16).map(lambda n: edge_points()[n % len(edge_points())])


# Values of s in a signature, at every length, at the sign bit and at the limit of low values
edge_s = [1, 2, 0x7f, 0x80, 0xff, 0x100, (1 << 247) - 1, 1 << 247, (1 << 248) - 1, 1 << 248,
          (1 << 254) - 1, 1 << 254, N // 2 - 1, N // 2, N // 2 + 1, N // 2 + 2, N - 2, N - 1]
edge_s += [(1 << 8 * size - back) - 1 + up for size in range(2, 31) for back in (0, 1)
           for up in (0, 1)]

def edge_nonces():
    '''Nonce points: those, and multiples of G; half of it has an x of 21 bytes.'''
    return [ref_ec.mul_g(k) for k in ((N + 1) // 2, (N - 1) // 2, 1, 2, N - 1)] + edge_points()


# A pool of serialised keys (cheap valid keys for scripts)
_KEYS = None


def key_pool():
    global _KEYS
    if _KEYS is None:
        pts = [ref_ec.mul_g(k) for k in (1, 2, 3, 0x1234567, N - 1, 2**200 + 12345,
                                         0xdeadbeef << 100, 77)]
        _KEYS = [ref_ec.ser(p, c) for p in pts for c in (True, False)]
    return _KEYS


pool_key = st.deferred(lambda: st.sampled_from(key_pool()))


# Signatures

def _der_piece():
    return st.one_of(
        st.tuples(st.integers(0, N - 1), st.integers(0, N - 1)),
        st.tuples(st.integers(1, 300), st.integers(1, 1 << 130)),
        st.tuples(st.sampled_from([0, 1, 127, 128, 255, 256, N - 1, N, N + 1, 2**255, 2**256 - 1]),
                  st.sampled_from([0, 1, 127, 128, N // 2, N // 2 + 1, N - 1, N, 2**256 - 1])))


valid_der = _der_piece().map(lambda t: ref_ec.der(*t))


@st.composite
def corrupt(draw, base):
    '''A byte string with some edits.'''
    data = bytearray(draw(base))
    for _ in range(draw(st.integers(1, 3))):
        kind = draw(st.sampled_from(['flip', 'set', 'del', 'ins', 'trunc', 'ext']))
        pos = draw(st.integers(0, max(0, len(data) - 1)))
        if kind == 'flip' and data:
            data[pos] ^= 1 << draw(st.integers(0, 7))
        elif kind == 'set' and data:
            data[pos] = draw(st.sampled_from([0, 1, 2, 0x30, 0x7f, 0x80, 0x81, 0xff, 0x20, 0x21]))
        elif kind == 'del' and data:
            del data[pos]
        elif kind == 'ins':
            data.insert(pos, draw(byte))
        elif kind == 'trunc':
            del data[pos:]
        else:
            data += draw(st.binary(min_size=1, max_size=3))
    return bytes(data)


@st.composite
def loose_der(draw):
    '''DER-like structures with odd lengths and paddings.'''
    def length(n):
        kind = draw(st.sampled_from(['ok'] * 8 + ['long', 'off', '80', 'ff', 'long2']))
        if kind == 'ok':
            return bytes([n]) if n < 128 else b'\x81' + bytes([n & 0xff])
        if kind == 'long':
            return b'\x81' + bytes([n & 0xff])
        if kind == 'long2':
            return b'\x82\0' + bytes([n & 0xff])
        if kind == '80':
            return b'\x80'
        if kind == 'ff':
            return b'\xff'
        return bytes([(n + draw(st.sampled_from([-1, 1, 2]))) & 0x7f])

    def integer():
        value = draw(st.one_of(
            st.binary(min_size=0, max_size=3), st.binary(min_size=30, max_size=34),
            st.integers(0, N).map(lambda v: v.to_bytes((v.bit_length() + 8) // 8, 'big')),
            st.sampled_from([b'\0', b'\0\0', b'\0\x7f', b'\0\x80', b'\xff\xff', b'\xff\x7f',
                             b'\x80', N.to_bytes(33, 'big'), (N - 1).to_bytes(33, 'big')])))
        tag = draw(st.sampled_from([2] * 12 + [3, 0x30]))
        return bytes([tag]) + length(len(value)) + value
    body = integer() + integer() + draw(st.sampled_from([b''] * 8 + [b'\0', b'\1\2']))
    tag = draw(st.sampled_from([0x30] * 12 + [0x31, 2]))
    return bytes([tag]) + length(len(body)) + body


any_sig = st.one_of(valid_der, loose_der(), corrupt(valid_der),
                    st.binary(max_size=75), st.binary(min_size=70, max_size=72).map(
                        lambda b: b'\x30' + b))


# Scripts

opcode = st.one_of(st.sampled_from(ref_script.OPCODES), st.integers(0x61, 255))
named_opcode = st.sampled_from(ref_script.OPCODES)

push_data = weighted(
    (4, st.binary(max_size=6)),
    (2, st.sampled_from([b'', b'\0', b'\1', b'\x10', b'\x11', b'\x81', b'\x80', b'\x7f', b'\xff',
                         b'\0\0', b'\0\x80', b'\xff\x7f', b'\xff\xff', b'\0\0\0\x80',
                         b'\xff\xff\xff\x7f', b'\xff\xff\xff\xff', b'\0\0\0\0', b'\0\0\0\0\0',
                         b'\0\0\0\0\1', b'\x12\x34\x56\x78\x90', b'\x01\x23\x45\x67\x89'])),
    (2, st.binary(min_size=20, max_size=20)),
    (2, st.deferred(lambda: pool_key)),
    (2, st.tuples(valid_der, byte).map(lambda t: t[0] + bytes([t[1]]))),
    (1, st.tuples(any_sig, byte).map(lambda t: t[0] + bytes([t[1]]))),
    (1, st.text('0123456789', min_size=10, max_size=24).map(
        lambda t: bytes.fromhex(t if len(t) % 2 == 0 else t + '0'))),
    (1, st.sampled_from(code_data())),
    (2, sized_data(big=False)))


@st.composite
def raw_push(draw, data=push_data):
    '''A push of some data in any of its possible encodings.'''
    d = draw(data)
    return encode_push(d, draw(st.sampled_from(['min', 'min', 'min', 'direct', 1, 2, 4])))


def encode_push(d, how):
    n = len(d)
    if how == 'direct' and n <= 75:
        return bytes([n]) + d
    if how == 1 and n <= 255:
        return b'\x4c' + bytes([n]) + d
    if how == 2 and n <= 65535:
        return b'\x4d' + n.to_bytes(2, 'little') + d
    if how == 4:
        return b'\x4e' + n.to_bytes(4, 'little') + d
    return ref_script.push(d)


piece = st.one_of(raw_push(), opcode.map(lambda o: bytes([o])),
                  st.sampled_from([b'\x75', b'\x6d', b'\x61', b'\x6a', b'\x50']))
structured_script = st.lists(piece, max_size=10).map(b''.join)


@st.composite
def standard_script(draw):
    '''A standard locking script.'''
    kind = draw(st.sampled_from(['pkh', 'sh', 'pk', 'ms', 'ret']))
    h = draw(hash20)
    if kind == 'pkh':
        return b'\x76\xa9\x14' + h + b'\x88\xac'
    if kind == 'sh':
        return b'\xa9\x14' + h + b'\x87'
    if kind == 'pk':
        return ref_script.push(draw(pool_key)) + b'\xac'
    if kind == 'ms':
        keys = draw(st.lists(pool_key, min_size=1, max_size=4))
        m = draw(st.integers(0, len(keys) + 1))
        n = draw(st.sampled_from([len(keys)] * 4 + [len(keys) + 1, 0]))
        return (ref_script.push(ref_script.num_encode(m)) + b''.join(map(ref_script.push, keys))
                + ref_script.push(ref_script.num_encode(n)) + b'\xae')
    return draw(st.sampled_from([b'', b'\0'])) + b'\x6a' + draw(structured_script)


@st.composite
def noisy_script(draw, base=None):
    '''A script with ineffective operations inserted between its operations.'''
    script = draw(base or standard_script())
    parts = split_ops(script)
    out = []
    for part in parts + [b'']:
        for _ in range(draw(st.sampled_from([0, 0, 0, 1, 2]))):
            out.append(draw(st.one_of(
                st.just(b'\x61'),
                raw_push().map(lambda p: p + b'\x75'),
                st.tuples(raw_push(), raw_push()).map(lambda t: t[0] + t[1] + b'\x6d'))))
        out.append(part)
    return b''.join(out)


def split_ops(script):
    '''The byte pieces of a script, one per operation (the rest as one piece if truncated).'''
    parts = []
    n = 0
    while n < len(script):
        op = script[n]
        width = {0x4c: 1, 0x4d: 2, 0x4e: 4}.get(op, 0)
        end = n + 1
        if op <= 0x4e:
            size = int.from_bytes(script[n + 1:n + 1 + width], 'little') if width else op
            end = n + 1 + width + size
            if end > len(script):
                parts.append(script[n:])
                break
        parts.append(script[n:end])
        n = end
    return parts


@st.composite
def truncated_script(draw):
    prefix = draw(structured_script)
    tail = draw(st.one_of(
        st.integers(1, 75).flatmap(lambda n: st.binary(max_size=n - 1).map(
            lambda b: bytes([n]) + b)),
        st.sampled_from([b'\x4c', b'\x4d', b'\x4d\1', b'\x4e', b'\x4e\1', b'\x4e\1\0\0',
                         b'\x4c\1', b'\x4d\1\0', b'\x4e\1\0\0\0', b'\x4e\xff\xff\xff\xff',
                         b'\x4d\xff\xff', b'\x4e\0\0\0\x80'])))
    return prefix + tail


any_script = weighted(
    (3, structured_script), (3, standard_script()), (3, noisy_script()),
    (2, truncated_script()), (2, st.binary(max_size=60)), (2, corrupt(standard_script())),
    (1, sized_data(big=False)))
small_script = weighted((2, st.binary(max_size=12)), (1, structured_script))


# Transactions (plain data as in ref_tx)

def tx_input(script=None):
    return st.tuples(hash32, st.one_of(uint32, st.just(0xffffffff)), script or any_script,
                     st.one_of(uint32, st.just(0xffffffff)))


def tx_output(script=None):
    return st.tuples(int64, script or any_script)


null_input = st.tuples(st.just(bytes(32)), st.just(0xffffffff), st.binary(max_size=100),
                       st.one_of(uint32, st.just(0xffffffff)))


def transaction(script=None, min_in=0, max_in=5, max_out=5):
    script = script or small_script
    ins = st.one_of(
        st.lists(tx_input(script), min_size=min_in, max_size=max_in),
        st.lists(st.one_of(tx_input(script), null_input), min_size=max(1, min_in),
                 max_size=max_in))
    return st.tuples(int32, ins, st.lists(tx_output(script), max_size=max_out), uint32)


coin_index = st.integers(0, 3)


def coins():
    import bitcoinx
    return bitcoinx.all_coins
