import hashlib

from hypothesis import strategies as st

from bitcoinx import PrivateKey, PublicKey
from vlib import gens, key_history as kh, ref_ec, ref_hash
from vlib.core import Check, check, check_eq, raises
from vlib.util import coin as get_coin

C = Check('C13', rule=(
    'Keys and operands over the whole range with 0, 1, N-1, N, the negated and inverse secrets, all '
    'compressions and coins, chains of operations done on both sides, lists of keys with '
    'cancelling sums, and key exchanges with hashed, raw and no messages; against reference point '
    'arithmetic. Non-trivial: a result was compared or a refusal was required.'))

N = ref_ec.N


def private(secret, compressed=True, cn=0):
    return PrivateKey(secret.to_bytes(32, 'big'), compressed, get_coin(cn))


def judge(key, secret, compressed, cn, what):
    check_eq(key.to_int(), secret, what)
    check_eq(bool(key.is_compressed()), compressed, what + ': compression')
    check(key.coin() is get_coin(cn), '{}: coin', what)


def judge_public(key, pt, compressed, cn, what):
    check_eq(key.to_bytes(), ref_ec.ser(pt, compressed), what)
    check_eq(bool(key.is_compressed()), compressed, what + ': compression')
    check(key.coin() is get_coin(cn), '{}: coin', what)


def operand(secret):
    return st.one_of(
        gens.any_int256, gens.secret,
        st.sampled_from([N - secret, secret, pow(secret, -1, N), N - pow(secret, -1, N), 0, 1,
                         N - 1, N, N + 1, (N - secret + 1) % N, N - secret - 1,
                         (2 * (N - secret)) % N, 2**256 - 1, min(2 * N - secret, 2**256 - 1)]))


one_step = gens.secret.flatmap(lambda s: st.tuples(
    st.just(s), gens.bool_, gens.coin_index, operand(s)))


def _edge_steps(tier):
    for s in gens.edge_secrets:
        for v in (0, 1, 2, N - 2, N - 1, N, N + 1, 2**256 - 1, N - s, s, (N - s + 1) % N,
                  pow(s, -1, N)):
            yield s, bool(v & 1), v & 3, v


@C.test(one_step, quick=1500, shards=4, enum=_edge_steps)
def add_and_multiply(case, T):
    secret, compressed, cn, value = case
    key = private(secret, compressed, cn)
    pub = key.public_key
    pt = ref_ec.mul_g(secret)
    judge_public(pub, pt, compressed, cn, 'public key')
    raw = value.to_bytes(32, 'big')
    total = (secret + value) % N
    product = secret * value % N
    for name, func, pfunc, want, point in (
            ('add', key.add, pub.add, total, lambda: ref_ec.add(pt, ref_ec.mul_g(value))),
            ('multiply', key.multiply, pub.multiply, product, lambda: ref_ec.mul(value, pt))):
        if value >= N or not want:
            raises(ValueError, func, raw)
            raises(ValueError, pfunc, raw)
            T.label(name + ' refused')
        else:
            result = func(raw)
            judge(result, want, compressed, cn, f'private {name}')
            presult = pfunc(raw)
            judge_public(presult, point(), compressed, cn, f'public {name}')
            check(result.public_key == presult, 'sides differ')
            check_eq(result.public_key.to_bytes(), presult.to_bytes(), 'sides differ')
            other = PublicKey.from_bytes(ref_ec.ser(pt, not compressed))
            third = getattr(other, name)(raw)
            check_eq(third.to_bytes(), ref_ec.ser(point(), not compressed), 'other compression')
            T.label(name)
        judge(key, secret, compressed, cn, 'operand changed')
        judge_public(pub, pt, compressed, cn, 'operand changed')
    check_eq(raw, value.to_bytes(32, 'big'), 'value changed')
    T.nontrivial()


@C.test(st.tuples(gens.secret, st.binary(max_size=70)), quick=400,
        examples=[(5, b'\1' * n) for n in range(0, 70)])
def operand_sizes(case, T):
    secret, data = case
    key = private(secret)
    if len(data) != 32:
        for func in (key.add, key.multiply, key.public_key.add, key.public_key.multiply):
            raises((ValueError, TypeError), func, data)
        T.nontrivial()
    for bad in (1, None, 'a' * 32):
        for func in (key.add, key.multiply, key.public_key.add, key.public_key.multiply):
            raises((ValueError, TypeError), func, bad)
    judge(key, secret, True, 0, 'operand changed')


steps = st.lists(st.tuples(st.sampled_from(['add', 'multiply', 'complement']), st.one_of(
    gens.secret, st.sampled_from(['neg', 'inv', 'self']))), min_size=1, max_size=6)


@C.test(st.tuples(gens.secret, gens.bool_, gens.coin_index, steps), quick=800, shards=4)
def chains(case, T):
    '''Sequences of operations, done on both sides; every intermediate stays what it was.'''
    secret, compressed, cn, ops = case
    key = private(secret, compressed, cn)
    pub = key.public_key
    pcomp = compressed
    seen = []
    for op, v in ops:
        seen.append((key, secret, pub, pcomp))
        if op == 'complement':
            pub = pub.complement()
            pcomp = not pcomp
            continue
        if v == 'neg':
            v = N - secret
        elif v == 'inv':
            v = pow(secret, -1, N)
        elif v == 'self':
            v = secret
        raw = v.to_bytes(32, 'big')
        want = (secret + v if op == 'add' else secret * v) % N
        if not want:
            raises(ValueError, getattr(key, op), raw)
            raises(ValueError, getattr(pub, op), raw)
            T.label('zero result')
            continue
        key, pub = getattr(key, op)(raw), getattr(pub, op)(raw)
        secret = want
        T.label(op)
    seen.append((key, secret, pub, pcomp))
    for k, s, p, c in seen:
        judge(k, s, compressed, cn, 'private')
        judge_public(p, ref_ec.mul_g(s), c, cn, 'public')
        check(k.public_key == p, 'sides differ')
    T.nontrivial()


def _long_combinations(tier):
    '''Many keys, where leading, trailing or middle ones add up to nothing, or to the key next.'''
    for n in range(2, 70 if tier == 'quick' else 300):
        # The first n cancel: pairs and, for odd n, a triple
        zero = [] if n % 2 == 0 else [(11, True, 0), (12, False, 1), (N - 23, True, 0)]
        k = 30
        while len(zero) < n:
            zero += [(k, n % 3 > 0, 0), (N - k, True, 1)]
            k += 1
        one = (77, n % 2 == 0, 1)
        if len(zero) == n:
            yield zero
            yield zero + [one]
            yield [one] + zero
            yield zero[:n // 2] + [one, (5, True, 0)] + zero[n // 2:]
        # The running sum meets the next key, or its negation
        yield [(1, True, 0)] * n + [(n, True, 0)]
        yield [(1, True, 0)] * n + [(N - n, True, 0)] + [one] * 2
    for n in (100, 128, 255, 256, 257, 1000):
        yield [(k + 1, k % 2 == 0, k % 3) for k in range(n)]


@C.test(st.lists(st.tuples(st.one_of(gens.secret, st.integers(1, 6), st.integers(1, 6).map(
    lambda k: N - k)), gens.bool_, gens.coin_index), max_size=6), quick=1500, shards=4,
        enum=_long_combinations, examples=[
        [], [(1, True, 0)], [(1, True, 0), (N - 1, False, 1)], [(1, True, 0), (1, True, 0)],
        [(1, True, 1), (1, False, 2), (N - 2, True, 0)]])
def combinations(case, T):
    keys = [private(*k).public_key for k in case]
    total = sum(s for s, _c, _n in case) % N
    if not total:
        raises(ValueError, PublicKey.combine_keys, keys)
        T.label('refused')
    else:
        want = ref_ec.mul_g(total)
        if len(case) <= 8:
            point = None
            for s, _c, _n in case:
                point = ref_ec.add(point, ref_ec.mul_g(s))
            check_eq(point, want, 'reference')
        judge_public(PublicKey.combine_keys(keys), want, case[0][1], case[0][2], 'combined')
        judge_public(PublicKey.combine_keys(tuple(keys)), want, case[0][1], case[0][2], 'tuple')
        rev = PublicKey.combine_keys(keys[::-1])
        judge_public(rev, want, case[-1][1], case[-1][2], 'combined in reverse')
        T.label('combined')
    for key, (s, c, n) in zip(keys, case):
        judge_public(key, ref_ec.mul_g(s), c, n, 'operand changed')
    if case:
        T.nontrivial()


HASHERS = {'default': None, 'none': None, 'sha256': lambda m: hashlib.sha256(m).digest(),
           'double': ref_hash.dsha, 'short': lambda m: hashlib.sha1(m).digest()}
message = st.one_of(st.binary(max_size=60), st.just(b''), st.binary(min_size=32, max_size=32))


@st.composite
def exchange(draw):
    a, b = draw(gens.secret), draw(gens.secret)
    hasher = draw(st.sampled_from(['default', 'none', 'none', 'sha256', 'double', 'short']))
    if hasher == 'none':
        value = draw(st.one_of(gens.any_int256, st.sampled_from(
            [N - a, N - b, 0, 1, N - 1, N, 2**256 - 1])))
        msg = value.to_bytes(32, 'big')
        if draw(st.integers(0, 5)) == 0:
            msg = draw(message)
    else:
        msg = draw(message)
    return a, b, draw(gens.bool_), draw(gens.bool_), draw(gens.coin_index), hasher, msg


def _messages(tier):
    for n in [*range(0, 301), *gens.LARGE_SIZES[:8]]:
        yield (0xabcdef << 99) + n, N - 77 - n, n % 2 == 0, n % 3 == 0, n % 4, \
            ('default', 'double')[n % 2], gens.pattern_bytes(n, n % 251)


@C.test(exchange(), quick=1200, shards=4, enum=_messages)
def shared_secrets(case, T):
    a, b, ca, cb, cn, hasher, msg = case
    alice, bob = private(a, ca, cn), private(b, cb, 3 - cn)
    # without a message
    want = ref_ec.mul(a * b % N, ref_ec.G)
    judge_public(alice.ecdh_shared_secret(bob.public_key), want, cb, 3 - cn, 'alice ecdh')
    judge_public(bob.ecdh_shared_secret(alice.public_key), want, ca, cn, 'bob ecdh')
    # with a message
    kwargs = {} if hasher == 'default' else {'hasher': HASHERS[hasher]}
    h = msg if hasher == 'none' else (HASHERS['sha256' if hasher == 'default' else hasher])(msg)
    v = int.from_bytes(h, 'big')
    calls = [(alice, bob, cb, 3 - cn), (bob, alice, ca, cn)]
    if len(h) != 32 or v >= N or not (a + v) % N or not (b + v) % N:
        for us, them, _c, _n in calls:
            raises(ValueError, us.shared_secret, them.public_key, msg, **kwargs)
        T.label('refused')
    else:
        want = ref_ec.mul_g((a + v) * (b + v) % N)
        for us, them, c, n in calls:
            got = us.shared_secret(them.public_key, msg, **kwargs)
            judge_public(got, want, c, n, 'shared secret')
        # a third party gets something else
        eve = private((a + 1) % N or 1)
        if (a + 1) % N != a and (eve.to_int() + v) % N and eve.to_int() != a:
            check(eve.shared_secret(bob.public_key, msg, **kwargs) != got, 'eve agrees')
        T.label(hasher)
    judge(alice, a, ca, cn, 'operand changed')
    judge(bob, b, cb, 3 - cn, 'operand changed')
    judge_public(bob.public_key, ref_ec.mul_g(b), cb, 3 - cn, 'operand changed')
    T.nontrivial()


def _chosen_results(tier):
    for n, pt in enumerate(gens.edge_points()):
        yield pt, (3, N - 2, 0xabcdef << 150)[n % 3], bool(n & 2)


@C.test(st.tuples(gens.edge_point, gens.secret, gens.bool_), quick=600, shards=4,
        enum=_chosen_results)
def chosen_results(case, T):
    '''The result is a point with remarkable coordinates, and so is the operand.'''
    pt, value, compressed = case
    cn = 0
    raw = value.to_bytes(32, 'big')

    def public(point):
        return PublicKey.from_bytes(ref_ec.ser(point, compressed))

    judge_public(public(pt), pt, compressed, cn, 'key')
    shift = ref_ec.mul_g(value)
    before = ref_ec.add(pt, ref_ec.neg(shift))
    if before:
        judge_public(public(before).add(raw), pt, compressed, cn, 'add')
        both = [public(before), private(value).public_key]
        judge_public(PublicKey.combine_keys(both), pt, compressed, cn, 'combine_keys')
        judge_public(PublicKey.combine_keys(both[::-1]), pt, True, 0, 'combine_keys')
    before = ref_ec.mul(pow(value, -1, N), pt)
    judge_public(public(before).multiply(raw), pt, compressed, cn, 'multiply')
    judge_public(private(value).ecdh_shared_secret(public(before)), pt, compressed, cn, 'ecdh')
    after = ref_ec.add(pt, shift)
    if after:
        judge_public(public(pt).add(raw), after, compressed, cn, 'add')
        judge_public(PublicKey.combine_keys([public(pt), private(value).public_key]), after,
                     compressed, cn, 'combine_keys')
    judge_public(public(pt).multiply(raw), ref_ec.mul(value, pt), compressed, cn, 'multiply')
    judge_public(public(pt).complement(), pt, not compressed, cn, 'complement')
    T.nontrivial()


KINDS = ['add', 'multiply', 'public add', 'public multiply', 'ecdh', 'shared', 'raw shared', 'combine',
         'complement', 'public']


def _histories(tier):
    for a, b, v in ((5, 77, 9), (N - 2, 0xabcdef << 150, 1 << 128)):
        for calls in kh.sweeps(KINDS):
            yield (a, b), v, calls
        # Each of two keys with each other, in all forms, one after the other
        for kind in ('ecdh', 'shared', 'combine'):
            yield (a, b), v, list(kh.pairs([(kind, 0, 0, x, y, 0) for x in range(4)
                                            for y in range(4)]))


@C.test(st.tuples(kh.ring, gens.secret, kh.history(KINDS)), quick=600, shards=4, enum=_histories)
def histories(case, T):
    '''Calls on kept key objects: x, y choose another key and its form, z a value or message.'''
    (a, b), v, calls = case
    ring = kh.Ring(a, b)
    values = [v, N - v, v ^ 1, 1, v ^ 1 << 128, N - 1, 0, a, N - a, b]

    def expect(func, args, secret, compressed, private_too, what):
        if not secret % N:
            raises(ValueError, func, *args)
        else:
            got = func(*args)
            if private_too:
                judge(got, secret % N, compressed, 0, what)
                got = got.public_key
            judge_public(got, ring.ref(ref_ec.mul_g, secret % N), compressed, 0, what)

    for n, (kind, i, form, x, y, z) in enumerate(calls):
        what = f'{kind} (call {n})'
        us, ours = ring.private(i, form), ring.public(i, form)
        them = ring.public(x, y)
        s, t = ring.secrets[i], ring.secrets[x]
        value = values[z % len(values)]
        raw = value.to_bytes(32, 'big')
        c, c2 = not form & 1, not y & 1
        if kind == 'add':
            expect(us.add, (raw,), s + value if value < N else 0, c, True, what)
        elif kind == 'multiply':
            expect(us.multiply, (raw,), s * value if value < N else 0, c, True, what)
        elif kind == 'public add':
            expect(ours.add, (raw,), s + value if value < N else 0, c, False, what)
        elif kind == 'public multiply':
            expect(ours.multiply, (raw,), s * value if value < N else 0, c, False, what)
        elif kind == 'ecdh':
            expect(us.ecdh_shared_secret, (them,), s * t, c2, False, what)
        elif kind == 'shared':
            h = int.from_bytes(kh.sha(z), 'big')
            expect(us.shared_secret, (them, b'%d' % z), (s + h) * (t + h), c2, False, what)
        elif kind == 'raw shared':
            ok = value < N
            expect(us.shared_secret, (them, raw, None), (s + value) * (t + value) if ok else 0, c2,
                   False, what)
        elif kind == 'combine':
            keys = [ours, them] + [ring.public(n % 4, y) for n in range(z % 4)]
            total = s + t + sum(ring.secrets[n % 4] for n in range(z % 4))
            expect(PublicKey.combine_keys, (keys,), total, c, False, what)
        elif kind == 'complement':
            judge_public(ours.complement(), ring.point(i), not c, 0, what)
        judge_public(ours, ring.point(i), c, 0, what + ': the key')
        judge(us, s, c, 0, what + ': the key')
    T.label('length 2-6' if len(calls) < 7 else 'length 7-12' if len(calls) < 13 else 'sweep')
    T.nontrivial()
