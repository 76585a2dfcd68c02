'''Histories of calls on key objects that are kept: the same few keys (a secret, its negation, and
others), in all forms, with arguments that differ in little.'''

from hypothesis import strategies as st

from vlib import gens, ref_ec, ref_hash

N = ref_ec.N


class Ring:
    '''Key objects that persist, and reference results worked out once.'''

    def __init__(self, a, b):
        self.secrets = [a, N - a, b, a % (N - 1) + 1]
        self.objects = {}
        self.known = {}

    def ref(self, func, *args):
        key = func, args
        if key not in self.known:
            self.known[key] = func(*args)
        return self.known[key]

    def point(self, i):
        return self.ref(ref_ec.mul_g, self.secrets[i])

    def private(self, i, form):
        from bitcoinx import PrivateKey
        key = 'private', i, form & 1
        if key not in self.objects:
            self.objects[key] = PrivateKey(self.secrets[i].to_bytes(32, 'big'), not form & 1)
        return self.objects[key]

    def public(self, i, form):
        '''Forms with bit 0 are uncompressed; those with bit 1 are made from bytes.'''
        from bitcoinx import PublicKey
        if not form & 2:
            return self.private(i, form).public_key
        key = 'public', i, form
        if key not in self.objects:
            self.objects[key] = PublicKey.from_bytes(ref_ec.ser(self.point(i), not form & 1))
        return self.objects[key]


def pairs(calls):
    '''Each call after each other one.'''
    for x in calls:
        for y in calls:
            yield x
            yield y


def near(data, n):
    '''data with one bit changed.'''
    n %= 8 * len(data)
    return data[:n // 8] + bytes([data[n // 8] ^ 1 << n % 8]) + data[n // 8 + 1:]


small = st.integers(0, 3)
ring = st.tuples(gens.secret, gens.secret)


def history(kinds, size=12):
    '''Calls (kind, key, form, x, y, z).'''
    call = st.tuples(st.sampled_from(kinds), small, small, small, small, st.integers(0, 15))
    few = st.integers(0, 1)
    return st.one_of(
        st.lists(call, min_size=2, max_size=size),
        st.lists(st.tuples(st.sampled_from(kinds), few, few, few, few, st.integers(0, 3)),
                 min_size=2, max_size=size),
        # One key object
        st.tuples(small, small, st.lists(call, min_size=2, max_size=size)).map(
            lambda t: [(c[0], t[0], t[1]) + c[3:] for c in t[2]]))


def sweeps(kinds, many=False):
    '''Sequences in which one argument goes through its values with the others fixed.'''
    for kind in kinds:
        for base in (0, 1, 3):
            for pos in range(1, 6):
                top = 16 if pos == 5 else 4
                values = list(range(top))
                args = [base] * 5
                calls = []
                for v in pairs(values) if many or top == 4 else values + values[::-1]:
                    args[pos - 1] = v
                    calls.append((kind, *args))
                yield calls


#
# Signatures that differ in little
#

VARIANTS = 16


def variant(ring, secret, z, h, other_h):
    '''(r, s, recid) of variant z of the signature of hash h.'''
    r, s, recid = ring.ref(ref_ec.sign, secret, h)
    if z < 6:
        pass
    elif z == 6:
        s, recid = N - s, recid ^ 1
    elif z == 7:
        r ^= 1
    elif z == 8:
        r ^= 1 << 200
    elif z == 9:
        s ^= 1
    elif z == 10:
        s ^= 1 << 200
    elif z == 11:
        recid ^= 1
    elif z == 12:
        r, s, recid = ring.ref(ref_ec.sign, secret, other_h)
    elif z == 13:
        s = ring.ref(ref_ec.sign, secret, other_h)[1]
    elif z == 14:
        r = ring.ref(ref_ec.sign, secret, other_h)[0]
    elif z == 15:
        r, s, recid = ring.ref(ref_ec.sign, N - secret, h)
    return r, s, recid


def compact(r, s):
    return r.to_bytes(32, 'big') + s.to_bytes(32, 'big')


def sha(n):
    return ref_hash.sha256(b'%d' % n)
