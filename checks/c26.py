import os
import time

from hypothesis import strategies as st

from bitcoinx import CheckPoint, Headers, MissingHeader
from vlib import chain_session as cs
from vlib import gens, ref_chain
from vlib.core import Check, check, check_eq, raises

C = Check('C26', rule=(
    'Histories of up to 40 connects building trees with many forks on easy copies of the networks, '
    'with cache sizes 1 to 5 and the default one, hashes sharing four-byte prefixes (aligned and '
    'across neighbours), chains of up to 5,100 headers, 1,100 chains nested and 66,000 side by '
    'side (with the time taken to find hashes absent); heights, lookups, work, medians, common '
    'ancestors and absent items compared with a tree model. Non-trivial: more than one chain.'))

op = gens.weighted((10, cs.grow), (3, cs.run), (1, cs.dup), (1, cs.orphan), (1, cs.bad_bits),
                   (1, cs.bad_pow), (2, cs.lookups), (1, cs.check_op), (1, cs.early))
below_op = gens.weighted((3, cs.grow), (1, cs.run), (4, cs.set_one), (1, cs.check_op))


def run(spec, ops, T, cache=None):
    T.store['n'] = T.store.get('n', 0) + 1
    session = cs.Session(cs.Scene(spec), os.path.join(T.scratch(), f'h{T.store["n"]}'), cache)
    try:
        for o in ops:
            session.apply(o)
        session.check_all(pairs=40)
        chains = len(session.tree.chains)
        T.label('1 chain' if chains == 1 else '2-4 chains' if chains < 5 else '5+ chains')
        depth = 0
        for c in session.tree.chains:
            d = 0
            while c.parent:
                c, d = c.parent, d + 1
            depth = max(depth, d)
        T.label(f'nesting {min(depth, 4)}')
        if chains > 1:
            T.nontrivial()
    finally:
        session.close()


def _shapes(tier):
    '''All trees of up to 5 (thorough: 6) headers above the checkpoint, in every order of arrival.'''
    size = 5 if tier == 'quick' else 6
    for spec in ((0, 0, 1, [], [], 0), (0, 504040, 160, [(200, 600)], [(200, 0x2000ffff)], 77)):
        shapes = [[]]
        for n in range(size):
            shapes = [s + [p] for s in shapes for p in range(n + 1)]
        for shape in shapes:
            yield spec, [('grow', p, 600 + 300 * (i % 3), i) for i, p in enumerate(shape)]


@C.test(st.tuples(cs.any_scene, st.lists(op, min_size=1, max_size=40)), quick=2400, shards=8,
        enum=_shapes)
def trees(case, T):
    spec, ops = case
    run(spec, ops, T)


@C.test(st.tuples(cs.light_scene, st.lists(op, min_size=1, max_size=40), st.integers(1, 5)),
        quick=1600, shards=8)
def small_caches(case, T):
    spec, ops, cache = case
    run(spec, ops, T, cache)


def _below(tier):
    for spec in ((0, 3, 3, [(5, 600)], [(5, cs.EASY)], 0),
                 (0, 300, 15, [(30, 600)], [(30, cs.EASY)], 1 << 80),
                 (0, 504040, 160, [(200, 600)], [(200, 0x2000ffff)], 77),
                 (0, 504031, 180, [(200, 600)], [(200, 0x2000ffff)], 5)):
        yield spec, [('set', n, 'new', 100 + n) for n in range(1, 12)] + [
            ('check',)] + [('set', n, 'new', 900 - n) for n in range(11, 0, -1)] + [
            ('run', 0, 5, 600), ('run', 0, 12, 700)] + [('set', n, 'new', n) for n in range(1, 14)]


@C.test(st.tuples(cs.light_scene, st.lists(below_op, min_size=1, max_size=20)), quick=800, shards=4,
        enum=_below)
def set_below(case, T):
    '''Headers below the checkpoint set again.'''
    spec, ops = case
    run(spec, ops, T)


def _collisions(tier):
    for cache in (1, 2, 3, None):
        for n in range(len(ref_chain.PAIRS)):
            for order in (0, 1):
                yield [('collide', n, order), ('grow', 1, 600, 1), ('grow', 2, 600, 2),
                       ('collide', n, 1 - order), ('lookups', 12345)], cache
        for n in range(len(ref_chain.TRIPLES)):
            yield [('collide3', n), ('grow', 1, 600, 1), ('grow', 2, 600, 2), ('grow', 3, 600, 3),
                   ('collide3', n), ('lookups', 777)], cache
            yield [('grow', -1, 600, 9), ('collide3', n), ('run', -1, 5, 600), ('dup', 3),
                   ('collide', n % 4, 0), ('dup', 4)], cache
        for n in range(len(ref_chain.OVERLAPS)):
            yield [('overlap', n), ('grow', 1, 600, 1), ('run', -1, 4, 600), ('dup', 1), ('dup', 2),
                   ('grow', 2, 900, 2), ('overlap', n), ('lookups', 99)], cache
            yield [('run', -1, n, 600), ('overlap', n), ('run', -1, 5, 600),
                   ('overlap', (n + 1) % len(ref_chain.OVERLAPS)), ('run', 0, 5, 700)], cache


collision_op = gens.weighted((3, cs.collide), (3, cs.collide3), (3, cs.overlap), (4, cs.grow), (1, cs.run),
                             (2, cs.dup), (2, cs.orphan), (2, cs.lookups))


@C.test(st.tuples(st.lists(collision_op, min_size=1, max_size=30),
                  st.sampled_from([None, 1, 1, 2, 3, 5])), quick=1200, shards=4, enum=_collisions)
def colliding_hashes(case, T):
    ops, cache = case
    run((0, 0, 1, [], [], 0), ops, T, cache)


def _long(tier):
    for count in ((1001, 2100, 5100) if tier == 'quick' else
                  (998, 999, 1000, 1001, 1002, 2100, 3100, 4998, 4999, 5000, 5001, 10100)):
        yield count, [0, 1, count // 2, count - 1, 7]
    yield 1500, list(range(0, 1400, 7))


def _many(tier):
    for count in (300,) if tier == 'quick' else (255, 256, 257, 600, 2000):
        # Forks of the first header, of one another's tips, and of each header of a chain
        yield [('grow', 0, 600 + n, n) for n in range(count)] + [
            ('grow', n, 900, n) for n in (1, 2, 254, 255, 256, 257, count)]
        yield [('run', -1, count, 600)] + [('grow', n, 700, n) for n in range(count)]


@C.test(enum=_many, shards=2)
def many_chains(case, T):
    run((0, 0, 1, [], [], 0), case, T)


def _nested(tier):
    '''Each chain forks from the first header of the one before, beyond Python's recursion limit.'''
    for levels in (1100,) if tier == 'quick' else (990, 1005, 1100, 1700):
        level = [('grow', -2, 600, 1), ('grow', -1, 600, 2)]
        yield [('grow', 0, 600, 3), ('grow', -1, 600, 4)] + level * levels + [
            # Crosses a retarget, which looks at the start of its period
            ('run', -1, max(0, 2020 - levels), 601)]
    yield [('run', -1, 3, 600)] + [('grow', 1, 600, 5), ('grow', -1, 600, 6)] + [
        ('grow', -2, 600, 7), ('grow', -1, 600, 8)] * 300


@C.test(enum=_nested, shards=2)
def nested_chains(case, T):
    run((0, 0, 1, [], [], 0), case, T)


QUARTER = -1_000_000       # makes the period short: four times the work


def _equal_work(_tier):
    '''A header after one retarget weighs as much as four after another one of the same height.'''
    heavy = [('grow', 4, QUARTER, 1), ('grow', -1, 600, 2)]
    light = [('grow', 4, 600, 3)] + [('grow', -1, 600, 4)] * 4
    for a, b in ((heavy, light), (light, heavy)):
        for more in ([], [('grow', 4, 600, 5)] + [('grow', -1, 600, 6)] * 5,
                     [('grow', 4, QUARTER, 7), ('grow', -1, 600, 8)]):
            yield a + b + more
            yield more + b + a
    # The branches of the heavy side fork later
    yield heavy + light + [('grow', 5, 601, 9), ('grow', 5, 602, 10)]
    yield light + heavy + [('grow', -2, 601, 9), ('grow', -3, 602, 10)]


@C.test(st.lists(st.tuples(st.sampled_from([QUARTER, QUARTER // 2, -400_000, 600]), st.integers(1, 9)),
                 min_size=2, max_size=5).map(lambda branches: [
                     op for n, (dt, count) in enumerate(branches)
                     for op in [('grow', 4, dt, n)] + [('grow', -1, 600, n)] * count]),
        quick=40, shards=4, enum=_equal_work)
def equal_work(ops, T):
    '''Chains of the same work, often of different heights.'''
    ops = [('run', -1, 4, 600)] + [o for op in ops for o in (op, ('check',))]
    run((0, 2010, 2011, [(2011, 600)], [(2011, cs.EASY)], 0), ops, T)


@C.test(enum=lambda tier: [(66000, 0)] if tier == 'quick' else [(66000, 0), (66000, 5), (100000, 3)])
def countless_chains(case, T):
    '''More chains than 16 bits can number; also after reopening.'''
    count, extra = case
    net, path = 0, os.path.join(T.scratch(), 'h')
    coin, genesis = ref_chain.easy_coin(net, ref_chain.EASY_BITS), ref_chain.easy_genesis(net)
    # Without a big cache this takes time quadratic in the number of chains
    cls = type('Headers', (Headers,), {'max_cache_size': 1 << 30})
    checkpoint = CheckPoint(genesis, 0, 0)
    headers = cls.from_file(coin, path, checkpoint)
    prev = ref_chain.dsha(genesis)
    raws = []
    for n in range(extra):
        raws.append(ref_chain.mine(prev, cs.BASE_TIME, ref_chain.EASY_BITS, n))
        headers.connect(raws[-1])
        prev = ref_chain.dsha(raws[-1])
    base = len(raws)
    for n in range(count):
        raws.append(ref_chain.mine(prev, cs.BASE_TIME, ref_chain.EASY_BITS, 1000 + n))
        headers.connect(raws[-1])
    picks = [0, 1, 2, 255, 256, 257, 32767, 32768, 32769, 65534, 65535, 65536, 65537, count - 1]
    more = []
    for n in picks:
        raw = ref_chain.mine(ref_chain.dsha(raws[base + n]), cs.BASE_TIME, ref_chain.EASY_BITS, n)
        headers.connect(raw)
        more.append(raw)
    for again in range(2):
        check_eq(headers.chain_count(), count, 'number of chains')
        check_eq(len(headers), 1 + len(raws) + len(more), 'number of headers')
        for n, raw in zip(picks, more):
            for item, height in ((raws[base + n], base + 1), (raw, base + 2)):
                header, chain = headers.lookup(ref_chain.dsha(item))
                check_eq((header.raw, header.height), (item, height), 'header')
                check_eq((chain.tip.raw, chain.height), (raw, base + 2), 'chain')
                check_eq(headers.raw_header_at_height(chain, height), item, 'header by height')
        headers = cls.from_file(coin, path, checkpoint)
    # Hashes that agree with two neighbours in the order of arrival.  Finding that they are
    # absent takes a scan of the headers, some milliseconds, not one scan per header
    order = [ref_chain.dsha(raw) for raw in [genesis] + raws]
    started = time.process_time()
    for n, cut in ((len(order) - 2, 1), (len(order) - 9, 2), (len(order) - 5, 3)):
        absent = order[n][cut:4] + order[n + 1][:cut] + bytes(28)
        raises(MissingHeader, headers.lookup, absent)
        raises(MissingHeader, headers.connect,
               ref_chain.mine(absent, cs.BASE_TIME, ref_chain.EASY_BITS, n))
    taken = time.process_time() - started
    check(taken < 8, 'looking up 6 absent hashes among {} headers took {} seconds',
          len(order), int(taken))
    T.nontrivial()
    os.unlink(path)


@C.test(enum=_long, shards=4)
def long_chains(case, T):
    '''Beyond the default cache size and the growth step of the file.'''
    count, forks = case
    ops = [('run', -1, count, 600)]
    ops += [('run', f, 2, 601 + n) for n, f in enumerate(forks)]
    ops += [('dup', 3), ('dup', count // 3), ('grow', -1, 5, 5), ('orphan', 50, 'prefix', 3)]
    run((0, 0, 1, [], [], 0), ops, T)
