import os

from hypothesis import strategies as st

from bitcoinx import CheckPoint, Headers, all_coins
from vlib import chain_session as cs
from vlib import gens, ref_chain, ref_work
from vlib.core import Check, check, check_eq

C = Check('C24', rule=(
    'Windows of headers with generated timestamps and bits below any height of each network, around '
    'rule switches, retarget heights and clamps, read from a header file; block trees with forks '
    'mined on easy copies of the networks across the switches. Against an independent '
    'implementation of the rules. Non-trivial: required bits were compared with the reference.'))

LIMIT = 0x1d00ffff
SWITCHES = {0: [478558, 504031], 1: [1188697], 2: [2200], 3: [1188697]}
TOP = {0: 1000000, 1: 2000000, 2: 50000, 3: 2000000}
# Heights at which other implementations' or networks' rules change, and beyond all of them
FOREIGN = [227931, 363725, 388381, 419328, 481824, 484453, 504031, 504032, 530359, 556767, 620538,
           661647, 661648, 840000, 1155876, 1188698, 1267997, 1341712, 1378461, 1421481, 1421482,
           2100000, 6930000, 10000000]


def heights(net):
    retargets = sorted({2016 * k for k in (1, 2, 3, 100)}
                       | {s // 2016 * 2016 + 2016 * d for s in SWITCHES[net] for d in (0, 1)})
    return st.one_of(
        st.tuples(st.sampled_from(SWITCHES[net]), st.integers(-4, 6)).map(sum),
        st.tuples(st.sampled_from(SWITCHES[net]), st.integers(7, 3000)).map(sum),
        st.tuples(st.sampled_from(SWITCHES[net]), st.integers(-2100, -5)).map(sum),
        st.sampled_from(retargets), st.sampled_from(retargets),
        st.tuples(st.sampled_from(retargets), st.sampled_from([-1, 1, 2, 6, 7, 11])).map(sum),
        st.integers(1, TOP[net]), st.integers(1, 30),
        st.tuples(st.sampled_from(FOREIGN + gens.code_ints(1, 10_000_000)),
                  st.sampled_from([-1, 0, 1, 2, 300])).map(sum)).map(lambda h: max(h, 1))


good_bits = st.one_of(
    st.sampled_from([LIMIT, LIMIT, LIMIT - 1, 0x1d00fffe, 0x1d008000, 0x1c7fffff, 0x1c7ffffe,
                     0x1b0404cb, 0x1a05db8b, 0x180115f8, 0x1c00ffff, 0x1c010000, 0x1c00d86a]),
    st.tuples(st.integers(6, 0x1c), st.integers(0x8000, 0x7fffff)).map(
        lambda t: t[0] << 24 | t[1]))
step = st.one_of(
    st.sampled_from([600, 600, 600, 0, 1, 149, 150, 151, 299, 300, 301, 1199, 1200, 1201, 2399,
                     2400, 2401, 7199, 7200, 7201, 7206, 4000, -1, -600, 10000]),
    st.integers(-2000, 20000))
ts_segments = st.lists(st.tuples(st.one_of(st.integers(1, 20), st.integers(1, 300),
                                           st.sampled_from([1, 143, 144, 145, 2016])), step),
                       min_size=1, max_size=5)
bits_segments = st.lists(st.tuples(st.one_of(st.integers(1, 20), st.integers(1, 300),
                                             st.sampled_from([1, 2, 144, 2016, 2060])), good_bits),
                         min_size=1, max_size=5)
back = st.one_of(st.integers(1, 20), st.integers(140, 150), st.sampled_from([2015, 2016, 2017]))
change = st.one_of(st.integers(-3, 3), st.integers(-3000, 3000), st.sampled_from(
    [-43200, 43200, 1200, -1200, 600, 1 << 31, -(1 << 31)]))
span = st.tuples(
    st.sampled_from([43200, 172800, 302400, 4838400, 1209600, 0, 86400, 604800]),
    st.sampled_from([-1, 0, 0, 1, 2, 599, -599])).map(sum)
force = st.tuples(st.sampled_from([(1, 2016), (1, 145), (2, 146), (2, 145), (6, 12), (1, 147),
                                   (3, 146), (1, 2), (2, 3), (1, 3), (145, 146), (146, 147),
                                   (145, 147)]), span).map(lambda t: (*t[0], t[1]))
tie = st.sampled_from([(1, 2, 0), (2, 3, 0), (1, 3, 0), (145, 146, 0), (146, 147, 0),
                       (145, 147, 0), (2, 1, 0), (146, 145, 5), (2, 1, 5), (3, 2, 5)])
new_delta = st.one_of(gens.or_code(st.integers(-300, 9000), gens.code_ints(-10**9, 10**9, 60), 2),
                      st.sampled_from([1199, 1200, 1201, 0, -1, -100000, 600, 1 << 31, 2400]),
                      st.integers(-5000, 5000))


@st.composite
def scene(draw):
    net = draw(st.integers(0, 3))
    return (net, draw(heights(net)), draw(st.sampled_from([1231006505, 1500000000, 4200000000, 0])),
            draw(ts_segments), draw(bits_segments),
            draw(st.lists(st.tuples(back, change), max_size=4)),
            draw(st.lists(st.tuples(back, good_bits), max_size=3)),
            draw(st.lists(gens.weighted((2, force), (1, tie)), max_size=2)),
            draw(new_delta), draw(st.integers(0, 3)))


def _scenes(tier):
    nets = {0: [1, 2, 11, 2015, 2016, 2017, 4032, 478557, 478558, 478559, 479807, 479808, 479809,
                481824, 503999, 504000, 504001, 504030, 504031, 504032, 504033, 504176, 504177,
                504178, 506016, 600000],
            1: [1, 2, 2015, 2016, 2017, 2018, 4031, 4032, 478560, 504040, 1187424, 1188695, 1188696,
                1188697, 1188698, 1188699, 1189440, 1188843, 1300000],
            2: [1, 2015, 2016, 2017, 2018, 2199, 2200, 2201, 2202, 2346, 4032, 10000]}
    nets[3] = nets[1]
    spans = [43199, 43200, 43201, 172799, 172800, 172801, 302399, 302400, 302401, 4838399,
             4838400, 4838401, -5, 0, 1209600]
    for net, levels in nets.items():
        for height in levels:
            for n, ts in enumerate([600, 300, 1200, 150, 2400, 7199, 7200, 7201, 0, -60]):
                for bits in ([(2060, LIMIT)], [(2060, 0x1b0404cb)],
                             [(3, LIMIT), (2000, 0x1c123456)]):
                    for delta in ((600, 1201) if net else (600,)):
                        if tier == 'thorough' or (n + height + delta) % 3 == 0:
                            yield (net, height, 1400000000, [(2060, ts)], bits, [], [], [], delta,
                                   n % 3)
            for n, s in enumerate(spans):
                for pair in ((1, 2016), (1, 145), (2, 146), (6, 12)):
                    if tier == 'thorough' or (n + pair[0] + height) % 4 == 0:
                        yield (net, height, 1400000000, [(2060, 600)], [(2060, 0x1b0404cb)], [],
                               [], [(*pair, s)], 600, 0)
    # All orders, with ties, of the timestamps of the triples of the 144-block rule
    for net, height in ((0, 504040), (1, 1188800), (2, 3000)):
        for a in range(27):
            for which in (0, 144):
                tweaks = [(which + i + 1, (a // 3**i % 3) * 600 + 600 * i) for i in range(3)]
                bits = [(which + i + 1, 0x1b010000 + 0x1000 * i) for i in range(-1, 4)
                        if which + i + 1 > 0]
                yield (net, height, 1400000000, [(2060, 600)], [(2060, 0x1b0404cb)], tweaks, bits,
                       [], 600, 0)
    # How far back the last non-minimum bits are
    for height in (2017, 2018, 4031, 4030, 3000, 6048, 6049):
        for n in (0, 1, 2, 500, 2013, 2014, 2015, 2016, 2017):
            for delta in (0, 1200, 1201):
                yield (1, height, 1400000000, [(2060, 600)],
                       [(n, LIMIT), (1, 0x1b0404cb), (2060, 0x1c00ffff)] if n else
                       [(2060, 0x1c00ffff)], [], [], [], delta, 0)


def path_of(T):
    T.store['n'] = T.store.get('n', 0) + 1
    return os.path.join(T.scratch(), f'headers_{T.store["n"]}')


@C.test(scene(), quick=3200, shards=8, enum=_scenes)
def windows(case, T):
    net, height, base, ts_segs, bits_segs, tweaks, bits_tweaks, forces, delta, extra = case
    coin = all_coins[net]
    first, values = ref_chain.window(height, base, ts_segs, bits_segs, tweaks, bits_tweaks, forces)
    raws = ref_chain.raw_window(first, values)
    # Headers at and above the height must not matter: garbage with hard bits
    garbage = [ref_chain.pack(1, b'\7' * 32, bytes(32), 12345 * i, 0x0a123456, i)
               for i in range(extra)]
    everything = raws + garbage
    cp_height = first + len(everything) - 1
    checkpoint = CheckPoint(everything[-1], cp_height, 0x123456789)
    path = path_of(T)
    headers = Headers.from_file(coin, path, checkpoint)
    try:
        for i, raw in enumerate(everything[:-1]):
            headers.set_one(first + i, raw)
        chain = headers.chains()[0]
        timestamp = min(max(values[-1][0] + delta, 0), 0xffffffff)

        def anc(h):
            return values[h - first]

        want = ref_work.required(net, LIMIT, height, anc, timestamp)
        got = headers.required_bits(chain, height, timestamp)
        check_eq(got, want, f'bits required at {height}')
        check(ref_work.target(got) is not None, 'bits {} are not canonical', got)
        check(ref_work.target(got) <= ref_work.target(LIMIT), 'bits {} are too easy', got)
        if net == 0:
            check_eq(headers.required_bits(chain, height), want, 'without a timestamp')
            check_eq(headers.required_bits(chain, height, 0), want, 'other timestamp')
        check_eq(headers.required_bits(chain, height, timestamp), want, 'again')
        if want != values[-1][1]:
            T.label(f'{ref_chain.NETS[net]} changes')
        if want == LIMIT:
            T.label('limit')
        T.nontrivial()
    finally:
        os.unlink(path)


tree_op = gens.weighted((5, cs.grow), (3, cs.run))
tree_scene = gens.weighted((4, cs.daa_scene), (2, cs.eda_scene), (3, cs.retarget_scene),
                           (1, cs.testnet_scene), (1, cs.low_scene))


def _trees(tier):
    long = [('run', -1, 12, 600)] * 13
    for net, switch in ((0, 504031), (2, 2200)):
        for d in (-3, 0, 2):
            for dt in (600, 250, 1500, 0):
                spec = (net, switch + d, 190, [(200, 600)], [(200, 0x2000ffff)], 0)
                yield spec, [('run', -1, 8, dt), ('grow', 0, 5000, 1), ('run', -1, 5, dt * 2),
                             ('grow', 3, -900, 2), ('run', -1, 4, dt)], [600, 1201]
                if tier == 'thorough':
                    yield spec, long + [('run', 50, 12, dt)], [600]
    for height in (2012, 479804):
        for a in (600, 100000, -100000, 7300):
            spec = (0, height, 2040, [(2040, 550)], [(2040, 0x2000ffff)], 0)
            yield spec, [('run', -1, 6, 600), ('run', 1, 6, a), ('run', 2, 5, a // 2),
                         ('grow', 0, a, 9), ('run', -1, 8, 600)], [600]
    for height in (1188694, 1188697):
        spec = (1, height, 1300, [(1300, 550)], [(3, cs.EASY), (1300, 0x2000ffff)], 0)
        yield spec, [('run', -1, 6, 600), ('run', 1, 6, 1201), ('run', 2, 5, 1200),
                     ('grow', 0, 1300, 9), ('run', -1, 8, 600)], [600, 1200, 1201]


@C.test(st.tuples(tree_scene, st.lists(tree_op, min_size=1, max_size=12),
                  st.lists(new_delta, min_size=1, max_size=3)), quick=1200, shards=8, enum=_trees)
def forks(case, T):
    """Whatever chain object and height the ancestors are reached by."""
    spec, ops, deltas = case
    session = cs.Session(cs.Scene(spec), path_of(T))
    try:
        for op in ops:
            session.apply(op)
        tree, headers = session.tree, session.headers
        seen = set()
        for model_chain in tree.chains:
            chain = session.chain_of(model_chain)
            tip = model_chain.tip
            heights = {tip.height + 1, tip.height, model_chain.first_height + 1,
                       model_chain.first_height, model_chain.first_height - 1,
                       tree.root.height + 1}
            for height in sorted(heights):
                if not tree.root.height < height <= tip.height + 1:
                    continue
                node = tree.at(tip, height - 1)
                for delta in deltas:
                    timestamp = min(max(node.timestamp + delta, 0), 0xffffffff)
                    want = tree.required(node, timestamp)
                    check_eq(headers.required_bits(chain, height, timestamp), want,
                             f'bits required at {height} of a chain from '
                             f'{model_chain.first_height} to {tip.height}')
                    check(ref_work.target(want) <= ref_work.target(cs.EASY), 'too easy')
                    seen.add((height, want))
        # One height and timestamp on every branch in turn
        levels = {}
        for node in tree.nodes:
            levels.setdefault(node.height, []).append(node)
        levels = sorted((nodes for nodes in levels.values() if len(nodes) > 1), key=len)
        for nodes in levels[:3] + levels[-3:]:
            late = max(node.timestamp for node in nodes)
            for delta in deltas[:2]:
                timestamp = min(max(late + delta, 0), 0xffffffff)
                for node in (nodes + nodes[:1])[:6]:
                    got = headers.required_bits(session.chain_of(node.chain), node.height + 1,
                                                timestamp)
                    want = tree.required(node, timestamp)
                    check_eq(got, want, f'bits required at {node.height + 1} of a branch')
                    seen.add((node.height + 1, want))
        if len({w for _h, w in seen}) > 1:
            T.label('several bits')
        by_height = {}
        for h, w in seen:
            by_height.setdefault(h, set()).add(w)
        if any(len(v) > 1 for v in by_height.values()):
            T.label('forks differ')
        if len(tree.chains) > 1:
            T.nontrivial()
    finally:
        session.close()
