'''Histories of operations on a Headers object, decided step by step by the model ref_chain.Tree.'''

import os
import shutil

from hypothesis import strategies as st

from bitcoinx import (
    CheckPoint, Headers, IncorrectBits, InsufficientPoW, MissingHeader,
)
from vlib import gens, ref_chain, ref_work
from vlib.core import check, check_eq, raises

EASY = ref_chain.EASY_BITS
BASE_TIME = 1400000000
VERSIONS = (1, 2, 0, 0x20000000, -1, -1 << 31, 0x7fffffff, 4)

#
# Scenes: a network, a checkpoint and the headers set below it
#

_step = st.one_of(st.sampled_from([600, 600, 0, 300, 1200, 1201, 150, 2400, 7200, 7201, -600]),
                  st.integers(-300, 8000))
_bits = st.sampled_from([EASY, EASY, EASY, 0x2000ffff, 0x2000ffff, 0x20020000, 0x2001abcd,
                         0x200ffffe, 0x2008ffff, 0x2007e5c1, 0x1f7fffff])
_ts_segments = st.lists(st.tuples(st.sampled_from([1, 2, 5, 11, 20, 144, 2016]), _step), min_size=1,
                        max_size=4)
_bits_segments = st.lists(st.tuples(st.sampled_from([1, 2, 5, 11, 20, 144, 2016]), _bits),
                          min_size=1, max_size=4)
_prev_work = st.one_of(st.just(0), st.integers(0, 1 << 90), st.sampled_from([1, 1 << 64]))


def _at(net, heights, count):
    return st.tuples(st.just(net), heights, st.just(count), _ts_segments, _bits_segments,
                     _prev_work)


genesis_scene = st.integers(0, 3).map(lambda net: (net, 0, 1, [], [], 0))
collision_scene = st.just((0, 0, 1, [], [], 0))
low_scene = _at(0, st.integers(1, 60), 100)
holes_scene = _at(0, st.integers(20, 500), 15)
daa_scene = st.one_of(
    _at(0, st.integers(504031 - 4, 504031 + 20), 180),
    _at(0, st.integers(504200, 504500), 150),
    _at(2, st.integers(2190, 2204), 190),
    _at(2, st.integers(2300, 3000), 150))
eda_scene = st.one_of(_at(0, st.integers(478553, 478560), 40),
                      _at(0, st.integers(478600, 479600), 40))
retarget_scene = st.one_of(
    _at(0, st.sampled_from([2015, 4031, 478463, 479807, 504000 - 1]).flatmap(
        lambda h: st.integers(h - 4, h)), 2040),
    _at(1, st.sampled_from([2015, 4031]).flatmap(lambda h: st.integers(h - 4, h)), 2040))
testnet_scene = st.one_of(
    _at(1, st.integers(1188697 - 4, 1188697 + 3), 1300),
    _at(3, st.integers(1188900, 1189000), 160),
    _at(2, st.integers(2016 + 5, 2016 + 20), 40))
code_scene = _at(0, st.sampled_from([500000, 600000, 661646, 661647, 840000]
                                   + [h for h in gens.code_ints(1, 3_000_000)
                                      if h % 2016 < 1000]), 200)
light_scene = gens.weighted((1, code_scene), (3, genesis_scene), (2, low_scene), (1, holes_scene), (2, daa_scene),
                            (2, eda_scene))
any_scene = gens.weighted((6, light_scene), (1, retarget_scene), (1, testnet_scene))


class Scene:

    def __init__(self, spec):
        self.net, self.height, count, ts, bits, self.prev_work = spec
        self.coin = ref_chain.easy_coin(self.net, EASY)
        self.pre = {}
        if not count or not self.height:
            self.raw = ref_chain.easy_genesis(self.net)
        else:
            # Old rules on a test network look for non-minimum bits down to a retarget height
            first, values = ref_chain.window(self.height + 1, BASE_TIME, [tuple(t) for t in ts],
                                             [tuple(b) for b in bits], count=count)
            raws = ref_chain.raw_window(first, values)
            self.raw = raws[-1]
            self.pre = {first + i: raw for i, raw in enumerate(raws[:-1])}
        self.checkpoint = CheckPoint(self.raw, self.height, self.prev_work)

    def tree(self):
        return ref_chain.Tree(self.net, EASY, self.raw, self.height, self.prev_work, self.pre)


#
# Operations
#

selector = gens.weighted((6, st.just(-1)), (3, st.integers(-6, -1)), (2, st.integers(0, 200)))
dt = st.one_of(st.sampled_from([600, 600, 600, 1200, 1201, 1199, 0, 1, -1, 7200, 8000, 50000,
                                -5000, 300, 100000, -100000]),
               # Long ago, the far future, and the ends of the range
               st.sampled_from([10**9, 25 * 10**8, 1 << 32, -10**9, -(1 << 32), (1 << 31) - BASE_TIME,
                                (1 << 31) - 1 - BASE_TIME]),
               gens.or_code(st.integers(-1000, 9000), gens.code_ints(-10**6, 10**6, 60)))
salt = st.integers(0, 1 << 16)
grow = st.tuples(st.just('grow'), selector, dt, salt)
run = st.tuples(st.just('run'), selector, st.integers(2, 12), dt)
dup = st.tuples(st.just('dup'), selector)
orphan = st.tuples(st.just('orphan'), selector, st.sampled_from(
    ['random', 'prefix', 'misaligned', 'zero', 'pre', 'reverse', 'root prev']), salt)
bad_bits = st.tuples(st.just('badbits'), selector, dt, st.sampled_from(
    ['plus', 'minus', 'limit', 'other', 'zero', 'easier', 'harder', 'max', 'negative', 'parent',
     'beyond', 'noncanonical']), salt)
bad_pow = st.tuples(st.just('badpow'), selector, dt, salt)
of_refused = st.tuples(st.just('ofrefused'), salt)
retry = st.tuples(st.just('retry'), st.integers(0, 50))
collide = st.tuples(st.just('collide'), st.integers(0, len(ref_chain.PAIRS) - 1),
                    st.integers(0, 1))
collide3 = st.tuples(st.just('collide3'), st.integers(0, len(ref_chain.TRIPLES) - 1))
overlap = st.tuples(st.just('overlap'), st.integers(0, len(ref_chain.OVERLAPS) - 1))
rival = st.tuples(st.just('rival'), st.integers(0, 1 << 16), dt, st.booleans())
early = st.tuples(st.just('early'), selector, st.integers(2, 5), st.integers(0, 120), salt)
lookups = st.tuples(st.just('lookups'), st.integers(0, 1 << 30))
reopen = st.tuples(st.just('reopen'))
flush = st.tuples(st.just('flush'))
check_op = st.tuples(st.just('check'))
set_one = st.tuples(st.just('set'), st.one_of(st.integers(0, 30), st.integers(0, 600)), st.
                    sampled_from(['same', 'new', 'new']), salt)
bad_set = st.tuples(st.just('badset'), st.one_of(st.integers(1, 5), st.integers(1, 1 << 40),
                                                 st.integers(-(1 << 33), -1)), salt)


class Session:

    def __init__(self, scene, path, cache=None):
        self.scene = scene
        self.path = path
        self.cls = Headers
        if cache:
            self.cls = type('Headers', (Headers,), {'max_cache_size': cache})
        self.tree = scene.tree()
        self.refused = []
        self.counts = {}
        self.headers = None
        self.open()
        for height, raw in scene.pre.items():
            self.headers.set_one(height, raw)
        self.first = min(scene.pre, default=scene.height)

    def open(self):
        self.headers = None
        self.headers = self.cls.from_file(self.scene.coin, self.path, self.scene.checkpoint)

    def close(self):
        self.headers = None
        if os.path.exists(self.path):
            os.unlink(self.path)

    def note(self, kind):
        self.counts[kind] = self.counts.get(kind, 0) + 1

    # -- Snapshots for "changes nothing" --

    def file_bytes(self):
        with open(self.path, 'rb') as f:
            head = f.read(8)
            f.seek(8 + 80 * self.first)
            return head, f.read(), os.path.getsize(self.path)

    def trace(self):
        h = self.headers
        return (len(h), self.file_bytes(), h.chain_count(),
                [(c.first_height, c.height, c.work, c.tip.hash, c.tip.raw, c.tip.height,
                  c.parent.tip.hash if c.parent else None) for c in h.chains()],
                h.longest_chain().tip.hash)

    # -- Mapping between model and library --

    def chain_of(self, model_chain):
        found = [c for c in self.headers.chains() if c.tip.hash == model_chain.tip.hash]
        check_eq(len(found), 1, f'chains with tip {model_chain.tip.hash.hex()}')
        return found[0]

    def check_header(self, header, node, what):
        self.check_fields(header, node.raw, node.height, what)

    @staticmethod
    def check_fields(header, raw, height, what):
        version, prev, merkle, timestamp, bits, nonce = ref_chain.fields(raw)
        check_eq(bytes(header.raw), raw, f'{what}: raw')
        check_eq(header.hash, ref_chain.dsha(raw), f'{what}: hash')
        check_eq(header.height, height, f'{what}: height')
        check(bytes(header.prev_hash) == prev and bytes(header.merkle_root) == merkle
              and header.version == version and header.timestamp == timestamp
              and header.bits == bits and header.nonce == nonce, f'{what}: fields')

    # -- Connecting --

    def connect(self, raw, what=''):
        '''Connect and judge by the model.  Returns the verdict.'''
        if raw[76] % 8 != 5:
            return self._connect(raw, raw, what)
        # From a buffer that the caller uses again
        buffer = bytearray(raw)
        verdict = self._connect(raw, buffer, what)
        check(buffer == raw, f'{what}: connect changed its argument')
        buffer[:] = bytes(80)
        return verdict

    def _connect(self, raw, given, what):
        verdict, detail = self.tree.judge(raw)
        if ref_chain.dsha(raw) == self.tree.root.hash and verdict == 'missing':
            return 'checkpoint'         # Its previous header lies before the checkpoint
        before = self.trace() if verdict != 'new' else None
        h = self.headers
        if verdict == 'missing':
            raises(MissingHeader, h.connect, given)
        elif verdict == 'bits':
            bits = ref_chain.fields(raw)[4]
            own = ref_work.target(bits)
            if own is not None and ref_chain.value(raw) > own:
                e = raises((IncorrectBits, InsufficientPoW), h.connect, given)
            else:
                e = raises(IncorrectBits, h.connect, given)
            if isinstance(e, IncorrectBits):
                check_eq(e.required_bits, detail, f'{what}: reported required bits')
        elif verdict == 'pow':
            raises(InsufficientPoW, h.connect, given)
        else:
            node = detail if verdict == 'known' else self.tree.add(raw)
            try:
                header, chain = h.connect(given)
            except (MissingHeader, IncorrectBits, InsufficientPoW) as e:
                extra = (f' (requires {e.required_bits:#x})' if isinstance(e, IncorrectBits)
                         else '')
                check(False, f'{what}: {verdict} header at height {node.height} refused with '
                             f'{type(e).__name__}{extra}')
            self.check_header(header, node, f'{what}: connected')
            check(any(chain is c for c in h.chains()), 'the chain is not one of chains()')
            check_eq(chain.tip.hash, node.chain.tip.hash, f'{what}: chain of the header')
            check_eq(chain.first_height, node.chain.first_height, f'{what}: its first height')
            check_eq(chain.height, node.chain.tip.height, f'{what}: its height')
            check_eq(chain.work, node.chain.tip.work, f'{what}: its work')
        if verdict != 'new':
            after = self.trace()
            names = ('len', 'file', 'chain count', 'chains', 'longest')
            for name, a, b in zip(names, before, after):
                check(a == b, f'{what}: {verdict} header changed {name}: {{}} -> {{}}', a, b)
        if verdict in ('missing', 'bits', 'pow'):
            self.refused.append(raw)
        self.note(verdict)
        return verdict

    def select(self, sel):
        nodes = self.tree.nodes
        return nodes[max(sel, -len(nodes))] if sel < 0 else nodes[sel % len(nodes)]

    def child(self, node, delta, salt_, good=True):
        timestamp = min(max(node.timestamp + delta, 0), 0xffffffff)
        bits = self.tree.required(node, timestamp)
        return ref_chain.mine(node.hash, timestamp, bits, salt_, good, VERSIONS[salt_ % 8])

    def wrong_bits(self, node, timestamp, how):
        want = self.tree.required(node, timestamp)
        value = ref_work.target(want)
        bits = {
            'plus': lambda: want + 1,
            'minus': lambda: want - 1,
            'limit': lambda: EASY,
            'other': lambda: self.tree.required(self.tree.nodes[len(self.tree.nodes) // 2],
                                                timestamp),
            'zero': lambda: 0,
            'easier': lambda: ref_work.bits(min(value * 2, (1 << 256) - 1)),
            'harder': lambda: ref_work.bits(value // 2),
            'max': lambda: 0x2100ffff,
            'negative': lambda: want | 0x800000,
            'parent': lambda: node.bits,
            'beyond': lambda: 0x22000001,
            'noncanonical': lambda: ((want >> 24) + 1) << 24 | (want & 0xffffff) >> 8,
        }[how]()
        return bits if bits != want else EASY - 1 if want != EASY - 1 else EASY

    def apply(self, op):
        kind = op[0]
        tree = self.tree
        if kind == 'grow':
            raw = self.child(self.select(op[1]), op[2], op[3])
            if raw:
                self.connect(raw, kind)
        elif kind == 'run':
            node = self.select(op[1])
            for n in range(op[2]):
                raw = self.child(node, op[3], n)
                if raw is None or self.connect(raw, kind) not in ('new', 'known'):
                    break
                node = tree.by_hash[ref_chain.dsha(raw)]
        elif kind == 'dup':
            self.connect(self.select(op[1]).raw, kind)
        elif kind == 'orphan':
            node = self.select(op[1])
            prev = {
                'random': lambda: ref_chain.dsha(b'%d' % op[3]),
                'prefix': lambda: node.hash[:4] + ref_chain.dsha(b'%d' % op[3])[4:],
                'misaligned': lambda: (node.hash[2:4] + self.select(op[1] + 1).hash[:2]
                                       + ref_chain.dsha(b'%d' % op[3])[4:]),
                'zero': lambda: bytes(32),
                'pre': lambda: ref_chain.dsha(next(iter(tree.pre.values()), b'')),
                'reverse': lambda: node.hash[::-1],
                'root prev': lambda: tree.root.prev,
            }[op[2]]()
            self.connect(ref_chain.mine(prev, node.timestamp + 600, EASY, op[3]), kind)
        elif kind == 'badbits':
            node = self.select(op[1])
            timestamp = min(max(node.timestamp + op[2], 0), 0xffffffff)
            bits = self.wrong_bits(node, timestamp, op[3])
            target = ref_work.target(bits)
            if target is None or target < 1 << 244:
                raw = ref_chain.pack(1, node.hash, op[4].to_bytes(32, 'big'), timestamp, bits, 0)
            else:
                raw = ref_chain.mine(node.hash, timestamp, bits, op[4])
            self.connect(raw, f'{kind} {op[3]}')
        elif kind == 'badpow':
            raw = self.child(self.select(op[1]), op[2], op[3], good=False)
            if raw:
                self.connect(raw, kind)
        elif kind == 'ofrefused':
            if self.refused:
                prev = ref_chain.dsha(self.refused[-1])
                timestamp = ref_chain.fields(self.refused[-1])[3]
                self.connect(ref_chain.mine(prev, timestamp, EASY, op[1]), kind)
        elif kind == 'retry':
            if self.refused:
                self.connect(self.refused[op[1] % len(self.refused)], kind)
        elif kind == 'collide':
            if tree.root.hash == ref_chain.dsha(ref_chain.easy_genesis(0)):
                pair = ref_chain.PAIRS[op[1]]
                for nonce in pair[::-1] if op[2] else pair:
                    self.connect(ref_chain.collider(nonce), kind)
        elif kind == 'collide3':
            if tree.root.hash == ref_chain.dsha(ref_chain.easy_genesis(0)):
                for nonce in ref_chain.TRIPLES[op[1]]:
                    self.connect(ref_chain.collider(nonce), kind)
        elif kind == 'overlap':
            if tree.root.hash == ref_chain.dsha(ref_chain.easy_genesis(0)):
                for nonce in ref_chain.OVERLAPS[op[1]]:
                    self.connect(ref_chain.collider(nonce), kind)
        elif kind == 'rival':
            self.rivals(*op[1:])
        elif kind == 'lookups':
            self.check_lookups(op[1])
        elif kind == 'set':
            height = tree.root.height - op[1]
            if height >= 0:
                raw = tree.raw_at(tree.root, height)
                if raw is None or (op[2] == 'new' and op[1]):
                    timestamp = BASE_TIME - 600 * op[1] + op[3] % 1000
                    values = [2, b'\2' * 32, op[3].to_bytes(32, 'big'), timestamp,
                              (EASY, 0x2000ffff)[op[3] % 2], op[3] | 1]
                    # Any field may be zero (the bits would make later rules ill-defined)
                    for n, zero in enumerate((0, bytes(32), bytes(32), 0)):
                        if op[3] % 3 == 0 and op[3] >> n + 2 & 1:
                            values[n] = zero
                    if op[3] & 96 == 96:
                        values[5] = 0
                    raw = ref_chain.pack(*values)
                self.check_around(height)
                self.headers.set_one(height, raw)
                if height < tree.root.height:
                    tree.pre[height] = raw
                    self.first = min(self.first, height)
                self.note('set')
                self.check_around(height)
        elif kind == 'early':
            self.early(*op[1:])
        elif kind == 'badset':
            height = op[1] if op[1] < 0 else tree.root.height + op[1]
            before = self.trace()
            raises(ValueError, self.headers.set_one, height, tree.root.raw)
            check(self.trace() == before, f'refused set_one({height}) changed something')
            self.note('badset')
        elif kind == 'flush':
            self.headers.flush()
        elif kind == 'check':
            self.check_all()
        elif kind == 'reopen':
            self.open()
            self.note('reopen')
            self.check_all()
        else:
            raise AssertionError(kind)

    def check_around(self, height):
        '''What depends on a header that can be set below the checkpoint.'''
        tree, h = self.tree, self.headers
        for mc in {id(c): c for c in tree.chains[:2] + tree.chains[-1:]}.values():
            c, tip = self.chain_of(mc), mc.tip
            for at in range(max(0, height - 1), min(height + 12, tip.height + 1)):
                raw = tree.raw_at(tip, at)
                if raw is None:
                    raises(MissingHeader, h.raw_header_at_height, c, at)
                    raises(MissingHeader, h.header_at_height, c, at)
                else:
                    check_eq(bytes(h.raw_header_at_height(c, at)), raw, f'raw header at {at}')
                    self.check_fields(h.header_at_height(c, at), raw, at, f'header at {at}')
                want = tree.median_time(tip, at)
                if want is not None:
                    check_eq(h.median_time_past(c, at), want, f'median time at {at}')
            timestamp = min(tip.timestamp + 1201, 0xffffffff)
            check_eq(h.required_bits(c, tip.height + 1, timestamp), tree.required(tip, timestamp),
                     'required bits')

    def early(self, selector_, count, order, salt_):
        '''Descendants of a header submitted in another order, then in the right one.'''
        tree = self.tree
        node = self.select(selector_)
        raws = []
        for n in range(count):
            # Grow the model for a moment to know what the next header requires
            raw = self.child(node, 601 + 7 * n, salt_ + n)
            if raw is None or tree.judge(raw)[0] not in ('new', 'known'):
                break
            if ref_chain.dsha(raw) not in tree.by_hash:
                raws.append(raw)
                tree.add(raw)
            node = tree.by_hash[ref_chain.dsha(raw)]
        for raw in reversed(raws):
            tree.forget(raw)
        picks = list(range(len(raws)))
        while picks:
            order, n = divmod(order, len(picks))
            self.connect(raws[picks.pop(n)], 'early')
        for raw in raws:
            self.connect(raw, 'late')
        for raw in raws:
            self.connect(raw, 'again')

    def rivals(self, seed, delta, swap):
        '''Headers of one height and timestamp on two branches, one after the other; first with the
        bits that the other branch requires, if those differ.'''
        levels = {}
        for node in self.tree.nodes:
            levels.setdefault(node.height, []).append(node)
        pairs = [(a, b) for nodes in levels.values() for a in nodes[:6] for b in nodes[:6]
                 if a is not b]
        if not pairs:
            return
        best = None
        for n in range(min(len(pairs), 6)):
            a, b = pairs[(seed + 31 * n) % len(pairs)]
            timestamp = min(max(max(a.timestamp, b.timestamp) + delta, 0), 0xffffffff)
            bits = self.tree.required(a, timestamp), self.tree.required(b, timestamp)
            best = a, b, timestamp, bits
            if bits[0] != bits[1]:
                break
        a, b, timestamp, bits = best
        for node, other in ((a, bits[1]), (b, bits[0])):
            target = ref_work.target(other)
            if swap and target >= 1 << 244:
                self.connect(ref_chain.mine(node.hash, timestamp, other, seed), 'rival bits')
        for node in (a, b):
            raw = self.child(node, timestamp - node.timestamp, seed)
            if raw:
                self.connect(raw, 'rival')
        if bits[0] != bits[1]:
            self.note('rivals')

    # -- Complete comparisons --

    def check_lookups(self, seed):
        '''A few nodes and absent hashes.'''
        nodes = self.tree.nodes
        h = self.headers
        for n in range(3):
            node = nodes[(seed >> 3 * n) % len(nodes)]
            header, chain = h.lookup(node.hash)
            self.check_header(header, node, 'lookup')
            check_eq(chain.tip.hash, node.chain.tip.hash, 'lookup: chain')
        node = nodes[seed % len(nodes)]
        other = nodes[(seed + 1) % len(nodes)]
        noise = ref_chain.dsha(b'%d' % seed)
        for absent in (noise, node.hash[:4] + noise[4:], node.hash[:31] + bytes([
                node.hash[31] ^ 1]), node.hash[::-1], bytes(32), node.hash[1:4] + other.hash[:1]
                + noise[4:], node.hash[2:4] + other.hash[:2] + noise[4:],
                node.hash[3:4] + other.hash[:3] + noise[4:], bytes(4) + noise[4:]):
            if absent not in self.tree.by_hash:
                raises(MissingHeader, h.lookup, absent)

    def check_all(self, pairs=12):
        tree, h = self.tree, self.headers
        check_eq(len(h), tree.root.height + len(tree.nodes), 'number of headers')
        check_eq(h.chain_count(), len(tree.chains), 'number of chains')
        check_eq(len(h.chains()), len(tree.chains), 'number of chains')
        objs = {mc: self.chain_of(mc) for mc in tree.chains}
        root = tree.root.height
        for mc, c in objs.items():
            tip = mc.tip
            self.check_header(c.tip, tip, 'tip')
            check_eq(c.height, tip.height, 'chain height')
            check_eq(c.first_height, mc.first_height, 'first height')
            check_eq(c.work, tip.work, 'chain work')
            check(c.parent is (objs[mc.parent] if mc.parent else None), 'wrong parent chain')
            if tip.work > 1:
                import math
                check(abs(c.log2_work() - math.log(tip.work) / math.log(2)) < 1e-6, 'log2_work')
            # Parent heights
            want, at, height = {}, mc, tip.height
            while at:
                want[objs[at]] = height
                at, height = at.parent, at.first_height - 1
            check_eq(dict(c.parent_heights()), want, 'parent heights')
            for height in (tip.height + 1, tip.height + 2, tip.height + 1000, -1, -5,
                           tip.height + (1 << 33)):
                raises(MissingHeader, h.raw_header_at_height, c, height)
                raises(MissingHeader, h.header_at_height, c, height)
            low = max(0, tree.root.height - 20)
            for height in range(low, tree.root.height):
                raw = tree.pre.get(height)
                if raw is None:
                    raises(MissingHeader, h.raw_header_at_height, c, height)
                else:
                    check_eq(bytes(h.raw_header_at_height(c, height)), raw, 'set header')
                    self.check_fields(h.header_at_height(c, height), raw, height, 'set header')
            for node in tip.path():
                if node.height < mc.first_height - 3 and len(tree.chains) > 3 \
                        and node is not tree.root:
                    continue
                check_eq(bytes(h.raw_header_at_height(c, node.height)), node.raw, 'raw at height')
                self.check_header(h.header_at_height(c, node.height), node, 'at height')
            for height in {tree.root.height, mc.first_height, mc.first_height - 1, tip.height,
                           tip.height - 1, (tree.root.height + tip.height) // 2}:
                if height >= tree.root.height:
                    check_eq(h.chainwork_to_height(c, height), tree.at(tip, height).work,
                             f'chainwork to height {height} of {tip.height}')
                want = tree.median_time(tip, height) if 0 <= height else None
                if want is not None:
                    check_eq(h.median_time_past(c, height), want, f'median time at {height}')
            for low, high in ((root, tip.height), (mc.first_height - 1, tip.height),
                              (mc.first_height, mc.first_height), (root, mc.first_height),
                              (root + 1, (root + tip.height) // 2)):
                low = max(low, root)
                if low <= high <= tip.height:
                    check_eq(h.chainwork_range(c, low + 1, high + 1),
                             tree.at(tip, high).work - tree.at(tip, low).work,
                             f'work of the range {low + 1} to {high + 1}')
            timestamp = min(tip.timestamp + 1201, 0xffffffff)
            check_eq(h.required_bits(c, tip.height + 1, timestamp), tree.required(tip, timestamp),
                     'required bits')
        for node in tree.nodes:
            header, chain = h.lookup(node.hash)
            self.check_header(header, node, 'lookup')
            check(chain is objs[node.chain], 'lookup: wrong chain')
        longest = h.longest_chain()
        check(any(longest is c for c in objs.values()), 'longest chain is unknown')
        # Of equals, max() returns the first, and so must the library: a rival that has merely
        # caught up does not take over
        most = max(tree.chains, key=lambda mc: mc.tip.work)
        check_eq(longest.work, most.tip.work, 'most work')
        check(longest is objs[most], 'longest chain is not the first of those with most work')
        chains = tree.chains
        count = 0
        for i in range(len(chains)):
            for j in range(len(chains)):
                if count > pairs and (i + 7 * j) % len(chains):
                    continue
                count += 1
                a, b = chains[i], chains[j]
                c, height = objs[a].common_chain_and_height(objs[b])
                node = tree.common(a.tip, b.tip)
                check_eq(height, node.height, 'common height')
                check(c is objs[node.chain], 'common chain')
        self.check_lookups(len(tree.nodes) * 7919)

    def check_file(self):
        '''The documented layout.'''
        with open(self.path, 'rb') as f:
            preamble = f.read(8)
            count = self.tree.root.height + len(self.tree.nodes)
            check_eq(preamble, (8).to_bytes(2, 'little') + bytes(2) + count.to_bytes(4, 'little'),
                     'preamble')
            low = max(0, self.first - 5)
            f.seek(8 + 80 * low)
            for height in range(low, self.tree.root.height):
                check_eq(f.read(80), self.tree.pre.get(height, bytes(80)),
                         f'header {height} of the file')
            for node in self.tree.nodes:
                check_eq(f.read(80), node.raw, 'header of the file')

    def copy(self, path):
        shutil.copyfile(self.path, path)
