'''Headers: building and mining them, easy coins, and the reference model of a block tree.'''

import hashlib
import struct

from vlib import ref_work

NETS = ('mainnet', 'testnet', 'scaling', 'regtest')
_header = struct.Struct('<i32s32sIII')


def dsha(data):
    return hashlib.sha256(hashlib.sha256(data).digest()).digest()


def pack(version, prev, merkle, timestamp, bits, nonce):
    return _header.pack((version + (1 << 31)) % (1 << 32) - (1 << 31), prev, merkle, timestamp & 0xffffffff, bits, nonce)


def fields(raw):
    return _header.unpack(raw)


def value(raw):
    return int.from_bytes(dsha(raw), 'little')


def mine(prev, timestamp, bits, salt=0, good=True, version=1):
    '''A header whose hash meets its target, or (good=False) does not.  salt makes it distinct.
    None if that is too hard.'''
    merkle = dsha(salt.to_bytes(8, 'big')) if salt % 3 == 2 else salt.to_bytes(32, 'big')
    limit = ref_work.target(bits)
    if limit is None:
        limit = 0
    prefix = pack(version, prev, merkle, timestamp, bits, 0)[:76]
    for nonce in range(200000):
        raw = prefix + nonce.to_bytes(4, 'little')
        if (value(raw) <= limit) == good:
            return raw
    return None


_coins = {}


def easy_coin(net, limit_bits):
    '''A coin with the rules of the network net and an easy difficulty limit.'''
    key = net, limit_bits
    if key not in _coins:
        import bitcoinx
        base = bitcoinx.all_coins[net]
        genesis = pack(1, bytes(32), bytes(32), 1231006505, limit_bits, net)
        _coins[key] = bitcoinx.coin.Coin(
            f'easy {net}', genesis.hex(), base.required_bits, base.P2PKH_verbyte,
            base.P2SH_verbyte, base.WIF_byte, base.xpub_verbytes, base.xprv_verbytes,
            base.cashaddr_prefix)
    return _coins[key]


def window(height, base, ts_segments, bits_segments, tweaks=(), bits_tweaks=(), forces=(),
           count=2060):
    '''(first height, [(timestamp, bits)]) of the headers below height.

    tweaks: (heights back, timestamp change); bits_tweaks: (heights back, bits);
    forces: (a, b, span): the timestamp a back is that b back plus span.
    '''
    count = min(count, height)
    times, all_bits = [], []
    t = base
    while len(times) < count:
        for n, step in ts_segments:
            for _ in range(n):
                t += step
                times.append(t)
    while len(all_bits) < count:
        for n, bits in bits_segments:
            all_bits.extend([bits] * n)
    # The segments describe the newest headers first
    times = [2 * base - v for v in times[:count]][::-1]
    shift = base - times[0] if times else 0
    times = [v + shift for v in times]
    all_bits = all_bits[:count][::-1]
    for back, change in tweaks:
        if 1 <= back <= count:
            times[count - back] += change
    for a, b, span in forces:
        if 1 <= a <= count and 1 <= b <= count:
            times[count - a] = times[count - b] + span
    for back, bits in bits_tweaks:
        if 1 <= back <= count:
            all_bits[count - back] = bits
    times = [min(max(v, 0), 0xffffffff) for v in times]
    return height - count, list(zip(times, all_bits))


def raw_window(first, values):
    '''Linked raw headers with the given (timestamp, bits).'''
    prev = bytes(32) if not first else b'\x11' * 32
    result = []
    for n, (timestamp, bits) in enumerate(values):
        raw = pack(0x20000000 if n % 7 == 6 else 1, prev, bytes(32), timestamp, bits, 0)
        result.append(raw)
        prev = dsha(raw)
    return result


# Nonces of headers on the easy mainnet genesis whose hashes share their first four bytes, and
# triples (A, B, X) where the first four bytes of X appear across the first four of A and B.
# From tools/mine_collisions.py.
EASY_BITS = 0x200fffff
PAIRS = [(951218, 2128178), (123922, 2507831), (379736, 2671076), (1668042, 2821905),
         (1344623, 3174580), (2897226, 3973836)]
TRIPLES = [(1409864, 408, 516), (3468292, 4383, 1378), (1076182, 3106, 2116),
           (3199289, 994314, 25), (339514, 2364236, 34), (101712, 993927, 77),
           (9600, 997964, 1230), (5257, 549674, 1254), (11205, 1989782, 1782)]
# (a, b): stored one after the other, the first bytes of b also occur across the end of a's
OVERLAPS = [(204234, 867442), (265497, 1363225), (23884, 1633365), (2678131, 4242997),
            (15267171, 76465), (16370932, 161203), (1265445, 182817)]


def easy_genesis(net, limit_bits=EASY_BITS):
    return pack(1, bytes(32), bytes(32), 1231006505, limit_bits, net)


def collider(nonce):
    return pack(1, dsha(easy_genesis(0)), bytes(32), 1231007105, EASY_BITS, nonce)


class ModelChain:

    def __init__(self, parent, first_height):
        self.parent = parent
        self.first_height = first_height
        self.tip = None


class Node:

    def __init__(self, raw, parent, height, work):
        self.raw = raw
        self.hash = dsha(raw)
        self.parent = parent
        self.height = height
        _v, self.prev, self.merkle, self.timestamp, self.bits, self.nonce = fields(raw)
        self.work = work
        self.chain = None

    def path(self, stop=None):
        node = self
        while node is not stop:
            yield node
            node = node.parent


class Tree:
    '''The block tree: what the headers object must mirror.'''

    def __init__(self, net, limit_bits, cp_raw, cp_height, prev_work, pre):
        self.net = net
        self.limit_bits = limit_bits
        self.pre = dict(pre)             # headers set below the checkpoint
        root = Node(cp_raw, None, cp_height,
                    prev_work + ref_work.work(ref_work.target(fields(cp_raw)[4])))
        self.prev_work = prev_work
        self.root = root
        self.nodes = [root]
        self.by_hash = {root.hash: root}
        root.chain = ModelChain(None, cp_height)
        root.chain.tip = root
        self.chains = [root.chain]

    def at(self, node, height):
        '''The ancestor of node at height (at or above the checkpoint).'''
        while node.height > height:
            node = node.parent
        return node

    def raw_at(self, node, height):
        '''The raw header at a height of node's branch, or None.'''
        if height > node.height or height < 0:
            return None
        if height >= self.root.height:
            return self.at(node, height).raw
        return self.pre.get(height)

    def ancestry(self, node):
        recent = {}
        state = [node]

        def anc(height):
            while height not in recent and state[0] is not None:
                n = state[0]
                recent[n.height] = (n.timestamp, n.bits)
                state[0] = n.parent
            if height not in recent:
                recent[height] = fields(self.pre[height])[3:5]
            return recent[height]
        return anc

    def required(self, node, timestamp):
        return ref_work.required(self.net, self.limit_bits, node.height + 1, self.ancestry(node),
                                 timestamp)

    def judge(self, raw):
        '''('missing',), ('bits', required), ('pow', required), ('known', node), ('new', parent).'''
        _v, prev, _m, timestamp, bits, _n = fields(raw)
        parent = self.by_hash.get(prev)
        if parent is None:
            return 'missing', None
        known = self.by_hash.get(dsha(raw))
        if known is not None:
            return 'known', known
        required = self.required(parent, timestamp)
        if bits != required:
            return 'bits', required
        if value(raw) > ref_work.target(bits):
            return 'pow', required
        return 'new', parent

    def add(self, raw):
        parent = self.by_hash[fields(raw)[1]]
        node = Node(raw, parent, parent.height + 1, 0)
        node.work = parent.work + ref_work.work(ref_work.target(node.bits))
        if parent.chain.tip is parent:
            node.chain = parent.chain
        else:
            node.chain = ModelChain(parent.chain, node.height)
            self.chains.append(node.chain)
        node.chain.tip = node
        self.nodes.append(node)
        self.by_hash[node.hash] = node
        return node

    def forget(self, raw):
        '''Undo the latest add().'''
        node = self.nodes.pop()
        assert node.raw == raw
        del self.by_hash[node.hash]
        if node.chain.first_height == node.height:
            self.chains.remove(node.chain)
        else:
            node.chain.tip = node.parent

    def first_of(self, chain):
        return self.at(chain.tip, chain.first_height)

    def common(self, a, b):
        '''The last common ancestor of two nodes.'''
        seen = {n for n in a.path()}
        for n in b.path():
            if n in seen:
                return n
        return None

    def median_time(self, node, height):
        '''None if it depends on headers that were never set.'''
        times = []
        for h in range(max(0, height - 10), height + 1):
            raw = self.raw_at(node, h)
            if raw is None:
                return None
            times.append(fields(raw)[3])
        return sorted(times)[len(times) // 2]
