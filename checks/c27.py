import os
import shutil

from hypothesis import strategies as st

from bitcoinx import Headers
from vlib import chain_session as cs
from vlib import gens, ref_chain
from vlib.core import Check, check, check_eq

C = Check('C27', rule=(
    'Histories of connects, refusals, headers set at and below the checkpoint and refused settings '
    'above it, closed and reopened at random points and compared with the model each time, the '
    'file read by a reference parser; also over the growth step of the file; damaged, foreign, '
    'missing and too short files. Non-trivial: a reopening with connected or set headers.'))

op = gens.weighted((6, cs.grow), (2, cs.run), (1, cs.dup), (1, cs.orphan), (1, cs.bad_bits),
                   (1, cs.bad_pow), (2, cs.set_one), (1, cs.bad_set), (4, cs.reopen),
                   (1, cs.flush), (1, cs.early))


def new_path(T):
    T.store['n'] = T.store.get('n', 0) + 1
    return os.path.join(T.scratch(), f'h{T.store["n"]}')


def run(spec, ops, T, cache=None):
    session = cs.Session(cs.Scene(spec), new_path(T), cache)
    other = new_path(T)
    try:
        for o in ops:
            session.apply(o)
            if o[0] == 'reopen':
                session.check_file()
        session.check_all()
        session.check_file()
        # A copy of the file, while the original is in use
        session.copy(other)
        copy = cs.Session.__new__(cs.Session)
        copy.__dict__.update(session.__dict__)
        copy.path = other
        copy.headers = None
        copy.open()
        copy.check_all()
        check_eq([c.tip.hash for c in copy.headers.chains()],
                 [c.tip.hash for c in session.headers.chains()], 'order of the chains')
        # Both continue alike
        for sel in (-1, 0, 2):
            raw = session.child(session.select(sel), 601, 4242)
            if raw is None or session.tree.judge(raw)[0] != 'new':
                continue
            header, chain = copy.headers.connect(raw)
            session.connect(raw, 'continued')
            header2, chain2 = session.headers.lookup(header.hash)
            check_eq((header.height, chain.height, chain.work, chain.first_height),
                     (header2.height, chain2.height, chain2.work, chain2.first_height),
                     'continuing')
        copy.check_all()
        copy.check_file()
        copy.close()
        if len(session.tree.nodes) > 1:
            T.nontrivial()
        for kind, n in session.counts.items():
            T.labels[kind] += n
    finally:
        session.close()
        if os.path.exists(other):
            os.unlink(other)


def _fixed(tier):
    for spec in ((0, 0, 1, [], [], 0), (0, 1, 2, [(5, 600)], [(5, cs.EASY)], 9),
                 (0, 300, 15, [(30, 600)], [(30, cs.EASY)], 1 << 80),
                 (0, 504031, 180, [(200, 600)], [(200, 0x2000ffff)], 5)):
        yield spec, [('reopen',)] * 3
        yield spec, [('run', -1, 12, 600), ('reopen',), ('grow', 3, 600, 1), ('reopen',),
                     ('run', 3, 4, 900), ('grow', 0, 600, 9), ('reopen',), ('run', -1, 3, 600)]
        for back in (0, 1, 2, 14, 15, 16, 299, 300):
            yield spec, [('set', back, 'new', 5), ('reopen',), ('grow', -1, 600, 1),
                         ('set', back, 'new', 6), ('reopen',), ('set', back, 'same', 6)]
        for ahead in (1, 2, 3, 100, 1 << 31, 1 << 32, -1, -2, -100, -(1 << 31)):
            yield spec, [('badset', ahead, 1), ('grow', -1, 600, 1), ('badset', ahead, 1),
                         ('reopen',), ('badset', ahead, 1)]


@C.test(st.tuples(cs.light_scene, st.lists(op, min_size=1, max_size=25)), quick=1600, shards=8,
        enum=_fixed)
def histories(case, T):
    spec, ops = case
    run(spec, ops, T)


@C.test(st.tuples(st.one_of(cs.retarget_scene, cs.testnet_scene),
                  st.lists(op, min_size=1, max_size=12)), quick=200, shards=8)
def rule_changes(case, T):
    spec, ops = case
    run(spec, ops, T)


@C.test(st.tuples(st.lists(gens.weighted((3, cs.collide), (3, cs.collide3), (3, cs.grow),
                                         (2, cs.reopen), (1, cs.dup)), min_size=1, max_size=20),
                  st.sampled_from([None, 1, 2, 5])), quick=400, shards=4)
def colliding_hashes(case, T):
    ops, cache = case
    run((0, 0, 1, [], [], 0), ops, T, cache)


def _long(tier):
    base = [(4990, 3), (2500, 30)] if tier == 'quick' else [(4990, 3), (2500, 30), (4998, 0),
                                                            (4999, 1), (9990, 20), (5000, 5)]
    for count, extra in base:
        yield count, extra


@C.test(enum=_long, shards=4)
def growth(case, T):
    count, extra = case
    ops = [('run', -1, count, 600), ('reopen',)]
    ops += [('grow', (n * 531) % count, 600 + n, n) for n in range(extra)]
    ops += [('run', -1, 20, 600), ('reopen',), ('grow', -1, 600, 2), ('grow', 5, 600, 2)]
    run((0, 0, 1, [], [], 0), ops, T)


@C.test(enum=lambda tier: [1050] if tier == 'quick' else [980, 1050, 1500])
def nested_chains(levels, T):
    '''Chains nested beyond Python's recursion limit are read back.'''
    session = cs.Session(cs.Scene((0, 0, 1, [], [], 0)), new_path(T))
    try:
        session.apply(('grow', 0, 600, 3))
        session.apply(('grow', -1, 600, 4))
        for _ in range(levels):
            session.apply(('grow', -2, 600, 1))
            session.apply(('grow', -1, 600, 2))
        session.apply(('reopen',))
        session.apply(('grow', -2, 600, 1))
        session.check_file()
        T.nontrivial()
    finally:
        session.close()


damage = st.one_of(
    st.tuples(st.just('absent'), st.just(0)), st.tuples(st.just('empty'), st.just(0)),
    st.tuples(st.just('cut'), st.integers(0, 1 << 20)),
    st.tuples(st.just('cut'), st.integers(0, 100)),
    st.tuples(st.just('cut end'), st.integers(1, 80)),
    st.tuples(st.just('version'), st.integers(1, 65535)),
    st.tuples(st.just('version'), st.sampled_from([1, 2, 255, 256, 0x8000])),
    st.tuples(st.just('checkpoint'), st.integers(0, 79)),
    st.tuples(st.just('other'), st.integers(1, 500)),
    st.tuples(st.just('unset'), st.integers(0, 1)))


def _damages(tier):
    ops = [('run', -1, 4, 600), ('grow', 1, 600, 3)]
    for spec in ((0, 0, 1, [], [], 0), (0, 30, 31, [(40, 600)], [(40, cs.EASY)], 9)):
        for history in ([], ops):
            for n in range(0, 200 if spec[1] == 0 else 30):
                yield spec, history, ('cut', n)
            for n in range(1, 81):
                yield spec, history, ('cut end', n)
            for n in (1, 2, 3, 255, 256, 257, 65535):
                yield spec, history, ('version', n)
            for n in range(80):
                yield spec, history, ('checkpoint', n)
            for kind in ('absent', 'empty', 'unset'):
                yield spec, history, (kind, 0)
            for n in (1, 2, 5, 6, 100):
                yield spec, history, ('other', n)


small_scene = st.one_of(cs.genesis_scene, cs.low_scene, cs.holes_scene)


@C.test(st.tuples(small_scene, st.lists(op, max_size=8), damage), quick=1200, shards=4,
        enum=_damages)
def replaced_files(case, T):
    spec, ops, (kind, n) = case
    scene = cs.Scene(spec)
    path = new_path(T)
    session = cs.Session(scene, path)
    fresh = None
    try:
        for o in ops:
            session.apply(o)
        session.headers = None
        needed = 8 + 80 * (scene.height + 1)
        checkpoint, height = scene.raw, scene.height
        if kind == 'absent':
            os.unlink(path)
        elif kind == 'empty':
            os.truncate(path, 0)
        elif kind == 'cut':
            os.truncate(path, n % needed)
        elif kind == 'cut end':
            os.truncate(path, needed - n)
        elif kind == 'version':
            with open(path, 'rb+') as f:
                f.seek(2)
                f.write(n.to_bytes(2, 'little'))
        elif kind == 'checkpoint':
            # The file is for another checkpoint of the same height
            checkpoint = bytearray(checkpoint)
            checkpoint[n] ^= 1
            if 72 <= n < 76:
                checkpoint[72:76] = (0x2000ffff).to_bytes(4, 'little')
                checkpoint[76] ^= 1     # the bits may be what they were
            checkpoint = bytes(checkpoint)
        elif kind == 'other':
            # The file is for another checkpoint of a greater height
            height += n
            checkpoint = ref_chain.mine(b'\5' * 32, cs.BASE_TIME + n, cs.EASY, n)
        elif kind == 'unset':
            with open(path, 'rb+') as f:
                f.seek(needed - 80)
                f.write(bytes(80))
        new = cs.Scene((0, 0, 1, [], [], scene.prev_work))
        new.raw, new.height = checkpoint, height
        from bitcoinx import CheckPoint
        new.checkpoint = CheckPoint(checkpoint, height, scene.prev_work)
        fresh = cs.Session(new, path)
        fresh.check_all()
        check_eq(os.path.getsize(path), 8 + 80 * (height + 1), 'size of the fresh file')
        with open(path, 'rb') as f:
            data = f.read()
        want = (8).to_bytes(2, 'little') + bytes(2) + (height + 1).to_bytes(4, 'little')
        check_eq(data, want + bytes(80 * height) + checkpoint, 'fresh file')
        for o in (('grow', -1, 600, 1), ('grow', 0, 600, 2), ('reopen',), ('grow', 1, 600, 3)):
            fresh.apply(o)
        fresh.check_all()
        fresh.check_file()
        T.label(kind)
        T.nontrivial()
    finally:
        session.close()
        if fresh:
            fresh.close()
