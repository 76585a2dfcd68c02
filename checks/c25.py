import os

from hypothesis import strategies as st

from vlib import gens, ref_chain
from vlib import chain_session as cs
from vlib.core import Check, check

C = Check('C25', rule=(
    'Histories of connects on easy copies of all networks (at genesis, across retarget, emergency '
    'and 144-block rules): good children anywhere in the tree, duplicates, orphans incl. hash '
    'look-alikes, wrong bits of many kinds, insufficient work, children and retries of refused '
    'headers, rival headers of one height and time on branches with other '
    'bits. Each outcome decided by a model; refusals compared byte for byte. Non-trivial: a '
    'history with a refusal and an acceptance.'))

op = gens.weighted((6, cs.grow), (1, cs.run), (2, cs.dup), (2, cs.orphan), (4, cs.bad_bits),
                   (2, cs.bad_pow), (1, cs.of_refused), (2, cs.retry), (2, cs.rival), (2, cs.early))


def run(case, T, cache=None):
    spec, ops = case
    T.store['n'] = T.store.get('n', 0) + 1
    session = cs.Session(cs.Scene(spec), os.path.join(T.scratch(), f'h{T.store["n"]}'), cache)
    try:
        for o in ops:
            session.apply(o)
        session.check_all()
    finally:
        session.close()
        counts = session.counts
        for kind, n in counts.items():
            T.labels[kind] += n
    if 'new' in counts and any(k in counts for k in ('bits', 'pow', 'missing')):
        T.nontrivial()


def _exhaustive(tier):
    '''Every kind of refusal right at the checkpoint and on a fork.'''
    hows = ['plus', 'minus', 'limit', 'other', 'zero', 'easier', 'harder', 'max', 'negative',
            'parent', 'beyond', 'noncanonical']
    scenes = [(n, 0, 1, [], [], 0) for n in range(4)] + [
        (0, 504031, 180, [(200, 600)], [(200, 0x2000ffff)], 5),
        (0, 504032, 180, [(3, 100), (200, 700)], [(200, 0x2000ffff)], 5),
        (0, 478559, 40, [(40, 7300)], [(40, 0x2000ffff)], 1 << 70),
        (2, 2200, 190, [(200, 600)], [(200, 0x2000ffff)], 0),
        (2, 2201, 190, [(200, 650)], [(200, 0x2000ffff)], 0),
        (1, 1188698, 180, [(200, 600)], [(200, 0x2000ffff)], 0),
        (0, 2014, 2040, [(2040, 500)], [(2040, 0x2000ffff)], 0),
        (1, 2013, 2040, [(2040, 700)], [(3, cs.EASY), (2040, 0x2000ffff)], 0)]
    for spec in scenes:
        for how in hows:
            yield spec, [('grow', -1, 600, 1), ('badbits', -1, 600, how, 1),
                         ('badbits', 0, 1300, how, 2), ('grow', -1, 600, 2), ('grow', 0, 600, 3),
                         ('badbits', 0, 600, how, 4), ('badbits', -1, 600, how, 5),
                         ('ofrefused', 1), ('retry', 0), ('dup', 1), ('dup', -1)]
        for delta in (600, 1201, 0, 7300):
            for seed in (1, 2):
                for swap in (False, True):
                    yield spec, [('grow', -1, 600, 1), ('grow', 0, 1300, 2), ('grow', 0, -900, 3),
                                 ('rival', seed, delta, swap), ('rival', seed + 1, delta, swap),
                                 ('run', 1, 4, 100), ('run', 2, 4, 1300), ('run', 3, 4, 5000)] + [
                                     ('rival', seed + 100 * n, delta, swap) for n in range(6)]
        for order in range(24):
            yield spec, [('early', 0, 4, order, 1), ('grow', 0, 600, 1), ('early', 0, 3, order, 99),
                         ('early', -1, 2, order, 7)]
        for how in ('random', 'prefix', 'misaligned', 'zero', 'pre', 'reverse', 'root prev'):
            yield spec, [('orphan', -1, how, 1), ('grow', -1, 600, 1), ('badpow', -1, 600, 1),
                         ('badpow', 0, 600, 2), ('orphan', -1, how, 2), ('retry', 1),
                         ('grow', 0, 601, 7), ('orphan', 1, how, 3), ('dup', 1), ('dup', 0)]


@C.test(st.tuples(cs.light_scene, st.lists(op, min_size=1, max_size=25)), quick=4000, shards=8,
        enum=_exhaustive)
def histories(case, T):
    run(case, T)


@C.test(st.tuples(st.one_of(cs.retarget_scene, cs.testnet_scene),
                  st.lists(op, min_size=1, max_size=15)), quick=600, shards=8)
def rule_changes(case, T):
    run(case, T)


@C.test(st.tuples(cs.light_scene, st.lists(op, min_size=1, max_size=25), st.integers(1, 5)),
        quick=600, shards=4)
def small_caches(case, T):
    spec, ops, cache = case
    run((spec, ops), T, cache)
