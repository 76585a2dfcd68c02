from hypothesis import strategies as st

from bitcoinx import Tx
from vlib import gens
from vlib.core import Check, check_eq
from vlib.util import make_shared_tx, make_tx, norm_tx, plain_tx

C = Check('C03', rule=(
    'Transactions with lock times, heights, times and sequences at and around the 500,000,000 '
    'threshold, equality and the sequence maximum, judged by a direct statement of the rules; null '
    'outpoints in any position and near-null outpoints. Non-trivial: lock time not zero and at '
    'least one input (finality), at least one null or near-null outpoint (coinbase).'))

T_ = 500_000_000
_lock = st.one_of(st.sampled_from([0, 1, 2, T_ - 2, T_ - 1, T_, T_ + 1, T_ + 2, 0xfffffffe,
                                   0xffffffff, 0x7fffffff, 0x80000000]),
                  gens.uint32, st.integers(0, 1000), st.integers(T_, T_ + 1000))
_seq = st.sampled_from([0xffffffff] * 4 + [0xfffffffe, 0, 1, 0x7fffffff, 0xfffffffd])


@C.test(st.tuples(_lock, st.lists(st.one_of(_seq, gens.uint32), max_size=5),
                  st.one_of(st.sampled_from(['lock', 'lock+1', 'lock-1']), gens.uint32,
                            st.integers(0, 2000)),
                  st.one_of(st.sampled_from(['lock', 'lock+1', 'lock-1']), gens.uint32)),
        quick=6000, shards=4, examples=[
            (T_, [0], T_ + 1, T_), (T_, [0], 1, T_ + 1), (T_ - 1, [0], T_, 0),
            (T_ - 1, [0], T_ - 1, 2**32 - 1), (5, [], 5, 5), (0, [0], 0, 0)])
def finality(case, T):
    lock, seqs, height, time = case

    def resolve(v):
        if isinstance(v, str):
            return max(0, lock + {'lock': 0, 'lock+1': 1, 'lock-1': -1}[v])
        return v
    height, time = resolve(height), resolve(time)
    t = (1, [(bytes([1]) * 32, n, b'', seq) for n, seq in enumerate(seqs)], [(1, b'')], lock)
    for tx in (make_tx(t), Tx.from_bytes(make_tx(t).to_bytes()), make_shared_tx(t)):
        inputs_final = not [s for s in seqs if s != 0xffffffff]
        check_eq([i.is_final() for i in tx.inputs], [s == 0xffffffff for s in seqs], 'is_final')
        check_eq(tx.are_inputs_final(), inputs_final, 'are_inputs_final')
        if lock == 0:
            want = True
        elif lock < T_ and lock < height:
            want = True
        elif lock >= T_ and lock < time:
            want = True
        else:
            want = inputs_final
        check_eq(tx.is_final_for_block(height, time), want, 'is_final_for_block')
    T.label('final' if want else 'not final', 'height' if lock < T_ else 'time',
            'inputs final' if inputs_final else 'inputs not final')
    if lock and seqs:
        T.nontrivial()


_hash = st.one_of(st.just(bytes(32)), st.just(bytes(31) + b'\1'), st.just(b'\1' + bytes(31)),
                  st.binary(min_size=32, max_size=32), st.integers(0, 255).map(
                      lambda n: (1 << n).to_bytes(32, 'little')))
_idx = st.one_of(st.just(0xffffffff), st.sampled_from([0, 1, 0xfffffffe, 0x7fffffff]), gens.uint32)


_in = st.tuples(_hash, _idx, gens.small_script, gens.uint32)
_out = gens.tx_output(gens.small_script)


@C.test(st.tuples(st.one_of(st.lists(_in, max_size=4), gens.repeating(_in)),
                  st.one_of(st.lists(_out, max_size=6), gens.repeating(_out)), gens.int32,
                  gens.uint32),
        quick=5000, shards=4, examples=[
            ([], [], 1, 0), ([(bytes(32), 0xffffffff, b'', 0)] * 2, [], 1, 0),
            ([(bytes(32), 0xffffffff, b'', 0)], [(5, b'')] * 3, 1, 0)])
def coinbase_and_totals(case, T):
    ins, outs, version, lock = case
    t = norm_tx((version, ins, outs, lock))
    for tx in (make_tx(t), Tx.from_bytes(make_tx(t).to_bytes()), make_shared_tx(t)):
        nulls = [i[0] == bytes(32) and i[1] == 0xffffffff for i in ins]
        check_eq([bool(i.is_coinbase()) for i in tx.inputs], nulls, 'TxInput.is_coinbase')
        check_eq(bool(tx.is_coinbase()), nulls == [True], 'Tx.is_coinbase')
        total = 0
        for o in outs:
            total += o[0]
        check_eq(tx.total_output_value(), total, 'total_output_value')
        check_eq(tx.is_final_for_block(1, 1) in (True, False), True, 'final query')
        check_eq(plain_tx(tx), t, 'queries altered the tx')
    if ins and outs:
        # After changes to the parts
        tx = make_shared_tx(t)
        tx.total_output_value(), tx.is_coinbase(), tx.are_inputs_final()
        tx.outputs[-1].value += 1
        tx.inputs[0].sequence ^= 1
        tx.inputs[0].prev_idx ^= 1
        tx.outputs.append(tx.outputs[0])
        t2 = plain_tx(tx)
        check_eq(tx.total_output_value(), sum(o[0] for o in t2[2]), 'total after changes')
        nulls2 = [i[0] == bytes(32) and i[1] == 0xffffffff for i in t2[1]]
        check_eq(bool(tx.is_coinbase()), nulls2 == [True], 'is_coinbase after changes')
        check_eq(tx.are_inputs_final(), all(i[3] == 0xffffffff for i in t2[1]), 'final after')
    T.label(f'inputs={min(len(ins), 2)}', 'null' if any(nulls) else 'no null')
    if any(i[0] == bytes(32) or i[1] == 0xffffffff for i in ins):
        T.nontrivial()


def _enum_counts(tier):
    sizes = list(range(0, 301)) + [999, 1000, 1001, 4096, 65_535, 65_536]
    for n in sizes:
        spots = range(n) if n <= 40 else sorted({0, 1, 2, n // 2, 252, 253, n - 2, n - 1} & set(range(n)))
        yield n, None
        for spot in spots:
            yield n, spot


@C.test(enum=_enum_counts, shards=4)
def every_count(case, T):
    '''Any number of inputs and outputs, with none or one of them out of the ordinary.'''
    n, spot = case
    for special in ((0xfffffffe, 0) if spot is not None else (0xffffffff, )):
        seqs = [0xffffffff if k != spot else special for k in range(n)]
        lock = (5, T_ + 5)[n % 2]
        ins = [(k.to_bytes(32, 'big'), 0xffffffff if k else 0, b'', s) for k, s in enumerate(seqs)]
        outs = [((1 << 50) + k * 1009 if k != spot else -(1 << 60) - k, b'') for k in range(n)]
        tx = make_tx((1, ins, outs, lock))
        check_eq(tx.are_inputs_final(), spot is None, 'are_inputs_final')
        check_eq([i.is_final() for i in tx.inputs], [k != spot for k in range(n)], 'is_final')
        for delta in (0, 1):
            check_eq(tx.is_final_for_block(5 + delta, T_ + 5 + delta), spot is None or delta == 1,
                     'is_final_for_block')
        check_eq(tx.total_output_value(), sum(o[0] for o in outs), 'total_output_value')
        # A null outpoint among others
        ins = [(bytes(32), 0xffffffff if k == spot else k, b'', 0) for k in range(n)]
        tx = make_tx((1, ins, [], 0))
        check_eq([bool(i.is_coinbase()) for i in tx.inputs], [k == spot for k in range(n)],
                 'TxInput.is_coinbase')
        check_eq(bool(tx.is_coinbase()), n == 1 and spot == 0, 'Tx.is_coinbase')
        tx = make_tx((1, [(bytes(32), 0xffffffff, b'', 0)] * n, [], 0))
        check_eq(bool(tx.is_coinbase()), n == 1, 'Tx.is_coinbase')
    if n:
        T.nontrivial()
