'''Conversions between plain data and the library's objects.'''

import bitcoinx
from bitcoinx import Script, Tx, TxInput, TxOutput


def make_input(i):
    return TxInput(i[0], i[1], Script(i[2]), i[3])


def make_output(o):
    return TxOutput(o[0], Script(o[1]))


def make_tx(t):
    return Tx(t[0], [make_input(i) for i in t[1]], [make_output(o) for o in t[2]], t[3])


def make_shared_tx(t):
    '''A transaction whose equal inputs, outputs and scripts are the same objects.'''
    made = {}

    def once(make, plain):
        key = (make, plain)
        if key not in made:
            made[key] = make(plain)
        return made[key]
    inputs = [once(make_input, tuple(i)) for i in t[1]]
    outputs = [once(make_output, tuple(o)) for o in t[2]]
    scripts = {}
    for i in inputs:
        i.script_sig = scripts.setdefault(bytes(i.script_sig), i.script_sig)
    for o in outputs:
        o.script_pubkey = scripts.setdefault(bytes(o.script_pubkey), o.script_pubkey)
    return Tx(t[0], inputs, outputs, t[3])


def plain_input(i):
    return (bytes(i.prev_hash), i.prev_idx, bytes(i.script_sig), i.sequence)


def plain_output(o):
    return (o.value, bytes(o.script_pubkey))


def plain_tx(t):
    return (t.version, [plain_input(i) for i in t.inputs], [plain_output(o) for o in t.outputs],
            t.locktime)


def norm_tx(t):
    '''A plain tx with the container types of plain_tx.'''
    return (t[0], [tuple(i) for i in t[1]], [tuple(o) for o in t[2]], t[3])


def coin(n):
    return bitcoinx.all_coins[n]
