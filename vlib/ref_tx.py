'''Reference transaction codec and BIP143 signature hash.

A transaction is (version, [(prev_hash, prev_idx, script, sequence)], [(value, script)], locktime).
'''

from vlib.ref_hash import dsha


def le(value, size, signed=False):
    return value.to_bytes(size, 'little', signed=signed)


def varint(n):
    if n < 0xfd:
        return le(n, 1)
    if n < 1 << 16:
        return b'\xfd' + le(n, 2)
    if n < 1 << 32:
        return b'\xfe' + le(n, 4)
    return b'\xff' + le(n, 8)


def ser_in(i):
    return i[0] + le(i[1], 4) + varint(len(i[2])) + i[2] + le(i[3], 4)


def ser_out(o):
    return le(o[0], 8, True) + varint(len(o[1])) + o[1]


def ser(tx):
    version, ins, outs, locktime = tx
    return b''.join([le(version, 4, True), varint(len(ins)), *map(ser_in, ins),
                     varint(len(outs)), *map(ser_out, outs), le(locktime, 4)])


class Short(Exception):
    pass


class Reader:

    def __init__(self, data):
        self.data = data
        self.pos = 0

    def take(self, n):
        if n > len(self.data) - self.pos:
            raise Short
        result = self.data[self.pos:self.pos + n]
        self.pos += n
        return result

    def int(self, n, signed=False):
        return int.from_bytes(self.take(n), 'little', signed=signed)

    def varint(self):
        n = self.int(1)
        return n if n < 0xfd else self.int({0xfd: 2, 0xfe: 4, 0xff: 8}[n])

    def varbytes(self):
        return self.take(self.varint())


def parse(data):
    '''(tx, bytes consumed) or None if short.'''
    r = Reader(data)
    try:
        version = r.int(4, True)
        ins = []
        for _ in range(r.varint()):
            ins.append((r.take(32), r.int(4), r.varbytes(), r.int(4)))
        outs = []
        for _ in range(r.varint()):
            outs.append((r.int(8, True), r.varbytes()))
        return (version, ins, outs, r.int(4)), r.pos
    except Short:
        return None


def sighash_preimage(tx, index, value, script, flags):
    version, ins, outs, locktime = tx
    zero = bytes(32)
    base = flags & 0x1f
    acp = flags & 0x80
    h1 = zero if acp else dsha(b''.join(i[0] + le(i[1], 4) for i in ins))
    h2 = zero if acp or base in (2, 3) else dsha(b''.join(le(i[3], 4) for i in ins))
    if base not in (2, 3):
        h3 = dsha(b''.join(ser_out(o) for o in outs))
    elif base == 3 and index < len(outs):
        h3 = dsha(ser_out(outs[index]))
    else:
        h3 = zero
    i = ins[index]
    return b''.join([le(version, 4, True), h1, h2, i[0] + le(i[1], 4), varint(len(script)), script,
                     le(value, 8, True), le(i[3], 4), h3, le(locktime, 4), le(flags, 4)])


def sighash(*args):
    return dsha(sighash_preimage(*args))
