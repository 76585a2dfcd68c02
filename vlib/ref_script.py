'''Reference script grammar, ASM and output classification.

Opcode names are taken from the protocol's table below, not from the code.'''

from vlib import ref_ec

NAMES = {
    0x00: 'OP_0', 0x4c: 'OP_PUSHDATA1', 0x4d: 'OP_PUSHDATA2', 0x4e: 'OP_PUSHDATA4',
    0x4f: 'OP_1NEGATE', 0x50: 'OP_RESERVED',
    **{0x50 + n: f'OP_{n}' for n in range(1, 17)},
}
_seq = '''OP_NOP OP_VER OP_IF OP_NOTIF OP_VERIF OP_VERNOTIF OP_ELSE OP_ENDIF OP_VERIFY OP_RETURN
OP_TOALTSTACK OP_FROMALTSTACK OP_2DROP OP_2DUP OP_3DUP OP_2OVER OP_2ROT OP_2SWAP OP_IFDUP OP_DEPTH
OP_DROP OP_DUP OP_NIP OP_OVER OP_PICK OP_ROLL OP_ROT OP_SWAP OP_TUCK OP_CAT OP_SPLIT OP_NUM2BIN
OP_BIN2NUM OP_SIZE OP_INVERT OP_AND OP_OR OP_XOR OP_EQUAL OP_EQUALVERIFY OP_RESERVED1 OP_RESERVED2
OP_1ADD OP_1SUB OP_2MUL OP_2DIV OP_NEGATE OP_ABS OP_NOT OP_0NOTEQUAL OP_ADD OP_SUB OP_MUL OP_DIV
OP_MOD OP_LSHIFT OP_RSHIFT OP_BOOLAND OP_BOOLOR OP_NUMEQUAL OP_NUMEQUALVERIFY OP_NUMNOTEQUAL
OP_LESSTHAN OP_GREATERTHAN OP_LESSTHANOREQUAL OP_GREATERTHANOREQUAL OP_MIN OP_MAX OP_WITHIN
OP_RIPEMD160 OP_SHA1 OP_SHA256 OP_HASH160 OP_HASH256 OP_CODESEPARATOR OP_CHECKSIG
OP_CHECKSIGVERIFY OP_CHECKMULTISIG OP_CHECKMULTISIGVERIFY OP_NOP1 OP_CHECKLOCKTIMEVERIFY
OP_CHECKSEQUENCEVERIFY OP_NOP4 OP_NOP5 OP_NOP6 OP_NOP7 OP_NOP8 OP_NOP9 OP_NOP10'''.split()
NAMES.update({0x61 + n: name for n, name in enumerate(_seq)})
ALIASES = {'OP_FALSE': 0, 'OP_TRUE': 0x51, 'OP_NOP2': 0xb1, 'OP_NOP3': 0xb2}
CODES = {**{name: code for code, name in NAMES.items()}, **ALIASES}
# Operations that are not pushes and have names
OPCODES = [code for code in NAMES if code > 0x60 or code == 0x50]


def parse(script):
    '''([items], truncated).  Items are bytes (pushed data) or int (opcode).'''
    items = []
    n = 0
    end = len(script)
    while n < end:
        op = script[n]
        n += 1
        if op <= 0x4e:
            width = {0x4c: 1, 0x4d: 2, 0x4e: 4}.get(op, 0)
            if n + width > end:
                return items, True
            size = int.from_bytes(script[n:n + width], 'little') if width else op
            n += width
            if n + size > end:
                return items, True
            items.append(script[n:n + size])
            n += size
        elif op == 0x4f:
            items.append(b'\x81')
        elif 0x51 <= op <= 0x60:
            items.append(bytes([op - 0x50]))
        else:
            items.append(op)
    return items, False


def push(data):
    '''The shortest push of data.'''
    n = len(data)
    if n == 0:
        return b'\0'
    if n == 1 and 1 <= data[0] <= 16:
        return bytes([0x50 + data[0]])
    if data == b'\x81':
        return b'\x4f'
    if n <= 75:
        return bytes([n]) + data
    if n <= 255:
        return b'\x4c' + bytes([n]) + data
    if n <= 65535:
        return b'\x4d' + n.to_bytes(2, 'little') + data
    return b'\x4e' + n.to_bytes(4, 'little') + data


def num_encode(value):
    '''Minimal sign-magnitude little-endian.'''
    if value == 0:
        return b''
    size = (abs(value).bit_length() + 8) // 8       # with room for the sign bit
    data = bytearray(abs(value).to_bytes(size, 'little'))
    if value < 0:
        data[-1] |= 0x80
    return bytes(data)


def num_decode(data):
    if not data:
        return 0
    value = int.from_bytes(data, 'little')
    sign = 1 << (8 * len(data) - 1)
    return -(value - sign) if value & sign else value


def sighash_text(byte):
    kinds = [name for flag, name in ((1, 'ALL'), (2, 'NONE'), (3, 'SINGLE')) if byte & 3 == flag]
    if byte & 0x80:
        kinds.append('ANYONE_CAN_PAY')
    if byte & 0x40:
        kinds.append('FORKID')
    rest = byte & 0x3c
    if rest:
        kinds.append('0x%02x' % rest)
    return '|'.join(kinds)


def asm_word(item, sighash):
    if isinstance(item, bytes):
        if len(item) <= 4:
            return '%d' % num_decode(item)
        if (sighash and 9 <= len(item) <= 73 and ref_ec.parse_der(item[:-1]) is not None):
            return item[:-1].hex() + '[' + sighash_text(item[-1]) + ']'
        return item.hex()
    if item in NAMES:
        return NAMES[item]
    return 'OP_INVALIDOPCODE' if item == 0xff else 'OP_UNKNOWN'


def asm(script, sighash):
    items, truncated = parse(script)
    if truncated:
        return '[error]'
    return ' '.join(asm_word(item, sighash) for item in items)


def from_asm_word(word):
    '''bytes or None if not valid ASM.'''
    if word.startswith('OP_'):
        return bytes([CODES[word]]) if word in CODES else None
    digits = word[1:] if word[0] == '-' else word
    if digits and all(c in '0123456789' for c in digits):
        if len(digits) < 10 or (len(digits) == 10 and digits[0] != '0'):
            value = 0
            for c in digits:
                value = value * 10 + ord(c) - 48
            if value <= 0x7fffffff:
                return push(num_encode(-value if word[0] == '-' else value))
    if len(word) % 2 or any(c not in '0123456789abcdefABCDEF' for c in word):
        return None
    return push(bytes(int(word[n:n + 2], 16) for n in range(0, len(word), 2)))


def ambiguous_asm(data):
    '''A 5-byte push whose hex reads as a ten-digit number in script range.'''
    text = data.hex()
    return (len(data) == 5 and all(c in '0123456789' for c in text) and text[0] != '0'
            and int(text) <= 0x7fffffff)


def strip(items):
    '''Drop operations with no effect.'''
    out = []
    for item in items:
        if item == 0x61 and not isinstance(item, bytes):
            continue
        if item == 0x75 and out and isinstance(out[-1], bytes):
            out = out[:-1]
            continue
        if (item == 0x6d and len(out) >= 2 and isinstance(out[-1], bytes)
                and isinstance(out[-2], bytes)):
            out = out[:-2]
            continue
        out.append(item)
    return out


def classify(script):
    '''('P2PKH', hash), ('P2SH', hash), ('P2PK', key bytes), ('MULTISIG', m, [key bytes]),
    ('OP_RETURN',) or ('UNKNOWN',).'''
    items, truncated = parse(script)
    ops = strip(items)
    is_push = [isinstance(i, bytes) for i in ops]
    # Data pushes (any number) then OP_RETURN, whatever follows - truncation included
    n = 0
    while n < len(ops) and is_push[n]:
        n += 1
    if n < len(ops) and ops[n] == 0x6a:
        return ('OP_RETURN',)
    if truncated:
        return ('UNKNOWN',)
    shape = ['*' if p else i for p, i in zip(is_push, ops)]
    if shape == [0x76, 0xa9, '*', 0x88, 0xac] and len(ops[2]) == 20:
        return ('P2PKH', ops[2])
    if shape == [0xa9, '*', 0x87] and len(ops[1]) == 20:
        return ('P2SH', ops[1])
    if shape == ['*', 0xac] and ref_ec.parse(ops[0]) is not None:
        return ('P2PK', ops[0])
    if len(shape) >= 4 and shape[-1] == 0xae and all(is_push[:-1]):
        keys = ops[1:-2]
        m, count = num_decode(ops[0]), num_decode(ops[-2])
        if (count == len(keys) and 1 <= m <= count
                and all(ref_ec.parse(k) is not None for k in keys)):
            return ('MULTISIG', m, list(keys))
    return ('UNKNOWN',)
