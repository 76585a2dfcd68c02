'''Reference compact bits, work, and required difficulty (from the node software's rules).'''

MAX_BITS = 0x2100ffff


def target(bits):
    '''The target of canonical bits, or None.'''
    if bits == 0:
        return 0
    if not 0 <= bits <= MAX_BITS:
        return None
    mantissa, exponent = bits % (1 << 24), bits >> 24
    if not 0x8000 <= mantissa <= 0x7fffff:
        return None
    if exponent >= 3:
        return mantissa * 256 ** (exponent - 3)
    value, rest = divmod(mantissa, 256 ** (3 - exponent))
    return None if rest else value


def bits(value):
    '''Canonical bits of the greatest representable target not exceeding value.'''
    if not 0 <= value < 1 << 256:
        return None
    if value == 0:
        return 0
    best = (0, 0)
    for exponent in range(1, 34):
        if exponent >= 3:
            mantissa = min(value // 256 ** (exponent - 3), 0x7fffff)
            result = mantissa * 256 ** (exponent - 3)
        else:
            unit = 256 ** (3 - exponent)
            mantissa = min(value, 0x7fffff // unit) * unit
            result = mantissa // unit
        if mantissa >= 0x8000 and result > best[0]:
            best = (result, exponent << 24 | mantissa)
    return best[1]


def work(value):
    return (1 << 256) // (value + 1)


# The rules.  anc(h) -> (timestamp, bits) of the ancestor at height h.

SWITCH = {1: 1188697, 2: 2200, 3: 1188697}


def median_time(anc, height):
    times = sorted(anc(h)[0] for h in range(max(0, height - 10), height + 1))
    return times[len(times) // 2]


def retarget(limit_bits, height, anc):
    if height % 2016:
        return anc(height - 1)[1]
    span = anc(height - 1)[0] - anc(height - 2016)[0]
    fortnight = 14 * 24 * 60 * 60
    span = max(fortnight // 4, min(fortnight * 4, span))
    new = target(anc(height - 1)[1]) * span // fortnight
    return bits(min(new, target(limit_bits)))


def emergency(limit_bits, height, anc):
    result = retarget(limit_bits, height, anc)
    if height % 2016:
        if median_time(anc, height - 1) - median_time(anc, height - 7) >= 12 * 60 * 60:
            value = target(result)
            result = bits(min(value + value // 4, target(limit_bits)))
    return result


def suitable(anc, height):
    '''Height of the median-time block of the three up to height, as the sorting network of the
    node software picks it.'''
    b = [height - 2, height - 1, height]
    t = [anc(h)[0] for h in b]
    order = [0, 1, 2]
    for i, j in ((0, 2), (0, 1), (1, 2)):
        if t[order[i]] > t[order[j]]:
            order[i], order[j] = order[j], order[i]
    return b[order[1]]


def daa(limit_bits, height, anc):
    last = suitable(anc, height - 1)
    first = suitable(anc, height - 145)
    total = sum(work(target(anc(h)[1])) for h in range(first + 1, last + 1))
    span = anc(last)[0] - anc(first)[0]
    span = max(72 * 600, min(288 * 600, span))
    projected = total * 600 // span
    new = ((1 << 256) - projected) // projected
    return bits(min(new, target(limit_bits)))


def required(net, limit_bits, height, anc, timestamp):
    '''net: 0 mainnet, 1 testnet, 2 scaling testnet, 3 regtest.'''
    if net == 0:
        if height < 478558:
            return retarget(limit_bits, height, anc)
        if height <= 504031:
            return emergency(limit_bits, height, anc)
        return daa(limit_bits, height, anc)
    late = timestamp > anc(height - 1)[0] + 1200
    if height > SWITCH[net]:
        if late and net != 2:
            return limit_bits
        return daa(limit_bits, height, anc)
    if height % 2016 == 0:
        return retarget(limit_bits, height, anc)
    if late:
        return limit_bits
    h = height - 1
    while h % 2016 and anc(h)[1] == limit_bits:
        h -= 1
    return anc(h)[1]
