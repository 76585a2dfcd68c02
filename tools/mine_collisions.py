'''Finds the nonces of vlib/ref_chain.py's COLLISIONS: children of one easy genesis header whose
hashes share their first four bytes, or contain them across two neighbours.'''

import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import ref_chain, ref_work   # noqa: E402

BITS = 0x200fffff
genesis = ref_chain.pack(1, bytes(32), bytes(32), 1231006505, BITS, 0)
prefix = ref_chain.pack(1, ref_chain.dsha(genesis), bytes(32), 1231007105, BITS, 0)[:76]
limit = ref_work.target(BITS)
by_prefix = {}
pairs = []
for nonce in range(1 << 22):
    h = ref_chain.dsha(prefix + nonce.to_bytes(4, 'little'))
    if int.from_bytes(h, 'little') > limit:
        continue
    if h[:4] in by_prefix:
        pairs.append((by_prefix[h[:4]], nonce))
    else:
        by_prefix[h[:4]] = nonce
print('pairs', pairs[:6])
triples = []
seen = list(by_prefix)
for j in (1, 2, 3):
    found = 0
    heads = {}
    for p in seen:
        heads.setdefault(p[:j], []).append(p)
    tails = {}
    for p in seen:
        tails.setdefault(p[j:], []).append(p)
    # X = A[j:] + B[:j]
    for x in seen:
        for a in tails.get(x[:4 - j], [])[:50]:
            for b in heads.get(x[4 - j:], [])[:50]:
                if len({a, b, x}) == 3:
                    triples.append((by_prefix[a], by_prefix[b], by_prefix[x]))
                    found += 1
                    break
            else:
                continue
            break
        if found >= 3:
            break
print('triples', triples)
