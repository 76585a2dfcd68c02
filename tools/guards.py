'''Rare-trigger campaign (development aid, no check uses it).

  guards.py OUT.jsonl WORKERS REPETITIONS SEED [FILE...]

Like mutate.py, but a mutant is a function whose answer is spoilt only in a rare case: an argument
or the answer of one size, bit length, residue, first or last byte, with many equal bytes ...; or
the n-th call, a repeated call, a call after a failed one.  'fired' says whether it ever happened.
'''
import ast, json, multiprocessing, os, random, shutil, sys

import mutate

CHECKS = mutate.CHECKS
TAIL = '''

def _gw(f, conds):
    import functools
    state = {'n': 0, 'last': None, 'err': False}
    def hit(x):
        kind, (ik, bk, lk, k) = conds
        if isinstance(x, bool):
            return False
        if isinstance(x, int):
            return {'mod': lambda: x % 1009 == k, 'bits': lambda: x.bit_length() == k % 257, 'eq': lambda: x == k, 'low': lambda: x > 0 and x & 0xfff == 0}[ik]()
        if isinstance(x, (bytes, bytearray, memoryview, str)):
            b = x.encode(errors='replace') if isinstance(x, str) else bytes(x)
            return {'eq': lambda: len(b) == k, 'last': lambda: len(b) > 0 and b[-1] == k % 256, 'two': lambda: len(b) > 1 and b[0] == k % 256 and b[1] & 15 == k // 256,
                    'count': lambda: len(b) >= 8 and b.count(b[k % 8]) >= 5, 'big': lambda: len(b) > 1000 + k * 30, 'zeros': lambda: len(b) >= 4 and b[:2] == bytes(2) or b[-2:] == bytes(2)}[bk]()
        if isinstance(x, (list, tuple)):
            return {'eq': lambda: len(x) == k % 40, 'big': lambda: len(x) > 100 + k, 'same': lambda: len(x) > 1 and x[0] == x[-1]}[lk]()
        if hasattr(type(x), '__bytes__') or hasattr(type(x), 'to_bytes'):
            try:
                return hit(bytes(x) if hasattr(type(x), '__bytes__') else x.to_bytes())
            except Exception:
                return False
        return False
    def perturb(r, depth=0):
        if isinstance(r, bool):
            return not r
        if isinstance(r, int):
            return type(r)(r + 1)
        if isinstance(r, (bytes, bytearray)):
            return r[:-1] + bytes([r[-1] ^ 1]) if r else type(r)(bytes(1))
        if isinstance(r, str):
            return r[:-1] + ('0' if r[-1] != '0' else '1') if r else 'x'
        if isinstance(r, tuple) and type(r) is tuple and r:
            return (perturb(r[0]),) + r[1:]
        if isinstance(r, list) and r:
            return r[:-1]
        raise ValueError('guard')
    @functools.wraps(f)
    def w(*a, **kw):
        state['n'] += 1
        kind, (_, _, _, k) = conds
        key = None
        if kind == 'repeat':
            try:
                key = hash(a)
            except TypeError:
                key = None
        try:
            r = f(*a, **kw)
        except Exception:
            err, state['err'] = state['err'], True
            raise
        err, state['err'] = state['err'], False
        if kind == 'nth':
            yes = state['n'] == 20 + k
        elif kind == 'repeat':
            yes = key is not None and key == state['last']
            state['last'] = key
        elif kind == 'aftererr':
            yes = err
        elif kind == 'result':
            yes = isinstance(r, (bytes, str, int)) and not isinstance(r, bool) and (r % 509 == k if isinstance(r, int) else len(r) > 0 and (ord(r[-1]) if isinstance(r, str) else r[-1]) == k % 256)
        else:
            yes = any(hit(x) for x in list(a) + list(kw.values()) + [r])
        if yes:
            open('/repo/.fired', 'a').close()
        return perturb(r) if yes else r
    return w
'''
KINDS = ['value'] * 10 + ['nth', 'repeat', 'aftererr', 'result']

def work(args):
    number, name, m = args
    ident = multiprocessing.current_process()._identity[0]
    fired = f'/tmp/mutate.{ident}/repo/.fired'
    if os.path.exists(fired):
        os.unlink(fired)
    main = CHECKS[name].split()[:3]
    if m[1] in ('nth', 'repeat', 'aftererr'):
        main = main[:1] + ['C32']
    fn = m[2]
    for pat, checks in OVER:
        if pat in fn:
            main = checks.split() + (['C32'] if m[1] in ('nth', 'repeat', 'aftererr') else [])
            break
    mutate.CHECKS[name] = ' '.join(main)
    shutil.rmtree(f'/tmp/mutate.{ident}/x', ignore_errors=True)
    try:
        r = mutate.work(args)
    finally:
        mutate.CHECKS[name] = ALL[name]
    r['fired'] = os.path.exists(fired)
    return r

OVER = [('crypt_message', 'C16'), ('sign_message', 'C15'), ('verify_message', 'C15'), ('PrivateKey.sign', 'C14'),
 ('verify_der', 'C14'), ('verify_recov', 'C14'), ('from_recov', 'C14'), ('from_signed', 'C15'), ('secret', 'C13'), ('.add', 'C13 C18'), ('.multiply', 'C13'), ('combine', 'C13'),
 ('.complement', 'C12 C13'), ('_message_hash', 'C14 C15'), ('_normalize_message', 'C15'), ('ElectrumMnemonic', 'C22'), ('BIP39', 'C21'), ('Wordlists', 'C21 C22'), ('to_address', 'C12 C08'),
 ('P2PK', 'C11 C12 C29'), ('MultiSig', 'C11 C29'), ('OP_RETURN', 'C11 C29'), ('to_json', 'C04'), ('signature_hash', 'C02'), ('_hash_', 'C02'), ('locktime_d', 'C04'), ('is_final', 'C03'), ('are_inputs', 'C03'), ('is_coinbase', 'C03 C04'), ('total_out', 'C03'),
 ('chain_string', 'C20'), ('validate_deriv', 'C20'), ('extended_key', 'C19'), ('asm', 'C10'), ('template', 'C11'), ('classify', 'C11 C04'), ('SigHash', 'C31 C10'), ('message_signature', 'C15'), ('to_recoverable_signature', 'C15'), ('required_bits', 'C24'), ('_HeaderStorage', 'C27 C28'), ('set_one', 'C27'),
 ('bits_to_diff', 'C23'), ('WIF', 'C12'), ('xver', 'C19'), ('to_work', 'C23'), ('hash160', 'C12 C08 C11')]
ALL = dict(CHECKS)

def mutants(name, rng):
    text = open(f'/repo/bitcoinx/{name}', encoding='utf-8').read()
    tree = ast.parse(text)
    out = []
    def isgen(fn):
        return any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(fn))
    def add(target, fn, deco, own):
        kind = rng.choice(KINDS)
        k = rng.choice([rng.randrange(300), rng.randrange(40), rng.randrange(4)])
        conds = repr((kind, (rng.choice(['mod', 'bits', 'eq', 'low']), rng.choice(['eq', 'eq', 'last', 'two', 'count', 'big', 'zeros']), rng.choice(['eq', 'big', 'same']), k)))
        if own is None:
            line = f'{target} = _gw({target}, {conds})\n'
        elif deco in ('classmethod', 'staticmethod'):
            line = f'{own}.{target} = {deco}(_gw({own}.__dict__[{target!r}].__func__, {conds}))\n'
        else:
            line = f'{own}.{target} = _gw({own}.{target}, {conds})\n'
        out.append((fn.lineno, kind, (own or '') + '.' + target, conds, text + TAIL + line))
    for node in tree.body:
        if isinstance(node, ast.FunctionDef) and not isgen(node) and not node.decorator_list:
            add(node.name, node, None, None)
        elif isinstance(node, ast.ClassDef):
            for fn in node.body:
                if isinstance(fn, ast.FunctionDef) and not isgen(fn):
                    decos = [getattr(d, 'id', '?') for d in fn.decorator_list]
                    if fn.name in ('__init__', '__repr__', '__new__') or any(d not in ('classmethod', 'staticmethod') for d in decos):
                        continue
                    add(fn.name, fn, decos[0] if decos else None, node.name)
    return out

def main():
    out, workers, reps, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    names = sys.argv[5:] or [n for n in sorted(CHECKS) if n not in ('consts.py',)]
    jobs = []
    for name in names:
        for r in range(reps):
            rng = random.Random(f'{seed}{name}{r}')
            jobs += [(1000 * r + i, name, m) for i, m in enumerate(mutants(name, rng))]
    random.Random(seed).shuffle(jobs)
    done = set()
    if os.path.exists(out):
        done = {(r['file'], r['n']) for r in map(json.loads, open(out))}
    jobs = [j for j in jobs if (j[1], j[0]) not in done]
    print(len(jobs), 'mutants', flush=True)
    with multiprocessing.Pool(workers) as pool, open(out, 'a') as f:
        for result in pool.imap_unordered(work, jobs):
            f.write(json.dumps(result) + '\n')
            f.flush()
    for n in range(1, workers + 1):
        shutil.rmtree(f'/tmp/mutate.{n}', ignore_errors=True)
if __name__ == '__main__':
    main()
