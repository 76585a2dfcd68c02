'''Mutation campaign (development aid, no check uses it).

  mutate.py list FILE                      count the mutants of bitcoinx/FILE
  mutate.py run OUT.jsonl WORKERS FRACTION SEED [FILE...]

Every mutant is put in a copy of /repo that a private mount namespace shows as /repo (and a copy of
/verif as /verif).  Mutants that the existing tests catch are dropped; on the others the checks
for the file run until one reports a violation.
'''
import ast
import json
import multiprocessing
import os
import random
import shutil
import subprocess
import sys
import time

CHECKS = {
    'address.py': 'C08 C11 C07 C29 C04 C12 C15',
    'aes.py': 'C17 C16',
    'base58.py': 'C06 C08 C12 C19',
    'bip32.py': 'C18 C19 C20 C29 C12',
    'cashaddr.py': 'C07 C08',
    'chain.py': 'C26 C27 C25 C28 C24',
    'coin.py': 'C30 C24 C08 C12 C19 C26 C07',
    'consts.py': 'C03 C15 C05 C26',
    'hashes.py': 'C30 C06',
    'keys.py': 'C12 C13 C14 C15 C16 C29 C08',
    'misc.py': 'C05 C21 C22 C18 C12 C31 C13',
    'mnemonic.py': 'C21 C22',
    'packing.py': 'C05 C01 C19 C27 C30',
    'script.py': 'C09 C10 C11 C04 C02 C29',
    'signature.py': 'C31 C14 C15 C10 C29',
    'tx.py': 'C01 C02 C03 C04',
    'util.py': 'C05 C26 C15 C08',
    'work.py': 'C23 C24 C25',
}
COMPARE = {ast.Lt: ['<=', '>'], ast.LtE: ['<', '>='], ast.Gt: ['>=', '<'], ast.GtE: ['>', '<='],
           ast.Eq: ['!='], ast.NotEq: ['=='], ast.In: ['not in'], ast.NotIn: ['in'],
           ast.Is: ['is not'], ast.IsNot: ['is']}
BINOP = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['+'], ast.FloorDiv: ['*'], ast.Div: ['*'],
         ast.LShift: ['>>'], ast.RShift: ['<<'], ast.BitAnd: ['|'], ast.BitOr: ['&', '^'],
         ast.Mod: ['*'], ast.BitXor: ['|'], ast.Pow: ['*']}


class Source:

    def __init__(self, path):
        self.text = open(path, encoding='utf-8').read()
        self.tree = ast.parse(self.text)
        self.starts = [0]
        for line in self.text.encode().splitlines(keepends=True):
            self.starts.append(self.starts[-1] + len(line))
        self.raw = self.text.encode()
        self.out = []

    def span(self, node):
        return (self.starts[node.lineno - 1] + node.col_offset,
                self.starts[node.end_lineno - 1] + node.end_col_offset)

    def seg(self, node):
        a, b = self.span(node)
        return self.raw[a:b].decode()

    def put(self, node, new, what):
        a, b = self.span(node)
        self.edit(a, b, new, what, node.lineno)

    def edit(self, a, b, new, what, line):
        raw = self.raw[:a] + new.encode() + self.raw[b:]
        if raw != self.raw:
            self.out.append((line, what, self.raw[a:b].decode(), new, raw.decode()))

    def docstrings(self):
        for node in ast.walk(self.tree):
            if isinstance(node, (ast.Module, ast.ClassDef, ast.FunctionDef)):
                if (node.body and isinstance(node.body[0], ast.Expr)
                        and isinstance(node.body[0].value, ast.Constant)):
                    yield node.body[0].value

    def mutants(self):
        skip = set(map(id, self.docstrings()))
        for node in ast.walk(self.tree):
            if isinstance(node, (ast.JoinedStr, ast.Raise)):
                for sub in ast.walk(node):
                    skip.add(id(sub))
        for node in ast.walk(self.tree):
            if isinstance(node, ast.Assign) and any(
                    isinstance(t, ast.Name) and t.id == '__all__' for t in node.targets):
                for sub in ast.walk(node):
                    skip.add(id(sub))
        for node in ast.walk(self.tree):
            if id(node) in skip and not isinstance(node, ast.Raise):
                continue
            self.visit(node)
        return self.out

    def visit(self, node):
        if isinstance(node, ast.Compare):
            left = node.left
            for op, right in zip(node.ops, node.comparators):
                a, b = self.span(left)[1], self.span(right)[0]
                gap = self.raw[a:b].decode()
                for new in COMPARE.get(type(op), []):
                    if '(' not in gap and ')' not in gap:
                        self.edit(a, b, f' {new} ', 'compare', node.lineno)
                left = right
        elif isinstance(node, ast.BinOp):
            a, b = self.span(node.left)[1], self.span(node.right)[0]
            gap = self.raw[a:b].decode()
            if '(' not in gap and ')' not in gap:
                for new in BINOP.get(type(node.op), []):
                    self.edit(a, b, f' {new} ', 'binop', node.lineno)
        elif isinstance(node, ast.AugAssign):
            a, b = self.span(node.target)[1], self.span(node.value)[0]
            for new in BINOP.get(type(node.op), []):
                self.edit(a, b, f' {new}= ', 'augassign', node.lineno)
        elif isinstance(node, ast.BoolOp):
            for i, value in enumerate(node.values):
                rest = [v for j, v in enumerate(node.values) if j != i]
                joined = (' and ' if isinstance(node.op, ast.And) else ' or ').join(
                    f'({self.seg(v)})' for v in rest)
                self.put(node, f'({joined})', 'drop operand')
            other = ' or ' if isinstance(node.op, ast.And) else ' and '
            self.put(node, '(' + other.join(f'({self.seg(v)})' for v in node.values) + ')', 'boolop')
        elif isinstance(node, ast.UnaryOp):
            if isinstance(node.op, (ast.Not, ast.USub, ast.Invert)):
                self.put(node, f'({self.seg(node.operand)})', 'unary')
        elif isinstance(node, ast.Constant):
            v = node.value
            if v is True or v is False:
                self.put(node, str(not v), 'bool')
            elif isinstance(v, int):
                self.put(node, str(v + 1), 'int+1')
                self.put(node, str(v - 1), 'int-1')
                if v > 2:
                    self.put(node, str(v * 2), 'int*2')
            elif isinstance(v, (bytes, str)) and v and len(v) < 30:
                self.put(node, repr(v[:-1]), 'const cut')
                if v:
                    self.put(node, repr(v[:-1] + (b'~' if isinstance(v, bytes) else '~')),
                             'const edit')
        elif isinstance(node, (ast.If, ast.While, ast.IfExp)):
            self.put(node.test, f'(not ({self.seg(node.test)}))', 'negate')
            if not isinstance(node, ast.While):
                self.put(node.test, 'True', 'always')
            self.put(node.test, 'False', 'never')
        elif isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Assert)):
            self.put(node, 'pass', 'delete')
        elif isinstance(node, ast.Return) and node.value is not None:
            self.put(node.value, 'None', 'return None')
            if not isinstance(node.value, ast.Constant):
                self.put(node, 'pass', 'no return')
        elif isinstance(node, ast.Call):
            if len(node.args) >= 2 and not any(isinstance(a, ast.Starred) for a in node.args):
                for i in range(len(node.args) - 1):
                    x, y = node.args[i], node.args[i + 1]
                    a, b = self.span(x)[0], self.span(y)[1]
                    gap = self.raw[self.span(x)[1]:self.span(y)[0]].decode()
                    self.edit(a, b, self.seg(y) + gap + self.seg(x), 'swap', node.lineno)
            if len(node.args) == 1 and not node.keywords and not isinstance(
                    node.args[0], (ast.Starred, ast.GeneratorExp)):
                self.put(node, f'({self.seg(node.args[0])})', 'unwrap')
            if isinstance(node.func, ast.Attribute) and not node.args:
                self.put(node, f'({self.seg(node.func.value)})', 'drop method')
            for kw in node.keywords:
                if kw.arg and len(node.keywords) + len(node.args) > 1:
                    a, b = self.span(kw)
                    before = self.raw[:a].rstrip()
                    if before.endswith(b','):
                        self.edit(len(before) - 1, b, '', 'drop keyword', node.lineno)
        elif isinstance(node, ast.Slice):
            if node.lower is not None:
                self.put(node.lower, f'({self.seg(node.lower)}) + 1', 'slice+1')
            if node.upper is not None:
                self.put(node.upper, f'({self.seg(node.upper)}) - 1', 'slice-1')
        elif isinstance(node, ast.ExceptHandler):
            if node.type is not None:
                self.put(node.type, 'ZeroDivisionError', 'except none')
                if isinstance(node.type, ast.Tuple):
                    for el in node.type.elts:
                        self.put(node.type, self.seg(el), 'except one')
        elif isinstance(node, ast.FunctionDef):
            for deco in node.decorator_list:
                if isinstance(deco, ast.Name) and deco.id in ('lru_cache', 'cachedproperty'):
                    self.put(deco, 'property' if 'prop' in deco.id else '(lambda f: f)', 'deco')
        elif isinstance(node, (ast.Break, ast.Continue)):
            self.put(node, 'pass', 'no jump')


def mutants(name):
    return Source(f'/repo/bitcoinx/{name}').mutants()


def inside(dirs, cmd, timeout, **env):
    '''Run cmd where the copies are shown as /repo and /verif.'''
    repo, verif = dirs
    full = ['unshare', '-m', 'bash', '-c',
            f'mount --bind {repo} /repo && mount --bind {verif} /verif && cd /repo && '
            f'exec timeout -k 5 {timeout} {cmd}']
    return subprocess.run(full, capture_output=True, text=True, env={**os.environ, **env})


def work(args):
    number, name, (line, what, old, new, text) = args
    ident = multiprocessing.current_process()._identity[0]
    base = f'/tmp/mutate.{ident}'
    repo, verif = f'{base}/repo', f'{base}/verif'
    if not os.path.exists(base):
        os.makedirs(base)
        shutil.copytree('/repo', repo)
        shutil.copytree('/verif', verif, ignore=shutil.ignore_patterns('replays', '.hypothesis'))
        os.makedirs(verif + '/replays', exist_ok=True)
    target = f'{repo}/bitcoinx/{name}'
    original = open(target, encoding='utf-8').read()
    result = dict(n=number, file=name, line=line, what=what, old=old, new=new)
    try:
        try:
            compile(text, name, 'exec')
        except SyntaxError:
            return {**result, 'status': 'syntax'}
        with open(target, 'w', encoding='utf-8') as f:
            f.write(text)
        first = f'tests/test_{name}'
        tests = first if os.path.exists(f'/repo/{first}') else ''
        env = dict(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONPATH='/opt/vp/plugins',
                   PYTEST_DISABLE_PLUGIN_AUTOLOAD='1', TZ='UTC')
        for which in filter(None, (tests, 'tests')):
            run = inside((repo, verif), f'/opt/venv/bin/python -m pytest -q -x -p fixed_random -p '
                         f'pytest_timeout -p no:cacheprovider --timeout=60 --basetemp={base}/bt '
                         f'{which}', 200, **env)
            if run.returncode:
                return {**result, 'status': 'tests'}
        result['checks'] = {}
        for check in CHECKS[name].split():
            start = time.time()
            run = inside((repo, verif), f'/opt/venv/bin/python /verif/run.py {check} --tier quick '
                         '--jobs 1', 1200)
            result['checks'][check] = (run.returncode, round(time.time() - start))
            if run.returncode == 1 and 'VIOLATION' in run.stdout:
                result['message'] = run.stdout[-700:]
                return {**result, 'status': 'caught', 'by': check}
            if run.returncode:
                result['message'] = (run.stdout + run.stderr)[-1500:]
                return {**result, 'status': 'error', 'by': check}
        return {**result, 'status': 'MISSED'}
    finally:
        with open(target, 'w', encoding='utf-8') as f:
            f.write(original)


def main():
    if sys.argv[1] == 'list':
        for m in mutants(sys.argv[2]):
            print(m[:4])
        return
    out, workers, fraction, seed = sys.argv[2], int(sys.argv[3]), float(sys.argv[4]), sys.argv[5]
    names = sys.argv[6:] or sorted(CHECKS)
    jobs = []
    for name in names:
        found = mutants(name)
        rng = random.Random(f'{seed}{name}')
        jobs += [(i, name, m) for i, m in enumerate(found)
                 if rng.random() < fraction and not m[2].startswith("'''")]
    random.Random(seed).shuffle(jobs)
    done = set()
    if os.path.exists(out):
        done = {(r['file'], r['n']) for r in map(json.loads, open(out))}
    jobs = [j for j in jobs if (j[1], j[0]) not in done]
    print(len(jobs), 'mutants')
    with multiprocessing.Pool(workers) as pool, open(out, 'a') as f:
        for result in pool.imap_unordered(work, jobs):
            f.write(json.dumps(result) + '\n')
            f.flush()
    for n in range(1, workers + 1):
        shutil.rmtree(f'/tmp/mutate.{n}', ignore_errors=True)


if __name__ == '__main__':
    main()
