'''The framework of the checks: cases, drivers, classification of failures, workers, evidence.

A check module (checks/cXX.py) creates one Check and registers tests on it.  A test is a function
body(case, T) deciding one plain-data case (ints, bytes, str, None, bools, floats, tuples, lists),
driven by
  - fixed examples (boundary and regression cases),
  - an optional enumeration (run completely), and
  - a Hypothesis strategy (random structured generation and shrinking).
T is the run context: T.label(x) counts a class of cases, T.nontrivial() marks the current case as
non-trivial by the check's rule.

A run is a pure function of VERIF_SEED and the code: all random choices are Hypothesis's, seeded
from (VERIF_SEED, check, test, shard); os.urandom is replaced by a stream seeded from the case.
'''

import collections
import hashlib
import importlib
import json
import os
import random
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
PKG = os.path.join(REPO, 'bitcoinx') + os.sep
VENV_SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'

CASE_CPU_LIMIT = 90       # CPU seconds for one case; normal cases take milliseconds
SHRINK_WALL = 30          # seconds of shrinking after the first failure
MEMORY_LIMIT = 6 << 30


class Violation(AssertionError):
    '''The property is broken.'''


class CaseTimeout(BaseException):
    '''One case used up its CPU limit: the code does not terminate.'''


class StopRun(KeyboardInterrupt):
    '''Ends a Hypothesis run (its machinery lets KeyboardInterrupt through).'''


class HarnessError(Exception):
    '''The check itself is at fault.'''


#
# Deterministic os.urandom
#

_real_urandom = os.urandom


class Entropy:
    '''What the code under test gets from os.urandom.'''

    def __init__(self):
        self.reset(b'')
        self.calls = []

    def reset(self, seed, script=b''):
        self._seed = hashlib.sha256(b'entropy' + seed).digest()
        self._counter = 0
        self._script = bytes(script)
        self.calls = []

    def script(self, data):
        '''The next bytes handed out, before the seeded stream continues.'''
        self._script = bytes(data)

    def __call__(self, n):
        result = self._script[:n]
        self._script = self._script[n:]
        while len(result) < n:
            block = hashlib.sha256(self._seed + self._counter.to_bytes(8, 'big')).digest()
            self._counter += 1
            result += block[:n - len(result)]
        self.calls.append(result)
        return result


ENTROPY = Entropy()


def install_entropy():
    os.urandom = ENTROPY
    random._urandom = ENTROPY


#
# Injectable HMAC-SHA512 (for derivations that are invalid with probability 2^-127)
#

class HmacHook:

    def __init__(self):
        self.active = None      # callable (key, msg, digestname, real) -> bytes or None
        self.calls = 0

    def install(self):
        import hmac
        real_digest = hmac.digest
        real_new = hmac.new

        def name_of(digest):
            if isinstance(digest, str):
                return digest.lower().replace('-', '').replace('_', '')
            n = getattr(digest, '__name__', '') or getattr(digest, 'name', '')
            return n.replace('openssl_', '')

        def wrapped_digest(key, msg, digest):
            result = real_digest(key, msg, digest)
            if self.active:
                self.calls += 1
                other = self.active(bytes(key), bytes(msg), name_of(digest), result)
                if other is not None:
                    return other
            return result

        hook = self

        def wrapped_new(key, msg=None, digestmod=''):
            obj = real_new(key, msg, digestmod)
            if not hook.active:
                return obj

            class Proxy:
                def __init__(self):
                    self._data = bytes(msg or b'')

                def update(self, data):
                    self._data += bytes(data)
                    obj.update(data)

                def digest(self):
                    hook.calls += 1
                    result = obj.digest()
                    other = hook.active(bytes(key), self._data, name_of(digestmod), result)
                    return result if other is None else other

                def hexdigest(self):
                    return self.digest().hex()
            return Proxy()

        hmac.digest = wrapped_digest
        hmac.new = wrapped_new


HMAC_HOOK = HmacHook()


def _no_hook():
    HMAC_HOOK.active = None


#
# Plain-data codec for replay files
#

def encode(x):
    if isinstance(x, (bytes, bytearray)):
        return {'$b': bytes(x).hex()}
    if isinstance(x, tuple):
        return {'$t': [encode(v) for v in x]}
    if isinstance(x, list):
        return [encode(v) for v in x]
    if isinstance(x, dict):
        return {'$d': [[encode(k), encode(v)] for k, v in x.items()]}
    if x is None or isinstance(x, (bool, str, float)):
        return x
    if isinstance(x, int):
        return {'$i': hex(x)} if x.bit_length() > 60 else int(x)
    raise HarnessError(f'case is not plain data: {type(x)}')


def decode(x):
    if isinstance(x, list):
        return [decode(v) for v in x]
    if isinstance(x, dict):
        if '$b' in x:
            return bytes.fromhex(x['$b'])
        if '$t' in x:
            return tuple(decode(v) for v in x['$t'])
        if '$d' in x:
            return {decode(k): decode(v) for k, v in x['$d']}
        if '$i' in x:
            return int(x['$i'], 16)
    return x


def case_bytes(case):
    return json.dumps(encode(case), sort_keys=True).encode()


def brief(case, limit=300):
    try:
        text = repr(case)
    except ValueError:      # ints beyond the int-to-str limit
        text = str(encode(case))
    return text if len(text) <= limit else f'{text[:limit]}... ({len(text)} chars)'


#
# Assertions
#

def check(cond, msg='', *args):
    if not cond:
        raise Violation(msg.format(*[brief(a) for a in args]) if args else msg)


def check_eq(got, want, what=''):
    if type(got) is not type(want) and not (isinstance(got, int) and isinstance(want, int)):
        if not (isinstance(got, (bytes, bytearray)) and isinstance(want, (bytes, bytearray))):
            raise Violation(f'{what}: got {brief(got)} of type {type(got).__name__}, '
                            f'want {brief(want)} of type {type(want).__name__}')
    if got != want:
        raise Violation(f'{what}: got {brief(got)} want {brief(want)}')


def raises(exc, func, *args, **kwargs):
    '''func must raise exc (a type or tuple of types).  Returns the exception.'''
    try:
        result = func(*args, **kwargs)
    except exc as e:
        return e
    except Exception as e:
        raise Violation(f'{getattr(func, "__name__", func)}: want {exc}, '
                        f'got {type(e).__name__}: {brief(str(e))}') from e
    raise Violation(f'{getattr(func, "__name__", func)}: want {exc}, got result {brief(result)}')


def outcome(func, *args, exc=Exception, **kwargs):
    '''('ok', result) or ('raises', exception type name).  Only for exc.'''
    try:
        return 'ok', func(*args, **kwargs)
    except exc as e:
        return 'raises', e


#
# Registration
#

class Test:

    def __init__(self, name, body, strategy, examples, enum, quick, thorough, shards, env):
        self.name = name
        self.body = body
        self.strategy = strategy
        self.examples = examples
        self.enum = enum
        self.quick = quick
        self.thorough = thorough
        self.shards = shards
        self.env = env


class Check:

    def __init__(self, ident, rule, level='exploration', assumptions=(), scale=2):
        self.ident = ident
        self.rule = rule
        self.level = level
        self.assumptions = list(assumptions)
        self.scale = scale          # of the number of generated cases in the quick tier
        self.tests = {}

    def test(self, strategy=None, *, quick=1000, thorough=None, shards=1, examples=(), enum=None,
             env=None):
        '''Register a test body.

        quick, thorough:  generated cases in total over the shards in each tier
        examples:         fixed cases (list, or callable returning one), run in shard 0
        enum:             callable tier -> iterable of cases, split over the shards
        env:              extra environment variables of the workers
        '''
        def deco(body):
            name = body.__name__
            assert name not in self.tests
            self.tests[name] = Test(name, body, strategy, examples, enum, quick * self.scale,
                                    quick * 20 if thorough is None else thorough, shards,
                                    env or {})
            return body
        return deco


class Context:

    def __init__(self):
        self.labels = collections.Counter()
        self.distinct = set()
        self.evaluations = 0
        self.nontrivial_count = 0
        self.samples = []
        self.current = None
        self._marked = False
        self._size = 0
        self.entropy = ENTROPY
        self.scratch_dir = None
        self.tier = 'quick'
        self.store = {}           # a test may keep expensive immutable things here

    def begin(self, case):
        self.current = case
        self._marked = False

    def label(self, *names):
        for name in names:
            self.labels[str(name)] += 1

    def nontrivial(self, key=None):
        '''Mark the case as non-trivial.  key: distinct decided cases within one case.'''
        self._marked = True
        self.nontrivial_count += 1
        data = case_bytes(self.current if key is None else key)
        digest = hashlib.blake2b(data, digest_size=8).digest()
        if digest not in self.distinct:
            self.distinct.add(digest)
            n = len(self.distinct)
            # Samples are spread over the run: the 1st, 4th, 16th, 64th, ... distinct case
            if n & (n - 1) == 0 and n.bit_length() % 2:
                self.samples.append(brief(self.current, 600))

    def count(self, n=1):
        '''Count further evaluations decided within one case.'''
        self.evaluations += n

    def scratch(self):
        if self.scratch_dir is None:
            base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
            self.scratch_dir = tempfile.mkdtemp(prefix='verif_', dir=base)
        return self.scratch_dir

    def close(self):
        if self.scratch_dir:
            shutil.rmtree(self.scratch_dir, ignore_errors=True)


#
# Running one case
#

def _on_cpu_limit(_signum, _frame):
    raise CaseTimeout()


def run_body(test, case, T):
    '''Returns None if the case passes, otherwise a description of the violation.

    Raises HarnessError if the check itself is at fault.'''
    T.begin(case)
    ENTROPY.reset(test.name.encode() + case_bytes(case))
    T.evaluations += 1
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_LIMIT)
    try:
        test.body(case, T)
        return None
    except CaseTimeout:
        return f'did not terminate within {CASE_CPU_LIMIT} s of CPU time'
    except Violation as e:
        return f'{e}'
    except HarnessError:
        raise
    except MemoryError:
        return 'memory exhausted'
    except Exception as e:
        kind = _classify(e)
        text = ''.join(traceback.format_exception(type(e), e, e.__traceback__, limit=-6))
        if kind == 'harness':
            raise HarnessError(f'case {brief(case)}\n{text}') from e
        return f'unexpected {type(e).__name__}: {brief(str(e))}\n{text}'
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        _no_hook()


def _classify(e):
    '''An exception that reached the body is the code's (a frame of it is on the stack, or the body
    choked on the code's result) unless it arose in the references or the libraries.'''
    frames = traceback.extract_tb(e.__traceback__)
    files = [os.path.realpath(f.filename) for f in frames]
    if isinstance(e, (ImportError, NameError)) and not files[-1].startswith(PKG):
        return 'harness'
    if any(f.startswith(PKG) for f in files):
        return 'violation'
    if isinstance(e, AttributeError) and "module 'bitcoinx" in str(e):
        return 'harness'
    last = files[-1]
    if os.path.basename(last).startswith(('ref_', 'gens')) or 'hypothesis' in last:
        return 'harness'
    return 'violation'


#
# A worker: one test, one shard
#

def stable_seed(*parts):
    text = '/'.join(str(p) for p in parts)
    return int.from_bytes(hashlib.sha256(text.encode()).digest()[:8], 'big')


def load_check(ident):
    return importlib.import_module('checks.' + ident.lower()).C


def _write_result(path, result):
    tmp = path + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(result, f)
    os.rename(tmp, path)


def run_shard(test, shard, nshards, tier, seed, ident, deadline, T):
    '''Returns None or (case, message, phase) of a violation.'''
    # 1. examples
    if shard == 0:
        examples = test.examples() if callable(test.examples) else test.examples
        for case in examples:
            msg = run_body(test, case, T)
            if msg:
                return case, msg, 'example'
    # 2. enumeration
    if test.enum:
        for n, case in enumerate(test.enum(tier)):
            if n % nshards == shard:
                msg = run_body(test, case, T)
                if msg:
                    return case, msg, 'enumeration'
                if time.time() > deadline:
                    T.label('INCOMPLETE:deadline')
                    return None
    # 3. generation
    total = test.quick if tier == 'quick' else test.thorough
    count = total // nshards + (1 if shard < total % nshards else 0)
    if test.strategy is None or not count:
        return None
    return _hypothesis_run(test, count, stable_seed(seed, ident, test.name, shard), deadline, T)


def _hypothesis_run(test, count, seed, deadline, T):
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings
    from hypothesis.errors import HypothesisException, Unsatisfiable

    strategy = test.strategy() if callable(test.strategy) else test.strategy
    state = {'best': None, 'first': None, 't0': None, 'harness': None}

    def fail(case, msg):
        size = len(case_bytes(case))
        if state['first'] is None:
            state['first'] = (case, msg)
            state['t0'] = time.time()
        if state['best'] is None or size < state['best'][0]:
            state['best'] = (size, case, msg)

    def body(case):
        now = time.time()
        if state['t0'] is None:
            if now > deadline:
                T.label('INCOMPLETE:deadline')
                raise StopRun
        elif now > state['t0'] + SHRINK_WALL:
            raise StopRun
        try:
            msg = run_body(test, case, T)
        except HarnessError as e:
            state['harness'] = e
            raise StopRun from None
        if msg:
            fail(case, msg)
            if msg.startswith('did not terminate') or msg == 'memory exhausted':
                raise StopRun
            raise Violation(msg)

    runner = hypothesis.seed(seed)(settings(
        max_examples=count, database=None, deadline=None, derandomize=False,
        suppress_health_check=list(HealthCheck), phases=(Phase.generate, Phase.shrink),
        report_multiple_bugs=False, print_blob=False,
        verbosity=hypothesis.Verbosity.quiet)(hypothesis.given(strategy)(body)))
    try:
        runner()
    except StopRun:
        pass
    except Violation:
        pass
    except Unsatisfiable as e:
        raise HarnessError(f'unsatisfiable strategy: {e}') from e
    except HypothesisException as e:
        if state['best'] is None:
            raise HarnessError(f'hypothesis: {e!r}') from e
    except BaseExceptionGroup as e:
        if state['best'] is None:
            raise HarnessError(f'hypothesis: {e!r}') from e
    if state['harness']:
        raise state['harness']
    if state['best'] is None:
        return None
    # Prefer the smallest failing case that fails again on its own
    _size, case, msg = state['best']
    again = Context()
    again.scratch_dir = T.scratch_dir
    again.store = {}
    msg2 = run_body(test, case, again)
    if msg2:
        return case, msg2, 'generated'
    case, msg = state['first']
    msg2 = run_body(test, case, again)
    if msg2:
        return case, msg2, 'generated'
    return case, msg, 'history'


def setup_process():
    '''Make the repository's code importable with the deterministic hooks in place.'''
    sys.dont_write_bytecode = True
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY_LIMIT, MEMORY_LIMIT))
    signal.signal(signal.SIGPROF, _on_cpu_limit)
    if VENV_SITE not in sys.path:
        sys.path.append(VENV_SITE)
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    if ROOT not in sys.path:
        sys.path.insert(1, ROOT)
    import warnings
    warnings.simplefilter('ignore')
    install_entropy()
    HMAC_HOOK.install()
    if os.environ.get('VERIF_NO_NATIVE_AES'):
        # The optional native cipher library is "not installed".  Our references load theirs first.
        importlib.import_module('vlib.ref_hash')
        sys.modules['Cryptodome'] = sys.modules['Cryptodome.Cipher'] = None
        sys.modules['Cryptodome.Cipher.AES'] = None


def import_repo():
    import bitcoinx
    where = os.path.realpath(bitcoinx.__file__)
    if not where.startswith(PKG):
        raise HarnessError(f'bitcoinx imported from {where}')
    return bitcoinx


def worker_main(ident, name, shard, nshards, tier, seed, out, budget):
    start = time.time()
    setup_process()
    result = {'test': name, 'shard': shard}
    T = Context()
    T.tier = tier
    try:
        try:
            import_repo()
        except HarnessError:
            raise
        except Exception as e:
            raise HarnessError('cannot import bitcoinx: ' + traceback.format_exc()) from e
        C = load_check(ident)
        test = C.tests[name]
        bad = run_shard(test, shard, nshards, tier, seed, ident, start + budget, T)
        if bad:
            case, msg, phase = bad
            result['violation'] = {'case': encode(case), 'message': msg[:4000], 'phase': phase}
    except HarnessError as e:
        result['error'] = f'{e}\n{traceback.format_exc()}'[-6000:]
    except BaseException:
        result['error'] = traceback.format_exc()[-6000:]
    finally:
        T.close()
    result.update({
        'evaluations': T.evaluations, 'nontrivial': T.nontrivial_count,
        'labels': dict(T.labels), 'samples': T.samples,
        'wall': time.time() - start,
        'distinct': [d.hex() for d in T.distinct],
    })
    _write_result(out, result)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)


#
# The parent
#

def _env(extra, tmp):
    env = dict(os.environ)
    env.update({'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0',
                'PYTHONPYCACHEPREFIX': os.path.join(tmp, 'pyc'), 'TZ': 'UTC',
                'PYTHONPATH': '', 'TMPDIR': tmp})
    env.pop('PYTHONOPTIMIZE', None)
    env.update(extra)
    return env


def replay_path(ident, payload):
    directory = os.path.join(ROOT, 'replays')
    os.makedirs(directory, exist_ok=True)
    digest = hashlib.sha256(json.dumps(payload, sort_keys=True).encode()).hexdigest()[:12]
    return os.path.join(directory, f'{ident}-{digest}.json')


def known_findings(ident):
    '''Unrepaired findings listed in known-findings.txt, as {key: text}.'''
    result = {}
    path = os.path.join(ROOT, 'known-findings.txt')
    try:
        lines = open(path).read().splitlines()
    except FileNotFoundError:
        return result
    for line in lines:
        if line.startswith(f'finding: property={ident} key='):
            rest = line.split('key=', 1)[1]
            key, _, text = rest.partition(' ')
            result[key] = text
    return result


def run_check(ident, tier, seed, only=None, jobs=None, scale=None):
    start = time.time()
    tmp = tempfile.mkdtemp(prefix='verif_run_')
    try:
        return _run_check(ident, tier, seed, only, jobs or 8, start, tmp, scale)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _run_check(ident, tier, seed, only, max_jobs, start, tmp, scale):
    # The parent reads the registration only; the code under test runs in the workers
    info = json.loads(subprocess.run(
        [sys.executable, os.path.join(ROOT, 'run.py'), '--describe', ident],
        check=True, capture_output=True, text=True, env=_env({}, tmp), cwd=ROOT).stdout)
    if 'error' in info:
        print(f'ERROR {ident}: {info["error"]}', file=sys.stderr)
        return 3

    budget = 400 if tier == 'quick' else 720
    hard_limit = 800
    queue = []
    for t in info['tests']:
        if only and t['name'] not in only:
            continue
        for shard in range(t['shards']):
            queue.append((t, shard))
    running = {}
    results = []
    violation = None
    error = None
    n = 0
    while queue or running:
        while queue and len(running) < max_jobs and not violation and not error:
            t, shard = queue.pop(0)
            out = os.path.join(tmp, f'out{n}.json')
            log = open(os.path.join(tmp, f'log{n}.txt'), 'w+')
            n += 1
            left = max(20, budget - (time.time() - start))
            proc = subprocess.Popen(
                [sys.executable, os.path.join(ROOT, 'run.py'), '--worker', ident, t['name'],
                 str(shard), str(t['shards']), tier, str(seed), out, str(left)],
                env=_env(t['env'], tmp), cwd=ROOT, stdout=log, stderr=log,
                stdin=subprocess.DEVNULL)
            running[proc] = (t, shard, out, log)
        if violation or error:
            queue.clear()
        done = [p for p in running if p.poll() is not None]
        if time.time() - start > hard_limit:
            error = error or 'hard time limit'
        if (violation or error) and running:
            for p in running:
                if p.poll() is None:
                    p.kill()
            for p in running:
                p.wait()
            done = list(running)
        if not done:
            time.sleep(0.02)
            continue
        for p in done:
            t, shard, out, log = running.pop(p)
            if os.path.exists(out):
                with open(out) as f:
                    r = json.load(f)
                results.append(r)
                if 'error' in r and not violation:
                    error = error or f'{t["name"]}/{shard}: {r["error"]}'
                if 'violation' in r and not violation:
                    violation = (t, shard, r['violation'])
            elif not (violation or error):
                log.seek(0)
                text = log.read()[-3000:]
                error = f'{t["name"]}/{shard}: worker ended with {p.returncode}\n{text}'
            log.close()

    if violation:
        error = None
    labels = collections.Counter()
    distinct = set()
    samples = []
    per_test = {}
    for r in sorted(results, key=lambda r: (r['test'], r['shard'])):
        pt = per_test.setdefault(r['test'], {'evaluations': 0, 'nontrivial': 0})
        pt['evaluations'] += r['evaluations']
        pt['nontrivial'] += r['nontrivial']
        for k, v in r['labels'].items():
            labels[f'{r["test"]}:{k}'] += v
        distinct.update(f'{r["test"]}:{d}' for d in r['distinct'])
        if r['shard'] == 0:
            samples.extend(f'{r["test"]}: {s}' for s in r['samples'][:4])
    evidence = {
        'property': ident, 'tier': tier, 'seed': seed, 'level': info['level'],
        'coverage': {
            'evaluations': sum(r['evaluations'] for r in results),
            'distinct_nontrivial': len(distinct),
            'rule': info['rule'],
            'samples': samples[:40],
            'per_test': per_test,
            'classes': dict(sorted(labels.items())),
        },
        'assumptions': info['assumptions'],
        'wall_s': round(time.time() - start, 2),
        'violations': 1 if violation else 0,
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    path = os.path.join(ROOT, 'evidence', f'{ident}.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(evidence, f, indent=1)
    os.rename(path + '.tmp', path)

    if violation:
        t, shard, v = violation
        payload = {'property': ident, 'test': t['name'], 'case': v['case'],
                   'message': v['message'], 'phase': v['phase'],
                   'mode': 'campaign' if v['phase'] == 'history' else 'case',
                   'seed': seed, 'tier': tier, 'shard': shard, 'shards': t['shards']}
        rpath = replay_path(ident, payload)
        with open(rpath, 'w') as f:
            json.dump(payload, f, indent=1)
        print(f'{t["name"]}: {v["message"]}')
        print(f'case: {brief(decode(v["case"]), 1500)}')
        print(f'VIOLATION property={ident} replay={rpath}')
        return 1
    if error:
        print(f'ERROR {ident}: {error}', file=sys.stderr)
        return 3
    cov = evidence['coverage']
    print(f'OK {ident} {tier} seed={seed} evaluations={cov["evaluations"]} '
          f'distinct_nontrivial={cov["distinct_nontrivial"]} wall={evidence["wall_s"]}s')
    return 0


def describe(ident):
    setup_process()
    try:
        import_repo()
        C = load_check(ident)
    except Exception:
        print(json.dumps({'error': traceback.format_exc()[-4000:]}))
        return
    print(json.dumps({
        'ident': C.ident, 'rule': C.rule, 'level': C.level, 'assumptions': C.assumptions,
        'tests': [{'name': t.name, 'shards': t.shards, 'env': t.env}
                  for t in C.tests.values()],
    }))


def replay(ident, path):
    '''Decide the saved case again, without Hypothesis (or the saved campaign, for a failure that
    needs the history of its run).'''
    with open(path) as f:
        payload = json.load(f)
    if payload['mode'] == 'campaign':
        return run_check(ident, payload['tier'], payload['seed'], only=[payload['test']])
    setup_process()
    import_repo()
    C = load_check(ident)
    test = C.tests[payload['test']]
    if any(os.environ.get(k) != v for k, v in test.env.items()):
        env = _env(test.env, tempfile.gettempdir())
        os.execve(sys.executable, [sys.executable, os.path.join(ROOT, 'run.py'), ident,
                                   '--replay', path], env)
    T = Context()
    try:
        msg = run_body(test, decode(payload['case']), T)
    finally:
        T.close()
    if msg:
        print(msg)
        print(f'VIOLATION property={ident} replay={path}')
        return 1
    print(f'OK {ident}: the saved case passes')
    return 0
