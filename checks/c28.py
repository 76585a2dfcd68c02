import os
import shutil
import sys

from hypothesis import strategies as st

from vlib import chain_session as cs
from vlib import gens, ref_chain
from vlib.core import Check, check, check_eq

C = Check('C28', level='fault_enumeration', rule=(
    'Histories of connects (also across the growth step of the file) in which every creation of the '
    'file and every connect is traced opcode by opcode: each distinct state of the file seen on '
    'the way, and torn copies of the header bytes, is reopened as after a crash, compared with the '
    'model before or after the operation, and continued with the same or another header, crashing '
    'again. Non-trivial: a crash state differing from the states before and after was reopened.'),
    assumptions=['the process dies, the operating system does not: what the process wrote to the '
                 'file or its mapping stays, in order', 'a 4-byte aligned store is not torn'])


class Tracer:
    '''Distinct states of the file while func runs.'''

    def __init__(self, path, count):
        self.path = path
        self.low = 8 + 80 * max(0, count - 2)
        self.states = []

    def snapshot(self):
        try:
            fd = os.open(self.path, os.O_RDONLY)
        except FileNotFoundError:
            state = None
        else:
            try:
                st_ = os.fstat(fd)
                state = (st_.st_size, os.pread(fd, 8, 0), os.pread(fd, 480, self.low), st_.st_ino)
            finally:
                os.close(fd)
        if not self.states or self.states[-1] != state:
            self.states.append(state)

    def run(self, func, *args):
        def local(frame, event, arg):
            self.snapshot()
            return local

        def trace(frame, event, arg):
            frame.f_trace_opcodes = True
            self.snapshot()
            return local

        self.snapshot()
        before = sys.gettrace()
        sys.settrace(trace)
        try:
            return func(*args)
        finally:
            sys.settrace(before)
            self.snapshot()


def torn(a, b):
    '''States between a and b in which only part of the differing header bytes has arrived.'''
    if a is None or b is None or a[0] != b[0] or a[1] != b[1] or a[3] != b[3]:
        return
    diff = [i for i in range(len(a[2])) if a[2][i:i + 1] != b[2][i:i + 1]]
    if len(a[2]) != len(b[2]) or not diff:
        return
    for cut in (diff[0] + 1, diff[0] + 4, diff[len(diff) // 2], diff[-1]):
        yield a[0], a[1], b[2][:cut] + a[2][cut:], a[3]
        yield a[0], a[1], a[2][:cut] + b[2][cut:], a[3]


def rebuild(scene, raws):
    tree = scene.tree()
    for raw in raws:
        tree.add(raw)
    return tree


class Crasher:

    def __init__(self, scene, T):
        self.scene = scene
        self.T = T
        self.n = 0
        self.base = os.path.join(T.scratch(), f'c{id(self)}')

    def path(self):
        self.n += 1
        return f'{self.base}_{self.n}'

    def verify(self, tracer, base_copy, raws, raw, depth):
        '''Reopen every state seen.  raws: headers connected before; raw: the one in progress.'''
        states = tracer.states
        todo = [(s, False) for s in states]
        for a, b in zip(states, states[1:]):
            todo += [(s, True) for s in torn(a, b)]
        trees = [rebuild(self.scene, raws)]
        if raw is not None:
            trees.append(rebuild(self.scene, raws + [raw]))
        seen = set()
        for n, (state, is_torn) in enumerate(todo):
            key = state and state[:3]
            if key in seen:
                continue
            seen.add(key)
            between = is_torn or 0 < n < len(states) - 1
            path = self.path()
            if state is not None:
                # Only the part of the file around the end was recorded, it cannot change elsewhere
                if base_copy:
                    shutil.copyfile(base_copy, path)
                else:
                    open(path, 'wb').close()
                with open(path, 'rb+') as f:
                    f.truncate(state[0])
                    f.write(state[1])
                    if state[2]:
                        f.seek(tracer.low)
                        f.write(state[2])
            try:
                self.reopen(path, trees, raw, f'crash state {n} of {len(todo)}'
                            f'{" (torn)" if is_torn else ""}', depth, n)
            finally:
                if os.path.exists(path):
                    os.unlink(path)
            self.T.count()
            if between:
                self.T.label('torn' if is_torn else 'between')
                self.T.nontrivial((self.T.current, len(raws), n))

    def reopen(self, path, trees, raw, what, depth, n):
        session = cs.Session.__new__(cs.Session)
        session.scene, session.path, session.cls = self.scene, path, cs.Headers
        session.refused, session.counts = [], {}
        session.first = min(self.scene.pre, default=self.scene.height)
        session.headers = None
        try:
            session.open()
        except Exception as e:
            check(False, f'{what}: reopening fails with {type(e).__name__}: {e}')
        sizes = [t.root.height + len(t.nodes) for t in trees]
        check(len(session.headers) in sizes, f'{what}: {len(session.headers)} headers after '
              f'reopening, connected {sizes[0]}')
        tree = trees[sizes.index(len(session.headers))]
        session.tree = ref_chain.Tree(self.scene.net, cs.EASY, self.scene.raw, self.scene.height,
                                      self.scene.prev_work, {})
        for node in tree.nodes[1:]:
            session.tree.add(node.raw)
        session.check_all()
        session.check_file()
        # Connecting continues: with the header in progress, and with another
        order = (0, 1) if n % 2 else (1, 0)
        for which in order:
            if which == 0 and raw is not None:
                new = raw
            else:
                new = session.child(session.select(-1 - n % 3), 601, 999)
            if new is not None:
                if depth and session.tree.judge(new)[0] == 'new':
                    self.connect(session, new, depth - 1)
                else:
                    session.connect(new, f'{what}: continuing')
        session.open()
        session.check_all()
        session.check_file()
        session.headers = None

    def connect(self, session, raw, depth):
        '''Connect with every crash on the way.'''
        verdict, detail = session.tree.judge(raw)
        raws = [node.raw for node in session.tree.nodes[1:]]
        base = self.path()
        session.copy(base)
        tracer = Tracer(session.path, len(session.headers))
        try:
            if verdict == 'new':
                tracer.run(session.headers.connect, raw)
                session.tree.add(raw)
                check(len(tracer.states) > 1, 'connecting did not change the file')
                self.verify(tracer, base, raws, raw, depth)
                session.check_all()
            else:
                session.connect(raw, 'connect')
        finally:
            os.unlink(base)


def damaged(scene, kind):
    '''An unusable file that gets replaced.'''
    other = ref_chain.pack(1, b'\3' * 32, bytes(32), 1, cs.EASY, 1)
    preamble = (8).to_bytes(2, 'little') + bytes(2) + (scene.height + 1).to_bytes(4, 'little')
    return {
        'none': None,
        'empty': b'',
        'short': b'\x08\0\0',
        'version': preamble[:2] + b'\1\0' + preamble[4:] + bytes(80 * scene.height) + scene.raw,
        'other': preamble + bytes(80 * scene.height) + other,
        'longer': preamble + bytes(80 * scene.height) + other * 4,
        'unset': preamble + bytes(80 * (scene.height + 1)),
        'cut': preamble + bytes(80 * scene.height) + scene.raw[:70],
    }[kind]


def run(case, T):
    spec, damage, ops, depth = case
    spec = (*spec[:2], 1 if spec[1] == 0 else spec[2], *spec[3:])
    # Headers below the checkpoint are not set here: setting them is not part of this property
    scene = cs.Scene(spec)
    scene.pre = {}
    crasher = Crasher(scene, T)
    path = crasher.path()
    tracer = Tracer(path, scene.height + 1)
    data = damaged(scene, damage)
    base = None
    if data is not None:
        with open(path, 'wb') as f:
            f.write(data)
        base = crasher.path()
        shutil.copyfile(path, base)
    session = None
    try:
        session = tracer.run(cs.Session, scene, path)
        crasher.verify(tracer, base, [], None, depth)
        session.check_all()
        for op in ops:
            if op[0] == 'fast':
                # Untraced
                session.apply(('run', -1, op[1], 600))
            elif op[0] == 'grow':
                raw = session.child(session.select(op[1]), op[2], op[3])
                if raw is not None:
                    crasher.connect(session, raw, depth)
            else:
                session.apply(op)
        session.check_all()
        session.check_file()
    finally:
        if session:
            session.close()
        if base:
            os.unlink(base)


KINDS = ['none', 'empty', 'short', 'version', 'other', 'longer', 'unset', 'cut']
crash_op = gens.weighted((6, cs.grow), (1, cs.reopen), (1, cs.bad_bits), (1, cs.dup),
                         (1, st.tuples(st.just('fast'), st.integers(1, 20))))
# The rules of these scenes need no header below the checkpoint
crash_scene = st.one_of(
    cs.collision_scene,
    st.tuples(st.just(0), st.one_of(st.integers(1, 60), st.integers(250, 256)), st.just(1), st.just([(1, 600)]),
              st.just([(1, cs.EASY)]), st.integers(0, 1 << 70)))


def _creations(tier):
    for height in (0, 1, 2, 50, 51, 52, 101, 102, 103, 500):
        for kind in KINDS:
            yield (0, height, height + 1, [(1, 600)], [(1, cs.EASY)], 7), kind, [
                ('grow', -1, 600, 1), ('grow', -1, 600, 2), ('grow', 0, 600, 3)], 0
    # A count of one more byte
    for height in (253, 254, 255, 511, 65533, 65534, 65535):
        yield (0, height, 1, [(1, 600)], [(1, cs.EASY)], 7), 'none', [
            ('grow', -1, 600, n) for n in range(3)] + [('grow', 0, 600, 9)], 0
    yield (0, 0, 1, [], [], 0), 'none', [('fast', 252)] + [
        ('grow', -1, 600, n) for n in range(4)], 0
    # Around the growth of the file
    for count in (1, 4998, 4999, 5000, 5001):
        yield (0, 0, 1, [], [], 0), 'none', [('fast', count)] + [
            ('grow', -1, 600, n) for n in range(4)], 0


@C.test(st.tuples(crash_scene, st.sampled_from(KINDS), st.lists(crash_op, min_size=1, max_size=8),
                  st.sampled_from([0, 0, 0, 1])), quick=150, thorough=5000, shards=8,
        enum=_creations)
def crashes(case, T):
    run(case, T)
