"""C27: vector environments behave as their environments run alone."""
import itertools
import os
import signal
import threading
import time

import numpy as np

from mc.core import Check

chk = Check(
    'C27',
    rule='every sequence of operations (steps, resets with every mask, '
         'seeding in every form, attributes, closing) up to a length is run '
         'on vector environments, with real worker processes whose answers '
         'are forced to come in every order, and compared with the same '
         'environments driven one by one; every call of every environment is '
         'made to raise or die in turn',
    assumptions=['a call that takes longer than 10 s hangs'])

WAIT = 10.


class Spec(object):
    def __init__(self, i):
        self.id = 'Counter-v{}'.format(i)

    def __eq__(self, other):
        return isinstance(other, Spec) and other.id == self.id


class Boom(Exception):
    pass


class Counter(object):
    """Everything it returns tells the whole history of its calls."""

    def __init__(self, i, gate=None, fault=None, size=1):
        import gym
        self.action_space = gym.spaces.Discrete(3 + i)
        self.observation_space = gym.spaces.Box(
            low=-1. * (i + 1), high=1., shape=(2,), dtype=np.float32)
        self.spec = Spec(i)
        self.i = i
        self.log = []
        self.gate = gate
        self.fault = fault
        self.size = size
        self._call('init')

    def _call(self, *what):
        self.log.append(what)
        if self.fault is not None and what[0] == self.fault[0]:
            n = sum(1 for c in self.log if c[0] == what[0])
            if n == self.fault[1]:
                if self.fault[2] == 'die':
                    os.kill(os.getpid(), signal.SIGKILL)
                raise Boom(what)
        if self.gate is not None and what[0] in ('step', 'reset', 'seed'):
            self.gate.arrive(self.i)

    def obs(self):
        return (self.i, np.full(self.size, len(self.log), 'f'),
                tuple(self.log))

    def reset(self):
        self._call('reset')
        return self.obs()

    def step(self, a):
        self._call('step', a)
        n = len(self.log)
        return self.obs(), self.i + 0.25 * n, (n + self.i) % 3 == 0, {
            'n': n, 'i': self.i}

    def seed(self, seed=None):
        self._call('seed', seed)
        return [self.i, seed]

    def close(self):
        self._call('close')
        if self.gate is not None:
            self.gate.closed(self.i, self.log)


class Gate(object):
    """Makes the environments of several processes answer in a given order."""

    def __init__(self, n):
        self.go = [os.pipe() for _ in range(n)]
        self.here = [os.pipe() for _ in range(n)]
        self.end = [os.pipe() for _ in range(n)]
        self.busy = True

    # in workers
    def arrive(self, i):
        os.write(self.here[i][1], b'a')
        os.read(self.go[i][0], 1)

    def closed(self, i, log):
        os.write(self.end[i][1], repr(
            (os.getpid(), [c[0] for c in log][-2:])).encode() + b'\n')

    # in the parent
    def release(self, order):
        """Start a thread that lets calls go in this order."""
        import select

        self.busy = True

        def main():
            left = list(order)
            ready = set()
            t0 = time.time()
            while left and self.busy and time.time() - t0 < WAIT:
                fds = {self.here[i][0]: i for i in left if i not in ready}
                for fd in select.select(list(fds), [], [], 0.02)[0]:
                    os.read(fd, 1)
                    ready.add(fds[fd])
                if left[0] in ready:
                    i = left.pop(0)
                elif ready and time.time() - t0 > 1:
                    # they do not run at the same time
                    i = [j for j in left if j in ready][0]
                    left.remove(i)
                else:
                    continue
                ready.discard(i)
                os.write(self.go[i][1], b'g')
                if left:
                    time.sleep(0.001)
        t = threading.Thread(target=main, daemon=True)
        t.start()
        return t

    def ends(self, i):
        os.set_blocking(self.end[i][0], False)
        try:
            return os.read(self.end[i][0], 10000).decode().split('\n')[:-1]
        except BlockingIOError:
            return []

    def free(self):
        self.busy = False
        for a, b in self.go + self.here + self.end:
            os.close(a)
            os.close(b)


def bounded(f, what):
    """f() in a thread; a call that does not return is a violation."""
    out = []

    def main():
        try:
            out.append(('ok', f()))
        except BaseException as e:  # noqa
            out.append(('error', e))
    t = threading.Thread(target=main, daemon=True)
    t.start()
    t.join(WAIT)
    if not out:
        import multiprocessing
        for p in multiprocessing.active_children():
            p.kill()
        return 'hang', what
    return out[0]


def plain(x):
    if isinstance(x, np.ndarray):
        return ('array', x.tolist())
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    return x


class Pair(object):
    """A vector environment and the environments it stands for."""

    def __init__(self, rec, kind, n, order=None, fault=None, what=None):
        from chainerrl import envs
        self.rec, self.kind, self.n, self.what = rec, kind, n, what
        self.gate = None
        self.threads = []
        if kind == 'serial':
            self.made = [Counter(i) for i in range(n)]
            self.v = envs.SerialVectorEnv(list(self.made))
        else:
            self.gate = gate = Gate(n)
            self.order = order or list(range(n))
            self.v = envs.MultiprocessVectorEnv(
                [lambda i=i: Counter(i, gate) for i in range(n)])
        self.ref = [Counter(i) for i in range(n)]
        self.last = [None] * n
        self.is_closed = False

    def ask(self, f, ids, label):
        t = None
        if self.gate is not None and not self.is_closed:
            t = self.gate.release([i for i in self.order if i in ids])
        kind, val = bounded(f, label)
        if t is not None:
            if kind != 'ok':
                self.gate.busy = False
            t.join()
        self.rec.expect(kind != 'hang', lambda: '{}: {} hangs'.format(
            self.what(), label))
        return kind, val

    def value(self, f, ids, label):
        kind, val = self.ask(f, ids, label)
        if kind == 'error':
            self.rec.fail('{}: {} raises {!r}'.format(self.what(), label,
                                                      val))
        return val

    def eq(self, got, want, label):
        self.rec.eq(plain(got), plain(want), lambda: '{}: {}'.format(
            self.what(), label))

    def do(self, op):
        n = self.n
        every = list(range(n))
        v = self.v
        if op[0] == 'step':
            acts = [op[1] + 10 * i for i in range(n)]
            obs, rews, dones, infos = self.value(
                lambda: v.step(list(acts)), every, op)
            want = [e.step(a) for e, a in zip(self.ref, acts)]
            self.last = [w[0] for w in want]
            self.eq(obs, self.last, 'observations of a step')
            self.eq(rews, [w[1] for w in want], 'rewards')
            self.eq(dones, [w[2] for w in want], 'dones')
            self.eq(infos, [w[3] for w in want], 'infos')
        elif op[0] == 'reset':
            mask = op[1]
            if mask is None:
                ids = every
                obs = self.value(lambda: v.reset(), ids, op)
            else:
                m = [b for b in mask]
                if op[2] == 'array':
                    m = np.array(m)
                elif op[2] == 'float':
                    m = np.array(m, 'f')
                ids = [i for i in every if not mask[i]]
                obs = self.value(lambda: v.reset(m), ids, op)
            for i in ids:
                self.last[i] = self.ref[i].reset()
            self.eq(obs, self.last, 'observations of a reset')
        elif op[0] == 'seed':
            s = op[1]
            if s == 'list':
                seeds = [7 * i + 1 for i in range(n)]
                self.value(lambda: v.seed(list(seeds)), every, op)
            elif s == 'wrong':
                kind, val = self.ask(lambda: v.seed([1] * (n + 1)), every,
                                     op)
                self.rec.expect(kind == 'error', lambda: '{}: too many seeds '
                                'accepted'.format(self.what()))
                return False
            elif s == 'omitted':
                seeds = [None] * n
                self.value(lambda: v.seed(), every, op)
            else:
                seeds = [s] * n
                self.value(lambda: v.seed(s), every, op)
            for e, x in zip(self.ref, seeds):
                e.seed(x)
        elif op[0] == 'look':
            self.eq(v.num_envs, n, 'num_envs')
            spec = self.value(lambda: v.spec, [], 'spec')
            self.rec.expect(spec == self.ref[0].spec, lambda: '{}: spec is {}'
                            .format(self.what(), spec))
            self.rec.expect(v.action_space == self.ref[0].action_space,
                            lambda: '{}: action space'.format(self.what()))
            self.rec.expect(
                v.observation_space == self.ref[0].observation_space,
                lambda: '{}: observation space'.format(self.what()))
            self.rec.expect(v.unwrapped is v, 'unwrapped')
        else:
            raise AssertionError(op)
        return True

    def close(self):
        self.value(self.v.close, [], 'close')
        self.is_closed = True
        for e in self.ref:
            e.close()

    def end(self):
        """Closed once, everywhere; no process is left; nothing works."""
        if self.kind == 'serial':
            self.close()
            for e, r in zip(self.made, self.ref):
                self.eq(e.log, r.log, 'calls')
            return
        gate, self.gate = self.gate, None
        self.close()
        for i in range(self.n):
            ends = [eval(x) for x in gate.ends(i)]
            self.rec.eq(len(ends), 1, lambda: '{}: env {} is closed {} times'
                        .format(self.what(), i, len(ends)))
            self.rec.eq(ends[0][1], [c[0] for c in self.ref[i].log][-2:],
                        lambda: '{}: last calls of env {}'.format(
                            self.what(), i))
            self.rec.expect(gone(ends[0][0]), lambda: '{}: worker {} is left '
                            'behind'.format(self.what(), i))
        for name, f in (('step', lambda: self.v.step([0] * self.n)),
                        ('reset', self.v.reset),
                        ('seed', lambda: self.v.seed(1))):
            kind, val = bounded(f, name)
            self.rec.eq(kind, 'error', lambda: '{}: {} after close'.format(
                self.what(), name))
        del self.v
        gate.free()


def gone(pid, wait=WAIT):
    t0 = time.time()
    while time.time() - t0 < wait:
        try:
            os.waitpid(pid, os.WNOHANG)
        except ChildProcessError:
            pass
        try:
            os.kill(pid, 0)
        except ProcessLookupError:
            return True
        time.sleep(0.002)
    return False


def all_ops(n):
    ops = [('step', 0), ('step', 1), ('reset', None)]
    forms = ['list', 'array', 'float']
    for k, mask in enumerate(itertools.product((0, 1), repeat=n)):
        ops.append(('reset', [bool(b) for b in mask], forms[k % 3]))
    ops += [('seed', 'list'), ('seed', 5 * (n % 2 == 0)), ('seed', 'omitted'),
            ('seed', 'wrong'), ('look',)]
    return ops


def gen(tier):
    deep = tier == 'thorough'
    for n in (1, 2, 3):
        k = len(all_ops(n))
        for first in range(k):
            yield ['serial', n, first, 4 if deep else 3]


@chk.part('serial', gen, bound='all sequences of 3 (thorough 4) of 10-16 '
          'operations, 1-3 environments')
def serial(rec, case):
    kind, n, first, length = case
    ops = all_ops(n)
    for tail in itertools.product(ops, repeat=length - 1):
        seq = (ops[first],) + tail
        p = Pair(rec, kind, n, what=lambda: '{} n={} {}'.format(kind, n, seq))
        for op in seq:
            p.do(op)
            rec.trans()
        p.end()
        rec.trace()
        rec.state([len(e.log) for e in p.ref], n)
        rec.outcome([e.log[-2][0] for e in p.ref])


def gen_multi(tier):
    deep = tier == 'thorough'
    for n in (1, 2, 3):
        k = len(all_ops(n))
        orders = list(itertools.permutations(range(n)))
        for first in range(k):
            for second in range(k):
                for order in orders:
                    yield ['multi', n, first, second, list(order), deep]


@chk.part('multiprocess', gen_multi, bound='all sequences of 2 (thorough 3) of '
          '10-16 operations, 1-3 environments in real processes that answer '
          'in every order', timeout=300)
def multi(rec, case):
    kind, n, first, second, order, deep = case
    ops = all_ops(n)
    tails = [(o,) for o in ops] if deep else [()]
    for tail in tails:
        seq = (ops[first], ops[second]) + tail

        def what():
            return '{} n={} order {} {}'.format(kind, n, order, seq)
        p = Pair(rec, kind, n, order, what=what)
        for op in seq:
            p.do(op)
            rec.trans()
        p.do(('step', 2))
        p.end()
        rec.trace()
        rec.state([len(e.log) for e in p.ref], n)
        rec.outcome([e.log[-2][0] for e in p.ref])


# ----------------------------------------------------------------- faults

FAULTS = [('init', 1), ('reset', 1), ('step', 1), ('step', 2), ('seed', 1),
          ('reset', 2), ('step', 3)]


def gen_fault(tier):
    for n in (1, 2, 3):
        for j in range(n):
            for f in FAULTS:
                for how in ('raise', 'die'):
                    for size in (1, 100000):
                        if size > 1 and (n == 1 or f[0] != 'step'):
                            continue
                        yield [n, j, list(f) + [how], size]


@chk.part('faults', gen_fault, bound='each call of each of 1-3 environments '
          'raising or killing its process', timeout=120)
def faults(rec, case):
    n, j, fault, size = case
    from chainerrl import envs

    def what():
        return 'env {} of {} fails at {}'.format(j, n, fault)
    r, w = os.pipe()

    def make(i):
        os.write(w, '{} '.format(os.getpid()).encode())
        return Counter(i, None, fault if i == j else None,
                       size if i != j else 1)

    def main():
        v = envs.MultiprocessVectorEnv(
            [lambda i=i: make(i) for i in range(n)])
        done.append(v)
        v.reset()
        v.step([0] * n)
        v.step([1] * n)
        v.seed(3)
        v.reset()
        v.step([2] * n)
        return 'finished'
    done = []
    try:
        kind, val = bounded(main, 'run')
        rec.expect(kind != 'hang', lambda: what() + ': the call hangs')
        rec.eq(kind, 'error', what() + ': no error is raised')
        if done:
            kind, val2 = bounded(done[0].close, 'close')
            rec.expect(kind == 'ok', lambda: '{}: close: {} {!r}'.format(
                what(), kind, val2))
        # the exception keeps the frames that keep the environment
        val = str(val)
        done = None
        del kind
        import gc
        gc.collect()
        os.set_blocking(r, False)
        for pid in pids_of(r):
            rec.expect(gone(pid), what() + ': a worker is left behind')
    finally:
        os.close(r)
        os.close(w)
    rec.trace()
    rec.trans(6)
    rec.state(fault, n, j)


def pids_of(r):
    os.set_blocking(r, False)
    try:
        return [int(x) for x in os.read(r, 10000).split()]
    except BlockingIOError:
        return []


@chk.part('parent', lambda tier: [[n, k] for n in (1, 2, 3)
                                  for k in ('idle', 'kill', 'del', 'exit')],
          bound='1-3 environments whose parent is killed, exits, or drops '
          'the vector environment', timeout=120)
def parent(rec, case):
    n, how = case
    from chainerrl import envs
    r, w = os.pipe()
    me = os.fork()
    if me == 0:
        try:
            def make(i):
                os.write(w, '{} '.format(os.getpid()).encode())
                return Counter(i)
            v = envs.MultiprocessVectorEnv(
                [lambda i=i: make(i) for i in range(n)])
            v.reset()
            if how == 'idle':
                v.step([0] * n)
            if how == 'del':
                del v
                os.write(w, b'0 ')
                time.sleep(WAIT)
            os.write(w, b'0 ')
            if how in ('kill', 'idle'):
                os.kill(os.getpid(), signal.SIGKILL)
        finally:
            os._exit(0)
    pids = []
    t0 = time.time()
    while 0 not in pids and time.time() - t0 < WAIT:
        pids += pids_of(r)
        time.sleep(0.005)
    try:
        rec.expect(0 in pids, 'the vector environment hangs')
        pids = [p for p in pids if p]
        rec.eq(len(pids), n, 'workers')
        for p in pids:
            rec.expect(gone(p), 'n={} {}: a worker outlives its parent'
                       .format(n, how))
    finally:
        os.kill(me, signal.SIGKILL)
        os.waitpid(me, 0)
        os.close(r)
        os.close(w)
    rec.trace()
    rec.trans(1)
    rec.state(n, how)


if __name__ == '__main__':
    raise SystemExit(chk.main())
