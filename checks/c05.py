"""C05: the random-access queue and the priority queues are FIFO lists."""
import itertools
import pickle

import numpy as np

from mc.core import Check

chk = Check(
    'C05',
    rule='every operation sequence up to the depth bound on the real queue '
         '(and every multi-phase push/pop pattern on the tree queues), each '
         'step compared with a Python list',
    assumptions=['stored values are opaque'])

OPS = ['append', 'extend0', 'extend2', 'popleft', 'set0', 'set-1', 'setmid',
       'pickle']


def gen_queue(tier):
    d = 7 if tier == 'thorough' else 5
    for init in (0, 1, 3):
        for maxlen in (None, 0, 1, 2, 3, 5):
            for first in range(len(OPS)):
                yield [init, maxlen, d, first]


def check_queue(rec, q, ref, hist):
    n = len(ref)
    rec.expect(len(q) == n, lambda: 'len {} want {} after {}'.format(
        len(q), n, hist))
    rec.expect(list(q) == ref, lambda: 'iteration {} want {} after {}'.format(
        list(q), ref, hist))
    for i in range(-n - 2, n + 2):
        try:
            want = ref[i]
        except IndexError:
            want = IndexError
        try:
            got = q[i]
        except IndexError:
            got = IndexError
        rec.expect(got == want, lambda: 'q[{}] = {} want {} after {}'.format(
            i, got, want, hist))


@chk.part('queue', gen_queue, bound='initial size 0,1,3; maxlen None,0..5; '
          'depth 5 (7); every index from -n-2 to n+1')
def queue(rec, case):
    from chainerrl.misc.collections import RandomAccessQueue
    init, maxlen, depth, first = case
    for ln in range(1, depth + 1):
        for tail in itertools.product(range(len(OPS)), repeat=ln - 1):
            seq = (first,) + tail
            fresh = itertools.count(100)
            q = RandomAccessQueue(range(init), maxlen=maxlen) if init else \
                RandomAccessQueue(maxlen=maxlen)
            ref = list(range(init))

            def trunc():
                if maxlen is not None:
                    del ref[:max(0, len(ref) - maxlen)]
            trunc()
            hist = [OPS[o] for o in seq]
            for o in hist:
                if o == 'append':
                    v = next(fresh)
                    q.append(v)
                    ref.append(v)
                elif o.startswith('extend'):
                    vs = [next(fresh) for _ in range(int(o[-1]))]
                    q.extend(vs)
                    ref.extend(vs)
                elif o == 'popleft':
                    try:
                        got = q.popleft()
                    except IndexError:
                        got = IndexError
                    want = ref.pop(0) if ref else IndexError
                    rec.expect(got == want, lambda: 'popleft {} want {} in '
                               '{}'.format(got, want, hist))
                elif o == 'pickle':
                    q = pickle.loads(pickle.dumps(q))
                else:
                    i = {'set0': 0, 'set-1': -1,
                         'setmid': len(ref) // 2}[o]
                    v = next(fresh)
                    try:
                        q[i] = v
                        ok = True
                    except IndexError:
                        ok = False
                    rec.expect(ok == bool(ref), lambda: 'q[{}]=v raised/did '
                               'not raise in {}'.format(i, hist))
                    if ref:
                        ref[i] = v
                trunc()
                rec.trans()
            check_queue(rec, q, ref, hist)
            rec.trace()
            rec.state(maxlen, ref)
            rec.outcome(len(ref), hist[-1])


def gen_setall(tier):
    top = 7 if tier == 'thorough' else 5
    for a in range(top + 1):
        for b in range(a + 1):
            for c in range(top + 1):
                for d in range(a - b + c + 1):
                    yield [a, b, c, d]


@chk.part('queue-set', gen_setall, bound='push a<=5(7), pop b, push c<=5(7), '
          'pop d; then assignment through every positive and negative index')
def queue_set(rec, case):
    from chainerrl.misc.collections import RandomAccessQueue
    a, b, c, d = case

    def build():
        q = RandomAccessQueue()
        ref = []
        k = 0
        for npush, npop in ((a, b), (c, d)):
            for _ in range(npush):
                q.append(k)
                ref.append(k)
                k += 1
            for _ in range(npop):
                rec.expect(q.popleft() == ref.pop(0), 'popleft order')
        return q, ref
    n = a - b + c - d
    for i in range(-n - 1, n + 1):
        q, ref = build()
        try:
            q[i] = 'X'
            ok = True
        except IndexError:
            ok = False
        rec.expect(ok == (-n <= i < n), lambda: 'q[{}]=X with len {}'.format(
            i, n))
        if ok:
            ref[i] = 'X'
        check_queue(rec, q, ref, case + [i])
        rec.trans()
        rec.trace()
        rec.state(case, i)
        rec.outcome(ref)
    # draining returns everything in order
    q, ref = build()
    rec.expect([q.popleft() for _ in range(n)] == ref, 'draining order')


# ---------------------------------------------------------------- tree queues
def gen_tree(tier):
    top = 9 if tier == 'thorough' else 6
    for a in range(1, top + 1):
        for b in range(a + 1):
            for c in range(top + 1):
                for d in range(a - b + c + 1):
                    yield [a, b, c, d]


@chk.part('trees', gen_tree, bound='push a<=6(9), pop b, push c<=6(9), pop '
          'd, push 1..3, with priorities cycling through {1,2,4,8}; sum and '
          'min after every step and after every single assignment')
def trees(rec, case):
    from chainerrl.misc.prioritized import MinTreeQueue, SumTreeQueue
    a, b, c, d = case
    vals = (4., 1., 8., 2., 2.)
    for phase in range(3):
        s, m, ref = SumTreeQueue(), MinTreeQueue(), []
        k = phase

        def look(what):
            rec.expect(s.sum() == sum(ref), lambda: 'sum {} want {} of {} '
                       '({})'.format(s.sum(), sum(ref), ref, what))
            rec.expect(m.min() == (min(ref) if ref else float('inf')),
                       lambda: 'min {} want {} of {} ({})'.format(
                           m.min(), min(ref or [float('inf')]), ref, what))
            rec.trans()
        plan = ['+'] * a + ['-'] * b + ['+'] * c + ['-'] * d + ['+'] * 3
        for step, op in enumerate(plan):
            if op == '+':
                v = vals[k % len(vals)]
                k += 1
                s.append(v)
                m.append(v)
                ref.append(v)
            else:
                want = ref.pop(0)
                rec.expect(s.popleft() == want, 'SumTreeQueue.popleft')
                rec.expect(m.popleft() == want, 'MinTreeQueue.popleft')
            look(plan[:step + 1])
            rec.state(case, phase, step)
        for i in range(len(ref)):
            old = ref[i]
            for v in (0.5, 16., old):
                s[i] = v
                m[i] = v
                ref[i] = v
                look('assign {}={}'.format(i, v))
        rec.trace()
        rec.outcome(ref)
        while ref:
            want = ref.pop(0)
            rec.expect(s.popleft() == want, 'SumTreeQueue drain')
            rec.expect(m.popleft() == want, 'MinTreeQueue drain')
            look('drain')


class Uniform(object):
    """Answers np.random.uniform by given fractions of the interval."""

    def __init__(self, fractions):
        self.f = list(fractions)

    def __enter__(self):
        self.old = np.random.uniform
        np.random.uniform = lambda lo=0.0, hi=1.0: (
            lo + (hi - lo) * self.f.pop(0))
        return self

    def __exit__(self, *a):
        np.random.uniform = self.old


FRACS = (0.0, 0.2, 0.45, 0.7, 0.999)


def gen_sampling(tier):
    top = 6 if tier == 'thorough' else 5
    for kind in ('queue', 'sumtree'):
        for size in range(1, top):
            for front in (0, 1, 3):
                for n in range(0, min(size, 3) + 1):
                    for remove in (False, True):
                        yield [kind, size, front, n, remove]


@chk.part('sampling', gen_sampling, bound='queues and trees of 1..4 (5) '
          'positive values after 0, 1 or 3 removals or growth to the left, '
          '0..3 samples with and without removal, five answers of the '
          'generator per sample')
def sampling(rec, case):
    from chainerrl.misc.prioritized import SumTree, SumTreeQueue
    kind, size, front, n, remove = case
    vals = [1., 4., 2., 8., 3.][:size]
    for fr in itertools.product(FRACS, repeat=n):
        if kind == 'queue':
            q = SumTreeQueue()
            for _ in range(front):
                q.append(5.)
            for v in vals:
                q.append(v)
            for _ in range(front):
                q.popleft()
            base = 0
        else:
            q = SumTree()
            base = -front
            # from the middle to the right, then to the left
            order = list(range(size))
            order = order[size // 2:] + order[:size // 2][::-1]
            for i in order:
                q[base + i] = vals[i]
        left = dict(enumerate(vals))
        want, wvals = [], []
        for f in fr:
            total = sum(left.values())
            x = total * f
            for i in sorted(left):
                if x < left[i]:
                    break
                x -= left[i]
            want.append(base + i)
            wvals.append(left.pop(i))
        with Uniform(fr):
            ixs, got = q.prioritized_sample(n, remove=remove)
        what = '{} of {} at {}'.format(case, vals, fr)
        rec.eq(list(ixs), want, what)
        if kind == 'queue':
            rec.close(got, wvals, what)
        else:
            rec.close(got, [v / sum(vals) for v in wvals], what)
        rest = [0.0 if remove and base + i in want else v
                for i, v in enumerate(vals)]
        if kind == 'queue':
            rec.close(q.sum(), sum(rest), what)
            rec.eq([q.popleft() for _ in range(size)], rest, what)
        else:
            rec.eq([q[base + i] for i in range(size)], rest, what)
            if sum(rest):
                seen = {}
                for f in FRACS:
                    with Uniform([f]):
                        i, p = q.prioritized_choice()
                    rec.close(p, rest[i - base] / sum(rest), what)
                    x = f * sum(rest)
                    lo = sum(rest[:i - base])
                    rec.expect(lo - 1e-9 <= x <= lo + rest[i - base] + 1e-9,
                               lambda: '{}: chose {} at {} of {}'.format(
                                   what, i, f, rest))
            del q[base]
            rec.eq(q[base], 0.0, what)
        rec.trace()
        rec.trans(n)
        rec.state(case, fr)
        rec.outcome(want)


def gen_uniform(tier):
    for size in range(0, 6):
        for front in (0, 1, 3):
            for n in range(0, size + 1):
                for remove in (False, True):
                    yield [size, front, n, remove]


@chk.part('uniform', gen_uniform, bound='priority queues of 0..5 values, '
          'every sample size, with and without removal')
def uniform(rec, case):
    from chainerrl.misc.prioritized import SumTreeQueue
    size, front, n, remove = case
    q = SumTreeQueue()
    vals = [1., 4., 2., 8., 3.][:size]
    for v in [7.] * front + vals:
        q.append(v)
    for _ in range(front):
        q.popleft()
    for seed in range(3):
        np.random.seed(seed)
        ixs, got = q.uniform_sample(n, remove)
        ixs = list(ixs)
        rec.expect(len(set(ixs)) == n and set(ixs) <= set(range(size)),
                   lambda: 'indices {} of {}'.format(ixs, case))
        if remove:
            break
        rec.eq(list(got), [vals[i] for i in ixs], 'values')
    rest = [0.0 if remove and i in ixs else v for i, v in enumerate(vals)]
    rec.close(q.sum(), sum(rest), 'sum')
    rec.eq([q.popleft() for _ in range(size)], rest, 'rest')
    rec.trace()
    rec.trans(n)
    rec.state(case)


if __name__ == '__main__':
    raise SystemExit(chk.main())
