"""C06: uniform sampling returns distinct stored items, all equally likely."""
import collections
import itertools
from fractions import Fraction
from math import comb

from mc.choices import explore
from mc.core import Check
from mc.shim_random import RandomShim

chk = Check(
    'C06',
    rule='for every population size and sample size up to the bound, every '
         'sequence of answers of the random generator is enumerated and the '
         'exact distribution over samples computed',
    assumptions=['executions that need more than the stated number of random '
                 'answers (rejection loops) are cut; the cut is symmetric in '
                 'the items, so conditional probabilities stay exact'])


class Cut(Exception):
    pass


class CutChoices(object):
    def __init__(self, ch, limit):
        self.ch = ch
        self.limit = limit

    def choose(self, n, label=None):
        if len(self.ch.taken) >= self.limit:
            raise Cut()
        return self.ch.choose(n, label)


def gen(tier):
    top = 7
    for target in ('sample_n_k', 'queue', 'uniform', 'episodic',
                   'episodic_eps', 'per_wo'):
        for n in range(0, top + 1):
            for k in range(0, n + 1):
                if target == 'per_wo' and (n > 5 or k == 0):
                    continue
                yield [target, n, k]
    # the rejection-sampling branch, where most draws collide
    for target in ('sample_n_k', 'uniform'):
        yield [target, 8, 2]
        if tier == 'thorough':
            yield [target, 10, 2]
            yield [target, 9, 2]


def take(target, n, k):
    from chainerrl import replay_buffers
    from chainerrl.misc.collections import RandomAccessQueue
    from chainerrl.misc.random import sample_n_k
    if target == 'sample_n_k':
        return lambda: [int(x) for x in sample_n_k(n, k)]
    if target == 'queue':
        q = RandomAccessQueue()
        for i in range(-2, n):
            q.append(i)
        if n >= 0:
            q.popleft()
            q.popleft()
        return lambda: list(q.sample(k))
    if target == 'uniform':
        buf = replay_buffers.ReplayBuffer(capacity=max(n, 1))
        for i in range(-1 if n else 0, n):
            buf.append(i, 0, 0, 0)
        return lambda: [w[0]['state'] for w in buf.sample(k)]
    if target in ('episodic', 'episodic_eps'):
        buf = replay_buffers.EpisodicReplayBuffer()
        i = 0
        if target == 'episodic':
            for i in range(n):
                buf.append(i, 0, 0, 0, is_state_terminal=i % 2 == 1)
            buf.stop_current_episode()
            return lambda: [w[0]['state'] for w in buf.sample(k)]
        for i in range(n):
            for j in range(1 + i % 3):
                buf.append(i, 0, 0, 0)
            buf.stop_current_episode()
        return lambda: [e[0]['state'] for e in buf.sample_episodes(k)]
    if target == 'per_wo':
        buf = replay_buffers.PrioritizedReplayBuffer(alpha=0.0, eps=1.0)
        for i in range(n):
            buf.append(i, 0, 0, 0)

        def f():
            r = [w[0]['state'] for w in buf.sample(k)]
            buf.update_errors([0.7] * k)
            return r
        return f


@chk.part('exact', gen, timeout=800, bound='populations 0..7 (10 in the '
          'rejection branch), every sample size; 10 random answers per '
          'execution at most')
def exact(rec, case):
    target, n, k = case
    f = take(target, n, k)
    limit = 2 * k + (2 if n * k > 8 else 4) if 3 * k < n else 10
    ordered = collections.defaultdict(Fraction)
    first = collections.defaultdict(Fraction)
    cut = 0

    def run(ch):
        cch = CutChoices(ch, limit)
        shim = RandomShim(cch, uniform_grid='int', grid=60)
        try:
            with shim.patched():
                return f(), shim.prob
        except Cut:
            return None, shim.prob
    for ch, (ids, prob) in explore(run):
        rec.trans()
        if ids is None:
            cut += 1
            continue
        rec.trace()
        rec.expect(len(ids) == k, lambda: 'asked {} got {}'.format(k, ids))
        rec.expect(len(set(ids)) == k, lambda: 'duplicates in {} (n={} k={}, '
                   'random answers {})'.format(ids, n, k, ch.taken))
        rec.expect(set(ids) <= set(range(n)), lambda: '{} not stored'.format(
            ids))
        ordered[frozenset(ids)] += prob
        if ids:
            first[ids[0]] += prob
        rec.state(case, sorted(ids), ch.taken[:3])
        rec.outcome(sorted(ids))
    rec.note_add('executions_cut', cut)
    rec.expect(len(ordered) == comb(n, k), lambda: '{} of the {} possible '
               'samples can be drawn'.format(len(ordered), comb(n, k)))
    rec.expect(len(set(ordered.values())) == 1, lambda: 'samples are not '
               'equally likely (n={}, k={}): {}'.format(
                   n, k, {tuple(sorted(s)): str(p)
                          for s, p in ordered.items()}))


class SymmetricShim(RandomShim):
    """Draws with replacement, up to renaming of the items: each draw is one
    of the labels drawn so far or one fresh label (restricted growth)."""

    def __init__(self, ch):
        super().__init__(ch)
        self.used = 0

    def _one(self, n):
        m = min(self.used + 1, n)
        k = self.ch.choose(m, 'sym')
        # canonical labels first occur in increasing order
        if k == self.used:
            self.used += 1
        return k

    def choice(self, a, size=None, replace=True, p=None):
        if not replace or p is not None:
            return super().choice(a, size, replace, p)
        import numpy as np
        n = a if np.ndim(a) == 0 else len(a)
        return self._fill(size, lambda: self._one(n))

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        return self._fill(size, lambda: low + self._one(high - low))


def gen_coll(tier):
    for k in range(1, 6 if tier == 'thorough' else 5):
        for n in (3 * k + 1, 3 * k + 2, 4 * k + 3):
            for refill in range(0, 4 if k < 4 else 2):
                yield [n, k, refill]


@chk.part('collisions', gen_coll, timeout=800, bound='populations just above '
          'three times the sample size (k<=4, thorough 5), every pattern of '
          'equal draws incl. up to 3 redraws, up to renaming of items')
def collisions(rec, case):
    from chainerrl.misc.random import sample_n_k
    n, k, refill = case
    limit = 2 * k + refill * k
    if limit > 10:
        limit = 10

    def run(ch):
        try:
            with SymmetricShim(CutChoices(ch, limit)).patched():
                return [int(x) for x in sample_n_k(n, k)]
        except Cut:
            return None
    for ch, ids in explore(run):
        rec.trans()
        if ids is None:
            continue
        rec.trace()
        rec.expect(len(ids) == k and len(set(ids)) == k and
                   set(ids) <= set(range(n)),
                   lambda: 'sample_n_k({}, {}) = {} for draws {}'.format(
                       n, k, ids, ch.taken))
        rec.state(case, ch.taken)
        rec.outcome(ids)


def gen_err(tier):
    for n in range(0, 5):
        for k in (-1, n + 1, n + 3):
            yield [n, k]


@chk.part('invalid', gen_err, bound='populations 0..4, sizes -1, n+1, n+3')
def invalid(rec, case):
    """Asking for more items than stored never returns a (padded) sample."""
    from chainerrl.misc.random import sample_n_k
    n, k = case
    try:
        r = sample_n_k(n, k)
    except Exception as e:
        r = type(e).__name__
    rec.expect(r == 'ValueError', 'sample_n_k({}, {}) gave {}'.format(n, k, r))
    for target in ('queue', 'uniform', 'episodic', 'episodic_eps'):
        try:
            r = list(take(target, n, k)())
        except Exception:
            r = 'refused'
        rec.expect(r == 'refused', '{}: sampling {} of {} gave {}'.format(
            target, k, n, r))
        rec.trans()
        rec.trace()
        rec.state(target, case)
        rec.outcome(target, k > n)


if __name__ == '__main__':
    raise SystemExit(chk.main())
