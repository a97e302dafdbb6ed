"""C03: prioritized sampling follows exactly the recorded priorities."""
import collections
import copy
import itertools
from fractions import Fraction

import numpy as np

from mc.choices import explore
from mc.core import Check
from mc.shim_random import RandomShim

chk = Check(
    'C03',
    rule='breadth first over append / sample+report-errors histories of the '
         'real prioritized buffers, deduplicated on (priorities in order, '
         'maximum seen, evictions, anneal step); in every state every random '
         'answer of a 1- and 2-item sample is enumerated and the exact '
         'sampling distribution computed',
    assumptions=['the distribution is exact for integer priorities; real '
                 'draws are represented by the midpoints of equal cells whose '
                 'borders are the cell borders of the distribution'])


class FixedUnit(RandomShim):
    """Every real draw answers the same relative position."""

    def __init__(self, xs):
        super().__init__(None)
        self.xs = list(xs)

    def _unit(self, g=None):
        return self.xs.pop(0) if len(self.xs) > 1 else self.xs[0]


POS = (1e-9, 0.5, 1 - 1e-9)
ERRS = (0.0, 1.0, 3.0)        # priorities 1, 2, 4 with eps=1, alpha=1


class Model(object):
    def __init__(self, cap):
        self.cap = cap
        self.items = []
        self.max = 1.0
        self.next = 0
        self.pops = 0
        self.samples = 0

    def append(self):
        if self.cap is not None and len(self.items) == self.cap:
            self.items.pop(0)
            self.pops += 1
        self.items.append([self.next, self.max])
        self.next += 1

    def report(self, ids, prios):
        for it in self.items:
            if it[0] in ids:
                it[1] = prios[ids.index(it[0])]
        self.max = max([self.max] + list(prios))

    def canon(self):
        return (tuple(p for _, p in self.items), self.max, self.pops,
                min(self.samples, 4))


def new_per(cap, norm, beta0=0.4, betasteps=4):
    from chainerrl.replay_buffers import PrioritizedReplayBuffer
    return PrioritizedReplayBuffer(
        capacity=cap, alpha=1.0, beta0=beta0, betasteps=betasteps, eps=1.0,
        normalize_by_max=norm, error_min=None, error_max=None)


def per_append(buf, i):
    buf.append(state=i, action=i, reward=0.0, next_state=i + 1)


def want_weights(model, ids, beta, norm):
    total = sum(p for _, p in model.items)
    pr = {i: p / total for i, p in model.items}
    probs = [pr[i] for i in ids]
    if norm in (True, 'batch'):
        m = min(probs)
        return [(p / m) ** -beta for p in probs]
    if norm == 'memory':
        m = min(pr.values())
        return [(p / m) ** -beta for p in probs]
    return [(len(model.items) * p) ** -beta for p in probs]


def play(rec, cap, norm, hist):
    buf = new_per(cap, norm)
    m = Model(cap)
    for op in hist:
        if op[0] == 'A':
            per_append(buf, m.next)
            m.append()
            continue
        _, k, xs, errs = op
        with FixedUnit(xs).patched():
            got = buf.sample(k)
        ids = [w[0]['state'] for w in got]
        rec.expect(len(set(ids)) == k and
                   set(ids) <= {i for i, _ in m.items},
                   lambda: 'sampled {} from {} after {}'.format(
                       ids, m.items, hist))
        beta = min(1.0, 0.4 + m.samples * 0.15)
        rec.close([w[0]['weight'] for w in got],
                  want_weights(m, ids, beta, norm),
                  lambda: 'weights of {} from {} after {}'.format(
                      ids, m.items, hist), rtol=1e-9)
        m.samples += 1
        buf.update_errors(list(errs))
        m.report(ids, [e + 1.0 for e in errs])
        rec.trans()
    rec.expect(len(buf) == len(m.items), lambda: 'len {} want {}'.format(
        len(buf), len(m.items)))
    return buf, m


def law(rec, build, sample, items, k, what):
    """Exact distribution of ordered k-samples == sequential proportional
    draws without replacement."""
    dist = collections.defaultdict(Fraction)

    def run(ch):
        b = build()
        shim = RandomShim(ch, uniform_grid='int', grid=60)
        with shim.patched():
            ids = sample(b, k)
        return ids, shim.prob
    for ch, (ids, prob) in explore(run):
        dist[tuple(ids)] += prob
        rec.trace()
    want = {}
    prio = {i: Fraction(p) for i, p in items}
    for ids in itertools.permutations(prio, k):
        left = sum(prio.values())
        pr = Fraction(1)
        for i in ids:
            pr *= prio[i] / left
            left -= prio[i]
        want[ids] = pr
    rec.expect(dict(dist) == want, lambda: '{}: distribution {} want {} for '
               'priorities {}'.format(
                   what, {k_: str(v) for k_, v in dist.items()},
                   {k_: str(v) for k_, v in want.items()}, items))
    rec.outcome(sorted(want.values()))


def gen_bfs(tier):
    deep = tier == 'thorough'
    for cap in (None, 1, 2, 3, 4):
        for norm in (True, 'memory', False):
            yield [cap, norm, 8 if deep else 6]


@chk.part('law', gen_bfs, timeout=800,
          bound='histories of depth 6 (8), capacities None,1..4, samples of '
                '1 and 2, errors {0,1,3}')
def bfs(rec, case):
    cap, norm, depth = case
    seen = set()
    frontier = collections.deque([[]])
    while frontier:
        hist = frontier.popleft()
        buf, m = play(rec, cap, norm, hist)
        key = m.canon()
        if key in seen:
            continue
        seen.add(key)
        rec.state(cap, norm, key)
        rec.trans()
        if m.items and norm is True:
            def sample(b, k):
                return [w[0]['state'] for w in b.sample(k)]
            law(rec, lambda: copy.deepcopy(buf), sample, m.items, 1,
                'after {}'.format(hist))
            if 2 <= len(m.items) <= 3:
                law(rec, lambda: copy.deepcopy(buf), sample, m.items, 2,
                    'after {}'.format(hist))
        if len(hist) >= depth:
            continue
        nxt = []
        if len(m.items) < 5:
            nxt.append(('A',))
        if m.items:
            for x in POS:
                for e in ERRS:
                    nxt.append(('S', 1, (x,), (e,)))
        if len(m.items) >= 2:
            for xs in itertools.product(POS[::2], repeat=2):
                for es in itertools.product(ERRS[::2], repeat=2):
                    nxt.append(('S', 2, xs, es))
        for op in nxt:
            frontier.append(hist + [op])
    rec.note_max('max_depth', depth)


# ------------------------------------------------- long sliding histories
def gen_long(tier):
    top = 48 if tier == 'thorough' else 24
    for cap in [None] + list(range(1, 10)):
        for every in (0, 1, 2, 3):
            for e in range(3):
                yield [cap, every, e, top]


@chk.part('sliding', gen_long, timeout=600,
          bound='up to 24 (48) appends through capacities None,1..9 with an '
                'error report every 0..3 appends; law checked at every step')
def sliding(rec, case):
    cap, every, e, top = case
    buf = new_per(cap, 'memory')
    m = Model(cap)
    for i in range(top):
        per_append(buf, m.next)
        m.append()
        rec.trans()
        if every and i % every == 0:
            k = min(len(m.items), 1 + i % 3)
            xs = [POS[(i + j) % 3] for j in range(k)]
            with FixedUnit(xs).patched():
                got = buf.sample(k)
            ids = [w[0]['state'] for w in got]
            beta = min(1.0, 0.4 + m.samples * 0.15)
            rec.close([w[0]['weight'] for w in got],
                      want_weights(m, ids, beta, 'memory'),
                      lambda: 'weights at step {}'.format(i), rtol=1e-9)
            m.samples += 1
            errs = [ERRS[(e + i + j) % 3] for j in range(k)]
            buf.update_errors(errs)
            m.report(ids, [x + 1.0 for x in errs])
            rec.trans()
        if len(m.items) <= 12 or i % 6 == 0:
            law(rec, lambda: copy.deepcopy(buf),
                lambda b, k: [w[0]['state'] for w in b.sample(k)],
                m.items, 1, 'after {} appends'.format(i + 1))
        rec.state(cap, every, m.canon())


# ----------------------------------------------------------- error formula
def gen_formula(tier):
    for alpha in (0.0, 0.5, 0.6, 1.0):
        for eps in (1e-8, 0.01, 1.0):
            for lo in (None, 0, 0.5):
                for hi in (None, 1, 2.0):
                    yield [alpha, eps, lo, hi]


@chk.part('priorities', gen_formula,
          bound='alpha x eps x error_min x error_max grid, 3-item buffers, '
                'errors {0,.3,1,5}, all four weight normalizations, both '
                'prioritized buffers')
def formula(rec, case):
    """Non-integer priorities: observed through weights and selection."""
    from chainerrl import replay_buffers
    alpha, eps, lo, hi = case
    errors = (0.0, 0.3, 1.0, 5.0)

    def prio(e):
        if lo is not None:
            e = max(lo, e)
        if hi is not None:
            e = min(hi, e)
        return (e + eps) ** alpha
    for cls in ('per', 'pe'):
        for norm in (True, 'batch', 'memory', False):
            for es in itertools.product(errors, repeat=3):
                kw = dict(capacity=None, alpha=alpha, beta0=0.5, betasteps=2,
                          eps=eps, normalize_by_max=norm, error_min=lo,
                          error_max=hi)
                if cls == 'per':
                    buf = replay_buffers.PrioritizedReplayBuffer(**kw)
                else:
                    buf = replay_buffers.PrioritizedEpisodicReplayBuffer(**kw)
                for i in range(3):
                    # episodes longer than one transition
                    for j in range(i + 1):
                        buf.append(state=(i, j), action=0, reward=0,
                                   next_state=0, is_state_terminal=True
                                   if cls == 'per' else j == i)
                        if cls == 'per':
                            break

                def sample(n, xs):
                    with FixedUnit(xs).patched():
                        if cls == 'per':
                            s = buf.sample(n)
                            return ([w[0]['state'][0] for w in s],
                                    [w[0]['weight'] for w in s])
                        s, w = buf.sample_episodes(n)
                        return [e[0]['state'][0] for e in s], list(w)
                ids, w = sample(3, (0.3,))
                rec.expect(sorted(ids) == [0, 1, 2], 'sample of everything')
                rec.close(w, [3.0 ** 0 if norm else (3 * (1 / 3.)) ** -.5] * 3,
                          'initial weights', rtol=1e-9)
                buf.update_errors([es[i] for i in ids])
                p = [prio(e) for e in es]
                tot = sum(p)
                ids, w = sample(2, (0.01, 0.99))
                beta = 0.75
                pr = [p[i] / tot for i in ids]
                if norm in (True, 'batch'):
                    want = [(q / min(pr)) ** -beta for q in pr]
                elif norm == 'memory':
                    want = [(q / (min(p) / tot)) ** -beta for q in pr]
                else:
                    want = [(3 * q) ** -beta for q in pr]
                rec.close(w, want, lambda: '{} weights (errors {} ids {})'
                          .format(cls, es, ids), rtol=1e-7)
                buf.update_errors([es[i] for i in ids])
                # proportional selection, up to one cell per item border
                if norm is True:
                    G = 32
                    cnt = [0, 0, 0]
                    for g in range(G):
                        b = copy.deepcopy(buf)
                        with FixedUnit([(g + .5) / G]).patched():
                            if cls == 'per':
                                cnt[b.sample(1)[0][0]['state'][0]] += 1
                            else:
                                r = b.sample_episodes(1)[0]
                                cnt[r[0][0]['state'][0]] += 1
                    for i in range(3):
                        rec.expect(abs(cnt[i] - G * p[i] / tot) <= 1.01,
                                   lambda: 'selection counts {} of {} cells '
                                   'for priorities {}'.format(cnt, G, p))
                rec.trace()
                rec.trans(3)
                rec.state(case, cls, norm, es)
                rec.outcome(cls, [round(x, 6) for x in w])


# ------------------------------------------------------- episodic mixing law
def gen_mix(tier):
    for ur in (0, 0.25, 0.5, 1.0):
        for wait in (True, False):
            for prios in itertools.product((1, 2, 4), repeat=3):
                if sorted(prios) == list(prios) or tier == 'thorough':
                    yield [ur, wait, list(prios)]


@chk.part('mixture', gen_mix, bound='3 episodes, priorities in {1,2,4}, '
          'uniform ratio {0,.25,.5,1}, samples of 1..3, with and without '
          'waiting for errors')
def mixture(rec, case):
    from chainerrl.replay_buffers import PrioritizedEpisodicReplayBuffer
    ur, wait, prios = case
    plan = {}

    def build():
        buf = PrioritizedEpisodicReplayBuffer(
            capacity=None, alpha=1.0, beta0=1.0, betasteps=None, eps=0.0,
            normalize_by_max=False, uniform_ratio=ur,
            wait_priority_after_sampling=wait,
            default_priority_func=lambda ep: plan[ep[0]['state'][0]])
        for i, p in enumerate(prios):
            plan[i] = p
            for j in range(i + 1):
                buf.append(state=(i, j), action=0, reward=0, next_state=0,
                           is_state_terminal=j == i)
        return buf
    tot = sum(prios)
    want1 = [Fraction(ur).limit_denominator(100) / 3
             + (1 - Fraction(ur).limit_denominator(100)) * Fraction(p, tot)
             for p in prios]
    for k in (1, 2, 3):
        dist = collections.defaultdict(Fraction)

        def run(ch):
            buf = build()
            shim = RandomShim(ch, uniform_grid='int', grid=12)
            with shim.patched():
                eps, w = buf.sample_episodes(k)
            ids = [e[0]['state'][0] for e in eps]
            again = None
            if not wait:
                # priorities are unchanged by sampling
                with shim.patched():
                    again = None
                    sh2 = FixedUnit([0.5])
                with sh2.patched():
                    buf.uniform_ratio = 0
                    e2, w2 = buf.sample_episodes(3)
                again = sorted((e[0]['state'][0], round(float(x), 9))
                               for e, x in zip(e2, w2))
            else:
                buf.update_errors([1.0] * k)
            return ids, w, shim.prob, again
        for ch, (ids, w, prob, again) in explore(run):
            rec.trace()
            rec.trans()
            rec.expect(len(ids) == k and len(set(ids)) == k,
                       lambda: 'sampled episodes {} are not unique (ratio {} '
                       'wait {} priorities {})'.format(ids, ur, wait, prios))
            rec.close(w, [float(1 / (3 * want1[i])) for i in ids],
                      lambda: 'weights of {}'.format(ids), rtol=1e-9)
            if again is not None:
                rec.close([x for _, x in again],
                          [tot / (3. * p) for p in prios],
                          'priorities changed by sampling', rtol=1e-6)
            dist[tuple(ids)] += prob
            rec.state(case, k, ids)
            rec.outcome(k, ids, [round(float(x), 6) for x in w])
        rec.expect(sum(dist.values()) == 1, 'total probability')
        if k == 1:
            got = [dist[(i,)] for i in range(3)]
            rec.expect(got == want1, lambda: 'mixture probabilities {} want '
                       '{}'.format(got, want1))


if __name__ == '__main__':
    raise SystemExit(chk.main())
