"""C04: replay buffer contents survive save and load at any point."""
import collections
import copy
import itertools
import os
import pickle

import numpy as np

from mc.core import Check, Tmp
from mc.refs import EpisodicRef, NStepRef, OPS1, apply_nstep_op, window_key

chk = Check(
    'C04',
    rule='every operation history up to the bound is cut at a save; the file '
         'is loaded into a fresh and into a used buffer, and every '
         'continuation up to the bound is executed on the restored buffer '
         'and compared with the reference model; an outcome is the content '
         'reached',
    assumptions=['transitions of an episode that is still open when saving '
                 'are not part of the contents (documented format)',
                 'priority-weight annealing is not part of the contents'])

OPS = OPS1 + [('report', 0)]
POS = (1e-9, 0.5, 1 - 1e-9)




def make(cls, n, cap):
    from chainerrl import replay_buffers as rb
    if cls == 'uniform':
        return rb.ReplayBuffer(capacity=cap, num_steps=n)
    if cls == 'per':
        return rb.PrioritizedReplayBuffer(
            capacity=cap, num_steps=n, alpha=1.0, eps=1.0, betasteps=None,
            beta0=1.0, normalize_by_max=False, error_min=None,
            error_max=None)
    if cls == 'episodic':
        return rb.EpisodicReplayBuffer(capacity=cap)
    return rb.PrioritizedEpisodicReplayBuffer(
        capacity=cap, alpha=1.0, eps=1.0, betasteps=None, beta0=1.0,
        normalize_by_max=False)


def ref_items(ref):
    return ref.memory if isinstance(ref, NStepRef) else ref.episodes


class Pair(object):
    """Real buffer + content model + priority model."""

    def __init__(self, cls, n, cap):
        self.cls = cls
        self.buf = make(cls, n, cap)
        self.ref = NStepRef(n, cap) if cls in ('uniform', 'per') \
            else EpisodicRef(cap)
        self.prio = {}
        self.max = 1.0
        self.i = 0

    def key(self, item):
        return item[0]['action'][1]

    def do(self, op):
        kind = op[0]
        if kind == 'report':
            n = len(ref_items(self.ref))
            if self.cls in ('per', 'pe') and n:
                for k, w in self.sample_all(report=[0.0, 2.0, 4.0]):
                    pass
            return
        apply_nstep_op(self.buf, self.ref, op, self.i)
        self.i += 1
        keys = [self.key(it) for it in ref_items(self.ref)]
        for k in keys:
            self.prio.setdefault(k, self.max)
        # evicted items lose their priority
        for k in list(self.prio):
            if k not in keys:
                del self.prio[k]

    def sample_all(self, report=None):
        n = len(ref_items(self.ref))
        if self.cls == 'per':
            got = self.buf.sample(n)
            ws = [w[0]['weight'] for w in got]
        else:
            got, ws = self.buf.sample_episodes(n)
        ks = [self.key(it) for it in got]
        if report is None:
            errs = [self.prio[k] - 1.0 for k in ks]
        else:
            errs = [report[k % len(report)] for k in ks]
        self.buf.update_errors(errs)
        for k, e in zip(ks, errs):
            self.prio[k] = e + 1.0
            self.max = max(self.max, e + 1.0)
        return list(zip(ks, ws))

    def check(self, rec, what):
        items = ref_items(self.ref)
        buf = self.buf
        n = len(items)
        if isinstance(self.ref, NStepRef):
            rec.expect(len(buf) == n, lambda: '{}: len {} want {}'.format(
                what, len(buf), n))
            got = None if self.cls == 'per' else buf.sample(n)
        else:
            ntr = sum(map(len, items))
            rec.expect(len(buf) == ntr, lambda: '{}: len {} want {}'.format(
                what, len(buf), ntr))
            rec.expect(buf.n_episodes == n, lambda: '{}: n_episodes {} want '
                       '{}'.format(what, buf.n_episodes, n))
            if ntr:
                flat = sorted(repr(window_key(w)) for w in buf.sample(ntr))
                want = sorted(repr(window_key([t])) for e in items for t in e)
                rec.expect(flat == want, lambda: '{}: transitions {} want {}'
                           .format(what, flat, want))
            got = None if self.cls == 'pe' else buf.sample_episodes(n)
        if n == 0:
            return
        if self.cls in ('per', 'pe'):
            b = copy.deepcopy(buf)
            got = b.sample(n) if self.cls == 'per' else \
                b.sample_episodes(n)[0]
            tot = sum(self.prio.values())
            for k, w in self.sample_all():
                rec.close(w, tot / (n * self.prio[k]), lambda: '{}: priority '
                          'of item {} (priorities {})'.format(
                              what, k, self.prio), rtol=1e-9)
        g = sorted(window_key(w, ignore=('weight',)) for w in got)
        w = sorted(window_key(w) for w in items)
        rec.expect(g == w, lambda: '{}: contents {} want {}'.format(
            what, g, w))


def gen(tier):
    deep = tier == 'thorough'
    for cls in ('uniform', 'per', 'episodic', 'pe'):
        for n in ((1, 2, 3) if cls in ('uniform', 'per') else (1,)):
            for cap in (None, 2, 3, 4):
                for pre in itertools.product(range(4), repeat=2):
                    yield [cls, n, cap, list(pre), 6 if deep else 5,
                           3 if deep else 2]


@chk.part('roundtrip', gen, bound='histories of depth 5 (6), every '
          'continuation of depth 2 (3), n<=3, capacities None,2,3,4, into a '
          'fresh and a used buffer')
def roundtrip(rec, case):
    cls, n, cap, pre, depth, cont = case
    np.random.seed(chk.seed)
    with Tmp() as d:
        path = os.path.join(d, 'buf.pkl')
        for ln in range(0, depth - 1):
            for tail in itertools.product(range(4), repeat=ln):
                hist = [OPS[o] for o in list(pre) + list(tail)]
                if cls in ('uniform', 'episodic') and any(
                        h[0] == 'report' for h in hist):
                    continue
                p = Pair(cls, n, cap)
                for op in hist:
                    p.do(op)
                p.buf.save(path)
                rec.trans(len(hist) + 1)
                # saving does not disturb the original
                for target in ('fresh', 'used'):
                    for c in itertools.product(range(3), repeat=cont):
                        q = Pair(cls, n, cap)
                        if target == 'used':
                            for k in range(3):
                                q.do(('terminal', 0))
                            q.do(('report', 0))
                        q.buf.load(path)
                        q.i = p.i
                        q.ref = copy.deepcopy(p.ref)
                        pend = q.ref.pending if isinstance(
                            q.ref, NStepRef) else q.ref.current
                        pend.clear()
                        q.prio = dict(p.prio)
                        q.max = p.max
                        for j, o in enumerate(c):
                            q.do(OPS[o])
                        what = '{} loaded into a {} buffer, then {}'.format(
                            hist, target, [OPS[o] for o in c])
                        q.check(rec, what)
                        rec.trans(len(c))
                        rec.trace()
                        rec.state(cls, n, cap, q.ref.canon(),
                                  sorted(q.prio.items()))
                        rec.outcome(q.ref.canon()[0])
                # the saved buffer itself continues unaffected
                p.do(OPS[0])
                p.do(OPS[1])
                p.check(rec, 'continuing after save')


def gen_pending(tier):
    deep = tier == 'thorough'
    for cls in ('per', 'pe'):
        for n in ((1, 2) if cls == 'per' else (1,)):
            for cap in (None, 2, 3):
                for first in range(4):
                    yield [cls, n, cap, first, 5 if deep else 4]


@chk.part('pending reports', gen_pending, bound='prioritized memories saved '
          'between a sample of every size and the report of its errors, after '
          'every history of up to 4 (5) operations')
def pending(rec, case):
    cls, n, cap, first, depth = case
    np.random.seed(chk.seed)

    def report(q, keys):
        errs = [float((3 * k) % 5) for k in keys]
        q.buf.update_errors(errs)
        for k, e in zip(keys, errs):
            q.prio[k] = e + 1.0
            q.max = max(q.max, e + 1.0)
    with Tmp() as d:
        path = os.path.join(d, 'buf.pkl')
        for ln in range(depth):
            for tail in itertools.product(range(4), repeat=ln):
                hist = [OPS[o] for o in (first,) + tail]
                for k in itertools.count(1):
                    p = Pair(cls, n, cap)
                    for op in hist:
                        p.do(op)
                    if k > len(ref_items(p.ref)):
                        break
                    got = (p.buf.sample(k) if cls == 'per'
                           else p.buf.sample_episodes(k)[0])
                    keys = [p.key(it) for it in got]
                    p.buf.save(path)
                    q = Pair(cls, n, cap)
                    q.buf.load(path)
                    q.i = p.i
                    q.ref = copy.deepcopy(p.ref)
                    q.ref.pending.clear() if isinstance(
                        q.ref, NStepRef) else q.ref.current.clear()
                    q.prio, q.max = dict(p.prio), p.max
                    for x, what in ((p, 'saved'), (q, 'loaded')):
                        report(x, keys)
                        x.do(OPS[1])
                        x.check(rec, '{} {} with {} items sampled, then '
                                'reported on the {} one'.format(
                                    cls, hist, k, what))
                        rec.trans()
                    rec.trace()
                    rec.state(cls, n, cap, hist, k)


def gen_legacy(tier):
    top = 6 if tier == 'thorough' else 5
    for cls in ('uniform', 'episodic'):
        for n in range(0, top):
            for maxlen in (None, 2, 3):
                for ends in itertools.product((False, True), repeat=n):
                    yield [cls, list(ends), maxlen]


@chk.part('legacy', gen_legacy, bound='files of the old format (a queue of '
          'transitions) with 0..4 (5) items, all patterns of terminals, '
          'bound None,2,3; with additions afterwards')
def legacy(rec, case):
    from chainerrl.replay_buffer import batch_experiences
    cls, ends, maxlen = case
    items = [dict(state=np.full(1, i, dtype=np.float32), action=i, reward=0.,
                  next_state=np.full(1, i + 1, dtype=np.float32),
                  next_action=0, is_state_terminal=e)
             for i, e in enumerate(ends)]
    dq = collections.deque(items, maxlen=maxlen)
    with Tmp() as d:
        path = os.path.join(d, 'old.pkl')
        with open(path, 'wb') as f:
            pickle.dump(dq, f)
        buf = make(cls, 1, maxlen)
        buf.load(path)
    episodes, cur = [], []
    for t in dq:
        cur.append(t)
        if t['is_state_terminal']:
            episodes.append(cur)
            cur = []
    flat = list(dq)
    for extra in range(3):
        rec.expect(len(buf) == len(flat), lambda: 'len {} want {}'.format(
            len(buf), len(flat)))
        got = buf.sample(len(flat))
        want = sorted(t['action'] for t in flat)
        rec.eq(sorted(w[0]['action'] for w in got), want, 'contents')
        if flat:
            b = batch_experiences(got, np, lambda x: x, 0.9)
            rec.eq(sorted(b['action'].tolist()), want, 'batch')
            rec.eq(sorted(b['state'][:, 0].tolist()), [float(a) for a in want],
                   'batch of states')
        if cls == 'episodic':
            rec.eq(buf.n_episodes, len(episodes), 'episodes')
            rec.eq(sorted([t['action'] for t in e]
                          for e in buf.sample_episodes(len(episodes))),
                   sorted([t['action'] for t in e] for e in episodes),
                   'episodes')
            if maxlen is not None:
                break       # what is discarded then is best effort
        t = dict(state=np.full(1, 100 + extra, dtype=np.float32),
                 action=100 + extra, reward=0., is_state_terminal=True,
                 next_state=np.zeros(1, dtype=np.float32), next_action=0)
        buf.append(**t)
        flat.append(t)
        episodes.append([t])
        if cls == 'uniform' and maxlen is not None:
            flat = flat[-maxlen:]
        rec.trans()
        rec.state(case, extra)
    rec.trace()
    rec.outcome(len(flat), maxlen)


ANSWERS = ['y', 'YES', 'n', 'No', '', 'maybe']


def gen_ask(tier):
    for n in range(0, 3):
        for suffix in ('', '_x'):
            yield [n, suffix, 4 if tier == 'thorough' else 3]


@chk.part('ask', gen_ask, bound='all sequences of up to 3 (4) answers out of '
          'six when asked whether to save, buffers of 0..2 transitions')
def ask(rec, case):
    import builtins
    from chainerrl import replay_buffers as rb
    import importlib
    ta = importlib.import_module('chainerrl.experiments.train_agent')
    n, suffix, depth = case
    for seq in itertools.product(ANSWERS, repeat=depth):
        valid = [a.lower()[0] for a in seq if a not in ('', 'maybe')]
        if not valid:
            continue

        class Agent(object):
            replay_buffer = rb.ReplayBuffer()
        for i in range(n):
            Agent.replay_buffer.append(state=i, action=i, reward=0.,
                                       next_state=i + 1, next_action=0,
                                       is_state_terminal=True)
        left = list(seq)
        old = builtins.input
        builtins.input = lambda *a: left.pop(0)
        try:
            with Tmp() as d:
                ta.ask_and_save_agent_replay_buffer(
                    Agent, 7, d, suffix=suffix)
                files = os.listdir(d)
                want = ['7{}.replay.pkl'.format(suffix)] \
                    if valid[0] == 'y' else []
                rec.eq(files, want, 'answers {}'.format(seq))
                if files:
                    b = rb.ReplayBuffer()
                    b.load(os.path.join(d, files[0]))
                    rec.eq(sorted(w[0]['state'] for w in b.sample(n)),
                           list(range(n)), 'contents')
        finally:
            builtins.input = old
        asked = depth - len(left)
        rec.eq(asked, [a not in ('', 'maybe') for a in seq].index(True) + 1,
               'number of questions')
        rec.trace()
        rec.trans(asked)
        rec.state(case, seq)
        rec.outcome(seq, valid[0])


if __name__ == '__main__':
    raise SystemExit(chk.main())
