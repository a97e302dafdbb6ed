"""C01: replay memory holds exactly the n-step windows of the stream."""
import itertools

import numpy as np

from mc.core import Check
from mc.refs import NStepRef, OPS2, OPS1, apply_nstep_op, window_key

chk = Check(
    'C01',
    rule='every sequence of append/terminal-append/stop operations over 1 or '
         '2 environments up to the depth bound, for every (buffer class, n, '
         'capacity); one execution per sequence on a fresh real buffer, '
         'compared with a list model; an outcome is the set of stored '
         'windows',
    assumptions=['transition contents are opaque distinct tokens',
                 'histories longer than the depth bound are not explored'])


def make(cls, n, cap):
    from chainerrl import replay_buffers
    if cls == 'uniform':
        return replay_buffers.ReplayBuffer(capacity=cap, num_steps=n)
    return replay_buffers.PrioritizedReplayBuffer(
        capacity=cap, num_steps=n, betasteps=10)


def contents(rec, buf, cls):
    n = len(buf)
    if n == 0:
        return []
    got = buf.sample(n)
    rec.expect(len(got) == n, 'sample(len) returned {} of {}'.format(
        len(got), n))
    return sorted(window_key(w, ignore=('weight',)) for w in got)


def gen_hist(tier):
    deep = tier == 'thorough'
    for cls in ('uniform', 'per'):
        # one environment, deep
        d = 10 if deep else 8
        for n in (1, 2, 3, 4, 5):
            for cap in (None, 1, 2, 3, 4):
                for first in range(len(OPS1)):
                    yield [cls, n, cap, 1, d, first]
        # two interleaved environments
        d = 7 if deep else 5
        for n in (1, 2, 3):
            for cap in (None, 1, 2, 4):
                for first in range(len(OPS2)):
                    yield [cls, n, cap, 2, d, first]


@chk.part('histories', gen_hist, bound='1 env: depth 8 (10 thorough), '
          'n<=5; 2 envs: depth 5 (7 thorough), n<=3; capacities None,1..4')
def histories(rec, case):
    cls, n, cap, envs, depth, first = case
    ops = OPS1 if envs == 1 else OPS2
    lens = range(1, depth + 1)
    np.random.seed(chk.seed)
    for ln in lens:
        for tail in itertools.product(range(len(ops)), repeat=ln - 1):
            seq = (first,) + tail
            buf = make(cls, n, cap)
            ref = NStepRef(n, cap)
            for i, o in enumerate(seq):
                apply_nstep_op(buf, ref, ops[o], i)
            rec.trans(len(seq))
            rec.expect(len(buf) == len(ref.memory),
                       lambda: 'len {} want {} after {}'.format(
                           len(buf), len(ref.memory),
                           [ops[o] for o in seq]))
            want = sorted(window_key(w) for w in ref.memory)
            got = contents(rec, buf, cls)
            rec.expect(got == want,
                       lambda: 'after {}: stored windows {} want {}'.format(
                           [ops[o] for o in seq], got, want))
            rec.trace()
            rec.state(cls, n, cap, ref.canon())
            rec.outcome(want)


# ---------------------------------------------------------------- batching
def gen_batch(tier):
    maxlen = 4 if tier == 'thorough' else 3
    rewards = (0.0, 1.0, -2.5)
    for gamma in (0.0, 0.5, 0.9, 1.0):
        for nw in (1, 2):
            for lens in itertools.product(range(1, maxlen + 1), repeat=nw):
                yield [gamma, list(lens), list(rewards)]


@chk.part('batching', gen_batch, bound='1-2 windows of 1..3 (4) transitions, '
          'rewards {0,1,-2.5}, gamma {0,.5,.9,1}, every terminal/next_action '
          'pattern')
def batching(rec, case):
    from chainerrl.replay_buffer import batch_experiences
    gamma, lens, rewards = case
    for term in itertools.product((False, True), repeat=len(lens)):
        for has_na in itertools.product((False, True), repeat=len(lens)):
            for rs in itertools.product(rewards, repeat=sum(lens)):
                it = iter(rs)
                exps = []
                for w, ln in enumerate(lens):
                    exp = []
                    for k in range(ln):
                        exp.append(dict(
                            state=np.array([w, k], dtype='f'),
                            action=10 * w + k, reward=next(it),
                            next_state=np.array([w, k + 1], dtype='f'),
                            next_action=(100 + 10 * w + k) if has_na[w]
                            else None,
                            is_state_terminal=term[w] and k == ln - 1))
                    exps.append(exp)
                b = batch_experiences(exps, np, lambda x: x * 2 + 1, gamma)
                rec.trans()
                rec.eq(b['state'], np.array(
                    [e[0]['state'] * 2 + 1 for e in exps]), 'state')
                rec.eq(b['next_state'], np.array(
                    [e[-1]['next_state'] * 2 + 1 for e in exps]),
                    'next_state')
                rec.eq(b['action'], np.array([e[0]['action'] for e in exps]),
                       'action')
                want_r = []
                for e in exps:
                    acc = 0.0
                    for tr in reversed(e):
                        acc = tr['reward'] + gamma * acc
                    want_r.append(acc)
                rec.close(b['reward'], want_r, 'n-step reward of {}'.format(
                    exps), rtol=1e-5)
                rec.close(b['discount'], [gamma ** len(e) for e in exps],
                          'discount', rtol=1e-5)
                rec.eq(b['is_state_terminal'],
                       np.array([float(t) for t in term]), 'terminal')
                if all(has_na):
                    rec.eq(b['next_action'], np.array(
                        [e[-1]['next_action'] for e in exps]), 'next_action')
                else:
                    rec.expect('next_action' not in b,
                               'next_action present although some transition '
                               'has none')
                rec.trace()
                rec.state(gamma, lens, term, has_na, rs)
                rec.outcome(want_r, term, has_na)


if __name__ == '__main__':
    raise SystemExit(chk.main())
