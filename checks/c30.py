"""C30: vector frame stacking is frame stacking of every environment."""
import itertools

import numpy as np

from mc.core import Check

chk = Check(
    'C30',
    rule='every sequence of steps and masked resets up to a length is run on '
         'a frame stack over a vector environment and on frame stacks over '
         'its environments alone; every stacked observation ever returned is '
         'compared, at once and again at the end',
    assumptions=[])

SHAPES = {'chw': (1, 2, 3), 'hwc': (2, 3, 1), 'two': (2, 2, 2),
          'flat': (3,), 'mat': (2, 3), 'row': (3, 2), 'neg': (2, 3, 2)}
MASKS = [lambda m: np.array(m, bool), list, lambda m: [bool(x) for x in m],
         lambda m: tuple(bool(x) for x in m), lambda m: np.array(m, float)]
AXIS = {'chw': 0, 'hwc': 2, 'two': 1, 'flat': 0, 'mat': 1, 'row': 0,
        'neg': -1}


def make_env(i, shape, dtype='u1', reuse=False):
    import gym

    class Env(gym.Env):
        def __init__(self):
            self.action_space = gym.spaces.Discrete(4)
            self.observation_space = gym.spaces.Box(
                low=np.arange(np.prod(shape)).reshape(shape).astype(dtype),
                high=100 + np.arange(np.prod(shape)).reshape(
                    shape).astype(dtype), dtype=np.dtype(dtype))
            self.n = 0
            self.log = []

        def obs(self):
            self.n += 1
            x = (np.arange(np.prod(shape)) * 3 + 20 * i + 5 * self.n)
            return (x % 97).reshape(shape).astype(dtype)

        def step(self, a):
            self.log.append(('step', a))
            return (self.obs(), i + 0.5 * self.n, self.n % 3 == 0,
                    {'i': i, 'n': self.n})

        def reset(self):
            self.log.append(('reset',))
            return self.obs()

        def seed(self, seed=None):
            self.log.append(('seed', seed))
            return [seed]

        def close(self):
            self.log.append(('close',))
    return Env()


def ops_of(n):
    return [('step', 0), ('step', 2)] + [
        ('reset', m) for m in itertools.product((0, 1), repeat=n)] + [
            ('reset', None)]


def gen(tier):
    length = 5 if tier == 'thorough' else 4
    for kind in ('serial', 'process'):
        for n in (1, 2, 3):
            for k in (1, 2, 3, 4):
                for order in sorted(SHAPES):
                    if order not in ('chw', 'hwc', 'two') and (
                            k % 2 or n == 3) and tier != 'thorough':
                        continue
                    if kind == 'process' and (k, order) not in (
                            (2, 'chw'), (4, 'hwc')):
                        continue
                    for first in range(len(ops_of(n))):
                        yield [kind, n, k, order, first, length - (n == 3) -
                               (kind == 'process')]


@chk.part('stacks', gen, bound='all sequences of 4 (3 environments: 3; '
          'processes one less; thorough one more) of 5-11 operations after a '
          'reset, stacks of 1-4 frames of 1 to 3 dimensions on every axis; '
          'masks as arrays, lists and tuples of numbers or truth values', timeout=600)
def stacks(rec, case):
    kind, n, k, order, first, length = case
    import chainerrl
    from chainerrl import wrappers
    from chainerrl.wrappers.atari_wrappers import FrameStack
    shape = SHAPES[order]
    axis = AXIS[order]
    ops = ops_of(n)
    live = None
    turn = first
    for tail in itertools.product(ops, repeat=length - 1):
        seq = (ops[first],) + tail

        def what():
            return '{} n={} k={} {} {}'.format(kind, n, k, order, seq)
        if kind == 'serial':
            inner = [make_env(i, shape) for i in range(n)]
            vec = chainerrl.envs.SerialVectorEnv(inner)
        elif live is None:
            vec = live = chainerrl.envs.MultiprocessVectorEnv(
                [lambda i=i: make_env(i, shape) for i in range(n)])
            inner = None
        w = wrappers.VectorFrameStack(vec, k, stack_axis=axis)
        if kind == 'serial' or live is not None and inner is None:
            alone = [make_env(i, shape) for i in range(n)]
            inner = inner or alone
        refs = []
        for e in alone:
            if order not in ('chw', 'hwc'):
                r = FrameStack(e, k, 'chw')
                r.stack_axis = axis
            else:
                r = FrameStack(e, k, order)
            refs.append(r)
        rec.eq(w.num_envs, n, 'num_envs')
        rec.eq(w.observation_space.dtype, np.dtype('u1'), 'dtype')
        space = alone[0].observation_space
        rec.eq(w.observation_space.low, np.concatenate(
            [space.low] * k, axis=axis), 'low')
        rec.eq(w.observation_space.high, np.concatenate(
            [space.high] * k, axis=axis), 'high')
        rec.eq(w.observation_space.shape, w.observation_space.low.shape,
               'shape of the space')
        kept = []
        last = [None] * n

        def got(obs, want):
            rec.eq(len(obs), n, lambda: what() + ': observations')
            for i in range(n):
                o = np.array(obs[i])
                rec.eq(o, want[i], lambda: '{}: stack of env {}'.format(
                    what(), i))
                kept.append((obs[i], want[i]))
        obs = w.reset()
        last = [np.array(r.reset()) for r in refs]
        got(obs, last)
        for op in seq:
            if op[0] == 'step':
                acts = [op[1] + i for i in range(n)]
                o, r, d, info = w.step(list(acts))
                want = [e.step(a) for e, a in zip(refs, acts)]
                last = [np.array(x[0]) for x in want]
                got(o, last)
                rec.eq(list(r), [x[1] for x in want], what)
                rec.eq(list(d), [x[2] for x in want], what)
                rec.eq(list(info), [x[3] for x in want], what)
            else:
                mask = op[1]
                if mask is None:
                    o = w.reset()
                else:
                    o = w.reset(MASKS[turn % len(MASKS)](mask))
                    turn += 1
                for i in range(n):
                    if mask is None or not mask[i]:
                        last[i] = np.array(refs[i].reset())
                got(o, last)
            rec.trans()
        for lazy, want in kept:
            rec.eq(np.array(lazy), want, lambda: what() +
                   ': an earlier observation changed')
        if kind == 'serial':
            w.seed([7 + i for i in range(n)])
            w.close()
            for i in range(n):
                rec.eq(inner[i].log, alone[i].log + [
                    ('seed', 7 + i), ('close',)], lambda: what() + ': calls')
        rec.trace()
        rec.state(n, k, [len(e.log) for e in alone], order)
        rec.outcome([e.log[-1][0] for e in alone])
    if live is not None:
        w.close()


@chk.part('wrapper', lambda tier: [[n] for n in (1, 2, 3)],
          bound='1-3 environments, all masks given by position or name')
def wrapper(rec, case):
    n, = case
    import chainerrl
    from chainerrl.wrappers.vector_frame_stack import VectorEnvWrapper
    for mask in itertools.product((False, True), repeat=n):
        for named in (False, True):
            inner = [make_env(i, (2,)) for i in range(n)]
            alone = [make_env(i, (2,)) for i in range(n)]
            vec = chainerrl.envs.SerialVectorEnv(inner)
            w = VectorEnvWrapper(vec)
            rec.eq(w.num_envs, n, 'num_envs')
            rec.expect(w.unwrapped is vec, 'unwrapped')
            rec.expect(w.action_space is vec.action_space, 'action space')
            rec.eq(list(w.reset()), [e.reset() for e in alone], 'reset')
            o, r, d, info = w.step([1] * n)
            want = [e.step(1) for e in alone]
            rec.eq([list(o), list(r), list(d)],
                   [[x[i] for x in want] for i in range(3)], 'step')
            o = w.reset(mask=mask) if named else w.reset(mask)
            rec.eq(list(o), [x[0] if m else e.reset() for m, x, e in zip(
                mask, want, alone)], 'masked reset')
            rec.trans(3)
            rec.trace()


if __name__ == '__main__':
    raise SystemExit(chk.main())
