"""C28: environment wrappers change what they are for, and nothing else."""
import glob
import itertools
import json

import numpy as np

from mc.choices import explore
from mc.core import Check
from mc.core import Tmp

chk = Check(
    'C28',
    rule='wrapped scripted environments are driven through every sequence of '
         'steps and resets up to a length with every answer (reward, end, '
         'request to be reset) of the environment, and every outcome of '
         'random generators; each answer is compared with the definition of '
         'the wrapper applied to what the environment did',
    assumptions=[])


def make_env(ch, kind='box', rewards=(1.5,), ends=True, resets=False,
             low=(-2., 1.), high=(4., 1.5), shared=False):
    import gym

    class Scripted(gym.Env):
        metadata = {'render.modes': []}

        def __init__(self):
            if kind == 'box':
                self.action_space = gym.spaces.Box(
                    low=np.array(low, 'f'), high=np.array(high, 'f'))
            else:
                self.action_space = gym.spaces.Discrete(3)
            self.observation_space = gym.spaces.Box(
                low=-1., high=1., shape=(2,), dtype=np.float64)
            self.log = []
            self.n = 0

        def obs(self):
            self.n += 1
            return np.array([0.1 * self.n, -1. / self.n])

        def step(self, a):
            r = ch.pick(list(rewards), 'reward')
            done = bool(ch.choose(2, 'done')) if ends else False
            info = {'n': self.n}
            if resets and ch.choose(2, 'needs_reset'):
                info['needs_reset'] = True
            out = self.obs(), r, done, info
            self.log.append(('step', np.array(a).tolist(), out[0].copy(), r,
                             done, dict(info)))
            return out

        def reset(self):
            o = self.obs()
            self.log.append(('reset', o.copy()))
            return o

        def render(self, mode='human', **kw):
            self.log.append(('render', mode, kw))
            return 'picture'

        def seed(self, seed=None):
            self.log.append(('seed', seed))
            return [seed]

        def close(self):
            self.log.append(('close',))
    return Scripted()


def same_step(rec, out, want, what):
    rec.eq(out[0], want[0], lambda: what() + ': observation')
    rec.eq(out[1], want[1], lambda: what() + ': reward')
    rec.eq(bool(out[2]), want[2], lambda: what() + ': done')
    rec.eq(out[3], want[3], lambda: what() + ': info')


def drive(rec, ch, w, env, depth, actions, on_step, on_reset, what,
          first_reset=True):
    """All op sequences: `on_step(outer, inner events)`."""
    ops = []

    def label():
        return '{} after {}'.format(what(), ops)
    for t in range(depth):
        k = 0 if t == 0 and first_reset else ch.choose(len(actions) + 1, 'op')
        n = len(env.log)
        if k == 0:
            ops.append('reset')
            out = w.reset()
            on_reset(out, env.log[n:], label)
        else:
            a = actions[k - 1]
            ops.append(('step', a))
            given = np.array(a, 'f') if isinstance(a, tuple) else a
            keep = np.array(given)
            out = w.step(given)
            rec.eq(np.array(given), keep, lambda: label() +
                   ': the action was changed')
            on_step(out, a, env.log[n:], label)
        rec.trans()
    rec.trace()
    rec.state(len(env.log), len(ops))


def inner_step(rec, events, label, n=1):
    steps = [e for e in events if e[0] == 'step']
    rec.eq(len(steps), n, lambda: label() + ': steps of the environment')
    rec.eq(sum(1 for e in events if e[0] == 'reset'), 0,
           lambda: label() + ': resets in a step')
    return steps[-1]


def plain_reset(rec, out, events, label):
    rec.eq([e[0] for e in events if e[0] != 'render'], ['reset'],
           lambda: label() + ': calls of a reset')
    rec.eq(out, [e for e in events if e[0] == 'reset'][0][1],
           lambda: label() + ': observation of a reset')


def run_all(rec, f):
    n = sum(1 for _ in explore(f))
    rec.note_add('executions', n)


# -------------------------------------------------------------- time limit

@chk.part('time limit', lambda tier: [
    [limit, d, own] for limit in (1, 2, 3, 4) for own in (False, True)
    for d in ((6 if tier == 'thorough' else 5),)],
    bound='limits 1-4, all sequences of 5 (thorough 6) steps and resets, all '
    'ends (and requests to be reset) of the environment')
def time_limit(rec, case):
    limit, depth, own = case
    from chainerrl import wrappers

    def run(ch):
        env = make_env(ch, resets=own)
        w = wrappers.ContinuingTimeLimit(env, max_episode_steps=limit)
        count = [0]

        def on_step(out, a, events, label):
            s = inner_step(rec, events, label)
            count[0] += 1
            info = dict(s[5])
            if count[0] >= limit:
                info['needs_reset'] = True
            got = dict(out[3])
            if not got.get('needs_reset', True):
                del got['needs_reset']
            rec.eq(s[1], list(a), lambda: label() + ': action')
            same_step(rec, (out[0], out[1], out[2], got),
                      (s[2], s[3], s[4], info), label)
            rec.outcome((count[0], s[4], 'needs_reset' in info))

        def on_reset(out, events, label):
            count[0] = 0
            plain_reset(rec, out, events, label)
        drive(rec, ch, w, env, depth, [(0.5, 0.25)], on_step, on_reset,
              lambda: 'limit {}'.format(limit))
    run_all(rec, run)

    def unreset(ch):
        env = make_env(ch)
        w = wrappers.ContinuingTimeLimit(env, max_episode_steps=limit)
        try:
            w.step((0., 0.))
        except AssertionError:
            return
        rec.fail('stepping before a reset is accepted')
    run_all(rec, unreset)


# --------------------------------------------------- simple transformations

@chk.part('transformations', lambda tier: [
    [k, 5 if tier == 'thorough' else 4] for k in
    ('cast16', 'cast32', 'cast64', 'float32', 'scale2', 'scale-1', 'scale0',
     'render', 'composed')],
    bound='all sequences of 4 (thorough 5) steps and resets, all ends, '
    'rewards -2, 0, 0.5')
def transformations(rec, case):
    kind, depth = case
    from chainerrl import wrappers as W

    def run(ch):
        env = make_env(ch, rewards=(-2, 0, 0.5) if 'scale' in kind or
                       kind == 'composed' else (1.5,))
        scale, dtype, renders = 1, np.float64, 0
        w = env
        if kind.startswith('cast'):
            dtype = np.dtype('f' + str(int(kind[4:]) // 8))
            w = W.CastObservation(w, dtype)
            caster = w
        elif kind == 'float32':
            dtype = np.float32
            w = caster = W.CastObservationToFloat32(w)
        elif kind.startswith('scale'):
            scale = float(kind[5:])
            w = scaler = W.ScaleReward(w, scale)
        elif kind == 'render':
            renders = 1
            w = W.Render(w, mode='rgb_array', size=3)
        elif kind == 'composed':
            scale, dtype, renders = 0.25, np.float32, 1
            w = W.Render(W.ScaleReward(W.CastObservationToFloat32(w), 0.25),
                         mode='human')

        def rendered(events, label):
            r = [e for e in events if e[0] == 'render']
            rec.eq(len(r), renders, lambda: label() + ': calls of render')
            if kind == 'render':
                rec.eq(r[0][1:], ('rgb_array', {'size': 3}),
                       lambda: label() + ': arguments of render')
            if renders:
                rec.eq(events[-1][0], 'render', lambda: label() +
                       ': rendered before the environment moved')

        def obs(o, raw, label):
            rec.eq(o.dtype, np.dtype(dtype), lambda: label() + ': dtype')
            rec.eq(o, raw.astype(dtype), lambda: label() + ': observation')
            if kind.startswith('cast') or kind == 'float32':
                rec.eq(caster.original_observation, raw, lambda: label() +
                       ': original observation')

        def on_step(out, a, events, label):
            s = inner_step(rec, events, label)
            rec.eq(s[1], list(a), lambda: label() + ': action')
            obs(out[0], s[2], label)
            rec.eq(float(out[1]), float(scale * s[3]), lambda: label() +
                   ': reward')
            rec.eq(bool(out[2]), s[4], lambda: label() + ': done')
            rec.eq(out[3], s[5], lambda: label() + ': info')
            if kind.startswith('scale'):
                rec.eq(scaler.original_reward, s[3], lambda: label() +
                       ': original reward')
                rec.eq(scaler.scale, scale)
            rendered(events, label)
            rec.outcome((s[3], s[4]))

        def on_reset(out, events, label):
            rec.eq([e[0] for e in events if e[0] != 'render'], ['reset'],
                   lambda: label() + ': calls of a reset')
            obs(out, events[0][1], label)
            rendered(events, label)
        drive(rec, ch, w, env, depth, [(0.5, 0.25)], on_step, on_reset,
              lambda: kind)
        w.seed(4)
        rec.eq(env.log[-1], ('seed', 4), 'seed')
        w.close()
        rec.eq(env.log[-1], ('close',), 'close')
    run_all(rec, run)


@chk.part('normalized actions', lambda tier: [[i] for i in range(4)],
          bound='four action spaces, actions on a grid of 5 values per '
          'dimension, float32 and float64')
def normalized(rec, case):
    from chainerrl import wrappers as W
    low, high = [((-2., 1.), (4., 1.5)), ((0., 0.), (1., 2.)),
                 ((-1., -1.), (1., 1.)), ((-3., -5.), (-2., 5.))][case[0]]
    grid = [-1., -0.5, 0., 0.25, 1.]

    def run(ch):
        env = make_env(ch, low=low, high=high, ends=False)
        w = W.NormalizeActionSpace(env)
        rec.eq(w.action_space.low, -np.ones(2, 'f'), 'low')
        rec.eq(w.action_space.high, np.ones(2, 'f'), 'high')
        rec.eq(env.action_space.low, np.array(low, 'f'), 'original low')
        rec.eq(env.action_space.high, np.array(high, 'f'), 'original high')
        w.reset()
        for dtype in ('f', 'd'):
            for a in itertools.product(grid, repeat=2):
                given = np.array(a, dtype)
                w.step(given)
                rec.eq(given, np.array(a, dtype), 'the action was changed')
                want = [lo + (x + 1) / 2 * (hi - lo) for x, lo, hi in
                        zip(a, low, high)]
                rec.close(np.array(env.log[-1][1]), np.array(want),
                          'action {} of {} - {}'.format(a, low, high),
                          rtol=1e-6, atol=1e-6)
                rec.trans()
        rec.trace()
    run_all(rec, run)
    if case[0] == 0:
        env = make_env(None, kind='discrete')
        try:
            W.NormalizeActionSpace(env)
        except AssertionError:
            return
        rec.fail('a discrete action space is accepted')


# ---------------------------------------------------------- random actions

class FakeState(object):
    """A random generator whose answers are choices with probabilities."""

    ch = None
    N = 8

    def __init__(self, seed=None):
        self.log = [] if seed is None else [seed]

    def seed(self, seed=None):
        self.log.append(seed)

    def rand(self, *shape):
        assert not shape
        k = FakeState.ch.choose(self.N, 'u')
        FakeState.prob /= self.N
        return (k + 0.5) / self.N
    random_sample = random = rand

    def uniform(self, low=0., high=1.):
        return low + (high - low) * self.rand()

    def randint(self, low, high=None):
        if high is None:
            low, high = 0, low
        n = int(high) - int(low)
        FakeState.prob /= n
        return low + FakeState.ch.choose(n, 'int')

    def choice(self, n):
        return self.randint(n)


@chk.part('random actions', lambda tier: [[f, 2] for f in
                                          (0, 0.25, 0.5, 1)],
          bound='fractions 0, 1/4, 1/2, 1, all random outcomes of 2 steps')
def random_actions(rec, case):
    fraction, depth = case
    from chainerrl import wrappers as W
    real = np.random.RandomState
    probs = {}

    def run(ch):
        FakeState.ch, FakeState.prob = ch, 1.
        np.random.RandomState = FakeState
        try:
            env = make_env(ch, kind='discrete', ends=False)
            w = W.RandomizeAction(env, fraction)
            o = w.reset()
            rec.eq(o, env.log[-1][1], 'reset')
            seen = []
            for t in range(depth):
                n = len(env.log)
                out = w.step(1)
                rec.eq(len(env.log), n + 1, 'steps')
                s = env.log[-1]
                same_step(rec, out, (s[2], s[3], s[4], s[5]),
                          lambda: 'step')
                seen.append(s[1])
                rec.trans()
        finally:
            np.random.RandomState = real
        probs[tuple(seen)] = probs.get(tuple(seen), 0) + FakeState.prob
        rec.trace()
        rec.outcome(seen)
    run_all(rec, run)
    one = {a: fraction / 3 + (1 - fraction) * (a == 1) for a in range(3)}
    for seq in itertools.product(range(3), repeat=depth):
        want = np.prod([one[a] for a in seq])
        rec.close(probs.get(seq, 0.), want, 'fraction {}: probability of the '
                  'actions {}'.format(fraction, seq), rtol=1e-9, atol=1e-12)


@chk.part('seeded random actions', lambda tier: [[0]],
          bound='3 seeds, 40 actions, seeded at construction and again')
def seeded(rec, case):
    from mc.choices import Choices
    from chainerrl import wrappers as W

    def acts(w, env):
        w.reset()
        for _ in range(40):
            w.step(2)
        return [e[1] for e in env.log if e[0] == 'step'][-40:]
    seen = set()
    for seed in (0, 1, 7):
        env = make_env(Choices(), kind='discrete', ends=False)
        w = W.RandomizeAction(env, 0.5)
        rec.eq(w.seed(seed), [seed], 'seeds')
        rec.eq(env.log[-1], ('seed', seed), 'seed of the environment')
        first = acts(w, env)
        w.seed(seed)
        rec.eq(acts(w, env), first, 'actions after seeding again')
        np.random.seed(3)
        w2 = W.RandomizeAction(make_env(Choices(), kind='discrete',
                                        ends=False), 0.5)
        w2.seed(seed)
        rec.eq(acts(w2, w2.env), first, 'actions of another wrapper')
        seen.add(tuple(first))
        rec.trace()
    rec.eq(len(seen), 3, 'different seeds give different actions')


# ----------------------------------------------------------------- monitor

@chk.part('monitor', lambda tier: [
    [mode, 6 if tier == 'thorough' else 5, upon] for mode in
    (None, 'training', 'evaluation') for upon in (False, True)],
    bound='all sequences of 5 (thorough 6) steps and resets, rewards 1 and '
    '-0.5, all ends, both modes')
def monitor(rec, case):
    mode, depth, upon = case
    from chainerrl import wrappers as W

    def run(ch):
        with Tmp('mon') as d:
            env = make_env(ch, rewards=(1., -0.5))
            asked = []
            w = W.Monitor(
                env, d, mode=mode, write_upon_reset=upon, video_callable=(
                    lambda e: asked.append(e)) if upon else False)
            episodes, ops = [], []
            over = True
            resets = 0
            for t in range(depth):
                k = 0 if t == 0 or over else ch.choose(2, 'op')
                if not k:
                    ops.append('reset')
                    o = w.reset()
                    rec.eq(o, env.log[-1][1], 'observation of a reset')
                    episodes.append([])
                    over = False
                    resets += 1
                else:
                    ops.append('step')
                    out = w.step((0., 1.))
                    s = env.log[-1]
                    same_step(rec, out, (s[2], s[3], s[4], s[5]),
                              lambda: 'monitor {}'.format(ops))
                    episodes[-1].append(s[3])
                    over = s[4]
                rec.trans()
            types = w.get_episode_lengths()
            w.close()
            with open(glob.glob(d + '/*.stats.json')[0]) as f:
                stats = json.load(f)
            done = [e for e in episodes if e]
            if upon:
                rec.eq(len(asked), resets, 'whether to record was asked')
            rec.eq(stats['episode_lengths'], [len(e) for e in done],
                   lambda: '{}: lengths'.format(ops))
            rec.eq(stats['episode_rewards'], [float(sum(e)) for e in done],
                   lambda: '{}: rewards'.format(ops))
            rec.eq(stats['episode_types'], [
                'e' if mode == 'evaluation' else 't'] * resets,
                lambda: '{} mode {}: types'.format(ops, mode))
            rec.eq(len(stats['timestamps']), len(done), 'timestamps')
            rec.expect(len(types) in (len(done), len(done) - 1), 'lengths')
            rec.trace()
            rec.state([len(e) for e in episodes])
            rec.outcome([len(e) for e in done])
    run_all(rec, run)


# --------------------------------------------------------------- modifiers

@chk.part('modifiers', lambda tier: [
    [k, (6 if tier == 'thorough' else 5) - (k[0] == 'r')] for k in
    ('limit1', 'limit2', 'limit3', 'action', 'reward', 'clip', 'render',
     'repeat1', 'repeat2', 'repeat3', 'stacked')],
    bound='all sequences of 4-5 (thorough 5-6) steps and resets, all ends, '
    'rewards -2, 0.5')
def modifiers(rec, case):
    kind, depth = case
    from chainerrl.misc import env_modifiers as M

    def run(ch):
        env = make_env(ch, rewards=(-2., 0.5) if kind[0] != 'l' else (1.,))
        w = env
        limit, repeat = None, 1
        act, rew = (lambda a: a), (lambda r: r)
        if kind.startswith('limit'):
            limit = int(kind[5:])
            M.make_timestep_limited(w, limit)
        elif kind == 'action':
            act = lambda a: tuple(2 * x for x in a)  # noqa
            M.make_action_filtered(w, act)
        elif kind == 'reward':
            rew = lambda r: 3 * r + 1  # noqa
            M.make_reward_filtered(w, rew)
        elif kind == 'clip':
            rew = lambda r: max(-1., min(0.25, r))  # noqa
            M.make_reward_clipped(w, -1., 0.25)
        elif kind == 'render':
            M.make_rendered(w, 'human', size=2)
        elif kind.startswith('repeat'):
            repeat = int(kind[6:])
            M.make_action_repeated(w, repeat)
        elif kind == 'stacked':
            limit = 2
            rew = lambda r: 3 * r + 1  # noqa
            M.make_timestep_limited(w, 2)
            M.make_reward_filtered(w, rew)
        count = [0]

        def on_step(out, a, events, label):
            steps = [e for e in events if e[0] == 'step']
            ended = [i for i, s in enumerate(steps) if s[4]]
            want = ended[0] + 1 if ended else repeat
            rec.eq(len(steps), want, lambda: label() + ': steps')
            s = steps[-1]
            count[0] += 1
            for e in steps:
                rec.close(np.array(e[1]), np.array(act(a)),
                          lambda: label() + ': action', rtol=1e-6)
            done = s[4] or (limit is not None and count[0] >= limit)
            same_step(rec, (out[0], float(out[1]), out[2], out[3]), (
                s[2], float(sum(rew(e[3]) for e in steps)), done, s[5]),
                label)
            if kind == 'render':
                rec.eq(events[-1], ('render', 'human', {'size': 2}),
                       lambda: label() + ': render')
            rec.outcome((count[0], done))

        def on_reset(out, events, label):
            count[0] = 0
            plain_reset(rec, out, events, label)
        drive(rec, ch, w, env, depth, [(0.5, 0.25)], on_step, on_reset,
              lambda: kind)
        w.close()
        rec.eq(env.log[-1], ('close',), 'close')
    run_all(rec, run)


@chk.part('reward filters', lambda tier: [
    [k, tau, 5 if tier == 'thorough' else 4] for k in
    ('normalized', 'average') for tau in (1e-3, 0.25, 1.)],
    bound='all sequences of 4 (thorough 5) of the rewards -1, 0, 0.5, 3')
def reward_filters(rec, case):
    kind, tau, n = case
    from chainerrl.misc import reward_filter as R
    for rs in itertools.product((-1., 0., 0.5, 3.), repeat=n):
        for scale, eps in ((1, 1e-1), (2, 1e-3)):
            if kind == 'average':
                if scale != 1:
                    continue
                f = R.AverageRewardFilter(tau=tau)
            else:
                f = R.NormalizedRewardFilter(tau=tau, scale=scale, eps=eps)
            for t in range(n):
                m1 = sum(tau * (1 - tau) ** (t - i) * rs[i]
                         for i in range(t + 1))
                m2 = sum(tau * (1 - tau) ** (t - i) * rs[i] ** 2
                         for i in range(t + 1))
                got = f(rs[t])
                if kind == 'average':
                    want = rs[t] - m1
                else:
                    want = scale * (rs[t] - m1) / max(
                        m2 - m1 ** 2, eps) ** 0.5
                rec.close(got, want, lambda: '{} tau {} rewards {}'.format(
                    kind, tau, rs[:t + 1]), rtol=1e-6, atol=1e-8)
                rec.trans()
        rec.trace()
        rec.state(rs)


if __name__ == '__main__':
    raise SystemExit(chk.main())
