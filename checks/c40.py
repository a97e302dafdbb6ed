"""C40: a run is a function of its seed."""
import itertools
import json
import os
import random
import subprocess
import sys

import chainer
import numpy as np

import chainerrl
from chainerrl import (experiments, explorers, links, misc, policies,
                       q_functions, v_functions)
from chainerrl.agents import a3c, acer, iqn
from gym import spaces
from mc import agents as G
from mc.core import Check, Tmp

chk = Check(
    'C40',
    rule='every agent class with every kind of exploration and memory is '
         'built and trained by the real training loops after set_random_seed, '
         'following every sequence of earlier uses of randomness up to a '
         'length; all must produce the same actions and learned parameters, '
         'also in a new interpreter with another hash seed',
    assumptions=['the environment is deterministic',
                 'equal within 1e-4: computations themselves may be '
                 'reordered by the platform'])

# networks keep their own random initialization here
G.fill = lambda link, *a, **k: link


class Env(object):
    """Deterministic; observations and rewards depend on all actions."""

    action_space = observation_space = spec = None

    def __init__(self, log, k=0):
        self.log, self.h, self.t, self.n = log, 0.1 + k, 0, k

    def obs(self):
        return np.asarray([np.sin(self.h), np.cos(3 * self.h)],
                          dtype=np.float32)

    def reset(self):
        self.t = 0
        self.n += 1
        return self.obs()

    def step(self, action):
        a = float(np.sum(action))
        self.log.append(a)
        self.h = (self.h * 1.7 + a + 1) % 5
        self.t += 1
        return self.obs(), np.sin(self.h + a), self.t >= 3 + self.n % 2, {}

    def close(self):
        pass


DEX = {
    'eps': lambda: explorers.ConstantEpsilonGreedy(
        0.5, lambda: np.random.randint(3)),
    'decay': lambda: explorers.LinearDecayEpsilonGreedy(
        1.0, 0.1, 10, lambda: np.random.randint(3)),
    'boltzmann': lambda: explorers.Boltzmann(),
    'greedy': lambda: explorers.Greedy(),
}
CEX = {
    'gauss': lambda: explorers.AdditiveGaussian(0.5),
    'ou': lambda: explorers.AdditiveOU(sigma=0.5),
}

CONFIGS = []
for _n in G.VALUE:
    CONFIGS.append((_n, 'eps', 'replay', None))
    CONFIGS.append((_n, 'decay', 'per', None))
for _e in DEX:
    CONFIGS.append(('DQN', _e, 'replay', None))
    CONFIGS.append(('NSQ', _e, None, None))
for _n in ('DQN', 'DoubleDQN', 'IQN', 'CategoricalDQN'):
    CONFIGS.append((_n, 'eps', 'episodic', 'lstm'))
CONFIGS.append(('DQN', 'noisy', 'replay', None))
CONFIGS.append(('NSQ', 'decay', None, 'lstm'))
for _n in ('DDPG', 'PGT', 'TD3'):
    for _e in CEX:
        CONFIGS.append((_n, _e, 'replay', None))
CONFIGS.append(('SAC', None, 'replay', None))
for _n in ('PPO', 'TRPO', 'A2C', 'A3C', 'REINFORCE'):
    CONFIGS.append((_n, None, None, None))
for _n in ('ACER', 'PCL'):
    CONFIGS.append((_n, None, 'episodic', None))
for _n in ('PPO', 'TRPO', 'A3C', 'REINFORCE'):
    CONFIGS.append((_n, None, None, 'lstm'))
CONFIGS.append(('ACER', None, 'episodic', 'lstm'))
CONFIGS.append(('PCL', None, 'episodic', 'lstm'))
CONFIGS = sorted(set(CONFIGS), key=str)


def make(cfg):
    name, ex, buf, rec = cfg
    kw = {}
    if buf == 'per':
        kw.update(buf='per')
    elif buf:
        kw.update(buf=buf)
    if ex == 'noisy':
        from chainerrl.links import to_factorized_noisy
        real = G.value_model

        def noisy(*a, **k):
            m = real(*a, **k)
            to_factorized_noisy(m)
            return m
        G.value_model = noisy
        try:
            return G.build(name, rec, explorer=DEX['greedy'](), opt=G.adam,
                           **kw).agent
        finally:
            G.value_model = real
    if ex in DEX:
        kw['explorer'] = DEX[ex]()
    elif ex in CEX:
        kw['explorer'] = CEX[ex]()
    return G.build(name, rec, opt=G.adam, **kw).agent


def train(cfg, steps=14):
    """-> actions and all learned parameters of one run."""
    log = []
    agent = make(cfg)
    with Tmp() as d:
        if cfg[0] == 'A2C':
            from chainerrl.envs import SerialVectorEnv
            experiments.train_agent_batch(
                agent, SerialVectorEnv([Env(log, k) for k in range(2)]),
                steps, d)
        else:
            experiments.train_agent(agent, Env(log), steps, d)
    for k in range(3):
        if cfg[0] == 'A2C':
            log.append(float(np.sum(agent.batch_act([Env(log).obs()] * 2))))
        else:
            log.append(float(np.sum(agent.act(Env(log).obs() + k))))
    if cfg[0] != 'A2C':
        agent.stop_episode()
    out = {'actions': log}
    for k, v in sorted(vars(agent).items()):
        if isinstance(v, chainer.Link):
            for n, p in v.namedparams():
                out[k + n] = [] if p.array is None else \
                    np.asarray(p.array, dtype=float).ravel().tolist()
    out['next'] = [random.random(), float(np.random.rand()),
                   float(np.random.randn())]
    return out


def prior(op, cfg, seed):
    if op == 'py':
        random.seed(5)
        random.sample(range(9), 3)
    elif op == 'gauss':
        random.gauss(0, 1)
        np.random.randn(1)
    elif op == 'np':
        np.random.seed(8)
        np.random.randint(7, size=5)
    elif op == 'env':
        os.environ['CHAINER_SEED'] = '123'
    elif op == 'agent':
        train(cfg, 3)
    elif op == 'other':
        train(('DDPG', 'ou', 'replay', None), 3)
    elif op == 'seed':
        misc.set_random_seed(seed ^ 1)
    elif op == 'same':
        misc.set_random_seed(seed)
        np.random.rand(3)
    else:
        raise AssertionError(op)


OPS = ['py', 'gauss', 'np', 'env', 'agent', 'other', 'seed', 'same']


def compare(rec, got, want, how):
    rec.eq(sorted(got), sorted(want), 'parameters ' + how)
    for k in sorted(want, key=lambda k: (k != 'actions', k)):
        rec.expect(np.shape(got[k]) == np.shape(want[k])
                   and np.allclose(got[k], want[k], rtol=1e-4, atol=1e-6),
                   lambda: '{}: {} instead of {} {}'.format(
                       k, got[k][:20], want[k][:20], how))


def gen(tier):
    seen = set()
    for i, cfg in enumerate(CONFIGS):
        first = cfg[0] not in seen
        seen.add(cfg[0])
        for seed in (0, 2 ** 32 - 1):
            yield dict(config=i, seed=seed,
                       depth=2 + (seed == 0) if tier == 'thorough'
                       else 1 + (seed == 0 and first))


@chk.part('earlier randomness', gen, timeout=850,
          bound='all agent configurations x seeds 0 and 2^32-1 x every one '
                'of 8 earlier uses of randomness (every pair for one '
                'configuration per class; thorough: pairs, triples for seed '
                '0)')
def history(rec, c):
    cfg, seed = CONFIGS[c['config']], c['seed']
    misc.set_random_seed(seed)
    want = train(cfg)
    rec.eq(os.environ.get('CHAINER_SEED'), str(seed), 'CHAINER_SEED')
    n = 0
    for depth in range(1, c['depth'] + 1):
        for ops in itertools.product(OPS, repeat=depth):
            # training twice beforehand adds nothing to training once
            if sum(o in ('agent', 'other') for o in ops) > 1:
                continue
            for o in ops:
                prior(o, cfg, seed)
            misc.set_random_seed(seed, gpus=(-1,) if depth == 2 else ())
            compare(rec, train(cfg), want, 'after {} with seed {} ({})'.format(
                ops, seed, cfg))
            rec.trans()
            n += 1
    misc.set_random_seed(seed ^ 1)
    other = train(cfg)
    rec.expect(any(not np.array_equal(other[k], want[k]) for k in want
                   if k in other), 'seeds make no difference ({})'.format(cfg))
    rec.trace()
    rec.state(cfg, seed)
    rec.outcome(cfg, seed, n)


def sourcegen(tier):
    for seed in ([0, 1, 7, 2 ** 31, 2 ** 32 - 1]):
        yield dict(seed=seed)


@chk.part('sources', sourcegen, timeout=100,
          bound='5 seeds x every sequence of up to 3 earlier uses of the '
                'random sources')
def sources(rec, c):
    ops = ['py', 'gauss', 'np', 'env', 'seed', 'same']

    def draws():
        return [random.random(), random.gauss(0, 1), random.sample(
            range(100), 5), np.random.rand(3).tolist(),
            np.random.randn(3).tolist(), np.random.choice(50, 5).tolist(),
            np.random.permutation(9).tolist(), os.environ['CHAINER_SEED']]
    misc.set_random_seed(c['seed'])
    want = draws()
    rec.eq(want[-1], str(c['seed']), 'CHAINER_SEED')
    for n in range(4):
        for seq in itertools.product(ops, repeat=n):
            for o in seq:
                prior(o, None, c['seed'])
            misc.set_random_seed(c['seed'])
            rec.eq(draws(), want, 'after {}'.format(seq))
            rec.trans()
    rec.trace()
    rec.state(c['seed'])
    rec.outcome(c['seed'])


@chk.part('other seeds', lambda tier: [dict(n=0)], timeout=100,
          bound='all pairs of 80 seeds from the whole range')
def others(rec, c):
    seeds = {0, 2 ** 32 - 1}
    for k in (1, 4, 8, 15, 16, 17, 24, 30, 31, 32):
        for e in (-2, -1, 0, 1, 2, 7, 10 ** 4):
            seeds.add((2 ** k + e) % 2 ** 32)
    seen = {}
    for s in sorted(seeds):
        misc.set_random_seed(s)
        for src, x in (('random', tuple(random.random() for _ in range(3))),
                       ('numpy', tuple(np.random.rand(3)))):
            rec.expect((src, x) not in seen, lambda: 'seeds {} and {} give '
                       'the same numbers of {}'.format(
                           s, seen[src, x], src))
            seen[src, x] = s
        rec.trans()
        rec.state(s)
    rec.trace()
    rec.outcome('all differ')


def hashgen(tier):
    for h in ((1, 2) if tier == 'quick' else (1, 2, 3, 4, 5, 6)):
        for part in range(4):
            yield dict(hash=h, part=part)


@chk.part('another interpreter', hashgen, timeout=200,
          bound='all agent configurations in a new interpreter with 2 '
                '(thorough 6) hash seeds')
def interpreters(rec, c):
    mine = CONFIGS[c['part']::4]
    env = dict(os.environ, PYTHONHASHSEED=str(c['hash']))
    out = subprocess.run(
        [sys.executable, '-W', 'ignore', os.path.abspath(__file__),
         '--child', str(c['part'])],
        env=env, stdout=subprocess.PIPE, check=True).stdout.decode()
    got = json.loads(out.strip().split('\n')[-1])
    for cfg, g in zip(mine, got):
        misc.set_random_seed(4)
        compare(rec, g, json.loads(json.dumps(train(cfg))),
                'in an interpreter with hash seed {} ({})'.format(
                    c['hash'], cfg))
        rec.trans()
        rec.state(cfg, c['hash'])
        rec.outcome(cfg, c['hash'])
    rec.eq(len(got), len(mine), 'runs')
    rec.trace()


SPACE = spaces.Box(low=-np.ones(2, dtype=np.float32),
                   high=np.ones(2, dtype=np.float32))
Q, P = q_functions, policies
NETS = {
    'fc discrete': lambda: Q.FCStateQFunctionWithDiscreteAction(3, 2, 4, 2),
    'fc distributional':
        lambda: Q.DistributionalFCStateQFunctionWithDiscreteAction(
            3, 2, 5, -1., 1., 4, 2),
    'fc lstm': lambda: Q.FCLSTMStateQFunction(3, 2, 4, 2),
    'naf': lambda: Q.FCQuadraticStateQFunction(3, 2, 4, 2, SPACE),
    'naf bn': lambda: Q.FCBNQuadraticStateQFunction(3, 2, 4, 2, SPACE),
    'dueling': lambda: Q.DuelingDQN(3),
    'distributional dueling':
        lambda: Q.DistributionalDuelingDQN(3, 5, -1., 1.),
    'sa fc': lambda: Q.FCSAQFunction(3, 2, 4, 2),
    'sa lstm': lambda: Q.FCLSTMSAQFunction(3, 2, 4, 2),
    'sa bn': lambda: Q.FCBNSAQFunction(3, 2, 4, 2),
    'sa bn late': lambda: Q.FCBNLateActionSAQFunction(3, 2, 4, 2),
    'sa late': lambda: Q.FCLateActionSAQFunction(3, 2, 4, 2),
    'v': lambda: v_functions.FCVFunction(3, 2, 4),
    'det': lambda: P.FCDeterministicPolicy(
        3, 2, 4, 2, SPACE.low, SPACE.high),
    'det bn': lambda: P.FCBNDeterministicPolicy(
        3, 2, 4, 2, SPACE.low, SPACE.high),
    'det lstm': lambda: P.FCLSTMDeterministicPolicy(
        3, 2, 4, 2, SPACE.low, SPACE.high),
    'gauss': lambda: P.FCGaussianPolicy(3, 2, 2, 4),
    'gauss independent':
        lambda: P.FCGaussianPolicyWithStateIndependentCovariance(3, 2, 2, 4),
    'gauss fixed':
        lambda: P.FCGaussianPolicyWithFixedCovariance(3, 2, 0.5, 2, 4),
    'softmax': lambda: P.FCSoftmaxPolicy(3, 2, 4, 2),
    'nature head': lambda: links.NatureDQNHead(),
    'nips head': lambda: links.NIPSDQNHead(),
    'mlp': lambda: links.MLP(3, 2, (4, 4)),
    'mlp bn': lambda: links.MLPBN(3, 2, (4, 4)),
    'branched': lambda: links.Branched(
        links.MLP(3, 2, (4,)), links.MLP(3, 1, (4,))),
    'sequence': lambda: links.Sequence(
        chainer.links.Linear(3, 4), links.MLP(4, 2, (4,)),
        chainer.links.Linear(2, 2)),
    'recurrent': lambda: links.StatelessRecurrentSequential(
        chainer.links.Linear(3, 4), chainer.links.NStepLSTM(1, 4, 4, 0),
        chainer.links.Linear(4, 2)),
    'a3c': lambda: a3c.A3CSeparateModel(
        pi=P.FCSoftmaxPolicy(3, 2, 4, 2),
        v=v_functions.FCVFunction(3, 2, 4)),
    'acer': lambda: acer.ACERSeparateModel(
        pi=links.MLP(3, 2, (4,)), q=links.MLP(3, 2, (4,))),
    'acer sdn': lambda: acer.ACERSDNSeparateModel(
        pi=P.FCGaussianPolicy(3, 2, 2, 4),
        v=links.MLP(3, 1, (4,)),
        adv=Q.FCSAQFunction(3, 2, 4, 2)),
    'iqn': lambda: iqn.ImplicitQuantileQFunction(
        psi=links.MLP(3, 4, (4,)),
        phi=chainerrl.links.Sequence(iqn.CosineBasisLinear(5, 4)),
        f=chainer.links.Linear(4, 2)),
}


def network(name, noisy):
    """Numbers that identify the initial weights."""
    misc.set_random_seed(6)
    link = NETS[name]()
    if noisy is not None:
        links.to_factorized_noisy(link, sigma_scale=noisy)
    res = {}
    for k, p in sorted(link.namedparams()):
        if p.array is not None:
            x = p.array.ravel().astype(np.float64)
            res[k] = [x.size, x.mean(), np.square(x).mean()] + list(
                map(float, x[:3])) + list(map(float, x[-3:]))
    res['after'] = [np.random.rand(), random.random()]
    return res


def netgen(tier):
    for h in (range(1, 5) if tier == 'quick' else range(1, 25)):
        yield dict(hash=h)


@chk.part('initial weights', netgen, timeout=300,
          bound='every bundled network, plain and with noisy layers of two '
                'scales, in a new interpreter with 4 (thorough 24) hash '
                'seeds')
def weights(rec, c):
    env = dict(os.environ, PYTHONHASHSEED=str(c['hash']))
    out = subprocess.run(
        [sys.executable, '-W', 'ignore', os.path.abspath(__file__),
         '--networks'],
        env=env, stdout=subprocess.PIPE, check=True).stdout.decode()
    got = json.loads(out.strip().split('\n')[-1])
    rec.eq(len(got), 3 * len(NETS), 'networks')
    for (name, noisy), g in zip(networks(), got):
        compare(rec, g, network(name, noisy),
                'of {} with noise {} in an interpreter with hash seed '
                '{}'.format(name, noisy, c['hash']))
        rec.trans()
        rec.state(name, noisy)
        rec.outcome(name, noisy)
    rec.trace()


def networks():
    return itertools.product(sorted(NETS), (None, 0.4, 1.5))


if __name__ == '__main__':
    if sys.argv[1:2] == ['--networks']:
        print(json.dumps([network(*n_) for n_ in networks()]))
        raise SystemExit(0)
    if sys.argv[1:2] == ['--child']:
        res = []
        for cfg_ in CONFIGS[int(sys.argv[2])::4]:
            misc.set_random_seed(4)
            res.append(train(cfg_))
        print(json.dumps(res))
        raise SystemExit(0)
    raise SystemExit(chk.main())
