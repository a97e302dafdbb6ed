"""Builders for tiny, fully determined instances of every agent, and helpers
to observe them."""
import contextlib

import chainer
import chainer.functions as F
import chainer.links as L
import numpy as np

D = 2           # observation size
A = 3           # number of discrete actions
CA = 1          # continuous action size

VALUE = ['DQN', 'DoubleDQN', 'AL', 'PAL', 'DoublePAL', 'DPP', 'DPPL',
         'DPPGreedy', 'SARSA', 'ResidualDQN', 'CategoricalDQN',
         'CategoricalDoubleDQN', 'IQN', 'DoubleIQN']
ACTOR = ['DDPG', 'PGT', 'TD3', 'SAC']
ONPOLICY = ['PPO', 'TRPO', 'A2C', 'A3C', 'ACER', 'PCL', 'NSQ', 'REINFORCE']
BATCH = set(VALUE) | {'DDPG', 'TD3', 'SAC', 'PPO', 'TRPO', 'A2C'}
NO_SINGLE = {'A2C'}


def fill(link, seed=0, scale=0.7):
    """Deterministic parameters, independent of the order of creation."""
    rs = np.random.RandomState(seed)
    for name, p in sorted(link.namedparams()):
        assert p.array is not None, name
        p.array[...] = (rs.uniform(-1, 1, size=p.shape) * scale)
    return link


def double(x):
    """A feature extractor that is visibly not the identity."""
    return x * np.float32(2)


def plus_one(x):
    return x + np.float32(1)


def obs_of(env, k):
    """k-th observation of environment `env`: distinct vectors, and distinct
    in their first component."""
    i = env * 17 + k
    return np.asarray([np.sin(1.0 + 0.7 * i), np.cos(0.3 + 1.3 * i * i)],
                      dtype=np.float32)


class Box(object):
    pass


# ---------------------------------------------------------------- models

def _gauss_head(x):
    from chainerrl import distribution
    mean, ln_var = F.split_axis(x, 2, axis=1)
    return distribution.GaussianDistribution(mean, F.exp(ln_var))


def _squashed_head(x):
    from chainerrl import distribution
    mean, ln_var = F.split_axis(x, 2, axis=1)
    return distribution.SquashedGaussianDistribution(mean, F.exp(ln_var))


def _det_head(x):
    from chainerrl import distribution
    return distribution.ContinuousDeterministicDistribution(F.tanh(x))


def _softmax_head(x):
    from chainerrl import distribution
    return distribution.SoftmaxDistribution(x)


def rnn(kind, n_in, n_out):
    return {'gru': L.NStepGRU, 'rnn': L.NStepRNNTanh, 'lstm': L.NStepLSTM,
            'relu': L.NStepRNNReLU}[kind](1, n_in, n_out, 0)


def value_model(name, rec=None, H=3):
    import chainerrl
    from chainerrl import links
    from chainerrl.agents import iqn
    if name in ('CategoricalDQN', 'CategoricalDoubleDQN'):
        from chainerrl.q_functions import \
            DistributionalFCStateQFunctionWithDiscreteAction as QF
        if rec is None:
            return QF(D, A, 4, -2., 3., H, 1)
        return links.StatelessRecurrentSequential(
            rnn(rec, D, H), QF(H, A, 4, -2., 3., H, 1))
    if name in ('IQN', 'DoubleIQN'):
        if rec is None:
            return iqn.ImplicitQuantileQFunction(
                psi=L.Linear(D, H), phi=iqn.CosineBasisLinear(4, H),
                f=L.Linear(H, A))
        return iqn.StatelessRecurrentImplicitQuantileQFunction(
            psi=links.StatelessRecurrentSequential(rnn(rec, D, H)),
            phi=iqn.CosineBasisLinear(4, H), f=L.Linear(H, A))
    head = chainerrl.action_value.DiscreteActionValue
    if rec is None:
        return links.Sequence(L.Linear(D, H), F.tanh, L.Linear(H, A), head)
    return links.StatelessRecurrentSequential(
        rnn(rec, D, H), L.Linear(H, A), head)


class SAQ(chainer.Chain):
    """Nonlinear state-action value."""

    def __init__(self):
        super().__init__()
        with self.init_scope():
            self.l1 = L.Linear(D + CA, 3)
            self.l2 = L.Linear(3, 1)

    def __call__(self, x, a):
        return self.l2(F.tanh(self.l1(F.concat((x, a), axis=1))))


def actor_policy(name):
    from chainerrl import links
    if name == 'SAC':
        return links.Sequence(L.Linear(D, 2 * CA), _squashed_head)
    if name == 'PGT':
        return links.Sequence(L.Linear(D, 2 * CA), _gauss_head)
    return links.Sequence(L.Linear(D, CA), _det_head)


def sgd(link, lr=0.05):
    o = chainer.optimizers.SGD(lr)
    o.setup(link)
    return o


def adam(link, alpha=0.05):
    o = chainer.optimizers.Adam(alpha)
    o.setup(link)
    return o


def make_buffer(kind, n=1, cap=None):
    from chainerrl import replay_buffers as rb
    if kind == 'replay':
        return rb.ReplayBuffer(cap, num_steps=n)
    if kind == 'per':
        return rb.PrioritizedReplayBuffer(cap, num_steps=n, betasteps=10)
    if kind == 'episodic':
        return rb.EpisodicReplayBuffer(cap)
    if kind == 'pepisodic':
        return rb.PrioritizedEpisodicReplayBuffer(cap, betasteps=10)
    raise AssertionError(kind)


# ---------------------------------------------------------------- explorer

class ScriptedExplorer(object):
    """Overrides the greedy action in every `period`-th call; records the
    calls."""

    def __init__(self, discrete, period=2):
        self.discrete = discrete
        self.period = period
        self.calls = []

    def select_action(self, t, greedy_action_func, action_value=None):
        g = greedy_action_func()
        k = len(self.calls)
        if self.period and k % self.period == self.period - 1:
            if self.discrete:
                a = (int(g) + 1) % A
            else:
                a = np.asarray(g + np.float32(0.25), dtype=np.float32)
        else:
            a = g
        self.calls.append((t, g, action_value, a))
        return a


def build(name, rec=None, buf=None, n=1, cap=None, phi=double, explorer=None,
          seed=0, opt=sgd, **kw):
    """-> Box(agent, buffer, explorer, links) for agent class `name`."""
    from chainerrl import agents
    b = Box()
    b.name, b.rec = name, rec
    if name in ('DPPL', 'DPPGreedy'):
        from chainerrl.agents import dpp
        cls = getattr(dpp, name)
    else:
        cls = getattr(agents, {'SAC': 'SoftActorCritic'}.get(name, name))
    b.buffer = None
    if name in VALUE:
        model = fill(value_model(name, rec), seed)
        b.buffer = make_buffer(
            buf or ('episodic' if rec else 'replay'), n, cap)
        b.explorer = explorer or ScriptedExplorer(True)
        args = dict(gamma=0.9, explorer=b.explorer, replay_start_size=2,
                    minibatch_size=2, update_interval=1,
                    target_update_interval=3, phi=phi, recurrent=bool(rec))
        if name in ('IQN', 'DoubleIQN'):
            args.update(quantile_thresholds_N=3, quantile_thresholds_N_prime=4,
                        quantile_thresholds_K=2)
        if rec:
            args.update(replay_start_size=1, minibatch_size=1)
        args.update(kw)
        b.agent = cls(model, opt(model), b.buffer, **args)
    elif name in ('DDPG', 'PGT'):
        from chainerrl.agents.ddpg import DDPGModel
        model = fill(DDPGModel(actor_policy(name), SAQ()), seed)
        b.buffer = make_buffer(buf or 'replay', n, cap)
        b.explorer = explorer or ScriptedExplorer(False)
        args = dict(gamma=0.9, explorer=b.explorer, replay_start_size=2,
                    minibatch_size=2, update_interval=1,
                    target_update_interval=3, phi=phi)
        args.update(kw)
        b.agent = cls(model, opt(model['policy']), opt(model['q_function']),
                      b.buffer, **args)
    elif name in ('TD3', 'SAC'):
        pol = fill(actor_policy(name), seed)
        q1, q2 = fill(SAQ(), seed + 1), fill(SAQ(), seed + 2)
        b.buffer = make_buffer(buf or 'replay', n, cap)
        args = dict(gamma=0.9, replay_start_size=2, minibatch_size=2,
                    update_interval=1, phi=phi, soft_update_tau=0.25)
        if name == 'TD3':
            b.explorer = explorer or ScriptedExplorer(False)
            args.update(explorer=b.explorer)
        else:
            b.explorer = None
        args.update(kw)
        b.agent = cls(pol, q1, q2, opt(pol), opt(q1), opt(q2), b.buffer,
                      **args)
    elif name == 'PPO':
        model = fill(ac_model('PPO', rec), seed)
        args = dict(gamma=0.9, lambd=0.8, phi=phi, update_interval=3,
                    minibatch_size=2, epochs=2, recurrent=bool(rec),
                    standardize_advantages=False)
        args.update(kw)
        b.agent = cls(model, opt(model), **args)
    elif name == 'TRPO':
        pol, vf = trpo_models(rec)
        fill(pol, seed), fill(vf, seed + 1)
        args = dict(gamma=0.9, lambd=0.8, phi=phi, update_interval=3,
                    vf_epochs=2, vf_batch_size=2, recurrent=bool(rec),
                    standardize_advantages=False)
        args.update(kw)
        b.agent = cls(pol, vf, opt(vf), **args)
    elif name == 'A2C':
        model = fill(ac_model('A2C'), seed)
        args = dict(gamma=0.9, num_processes=2, update_steps=3, phi=phi)
        args.update(kw)
        b.agent = cls(model, opt(model), **args)
    elif name == 'A3C':
        model = fill(ac_model('A3C', rec), seed)
        args = dict(t_max=2, gamma=0.9, phi=phi)
        args.update(kw)
        b.agent = cls(model, opt(model), **args)
    elif name == 'ACER':
        model = fill(acer_model(rec), seed)
        b.buffer = make_buffer(buf or 'episodic')
        args = dict(t_max=2, gamma=0.9, phi=phi, n_times_replay=1,
                    replay_start_size=2)
        args.update(kw)
        b.agent = cls(model, opt(model), replay_buffer=b.buffer, **args)
    elif name == 'PCL':
        model = fill(ac_model('A3C', rec), seed)
        b.buffer = make_buffer(buf or 'episodic')
        args = dict(replay_buffer=b.buffer, t_max=2, gamma=0.9, phi=phi,
                    rollout_len=2, replay_start_size=2)
        args.update(kw)
        b.agent = cls(model, opt(model), **args)
    elif name == 'NSQ':
        q = fill(nsq_model(rec), seed)
        b.explorer = explorer or ScriptedExplorer(True)
        args = dict(t_max=2, gamma=0.9, i_target=3, explorer=b.explorer,
                    phi=phi)
        args.update(kw)
        b.agent = cls(q, opt(q), **args)
    elif name == 'REINFORCE':
        # only a model that declares itself Recurrent is reset by REINFORCE
        pol = fill(RecSeq(L.LSTM(D, 3), L.Linear(3, A), _softmax_head)
                   if rec else softmax_policy(), seed)
        args = dict(phi=phi, batchsize=2, batch_states=_batch_states())
        args.update(kw)
        b.agent = cls(pol, opt(pol), **args)
    else:
        raise AssertionError(name)
    return b


def _batch_states():
    from chainerrl.misc.batch_states import batch_states
    return batch_states


def softmax_policy(rec=None):
    from chainerrl import policies, links
    if rec == 'lstm':
        return policies.SoftmaxPolicy(RecSeq(
            L.LSTM(D, 3), L.Linear(3, A)))
    return policies.SoftmaxPolicy(links.Sequence(
        L.Linear(D, 3), F.tanh, L.Linear(3, A)))


def v_function(rec=None):
    from chainerrl import v_functions, links
    if rec == 'lstm':
        return v_functions.SingleModelVFunction(RecSeq(
            L.LSTM(D, 3), L.Linear(3, 1)))
    return v_functions.SingleModelVFunction(links.Sequence(
        L.Linear(D, 3), F.tanh, L.Linear(3, 1)))


def _recseq_class():
    from chainerrl import links
    from chainerrl.recurrent import RecurrentChainMixin

    class RecSeq(links.Sequence, RecurrentChainMixin):
        pass
    return RecSeq


_RS = []


def RecSeq(*layers):
    if not _RS:
        _RS.append(_recseq_class())
    return _RS[0](*layers)


def ac_model(kind, rec=None):
    from chainerrl.agents import a3c, a2c
    from chainerrl import links
    if kind == 'A2C':
        return a2c.A2CSeparateModel(softmax_policy(), v_function())
    if kind == 'PPO' and rec:
        return links.StatelessRecurrentBranched(
            links.StatelessRecurrentSequential(
                rnn(rec, D, 3), L.Linear(3, A), _softmax_head),
            links.StatelessRecurrentSequential(
                rnn(rec, D, 3), L.Linear(3, 1)))
    return a3c.A3CSeparateModel(softmax_policy(rec), v_function(rec))


def trpo_models(rec=None):
    from chainerrl import links
    if rec:
        return (links.StatelessRecurrentSequential(
            rnn(rec, D, 3), L.Linear(3, A), _softmax_head),
            links.StatelessRecurrentSequential(
                rnn(rec, D, 3), L.Linear(3, 1)))
    return (links.Sequence(L.Linear(D, 3), F.tanh, L.Linear(3, A),
                           _softmax_head),
            links.Sequence(L.Linear(D, 3), F.tanh, L.Linear(3, 1)))


def nsq_model(rec=None):
    import chainerrl
    from chainerrl import links
    head = chainerrl.action_value.DiscreteActionValue
    if rec:
        return RecSeq(L.LSTM(D, 3), L.Linear(3, A), head)
    return links.Sequence(L.Linear(D, 3), F.tanh, L.Linear(3, A), head)


def acer_model(rec=None):
    from chainerrl.agents import acer
    return acer.ACERSeparateModel(softmax_policy(rec), nsq_model(rec))


# ---------------------------------------------------------------- noise

@contextlib.contextmanager
def noise(z=0.5):
    """Deterministic answers for continuous noise: the same row of numbers for
    every batch entry.  Integer draws (replay sampling, epochs) are left to the
    seeded generator."""
    names = ['standard_normal', 'normal', 'uniform', 'gumbel', 'randn']
    saved = {k: getattr(np.random, k) for k in names}

    def shape_of(size):
        if size is None:
            return ()
        return (size,) if np.isscalar(size) else tuple(size)

    def row(shape, lo, hi):
        if not shape:
            return np.float64((lo + hi) / 2)
        k = shape[-1]
        return np.broadcast_to(
            lo + (hi - lo) * (np.arange(k) + 0.5) / k, shape).copy()

    def standard_normal(size=None, dtype=np.float64):
        s = row(shape_of(size), -z, z) if z else np.zeros(shape_of(size))
        return (s + 0.3 * z).astype(dtype) if hasattr(s, 'astype') else s

    def normal(loc=0., scale=1., size=None):
        return loc + scale * standard_normal(size)

    def uniform(low=0., high=1., size=None):
        return row(shape_of(size), low, high)

    def gumbel(loc=0., scale=1., size=None):
        shape = shape_of(size)
        g = np.zeros(shape)
        if shape:
            g[...] = 0.4 * np.cos(np.arange(shape[-1]) * 2.1)
        return loc + scale * g

    def randn(*shape):
        return standard_normal(shape)
    try:
        for k in names:
            setattr(np.random, k, locals()[k])
        yield
    finally:
        for k, v in saved.items():
            setattr(np.random, k, v)


# ---------------------------------------------------------------- snapshots

def link_state(link):
    """Parameters and persistent values by path."""
    out = {}
    for n, p in link.namedparams():
        out[n] = None if p.array is None else np.array(p.array)
    for path, l in link.namedlinks():
        for k in l._persistent:
            v = getattr(l, k)
            out[path + '#' + k] = np.array(v)
    return out


def opt_state(o):
    out = {'t': o.t, 'epoch': o.epoch}
    for n, p in sorted(o.target.namedparams()):
        st = p.update_rule.state if p.update_rule is not None else None
        for k, v in sorted((st or {}).items()):
            out[n + '@' + k] = np.array(v)
        out[n + '@@t'] = getattr(p.update_rule, 't', None)
    return out


def learned_state(agent):
    """Everything learned: all links and optimizers held by the agent."""
    out = {}
    seen = {}
    for k, v in sorted(vars(agent).items()):
        if isinstance(v, chainer.Link):
            out[k] = link_state(v)
        elif isinstance(v, chainer.Optimizer):
            out[k] = opt_state(v)
    del seen
    out['t'] = getattr(agent, 't', None)
    return out


def same(a, b):
    """Exact structural equality with numpy support."""
    if isinstance(a, dict):
        return (isinstance(b, dict) and a.keys() == b.keys()
                and all(same(a[k], b[k]) for k in a))
    if isinstance(a, (list, tuple)):
        return (isinstance(b, (list, tuple)) and len(a) == len(b)
                and all(same(x, y) for x, y in zip(a, b)))
    if isinstance(a, chainer.Variable) or isinstance(b, chainer.Variable):
        return same(getattr(a, 'array', a), getattr(b, 'array', b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and bool(
            np.array_equal(a, b, equal_nan=a.dtype.kind == 'f'))
    if a is None or b is None:
        return a is b
    return a == b


def diff(a, b, path=''):
    """First path at which two structures differ."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a or k not in b:
                return '{}/{} only on one side'.format(path, k)
            d = diff(a[k], b[k], '{}/{}'.format(path, k))
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return '{} length {} vs {}'.format(path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, '{}[{}]'.format(path, i))
            if d:
                return d
        return None
    return None if same(a, b) else '{}: {} vs {}'.format(
        path, _short(a), _short(b))


def _short(x):
    return repr(getattr(x, 'array', x)).replace('\n', ' ')[:120]


def buffer_contents(buf):
    """Stored items through the public sampling interface, in a canonical
    order."""
    if buf is None:
        return None
    st = np.random.get_state()
    try:
        if hasattr(buf, 'sample_episodes'):
            n = buf.n_episodes
            items = buf.sample_episodes(n) if n else []
        else:
            n = len(buf)
            items = buf.sample(n) if n else []
    finally:
        np.random.set_state(st)
    if isinstance(items, tuple):
        items = items[0]
    return sorted(([freeze(t) for t in w] for w in items), key=repr)


def freeze(t, ignore=('weight',)):
    def f(x):
        if isinstance(x, chainer.Variable):
            x = x.array
        if isinstance(x, np.ndarray):
            return (x.shape, x.tolist())
        if isinstance(x, (list, tuple)):
            return [f(y) for y in x]
        if isinstance(x, np.generic):
            return x.item()
        if hasattr(x, 'params'):
            return [type(x).__name__] + [f(p) for p in x.params]
        return x
    return sorted((k, f(v)) for k, v in t.items() if k not in ignore)
