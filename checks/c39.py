"""C39: an evaluated agent acts by its current model, in test mode."""
import itertools

import chainer
import chainer.functions as F
import chainer.links as L
import numpy as np

import chainerrl
from chainerrl import distribution
from mc import agents as G
from mc.core import Check

chk = Check(
    'C39',
    rule='every agent class acts with a model that contains batch '
         'normalization and dropout and returns values or a distribution '
         'known from its parameters; every sequence of changes of the model, '
         'single and batch acting up to a length over a grid of observations '
         'is compared with the actions the current parameters ask for',
    assumptions=['flat models; recurrent ones are in C25',
                 'the distribution object decides what sampling means (C33)'])

# the networks of this file set their own parameters
G.fill = lambda link, *a, **k: link


class Sig(chainer.Chain):
    """Batch normalization, then dropout: both depend on the mode."""

    def __init__(self, scalar=False):
        super().__init__()
        self.scalar = scalar
        with self.init_scope():
            self.bn = L.BatchNormalization(G.D)

    def __call__(self, x):
        h = F.dropout(self.bn(x), 0.5)
        return F.sum(h, axis=1, keepdims=True) if self.scalar else h


def q_of(h):
    """Values of three actions, tied ones included."""
    return F.concat((h, F.sum(h, axis=1, keepdims=True) * 0), axis=1)


class Q(chainer.Chain):
    def __init__(self, head):
        super().__init__()
        self.head = head
        with self.init_scope():
            self.sig = Sig()

    def __call__(self, x):
        return self.head(q_of(self.sig(x)))


def two_atoms(q):
    p = (q + 100) / 200
    p = F.reshape(p, p.shape + (1,))
    return chainerrl.action_value.DistributionalDiscreteActionValue(
        F.concat((1 - p, p), axis=2),
        np.asarray([-100., 100.], dtype=np.float32))


class Psi(chainer.Chain):
    def __init__(self):
        super().__init__()
        with self.init_scope():
            self.sig = Sig()

    def __call__(self, x):
        return q_of(self.sig(x))


class Ones(chainer.Chain):
    def __call__(self, taus):
        return chainer.Variable(np.ones(taus.shape + (3,), dtype=np.float32))


class Same(chainer.Chain):
    def __call__(self, x):
        return x


def value_model(name, rec=None):
    if name.startswith('Categorical'):
        return Q(two_atoms)
    if 'IQN' in name:
        from chainerrl.agents import iqn
        return iqn.ImplicitQuantileQFunction(Psi(), Ones(), Same())
    return Q(chainerrl.action_value.DiscreteActionValue)


class Dist(distribution.Distribution):
    """Remembers every action it handed out."""

    log = []

    def __init__(self, h, discrete):
        self.h, self.discrete = h, discrete

    def _out(self, kind, k):
        h = self.h.array
        if self.discrete:
            a = np.asarray((np.floor(h[:, 0] * 10) + k) % 7, dtype=np.int32)
        else:
            a = (h[:, :1] + k).astype(np.float32)
        Dist.log.append((kind, a))
        return chainer.Variable(a)

    def sample(self):
        return self._out('sample', 1 + len(Dist.log))

    @property
    def most_probable(self):
        return self._out('best', 0)

    @property
    def entropy(self):
        return F.sum(self.h, axis=1)

    def prob(self, x):
        return F.sum(self.h, axis=1)

    log_prob = kl = prob

    def copy(self):
        return self

    @property
    def params(self):
        return (self.h,)


class Pi(chainer.Chain):
    def __init__(self, discrete):
        super().__init__()
        self.discrete = discrete
        with self.init_scope():
            self.sig = Sig()

    def __call__(self, x):
        return Dist(self.sig(x), self.discrete)


class SAQ(chainer.Chain):
    """Acting of actor-critic agents evaluates the critic for statistics."""

    def __init__(self):
        super().__init__()
        with self.init_scope():
            self.sig = Sig(True)

    def __call__(self, x, a):
        return self.sig(x) + F.sum(F.cast(a, np.float32), axis=1,
                                   keepdims=True)


G.SAQ = SAQ


def ac_model(kind, rec=None):
    from chainerrl.agents import a2c, a3c
    cls = a2c.A2CSeparateModel if kind == 'A2C' else a3c.A3CSeparateModel
    return cls(Pi(Discrete.on), Sig(True))


class Discrete(object):
    on = True


G.value_model = value_model
G.nsq_model = lambda rec=None: value_model('DQN')
G.actor_policy = lambda name: Pi(False)
G.softmax_policy = lambda rec=None: Pi(Discrete.on)
G.trpo_models = lambda rec=None: (Pi(Discrete.on), Sig(True))
G.ac_model = ac_model


class ACERNet(chainer.Chain):
    """The interface ACER expects of discrete models."""

    def __init__(self):
        super().__init__()
        with self.init_scope():
            self.pi, self.q = Pi(Discrete.on), value_model('DQN')

    def __call__(self, x):
        q = self.q(x)
        return self.pi(x), q, F.sum(q.q_values, axis=1, keepdims=True)


def acer_model(rec=None):
    return ACERNet()


G.acer_model = acer_model

DETERMINISTIC = ['PGT', 'SAC', 'PPO', 'TRPO', 'A2C', 'A3C', 'ACER', 'PCL',
                 'REINFORCE']
BOTH = ['PPO', 'TRPO', 'A2C', 'A3C', 'ACER', 'PCL', 'REINFORCE']
PHIS = {'id': lambda x: x, 'double': G.double,
        'half8': lambda x: np.asarray(x, dtype=np.float32) / 2 + 1}
STATS = [([0., 0.], [1., 1.], [1., 1.], [0., 0.]),
         ([1., -0.5], [4., 0.25], [1., 2.], [0., 0.5]),
         ([-1., 0.], [1., 1.], [-1., 0.], [0., 0.])]
OBS = [np.asarray(v, dtype=np.float32) for v in itertools.product(
    (-1., 0., 0.4, 2.), repeat=2)]


def cases(tier):
    for name in G.VALUE + ['DDPG', 'TD3', 'NSQ']:
        for phi in PHIS:
            yield dict(name=name, det=None, phi=phi, disc=True, norm=False)
    for name in DETERMINISTIC:
        for det in (False, True):
            for phi in PHIS:
                for disc in ((False, True) if name in BOTH else (False,)):
                    for norm in ((False, True) if name in ('PPO', 'TRPO')
                                 else (False,)):
                        yield dict(name=name, det=det, phi=phi, disc=disc,
                                   norm=norm)


def batchnorms(agent):
    """Batch normalizations in the model used for acting."""
    return [l for v in vars(agent).values() if isinstance(v, chainer.Link)
            for l in v.links() if isinstance(l, L.BatchNormalization)]


def set_stats(agent, k):
    mean, var, gamma, beta = STATS[k]
    for l in batchnorms(agent):
        l.avg_mean[...], l.avg_var[...] = mean, var
        l.gamma.array[...], l.beta.array[...] = gamma, beta


def signal(x, k):
    mean, var, gamma, beta = [np.asarray(v) for v in STATS[k]]
    return (x - mean) / np.sqrt(var + 2e-5) * gamma + beta


def actions(tier):
    """Changes of the model, single acts and batch acts."""
    out = [('set', 1), ('set', 2), ('train', 0)]
    out += [('act', i) for i in (0, 6, 11)]
    out += [('batch', t) for t in ((3,), (5, 5), (14, 1, 8))]
    return out


@chk.part('acting', cases, timeout=300,
          bound='every agent class x deterministic or not x discrete or '
                'continuous x 3 feature extractors x normalizer x every '
                'sequence of 3 (thorough 4) out of 3 changes of the model, 3 '
                'single acts and 3 batch acts; and every one of 16 '
                'observations under every model')
def acting(rec, c):
    name = c['name']
    Discrete.on = c['disc']
    kw = dict(phi=PHIS[c['phi']])
    if c['det'] is not None:
        kw['act_deterministically'] = c['det']
    norm = None
    if c['norm']:
        norm = chainerrl.links.EmpiricalNormalization(G.D, clip_threshold=5)
        norm.experience(np.asarray([[0, 1], [2, 2], [3, -1]],
                                   dtype=np.float32))
        kw['obs_normalizer'] = norm
    agent = G.build(name, **kw).agent
    value = name in G.VALUE + ['NSQ']
    cur = [0]
    batched = name in G.BATCH

    def x_of(idx):
        x = np.stack([PHIS[c['phi']](OBS[i]) for i in idx]).astype(float)
        if norm is not None:
            m = np.asarray([[0, 1], [2, 2], [3, -1]], dtype=float)
            x = (x - m.mean(axis=0)) / np.sqrt(m.var(axis=0) + 1e-2)
            x = np.clip(x, -5, 5)
        return x

    def expect(idx, got, how):
        h = signal(x_of(idx), cur[0])
        rec.eq(len(got), len(idx), 'actions ' + how)
        if value:
            q = np.concatenate((h, 0 * h[:, :1]), axis=1)
            for row, a in zip(q, got):
                rec.expect(int(a) == a and row[int(a)] > row.max() - 1e-4,
                           lambda: 'action {} for values {} {}'.format(
                               a, row, how))
            return
        kind, a = Dist.log[-1]
        rec.eq(kind, 'best' if c['det'] else 'sample', 'kind of action ' + how)
        rec.eq([np.asarray(g).tolist() for g in got], a.tolist(),
               'actions ' + how)
        if kind == 'best' and not c['disc']:
            rec.close(np.asarray(got)[:, 0], h[:, 0], 'actions ' + how,
                      rtol=1e-3, atol=1e-3)

    def run(op, arg, how):
        stats = [(l.avg_mean.copy(), l.avg_var.copy(), l.N)
                 for l in batchnorms(agent)]
        del Dist.log[:]
        if op == 'set':
            set_stats(agent, arg)
            cur[0] = arg
            return
        if op == 'train':
            chainer.config.train = not chainer.config.train
            return
        flag = chainer.config.train, chainer.config.enable_backprop
        if op == 'act':
            Last.h = None
            got = [agent.act(OBS[arg].copy())]
            idx = [arg]
        else:
            got = agent.batch_act([OBS[i].copy() for i in arg])
            idx = arg
        rec.eq((chainer.config.train, chainer.config.enable_backprop), flag,
               'mode after acting ' + how)
        expect(idx, got, how)
        if not value and not (c['det'] and not c['disc']):
            # the signal behind the distribution
            h = signal(x_of(idx), cur[0])
            rec.close(Last.h, h, 'signal ' + how, rtol=1e-3, atol=1e-3)
        for l, (m, v, n) in zip(batchnorms(agent), stats):
            rec.expect(np.array_equal(m, l.avg_mean)
                       and np.array_equal(v, l.avg_var) and n == l.N,
                       'statistics changed by acting ' + how)
        rec.trans()

    try:
        ops = [o for o in actions(chk.tier) if batched or o[0] != 'batch']
        n = 4 if chk.tier == 'thorough' else 3
        set_stats(agent, 0)
        for seq in itertools.product(ops, repeat=n):
            if seq[-1][0] in ('set', 'train'):
                continue
            for k, (op, arg) in enumerate(seq):
                run(op, arg, 'after {} ({})'.format(seq[:k + 1], c))
            rec.state(sorted(map(str, c.items())), cur[0])
        for k in range(len(STATS)):
            run('set', k, '')
            for i in range(len(OBS)):
                run('act', i, '(observation {}, model {})'.format(i, k))
                if batched:
                    for j in range(len(OBS)):
                        run('batch', (i, j), '(observations {} {}, model {})'
                            .format(i, j, k))
    finally:
        chainer.config.train = True
    rec.trace()
    rec.outcome(sorted(map(str, c.items())))


class Last(object):
    h = None


_init = Dist.__init__


def _remember(self, h, discrete):
    Last.h = h.array.copy()
    _init(self, h, discrete)


Dist.__init__ = _remember


if __name__ == '__main__':
    raise SystemExit(chk.main())
