"""Reference bookkeeping for on-policy agents that learn from whole datasets
of collected episodes (PPO, TRPO)."""
import copy
import itertools
import random

import chainer
import chainer.functions as F
import chainer.links as L
import numpy as np

from mc import agents as G


class Spy(object):
    """Shared event log of forwards with graph and of optimizer steps."""

    def __init__(self):
        self.log = []

    def forward(self, who, data):
        if chainer.config.enable_backprop:
            self.log.append(('forward', who, data))

    def take(self):
        out, self.log = self.log, []
        return out


def spying_sgd(link, spy, lr):
    class SpySGD(chainer.optimizers.SGD):
        def update(self, *args, **kw):
            before = G.link_state(self.target)
            super().update(*args, **kw)
            spy.log.append(('step', before, G.link_state(self.target)))
    o = SpySGD(lr)
    o.setup(link)
    return o


def _flat_class():
    class FlatAC(chainer.Chain):
        """Actor-critic with shared first layer."""

        def __init__(self, spy):
            super().__init__()
            self.spy = spy
            with self.init_scope():
                self.l = L.Linear(G.D, 3)
                self.p = L.Linear(3, G.A)
                self.v = L.Linear(3, 1)

        def raw(self, x):
            h = F.tanh(self.l(x))
            return self.p(h), self.v(h)

        def __call__(self, x):
            self.spy.forward('ac', np.array(getattr(x, 'array', x)))
            from chainerrl import distribution
            a, v = self.raw(x)
            return distribution.SoftmaxDistribution(a), v
    return FlatAC


def flat_ac(spy):
    return _flat_class()(spy)


def rec_ac(spy, kind):
    """StatelessRecurrentBranched of two recurrent nets, recording."""
    from chainerrl import links

    class RecAC(links.StatelessRecurrentBranched):
        def n_step_forward(self, sequences, recurrent_state, output_mode):
            self.spy.forward('ac', [np.array(s) for s in sequences])
            return super().n_step_forward(
                sequences, recurrent_state, output_mode)
    m = RecAC(*rec_nets(kind))
    m.spy = spy
    return m


def rec_nets(kind):
    from chainerrl import links
    return (links.StatelessRecurrentSequential(
        G.rnn(kind, G.D, 3), L.Linear(3, G.A), G._softmax_head),
        links.StatelessRecurrentSequential(
            G.rnn(kind, G.D, 3), L.Linear(3, 1)))


class SpyNet(object):
    """Mixin factory: a network recording its forwards under a name."""


def spy_flat(spy, who, out, head):
    class Net(chainer.Chain):
        def __init__(self):
            super().__init__()
            with self.init_scope():
                self.a = L.Linear(G.D, 3)
                self.b = L.Linear(3, out)

        def raw(self, x):
            return self.b(F.tanh(self.a(x)))

        def __call__(self, x):
            spy.forward(who, np.array(getattr(x, 'array', x)))
            y = self.raw(x)
            return head(y) if head else y

        def __deepcopy__(self, memo):
            c = Net()
            for (_, p), (_, q) in zip(sorted(c.namedparams()),
                                      sorted(self.namedparams())):
                p.array[...] = q.array
            return c
    return Net()


def spy_rec(spy, who, kind, out, head):
    from chainerrl import links

    class Net(links.StatelessRecurrentSequential):
        def n_step_forward(self, sequences, recurrent_state, output_mode):
            spy.forward(who, [np.array(s) for s in sequences])
            return super().n_step_forward(
                sequences, recurrent_state, output_mode)

    layers = [G.rnn(kind, G.D, 3), L.Linear(3, out)]
    if head:
        layers.append(head)
    return Net(*layers)


# --------------------------------------------------------------- shuffling

class Shuffles(object):
    """Every shuffle of the run uses the k-th permutation (in a fixed
    enumeration, shifted by one at each further shuffle)."""

    def __init__(self, k):
        self.k = k

    def perm(self, n):
        p = list(nth_permutation(n, self.k))
        self.k += 1
        return p

    def __enter__(self):
        from chainer.iterators import order_samplers as osm
        self.cls = osm.ShuffleOrderSampler
        self.saved = self.cls.__call__, random.shuffle

        def order(sampler, current_order, current_position):
            return np.asarray(self.perm(len(current_order)))[:]

        def shuffle(x):
            old = list(x)
            for i, j in enumerate(self.perm(len(old))):
                x[i] = old[j]
        self.cls.__call__ = order
        random.shuffle = shuffle
        return self

    def __exit__(self, *a):
        self.cls.__call__, random.shuffle = self.saved


def nth_permutation(n, k):
    """Mixed-radix enumeration of all permutations."""
    items = list(range(n))
    out = []
    fact = 1
    for i in range(2, n + 1):
        fact *= i
    k = (k * 7 + 3) % fact if fact else 0
    for i in range(n, 0, -1):
        fact //= i
        out.append(items.pop(k // fact))
        k %= fact
    return out


# --------------------------------------------------------------- reference

class Norm(object):
    """Mean and variance of everything experienced."""

    def __init__(self):
        self.xs = []

    def __call__(self, x):
        if not self.xs:
            m, v = 0., 1.
        else:
            a = np.asarray(self.xs, dtype=np.float64)
            m, v = a.mean(axis=0), a.var(axis=0)
        return ((x - m) / np.sqrt(v + 1e-2)).astype(np.float32)


def skewed(states, xp, phi):
    """A user's batch_states that is visibly applied."""
    from chainerrl.misc.batch_states import batch_states
    return batch_states(states, xp, phi) * np.float32(0.5) + np.float32(0.1)


class Data(object):
    """Episodes collected so far."""

    def __init__(self, interval, n_envs):
        self.interval = interval
        self.memory = []
        self.open = [[] for _ in range(n_envs)]

    def size(self):
        return sum(map(len, self.memory)) + sum(map(len, self.open))

    def add(self, env, tr, end):
        self.open[env].append(tr)
        if end:
            self.memory.append(self.open[env])
            self.open[env] = []

    def ready(self):
        """-> list of episodes when an update is due, else None."""
        if self.size() < self.interval:
            return None
        eps = self.memory + [e for e in self.open if e]
        self.memory = []
        self.open = [[] for _ in self.open]
        return eps


def gae(ep, gamma, lambd):
    adv = 0.
    for tr in reversed(ep):
        live = 0. if tr['done'] else 1.
        delta = tr['r'] + gamma * live * tr['nv'] - tr['v']
        # an episode only ends at its last transition
        adv = delta + gamma * lambd * adv
        tr['adv'] = adv
        tr['target'] = adv + tr['v']


def softmax(l):
    l = np.asarray(l, dtype=np.float64)
    l = l - l.max(axis=-1, keepdims=True)
    lse = np.log(np.exp(l).sum(axis=-1, keepdims=True))
    return l - lse


def set_state(link, state):
    for n, p in link.namedparams():
        p.array[...] = state[n]


def identify(rec, row, pool, msg):
    """Index of the pool entry a network input row belongs to."""
    d = [float(np.abs(row - p).max()) for p in pool]
    i = int(np.argmin(d))
    rec.expect(d[i] < 1e-3 * (1 + float(np.abs(row).max())),
               lambda: '{}: network input {} is none of the collected '
               'observations'.format(msg() if callable(msg) else msg, row))
    return i
