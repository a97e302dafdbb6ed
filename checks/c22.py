"""C22: REINFORCE learns from exactly its complete episodes."""
import warnings

import chainer
import chainer.functions as F
import chainer.links as L
import numpy as np

from mc import agents as G
from mc import drive
from mc import onpol as P
from mc.core import Check
from mc.world import KIND, CONT, DONE, RESET, BOTH

warnings.filterwarnings('ignore')

chk = Check(
    'C22',
    rule='real REINFORCE agents are driven through every script of step '
         'kinds (continue, terminal, reset, both) up to a length for every '
         'listed setting, feed-forward and recurrent; actions, the moment of '
         'every update and the parameter change are compared with returns '
         'and loss gradients computed by hand per transition',
    assumptions=['network evaluation and backpropagation (through time) are '
                 'trusted', 'comparison within single-precision tolerance'])

LR = 0.5


def model(o):
    from chainerrl import distribution, links

    def head(x):
        if o.get('discrete', True):
            return distribution.SoftmaxDistribution(x)
        m, lv = F.split_axis(x, 2, axis=1)
        return distribution.GaussianDistribution(m, F.exp(lv))
    n = G.A if o.get('discrete', True) else 4
    if o.get('rec'):
        return G.RecSeq(L.LSTM(G.D, 3), L.Linear(3, n), head)
    return links.Sequence(L.Linear(G.D, 3), F.tanh, L.Linear(3, n), head)


def f64(v):
    return np.asarray(getattr(v, 'array', v), dtype=np.float64)


def coefs(d, a, discrete):
    """Gradients of log pi(a) and of the entropy at the parameters."""
    if discrete:
        lp = P.softmax(f64(d.logits)[0])
        p = np.exp(lp)
        return ([d.logits], [np.eye(G.A)[int(a)] - p],
                [-p * (lp - (p * lp).sum())])
    m, v = f64(d.mean)[0], f64(d.var)[0]
    e = np.asarray(a, np.float64) - m
    return ([d.mean, d.var], [e / v, 0.5 * e * e / v ** 2 - 0.5 / v],
            [np.zeros_like(v), 0.5 / v])


OPTS = [
    dict(batchsize=1, beta=0.3),
    dict(batchsize=2, beta=0., custom=True),
    dict(batchsize=2, beta=0.2, backward_separately=True),
    dict(batchsize=3, beta=0.1, discrete=False),
    dict(batchsize=1, beta=0.1, backward_separately=True, discrete=False,
         custom=True),
]


class Watch(object):
    def __init__(self, rec, opts, what):
        from chainerrl import agents
        self.rec, self.what = rec, what
        o = dict(opts)
        self.discrete = o.pop('discrete', True)
        self.custom = o.pop('custom', False)
        self.rnn = o.pop('rec', False)
        self.o = o
        kw = dict(o)
        if self.custom:
            kw['batch_states'] = P.skewed
        self.m = G.fill(model(opts), 2, 0.9)
        self.copy = model(opts)
        self.spy = P.Spy()
        self.agent = agents.REINFORCE(
            self.m, P.spying_sgd(self.m, self.spy, LR), phi=G.double, **kw)
        P.set_state(self.copy, G.link_state(self.m))
        self.params = G.link_state(self.m)
        self.episodes = []
        self.ep = []

    def act_and_train(self, obs, reward):
        if self.ep:
            self.ep[-1][2] = reward
        a = self.agent.act_and_train(obs, reward)
        self.rec.expect(not self.spy.take(), lambda: self.what() +
                        ' learned inside an episode')
        x = G.double(obs)[None]
        if self.custom:
            x = x * np.float32(0.5) + np.float32(0.1)
        d = self.copy(x)
        self.rec.close(a, d.sample().array[0], lambda: self.what() +
                       ' action')
        self.ep.append([d, np.array(a), None])
        self.rec.trans()
        return a

    def stop_episode_and_train(self, obs, reward, done):
        self.ep[-1][2] = reward
        self.agent.stop_episode_and_train(obs, reward, done)
        if done:
            self.episodes.append(self.ep)
        self.ep = []
        if self.rnn:
            self.copy.reset_state()
        events = self.spy.take()
        if len(self.episodes) < self.o['batchsize']:
            self.rec.expect(not events, lambda: self.what() +
                            ' learned too early')
        else:
            self.rec.eq(len(events), 1, lambda: self.what() +
                        ' number of updates')
            self.update(events[0])
            self.episodes = []
        self.rec.expect(G.same(G.link_state(self.m), self.params),
                        lambda: self.what() + ' model changed')

    def update(self, event):
        total = 0
        for ep in self.episodes:
            R = 0.
            for d, a, r in reversed(ep):
                R += r
                ps, dl, dh = coefs(d, a, self.discrete)
                for p, x, y in zip(ps, dl, dh):
                    c = -(R * x + self.o['beta'] * y) / len(self.episodes)
                    total += F.sum(p * c.astype('f')[None])
        self.copy.cleargrads()
        total.backward()
        for n, p in sorted(self.copy.namedparams()):
            g = 0. if p.grad is None else p.grad
            self.rec.close(event[2][n], self.params[n] - LR * g,
                           lambda: '{} update {}'.format(self.what(), n),
                           rtol=1e-3, atol=3e-4)
        self.rec.note_add('updates')
        self.params = event[2]
        P.set_state(self.copy, self.params)


def play(watch, script):
    k, r = 1, 0
    obs = G.obs_of(0, 0)
    for i, kind in enumerate(script):
        watch.act_and_train(obs, r)
        obs = G.obs_of(0, k)
        k += 1
        r = drive.reward_of(0, i)
        done, reset = KIND[kind]
        if done or reset:
            watch.stop_episode_and_train(obs, r, done)
            obs = G.obs_of(0, k)
            k += 1
            r = 0


def scripts(deep):
    return list(drive.scripts((CONT, DONE, RESET), 7 if deep else 5)) + \
        list(drive.scripts(drive.ALL, 3))


def gen(tier):
    deep = tier == 'thorough'
    for k in range(len(OPTS)):
        for rec in (False, True):
            for i in range(0, len(scripts(deep)), 40):
                yield [k, rec, i, deep]


@chk.part('scripts', gen, bound='all scripts of continue, terminal, reset of '
          '5 (thorough 7) steps and of all four kinds of 3; 5 settings, '
          'recurrent and not')
def case(rec, case):
    k, rnn, i, deep = case
    opts = dict(OPTS[k], rec=rnn)
    for s in scripts(deep)[i:i + 40]:
        with G.noise():
            play(Watch(rec, opts, lambda: 'REINFORCE {} script {}'.format(
                opts, s)), s)
        rec.trace()
        rec.state(k, rnn, s)


if __name__ == '__main__':
    raise SystemExit(chk.main())
