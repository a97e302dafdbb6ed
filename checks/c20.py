"""C20: A2C learns from exactly its rollouts."""
import itertools
import warnings

import chainer
import chainer.functions as F
import chainer.links as L
import numpy as np

from mc import agents as G
from mc import drive
from mc import onpol as P
from mc.core import Check
from mc.world import KIND, CONT, DONE, RESET, BOTH

warnings.filterwarnings('ignore')

chk = Check(
    'C20',
    rule='real A2C agents are driven through every script of joint step '
         'kinds (continue, terminal, reset, both) of 1-3 environments up to '
         'a length for every listed setting; actions, the moment of every '
         'update and the parameter change are compared with returns, '
         'advantages and loss gradients computed by hand per transition',
    assumptions=['network evaluation and backpropagation on a single '
                 'example are trusted', 'comparison within single-precision '
                 'tolerance'])

LR = 0.5


def model(discrete):
    from chainerrl.agents import a2c
    from chainerrl import distribution

    class M(chainer.Chain, a2c.A2CModel):
        def __init__(self):
            super().__init__()
            with self.init_scope():
                self.l = L.Linear(G.D, 3)
                self.p = L.Linear(3, G.A if discrete else 4)
                self.v = L.Linear(3, 1)

        def raw(self, x):
            h = F.tanh(self.l(x))
            return self.p(h), self.v(h)

        def pi_and_v(self, x):
            o, v = self.raw(x)
            return head(o), v

    def head(o):
        if discrete:
            return distribution.SoftmaxDistribution(o)
        m, lv = F.split_axis(o, 2, axis=1)
        return distribution.GaussianDistribution(m, F.exp(lv))
    return M(), head


OPTS = [
    dict(update_steps=1, use_gae=False, pi_loss_coef=0.7, v_loss_coef=0.6,
         entropy_coeff=0.3, gamma=0.9),
    dict(update_steps=2, use_gae=True, tau=0.8, gamma=0.9, custom=True),
    dict(update_steps=3, use_gae=False, gamma=1.0, entropy_coeff=0.,
         discrete=False),
    dict(update_steps=3, use_gae=True, tau=0.5, gamma=0.8, v_loss_coef=1.3),
    dict(update_steps=2, use_gae=True, tau=1.0, gamma=0.9, discrete=False,
         entropy_coeff=0.2),
    dict(update_steps=2, use_gae=False, gamma=0.6, pi_loss_coef=1.9,
         custom=True),
]


def moments(out, a, discrete):
    """log pi(a), its gradient, entropy, its gradient, with respect to the
    network output."""
    o = np.asarray(out, dtype=np.float64)
    if discrete:
        lp = P.softmax(o)
        p = np.exp(lp)
        H = -(p * lp).sum()
        return np.eye(G.A)[a] - p, -p * (lp + H)
    m, lv = o[:2], o[2:]
    a = np.asarray(a, dtype=np.float64)
    d = a - m
    return (np.concatenate([d / np.exp(lv), 0.5 * d * d / np.exp(lv) - 0.5]),
            np.concatenate([np.zeros(2), np.full(2, 0.5)]))


class Watch(object):
    def __init__(self, rec, opts, n, seed, what):
        from chainerrl import agents
        o = dict(opts)
        self.discrete = o.pop('discrete', True)
        self.custom = o.pop('custom', False)
        if self.custom:
            o['batch_states'] = P.skewed
        self.o = dict(dict(pi_loss_coef=1.0, v_loss_coef=0.5, tau=0.95,
                           entropy_coeff=0.01), **o)
        self.m, self.head = model(self.discrete)
        self.copy, _ = model(self.discrete)
        G.fill(self.m, seed, 0.9)
        self.agent = agents.A2C(self.m, G.sgd(self.m, LR), num_processes=n,
                                phi=G.double, **o)
        self.rec, self.what, self.n = rec, what, n
        self.roll = []
        self.updates = 0

    def input(self, obs):
        x = G.double(obs)
        return (x * np.float32(0.5) + np.float32(0.1)) if self.custom else x

    def out(self, obs):
        return self.copy.raw(self.input(obs)[None])

    def sync(self):
        P.set_state(self.copy, G.link_state(self.m))

    def guard(self):
        self.before = G.link_state(self.m)

    def batch_act_and_train(self, obss):
        self.guard()
        acts = self.agent.batch_act_and_train(obss)
        self.rec.expect(G.same(G.link_state(self.m), self.before),
                        lambda: self.what() + ' learned while acting')
        self.sync()
        for o, a in zip(obss, acts):
            want = self.head(self.out(o)[0]).sample().array[0]
            self.rec.close(a, want, lambda: self.what() + ' action')
        self.last = (list(obss), [np.array(a) for a in acts])
        return acts

    def batch_observe_and_train(self, obss, rs, dones, resets):
        ends = [d or s for d, s in zip(dones, resets)]
        self.roll.append((self.last, list(rs), ends, list(obss)))
        self.guard()
        self.agent.batch_observe_and_train(obss, rs, dones, resets)
        after = G.link_state(self.m)
        if len(self.roll) < self.o['update_steps']:
            self.rec.expect(G.same(after, self.before),
                            lambda: self.what() + ' learned too early')
            return
        self.updates += 1
        self.expect_update(after)
        self.roll = []

    def expect_update(self, after):
        o, rec = self.o, self.rec
        T, n = len(self.roll), self.n
        g = o['gamma']
        self.copy.cleargrads()
        total = 0
        for e in range(n):
            outs = [self.out(self.roll[k][0][0][e]) for k in range(T)]
            vs = [float(v.array[0, 0]) for _, v in outs]
            vs.append(float(self.out(self.roll[-1][3][e])[1].array[0, 0]))
            rets = [0.] * T
            acc = 0. if o['use_gae'] else vs[-1]
            for k in reversed(range(T)):
                r, live = self.roll[k][1][e], 0. if self.roll[k][2][e] else 1.
                if o['use_gae']:
                    delta = r + g * live * vs[k + 1] - vs[k]
                    acc = delta + g * o['tau'] * live * acc
                    rets[k] = acc + vs[k]
                else:
                    acc = r + g * live * acc
                    rets[k] = acc
            for k in range(T):
                l, v = outs[k]
                adv = rets[k] - vs[k]
                dlp, dH = moments(l.array[0], self.roll[k][0][1][e],
                                  self.discrete)
                # per-dimension distributions of a Gaussian are summed
                cl = (-o['pi_loss_coef'] * adv * dlp
                      - o['entropy_coeff'] * dH) / (T * n)
                cv = -2 * o['v_loss_coef'] * adv / (T * n)
                total += F.sum(l * cl.astype('f')[None]) + F.sum(v * cv)
                rec.trans()
        total.backward()
        for name, p in sorted(self.copy.namedparams()):
            rec.close(after[name], p.array - LR * p.grad,
                      lambda: '{} update {} {}'.format(
                          self.what(), self.updates, name),
                      rtol=1e-3, atol=2e-4)


def cases(deep):
    one = [(1, tuple((k,) for k in s))
           for s in drive.scripts(drive.ALL, 5 if deep else 4)]
    two = [(2, s) for s in itertools.product(
        drive.joint(2, (CONT, DONE, RESET)) if deep else
        drive.FEW2 + [(CONT, DONE)], repeat=3)]
    two += [(2, s) for s in itertools.product(
        [(CONT, CONT), (DONE, CONT), (CONT, BOTH)], repeat=4)]
    three = [(3, s) for s in itertools.product(
        [(CONT,) * 3, (DONE, RESET, CONT), (CONT, BOTH, DONE)],
        repeat=4 if deep else 3)]
    return one + two + three


def gen(tier):
    deep = tier == 'thorough'
    n = len(cases(deep))
    for k in range(len(OPTS)):
        for i in range(0, n, 40):
            yield [k, i, deep]


@chk.part('A2C', gen, bound='all scripts of 4 (5 thorough) steps for 1 '
          'environment, 3 for 2 (6, thorough 9 joint kinds) and 4 (3 joint '
          'kinds), 3 (4) for 3 environments; 6 settings')
def a2c(rec, case):
    k, i, deep = case
    for n, s in cases(deep)[i:i + 40]:
        def what():
            return 'A2C {} envs {} script {}'.format(OPTS[k], n, s)
        np.random.seed(1)
        with G.noise():
            w = Watch(rec, OPTS[k], n, k, what)
            drive.run_batch(w, s, n)
        rec.eq(w.updates, len(s) // OPTS[k]['update_steps'],
               lambda: what() + ' number of updates')
        rec.trace()
        rec.state(k, n, s)


if __name__ == '__main__':
    raise SystemExit(chk.main())
