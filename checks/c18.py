"""C18: continuous actor-critic agents follow their defined learning rules."""
import copy
import itertools
import warnings

import chainer
import chainer.functions as F
import chainer.links as L
from chainerrl.misc.batch_states import batch_states
import numpy as np

from mc import agents as G
from mc.core import Check
from mc.exps import OBS, REW, batches, to_exp

warnings.filterwarnings('ignore')

chk = Check(
    'C18',
    rule='for DDPG (also recurrent), PGT, TD3 and SAC, every setting and '
         'parameter set, every minibatch of a finite universe of experiences '
         'is learned by the real agent; the change of every network is '
         'compared with targets and gradient coefficients computed by hand '
         'for each example separately',
    assumptions=['network evaluation and backpropagation through a network '
                 'on a single example are trusted', 'Gaussian noise is '
                 'replaced by fixed numbers that differ between batch '
                 'entries', 'comparison within single-precision tolerance'])

GAMMA = 0.9
NA = 2
ACT = [np.asarray([0.3, -0.4], 'f'), np.asarray([-0.7, 0.1], 'f'),
       np.asarray([0.9, 0.8], 'f')]


class Moded(L.Linear):
    """Stands for dropout and the like: computes something else in test
    mode, in which targets are evaluated."""

    def forward(self, x):
        return super().forward(x) * np.float32(
            0.9 if chainer.config.train else -0.7)


def tested():
    return chainer.using_config('train', False)


class Q(chainer.Chain):
    def __init__(self):
        super().__init__()
        with self.init_scope():
            self.l1 = Moded(G.D + NA, 3)
            self.l2 = L.Linear(3, 1)

    def __call__(self, x, a):
        return self.l2(F.tanh(self.l1(F.concat((x, a), axis=1))))


def eps_of(shape):
    i = np.arange(int(np.prod(shape))).reshape(shape)
    return 0.9 * np.cos(1.0 + 2.3 * i)


class Noise(object):
    NAMES = ('standard_normal', 'normal', 'randn')

    def __enter__(self):
        self.saved = {k: getattr(np.random, k) for k in self.NAMES}
        np.random.standard_normal = lambda size=None: eps_of(size)
        np.random.normal = lambda loc=0., scale=1., size=None: \
            loc + scale * eps_of(size)
        np.random.randn = lambda *shape: eps_of(shape)

    def __exit__(self, *a):
        for k, v in self.saved.items():
            setattr(np.random, k, v)


def policy(name):
    from chainerrl import links, distribution

    def gauss(x):
        m, lv = F.split_axis(x, 2, axis=1)
        return distribution.GaussianDistribution(m, F.exp(lv))

    def squashed(x):
        m, lv = F.split_axis(x, 2, axis=1)
        return distribution.SquashedGaussianDistribution(m, F.exp(lv))

    def det(x):
        return distribution.ContinuousDeterministicDistribution(F.tanh(x))
    if name == 'PGT':
        return links.Sequence(Moded(G.D, 2 * NA), gauss)
    if name == 'SAC':
        return links.Sequence(Moded(G.D, 2 * NA), squashed)
    return links.Sequence(Moded(G.D, NA), det)


def shift(a):
    """A target smoothing function that is visibly applied."""
    return a * np.float32(0.5) + np.float32(0.2)


def make(name, opts):
    from chainerrl import agents
    pol = policy(name)
    buf = G.make_buffer('replay')
    args = dict(gamma=GAMMA, replay_start_size=1, minibatch_size=1,
                phi=G.double)
    args.update(opts)
    if name in ('DDPG', 'PGT'):
        from chainerrl.agents.ddpg import DDPGModel
        m = DDPGModel(pol, Q())
        return getattr(agents, name)(
            m, G.sgd(m['policy'], 1.0), G.sgd(m['q_function'], 1.0), buf,
            explorer=None, **args)
    q1, q2 = Q(), Q()
    if name == 'TD3':
        return agents.TD3(pol, q1, q2, G.sgd(pol, 1.0), G.sgd(q1, 1.0),
                          G.sgd(q2, 1.0), buf, explorer=None, **args)
    return agents.SoftActorCritic(
        pol, q1, q2, G.sgd(pol, 1.0), G.sgd(q1, 1.0), G.sgd(q2, 1.0), buf,
        **args)


def nets(name, agent):
    if name in ('DDPG', 'PGT'):
        return dict(pol=agent.policy, q1=agent.q_function,
                    tpol=agent.target_policy, tq1=agent.target_q_function)
    d = dict(pol=agent.policy, q1=agent.q_func1, q2=agent.q_func2,
             tq1=agent.target_q_func1, tq2=agent.target_q_func2)
    if name == 'TD3':
        d['tpol'] = agent.target_policy
    return d


def reset_nets(name, agent, seed):
    for i, (k, l) in enumerate(sorted(nets(name, agent).items())):
        G.fill(l, 20 * seed + i, 0.8)


def f64(v):
    return np.asarray(getattr(v, 'array', v), dtype=np.float64)


def grads_of(link):
    return {n: (np.zeros_like(p.array) if p.grad is None
                else np.array(p.grad)) for n, p in link.namedparams()}


def descend(link):
    for p in link.params():
        if p.grad is not None:
            p.array[...] -= p.grad
    link.cleargrads()


def qval(q, x, a):
    return float(q(x[None], np.asarray(a, dtype=np.float32)[None]).array[0, 0])


def head(pol, x):
    h = pol[0](x[None])
    m, lv = h.array[0, :NA].astype(np.float64), \
        h.array[0, NA:].astype(np.float64)
    return h, m, lv


def expect(name, ref, exs, opts, first_policy_update, temperature):
    """Performs the update on the copies `ref`; -> new temperature."""
    B = len(exs)
    targets = []
    eps = eps_of((B, NA))
    for i, (x, a, R, disc, term, x2) in enumerate(exs):
        live = 0. if term else disc
        with tested():
            if name == 'DDPG':
                a2 = np.tanh(f64(ref['tpol'][0](x2[None]))[0])
                nq = qval(ref['tq1'], x2, a2)
            elif name == 'PGT':
                _, m, lv = head(ref['tpol'], x2)
                nq = qval(ref['tq1'], x2, m + np.exp(lv / 2) * eps[i])
            elif name == 'TD3':
                a2 = np.tanh(f64(ref['tpol'][0](x2[None]))[0])
                if 'target_policy_smoothing_func' in opts:
                    a2 = 0.5 * a2 + 0.2
                else:
                    a2 = np.clip(a2 + np.clip(0.2 * eps[i], -.5, .5), -1, 1)
                nq = min(qval(ref['tq1'], x2, a2), qval(ref['tq2'], x2, a2))
            else:
                _, m, lv = head(ref['pol'], x2)
                u = m + np.exp(lv / 2) * eps[i]
                a2 = np.tanh(u)
                logp = (-0.5 * eps[i] ** 2 - lv / 2 - 0.5 * np.log(2 * np.pi)
                        - np.log(1 - a2 ** 2)).sum()
                nq = min(qval(ref['tq1'], x2, a2), qval(ref['tq2'], x2, a2)) \
                    - temperature * logp
        targets.append(R + live * nq)
    for k in ('q1', 'q2'):
        if k not in ref:
            continue
        ref[k].cleargrads()
        for ex, y in zip(exs, targets):
            v = ref[k](ex[0][None], ex[1][None])
            c = (1. if name == 'SAC' else 2.) * (float(v.array[0, 0]) - y) / B
            v.grad = np.asarray([[c]], dtype=np.float32)
            v.backward()
        descend(ref[k])
    if not first_policy_update:
        return temperature
    pol = ref['pol']
    pol.cleargrads()
    logps = []
    for i, (x, a, R, disc, term, x2) in enumerate(exs):
        if name in ('DDPG', 'TD3'):
            h = pol[0](x[None])
            a = np.tanh(f64(h))[0]
            av = chainer.Variable(a.astype(np.float32)[None])
            qv = ref['q1'](x[None], av)
            qv.backward()
            g = -f64(av.grad)[0] * (1 - a ** 2) / B
            h.grad = g.astype(np.float32)[None]
        elif name == 'PGT':
            h, m, lv = head(pol, x)
            act = m + np.exp(lv / 2) * eps[i]
            with tested():
                adv = qval(ref['q1'], x, act) - qval(ref['q1'], x, m)
            beta = opts.get('beta', 1e-2)
            d = act - m
            gm = -adv * d / np.exp(lv) / B
            gv = -(adv * (0.5 * d * d / np.exp(lv) - 0.5) + beta * 0.5) / B
            h.grad = np.concatenate([gm, gv]).astype(np.float32)[None]
        else:
            h, m, lv = head(pol, x)
            u = m + np.exp(lv / 2) * eps[i]
            a = np.tanh(u)
            logps.append((-0.5 * eps[i] ** 2 - lv / 2
                          - 0.5 * np.log(2 * np.pi)
                          - np.log(1 - a ** 2)).sum())
            av = chainer.Variable(a.astype(np.float32)[None])
            q1, q2 = ref['q1'](x[None], av), ref['q2'](x[None], av)
            (q1 if q1.array[0, 0] <= q2.array[0, 0] else q2).backward()
            gu = (temperature * 2 * a - f64(av.grad)[0] * (1 - a ** 2)) / B
            gv = gu * np.exp(lv / 2) * eps[i] / 2 - temperature * 0.5 / B
            h.grad = np.concatenate([gu, gv]).astype(np.float32)[None]
        h.backward()
        ref['q1'].cleargrads()
        if 'q2' in ref:
            ref['q2'].cleargrads()
    descend(pol)
    if name in ('TD3', 'SAC'):
        tau = opts['soft_update_tau']
        pairs = [('tq1', 'q1'), ('tq2', 'q2')]
        if name == 'TD3':
            pairs.append(('tpol', 'pol'))
        for t, s in pairs:
            for (n, p), (n2, p2) in zip(sorted(ref[t].namedparams()),
                                        sorted(ref[s].namedparams())):
                p.array[...] = (1 - tau) * p.array + tau * p2.array
    if opts.get('entropy_target') is not None:
        # gradient of -T * mean(log pi + target) with respect to log T
        lt = np.log(temperature)
        lt += temperature * (np.mean(logps) + opts['entropy_target'])
        temperature = np.exp(lt)
    return temperature


OPTS = {
    'DDPG': [dict(), dict(target_update_method='soft', batch_states=None)],
    'PGT': [dict(beta=0.), dict(beta=0.3, batch_states=None)],
    'TD3': [dict(soft_update_tau=0.25, policy_update_delay=1),
            dict(soft_update_tau=0.5, policy_update_delay=2,
                 target_policy_smoothing_func=None),
            dict(soft_update_tau=0.1, policy_update_delay=3,
                 batch_states=None)],
    'SAC': [dict(soft_update_tau=0.25, initial_temperature=0.7),
            dict(soft_update_tau=0.5, initial_temperature=0.4,
                 entropy_target=-1.3),
            dict(soft_update_tau=0.1, initial_temperature=1.5,
                 entropy_target=0.8, batch_states=None)],
}


def skewed(states, xp, phi):
    """A user's batch_states that is visibly applied."""
    return batch_states(states, xp, phi) * np.float32(0.5) + np.float32(0.1)


def options(name, k):
    o = dict(OPTS[name][k])
    if 'target_policy_smoothing_func' in o:
        o['target_policy_smoothing_func'] = shift
    if 'batch_states' in o:
        o['batch_states'] = skewed
    if 'entropy_target' in o:
        o['temperature_optimizer'] = chainer.optimizers.SGD(1.0)
    return o


def gen_flat(tier):
    deep = tier == 'thorough'
    for name in ('DDPG', 'PGT', 'TD3', 'SAC'):
        for k in range(len(OPTS[name])):
            for seed in range(8 if deep else 3):
                for half in range(4):
                    yield [name, k, seed, half, deep]


@chk.part('single steps', gen_flat, bound='universe of 52 experiences of 1-3 '
          'steps over 3 states, 3 actions, 3 rewards; batch sizes 1-3; 2-3 '
          'settings per agent; 3 parameter sets (thorough 8)')
def flat(rec, case):
    name, k, seed, part, deep = case
    opts = options(name, k)
    agent = make(name, opts)
    updates = 0
    bs = batches(deep)
    for batch in bs[part::4]:
        reset_nets(name, agent, seed)
        ref = {k: copy.deepcopy(l) for k, l in nets(name, agent).items()}
        exs = []
        for e in batch:
            R = sum(GAMMA ** i * REW[tr[2]] for i, tr in enumerate(e))
            x, x2 = G.double(OBS[e[0][0]]), G.double(OBS[e[-1][3]])
            if 'batch_states' in opts:
                x, x2 = skewed([x, x2], np, lambda o: o)
            exs.append((x, ACT[e[0][1]], R, GAMMA ** len(e),
                        any(tr[4] for tr in e), x2))
        updates += 1
        delay = opts.get('policy_update_delay', 1)
        temp = None
        if name == 'SAC':
            if opts.get('entropy_target') is not None:
                agent.temperature_holder.log_temperature.array[...] = \
                    np.log(opts['initial_temperature'])
            temp = opts['initial_temperature']
            rec.close(agent.temperature, temp, 'temperature before')
        want_temp = expect(name, ref, exs, opts, updates % delay == 0, temp)

        def what():
            return '{} {} seed {} batch {}'.format(name, OPTS[name][k], seed,
                                                   batch)
        with Noise():
            agent.update([to_exp(lambda a: ACT[a], e) for e in batch])
        for key, link in nets(name, agent).items():
            for (n, p), (_, q) in zip(sorted(link.namedparams()),
                                      sorted(ref[key].namedparams())):
                rec.close(p.array, q.array,
                          lambda: '{} {}{}'.format(what(), key, n),
                          rtol=1e-3, atol=1e-4)
        if name == 'SAC':
            rec.close(agent.temperature, want_temp,
                      lambda: what() + ' temperature', rtol=1e-3)
        rec.trans(len(batch))
        rec.trace()
        rec.state(name, k, seed, batch)


# ------------------------------------------------------------ recurrent DDPG

def recurrent_models():
    from chainerrl.recurrent import RecurrentChainMixin
    from chainerrl import distribution

    class RQ(chainer.Chain, RecurrentChainMixin):
        def __init__(self):
            super().__init__()
            with self.init_scope():
                self.lstm = L.LSTM(G.D + NA, 3)
                self.out = Moded(3, 1)

        def __call__(self, x, a):
            return self.out(self.lstm(F.concat((x, a), axis=1)))

        def update_state(self, x, a):
            self(x, a)

    class RP(chainer.Chain, RecurrentChainMixin):
        def __init__(self):
            super().__init__()
            with self.init_scope():
                self.lstm = L.LSTM(G.D, 3)
                self.out = Moded(3, NA)

        def __call__(self, x):
            return distribution.ContinuousDeterministicDistribution(
                F.tanh(self.out(self.lstm(x))))
    return RQ, RP


def episodes():
    out = []
    for n in (1, 2, 3):
        for s in range(3):
            for a in range(3):
                for t in (False, True):
                    out.append([((s + k) % 3, (a + k * (s + 1)) % 3,
                                 (a + 2 * k) % 3, (s + k + 1) % 3,
                                 t and k == n - 1) for k in range(n)])
    return out


def gen_rec(tier):
    deep = tier == 'thorough'
    for seed in range(4 if deep else 2):
        for i in range(len(episodes())):
            yield [seed, i, deep]


def unroll(q, xs, acts, last=None):
    """Values after each step from scratch; optionally of another last
    action."""
    q.reset_state()
    out = []
    for x, a in zip(xs, acts):
        out.append(q(x[None], a if isinstance(a, chainer.Variable)
                     else np.asarray(a, 'f')[None]))
    q.reset_state()
    return out


@chk.part('recurrent DDPG', gen_rec, bound='one to three sequences out of a '
          'universe of 54 of lengths 1-3')
def recurrent(rec, case):
    from chainerrl import agents
    from chainerrl.agents.ddpg import DDPGModel
    seed, i, deep = case
    eps = episodes()
    N = len(eps)
    sets = [[eps[i]]]
    for d in range(1, N, 1 if deep else 7):
        sets.append([eps[i], eps[(i + d) % N]])
    sets.append([eps[i], eps[(i + 5) % N], eps[(i + 23) % N]])
    RQ, RP = recurrent_models()
    m = DDPGModel(RP(), RQ())
    agent = agents.DDPG(
        m, G.sgd(m['policy'], 1.0), G.sgd(m['q_function'], 1.0),
        G.make_buffer('episodic'), gamma=GAMMA, explorer=None,
        replay_start_size=1, minibatch_size=1, episodic_update=True,
        phi=G.double)
    for ss in sets:
        reset_nets('DDPG', agent, seed)
        ref = {k: copy.deepcopy(l) for k, l in nets('DDPG', agent).items()}
        for l in ref.values():
            l.reset_state()
        T = max(len(e) for e in ss)
        alive = [sum(len(e) > t for e in ss) for t in range(T)]
        q, pol = ref['q1'], ref['pol']
        q.cleargrads()
        for e in ss:
            xs = [G.double(OBS[tr[0]]) for tr in e]
            acts = [ACT[tr[1]] for tr in e]
            qs = unroll(q, xs, acts)
            coefs = []
            # the target policy sees s_0, ..., s_t, s_{t+1}
            for t, (s, a, r, s2, term) in enumerate(e):
                x2 = G.double(OBS[s2])
                with tested():
                    tp = ref['tpol']
                    tp.reset_state()
                    for x in xs[:t + 1]:
                        tp(x[None])
                    a2 = tp(x2[None]).sample().array[0]
                    tp.reset_state()
                    nq = float(unroll(ref['tq1'], xs[:t + 1] + [x2],
                                      acts[:t + 1] + [a2])[-1].array[0, 0])
                y = REW[r] + (0. if term else GAMMA) * nq
                coefs.append(2. * (float(qs[t].array[0, 0]) - y)
                             / alive[t] / T)
            tot = sum(c * F.sum(v) for c, v in zip(coefs, qs))
            tot.backward()
        descend(q)
        pol.cleargrads()
        for e in ss:
            xs = [G.double(OBS[tr[0]]) for tr in e]
            acts = [ACT[tr[1]] for tr in e]
            pol.reset_state()
            mine = [pol(x[None]).sample() for x in xs]
            pol.reset_state()
            tot = 0
            for t in range(len(e)):
                v = unroll(q, xs[:t + 1], acts[:t] + [mine[t]])[-1]
                tot = tot - F.sum(v) / (alive[t] * T)
            tot.backward()
        descend(pol)
        given = [[dict(state=OBS[s], action=ACT[a], reward=REW[r],
                       next_state=OBS[s2], is_state_terminal=term,
                       next_action=ACT[e[k + 1][1]] if k + 1 < len(e)
                       else ACT[0])
                  for k, (s, a, r, s2, term) in enumerate(e)] for e in ss]
        agent.update_from_episodes(given)
        for key, link in nets('DDPG', agent).items():
            for (n, p), (_, w) in zip(sorted(link.namedparams()),
                                      sorted(ref[key].namedparams())):
                rec.close(p.array, w.array, lambda: 'recurrent DDPG {} {}{}'
                          .format(ss, key, n), rtol=1e-3, atol=1e-4)
        rec.trans(sum(len(e) for e in ss))
        rec.trace()
        rec.state(seed, ss)


if __name__ == '__main__':
    raise SystemExit(chk.main())
