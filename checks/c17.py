"""C17: each value-based agent moves its network to its defined target."""
import itertools
import warnings

import chainer
import numpy as np

from mc import agents as G
from mc.core import Check
from mc.exps import OBS, REW, batches, to_exp

warnings.filterwarnings('ignore')

chk = Check(
    'C17',
    rule='for every value-based agent class, loss setting and parameter set, '
         'every minibatch of a finite universe of experiences (states, '
         'actions, rewards inside and outside the clipping region, terminal '
         'or not, 1-3 steps, weights, batch sizes 1-3; sequences for '
         'recurrent networks) is learned by the real agent; loss, reported '
         'errors and the parameter change are compared with targets and '
         'gradient coefficients computed by hand for each example separately',
    assumptions=['network evaluation and backpropagation through a network '
                 'on a single example are trusted (C26, C32 and Chainer)',
                 'quantile thresholds are replaced by fixed numbers',
                 'comparison within single-precision tolerance'])

QUAD = ['DQN', 'DoubleDQN', 'AL', 'PAL', 'DoublePAL', 'SARSA', 'ResidualDQN']
GAMMA = 0.9
KW = {'AL': dict(alpha=0.6), 'PAL': dict(alpha=0.6),
      'DoublePAL': dict(alpha=0.6), 'DPP': dict(eta=0.7),
      'DPPL': dict(eta=0.7), 'ResidualDQN': dict(grad_scale=0.4)}


class PickWorst(object):
    """Explorer whose choice depends on the action value it is given."""

    def __init__(self):
        self.seen = []

    def select_action(self, t, greedy_action_func, action_value=None):
        g = greedy_action_func()
        self.seen.append(t)
        if np.ndim(g) == 0:
            return int(np.argmin(action_value.q_values.array[0]))
        return np.asarray(g * np.float32(0.5) - action_value.v.array[0, 0]
                          * np.float32(0.1), dtype=np.float32)


def recording_buffer():
    """Stands in for a prioritized buffer; records priorities."""
    buf = G.make_buffer('replay')
    buf.errors = []
    buf.update_errors = lambda errors: buf.errors.append(
        [float(e) for e in errors])
    return buf


def taus_of(shape):
    i, j = np.meshgrid(np.arange(shape[0]), np.arange(shape[1]),
                       indexing='ij')
    return ((0.137 + 0.37 * i + 0.61 * j + 0.19 * shape[1]) % 1.0)


def uniform(low=0., high=1., size=None):
    return low + (high - low) * taus_of(size)


def quad_model():
    from chainerrl.q_functions import FCQuadraticStateQFunction
    from gym import spaces
    sp = spaces.Box(low=-0.6 * np.ones(2, 'f'), high=0.5 * np.ones(2, 'f'))
    return FCQuadraticStateQFunction(G.D, 2, 3, 1, sp, scale_mu=False)


def moded(x):
    """Stands for dropout and the like: differs by mode."""
    return x * np.float32(0.8 if chainer.config.train else -0.6)


def moded_model(name, rec):
    """A model that computes something else in test mode."""
    import chainerrl
    from chainerrl import links
    from chainerrl.agents import iqn
    from chainerrl.q_functions import \
        DistributionalFCStateQFunctionWithDiscreteAction as QF
    L = chainer.links
    seq = links.StatelessRecurrentSequential if rec else links.Sequence
    first = G.rnn(rec, G.D, 3) if rec else L.Linear(G.D, 3)
    if name.startswith('Categorical'):
        return seq(first, moded, QF(3, G.A, 4, -2., 3., 3, 1))
    if 'IQN' in name:
        cls = iqn.StatelessRecurrentImplicitQuantileQFunction if rec \
            else iqn.ImplicitQuantileQFunction
        return cls(psi=seq(first, moded), phi=iqn.CosineBasisLinear(4, 3),
                   f=L.Linear(3, G.A))
    return seq(first, moded, L.Linear(3, G.A),
               chainerrl.action_value.DiscreteActionValue)


def make(name, kind, clip, acc):
    from chainerrl import agents
    from chainerrl.agents import dpp
    cls = getattr(dpp, name) if name in ('DPPL', 'DPPGreedy') \
        else getattr(agents, name)
    flat = kind in ('flat', 'quad', 'moded')
    if kind == 'quad':
        model = quad_model()
    elif kind.startswith('moded'):
        model = moded_model(name, kind[6:])
    else:
        model = G.value_model(name, None if kind == 'flat' else kind)
    buf = recording_buffer() if flat \
        else G.make_buffer('episodic')
    args = dict(gamma=GAMMA, explorer=PickWorst(), replay_start_size=1,
                minibatch_size=1, phi=G.double, average_loss_decay=0.,
                clip_delta=clip, batch_accumulator=acc,
                recurrent=not flat)
    if 'IQN' in name:
        args.update(quantile_thresholds_N=3, quantile_thresholds_N_prime=4,
                    quantile_thresholds_K=2)
    args.update(KW.get(name, {}))
    return cls(model, G.sgd(model, 1.0), buf, **args)


# ------------------------------------------------------------ reference

def table(av):
    """Per-example action values as floats, whatever the kind."""
    return av.q_values.array[0].astype(np.float64)


class Quad(object):
    def __init__(self, av):
        self.mu = av.mu.array[0].astype(np.float64)
        self.P = av.mat.array[0].astype(np.float64)
        self.v = float(av.v.array[0, 0])
        self.best = np.clip(self.mu, -0.6, 0.5)

    def at(self, a):
        d = np.asarray(a, dtype=np.float64) - self.mu
        return self.v - 0.5 * d.dot(self.P).dot(d)

    def max(self):
        return self.at(self.best)

    def worst(self):
        return self.best * 0.5 - self.v * 0.1


class Disc(object):
    def __init__(self, q):
        self.q = q
        self.best = int(np.argmax(q))

    def at(self, a):
        return self.q[int(a)]

    def max(self):
        return self.q.max()

    def worst(self):
        return int(np.argmin(self.q))


def wrap(av):
    return Quad(av) if hasattr(av, 'mat') else Disc(table(av))


def reference(name, ex, online, target, pick):
    """-> (loss coefficient pairs) for one example.

    online/target: functions giving the action value of a single example for
    'now' or 'next'.  Returns predicted value, target value."""
    s, a, R, disc, term = ex
    live = 0. if term else disc
    kw = KW.get(name, {})
    q = wrap(online('now')).at(a)
    if name == 'DQN':
        return q, R + live * wrap(target('next')).max()
    if name == 'DoubleDQN':
        return q, R + live * wrap(target('next')).at(
            wrap(pick('next')).best)
    if name == 'SARSA':
        t = wrap(target('next'))
        return q, R + live * t.at(t.worst())
    if name == 'ResidualDQN':
        return q, R + live * wrap(online('next')).max()
    if name in ('AL', 'PAL', 'DoublePAL'):
        t0, t1 = wrap(target('now')), wrap(target('next'))
        best = wrap(pick('next')).best if name == 'DoublePAL' else t1.best
        y = R + live * t1.at(best)
        adv = t0.at(a) - t0.max()
        if name != 'AL':
            adv = max(adv, 0. if term else t1.at(a) - t1.max())
        return q, y + kw['alpha'] * adv
    if name in ('DPP', 'DPPL', 'DPPGreedy'):
        t0, t1 = wrap(target('now')), wrap(target('next'))

        def op(t):
            if name == 'DPPGreedy':
                return t.max()
            eta = kw['eta']
            if name == 'DPPL':
                return np.log(np.exp(eta * t.q).sum()) / eta
            p = np.exp(eta * t.q)
            return (p / p.sum()).dot(t.q)
        return q, t0.at(a) - op(t0) + R + live * op(t1)
    raise AssertionError(name)


def project(z, values, probs):
    """Categorical projection, atom by atom."""
    out = np.zeros(len(z))
    dz = (z[-1] - z[0]) / (len(z) - 1)
    for v, p in zip(values, probs):
        v = min(max(v, z[0]), z[-1])
        for i in range(len(z)):
            out[i] += p * max(0., 1. - abs(v - z[i]) / dz)
    return out


def tested(f, model):
    """Targets, and the greedy actions in them, are evaluated in test
    mode; what is learned is evaluated in training mode."""
    with chainer.using_config('train', False):
        return f(model)


def expected(name, agent, online, target, views, exs, weights, clip, acc):
    """-> loss, errors, gradients of the loss for the online network.

    views[i] = (now(model) -> av, next(model) -> av) evaluators."""
    B = len(exs)
    online.cleargrads()
    total = 0.
    errors = []
    for i, ((now, nxt), ex) in enumerate(zip(views, exs)):
        s, a, R, disc, term = ex
        w = (1. if weights is None else weights[i]) \
            / (B if acc == 'mean' else 1.)

        def on(which):
            return now(online) if which == 'now' else nxt(online)

        def tg(which):
            return tested(now if which == 'now' else nxt, target)

        def pick(which):
            return tested(now if which == 'now' else nxt, online)
        live = 0. if term else disc
        if name.startswith('Categorical'):
            av = on('now')
            z = av.z_values.astype(np.float64)
            tav = tg('next')
            sel = tav if name == 'CategoricalDQN' else pick('next')
            best = int(np.argmax(
                sel.q_dist.array[0].astype(np.float64).dot(z)))
            m = project(z, R + live * z,
                        tav.q_dist.array[0, best].astype(np.float64))
            p = av.q_dist[0, int(a)]
            pn = p.array.astype(np.float64)
            ce = -(m * np.log(pn)).sum()
            total += w * ce
            errors.append(ce)
            p.grad = (-w * m / pn).astype(np.float32)
            p.backward()
        elif 'IQN' in name:
            K, N, Np = 2, 3, 4
            f = now(online)
            taus = taus_of((B, N))[i:i + 1].astype(np.float32)
            y = f(taus).quantiles[0, :, int(a)]
            yn = y.array.astype(np.float64)
            tilde = taus_of((B, K))[i:i + 1].astype(np.float32)
            prime = taus_of((B, Np))[i:i + 1].astype(np.float32)
            tf = tg('next')
            sel = tf if name == 'IQN' else pick('next')
            best = int(np.argmax(
                sel(tilde).quantiles.array[0].astype(np.float64).mean(0)))
            t = R + live * tf(prime).quantiles.array[0, :, best].astype(
                np.float64)
            loss = 0.
            g = np.zeros(N)
            for k in range(N):
                for j in range(Np):
                    d = t[j] - yn[k]
                    # the quantile level of an under-estimate
                    c = abs(float(taus[0, k]) - (1. if d > 0 else 0.))
                    h = 0.5 * d * d if abs(d) < 1 else abs(d) - 0.5
                    loss += c * h / Np
                    g[k] += -c * np.clip(d, -1, 1) / Np
            total += w * loss
            errors.append(loss / N)
            y.grad = (w * g).astype(np.float32)
            y.backward()
        else:
            q, t = reference(name, ex, on, tg, pick)
            d = q - t
            if clip:
                loss = 0.5 * d * d if abs(d) < 1 else abs(d) - 0.5
                g = float(np.clip(d, -1, 1))
            else:
                loss, g = 0.5 * d * d, d
            total += w * loss
            errors.append(abs(d))
            pred = on('now')
            act = np.asarray([a], dtype=np.int32) if np.ndim(a) == 0 \
                else np.asarray([a], dtype=np.float32)
            v = pred.evaluate_actions(act)
            v.grad = np.asarray([w * g], dtype=np.float32)
            v.backward()
            if name == 'ResidualDQN' and live:
                m = on('next').max
                m.grad = np.asarray(
                    [-w * g * KW[name]['grad_scale'] * live],
                    dtype=np.float32)
                m.backward()
    grads = {n: (np.zeros_like(p.array) if p.grad is None
                 else np.array(p.grad)) for n, p in online.namedparams()}
    return total, errors, grads


# ------------------------------------------------------------ flat batches

def action(kind, i):
    if kind == 'quad':
        return [np.asarray([0.3, -0.4], 'f'), np.asarray([-0.5, 0.1], 'f'),
                np.asarray([0.9, 0.8], 'f')][i]
    return i


CONFIGS = ([(n, 'flat') for n in G.VALUE] + [(n, 'quad') for n in QUAD]
           + [(n, 'moded') for n in G.VALUE])


def settings(name):
    # the clipping switch is documented as ignored by distributional agents
    clips = (True,) if name.startswith('Categorical') or 'IQN' in name \
        else (True, False)
    return itertools.product(clips, ('mean', 'sum'), (False, True))


def gen_flat(tier):
    deep = tier == 'thorough'
    for name, kind in CONFIGS:
        for clip, acc, weighted in settings(name):
            if kind == 'moded' and not deep and (weighted or clip):
                continue
            for seed in range(4 if deep else 1 + (
                    acc == 'mean' and kind != 'moded')):
                yield [name, kind, clip, acc, weighted, seed, deep]


def check_update(rec, what, agent, online0, target0, want, errs_got,
                 weighted):
    loss, errors, grads = want
    rec.close(agent.average_loss, loss, lambda: what() + ' loss',
              rtol=2e-4, atol=2e-5)
    if errs_got is not None:
        rec.close(np.asarray(errs_got, dtype=np.float64).ravel(), errors,
                  lambda: what() + ' errors', rtol=2e-4, atol=2e-5)
    now = G.link_state(agent.model)
    for n, g in grads.items():
        rec.close(online0[n] - now[n], g, lambda: '{} change of {}'.format(
            what(), n), rtol=1e-3, atol=3e-5)
    rec.expect(G.same(G.link_state(agent.target_model), target0),
               lambda: what() + ' target network changed')
    if not hasattr(agent.replay_buffer, 'errors'):
        return
    if weighted:
        rec.expect(len(agent.replay_buffer.errors) == 1,
                   lambda: what() + ' priorities set {} times'.format(
                       len(agent.replay_buffer.errors)))
        rec.close(agent.replay_buffer.errors[0], errors,
                  lambda: what() + ' priorities', rtol=2e-4, atol=2e-5)
    else:
        rec.expect(not agent.replay_buffer.errors, lambda: what()
                   + ' priorities of unweighted data')
    del agent.replay_buffer.errors[:]


def prepare(agent, seed):
    """Parameters of online and target network and copies for reference."""
    import copy
    G.fill(agent.model, 10 + seed, 0.9)
    if agent.target_model is None:
        agent.target_model = copy.deepcopy(agent.model)
    G.fill(agent.target_model, 50 + seed, 0.9)
    return copy.deepcopy(agent.model), copy.deepcopy(agent.target_model)


@chk.part('single steps', gen_flat, bound='universe of 52 experiences of 1-3 '
          'steps over 3 states, 3 actions, 3 rewards; batch sizes 1-3; 1-2 '
          'parameter sets (thorough 4)')
def flat(rec, case):
    name, kind, clip, acc, weighted, seed, deep = case
    agent = make(name, kind, clip, acc)
    online, target = prepare(agent, seed)
    online0, target0 = G.link_state(online), G.link_state(target)
    saved = np.random.uniform
    np.random.uniform = uniform
    differs = 0
    try:
        for batch in batches(deep):
            B = len(batch)
            weights = [0.5, 1.7, 0.9][:B] if weighted else None
            for p, (n, q) in zip(
                    [p for _, p in sorted(agent.model.namedparams())],
                    sorted(online.namedparams())):
                p.array[...] = q.array
            views, exs = [], []
            for e in batch:
                R = sum(GAMMA ** i * REW[tr[2]] for i, tr in enumerate(e))
                x = np.asarray([G.double(OBS[e[0][0]])])
                x2 = np.asarray([G.double(OBS[e[-1][3]])])
                views.append((lambda m, x=x: m(x), lambda m, x2=x2: m(x2)))
                exs.append((None, action(kind, e[0][1]), R, GAMMA ** len(e),
                            any(tr[4] for tr in e)))
            want = expected(name, agent, online, target, views, exs, weights,
                            clip, acc)
            exps = [to_exp(lambda a: action(kind, a), e, weights and weights[i])
                    for i, e in enumerate(batch)]
            errs = None if weighted else []
            agent.t = 7
            agent.update(exps, errors_out=errs)
            check_update(
                rec, lambda: '{} {} clip={} acc={} batch {}'.format(
                    name, kind, clip, acc, batch),
                agent, online0, target0, want, errs, weighted)
            if name == 'SARSA':
                rec.expect(agent.explorer.seen == [7] * B,
                           lambda: 'behaviour policy asked at {}'.format(
                               agent.explorer.seen))
                del agent.explorer.seen[:]
            rec.trans(B)
            rec.trace()
            rec.state(name, kind, clip, acc, weighted, seed, batch)
    finally:
        np.random.uniform = saved
    del differs


# ------------------------------------------------------------ sequences

def episodes(deep):
    """Sequences of (state, action, reward, next state, terminal); a state
    sequence is continuous."""
    out = []
    for n in (1, 2, 3):
        for a in range(3) if n < 3 else (0, 2):
            for r in (0, 1, 2) if deep or n < 3 else (0, 2):
                for t in (False, True):
                    out.append([(k % 3, (a + k) % 3, (r + k) % 3,
                                 (k + 1) % 3, t and k == n - 1)
                                for k in range(n)])
    return out


def gen_seq(tier):
    deep = tier == 'thorough'
    for name in G.VALUE:
        for r in ('gru', 'lstm', 'rnn', 'moded-gru') \
                if deep or name == 'DQN' else ('lstm', 'moded-gru'):
            for clip, acc, weighted in settings(name):
                if weighted:
                    continue
                if r == 'moded-gru' and not deep and (
                        acc == 'sum' or clip and 'Q' in name[:4]):
                    continue
                for start in (False, True):
                    if not deep and start == (acc == 'mean'):
                        continue
                    if not deep and clip and name in G.VALUE[4:11:3]:
                        continue
                    yield [name, r, clip, acc, start, deep]


@chk.part('sequences', gen_seq, bound='all sets of one to three sequences '
          'from a universe of lengths 1-3, starting with an initial or a '
          'stored recurrent state')
def seq(rec, case):
    name, r, clip, acc, start, deep = case
    agent = make(name, r, clip, acc)
    online, target = prepare(agent, 1)
    online0, target0 = G.link_state(online), G.link_state(target)
    eps = episodes(deep)
    sets = [[e] for e in eps]
    sets += [[e, eps[(3 * i + 1) % len(eps)]] for i, e in enumerate(eps[::1 if deep else 2])]
    sets += [[e, eps[(5 * i + 2) % len(eps)], eps[(7 * i + 3) % len(eps)]]
             for i, e in enumerate(eps[::1 if deep else 5])]

    def step(m, x, st):
        """One step on one example -> (action value, state)."""
        return m.n_step_forward([np.asarray([x])], st, output_mode='concat')

    def stored(k):
        """A recurrent state that the agent could have stored."""
        with chainer.no_backprop_mode():
            st = None
            for j in range(k):
                _, st = step(online, G.double(OBS[(j + 1) % 3])
                             * np.float32(0.5), st)
            if st is None:
                return None
            return online.get_recurrent_state_at(st, 0, unwrap_variable=True)
    init = stored(2) if start else None
    saved = np.random.uniform
    np.random.uniform = uniform
    try:
        for ss in sets:
            # the agent is given sequences by decreasing length
            ss = sorted(ss, key=len, reverse=True)
            agent.model.copyparams(online)
            views, exs, given = [], [], []
            for e in ss:
                with chainer.no_backprop_mode():
                    _, st = step(
                        online, G.double(OBS[e[0][0]]),
                        None if init is None
                        else online.concatenate_recurrent_states([init]))
                    nxt0 = online.get_recurrent_state_at(
                        st, 0, unwrap_variable=True)
                given.append([dict(
                    state=OBS[s], action=a, reward=REW[rw],
                    next_state=OBS[s2], next_action=None,
                    is_state_terminal=t,
                    recurrent_state=init if k == 0 else 'unused',
                    next_recurrent_state=nxt0 if k == 0 else 'unused')
                    for k, (s, a, rw, s2, t) in enumerate(e)])
                for k, (s, a, rw, s2, t) in enumerate(e):
                    def now(m, k=k, e=e):
                        st = None if init is None \
                            else m.concatenate_recurrent_states([init])
                        for j in range(k + 1):
                            av, st = step(m, G.double(OBS[e[j][0]]), st)
                        return av

                    def nxt(m, k=k, e=e, nxt0=nxt0):
                        st = m.concatenate_recurrent_states([nxt0])
                        for j in range(k + 1):
                            av, st = step(m, G.double(OBS[e[j][3]]), st)
                        return av
                    views.append((now, nxt))
                    exs.append((None, a, REW[rw], GAMMA, t))
            want = expected(name, agent, online, target, views, exs, None,
                            clip, acc)
            agent.t = 7
            agent.update_from_episodes(given)
            check_update(
                rec, lambda: '{} {} clip={} acc={} sequences {}'.format(
                    name, r, clip, acc, ss),
                agent, online0, target0, want, None, False)
            del agent.explorer.seen[:]
            rec.trans(len(exs))
            rec.trace()
            rec.state(name, r, clip, acc, start, ss)
    finally:
        np.random.uniform = saved


if __name__ == '__main__':
    raise SystemExit(chk.main())
