"""C21: asynchronous on-policy agents (A3C, ACER, NSQ, PCL)."""
import importlib
import itertools
import warnings

import chainer
import chainer.functions as F
import chainer.links as L
import numpy as np

from mc import agents as G
from mc import drive
from mc import onpol as P
from mc.core import Check
from mc.world import KIND, CONT, DONE, RESET, BOTH

warnings.filterwarnings('ignore')

chk = Check(
    'C21',
    rule='real A3C, ACER, NSQ and PCL agents are driven through every script '
         'of step kinds up to a length, and two agents sharing parameters '
         'through every interleaving of their calls, for every listed '
         'setting, recurrent and not; actions, the moment and number of '
         'updates and every change of the shared, local, target and average '
         'networks are compared with returns, importance weights, losses and '
         'gradients computed by hand per transition',
    assumptions=['network evaluation, backpropagation through time and the '
                 'values of distributions (C33) are trusted',
                 'sampled replay episodes are observed, not enumerated (C02)',
                 'comparison within single-precision tolerance'])

LR = 0.3


# ------------------------------------------------------------------ models

def recurrent_wrap(layers):
    return G.RecSeq(*layers)


def net(out, rec, head=None):
    from chainerrl import links
    body = [L.LSTM(G.D, 3), L.Linear(3, out)] if rec else \
        [L.Linear(G.D, 3), F.tanh, L.Linear(3, out)]
    if head:
        body.append(head)
    return G.RecSeq(*body) if rec else links.Sequence(*body)


def gauss(x):
    from chainerrl import distribution
    m, lv = F.split_axis(x, 2, axis=1)
    return distribution.GaussianDistribution(m, F.exp(lv))


class AdvNet(chainer.Chain):
    def __init__(self, n_in=G.D):
        super().__init__()
        with self.init_scope():
            self.l = L.Linear(n_in + 2, 3)
            self.o = L.Linear(3, 1)

    def __call__(self, x, a):
        return self.o(F.tanh(self.l(F.concat((x, a), axis=1))))


def build_model(name, opts, rec):
    from chainerrl import action_value
    from chainerrl.agents import a3c, acer
    head = G._softmax_head if opts.get('discrete', True) else gauss
    n = G.A if opts.get('discrete', True) else 4
    if name in ('A3C', 'PCL'):
        if opts.get('shared'):
            from chainerrl import links
            body = L.LSTM(G.D, 3) if rec else links.Sequence(
                L.Linear(G.D, 3), F.tanh)
            return a3c.A3CSharedModel(body, links.Sequence(
                L.Linear(3, n), head), L.Linear(3, 1))
        return a3c.A3CSeparateModel(net(n, rec, head), net(1, rec))
    if name == 'NSQ':
        return G.nsq_model(rec)
    if opts.get('shared'):
        from chainerrl import links
        body = L.LSTM(G.D, 3) if rec else links.Sequence(
            L.Linear(G.D, 3), F.tanh)
        pi = links.Sequence(L.Linear(3, n), head)
        if opts.get('discrete', True):
            return acer.ACERSharedModel(body, pi, links.Sequence(
                L.Linear(3, G.A), action_value.DiscreteActionValue))
        return acer.ACERSDNSharedModel(body, pi, L.Linear(3, 1), AdvNet(3))
    if opts.get('discrete', True):
        return acer.ACERSeparateModel(net(n, rec, head), G.nsq_model(rec))
    return acer.ACERSDNSeparateModel(net(n, rec, head), net(1, rec),
                                     AdvNet(), n=2)


class SpyBuffer(object):
    """Mixin recording what is sampled."""


def make_buffer(kind, spy):
    from chainerrl import replay_buffers as rb
    base = {'episodic': rb.EpisodicReplayBuffer,
            'pepisodic': rb.PrioritizedEpisodicReplayBuffer}[kind]

    class B(base):
        def sample_episodes(self, *a, **k):
            r = super().sample_episodes(*a, **k)
            # both orders of a sample occur
            self.calls = getattr(self, 'calls', 0) + 1
            if self.calls % 2:
                r = tuple(list(reversed(x)) for x in r) \
                    if isinstance(r, tuple) else list(reversed(r))
            spy.log.append(('sample', r, a, k))
            return r
    return B(100) if kind == 'episodic' else B(
        100, betasteps=10, uniform_ratio=0.2,
        wait_priority_after_sampling=False,
        default_priority_func=lambda ep: 1. + len(ep))


class LSTMs(object):
    """Save and restore the states of all LSTM links of a network."""

    def __init__(self, link):
        self.links = [l for l in link.links() if isinstance(l, L.LSTM)]

    def get(self):
        return [(l.c, l.h) for l in self.links]

    def set(self, s):
        for l, (c, h) in zip(self.links, s):
            l.c, l.h = c, h

    def reset(self):
        for l in self.links:
            l.c = l.h = None

    def cut(self):
        for l in self.links:
            for v in (l.c, l.h):
                if v is not None:
                    v.unchain_backward()


class PCLExplorer(object):
    def __init__(self):
        self.calls = []

    def select_action(self, t, greedy_action_func, action_value=None):
        a = greedy_action_func()
        k = len(self.calls)
        self.calls.append(t)
        return np.int32((int(a) + 1) % G.A) if k % 2 else a


# ------------------------------------------------------------------ watcher

class Watch(object):
    """One agent, its reference networks and its segment of experience."""

    def __init__(self, rec, name, opts, what, world, shared=None, idx=0):
        from chainerrl import agents
        taa = importlib.import_module(
            'chainerrl.experiments.train_agent_async')
        self.rec, self.name, self.what, self.world = rec, name, what, world
        o = dict(opts)
        self.rnn = o.pop('rec', None)
        self.discrete = o.pop('discrete', True)
        o.pop('shared', None)
        self.custom = o.pop('custom', False)
        buf = o.pop('buffer', None)
        self.spy = P.Spy()
        seed = o.pop('seed', 1)
        m = G.fill(build_model(name, opts, self.rnn), seed, 0.8)
        self.full = o
        kw = dict(o, phi=G.double)
        if self.custom:
            kw['batch_states'] = P.skewed
        self.buffer = None
        if name in ('ACER', 'PCL'):
            self.buffer = make_buffer(buf, self.spy) if buf else None
            kw['replay_buffer'] = self.buffer
        self.explorer = None
        if name == 'NSQ':
            self.explorer = kw['explorer'] = G.ScriptedExplorer(True)
        if name == 'PCL' and kw.pop('explore', False):
            self.explorer = kw['explorer'] = PCLExplorer()
        self.agent = getattr(agents, name)(
            m, P.spying_sgd(m, self.spy, LR), **kw)
        self.agent.process_idx = idx
        if name == 'PCL' and not o.get('train_async'):
            shared = {}
        elif shared is None:
            shared = taa.extract_shared_objects_from_agent(self.agent)
            world['shared_objects'] = shared
        taa.set_shared_objects(self.agent, shared)
        self.m = build_model(name, opts, self.rnn)
        self.m2 = build_model(name, opts, self.rnn)     # for replay
        self.avg = build_model(name, opts, self.rnn)
        P.set_state(self.m, G.link_state(m))
        self.local_params = G.link_state(m)
        self.h = LSTMs(self.m)
        self.h2 = LSTMs(self.m2)
        self.havg = LSTMs(self.avg)
        if idx == 0:
            world['avg'] = G.link_state(m)
            world['target'] = G.link_state(m)
            world['shared'] = G.link_state(m)
            world['t_global'] = 0
        self.seg = []
        self.losses = []
        self.last = None
        self.t = 0
        self.average_reward = 0.
        self.history = []
        self.episodes = []

    # ---- input
    def x(self, obs):
        v = G.double(obs)
        if self.custom:
            v = v * np.float32(0.5) + np.float32(0.1)
        return v[None]

    @property
    def t_max(self):
        return self.full.get('t_max')

    def shared_link(self):
        return self.agent.shared_q_function if self.name == 'NSQ' \
            else (self.agent.shared_model if hasattr(
                self.agent, 'shared_model') else self.agent.model)

    def local_link(self):
        return getattr(self.agent, self.agent.saved_attributes[0])

    def forward(self, m, obs):
        """-> dict of the outputs of network m"""
        y = m(self.x(obs))
        if self.name == 'NSQ':
            return dict(q=y)
        if self.name == 'ACER':
            return dict(d=y[0], q=y[1], v=y[2])
        return dict(d=y[0], v=y[1])

    # ---- calls
    def act_and_train(self, obs, reward):
        due = bool(self.seg) and len(self.seg) == self.t_max
        if self.seg:
            self.seg[-1]['r'] = reward
        self.note_before()
        a = self.agent.act_and_train(obs, reward)
        events = self.spy.take()
        if due:
            self.finish(obs, False, events)
        else:
            self.rec.eq(events, [], lambda: self.what() +
                        ' update before t_max')
        self.act(obs, a)
        self.check_networks()
        self.last = obs
        self.history.append(self.seg[-1])
        self.stored(self.episodes, self.history[:-1])
        return a

    def stop_episode_and_train(self, obs, reward, done):
        self.seg[-1]['r'] = reward
        self.note_before()
        self.agent.stop_episode_and_train(obs, reward, done)
        self.finish(None if done else obs, done, self.spy.take())
        self.h.reset()
        self.havg.reset()
        self.last = None
        self.check_networks()
        self.history[-1].update(terminal=done, after=obs)
        for s, n in zip(self.history, self.history[1:]):
            s.update(terminal=False, after=n['obs'])
        self.episodes.append(self.history)
        self.history = []
        self.stored(self.episodes, [])

    def stored(self, episodes, current):
        """The replay buffer holds exactly what was experienced."""
        if self.buffer is None:
            return
        for s, n in zip(current, self.history[1:]):
            s.update(terminal=False, after=n['obs'])
        got = [list(e) for e in (self.buffer.episodic_memory.data
                                 if hasattr(self.buffer.episodic_memory,
                                            'data')
                                 else self.buffer.episodic_memory)]
        self.rec.eq([len(e) for e in got], [len(e) for e in episodes],
                    lambda: self.what() + ' lengths of stored episodes')
        cur = self.buffer.current_episode[0]
        self.rec.eq(len(cur), len(current), lambda: self.what() +
                    ' length of the stored episode')
        for e, w in zip(got + [cur], episodes + [current]):
            for tr, s in zip(e, w):
                self.rec.expect(
                    np.array_equal(tr['state'], s['obs'])
                    and np.array_equal(tr['next_state'], s['after'])
                    and np.array_equal(tr['action'], s['a'])
                    and tr['reward'] == s['r']
                    and bool(tr['is_state_terminal']) == s['terminal'],
                    lambda: '{} stored {} instead of {}'.format(
                        self.what(), tr, s))
                for x, y in zip(self.parts(tr['mu']), s['mu']):
                    self.rec.close(f64(x), y, lambda: self.what() +
                                   ' stored policy', atol=1e-5)

    def note_before(self):
        if self.buffer is not None:
            self.size = len(self.buffer)
            self.n_episodes = self.buffer.n_episodes

    # ---- acting
    def act(self, obs, a):
        rec, w = self.rec, self.world
        if self.name == 'NSQ':
            # the target network follows the episode
            P.set_state(self.avg, w['target'])
            if self.rnn:
                with chainer.no_backprop_mode():
                    self.avg(self.x(obs))
        P.set_state(self.m, self.local_params)
        out = self.forward(self.m, obs)
        step = dict(out=out, obs=obs)
        if self.name == 'NSQ':
            t, g, av, chosen = self.explorer.calls[-1]
            rec.eq(t, w['t_global'], lambda: self.what() + ' explorer time')
            rec.eq(int(g), int(out['q'].greedy_actions.array[0]),
                   lambda: self.what() + ' greedy action')
            rec.close(av.q_values.array, out['q'].q_values.array,
                      lambda: self.what() + ' action values', atol=1e-5)
            rec.eq(int(a), int(chosen), lambda: self.what() + ' action')
            w['t_global'] += 1
            if w['t_global'] % self.full['i_target'] == 0:
                w['target'] = self.local_params
        else:
            want = out['d'].sample().array[0]
            if self.explorer is not None:
                rec.eq(self.explorer.calls[-1], self.t,
                       lambda: self.what() + ' explorer time')
                if (len(self.explorer.calls) - 1) % 2:
                    want = (int(want) + 1) % G.A
            rec.close(a, want, lambda: self.what() + ' action')
        if self.name == 'ACER':
            P.set_state(self.avg, w['avg'])
            with chainer.no_backprop_mode():
                step['avg'] = self.forward(self.avg, obs)['d']
        step['a'] = np.array(a)
        if 'd' in out:
            step['mu'] = [f64(c).copy() for c in self.parts(out['d'])]
        self.seg.append(step)
        self.t += 1
        self.rec.trans()

    # ---- updates
    def finish(self, obs, done, events):
        """A segment ended: compare the updates made with the expected."""
        rec, o = self.rec, self.full
        online = not o.get('disable_online_update', False)
        batch = o.get('batchsize', 1) if self.name == 'PCL' else 1
        k = 0
        if online:
            boot = None
            if obs is not None:
                saved = self.h.get()
                if self.name == 'NSQ':
                    P.set_state(self.avg, self.world['target'])
                    s = self.havg.get()
                    with chainer.no_backprop_mode():
                        boot = self.avg(self.x(obs)).max
                    self.havg.set(s)
                else:
                    P.set_state(self.m, self.local_params)
                    boot = self.forward(self.m, obs)['v']
                self.h.set(saved)
            loss = getattr(self, 'loss_' + self.name)(self.seg, boot)
            self.losses.append(loss)
            if len(self.losses) == batch:
                rec.expect(events and events[0][0] == 'step',
                           lambda: self.what() + ' no update at the end of '
                           'a segment')
                self.step(self.m, sum(self.losses) / batch, events[0],
                          'online')
                self.losses = []
                self.h.cut()
                k = 1
        self.seg = []
        rest = events[k:]
        n = 0
        if self.buffer is not None and not self.losses \
                and self.size >= o['replay_start_size'] \
                and (self.name != 'PCL' or self.n_episodes >= batch):
            n = o['n_times_replay']
        rec.eq([e[0] for e in rest], ['sample', 'step'] * n,
               lambda: self.what() + ' replay updates (buffer size {})'
               .format(getattr(self, 'size', None)))
        for i in range(n):
            self.replay(rest[2 * i], rest[2 * i + 1])

    def step(self, m, loss, event, kind):
        """Compare one optimizer step with the gradient of a (linear) loss
        on reference network m."""
        before, after = event[1], event[2]
        m.cleargrads()
        F.sum(loss).backward()
        w = self.world
        self.rec.expect(G.same(before, w['shared']), lambda: self.what() +
                        ' shared parameters changed between updates')
        for n, p in sorted(m.namedparams()):
            g = 0. if p.grad is None else p.grad
            self.rec.close(
                after[n], before[n] - LR * g,
                lambda: '{} agent {} {} update {}'.format(
                    self.what(), self.agent.process_idx, kind, n),
                rtol=1e-3, atol=3e-4)
        w['shared'] = after
        self.local_params = after
        if self.name == 'ACER':
            alpha = self.full['trust_region_alpha']
            w['avg'] = {n: alpha * w['avg'][n] + (1 - alpha) * after[n]
                        for n in after}
        self.rec.note_add('updates_' + kind)

    def check_networks(self):
        w, rec = self.world, self.rec

        def same(link, state, name, exact=True):
            got = G.link_state(link)
            for n in state:
                rec.close(got[n], state[n], lambda: '{} {} {}'.format(
                    self.what(), name, n), rtol=1e-5, atol=1e-6)
        same(self.shared_link(), w['shared'], 'shared network')
        same(self.local_link(), self.local_params, 'local network')
        if self.name == 'ACER':
            same(self.agent.shared_average_model, w['avg'],
                 'average network')
        if self.name == 'NSQ':
            same(self.agent.target_q_function, w['target'],
                 'target network')

    # ---- policy gradients at the outputs
    def parts(self, d):
        """Parameters of a distribution as differentiable Variables."""
        return [d.logits] if self.discrete else [d.mean, d.var]

    def dlogp(self, d, a):
        if self.discrete:
            p = np.exp(P.softmax(f64(d.logits)[0]))
            return [np.eye(G.A)[int(a)] - p]
        m, v = f64(d.mean)[0], f64(d.var)[0]
        e = np.asarray(a, np.float64) - m
        return [e / v, 0.5 * e * e / v ** 2 - 0.5 / v]

    def logp(self, d, a):
        if self.discrete:
            return P.softmax(f64(d.logits)[0])[int(a)]
        m, v = f64(d.mean)[0], f64(d.var)[0]
        e = np.asarray(a, np.float64) - m
        return (-0.5 * e * e / v - 0.5 * np.log(2 * np.pi * v)).sum()

    def dent(self, d):
        if self.discrete:
            lp = P.softmax(f64(d.logits)[0])
            p = np.exp(lp)
            return [-p * (lp - (p * lp).sum())]
        v = f64(d.var)[0]
        return [np.zeros_like(v), 0.5 / v]

    def linear(self, d, coefs):
        return sum(F.sum(x * c.astype('f')[None])
                   for x, c in zip(self.parts(d), coefs))

    # ---- losses as linear functions of the network outputs
    def loss_A3C(self, seg, boot):
        o = self.full
        R = 0. if boot is None else float(boot.array)
        T = len(seg)
        scale = 1.
        if o.get('keep_loss_scale_same') and T < o['t_max']:
            scale *= o['t_max'] / T
        if o.get('normalize_grad_by_t_max'):
            scale /= T
        pc = o.get('pi_loss_coef', 1.) * scale
        vc = o.get('v_loss_coef', 0.5) * scale
        total = 0
        for s in reversed(seg):
            d, v = s['out']['d'], s['out']['v']
            R = o['gamma'] * R + s['r']
            if o.get('use_average_reward'):
                R -= self.average_reward
            adv = R - float(v.array)
            if o.get('use_average_reward'):
                self.average_reward += o['average_reward_tau'] * adv
            co = [-pc * (adv * g + o.get('beta', 1e-2) * h)
                  for g, h in zip(self.dlogp(d, s['a']), self.dent(d))]
            total += self.linear(d, co) + F.sum(v * (-vc * adv))
        return total

    def loss_NSQ(self, seg, boot):
        R = 0. if boot is None else float(boot.array)
        total = 0
        for s in reversed(seg):
            R = self.full['gamma'] * R + s['r']
            q = s['out']['q'].q_values[:, int(s['a'])]
            total += F.sum(q * float(np.clip(float(q.array) - R, -1, 1)))
        return total

    def loss_ACER(self, seg, boot, mus=None):
        o = self.full
        T = len(seg)
        norm = T if o.get('normalize_loss_by_steps', True) else 1.
        pc = o.get('pi_loss_coef', 1.) / norm
        qc = o.get('Q_loss_coef', 0.5) / norm
        c = o.get('truncation_threshold', 10)
        Qret = Qopc = 0. if boot is None else float(boot.array)
        total = 0
        for i in reversed(range(T)):
            s = seg[i]
            d, av, v = s['out']['d'], s['out']['q'], s['out']['v']
            a = s['a']
            vf = float(v.array)
            rho = 1.
            if mus is not None:
                rho = np.exp(self.logp(d, a) - self.logp(mus[i], a))
            Qret = s['r'] + o['gamma'] * Qret
            Qopc = s['r'] + o['gamma'] * Qopc
            adv = (Qopc if o.get('use_Q_opc') else Qret) - vf
            w = rho if c is None or mus is None else min(c, rho)
            g = [-w * adv * k for k in self.dlogp(d, a)]
            if mus is not None and c is not None:
                g = self.correct(g, d, mus[i], av, vf, c)
            if o.get('use_trust_region', True):
                g = self.trust(g, d, s['avg'], o['trust_region_delta'])
            g = [pc * (x - o.get('beta', 1e-2) * h)
                 for x, h in zip(g, self.dent(d))]
            total += self.linear(d, g)
            Q = av.evaluate_actions(a[None])
            Qf = float(Q.array)
            total += F.sum(Q * (qc * (Qf - Qret)))
            if not self.discrete:
                target = min(1, rho) * (Qret - Qf) + vf
                total += F.sum(v * (qc * (vf - target)))
                cc = min(1, rho ** (1 / 2))
            else:
                cc = min(1, rho)
            if rho != 1.:
                self.rec.note_add('offpolicy_steps')
            Qret = cc * (Qret - Qf) + vf
            Qopc = Qopc - Qf + vf
        return total

    def correct(self, g, d, mu, av, vf, c):
        """Bias correction of the truncated importance weight."""
        if self.discrete:
            p = np.exp(P.softmax(f64(d.logits)[0]))
            m = np.exp(P.softmax(f64(mu.logits)[0]))
            q = f64(av.q_values)[0]
            out = g[0]
            for b in range(G.A):
                w = max(0., 1 - c * m[b] / p[b]) * p[b]
                if w > 0:
                    self.rec.note_add('bias_corrections')
                out = out - w * (q[b] - vf) * (np.eye(G.A)[b] - p)
            return [out]
        b = d.sample().array
        r = np.exp(self.logp(mu, b[0]) - self.logp(d, b[0]))
        w = max(0., 1 - c * r)
        if w > 0:
            self.rec.note_add('bias_corrections')
        q = float(av.evaluate_actions(b).array)
        return [x - w * (q - vf) * k for x, k in zip(g, self.dlogp(d, b[0]))]

    def trust(self, g, d, avg, delta):
        if self.discrete:
            p = np.exp(P.softmax(f64(d.logits)[0]))
            m = np.exp(P.softmax(f64(avg.logits)[0]))
            k = [m - p]
        else:
            m, v = f64(d.mean)[0], f64(d.var)[0]
            am, a_v = f64(avg.mean)[0], f64(avg.var)[0]
            k = [(am - m) / v,
                 -0.5 / v + 0.5 * (a_v + (am - m) ** 2) / v ** 2]
        kg = sum((x * y).sum() for x, y in zip(k, g))
        kk = sum((x * x).sum() for x in k)
        f = max(0., (kg - delta) / kk) if kk > 1e-12 else 0.
        if f > 0:
            self.rec.note_add('trust_region_active')
        return [x - f * y for x, y in zip(g, k)]

    def loss_PCL(self, seg, boot, mus=None):
        """boot: Variable, or None at a terminal state."""
        o = self.full
        T = len(seg)
        g, tau = o['gamma'], o['tau']
        norm = T if o.get('normalize_loss_by_steps', True) else 1.
        pc, vc = o.get('pi_loss_coef', 1.), o.get('v_loss_coef', .5)
        vs = [s['out']['v'] for s in seg] + [boot]
        lps = [self.logp(s['out']['d'], s['a']) for s in seg]
        cl = [[0. * k for k in self.dlogp(s['out']['d'], s['a'])]
              for s in seg]
        cv = [0.] * (T + 1)
        for t in range(T):
            d = min(T - t, o.get('rollout_len', 10))
            last = vs[t + d]
            lastf = 0. if last is None else float(last.array)
            C = (-float(vs[t].array) + g ** d * lastf
                 + sum(g ** i * seg[t + i]['r'] for i in range(d))
                 - tau * sum(g ** i * lps[t + i] for i in range(d)))
            for i in range(d):
                k = self.dlogp(seg[t + i]['out']['d'], seg[t + i]['a'])
                cl[t + i] = [x - pc * C * g ** i * y / norm
                             for x, y in zip(cl[t + i], k)]
            cv[t] -= vc * C / norm
            if o.get('backprop_future_values', True):
                cv[t + d] += vc * C * g ** d / norm
        total = 0
        for t in range(T):
            total += self.linear(seg[t]['out']['d'], cl[t])
            total += F.sum(vs[t] * cv[t])
        if boot is not None:
            total += F.sum(boot * cv[T])
        return total

    # ---- experience replay
    def replay(self, sample, step):
        rec, o = self.rec, self.full
        eps, args, kw = sample[1], sample[2], sample[3]
        weights = None
        if isinstance(eps, tuple):
            eps, weights = eps
        n = args[0] if args else kw.get('n_episodes', kw.get('n'))
        rec.eq(int(n), o.get('batchsize', 1) if self.name == 'PCL' else 1,
               lambda: self.what() + ' number of replayed episodes')
        P.set_state(self.m2, self.local_params)
        total = 0
        for k, ep in enumerate(eps):
            if self.t_max is not None:
                rec.expect(len(ep) <= self.t_max, lambda: self.what() +
                           ' replayed episode too long')
            self.h2.reset()
            P.set_state(self.avg, self.world['avg'])
            saved = self.havg.get()
            self.havg.reset()
            seg = []
            for tr in ep:
                s = dict(out=self.forward(self.m2, tr['state']),
                         a=np.array(tr['action']), r=tr['reward'])
                if self.name == 'ACER':
                    with chainer.no_backprop_mode():
                        s['avg'] = self.forward(self.avg, tr['state'])['d']
                seg.append(s)
            self.havg.set(saved)
            boot = None
            if not ep[-1]['is_state_terminal']:
                boot = self.forward(self.m2, ep[-1]['next_state'])['v']
            loss = getattr(self, 'loss_' + self.name)(
                seg, boot, [tr['mu'] for tr in ep])
            if self.name == 'PCL':
                loss *= (1. if weights is None else
                         float(self.weight_of(ep, eps, weights))) / len(eps)
            total += loss
        self.step(self.m2, total, step, 'replay')

    def weight_of(self, ep, eps, weights):
        # PCL pairs the weights with the episodes it was given
        return weights[[id(e) for e in eps].index(id(ep))]


def f64(v):
    return np.asarray(getattr(v, 'array', v), dtype=np.float64)


# ------------------------------------------------------------------ driving

def player(watch, script, env):
    """The calls of one agent's training; yields after each."""
    k = 1
    obs = G.obs_of(env, 0)
    r = 0
    for i, kind in enumerate(script):
        watch.act_and_train(obs, r)
        yield
        obs = G.obs_of(env, k)
        k += 1
        r = drive.reward_of(env, i)
        done, reset = KIND[kind]
        if done or reset:
            watch.stop_episode_and_train(obs, r, done)
            yield
            obs = G.obs_of(env, k)
            k += 1
            r = 0


def n_calls(script):
    return len(script) + sum(k != CONT for k in script)


def merges(a, b):
    """All interleavings of a calls of agent 0 and b calls of agent 1."""
    for pos in itertools.combinations(range(a + b), a):
        s = [1] * (a + b)
        for p in pos:
            s[p] = 0
        yield s


OPTS = {
    'A3C': [
        dict(t_max=2, gamma=0.9, beta=0.2, pi_loss_coef=0.7, custom=True),
        dict(t_max=3, gamma=0.8, beta=0., v_loss_coef=1.,
             keep_loss_scale_same=True, shared=True),
        dict(t_max=3, gamma=1., beta=0.05, normalize_grad_by_t_max=True,
             discrete=False, use_average_reward=True,
             average_reward_tau=0.3),
        dict(t_max=1, gamma=0.5, keep_loss_scale_same=True,
             normalize_grad_by_t_max=True),
    ],
    'NSQ': [
        dict(t_max=2, gamma=0.9, i_target=3, custom=True),
        dict(t_max=3, gamma=0.7, i_target=2),
        dict(t_max=1, gamma=1., i_target=1),
    ],
    'ACER': [
        dict(t_max=2, gamma=0.9, beta=0.1, buffer='episodic',
             n_times_replay=2, replay_start_size=1, trust_region_alpha=0.7,
             trust_region_delta=0.05, truncation_threshold=1.1),
        dict(t_max=3, gamma=0.8, beta=0., buffer='episodic',
             n_times_replay=1, replay_start_size=2, trust_region_alpha=0.5,
             use_trust_region=False, truncation_threshold=None,
             normalize_loss_by_steps=False, pi_loss_coef=0.6,
             Q_loss_coef=0.9, use_Q_opc=True),
        dict(t_max=2, gamma=0.9, beta=0.1, buffer='episodic',
             n_times_replay=2, replay_start_size=1, trust_region_alpha=0.9,
             trust_region_delta=0.01, truncation_threshold=0.5,
             discrete=False),
        dict(t_max=2, gamma=0.9, buffer=None, n_times_replay=2,
             replay_start_size=0, trust_region_alpha=0.99,
             trust_region_delta=0.5),
        dict(t_max=2, gamma=1., buffer='episodic', n_times_replay=1,
             replay_start_size=1, disable_online_update=True,
             trust_region_alpha=0.2, trust_region_delta=0.,
             truncation_threshold=0.3, discrete=False, use_Q_opc=True),
        dict(t_max=2, gamma=0.9, beta=0.1, buffer='episodic',
             n_times_replay=2, replay_start_size=1, trust_region_alpha=0.8,
             trust_region_delta=0.02, truncation_threshold=1.2,
             discrete=False, shared=True),
        dict(t_max=2, gamma=0.8, beta=0.05, buffer='episodic',
             n_times_replay=1, replay_start_size=1, trust_region_alpha=0.8,
             trust_region_delta=0.02, truncation_threshold=2., shared=True),
    ],
    'PCL': [
        dict(t_max=2, gamma=0.9, tau=0.5, rollout_len=2, buffer='episodic',
             n_times_replay=2, replay_start_size=1, custom=True,
             train_async=True),
        dict(t_max=3, gamma=0.8, tau=0.2, rollout_len=1, buffer=None,
             pi_loss_coef=0.7, v_loss_coef=0.9, train_async=True,
             normalize_loss_by_steps=False, backprop_future_values=False,
             shared=True, n_times_replay=1, replay_start_size=0),
        dict(t_max=None, gamma=0.9, tau=0.3, rollout_len=2,
             buffer='episodic', n_times_replay=1, replay_start_size=2,
             batchsize=2, discrete=True, explore=True),
        dict(t_max=2, gamma=1., tau=0.4, rollout_len=3, buffer='pepisodic',
             n_times_replay=1, replay_start_size=1, train_async=True,
             disable_online_update=True, discrete=False),
        dict(t_max=2, gamma=0.9, tau=0.4, rollout_len=2,
             buffer='pepisodic', n_times_replay=2, replay_start_size=1,
             batchsize=2, train_async=True, disable_online_update=True),
        dict(t_max=1, gamma=0.9, tau=0.4, rollout_len=2,
             buffer='episodic', n_times_replay=1, replay_start_size=1,
             batchsize=2, train_async=True),
    ],
}
NO_PAIR = {('PCL', 2)}      # not asynchronous


def run(rec, name, opts, scripts, order, what):
    np.random.seed(3)
    world = {}
    with G.noise():
        ws = []
        for i in range(len(scripts)):
            ws.append(Watch(rec, name, opts, what, world,
                            world.get('shared_objects'), i))
        ps = [player(w, s, i) for i, (w, s) in enumerate(zip(ws, scripts))]
        if order is None:
            for _ in ps[0]:
                pass
        else:
            for i in order:
                next(ps[i])
    rec.trace()
    rec.state(name, opts, scripts, order)


def singles(deep, rnn):
    return [s for s in drive.scripts((CONT, DONE, RESET), 3 if rnn and
                                     not deep else 6 if deep else 4)] + (
        [] if deep else [(CONT,) * 4 + s for s in drive.scripts(
            (CONT, DONE, BOTH), 2)])


def gen_single(tier):
    deep = tier == 'thorough'
    for name in OPTS:
        for k in range(len(OPTS[name])):
            for r in (None, 'lstm'):
                n = len(singles(deep, r))
                for i in range(0, n, 12):
                    yield [name, k, r, i, deep]


def options(name, k, r):
    return dict(OPTS[name][k], rec=r)


@chk.part('one agent', gen_single, bound='all scripts of continue, terminal, '
          'reset of 4 (3 if recurrent; thorough 6) steps, and 4 continues before 2 steps; 3-5 '
          'settings per agent, with and without recurrent networks')
def single(rec, case):
    name, k, r, i, deep = case
    for s in singles(deep, r)[i:i + 12]:
        def what():
            return '{} {} script {}'.format(name, options(name, k, r), s)
        run(rec, name, options(name, k, r), [s], None, what)


PAIRS = [((CONT, CONT, CONT), (CONT, CONT, DONE)),
         ((CONT, DONE), (CONT, RESET)),
         ((DONE, CONT, RESET), (CONT, CONT, CONT))]


def gen_pair(tier):
    deep = tier == 'thorough'
    for name in OPTS:
        for k in range(len(OPTS[name])):
            if (name, k) in NO_PAIR:
                continue
            for r in (None, 'lstm'):
                for p in range(len(PAIRS)):
                    if not deep and (p + k + bool(r)) % 3:
                        continue
                    for part in range(4):
                        yield [name, k, r, p, part]


@chk.part('two agents', gen_pair, bound='three pairs of scripts of 2-3 '
          'steps, all interleavings of the calls; quick: one pair per '
          'setting')
def pair(rec, case):
    name, k, r, p, part = case
    a, b = PAIRS[p]
    opts = options(name, k, r)
    for i, order in enumerate(merges(n_calls(a), n_calls(b))):
        if i % 4 != part:
            continue

        def what():
            return '{} {} scripts {} order {}'.format(name, opts, (a, b),
                                                      order)
        run(rec, name, opts, [a, b], order, what)


if __name__ == '__main__':
    raise SystemExit(chk.main())
