"""C44: reported statistics describe the training that happened."""
import collections
import copy
import itertools
import random
import warnings

import chainer
import numpy as np

from mc import agents as G
from mc import core
from mc import drive
from mc import onpol as P
from mc.core import Check
from mc.world import KIND, CONT, DONE, RESET

warnings.filterwarnings('ignore')

chk = Check(
    'C44',
    rule='real agents run through every sequence of operations (training '
         'steps ending or not, evaluation steps, saving and loading) up to a '
         'length, alone and with parallel environments; after every operation '
         'the statistics are compared with averages, windows and counters '
         'kept outside: values, entropies and divergences recomputed from '
         'the parameters in force when they were used, losses as they were '
         'minimized, counters from the optimizers\' steps',
    assumptions=['network evaluation is trusted (C41)',
                 'continuous noise is the same row of numbers for every '
                 'draw', 'comparison within single-precision tolerance'])

EVAL, EVALB, SAVE = 'e', 'E', 'v'


class Events(object):
    """What was minimized, and every optimizer step."""

    def __init__(self):
        self.log = []
        self.pending = []

    def __enter__(self):
        self.saved = chainer.Variable.backward
        ev = self

        def backward(var, *args, **kw):
            ev.pending.append(
                float(np.asarray(var.array, dtype=np.float64).reshape(-1)[0])
                if var.array.size == 1 else None)
            return ev.saved(var, *args, **kw)
        chainer.Variable.backward = backward
        return self

    def __exit__(self, *a):
        chainer.Variable.backward = self.saved

    def watch(self, name, opt):
        orig = opt.update

        def update(*args, **kw):
            before = G.link_state(opt.target)
            out = orig(*args, **kw)
            self.log.append((name, before, self.pending))
            self.pending = []
            return out
        opt.update = update

    def take(self):
        out, self.log = self.log, []
        return out


class Ema(object):
    def __init__(self, decay):
        self.d = decay
        self.v = 0.0

    def add(self, x):
        self.v = self.d * self.v + (1 - self.d) * float(x)

    value = property(lambda self: self.v)


class Window(object):
    def __init__(self, n):
        self.q = collections.deque(maxlen=n)

    def add(self, *xs):
        for x in np.concatenate([np.ravel(x) for x in xs]):
            self.q.append(float(x))

    @property
    def value(self):
        return sum(self.q) / len(self.q) if self.q else float('nan')


class Count(object):
    value = 0


class Last(object):
    value = float('nan')


def ctx():
    return chainer.no_backprop_mode()


class Net(object):
    """A private copy of a network, evaluated with given parameters."""

    def __init__(self, link):
        self.link = copy.deepcopy(link)

    def at(self, state):
        P.set_state(self.link, state)
        return self.link


def batch(obss):
    return np.asarray([G.double(o) for o in obss], dtype=np.float32)


# ------------------------------------------------------------ references

class Ref(object):
    """Base: subclasses define keys and what the operations add."""

    kw = {}

    def __init__(self, rec, b, ev, opts):
        self.rec, self.b, self.ev, self.opts = rec, b, ev, opts
        self.stats = collections.OrderedDict()
        self.setup()

    def before(self, how, obss):
        pass

    def acted(self, how, obss, actions):
        """how: 'train', 'btrain', 'eval' or 'beval'."""

    def observed(self, env, obs, action, r, obs2, done, end):
        pass

    def steps(self, log):
        pass


class RefValue(Ref):
    kw = dict(average_q_decay=0.5, average_loss_decay=0.25)

    def setup(self):
        s = self.stats
        s['average_q'] = Ema(0.5)
        s['average_loss'] = Ema(0.25)
        s['n_updates'] = Count()
        self.ev.watch('q', self.b.agent.optimizer)
        self.net = Net(self.b.agent.model)
        self.state = {'train': None, 'eval': None}

    def q(self, how, obss):
        m = self.net.at(G.link_state(self.b.agent.model))
        with ctx(), chainer.using_config('train', False):
            if self.b.rec:
                av, self.state[how] = m(batch(obss), self.state[how])
            else:
                av = m(batch(obss))
            if self.b.name in ('IQN', 'DoubleIQN'):
                k = 2
                taus = np.broadcast_to(
                    (np.arange(k) + 0.5) / k, (len(obss), k))
                av = av(taus.astype(np.float32))
            return np.array(av.max.array)

    def acted(self, how, obss, actions):
        if how != 'beval':
            self.stats['average_q'].add(self.q(
                'eval' if how == 'eval' else 'train', obss).mean())

    def observed(self, env, obs, action, r, obs2, done, end):
        if end and self.b.rec:
            self.state['train'] = self.net.link.mask_recurrent_state_at(
                self.state['train'], [env])

    def eval_end(self):
        self.state['eval'] = None

    def steps(self, log):
        for name, _, losses in log:
            self.rec.expect(len(losses) == 1, 'one loss per update')
            self.stats['average_loss'].add(losses[0])
            self.stats['n_updates'].value += 1


class RefActor(Ref):
    """DDPG and PGT."""
    kw = dict(average_q_decay=0.5, average_loss_decay=0.25)

    def setup(self):
        s, a = self.stats, self.b.agent
        s['average_q'] = Ema(0.5)
        s['average_actor_loss'] = Ema(0.25)
        s['average_critic_loss'] = Ema(0.25)
        self.ev.watch('actor', a.actor_optimizer)
        self.ev.watch('critic', a.critic_optimizer)
        self.net = Net(a.q_function)

    def before(self, how, obss):
        self.st = G.link_state(self.b.agent.q_function)
        self.n = len(self.b.explorer.calls)

    def acted(self, how, obss, actions):
        if how in ('train', 'btrain'):
            calls = self.b.explorer.calls[self.n:]
            if not calls:
                # a random action of the burn-in: nothing was estimated
                self.rec.note_add('burnin')
                return
            actions = [c[1] for c in calls]
            self.rec.eq(len(actions), len(obss), 'explorer calls')
        with ctx(), chainer.using_config('train', False):
            q = self.net.at(self.st)(
                batch(obss), np.asarray(actions, dtype=np.float32))
        self.stats['average_q'].add(q.array.mean())

    def steps(self, log):
        for name, _, losses in log:
            self.rec.expect(len(losses) == 1, 'one loss per update')
            self.stats['average_{}_loss'.format(name)].add(losses[0])


class RefTwin(Ref):
    """TD3 and SAC; every minibatch is the whole (small) memory."""

    def setup(self):
        s, a = self.stats, self.b.agent
        td3 = self.b.name == 'TD3'
        s['average_q1'] = Window(1000)
        s['average_q2'] = Window(1000)
        s['average_q_func1_loss'] = Window(100)
        s['average_q_func2_loss'] = Window(100)
        if td3:
            s['average_policy_loss'] = Window(100)
            s['policy_n_updates'] = Count()
            s['q_func_n_updates'] = Count()
        else:
            s['n_updates'] = Count()
            s['average_entropy'] = Window(1000)
            s['temperature'] = Last()
        self.td3 = td3
        self.ev.watch('p', a.policy_optimizer)
        self.ev.watch('1', a.q_func1_optimizer)
        self.ev.watch('2', a.q_func2_optimizer)
        self.temp = getattr(a, 'temperature_optimizer', None)
        if self.temp is not None:
            self.ev.watch('t', self.temp)
        self.nets = {'1': Net(a.q_func1), '2': Net(a.q_func2),
                     'p': Net(a.policy)}
        self.data = collections.deque(maxlen=self.opts['cap'])
        self.temperature()

    def observed(self, env, obs, action, r, obs2, done, end):
        self.fresh = (obs, action)
        if end:
            self.store()

    def eval_end(self):
        # ending an evaluation abandons the transition under way
        self.fresh = None

    def store(self):
        if getattr(self, 'fresh', None) is not None:
            self.data.append(self.fresh)
            self.fresh = None

    def steps(self, log):
        s = self.stats
        for name, before, losses in log:
            self.rec.expect(len(losses) == 1, 'one loss per update')
            xs = batch([o for o, _ in self.data])
            us = np.asarray([a for _, a in self.data], dtype=np.float32)
            if name in '12':
                with ctx():
                    q = self.nets[name].at(before)(xs, us)
                s['average_q' + name].add(q.array)
                s['average_q_func{}_loss'.format(name)].add(losses[0])
                if self.td3 and name == '1':
                    s['q_func_n_updates'].value += 1
            elif name == 'p' and self.td3:
                s['average_policy_loss'].add(losses[0])
                s['policy_n_updates'].value += 1
            elif name == 'p':
                s['n_updates'].value += 1
                with ctx():
                    d = self.nets['p'].at(before)(xs)
                    if self.opts.get('gauss'):
                        h = d.entropy.array
                    else:
                        h = -d.sample_with_log_prob()[1].array
                s['average_entropy'].add(h)
        self.temperature()

    def temperature(self):
        if not self.td3:
            if self.temp is None:
                want = self.b.agent.initial_temperature
            else:
                want = float(np.exp(
                    [p.array for p in self.temp.target.params()][0]).ravel())
            self.stats['temperature'].value = want


def entropy_value(model, kind, obss):
    with ctx(), chainer.using_config('train', False):
        x = batch(obss)
        if kind == 'acer':
            d, _, v = model(x)
        elif hasattr(model, 'pi_and_v'):
            d, v = model.pi_and_v(x)
        else:
            d, v = model(x)
        return np.array(d.entropy.array), np.array(v.array), d


class RefA3C(Ref):
    kw = dict(average_value_decay=0.5, average_entropy_decay=0.25)

    def setup(self):
        self.stats['average_value'] = Ema(0.5)
        self.stats['average_entropy'] = Ema(0.25)
        self.net = Net(self.b.agent.model)

    def acted(self, how, obss, actions):
        if how == 'train':
            h, v, _ = entropy_value(
                self.net.at(G.link_state(self.b.agent.model)), 'a3c', obss)
            self.stats['average_value'].add(v[0])
            self.stats['average_entropy'].add(h[0])


class RefPCL(RefA3C):
    kw = dict(average_value_decay=0.5, average_entropy_decay=0.25,
              average_loss_decay=0.75)

    def setup(self):
        self.stats['average_loss'] = Ema(0.75)
        RefA3C.setup(self)
        self.ev.watch('m', self.b.agent.optimizer)

    def steps(self, log):
        for _, _, losses in log:
            self.rec.expect(len(losses) == 1, 'one loss per update')
            self.stats['average_loss'].add(losses[0])


class RefACER(Ref):
    kw = dict(average_value_decay=0.5, average_entropy_decay=0.25,
              average_kl_decay=0.75)

    def setup(self):
        self.stats['average_value'] = Ema(0.5)
        self.stats['average_entropy'] = Ema(0.25)
        self.stats['average_kl'] = Ema(0.75)
        a = self.b.agent
        self.ev.watch('m', a.optimizer)
        self.net, self.avg = Net(a.model), Net(a.shared_average_model)
        self.kls = []

    def acted(self, how, obss, actions):
        if how != 'train':
            return
        a = self.b.agent
        h, v, d = entropy_value(
            self.net.at(G.link_state(a.model)), 'acer', obss)
        self.stats['average_value'].add(v[0])
        self.stats['average_entropy'].add(h[0])
        d2 = entropy_value(
            self.avg.at(G.link_state(a.shared_average_model)), 'acer',
            obss)[2]
        p = np.asarray(d.all_prob.array, dtype=np.float64)[0]
        q = np.asarray(d2.all_prob.array, dtype=np.float64)[0]
        self.kls.append(float((q * (np.log(q) - np.log(p))).sum()))

    def steps(self, log):
        for _ in log:
            if self.opts['trust']:
                for kl in reversed(self.new):
                    self.stats['average_kl'].add(kl)
                self.rec.outcome('kl', len(self.new), max(self.new) > 1e-6)
            self.keep = []

    def before(self, how, obss):
        # transitions that an update in this operation can have used
        self.new, self.kls = self.kls, []
        self.keep = self.new

    def unused(self):
        self.kls = self.keep + self.kls
        self.keep = []


class RefNSQ(Ref):
    kw = dict(average_q_decay=0.5)

    def setup(self):
        self.stats['average_q'] = Ema(0.5)
        self.net = Net(self.b.agent.q_function)

    def acted(self, how, obss, actions):
        if how == 'train':
            with ctx():
                av = self.net.at(G.link_state(self.b.agent.q_function))(
                    batch(obss))
            self.stats['average_q'].add(
                av.q_values.array[0][int(actions[0])])


class RefREINFORCE(Ref):
    kw = dict(average_entropy_decay=0.5)

    def setup(self):
        self.stats['average_entropy'] = Ema(0.5)
        self.net = Net(self.b.agent.model)

    def before(self, how, obss):
        self.st = G.link_state(self.b.agent.model)

    def acted(self, how, obss, actions):
        if how == 'train':
            with ctx():
                d = self.net.at(self.st)(batch(obss))
            self.stats['average_entropy'].add(d.entropy.array[0])


class RefA2C(Ref):
    kw = dict(average_actor_loss_decay=0.5, average_value_decay=0.25,
              average_entropy_decay=0.75)

    def setup(self):
        self.stats['average_actor'] = Ema(0.5)
        self.stats['average_value'] = Ema(0.25)
        self.stats['average_entropy'] = Ema(0.75)
        self.ev.watch('m', self.b.agent.optimizer)
        self.net = Net(self.b.agent.model)
        self.n = self.opts['n']
        self.rows = []

    def acted(self, how, obss, actions):
        if how == 'btrain':
            self.rows.append(dict(s=list(obss), a=list(actions), r=[],
                                  m=[], s2=[]))

    def observed(self, env, obs, action, r, obs2, done, end):
        row = self.rows[-1]
        row['r'].append(r)
        row['m'].append(0. if end else 1.)
        row['s2'].append(obs2)

    def steps(self, log):
        if not log:
            return
        self.rec.eq(len(log), 1, 'updates in one operation')
        rows, self.rows = self.rows, []
        m = self.net.at(log[0][1])
        g = self.opts.get('gamma', 0.9)
        v, h, lp = [], [], []
        for row in rows:
            e, val, d = entropy_value(m, 'a2c', row['s'])
            v.append(val.ravel().astype(np.float64))
            h.append(e)
            lp.append(d.log_prob(np.asarray(row['a'])).array)
        nv = entropy_value(m, 'a2c', rows[-1]['s2'])[1].ravel()
        T = len(rows)
        ret = [None] * T
        if self.opts.get('use_gae'):
            tau = self.opts.get('tau', 0.95)
            acc = np.zeros(self.n)
            for i in reversed(range(T)):
                mask = np.asarray(rows[i]['m'])
                nxt = v[i + 1] if i + 1 < T else nv
                delta = np.asarray(rows[i]['r']) + g * nxt * mask - v[i]
                acc = delta + g * tau * mask * acc
                ret[i] = acc + v[i]
        else:
            R = nv
            for i in reversed(range(T)):
                R = (np.asarray(rows[i]['r'])
                     + g * R * np.asarray(rows[i]['m']))
                ret[i] = R
        adv = np.asarray(ret) - np.asarray(v)
        self.stats['average_actor'].add(-(adv * np.asarray(lp)).mean())
        self.stats['average_value'].add(np.asarray(v).mean())
        self.stats['average_entropy'].add(np.asarray(h).mean())


def explained(eps):
    for ep in eps:
        P.gae(ep, 0.9, 0.8)
    tgt = np.asarray([t['target'] for ep in eps for t in ep])
    v = np.asarray([t['v'] for ep in eps for t in ep])
    return 1 - (tgt - v).var() / tgt.var() if len(v) > 1 else float('nan')


class RefPPO(Ref):
    kw = dict(value_stats_window=3, entropy_stats_window=4,
              value_loss_stats_window=3, policy_loss_stats_window=2)

    def setup(self):
        s, a = self.stats, self.b.agent
        s['average_value'] = Window(3)
        s['average_entropy'] = Window(4)
        s['average_value_loss'] = Window(3)
        s['average_policy_loss'] = Window(2)
        s['n_updates'] = Count()
        s['explained_variance'] = Last()
        self.ev.watch('m', a.optimizer)
        self.model = Net(a.model)
        self.state = None
        self.data = P.Data(self.opts['update_interval'],
                           max(self.opts['n'], 1))

    def acted(self, how, obss, actions):
        if how not in ('train', 'btrain'):
            return
        m = self.model.at(G.link_state(self.b.agent.model))
        if self.b.rec:
            with ctx(), chainer.using_config('train', False):
                (d, v), self.state = m(batch(obss), self.state)
                h, v = np.array(d.entropy.array), np.array(v.array)
        else:
            h, v, _ = entropy_value(m, 'ppo', obss)
        self.stats['average_value'].add(v)
        self.stats['average_entropy'].add(h)

    def observed(self, env, obs, action, r, obs2, done, end):
        tr = dict(s=obs, a=action, r=r, s2=obs2, done=done)
        self.new = getattr(self, 'new', []) + [(env, tr, end)]
        if end and self.b.rec:
            if self.opts['n'] == 0:
                self.state = None
            else:
                self.state = self.model.link.mask_recurrent_state_at(
                    self.state, [env])
        if end or self.opts['n']:
            self.flush()

    def flush(self):
        for env, tr, end in getattr(self, 'new', []):
            self.data.add(env, tr, end)
        self.new = []

    def steps(self, log):
        s, o = self.stats, self.opts
        if not log:
            self.rec.expect(self.data.size() < self.data.interval,
                            'no update although due')
            return
        eps = self.data.ready()
        self.rec.expect(eps is not None, 'update although not due')
        flat = [t for ep in eps for t in ep]
        s['n_updates'].value += len(log)
        if self.b.rec:
            return
        m = self.model.at(log[0][1])
        _, v, d = entropy_value(m, 'ppo', [t['s'] for t in flat])
        _, nv, _ = entropy_value(m, 'ppo', [t['s2'] for t in flat])
        acts = np.asarray([t['a'] for t in flat])
        lp0 = d.log_prob(acts).array.astype(np.float64)
        for t, x, y in zip(flat, v.ravel(), nv.ravel()):
            t['v'], t['nv'] = float(x), float(y)
        for ep in eps:
            P.gae(ep, 0.9, 0.8)
        adv = np.asarray([t['adv'] for t in flat])
        tgt = np.asarray([t['target'] for t in flat])
        v0 = np.asarray([t['v'] for t in flat])
        if o.get('standardize_advantages'):
            adv = (adv - adv.mean()) / (adv.std() + 1e-8)
        for _, before, losses in log:
            m = self.model.at(before)
            _, v, d = entropy_value(m, 'ppo', [t['s'] for t in flat])
            v = v.ravel().astype(np.float64)
            ratio = np.exp(d.log_prob(acts).array - lp0)
            c = o['clip_eps']
            pl = -np.minimum(ratio * adv,
                             np.clip(ratio, 1 - c, 1 + c) * adv).mean()
            cv = o.get('clip_eps_vf')
            if cv is None:
                vl = ((v - tgt) ** 2).mean()
            else:
                vl = np.maximum((v - tgt) ** 2, (np.clip(
                    v, v0 - cv, v0 + cv) - tgt) ** 2).mean()
            s['average_value_loss'].add(vl)
            s['average_policy_loss'].add(pl)
            self.rec.close(
                pl + o['value_func_coef'] * vl
                - o['entropy_coef'] * d.entropy.array.mean(), losses[0],
                lambda: 'minimized loss and its documented parts',
                rtol=2e-3, atol=1e-4)
        s['explained_variance'].value = explained(eps)


class RefTRPO(RefPPO):
    kw = dict(value_stats_window=3, entropy_stats_window=4,
              kl_stats_window=2, policy_step_size_stats_window=3)

    def setup(self):
        s, a = self.stats, self.b.agent
        s['average_value'] = Window(3)
        s['average_entropy'] = Window(4)
        s['average_kl'] = Window(2)
        s['average_policy_step_size'] = Window(3)
        s['explained_variance'] = Last()
        self.ev.watch('vf', a.vf_optimizer)
        self.model = Net(a.model)
        self.pol, self.vf = Net(a.policy), Net(a.vf)
        self.state = None
        self.data = P.Data(self.opts['update_interval'],
                           max(self.opts['n'], 1))

    def before(self, how, obss):
        self.p0 = G.link_state(self.b.agent.policy)
        self.v0 = G.link_state(self.b.agent.vf)

    def dist(self, state, xs):
        with ctx(), chainer.using_config('train', False):
            d = self.pol.at(state)(xs)
        return np.asarray(d.all_prob.array, dtype=np.float64)

    def steps(self, log):
        if not log:
            return
        eps = self.data.ready()
        self.rec.expect(eps is not None, 'update although not due')
        p1 = G.link_state(self.b.agent.policy)
        moved = any((self.p0[k] != p1[k]).any() for k in p1)
        s = self.stats
        if self.b.rec:
            return
        flat = [t for ep in eps for t in ep]
        vf = self.vf.at(self.v0)
        with ctx():
            for t in flat:
                t['v'] = float(vf(batch([t['s']])).array.ravel()[0])
                t['nv'] = float(vf(batch([t['s2']])).array.ravel()[0])
        s['explained_variance'].value = explained(eps)
        if not moved:
            self.rec.note_add('not_moved')
            s['average_policy_step_size'].add([0.])
            return
        xs = batch([t['s'] for ep in eps for t in ep])
        p, q = self.dist(self.p0, xs), self.dist(p1, xs)
        kl = (p * (np.log(p) - np.log(q))).sum(axis=1).mean()
        s['average_kl'].add([kl])
        # the divergence of a step is about its squared size
        k = int(round(-np.log2(max(kl, 1e-12) / self.opts['max_kl']) / 2))
        self.rec.outcome('halvings', k)
        s['average_policy_step_size'].add([0.5 ** k])


REFS = {'DDPG': RefActor, 'PGT': RefActor, 'TD3': RefTwin, 'SAC': RefTwin,
        'PPO': RefPPO, 'TRPO': RefTRPO, 'A2C': RefA2C, 'A3C': RefA3C,
        'ACER': RefACER, 'PCL': RefPCL, 'NSQ': RefNSQ,
        'REINFORCE': RefREINFORCE}


# recomputed for networks without state only
FLAT_ONLY = {'average_value_loss', 'average_policy_loss', 'average_kl',
             'average_policy_step_size', 'explained_variance'}


# ---------------------------------------------------------------- playing

class World(object):
    """Drives the agent and the reference through one operation each."""

    def __init__(self, rec, b, ref, n, what, loose=()):
        self.rec, self.b, self.a, self.ref, self.n = rec, b, b.agent, ref, n
        self.what = what
        self.loose = loose
        m = max(n, 1)
        ref.batched = n > 0
        self.k = [0] * m
        self.i = 0
        self.r = 0.
        self.obs = [self.next_obs(e) for e in range(m)]
        self.eval_k = 0
        self.history = []
        self.compare()

    def next_obs(self, e):
        self.k[e] += 1
        return G.obs_of(e, self.k[e])

    def compare(self):
        got = self.a.get_statistics()
        want = [(k, s.value) for k, s in self.ref.stats.items()]
        self.rec.eq([k for k, _ in got], [k for k, _ in want],
                    lambda: '{} names of the statistics'.format(self.what()))
        for (k, x), (_, y) in zip(got, want):
            if self.b.rec and k in FLAT_ONLY:
                continue
            self.rec.close(
                x, y, lambda: '{} after {}: {}'.format(
                    self.what(), self.history, k),
                rtol=2e-3 if k in self.loose else 5e-4, atol=2e-5)
        again = self.a.get_statistics()
        self.rec.expect(core.same(list(map(tuple, again)),
                                  list(map(tuple, got))),
                        lambda: '{} asking changed the statistics'.format(
                            self.what()))

    def finish(self, op):
        log = self.ref.ev.take()
        if hasattr(self.ref, 'unused') and not log:
            self.ref.unused()
        self.ref.steps(log)
        self.history.append(op)
        self.compare()
        self.rec.trans()

    def train(self, kind):
        done, reset = KIND[kind]
        a, ref = self.a, self.ref
        obs = self.obs[0]
        if hasattr(ref, 'store'):
            ref.store()
        if hasattr(ref, 'flush'):
            ref.flush()
        ref.before('train', [obs])
        act = a.act_and_train(obs, self.r)
        log = ref.ev.take()
        if hasattr(ref, 'unused') and not log:
            ref.unused()
        ref.steps(log)
        ref.acted('train', [obs], [act])
        self.compare()
        obs2 = self.next_obs(0)
        self.r = drive.reward_of(0, self.i)
        self.i += 1
        ref.observed(0, obs, act, self.r, obs2, done, done or reset)
        self.obs[0] = obs2
        if done or reset:
            ref.before('end', [])
            a.stop_episode_and_train(obs2, self.r, done)
            self.obs[0] = self.next_obs(0)
            self.r = 0.
        self.finish(kind)

    def btrain(self, kinds):
        a, ref = self.a, self.ref
        obss = list(self.obs)
        ref.before('btrain', obss)
        acts = list(a.batch_act_and_train(list(obss)))
        ref.acted('btrain', obss, acts)
        self.rec.expect(not ref.ev.log, 'update while acting')
        self.compare()
        obss2, rs, dones, resets = [], [], [], []
        for e in range(self.n):
            d, s = KIND[kinds[e]]
            obss2.append(self.next_obs(e))
            rs.append(drive.reward_of(e, self.i))
            dones.append(d)
            resets.append(s)
        self.i += 1
        for e in range(self.n):
            ref.observed(e, obss[e], acts[e], rs[e], obss2[e], dones[e],
                         dones[e] or resets[e])
        a.batch_observe_and_train(list(obss2), list(rs), list(dones),
                                  list(resets))
        for e in range(self.n):
            self.obs[e] = (self.next_obs(e) if dones[e] or resets[e]
                           else obss2[e])
        self.finish(tuple(kinds))

    def evaluate(self, batch_):
        a, ref = self.a, self.ref
        m = self.n if batch_ else 1
        for _ in range(2):
            obss = [G.obs_of(9, self.eval_k + j) for j in range(m)]
            self.eval_k += m
            ref.before('eval', obss)
            if batch_:
                acts = list(a.batch_act(list(obss)))
                ref.acted('beval', obss, acts)
                a.batch_observe(obss, [0.] * m, [False] * m, [False] * m)
            else:
                acts = [a.act(obss[0])]
                ref.acted('eval', obss, acts)
            if hasattr(ref, 'unused'):
                ref.unused()
        if not batch_:
            a.stop_episode()
        else:
            a.batch_observe(obss, [0.] * m, [True] * m, [False] * m)
        if hasattr(ref, 'eval_end'):
            ref.eval_end()
        self.finish(EVALB if batch_ else EVAL)

    def save(self):
        with core.Tmp('s') as d:
            self.a.save(d)
            self.compare()
            self.a.load(d)
        if hasattr(self.ref, 'before'):
            self.ref.before('save', [])
        if hasattr(self.ref, 'unused'):
            self.ref.unused()
        self.finish(SAVE)

    def do(self, op):
        if op == SAVE:
            self.save()
        elif op in (EVAL, EVALB):
            self.evaluate(op == EVALB)
        elif self.n:
            self.btrain(op)
        else:
            self.train(op)


def make(rec, name, opts, ev):
    """-> Box, reference."""
    opts = dict(opts)
    n = opts.setdefault('n', 0)
    cls = REFS.get(name, RefValue)
    kw = dict(cls.kw)
    lr = opts.pop('lr', 0.3)
    kw['opt'] = lambda link: G.sgd(link, lr)
    rnn = opts.pop('rnn', None)
    for k, v in opts.items():
        if k not in ('n', 'cap', 'gauss', 'trust'):
            kw[k] = v
    if name in ('TD3', 'SAC'):
        kw.update(cap=opts['cap'], minibatch_size=opts['cap'],
                  replay_start_size=opts['cap'])
    if name == 'A2C':
        kw['num_processes'] = n
    if name == 'ACER':
        kw.update(use_trust_region=opts['trust'], n_times_replay=0,
                  disable_online_update=False)
    if name == 'SAC' and opts.get('gauss'):
        keep = G._squashed_head
        G._squashed_head = G._gauss_head
        try:
            b = G.build(name, rec=rnn, **kw)
        finally:
            G._squashed_head = keep
    else:
        b = G.build(name, rec=rnn, **kw)
    return b, cls(rec, b, ev, opts)


def play(rec, name, opts, ops):
    def what():
        return '{} {}'.format(name, opts)
    np.random.seed(3)
    random.seed(3)
    with G.noise(), Events() as ev:
        b, ref = make(rec, name, opts, ev)
        w = World(rec, b, ref, ref.opts['n'], what,
                  loose=('average_kl', 'explained_variance',
                         'average_policy_loss', 'average_actor'))
        for op in ops:
            w.do(op)
    rec.trace()
    rec.state(name, opts, ops)
    rec.outcome(name, [(k, None if np.isnan(s.value) else round(s.value, 3))
                       for k, s in ref.stats.items()])


# ---------------------------------------------------------------- cases

TWO = [(CONT, CONT), (DONE, CONT), (CONT, RESET), (DONE, DONE)]

CONFIGS = (
    [(n, dict()) for n in G.VALUE]
    + [(n, dict(n=2)) for n in G.VALUE]
    + [('DQN', dict(n_times_update=2, update_interval=2)),
       ('DQN', dict(buf='per')), ('DoubleDQN', dict(buf='per', n=2)),
       ('DQN', dict(rnn='gru')), ('IQN', dict(rnn='lstm')),
       ('DDPG', dict()), ('DDPG', dict(n=2)),
       ('DDPG', dict(n_times_update=2)), ('PGT', dict()),
       ('DDPG', dict(burnin_action_func='b', replay_start_size=3)),
       ('DDPG', dict(burnin_action_func='b', replay_start_size=3, n=2)),
       ('A2C', dict(n=2)), ('A2C', dict(n=1, use_gae=True, tau=0.5)),
       ('A2C', dict(n=2, use_gae=True, tau=0.7, update_steps=2,
                    v_loss_coef=0.3, pi_loss_coef=0.6, entropy_coeff=0.2)),
       ('A3C', dict()), ('A3C', dict(t_max=3, use_average_reward=True)),
       ('ACER', dict(trust=True)), ('ACER', dict(trust=False, t_max=3)),
       ('PCL', dict()), ('PCL', dict(batchsize=2)), ('NSQ', dict()),
       ('REINFORCE', dict()), ('REINFORCE', dict(batchsize=1)),
       ('REINFORCE', dict(backward_separately=True)),
       ('PPO', dict(update_interval=3, minibatch_size=3, epochs=2,
                    clip_eps=0.05, entropy_coef=0.3, value_func_coef=0.7)),
       ('PPO', dict(update_interval=2, minibatch_size=2, epochs=3,
                    clip_eps=0.02, clip_eps_vf=0.05, entropy_coef=0.1,
                    value_func_coef=1.5, standardize_advantages=True)),
       ('PPO', dict(update_interval=4, minibatch_size=4, epochs=2, n=2,
                    clip_eps=0.02, clip_eps_vf=0.05, entropy_coef=0.1,
                    value_func_coef=1.5)),
       ('TRPO', dict(update_interval=3, max_kl=1e-3)),
       ('TRPO', dict(update_interval=2, max_kl=1e-3,
                     line_search_max_backtrack=0)),
       ('TRPO', dict(update_interval=4, max_kl=1e-3, n=2)),
       ('TRPO', dict(update_interval=2, max_kl=1e-3,
                     line_search_max_backtrack=1)),
       ('TRPO', dict(update_interval=2, max_kl=3e-4,
                     line_search_max_backtrack=2)),
       ('DQN', dict(rnn='lstm', n=2)),
       ('PPO', dict(rnn='gru', update_interval=3)),
       ('PPO', dict(rnn='lstm', update_interval=4, n=2)),
       ('TRPO', dict(rnn='gru', update_interval=3))])


def alphabet(name, opts):
    if opts.get('n'):
        ops = list(TWO) if opts['n'] == 2 else [(CONT,), (DONE,), (RESET,)]
        if name == 'A2C':
            ops = [k for k in ops if RESET not in k]
        return ops + [EVALB, SAVE] + (
            [EVAL] if name != 'A2C' and not opts.get('rnn') else [])
    if name == 'REINFORCE':
        return [CONT, DONE, EVAL, SAVE]
    return [CONT, DONE, RESET, EVAL, SAVE]


def sequences(name, opts, deep):
    """All sequences of a length with a few leading training steps, so that
    updates happen in the varied part."""
    L = 5 if deep else 4
    ops = alphabet(name, opts)
    cont = ops[0]
    for seq in itertools.product(ops, repeat=L):
        if sum(o in (EVAL, EVALB) for o in seq) > 2 or \
                sum(o == SAVE for o in seq) > 1:
            continue
        yield (cont,) + seq + (cont, ops[1])


def heavy(name):
    return name in ('TRPO', 'PPO', 'PCL', 'ACER')


def gen(tier):
    deep = tier == 'thorough'
    for k, (name, opts) in enumerate(CONFIGS):
        for i in range(8):
            yield [k, i, deep]


@chk.part('histories', gen, timeout=300,
          bound='64 configurations: all value-based agents, alone and with 2 '
          'environments, and 36 further agents and settings; all sequences '
          'of 4 (thorough 5) operations between fixed first and last steps, '
          'with at most 2 evaluations and 1 save (quick: every 11th or 23rd '
          'of them, from a different start for every configuration)')
def history_case(rec, case):
    k, i, deep = case
    name, opts = CONFIGS[k]
    opts = dict(opts)
    if opts.get('burnin_action_func'):
        opts['burnin_action_func'] = \
            lambda: np.asarray([0.125], dtype=np.float32)
    seqs = list(sequences(name, opts, deep))
    step = 1 if deep else 23 if k < 2 * len(G.VALUE) else 11
    for seq in seqs[k % step::step][i::8]:
        play(rec, name, opts, seq)


# ------------------------------------------------- TD3, SAC: long windows

def twin_gen(tier):
    deep = tier == 'thorough'
    for name in ('TD3', 'SAC'):
        for opts in ([dict(cap=3), dict(cap=3, n_times_update=1)]
                     if name == 'TD3' else
                     [dict(cap=3), dict(cap=3, gauss=True),
                      dict(cap=3, entropy_target=-1.)]):
            for ops in itertools.product(
                    [CONT, DONE, EVAL, SAVE], repeat=4 if deep else 3):
                yield [name, opts, list(ops), 0]
    for name, opts in [('TD3', dict(cap=8)), ('SAC', dict(cap=8)),
                       ('SAC', dict(cap=8, gauss=True))]:
        yield [name, opts, [CONT], 132]


@chk.part('actor-critics with windows', twin_gen, timeout=300,
          bound='TD3 and SAC (squashed or plain Gaussian, fixed or learned '
          'temperature), all sequences of 3 (thorough 4) operations after '
          'the memory is filled; and 134 updates with batches of 8, so that '
          'the windows of 1000 values and 100 losses overflow')
def twin_case(rec, case):
    name, opts, ops, more = case
    seq = [CONT] * (opts['cap'] + 1) + list(ops) + [CONT] * more + [CONT]
    play(rec, name, opts, seq)


if __name__ == '__main__':
    raise SystemExit(chk.main())
