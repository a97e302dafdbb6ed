"""C19: PPO and TRPO learn from exactly the collected data."""
import copy
import itertools
import logging
import random
import warnings

import chainer
import chainer.functions as F
import numpy as np

from mc import agents as G
from mc import drive
from mc import onpol as P
from mc.core import Check
from mc.world import KIND, CONT, DONE, RESET, BOTH

warnings.filterwarnings('ignore')

chk = Check(
    'C19',
    rule='real PPO and TRPO agents, recurrent or not, are driven through '
         'every script of step kinds (continue, terminal, reset, both) in 1 '
         'or 2-3 parallel environments up to a length, for every listed '
         'setting; every action, every update (when, on which minibatches, '
         'from which recurrent states) and every parameter change is '
         'compared with a reference that recomputes values, advantages, '
         'targets and loss gradients for each transition separately',
    assumptions=['network evaluation and backpropagation on a single '
                 'sequence are trusted (C26 and Chainer)',
                 'shuffles are replaced by enumerated permutations',
                 'comparison within single-precision tolerance'])

PPO_OPTS = [
    dict(update_interval=3, minibatch_size=2, epochs=2, clip_eps=0.05,
         entropy_coef=0.3, value_func_coef=0.7),
    dict(update_interval=4, minibatch_size=2, epochs=2, clip_eps=0.2,
         clip_eps_vf=0.05, entropy_coef=0., norm=True),
    dict(update_interval=4, minibatch_size=3, epochs=3, clip_eps=0.02,
         clip_eps_vf=0.3, standardize_advantages=True, gamma=1., lambd=0.5,
         custom=True),
    dict(update_interval=2, minibatch_size=1, epochs=1, lambd=0., gamma=0.5),
    dict(update_interval=1, minibatch_size=1, epochs=2, clip_eps=0.1,
         lambd=1., norm=True, custom=True),
    dict(update_interval=1, minibatch_size=1, epochs=1,
         standardize_advantages=True),
]
PPO_REC = [
    dict(max_recurrent_sequence_len=None, kind='gru'),
    dict(max_recurrent_sequence_len=1, kind='lstm'),
    dict(max_recurrent_sequence_len=2, kind='gru'),
]
LR = 0.4


class Ref(object):
    """What the environment side knows plus a copy of the networks."""

    def __init__(self, opts, n_envs, agent, interval):
        self.data = P.Data(interval, n_envs)
        self.norm = P.Norm() if opts.get('norm') else None
        self.custom = opts.get('custom')
        self.states = [None] * n_envs       # recurrent state now
        self.prev = [None] * n_envs         # before the last action
        self.last = [None] * n_envs

    def raw_input(self, obs):
        x = G.double(obs)
        return (x * np.float32(0.5) + np.float32(0.1)) if self.custom else x

    def input(self, obs):
        x = self.raw_input(obs)
        return self.norm(x) if self.norm else np.asarray(x, dtype=np.float32)


def make(name, opts, spy, seed):
    """-> agent, {role: net}, recurrent kind or None"""
    from chainerrl import agents
    from chainerrl.links import EmpiricalNormalization
    o = dict(opts)
    kind = o.pop('kind', None)
    norm, custom = o.pop('norm', False), o.pop('custom', False)
    o.setdefault('gamma', 0.9)
    o.setdefault('lambd', 0.8)
    o.setdefault('standardize_advantages', False)
    if norm:
        o['obs_normalizer'] = EmpiricalNormalization(G.D)
    if custom:
        o['batch_states'] = P.skewed
    if kind:
        o['recurrent'] = True
    o['phi'] = G.double
    if name == 'PPO':
        m = P.rec_ac(spy, kind) if kind else P.flat_ac(spy)
        G.fill(m, seed, 0.9)
        agent = agents.PPO(m, P.spying_sgd(m, spy, LR), **o)
        return agent, dict(ac=m), kind
    if kind:
        pol = P.spy_rec(spy, 'pol', kind, G.A, G._softmax_head)
        vf = P.spy_rec(spy, 'vf', kind, 1, None)
    else:
        pol = P.spy_flat(spy, 'pol', G.A, G._softmax_head)
        vf = P.spy_flat(spy, 'vf', 1, None)
    G.fill(pol, seed, 0.9), G.fill(vf, seed + 1, 0.9)
    agent = agents.TRPO(pol, vf, P.spying_sgd(vf, spy, LR),
                        logger=logging.getLogger('mc.quiet'), **o)
    return agent, dict(pol=pol, vf=vf), kind


class Nets(object):
    """Evaluation of (a copy of) the networks on single inputs or
    sequences."""

    def __init__(self, name, nets, kind):
        from chainerrl import links
        self.name, self.kind = name, kind
        self.real = nets
        self.copy = {}
        spy = P.Spy()
        if name == 'PPO':
            self.copy['ac'] = P.rec_ac(spy, kind) if kind else P.flat_ac(spy)
        elif kind:
            self.copy['pol'] = P.spy_rec(spy, 'p', kind, G.A, G._softmax_head)
            self.copy['vf'] = P.spy_rec(spy, 'v', kind, 1, None)
        else:
            self.copy['pol'] = P.spy_flat(spy, 'p', G.A, None)
            self.copy['vf'] = P.spy_flat(spy, 'v', 1, None)
        if kind:
            self.both = self.copy['ac'] if name == 'PPO' else \
                links.StatelessRecurrentBranched(self.copy['pol'],
                                                 self.copy['vf'])
        self.sync()

    def sync(self, state=None):
        for k, l in self.real.items():
            P.set_state(self.copy[k], (state or {}).get(k) or
                        G.link_state(l))

    def flat(self, x):
        """-> logits, v Variables for one input"""
        if self.name == 'PPO':
            return self.copy['ac'].raw(x[None])
        return self.copy['pol'].raw(x[None]), self.copy['vf'].raw(x[None])

    def seq(self, xs, state):
        """-> logits (T, A), v (T, 1), new state for one sequence"""
        (d, v), rs = self.both.n_step_forward(
            [np.asarray(xs, dtype=np.float32)], recurrent_state=state,
            output_mode='concat')
        return d.logits, v, rs


class Watch(object):
    """Wraps the real agent for the drivers and judges every call."""

    def __init__(self, rec, name, opts, n_envs, seed, what):
        self.rec, self.name, self.opts, self.what = rec, name, opts, what
        self.spy = P.Spy()
        self.agent, nets, self.kind = make(name, opts, self.spy, seed)
        self.nets = Nets(name, nets, self.kind)
        self.ref = Ref(opts, n_envs, self.agent, opts['update_interval'])
        self.updates = 0

    # ---- driver interface
    def act_and_train(self, obs, reward):
        if self.ref.last[0] is not None:
            self.transition(0, reward, obs, False, False)
        self.guard()
        a = self.agent.act_and_train(obs, reward)
        self.check_update()
        self.acted(0, obs, a)
        return a

    def stop_episode_and_train(self, obs, reward, done):
        self.transition(0, reward, obs, done, True)
        self.ref.states[0] = None
        self.guard()
        self.agent.stop_episode_and_train(obs, reward, done)
        self.check_update()

    def batch_act_and_train(self, obss):
        self.guard()
        acts = self.agent.batch_act_and_train(obss)
        self.rec.eq(self.spy.take(), [], lambda: self.what() +
                    ' learning while acting')
        for i, (o, a) in enumerate(zip(obss, acts)):
            self.acted(i, o, a)
        return acts

    def batch_observe_and_train(self, obss, rs, dones, resets):
        for i, (o, r, d, s) in enumerate(zip(obss, rs, dones, resets)):
            self.transition(i, r, o, d, d or s)
            if d or s:
                self.ref.states[i] = None
        self.guard()
        self.agent.batch_observe_and_train(obss, rs, dones, resets)
        self.check_update()

    # ---- reference
    def guard(self):
        self.before = {k: G.link_state(l) for k, l in self.nets.real.items()}

    def acted(self, i, obs, action):
        ref = self.ref
        x = ref.input(obs)
        self.nets.sync()
        with chainer.no_backprop_mode():
            if self.kind:
                logits, _, rs = self.nets.seq([x], ref.states[i])
                ref.prev[i], ref.states[i] = ref.states[i], rs
            else:
                logits, _ = self.nets.flat(x)
        d = G._softmax_head(logits)
        want = int(d.sample().array[0])
        ref.last[i] = (obs, int(action))
        self.rec.eq(int(action), want, lambda: self.what() + ' action')

    def transition(self, i, r, obs2, done, end):
        ref = self.ref
        obs, a = ref.last[i]
        ref.last[i] = None
        ref.data.add(i, dict(obs=obs, a=a, r=r, obs2=obs2, done=done,
                             rs=ref.prev[i], rs2=ref.states[i]), end)

    def check_update(self):
        events = self.spy.take()
        eps = self.ref.data.ready()
        rec, what = self.rec, self.what
        if eps is None:
            rec.eq(events, [], lambda: what() + ' update without enough data')
            for k, l in self.nets.real.items():
                rec.expect(G.same(G.link_state(l), self.before[k]),
                           lambda: what() + ' parameters changed')
            return
        rec.expect(events, lambda: what() + ' no update with enough data')
        self.updates += 1
        rec.trans(sum(map(len, eps)))
        self.nets.sync(self.before)
        ref = self.ref
        for ep in eps:
            self.predict(ep)
            P.gae(ep, self.agent.gamma, self.agent.lambd)
        data = list(itertools.chain.from_iterable(eps))
        if ref.norm:
            ref.norm.xs.extend(ref.raw_input(t['obs']) for t in data)
        advs = np.array([t['adv'] for t in data], dtype=np.float64)
        for t in data:
            t['x'] = ref.input(t['obs'])
            t['A'] = t['adv']
            if self.opts.get('standardize_advantages'):
                t['A'] = (t['adv'] - advs.mean()) / (advs.std() + 1e-8)
        if self.name == 'PPO':
            self.check_steps(events, eps, data, 'ac', 'minibatch_size',
                             'epochs', self.ppo_grad)
        else:
            vf = [e for e in events if e[0] == 'step' or e[1] == 'vf']
            self.check_steps(vf, eps, data, 'vf', 'vf_batch_size',
                             'vf_epochs', self.vf_grad)
            pol = [e for e in events if e[0] == 'forward' and e[1] == 'pol']
            rec.expect(pol, lambda: what() + ' policy not evaluated')
            pool = [t['x'] for t in data]
            seqs = [[data[P.identify(rec, r, pool, what)] for r in q]
                    for q in (pol[0][2] if self.kind else [pol[0][2]])]
            self.check_sequences(seqs, eps)
            rec.eq(sorted(id(t) for q in seqs for t in q),
                   sorted(map(id, data)), lambda: what() + ' policy data')
            self.check_policy_step(data, seqs if self.kind
                                   else [[t] for t in data])

    def predict(self, ep):
        """Values and log-probabilities before the update."""
        ref = self.ref
        xs = [ref.input(t['obs']) for t in ep]
        xs2 = [ref.input(t['obs2']) for t in ep]
        with chainer.no_backprop_mode():
            if self.kind:
                l, v, _ = self.nets.seq(xs, ep[0]['rs'])
                _, nv, _ = self.nets.seq(xs2, ep[0]['rs2'])
                l, v, nv = l.array, v.array, nv.array
            else:
                l = np.concatenate([self.nets.flat(x)[0].array for x in xs])
                v = np.concatenate([self.nets.flat(x)[1].array for x in xs])
                nv = np.concatenate([self.nets.flat(x)[1].array
                                     for x in xs2])
        for i, t in enumerate(ep):
            t['lp'] = P.softmax(l[i])[t['a']]
            t['v'], t['nv'] = float(v[i, 0]), float(nv[i, 0])

    # ---- minibatch steps
    def check_steps(self, events, eps, data, who, size_key, epochs_key,
                    grad):
        rec, what = self.rec, self.what
        size, epochs = self.opts[size_key], self.opts[epochs_key]
        pool = [t['x'] for t in data]
        N = len(data)
        used = []
        sizes = []
        fwd = None
        for ev in events:
            if ev[0] == 'forward':
                rec.eq(ev[1], who, lambda: what() + ' network')
                fwd = ev[2]
                continue
            rec.expect(fwd is not None, lambda: what() +
                       ' update without evaluating the network')
            rows = fwd if self.kind else [fwd]
            seqs = [[data[P.identify(rec, r, pool, what)] for r in s]
                    for s in rows]
            self.check_sequences(seqs, eps)
            idx = [id(t) for s in seqs for t in s]
            used.extend(idx)
            sizes.append(len(idx))
            before, after = ev[1], ev[2]
            self.nets.sync({who: before})
            net = self.nets.copy[who]
            net.cleargrads()
            grad(seqs, len(idx))
            for n, p in sorted(net.namedparams()):
                g = 0. if p.grad is None else p.grad
                rec.close(after[n], p.array - LR * g,
                          lambda: '{} update {} {} minibatch {}'.format(
                              what(), self.updates, n, len(sizes)),
                          rtol=1e-3, atol=2e-4)
            fwd = None
        # every transition exactly once per epoch
        ids = sorted(id(t) for t in data)
        if self.kind:
            per = -(-N // size)
            rec.eq(sizes, ([size] * (N // size) +
                           ([N % size] if N % size else [])) * epochs,
                   lambda: what() + ' minibatch sizes')
            del per
        else:
            rec.eq(sizes, [size] * -(-epochs * N // size),
                   lambda: what() + ' minibatch sizes')
        for e in range(epochs):
            rec.eq(sorted(used[e * N:(e + 1) * N]), ids,
                   lambda: '{} data of epoch {}'.format(what(), e))
        last = used[epochs * N:]
        rec.eq(len(set(last)), len(last), lambda: what() + ' wrapped data')

    def check_sequences(self, seqs, eps):
        if not self.kind:
            return
        where = {}
        for e, ep in enumerate(eps):
            for j, t in enumerate(ep):
                where[id(t)] = (e, j)
        limit = self.opts.get('max_recurrent_sequence_len')
        for s in seqs:
            pos = [where[id(t)] for t in s]
            self.rec.expect(
                all(q == (p[0], p[1] + 1) for p, q in zip(pos, pos[1:])),
                lambda: '{} sequence {} is not consecutive in an '
                'episode'.format(self.what(), pos))
            if limit:
                self.rec.expect(len(s) <= limit, lambda: self.what() +
                                ' sequence too long')

    def outputs(self, seq):
        if self.kind:
            l, v, _ = self.nets.seq([t['x'] for t in seq], seq[0]['rs'])
            return l, v
        ls, vs = zip(*[self.nets.flat(t['x']) for t in seq])
        return F.concat(ls, axis=0), F.concat(vs, axis=0)

    def ppo_grad(self, seqs, B):
        o = self.opts
        eps = o.get('clip_eps', 0.2)
        eps_vf = o.get('clip_eps_vf')
        ec, vc = o.get('entropy_coef', 0.01), o.get('value_func_coef', 1.0)
        total = 0
        for seq in seqs:
            l, v = self.outputs(seq)
            lp = P.softmax(l.array)
            p = np.exp(lp)
            cl = np.zeros_like(p)
            cv = np.zeros((len(seq), 1))
            for i, t in enumerate(seq):
                ratio = np.exp(lp[i, t['a']] - t['lp'])
                clipped = np.clip(ratio, 1 - eps, 1 + eps)
                if ratio * t['A'] <= clipped * t['A'] + 1e-12:
                    onehot = np.eye(G.A)[t['a']]
                    cl[i] -= t['A'] * ratio * (onehot - p[i]) / B
                    self.rec.outcome('inside', ratio == clipped)
                else:
                    self.rec.note_add('policy_clipped')
                H = -(p[i] * lp[i]).sum()
                cl[i] += ec * p[i] * (lp[i] + H) / B
                vi = float(v.array[i, 0])
                if eps_vf is None:
                    cv[i] = vc * 2 * (vi - t['target']) / B
                else:
                    c = np.clip(vi, t['v'] - eps_vf, t['v'] + eps_vf)
                    a, b = (vi - t['target']) ** 2, (c - t['target']) ** 2
                    if a >= b - 1e-12:
                        cv[i] = vc * 2 * (vi - t['target']) / B
                    else:
                        self.rec.note_add('value_clipped')
            total += F.sum(l * cl.astype('f')) + F.sum(v * cv.astype('f'))
        total.backward()

    def vf_grad(self, seqs, B):
        total = 0
        for seq in seqs:
            _, v = self.outputs(seq)
            c = [[2 * (float(v.array[i, 0]) - t['target']) / B]
                 for i, t in enumerate(seq)]
            total += F.sum(v * np.asarray(c, dtype='f'))
        total.backward()

    # ---- TRPO policy
    def check_policy_step(self, data, seqs):
        rec, what, o = self.rec, self.what, self.opts
        pol = self.nets.copy['pol']
        names = sorted(n for n, _ in pol.namedparams())
        params = dict(pol.namedparams())

        def flat(state):
            return np.concatenate([np.asarray(state[n], np.float64).ravel()
                                   for n in names])

        def load(vec):
            i = 0
            for n in names:
                p = params[n]
                p.array[...] = vec[i:i + p.size].reshape(p.shape)
                i += p.size
        old = flat(self.before['pol'])
        new = flat(G.link_state(self.nets.real['pol']))
        self.nets.sync({'pol': self.before['pol'],
                        'vf': self.before['vf']})
        # maximal subsequences share recurrent states
        N = len(data)
        rows = []
        J = []
        for seq in seqs:
            l, _ = self.outputs(seq)
            for i in range(len(seq)):
                jr = []
                for a in range(G.A):
                    pol.cleargrads()
                    F.sum(l[i:i + 1, a:a + 1]).backward(retain_grad=False)
                    jr.append(np.concatenate([
                        np.zeros(params[n].size) if params[n].grad is None
                        else params[n].grad.astype(np.float64).ravel()
                        for n in names]))
                rows.append(P.softmax(l.array[i]))
                J.append(np.stack(jr))
        order = [t for seq in seqs for t in seq]
        ec = o.get('entropy_coef', 0.01)
        g = np.zeros_like(old)
        Fm = np.zeros((old.size, old.size))
        for t, lp, jr in zip(order, rows, J):
            p = np.exp(lp)
            ratio = np.exp(lp[t['a']] - t['lp'])
            H = -(p * lp).sum()
            g += (t['A'] * ratio * (np.eye(G.A)[t['a']] - p)
                  - ec * p * (lp + H)).dot(jr) / N
            Fm += jr.T.dot(np.diag(p) - np.outer(p, p)).dot(jr) / N
        Fm += np.eye(old.size) * o['conjugate_gradient_damping']

        def measure(vec):
            load(vec)
            gain = kl = 0.
            k = 0
            with chainer.no_backprop_mode():
                for seq in seqs:
                    l, _ = self.outputs(seq)
                    for i, t in enumerate(seq):
                        lp = P.softmax(l.array[i])
                        p0 = np.exp(rows[k])
                        gain += (np.exp(lp[t['a']] - t['lp']) * t['A']
                                 - ec * (np.exp(lp) * lp).sum()) / N
                        kl += (p0 * (rows[k] - lp)).sum() / N
                        k += 1
            return gain, kl
        gain0, _ = measure(old)
        step = new - old
        moved = np.abs(step).max() > 0
        if moved:
            gain, kl = measure(new)
            rec.expect(kl <= o['max_kl'] * (1 + 1e-3) + 1e-6,
                       lambda: '{} policy moved by KL {} > {}'.format(
                           what(), kl, o['max_kl']))
            rec.expect(gain >= gain0 - 1e-5 * (1 + abs(gain0)),
                       lambda: '{} policy step made the objective worse: '
                       '{} -> {}'.format(what(), gain0, gain))
        if np.linalg.norm(g) < 1e-3:
            rec.note_add('negligible_gradient')
            return
        if o['conjugate_gradient_max_iter'] == 1:
            d = g * (g.dot(g) / g.dot(Fm.dot(g)))
        else:
            d = np.linalg.solve(Fm, g)
        full = d * np.sqrt(2 * o['max_kl'] / (d.dot(Fm.dot(d)) + 1e-8))
        # first acceptable halving
        ok = []
        for k in range(o['line_search_max_backtrack'] + 1):
            cand = full * 0.5 ** k
            gain, kl = measure(old + cand)
            good = gain >= gain0 and kl <= o['max_kl']
            near = (abs(gain - gain0) < 2e-6 * (1 + abs(gain0))
                    or abs(kl / o['max_kl'] - 1) < 5e-3)
            if good or near:
                ok.append(cand)
            if good and not near:
                break
        else:
            ok.append(np.zeros_like(full))
        scale = np.linalg.norm(full)
        best = min(np.linalg.norm(step - c) for c in ok)
        rec.expect(best <= max(0.01 * np.linalg.norm(step), 1e-3 * scale),
                   lambda: '{} policy step {} (norm {}), allowed norms {} '
                   'distance {}'.format(
                       what(), step[:4], np.linalg.norm(step),
                       [float(np.linalg.norm(c)) for c in ok], best))
        rec.note_add('moved' if moved else 'not_moved')
        rec.outcome('halvings', moved and int(round(np.log2(
            max(scale / max(np.linalg.norm(step), 1e-30), 1e-9)))))


def play(rec, name, opts, n_envs, script, seed, perm, what):
    np.random.seed(perm)
    random.seed(perm)
    with P.Shuffles(perm), G.noise():
        w = Watch(rec, name, opts, max(n_envs, 1), seed, what)
        if n_envs == 0:
            drive.run_single(w, script)
        else:
            drive.run_batch(w, script, n_envs)
    rec.trace()
    rec.outcome(name, w.updates)
    rec.state(name, n_envs, script, opts)
    return w


def joint_scripts(deep):
    """(n_envs, script); 0 is the single-environment interface."""
    out = [(0, s) for s in drive.scripts(drive.ALL, 6 if deep else 5)
           if s.count(CONT) >= 2]
    three = [(CONT,) * 3, (DONE, RESET, CONT), (CONT, BOTH, DONE)]
    out += [(2, s) for s in itertools.product(drive.FEW2,
                                              repeat=4 if deep else 3)]
    out += [(3, s) for s in itertools.product(three, repeat=3)]
    out += [(1, [(k,) for k in s]) for s in drive.scripts(
        (CONT, DONE, RESET), 4 if deep else 3)]
    return out


def thin(items, k, m):
    return items[k % m::m]


def gen_ppo(tier):
    deep = tier == 'thorough'
    js = joint_scripts(deep)
    for k in range(len(PPO_OPTS)):
        sub = js if deep else thin(js, k, 5)
        for i in range(0, len(sub), 12):
            yield [k, deep, i]


def ppo_case(rec, k, deep, i, kinds):
    js = joint_scripts(deep)
    for rk in kinds:
        opts = dict(PPO_OPTS[k], **(PPO_REC[rk] if rk is not None else {}))
        m = 5 if rk is None else 17
        sub = js if deep else thin(js, k if rk is None else 3 * k + rk, m)
        for j, (n, s) in enumerate(sub[i:i + 12]):
            def what():
                return 'PPO {} envs {} script {}'.format(opts, n, s)
            play(rec, 'PPO', opts, n, s, 3 * k + 1, i + j, what)


@chk.part('PPO', gen_ppo, bound='single: all scripts of 5 steps with >= 2 '
          'continues (6 thorough); 2 and 3 joint environments: 3 (4) steps; 5 '
          'settings; each setting sees every fifth script (all thorough)')
def ppo(rec, case):
    k, deep, i = case
    ppo_case(rec, k, deep, i, [None])


def gen_ppo_rec(tier):
    deep = tier == 'thorough'
    js = joint_scripts(deep)
    for k in range(len(PPO_OPTS)):
        for rk in range(len(PPO_REC)):
            sub = js if deep else thin(js, 3 * k + rk, 17)
            for i in range(0, len(sub), 12):
                yield [k, rk, deep, i]


@chk.part('PPO recurrent', gen_ppo_rec, bound='as PPO, with GRU and LSTM and '
          'sequence limits none, 1, 2; each setting every 17th script (all '
          'thorough)')
def ppo_rec(rec, case):
    k, rk, deep, i = case
    ppo_case(rec, k, deep, i, [rk])


TRPO_OPTS = [
    dict(update_interval=3, vf_batch_size=2, vf_epochs=2, max_kl=0.05,
         entropy_coef=0.3, conjugate_gradient_damping=0.1,
         conjugate_gradient_max_iter=40, line_search_max_backtrack=10),
    dict(update_interval=4, vf_batch_size=3, vf_epochs=1, max_kl=0.5,
         entropy_coef=0., conjugate_gradient_damping=0.02,
         conjugate_gradient_max_iter=1, line_search_max_backtrack=1,
         standardize_advantages=True, norm=True),
    dict(update_interval=2, vf_batch_size=1, vf_epochs=1, max_kl=1.5,
         entropy_coef=0.05, conjugate_gradient_damping=0.1,
         conjugate_gradient_max_iter=40, line_search_max_backtrack=0,
         gamma=1., lambd=0.5, custom=True),
    dict(update_interval=4, vf_batch_size=2, vf_epochs=3, max_kl=1.5,
         entropy_coef=0., conjugate_gradient_damping=0.05,
         conjugate_gradient_max_iter=1, line_search_max_backtrack=3,
         lambd=0., norm=True, custom=True),
]
TRPO_REC = [None, dict(max_recurrent_sequence_len=None, kind='gru'),
            dict(max_recurrent_sequence_len=2, kind='rnn')]


def gen_trpo(tier):
    deep = tier == 'thorough'
    js = joint_scripts(deep)
    for k in range(len(TRPO_OPTS)):
        for rk in range(len(TRPO_REC)):
            sub = js if deep else thin(js, 3 * k + rk, 17)
            for i in range(0, len(sub), 8):
                yield [k, rk, deep, i]


@chk.part('TRPO', gen_trpo, bound='the scripts of PPO; 4 settings (maximal '
          'KL, damping, iterations and backtracks), not recurrent, GRU, RNN; '
          'each setting every 17th script (all thorough)')
def trpo(rec, case):
    k, rk, deep, i = case
    js = joint_scripts(deep)
    opts = dict(TRPO_OPTS[k], **(TRPO_REC[rk] or {}))
    sub = js if deep else thin(js, 3 * k + rk, 17)
    for j, (n, s) in enumerate(sub[i:i + 8]):
        def what():
            return 'TRPO {} envs {} script {}'.format(opts, n, s)
        play(rec, 'TRPO', opts, n, s, 5 * k + 2, i + j, what)


if __name__ == '__main__':
    raise SystemExit(chk.main())
