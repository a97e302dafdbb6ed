"""C16: learning and target synchronisation happen exactly when configured."""
import itertools
import random
import warnings

import numpy as np

from mc import agents as G
from mc import drive
from mc.core import Check
from mc.refs import NStepRef, EpisodicRef
from mc.world import CONT, DONE, RESET, BOTH, KIND

warnings.filterwarnings('ignore')

chk = Check(
    'C16',
    rule='for every off-policy agent class and every combination of start '
         'size, update interval, repetition, minibatch size, target interval '
         'and method in range, every script of episode ends is played on the '
         'real agent; after each call the number of updates, the requested '
         'minibatches and the target network are compared with a schedule '
         'model',
    assumptions=['tiny networks', 'the parameters after each update are taken '
                 'from the run itself (their values are C17/C18)'])

LINKS = {
    'DDPG': {'policy': 'actor_optimizer', 'q_function': 'critic_optimizer'},
    'PGT': {'policy': 'actor_optimizer', 'q_function': 'critic_optimizer'},
    'TD3': {'policy': 'policy_optimizer', 'q_func1': 'q_func1_optimizer',
            'q_func2': 'q_func2_optimizer'},
    'SAC': {'policy': 'policy_optimizer', 'q_func1': 'q_func1_optimizer',
            'q_func2': 'q_func2_optimizer'},
}
TARGETS = {
    'TD3': {'target_policy': 'policy', 'target_q_func1': 'q_func1',
            'target_q_func2': 'q_func2'},
    'SAC': {'target_q_func1': 'q_func1', 'target_q_func2': 'q_func2'},
}


class Watch(object):
    """Parameters of every trained link after each of its updates."""

    def __init__(self, b):
        self.b = b
        ag = b.agent
        links = LINKS.get(b.name, {'model': 'optimizer'})
        self.hist = {}
        for link, opt in links.items():
            lk = getattr(ag, link)
            self.hist[link] = [G.link_state(lk)]
            self._wrap(getattr(ag, opt), lk, link)
        self.targets = TARGETS.get(b.name, {'target_model': None})
        self.target = {t: G.link_state(getattr(ag, t)) for t in self.targets}
        self.samples = []
        buf = b.buffer
        orig, orig_ep = buf.sample, getattr(buf, 'sample_episodes', None)

        def sample(n):
            out = orig(n)
            self.samples.append((n, None, len(buf)))
            return out

        def sample_episodes(n, max_len=None):
            out = orig_ep(n, max_len)
            self.samples.append((n, max_len, len(buf)))
            return out
        buf.sample = sample
        if orig_ep is not None:
            buf.sample_episodes = sample_episodes

    def _wrap(self, opt, link, name):
        orig = opt.update

        def update(*a, **k):
            orig(*a, **k)
            self.hist[name].append(G.link_state(link))
        opt.update = update

    def at(self, link, u):
        return self.hist[link][min(u, len(self.hist[link]) - 1)]


class Schedule(object):
    """When things must happen."""

    def __init__(self, b, w, cfg):
        self.b, self.w, self.cfg = b, w, cfg
        self.n = {k: 0 for k in w.hist}     # updates of each link so far
        self.samples = 0
        self.t = 0
        self.ref = (EpisodicRef(None) if b.rec else
                    NStepRef(cfg['n'], None))

    def size(self):
        if self.b.rec:
            return sum(map(len, self.ref.episodes))
        return len(self.ref.memory)

    def sync(self):
        w, cfg = self.w, self.cfg
        for tname, src in w.targets.items():
            if src is None:
                if 'model' in self.n:
                    now = w.at('model', self.n['model'])
                else:
                    now = {}
                    for lk in self.n:
                        for k, v in w.at(lk, self.n[lk]).items():
                            now['/' + lk + k] = v
            else:
                now = w.at(src, self.n[src])
            tgt = w.target[tname]
            if cfg['method'] == 'soft':
                tau = cfg['tau']
                w.target[tname] = {
                    k: (1 - tau) * tgt[k] + tau * now[k] for k in tgt}
            else:
                w.target[tname] = {k: now[k] for k in tgt}

    def maybe_update(self, t):
        cfg = self.cfg
        if self.size() < cfg['start']:
            return
        if self.b.rec and len(self.ref.episodes) < cfg['mb']:
            return
        if t % cfg['ui']:
            return
        for _ in range(cfg['times']):
            self.samples += 1
            if self.b.name == 'TD3':
                self.n['q_func1'] += 1
                self.n['q_func2'] += 1
                if self.n['q_func1'] % cfg['delay'] == 0:
                    self.n['policy'] += 1
                    self.sync()
            elif self.b.name == 'SAC':
                for k in self.n:
                    self.n[k] += 1
                self.sync()
            else:
                for k in self.n:
                    self.n[k] += 1

    def interval_sync(self, t):
        if self.b.name not in ('TD3', 'SAC') and t % self.cfg['tui'] == 0:
            self.sync()

    def act_single(self, pending):
        value = self.b.name in G.VALUE
        if not value:
            self.t += 1
            self.interval_sync(self.t)
        if pending is not None:
            self.ref.append(0, pending)
        if value:
            self.interval_sync(self.t)
        self.maybe_update(self.t)
        if value:
            self.t += 1

    def stop_single(self, tr):
        self.ref.append(0, tr)
        self.ref.stop(0)

    def observe_batch(self, trs, ends):
        for e, tr in enumerate(trs):
            self.t += 1
            self.interval_sync(self.t)
            self.ref.append(e, tr)
            if ends[e]:
                self.ref.stop(e)
            self.maybe_update(self.t)


def check_now(rec, b, w, s, what):
    for lk, n in s.n.items():
        got = len(w.hist[lk]) - 1
        rec.expect(got == n, lambda: '{}: {} updates of {} by step {}, the '
                   'schedule has {}'.format(what, got, lk, s.t, n))
    rec.expect(len(w.samples) == s.samples, lambda: '{}: {} minibatches drawn '
               'by step {}, the schedule has {}'.format(
                   what, len(w.samples), s.t, s.samples))
    for t in w.targets:
        got = G.link_state(getattr(b.agent, t))
        want = w.target[t]
        rec.expect(got.keys() == want.keys(), 'target parameters')
        for k in got:
            rec.expect(np.allclose(got[k], want[k], rtol=1e-5, atol=1e-6),
                       lambda: '{}: {}{} after step {} is {} want {}'.format(
                           what, t, k, s.t, got[k].ravel()[:3],
                           np.asarray(want[k]).ravel()[:3]))
    for n, ml, size in w.samples:
        rec.expect(n == s.cfg['mb'] and ml == s.cfg.get('eul'),
                   lambda: '{}: minibatch of {} (max_len {})'.format(
                       what, n, ml))


def one(rec, name, r, cfg, script, n_envs):
    np.random.seed(chk.seed)
    random.seed(chk.seed)
    kw = dict(replay_start_size=cfg['start'], minibatch_size=cfg['mb'],
              update_interval=cfg['ui'], soft_update_tau=cfg['tau'])
    if name not in ('SAC',):
        kw['n_times_update'] = cfg['times']
    if name == 'TD3':
        kw['policy_update_delay'] = cfg['delay']
    if name not in ('TD3', 'SAC'):
        kw.update(target_update_interval=cfg['tui'],
                  target_update_method=cfg['method'])
    if r:
        kw['episodic_update_len'] = cfg['eul']
    what = '{} {} {} script {} envs {}'.format(name, r, cfg, script, n_envs)
    with G.noise():
        b = G.build(name, r, n=cfg['n'], **kw)
        w = Watch(b)
        s = Schedule(b, w, cfg)
        # the initial target is a copy of the model
        for t, src in w.targets.items():
            src = src or 'model'
            rec.expect(G.same(G.link_state(getattr(b.agent, t)),
                              G.link_state(getattr(b.agent, src))),
                       'initial target differs from the model')
        if n_envs == 0:
            pend = None
            obs, rew, k = G.obs_of(0, 0), 0, 1
            for i, kind in enumerate(script):
                a = b.agent.act_and_train(obs, rew)
                s.act_single(pend)
                pend = None
                check_now(rec, b, w, s, what)
                obs = G.obs_of(0, k)
                k += 1
                rew = drive.reward_of(0, i)
                done, reset = KIND[kind]
                tr = dict(is_state_terminal=done, action=a)
                if done or reset:
                    b.agent.stop_episode_and_train(obs, rew, done)
                    s.stop_single(tr)
                    check_now(rec, b, w, s, what)
                    obs, rew = G.obs_of(0, k), 0
                    k += 1
                else:
                    pend = tr
        else:
            obss = [G.obs_of(e, 0) for e in range(n_envs)]
            for i, kinds in enumerate(script):
                b.agent.batch_act_and_train(list(obss))
                check_now(rec, b, w, s, what)
                obss = [G.obs_of(e, i + 1) for e in range(n_envs)]
                dones = [KIND[kk][0] for kk in kinds]
                resets = [KIND[kk][1] for kk in kinds]
                b.agent.batch_observe_and_train(
                    list(obss), [drive.reward_of(e, i)
                                 for e in range(n_envs)], dones, resets)
                s.observe_batch(
                    [dict(is_state_terminal=d) for d in dones],
                    [d or x for d, x in zip(dones, resets)])
                check_now(rec, b, w, s, what)
    rec.trans(len(script))
    rec.trace()
    rec.state(name, r, sorted(cfg.items(), key=str), script, n_envs)
    rec.note_max('most updates in one run', max(s.n.values()))


def configs(name, r, deep):
    starts = (1, 2, 3)
    for start in starts:
        for mb in (1, 2):
            if mb > start:
                continue
            for ui in (1, 2, 3):
                for times in (1, 2):
                    if name in ('TD3', 'SAC'):
                        if name == 'SAC' and times > 1:
                            continue
                        for delay in ((1, 2, 3) if name == 'TD3' else (1,)):
                            for n in (1, 2):
                                yield dict(start=start, mb=mb, ui=ui,
                                           times=times, delay=delay, n=n,
                                           tau=0.25, method='soft')
                        continue
                    for tui, method in ((1, 'hard'), (2, 'soft'), (3, 'hard'),
                                        (4, 'hard')):
                        for n in ((1,) if r or not deep else (1, 2)):
                            yield dict(start=start, mb=mb, ui=ui, times=times,
                                       tui=tui, method=method, tau=0.25, n=n,
                                       eul=([None, 1, 2][(start + ui) % 3]
                                            if r else None))


def gen_single(tier):
    deep = tier == 'thorough'
    for name, r in (('DQN', None), ('DQN', 'gru'), ('IQN', None),
                    ('DDPG', None), ('PGT', None), ('TD3', None),
                    ('SAC', None)):
        for cfg in configs(name, r, deep):
            yield [name, r, cfg, 0, deep]


@chk.part('single', gen_single,
          bound='start size 1..3, minibatch 1..2, update interval 1..3, '
                'repetitions 1..2, target interval 1..4, delay 1..3; scripts '
                'of 6 steps with up to two ends at every place (thorough: all '
                'scripts of 8 over {continue, done} and of 4 over {continue, '
                'reset})')
def single(rec, case):
    name, r, cfg, _, deep = case
    light = name == 'IQN'
    if deep:
        scripts = list(drive.scripts((CONT, DONE), 8))
        scripts += list(drive.scripts((CONT, RESET), 4))
    else:
        scripts = [(CONT,) * 6]
        for p in range(6):
            if p % 2:
                scripts.append((CONT,) * p + (DONE,) + (CONT,) * (5 - p))
            elif p < 5 and not light:
                scripts.append((CONT,) * p + (RESET, DONE)
                               + (CONT,) * (4 - p))
    for script in scripts:
        one(rec, name, r, cfg, script, 0)


def gen_batch(tier):
    deep = tier == 'thorough'
    for name, r in (('DQN', None), ('DQN', 'lstm'), ('DDPG', None),
                    ('TD3', None), ('SAC', None)):
        for cfg in configs(name, r, deep):
            for n_envs in (1, 2, 3) if deep else (2, 3):
                yield [name, r, cfg, n_envs, deep]


@chk.part('batch', gen_batch,
          bound='as single, with 1 to 3 environments, 2 (thorough '
                '4) joint steps over {continue, first done, last reset} and some '
                'with the last or a middle environment done')
def batch(rec, case):
    name, r, cfg, n_envs, deep = case
    joint = [(CONT,) * n_envs, (DONE,) + (CONT,) * (n_envs - 1),
             (CONT,) * (n_envs - 1) + (RESET,)]
    scripts = list(drive.scripts(joint, 4 if deep else 2))
    last = (CONT,) * (n_envs - 1) + (DONE,)
    if n_envs > 1:
        scripts += [(last, last), (joint[0], last), (last, joint[1]),
                    (joint[0], joint[0], last)]
    if n_envs > 2:
        scripts += [((CONT, DONE, CONT), last), (joint[0], (CONT, DONE, DONE))]
    for script in scripts:
        one(rec, name, r, cfg, script, n_envs)


def gen_guard(tier):
    yield ['DQN']


@chk.part('guards', gen_guard, bound='start size vs capacity, minibatch vs '
          'start size')
def guards(rec, case):
    for cap in (None, 1, 2, 3):
        for start in (1, 2, 3, 4):
            for mb in (1, 2, 3, 4):
                bad = (mb > start) or (cap is not None and cap < start)
                try:
                    G.build('DQN', cap=cap, replay_start_size=start,
                            minibatch_size=mb)
                    ok = True
                except (ValueError, AssertionError):
                    ok = False
                rec.expect(ok == (not bad), 'DQN(capacity={}, start={}, '
                           'minibatch={}) accepted={}'.format(
                               cap, start, mb, ok))
                rec.state(cap, start, mb)
    rec.trace()


if __name__ == '__main__':
    raise SystemExit(chk.main())
