"""C15: off-policy agents act on, and store, exactly what happened."""
import random
import warnings

import chainer
import numpy as np

from mc import agents as G
from mc import drive
from mc.core import Check
from mc.refs import NStepRef, EpisodicRef
from mc.world import CONT, DONE, RESET, BOTH, KIND

warnings.filterwarnings('ignore')

chk = Check(
    'C15',
    rule='for every off-policy agent class, buffer kind and number of '
         'environments, every script of episode ends up to the length bound '
         'is played on the real agent; replay contents, explorer calls, '
         'returned actions and recurrent states are compared with a list '
         'model and with the network run unbatched over each episode',
    assumptions=['tiny networks; noise replaced by fixed numbers',
                 'scripts longer than the bound are not explored'])

FIELDS = ('state', 'action', 'reward', 'next_state', 'is_state_terminal')


class RefPolicy(object):
    """Greedy action and recurrent state of the agent's current network for
    one environment, evaluated without batching."""

    def __init__(self, b):
        self.b = b
        self.rs = None

    def reset(self):
        self.rs = None

    def step(self, obs):
        """-> (greedy action, recurrent state before, after)"""
        b = self.b
        ag = b.agent
        x = np.stack([G.double(obs)])
        with chainer.using_config('train', False), chainer.no_backprop_mode():
            if b.name in G.VALUE:
                before = self.rs
                if b.rec:
                    out, self.rs = ag.model(x, self.rs)
                else:
                    out = ag.model(x)
                if b.name in ('IQN', 'DoubleIQN'):
                    K = ag.quantile_thresholds_K
                    out = out(np.random.uniform(
                        0, 1, size=(1, K)).astype('f'))
                q = np.asarray(out.q_values.array[0], dtype=float)
                return q, before, self.rs
            a = ag.policy(x).sample().array[0]
            return a, None, None


def arr_state(model, rs):
    """Recurrent state as a flat list of arrays (None = zeros)."""
    out = []

    def walk(s):
        if s is None:
            out.append(0.0)
        elif isinstance(s, (list, tuple)):
            for x in s:
                walk(x)
        else:
            out.append(np.asarray(getattr(s, 'array', s)).ravel())
    walk(rs)
    return out


def close_state(a, b):
    if len(a) != len(b):
        # a missing state stands for zeros
        if all(np.all(np.asarray(x) == 0) for x in a + b):
            return True
        return False
    return all(np.allclose(x, y, atol=1e-5) for x, y in zip(a, b))


def check_explorer(rec, b, k, obs, refs_out, t, action):
    """One act: greedy and time seen by the explorer, action returned."""
    if b.explorer is None:
        rec.close(np.asarray(action, float), np.asarray(refs_out, float),
                  'action is not a sample of the policy', atol=1e-5)
        return
    rec.expect(k < len(b.explorer.calls), 'explorer was not consulted')
    ct, g, av, a = b.explorer.calls[k]
    rec.expect(ct == t, lambda: 'explorer called with t={} after {} steps'
               .format(ct, t))
    if b.name in G.VALUE:
        q = refs_out
        rec.expect(q[int(g)] >= q.max() - 1e-5, lambda: 'greedy action {} but '
                   'the network prefers {}: {}'.format(g, q.argmax(), q))
        rec.expect(av is not None, 'no action value passed to the explorer')
        rec.close(np.asarray(av.q_values.array, float).ravel(), q,
                  'action value passed to the explorer', atol=1e-5)
    else:
        rec.close(np.asarray(g, float), np.asarray(refs_out, float),
                  'greedy action passed to the explorer', atol=1e-5)
    rec.expect(G.same(np.asarray(action), np.asarray(a)),
               lambda: 'agent returned {} but the explorer chose {}'.format(
                   action, a))


def call_index(rec, b, n_acts):
    """Index of the explorer call made for the latest action (SARSA also
    consults its explorer while learning)."""
    if b.explorer is None:
        return 0
    n = len(b.explorer.calls)
    if b.name != 'SARSA':
        rec.expect(n == n_acts, lambda: 'explorer consulted {} times for {} '
                   'actions'.format(n, n_acts))
    return n - 1


def frozen(t, rec_states):
    keys = FIELDS + (('recurrent_state', 'next_recurrent_state')
                     if rec_states else ())
    return G.freeze({k: t[k] for k in FIELDS if k in t}), [
        arr_state(None, t.get(k)) for k in keys[len(FIELDS):]]


def contents(rec, b):
    buf = b.buffer
    st = np.random.get_state()
    if hasattr(buf, 'sample_episodes'):
        items = buf.sample_episodes(buf.n_episodes) if buf.n_episodes else []
        if isinstance(items, tuple):
            items = items[0]
    else:
        items = buf.sample(len(buf)) if len(buf) else []
    np.random.set_state(st)
    return sorted(([frozen(t, b.rec) for t in w] for w in items),
                  key=lambda w: repr([x[0] for x in w]))


def compare(rec, b, ref, nexts, what):
    want = ref.episodes if hasattr(ref, 'episodes') else ref.memory
    want = sorted(([frozen(t, b.rec) for t in w] for w in want),
                  key=lambda w: repr([x[0] for x in w]))
    got = contents(rec, b)
    a = [[x[0] for x in w] for w in got]
    e = [[x[0] for x in w] for w in want]
    rec.expect(a == e, lambda: '{}: stored {} want {}'.format(what, a, e))
    for wg, ww in zip(got, want):
        for g, w in zip(wg, ww):
            for i, nm in enumerate(('recurrent_state',
                                    'next_recurrent_state')[:len(g[1])]):
                rec.expect(close_state(g[1][i], w[1][i]),
                           lambda: '{}: stored {} {} but the network was in '
                           '{}'.format(what, nm, g[1][i], w[1][i]))


def ref_buffer(buf, n, cap):
    if buf in ('episodic', 'pepisodic'):
        return EpisodicRef(cap)
    return NStepRef(n, cap)


def close_ends(rec, b, ref, open_envs):
    """Flush windows still open, on both sides, so that everything recorded
    becomes visible."""
    for e in open_envs:
        b.buffer.stop_current_episode(env_id=e)
        ref.stop(e)


def make(name, r, bufkind, n, cap, learn, **kw):
    if not learn:
        kw.update(replay_start_size=1000)
    if cap is not None and not learn:
        cap = None
    return G.build(name, r, buf=bufkind, n=n, cap=cap, **kw)


def play_single(rec, name, r, bufkind, n, cap, learn, script):
    np.random.seed(chk.seed)
    random.seed(chk.seed)
    with G.noise():
        b = make(name, r, bufkind, n, cap, learn)
        ag = b.agent
        ref = ref_buffer(bufkind, n, cap if learn else None)
        pol = RefPolicy(b)
        k = 1
        obs = G.obs_of(0, 0)
        rew = 0
        pend = None
        steps = 0
        done = False
        for i, kind in enumerate(script):
            a = ag.act_and_train(obs, rew)
            if pend is not None:
                ref.append(0, pend)
                pend = None
            # the network may just have been updated: the reference is taken
            # after the call, which acts after updating
            out, before, after = (None, None, None)
            if learn and name in G.VALUE and r:
                # the recurrent state was made by earlier parameters
                out = None
            elif name in G.VALUE or not learn:
                out, before, after = pol.step(obs)
            c = call_index(rec, b, i + 1)
            if out is not None:
                check_explorer(rec, b, c, obs, out, i, a)
            elif b.explorer is not None:
                rec.expect(b.explorer.calls[c][0] == i, 'explorer t')
                rec.expect(G.same(np.asarray(b.explorer.calls[c][3]),
                                  np.asarray(a)), 'explorer action unused')
            obs2 = G.obs_of(0, k)
            k += 1
            rew = drive.reward_of(0, i)
            done, reset = KIND[kind]
            tr = dict(state=obs, action=a, reward=rew, next_state=obs2,
                      is_state_terminal=False, recurrent_state=before,
                      next_recurrent_state=after)
            obs = obs2
            if done or reset:
                tr['is_state_terminal'] = done
                ag.stop_episode_and_train(obs, rew, done)
                ref.append(0, tr)
                ref.stop(0)
                pol.reset()
                obs = G.obs_of(0, k)
                k += 1
                rew = 0
            else:
                pend = tr
            rec.expect(ag.t == i + 1, lambda: 'agent.t {} after {} steps'
                       .format(ag.t, i + 1))
        what = '{} {} {} n={} script {}'.format(name, r, bufkind, n, script)
        close_ends(rec, b, ref, [0] if pend is not None else [])
        if learn and r:
            b.rec = None
        compare(rec, b, ref, None, what)
        rec.trans(len(script))
        rec.trace()
        rec.state('s', name, r, bufkind, n, cap, learn, script)


def play_batch(rec, name, r, bufkind, n, cap, learn, script, n_envs):
    np.random.seed(chk.seed)
    random.seed(chk.seed)
    with G.noise():
        b = make(name, r, bufkind, n, cap, learn)
        ag = b.agent
        ref = ref_buffer(bufkind, n, cap if learn else None)
        pols = [RefPolicy(b) for _ in range(n_envs)]
        ks = [1] * n_envs
        obss = [G.obs_of(e, 0) for e in range(n_envs)]
        open_envs = set()
        steps = 0
        for i, kinds in enumerate(script):
            ref_out = [None] * n_envs
            if not (learn and r):
                ref_out = [p.step(o) for p, o in zip(pols, obss)]
            acts = list(ag.batch_act_and_train(list(obss)))
            rec.expect(len(acts) == n_envs, 'number of actions')
            c0 = call_index(rec, b, (i + 1) * n_envs) - n_envs + 1
            obss2, rs, dones, resets, trs = [], [], [], [], []
            for e in range(n_envs):
                before = after = None
                if ref_out[e] is not None:
                    out, before, after = ref_out[e]
                    check_explorer(rec, b, c0 + e, obss[e], out,
                                   steps, acts[e])
                elif b.explorer is not None:
                    c = b.explorer.calls[c0 + e]
                    rec.expect(c[0] == steps, 'explorer t')
                    rec.expect(G.same(np.asarray(c[3]), np.asarray(acts[e])),
                               'explorer action unused')
                obss2.append(G.obs_of(e, ks[e]))
                ks[e] += 1
                rs.append(drive.reward_of(e, i))
                d, s = KIND[kinds[e]]
                dones.append(d)
                resets.append(s)
                trs.append(dict(
                    state=obss[e], action=acts[e], reward=rs[-1],
                    next_state=obss2[-1], is_state_terminal=d,
                    recurrent_state=before, next_recurrent_state=after))
            ag.batch_observe_and_train(
                list(obss2), list(rs), list(dones), list(resets))
            steps += n_envs
            rec.expect(ag.t == steps, lambda: 'agent.t {} after {} steps'
                       .format(ag.t, steps))
            obss = []
            for e in range(n_envs):
                ref.append(e, trs[e])
                open_envs.add(e)
                if dones[e] or resets[e]:
                    ref.stop(e)
                    open_envs.discard(e)
                    pols[e].reset()
                    obss.append(G.obs_of(e, ks[e]))
                    ks[e] += 1
                else:
                    obss.append(obss2[e])
        what = '{} {} {} n={} batch script {}'.format(
            name, r, bufkind, n, script)
        close_ends(rec, b, ref, sorted(open_envs))
        if learn and r:
            b.rec = None
        compare(rec, b, ref, None, what)
        rec.trans(len(script) * n_envs)
        rec.trace()
        rec.state('b', name, r, bufkind, n, cap, learn, script)


CONFIGS = (
    # (class, recurrent, buffer, n)
    [(nm, None, 'replay', 1) for nm in G.VALUE + G.ACTOR]
    + [(nm, None, 'replay', 3) for nm in ('DQN', 'DDPG', 'TD3', 'SAC', 'PGT')]
    + [(nm, None, 'per', 2) for nm in ('DQN', 'CategoricalDQN', 'IQN')]
    + [('DQN', r, 'episodic', 1) for r in ('gru', 'lstm', 'rnn')]
    + [(nm, 'lstm', 'episodic', 1) for nm in ('CategoricalDQN', 'IQN')]
    + [(nm, None, 'episodic', 1) for nm in ('DQN', 'DDPG', 'SAC')])


def gen_single(tier):
    deep = tier == 'thorough'
    for nm, r, buf, n in CONFIGS:
        base = deep or nm in ('DQN', 'TD3', 'PGT')
        for learn in (False, True):
            for cap in ((None, 3) if learn else (None,)):
                for first in drive.ALL:
                    yield [nm, r, buf, n, cap, learn, first,
                           (4 if base else 3) + deep]


@chk.part('single', gen_single,
          bound='one environment, all scripts of length 4 (3 for some '
                'classes; 5 thorough) over {continue, done, reset, both}; '
                'with and without learning; capacities None and 3')
def single(rec, case):
    nm, r, buf, n, cap, learn, first, length = case
    for tail in drive.scripts(drive.ALL, length - 1):
        play_single(rec, nm, r, buf, n, cap, learn, (first,) + tail)


def gen_batch(tier):
    deep = tier == 'thorough'
    for nm, r, buf, n in CONFIGS:
        if nm not in G.BATCH:
            continue
        base = nm in ('DQN', 'DDPG', 'TD3', 'SAC')
        more = 2 if nm in ('DQN', 'TD3') and (deep or buf != 'per') else 1
        for learn in (False, True):
            for cap in ((None, 3) if learn else (None,)):
                for first in drive.joint(2):
                    yield [nm, r, buf, n, cap, learn, 2, list(first),
                           more + deep]
                if base:
                    for first in drive.joint(3, (CONT, DONE, RESET)):
                        yield [nm, r, buf, n, cap, learn, 3, list(first), 1]


@chk.part('batch', gen_batch,
          bound='2 environments: first step all 16 joint outcomes, then 2 (1 '
                'for some classes; +1 thorough) steps over 5; 3 environments:'
                ' 2 steps')
def batch(rec, case):
    nm, r, buf, n, cap, learn, n_envs, first, more = case
    joint = drive.FEW2 if n_envs == 2 else [
        (CONT,) * 3, (DONE, CONT, RESET), (BOTH, RESET, CONT), (DONE,) * 3]
    for tail in drive.scripts(joint, more):
        play_batch(rec, nm, r, buf, n, cap, learn,
                   (tuple(first),) + tail, n_envs)


def gen_burnin(tier):
    for nm in ('DDPG', 'TD3', 'SAC'):
        for start in (2, 3, 4):
            for n_envs in (0, 1, 2):
                yield [nm, start, n_envs]


@chk.part('burn-in', gen_burnin, bound='scripts of 5 steps with every '
          'placement of episode ends; start sizes 2..4; 0 (single) to 2 '
          'environments')
def burnin(rec, case):
    nm, start, n_envs = case
    kinds = (CONT, DONE)
    for script in drive.scripts(kinds, 5):
        calls = []

        def func():
            calls.append(np.asarray([10. + len(calls)], dtype=np.float32))
            return calls[-1]
        np.random.seed(chk.seed)
        with G.noise():
            b = G.build(nm, replay_start_size=start, minibatch_size=2,
                        burnin_action_func=func)
            opt = b.agent.actor_optimizer if nm == 'DDPG' \
                else b.agent.policy_optimizer
            seen = []
            orig = opt.update

            def update(*a, **k):
                orig(*a, **k)
                seen.append(len(calls))
            opt.update = update
            log = []
            orig_single = b.agent.act_and_train

            def act(obs, r):
                c = len(calls)
                u = len(seen)
                a = orig_single(obs, r)
                log.append((u, len(calls) - c, [a]))
                return a
            b.agent.act_and_train = act
            orig_batch = b.agent.batch_act_and_train

            def bact(obss):
                c = len(calls)
                u = len(seen)
                a = list(orig_batch(obss))
                log.append((u, len(calls) - c, a))
                return a
            b.agent.batch_act_and_train = bact
            if n_envs == 0:
                drive.run_single(b.agent, script)
            else:
                drive.run_batch(b.agent, [(s,) * n_envs for s in script],
                                n_envs)
            j = 0
            for u, c, acts in log:
                want = len(acts) if u == 0 else 0
                rec.expect(c == want, lambda: '{} start={} script {}: {} '
                           'burn-in actions drawn after {} updates (wanted '
                           '{})'.format(nm, start, script, c, u, want))
                if u == 0:
                    for a in acts:
                        rec.expect(G.same(a, calls[j]), 'burn-in action not '
                                   'used')
                        j += 1
                else:
                    for a in acts:
                        rec.expect(abs(float(a[0])) < 5, 'burn-in action '
                                   'after the first update')
            rec.expect(any(u for u, _, _ in log) or nm == 'TD3'
                       or start > 3 or n_envs == 0,
                       'no update happened in this script')
        rec.trace()
        rec.trans(5)
        rec.state(nm, start, n_envs, script)


if __name__ == '__main__':
    raise SystemExit(chk.main())
