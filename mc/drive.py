"""Closed-loop drivers that play the environment for a real agent."""
import itertools

from mc import agents as G
from mc.world import KIND, CONT, DONE, RESET, BOTH


def reward_of(env, k):
    return 0.5 + 0.25 * k - 0.6 * env + (0.3 if k % 3 == 1 else 0.0)


def act_key(a):
    return G.freeze({'a': a})[0][1]


class Trace(object):
    """What the environment side saw, in order."""

    def __init__(self):
        self.actions = []       # actions as returned
        self.transitions = []   # (env, episode, obs, action, r, obs2, done)
        self.ends = []          # (env, done)


def run_single(agent, script, hook=None, env=0, trace=None, hook_mid=None):
    """train_agent-like interaction; the script gives the kind of each step."""
    tr = trace or Trace()
    k = 0
    ep = 0
    obs = G.obs_of(env, k)
    k += 1
    r = 0
    open_ = False
    for i, kind in enumerate(script):
        a = agent.act_and_train(obs, r)
        tr.actions.append(act_key(a))
        obs2 = G.obs_of(env, k)
        k += 1
        r = reward_of(env, i)
        done, reset = KIND[kind]
        tr.transitions.append((env, ep, obs, a, r, obs2, done))
        open_ = True
        obs = obs2
        if done or reset:
            agent.stop_episode_and_train(obs, r, done)
            tr.ends.append((env, done))
            ep += 1
            open_ = False
            obs = G.obs_of(env, k)
            k += 1
            r = 0
            if hook is not None:
                hook(i)
        elif hook_mid is not None:
            hook_mid(i)
    tr.open = open_
    tr.pending = (obs, r)
    return tr


def run_batch(agent, script, n_envs, hook=None, trace=None):
    """train_agent_batch-like interaction; script is a list of tuples."""
    tr = trace or Trace()
    ks = [1] * n_envs
    eps = [0] * n_envs
    obss = [G.obs_of(e, 0) for e in range(n_envs)]
    tr.batch_actions = []
    for i, kinds in enumerate(script):
        acts = agent.batch_act_and_train(list(obss))
        acts = list(acts)
        tr.actions.append([act_key(a) for a in acts])
        obss2, rs, dones, resets = [], [], [], []
        for e in range(n_envs):
            obss2.append(G.obs_of(e, ks[e]))
            ks[e] += 1
            rs.append(reward_of(e, i))
            d, s = KIND[kinds[e]]
            dones.append(d)
            resets.append(s)
            tr.transitions.append(
                (e, eps[e], obss[e], acts[e], rs[-1], obss2[-1], d))
        agent.batch_observe_and_train(list(obss2), list(rs), list(dones),
                                      list(resets))
        if hook is not None:
            hook(i)
        obss = []
        for e in range(n_envs):
            if dones[e] or resets[e]:
                tr.ends.append((e, dones[e]))
                eps[e] += 1
                obss.append(G.obs_of(e, ks[e]))
                ks[e] += 1
            else:
                obss.append(obss2[e])
    return tr


EVAL = 9


def eval_single(agent, length=3, start=0):
    out = []
    for j in range(length):
        out.append(act_key(agent.act(G.obs_of(EVAL, start + j))))
    agent.stop_episode()
    return out


def eval_batch(agent, lengths=(1, 3), start=0):
    """Batch evaluation; env i runs episodes of lengths[i] until the longest
    is over, and every episode shows the same observations."""
    n = len(lengths)
    pos = [0] * n
    out = [[] for _ in range(n)]
    T = max(lengths)
    for step in range(T):
        acts = agent.batch_act([G.obs_of(EVAL, start + p) for p in pos])
        for i in range(n):
            out[i].append((pos[i], act_key(acts[i])))
            pos[i] += 1
        ends = [pos[i] == lengths[i] for i in range(n)]
        last = step == T - 1
        agent.batch_observe(
            [G.obs_of(EVAL, start + p) for p in pos], [0.] * n,
            [e and i % 2 == 0 for i, e in enumerate(ends)],
            [last or (e and i % 2 == 1) for i, e in enumerate(ends)])
        for i in range(n):
            if ends[i]:
                pos[i] = 0
    return out


def scripts(kinds, length):
    return itertools.product(kinds, repeat=length)


def joint(n_envs, kinds=(CONT, DONE, RESET, BOTH)):
    return list(itertools.product(kinds, repeat=n_envs))


FEW2 = [(CONT, CONT), (DONE, CONT), (CONT, RESET), (DONE, RESET),
        (BOTH, BOTH)]
ALL = (CONT, DONE, RESET, BOTH)
