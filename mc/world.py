"""Scripted environments and recording agents used to close the loops."""
import numpy as np


class Fault(Exception):
    """Injected failure."""


CONT, DONE, RESET, BOTH = 0, 1, 2, 3
KIND = {CONT: (False, False), DONE: (True, False), RESET: (False, True),
        BOTH: (True, True)}


class ScriptEnv(object):
    """gym-like environment whose k-th step answers script[k]; observations
    and rewards are distinct for every call."""

    action_space = None
    observation_space = None

    def __init__(self, script, log, name=0, default=CONT, faults=None,
                 reward=None):
        self.script = script
        self.log = log
        self.name = name
        self.default = default
        self.k = 0
        self.n_reset = 0
        self.faults = faults
        self.closed = 0
        self.reward = reward
        self.live = False

    def _obs(self, tag):
        return ('o', self.name, tag)

    def reset(self, **kw):
        if self.faults is not None:
            self.faults.point('env.reset')
        obs = self._obs(('r', self.n_reset))
        self.n_reset += 1
        self.log.append(('reset', self.name, obs))
        self.live = True
        return obs

    def step(self, action):
        if self.faults is not None:
            self.faults.point('env.step')
        kind = self.script[self.k] if self.k < len(self.script) \
            else self.default
        done, nr = KIND[kind]
        r = self.reward(self.k) if self.reward else 1.0 + self.k
        obs = self._obs(self.k)
        self.log.append(('step', self.name, action, obs, r, done, nr))
        self.k += 1
        # both ways of not needing a reset occur
        info = {'needs_reset': True} if nr else (
            {} if self.k % 2 else {'needs_reset': False})
        return obs, r, done, info

    def close(self):
        self.closed += 1
        self.log.append(('close', self.name))


class Faults(object):
    """Raises `exc` at the k-th fault point (0-based); None never."""

    def __init__(self, k=None, exc=Fault):
        self.k = k
        self.exc = exc
        self.n = 0
        self.names = []
        self.fired = None

    def point(self, name):
        i = self.n
        self.n += 1
        self.names.append(name)
        if i == self.k:
            self.fired = name
            raise self.exc('injected at {} #{}'.format(name, i))


class LogAgent(object):
    """Records every call; actions are distinct."""

    def __init__(self, log, faults=None, stats=(), with_t=True):
        self.log = log
        self.faults = faults
        self.n = 0
        self.n_eval = 0
        self.saves = []
        self.stats = list(stats)
        self.version = 0
        if with_t:
            self.t = -7
        self.shared_attributes = ()

    def _p(self, name):
        if self.faults is not None:
            self.faults.point(name)

    def act_and_train(self, obs, reward):
        self._p('agent.act_and_train')
        self.log.append(('act', obs, reward))
        a = ('a', self.n)
        self.n += 1
        self.version += 1
        return a

    def stop_episode_and_train(self, state, reward, done=False):
        self._p('agent.stop_episode_and_train')
        self.log.append(('stop_train', state, reward, done))
        self.version += 1

    def act(self, obs):
        self._p('agent.act')
        self.log.append(('eval_act', obs))
        a = ('e', self.n_eval)
        self.n_eval += 1
        return a

    def stop_episode(self):
        self._p('agent.stop_episode')
        self.log.append(('eval_stop',))

    def batch_act_and_train(self, obss):
        self._p('agent.batch_act_and_train')
        self.log.append(('bact', list(obss)))
        a = [('a', self.n, i) for i in range(len(obss))]
        self.n += 1
        self.version += 1
        return a

    def batch_observe_and_train(self, obss, rs, dones, resets):
        self._p('agent.batch_observe_and_train')
        self.log.append(('bobs', list(obss), [float(r) for r in rs],
                         [bool(d) for d in dones],
                         [bool(r) for r in resets]))
        self.version += 1

    def batch_act(self, obss):
        self._p('agent.batch_act')
        self.log.append(('eval_bact', list(obss)))
        a = [('e', self.n_eval, i) for i in range(len(obss))]
        self.n_eval += 1
        return a

    def batch_observe(self, obss, rs, dones, resets):
        self._p('agent.batch_observe')
        self.log.append(('eval_bobs', list(obss), [float(r) for r in rs],
                         [bool(d) for d in dones],
                         [bool(r) for r in resets]))

    def get_statistics(self):
        return list(self.stats)

    def save(self, dirname):
        self.saves.append((dirname, self.version))
        self.log.append(('save', dirname.rsplit('/', 1)[-1]))

    def load(self, dirname):
        pass


class ScriptVectorEnv(object):
    """Vector environment made of ScriptEnvs that share one log; resets
    exactly the sub-environments whose mask entry is False."""

    def __init__(self, envs, log, faults=None):
        self.envs = envs
        self.num_envs = len(envs)
        self.last = [None] * len(envs)
        self.log = log
        self.faults = faults
        self.closed = 0

    action_space = None
    observation_space = None

    def reset(self, mask=None):
        if self.faults is not None:
            self.faults.point('env.reset')
        if mask is None:
            mask = np.zeros(self.num_envs)
        self.log.append(('vreset', [bool(m) for m in mask]))
        for i, m in enumerate(mask):
            if not m:
                self.last[i] = self.envs[i].reset()
        return list(self.last)

    def step(self, actions):
        if self.faults is not None:
            self.faults.point('env.step')
        res = [e.step(a) for e, a in zip(self.envs, actions)]
        self.last, rs, dones, infos = zip(*res)
        self.last = list(self.last)
        return tuple(self.last), tuple(rs), tuple(dones), tuple(infos)

    def close(self):
        self.closed += 1
        self.log.append(('vclose',))

    def seed(self, *a):
        pass


def make_vector_env_class():
    """ScriptVectorEnv as a chainerrl VectorEnv (for isinstance checks)."""
    from chainerrl.env import VectorEnv

    class _V(ScriptVectorEnv, VectorEnv):
        pass
    return _V
