"""C23: a saved agent can be loaded and training goes on as if it had not
been interrupted."""
import copy
import os
import random
import warnings

import chainer
import numpy as np

from mc import agents as G
from mc import drive
from mc.core import Check, Tmp
from mc.world import KIND, CONT, DONE, RESET

warnings.filterwarnings('ignore')

chk = Check(
    'C23',
    rule='for every agent class, variant and optimizer, every script of '
         'episode ends up to a length is trained on the real agent, which is '
         'saved at every point; a different agent object loads each of the '
         'saved states, is compared with the original and continues along the '
         'rest of the script, next to an agent that was never saved',
    assumptions=['tiny networks; noise is replaced by fixed numbers and '
                 'generator states, step counters and replay contents, which '
                 'are documented to be saved apart from the agent, are '
                 'carried over by the harness'])

CONFIGS = (
    [(n, r, 'adam') for n in G.VALUE for r in (None,)]
    + [(n, 'lstm', 'adam') for n in ('DQN', 'DoubleDQN', 'IQN', 'DPP')]
    + [(n, None, o) for n in G.ACTOR for o in ('sgd', 'adam')]
    + [('SAC', 'temperature', 'adam'), ('TD3', 'delay', 'adam'),
       ('DQN', 'noisy', 'adam'), ('DQN', None, 'rms'),
       ('DQN', 'soft', 'sgd')]
    + [(n, r, o) for n in ('PPO', 'TRPO')
       for r, o in ((None, 'adam'), ('gru', 'adam'), ('norm', 'adam'),
                    ('norm', 'sgd'))]
    + [('A2C', None, 'adam'), ('A2C', None, 'rms')]
    + [(n, r, o) for n in ('A3C', 'ACER', 'PCL', 'NSQ')
       for r, o in ((None, 'rms'), ('lstm', 'adam'))]
    + [('REINFORCE', None, 'adam'), ('REINFORCE', 'lstm', 'sgd')])

# the batch interface, too
BATCH_TOO = ['DQN', 'CategoricalDQN', 'DDPG', 'TD3', 'SAC', 'PPO', 'TRPO',
             'A2C']


def optimizer(kind):
    if kind == 'sgd':
        return G.sgd
    if kind == 'adam':
        return G.adam
    from chainerrl.optimizers import rmsprop_async

    def rms(link, lr=0.02):
        o = rmsprop_async.RMSpropAsync(lr=lr, eps=1e-1, alpha=0.9)
        o.setup(link)
        return o
    return rms


def make(name, rec, opt, seed=0):
    kw = {}
    variant = rec
    if rec in ('norm', 'temperature', 'delay', 'noisy', 'soft'):
        rec = None
    if variant == 'norm':
        from chainerrl.links import EmpiricalNormalization
        kw['obs_normalizer'] = EmpiricalNormalization(G.D, clip_threshold=5)
    if variant == 'temperature':
        kw['entropy_target'] = -0.5
    if variant == 'delay':
        kw['policy_update_delay'] = 3
    if variant == 'soft':
        kw.update(target_update_method='soft', soft_update_tau=0.3,
                  target_update_interval=1)
    if name in ('TRPO',):
        kw['conjugate_gradient_max_iter'] = 2
    if name in ('IQN', 'DoubleIQN'):
        kw['act_deterministically'] = True
    if name == 'PPO':
        kw['act_deterministically'] = True
    if name == 'REINFORCE':
        kw.update(batchsize=1, act_deterministically=True)
    b = G.build(name, rec, opt=optimizer(opt), seed=seed, **kw)
    if variant == 'noisy':
        from chainerrl import links
        q = G.fill(G.value_model(name), seed)
        links.to_factorized_noisy(q)
        G.fill(q, seed)
        b.agent = type(b.agent)(
            q, optimizer(opt)(q), b.buffer, gamma=0.9, explorer=b.explorer,
            replay_start_size=2, minibatch_size=2, update_interval=1,
            target_update_interval=3, phi=G.double)
    b.opt = opt
    return b


class Driver(object):
    """The environment side, which can be handed over to another agent."""

    def __init__(self, n=None):
        self.n = n              # number of environments, None: single style
        m = n or 1
        self.k = [1] * m
        self.i = 0
        self.obs = [G.obs_of(e, 0) for e in range(m)]
        self.r = 0
        self.actions = []

    def step(self, agent, kinds):
        m = self.n or 1
        if self.n is None:
            acts = [agent.act_and_train(self.obs[0], self.r)]
        else:
            acts = list(agent.batch_act_and_train(list(self.obs)))
        self.actions.append([drive.act_key(a) for a in acts])
        obs2 = []
        for e in range(m):
            obs2.append(G.obs_of(e, self.k[e]))
            self.k[e] += 1
        rs = [drive.reward_of(e, self.i) for e in range(m)]
        ends = [KIND[k] for k in kinds]
        self.i += 1
        if self.n is None:
            done, reset = ends[0]
            self.obs, self.r = obs2, rs[0]
            if done or reset:
                agent.stop_episode_and_train(self.obs[0], self.r, done)
                self.r = 0
        else:
            agent.batch_observe_and_train(
                list(obs2), rs, [d for d, _ in ends], [s for _, s in ends])
            self.obs = obs2
        for e in range(m):
            if ends[e][0] or ends[e][1]:
                self.obs[e] = G.obs_of(e, self.k[e])
                self.k[e] += 1
        return all(d or s for d, s in ends)


def boundary(b, ended):
    """Is there nothing pending in the agent besides what is saved?  In
    the middle of episodes there is; on-policy agents collect a batch."""
    a = b.agent
    if b.name == 'A2C':
        return False
    if not ended:
        return False
    if b.name in ('PPO', 'TRPO'):
        return not a.memory and not a.last_episode
    return True


def rng_state():
    return np.random.get_state(), random.getstate()


def set_rng(st):
    np.random.set_state(st[0])
    random.setstate(st[1])


def carry_over(b, b2):
    """What is documented to be saved apart from the agent."""
    if b.buffer is not None:
        b2.buffer = copy.deepcopy(b.buffer)
        b2.agent.replay_buffer = b2.buffer
        if hasattr(b2.agent, 'replay_updater'):
            b2.agent.replay_updater.replay_buffer = b2.buffer
    if hasattr(b.agent, 't'):
        b2.agent.t = b.agent.t
    if b.name == 'NSQ':
        b2.agent.t_global.value = b.agent.t_global.value
    if getattr(b, 'explorer', None) is not None:
        b2.explorer.calls = list(b.explorer.calls)


SKIP = {'ACER': ('shared_average_model',)}


def state_of(b, agent=None):
    st = G.learned_state(agent or b.agent)
    for k in SKIP.get(b.name, ()):
        st.pop(k, None)
    return st


def saved_state(b):
    """All links and optimizers, except for the step counter."""
    st = state_of(b)
    st.pop('t', None)
    for k, v in st.items():
        if isinstance(getattr(b.agent, k), chainer.Optimizer):
            # not yet initialized: same as initialized with zeros
            for n in list(v):
                if '@' in n and (v[n] is None or v['t'] == 0
                                 and not np.any(v[n])):
                    del v[n]
                elif n.endswith('@@t') and v[n] == 0:
                    del v[n]
    return st


def acts_of(b):
    out = [drive.act_key(b.agent.act(G.obs_of(5, k))) for k in range(3)] \
        if b.name != 'A2C' else [
            drive.act_key(x) for x in b.agent.batch_act(
                [G.obs_of(5, k) for k in range(3)])]
    if b.name != 'A2C':
        b.agent.stop_episode()
    return out


def check_loaded(rec, b, b2, what):
    d = G.diff(saved_state(b), saved_state(b2))
    rec.expect(d is None, lambda: what() + ': loaded agent differs at '
               '{}'.format(d))
    if b.name == 'ACER':
        now = G.link_state(b2.agent.shared_average_model)
        ok = [G.link_state(b.agent.shared_average_model),
              G.link_state(b.agent.model)]
        rec.expect(any(G.same(now, o) for o in ok), lambda: what() +
                   ': average model is neither the saved one nor the model')


def used_agent(cfg):
    """An agent with another initialization that was trained a bit, so that
    all of its state differs."""
    b = make(*cfg, seed=7)
    n = 2 if cfg[0] == 'A2C' else None
    d = Driver(n)
    for k in (CONT, CONT, DONE, CONT, CONT, CONT, DONE):
        d.step(b.agent, [k] * (n or 1))
    return b


def updated(b):
    """Did every optimizer do a step (otherwise chainer cannot overwrite the
    states of a used optimizer)?"""
    return all(o.t > 0 for o in vars(b.agent).values()
               if isinstance(o, chainer.Optimizer))


def gen(tier):
    deep = tier == 'thorough'
    for cfg in CONFIGS:
        styles = [None] if cfg[0] != 'A2C' else []
        if cfg[0] in BATCH_TOO and cfg[1] in (None, 'norm'):
            styles.append(2)
        for n in styles:
            yield [list(cfg), n, 4 if deep else 3]


@chk.part('save and load', gen, timeout=900,
          bound='two steps followed by all scripts of 3 (thorough 4) steps '
          'over {continue, done, reset} for the first environment, saved '
          'after every step but the first; continuation from every point without pending experience')
def saveload(rec, case):
    cfg, n, length = case
    cfg = tuple(cfg)
    with G.noise():
        for script in drive.scripts((CONT, DONE, RESET), length):
            one(rec, cfg, n, (CONT, DONE) + script)


def joint(script, i, n):
    # the second environment ends together with the first one, or not
    k = script[i]
    if n is None:
        return [k]
    return [k, {CONT: CONT, DONE: RESET, RESET: CONT}[k]]


def one(rec, cfg, n, script):
    def what():
        return '{} {} script {}'.format(cfg, n or 'single', script)
    if cfg[0] == 'A2C':
        script = [DONE if k == RESET else k for k in script]
    np.random.seed(chk.seed)
    random.seed(chk.seed)
    base = make(*cfg)
    d = Driver(n)
    for i in range(len(script)):
        d.step(base.agent, joint(script, i, n))
    base_end, base_actions = state_of(base), d.actions

    np.random.seed(chk.seed)
    random.seed(chk.seed)
    b = make(*cfg)
    d = Driver(n)
    todo = []
    with Tmp() as tmp:
        for i in range(len(script)):
            ended = d.step(b.agent, joint(script, i, n))
            if i < 1:
                continue
            path = os.path.join(tmp, 'save{}'.format(i), 'agent')
            b.agent.save(path)
            rng = rng_state()
            at_end = boundary(b, ended)
            # a fresh object
            b2 = make(*cfg, seed=3)
            b2.agent.load(path)
            check_loaded(rec, b, b2, what)
            if ended:
                x, y = acts_of(b), acts_of(b2)
                rec.expect(G.same(x, y), lambda: what() + ': acts {} but {} '
                           'after loading'.format(x, y))
                set_rng(rng)
            if at_end and i + 1 < len(script):
                carry_over(b, b2)
                d2 = copy.deepcopy(d)
                todo.append((i, b2, d2, rng))
            # an object in use, in the last of the points
            if i == len(script) - 1 and updated(b):
                b3 = used_agent(cfg)
                b3.agent.load(path)
                check_loaded(rec, b, b3, lambda: what() + ' (into a used '
                             'agent)')
                rec.outcome('used')
            set_rng(rng)
            rec.trans()
    diff = G.diff(base_end, state_of(b))
    rec.expect(diff is None and G.same(base_actions, d.actions), lambda:
               what() + ': saving changed the agent at {}'.format(diff))
    for i, b2, d2, rng in todo:
        set_rng(rng)
        for j in range(i + 1, len(script)):
            d2.step(b2.agent, joint(script, j, n))
        rec.expect(G.same(base_actions, d2.actions), lambda: what() +
                   ': resumed after step {} acts {} instead of {}'.format(
                       i, d2.actions, base_actions))
        if cfg[0] != 'ACER' or G.same(
                G.link_state(b2.agent.shared_average_model),
                G.link_state(b.agent.shared_average_model)):
            diff = G.diff(base_end, state_of(b2))
            rec.expect(diff is None, lambda: what() + ': resumed after step '
                       '{} learned differently: {}'.format(i, diff))
        rec.outcome('resumed')
    rec.trace()
    rec.state(cfg, n, script)


# ------------------------------------------- on-policy step offsets

OFF = [('A3C', None), ('A3C', 'lstm'), ('ACER', None), ('PCL', None),
       ('NSQ', None), ('REINFORCE', None), ('PPO', None), ('TRPO', None),
       ('A2C', None)]


class Env(object):
    """Environment that follows a script of episode ends."""
    action_space = observation_space = spec = None

    def __init__(self, script, e=0):
        self.script, self.e = script, e
        self.k = 0
        self.i = 0

    def reset(self):
        self.k += 1
        return G.obs_of(self.e, self.k)

    def step(self, a):
        self.k += 1
        done, reset = KIND[self.script[self.i]]
        self.i += 1
        return (G.obs_of(self.e, self.k), drive.reward_of(self.e, self.i),
                done, {'needs_reset': True} if reset else {})

    def close(self):
        pass


def gen_off(tier):
    L = 6 if tier == 'thorough' else 4
    for name, r in OFF:
        for first in (CONT, DONE, RESET):
            yield [name, r, first, L]


@chk.part('step offset', gen_off, bound='all scripts of 4 (thorough 6) steps '
          'starting from offsets 0 to 4, in one or two calls of the training '
          'loop')
def offsets(rec, case):
    from chainerrl import experiments, envs
    name, r, first, L = case
    kinds = (CONT, DONE) if name == 'A2C' else (CONT, DONE, RESET)
    if first not in kinds:
        return

    def run(script, calls):
        np.random.seed(chk.seed)
        random.seed(chk.seed)
        b = make(name, r, 'sgd')
        with Tmp() as tmp:
            pos = 0
            for offset, steps in calls:
                sub = list(script[pos:pos + steps]) + [CONT]
                pos += steps
                if name == 'A2C':
                    env = envs.SerialVectorEnv([Env(sub, 0), Env(sub, 1)])
                    experiments.train_agent_batch(
                        b.agent, env, offset + 2 * steps, tmp,
                        step_offset=offset)
                else:
                    experiments.train_agent(
                        b.agent, Env(sub), offset + steps, tmp,
                        step_offset=offset)
        st = state_of(b)
        st.pop('t', None)
        return st

    with G.noise():
        for tail in drive.scripts(kinds, L - 1):
            script = (first,) + tuple(tail)
            base = run(script, [(0, L)])
            for offset in range(1, 5):
                got = run(script, [(offset, L)])
                d = G.diff(base, got)
                rec.expect(d is None, lambda: '{} script {}: from offset {} '
                           'learned differently: {}'.format(
                               case, script, offset, d))
            if name != 'A2C':
                two = run(script, [(0, 2), (0, L - 2)])
                for o1, o2 in ((0, 2), (0, 1), (3, 0), (2, 4)):
                    got = run(script, [(o1, 2), (o2, L - 2)])
                    d = G.diff(two, got)
                    rec.expect(d is None, lambda: '{} script {}: two calls '
                               'from offsets {} learned differently: {}'
                               .format(case, script, (o1, o2), d))
            rec.trace()
            rec.trans(L)
            rec.state(name, r, script)


# ------------------------------------------------- the mixin by itself

def gen_tree(tier):
    for shape in range(4):
        yield [shape]


@chk.part('attribute trees', gen_tree, bound='trees of attributes of depth '
          'up to 3 with missing attributes at every position')
def tree(rec, case):
    from chainerrl.agent import AttributeSavingMixin

    class Node(AttributeSavingMixin):
        saved_attributes = ('a', 'b', 'opt')

        def __init__(self, a, b, opt):
            self.a, self.b, self.opt = a, b, opt

    def link(v):
        ln = chainer.Link()
        with ln.init_scope():
            ln.p = chainer.Parameter(np.full((2,), v, 'f'))
        return ln

    shape, = case
    counter = [0]

    def build(depth, mask):
        counter[0] += 1
        base = counter[0]
        a = link(100 * mask[0] + base)
        b = None if (shape & 1 and depth == 1) else link(-base)
        if depth:
            child = build(depth - 1, mask)
            if shape & 2:
                a = child
            else:
                b = child
        first = a if isinstance(a, chainer.Link) else b
        opt = G.adam(first) if isinstance(first, chainer.Link) else None
        if opt is not None:
            for _ in range(base):
                first.p.grad = np.ones(2, 'f')
                opt.update()
        return Node(a, b, opt)

    def values(n):
        out = []
        for k in ('a', 'b', 'opt'):
            v = getattr(n, k)
            if v is None:
                out.append(None)
            elif isinstance(v, Node):
                out.append(values(v))
            elif isinstance(v, chainer.Optimizer):
                out.append(G.opt_state(v))
            else:
                out.append(v.p.array.copy())
        return out
    for depth in (0, 1, 2):
        counter[0] = 0
        n = build(depth, (0,))
        counter[0] = 3
        m = build(depth, (1,))
        rec.expect(not G.same(values(n), values(m)), 'harness')
        before = values(n)
        with Tmp() as tmp:
            n.save(os.path.join(tmp, 'x'))
            rec.expect(G.same(before, values(n)), 'saving changed the object')
            m.load(os.path.join(tmp, 'x'))
        d = G.diff(before, values(m))
        rec.expect(d is None, lambda: 'shape {} depth {}: {}'.format(
            shape, depth, d))
        rec.trace()
        rec.state(shape, depth)


if __name__ == '__main__':
    raise SystemExit(chk.main())
