"""C14: evaluating an agent leaves its training untouched."""
import random
import warnings

import numpy as np

from mc import agents as G
from mc import drive
from mc.core import Check
from mc.world import CONT, DONE, RESET, BOTH

warnings.filterwarnings('ignore')

chk = Check(
    'C14',
    rule='for every agent class (and recurrent variant), every script of '
         'episode ends up to the length bound is trained twice on the real '
         'agent, with and without evaluation interludes at every place the '
         'training loops allow; actions, everything learned and the replay '
         'contents must coincide',
    assumptions=['tiny networks with fixed parameters; noise is replaced by '
                 'fixed numbers and the replay generator state is restored '
                 'after each interlude, so any difference is due to the '
                 'interlude', 'running averages reported as statistics are '
                 'not compared'])

SINGLE = ([(n, r) for n in G.VALUE for r in (None, 'gru', 'lstm')]
          + [(n, r) for n in G.ACTOR for r in (None, 'n3')]
          + [('DQN', 'n3')]
          + [(n, r) for n in ('PPO', 'TRPO') for r in (None, 'gru', 'lstm',
                                                       'norm')]
          + [(n, r) for n in ('A3C', 'ACER', 'PCL', 'NSQ', 'REINFORCE')
             for r in (None, 'lstm')])
BATCH = [(n, r) for n, r in SINGLE if n in G.BATCH] + [('A2C', None)]


# keep training and evaluation episodes apart, even inside an episode
MID = set(G.VALUE) | {'PPO', 'TRPO'}

# explored one step deeper
HEAVY = [('DDPG', 'n3'), ('A3C', 'lstm'), ('A2C', None)]


def make(name, rec):
    kw = {}
    if rec == 'n3':
        # windows of three transitions stay open while evaluating
        kw['n'] = 3
        rec = None
    if rec == 'norm':
        from chainerrl.links import EmpiricalNormalization
        kw['obs_normalizer'] = EmpiricalNormalization(G.D, clip_threshold=5)
        rec = None
    if name in ('IQN', 'DoubleIQN'):
        kw['act_deterministically'] = False
    if name == 'TRPO':
        kw['conjugate_gradient_max_iter'] = 2
    return G.build(name, rec, **kw)


def snap(b):
    st = G.learned_state(b.agent)
    # agents built from a normalizer hold it as a link: included
    return st, G.buffer_contents(b.buffer)


def interlude(rec, b, kind, i, single_style):
    st = np.random.get_state(), random.getstate()
    n_calls = len(b.explorer.calls) if getattr(b, 'explorer', None) else 0
    before = snap(b)
    if kind == 'single':
        one = drive.eval_single(b.agent)
        two = drive.eval_single(b.agent)
        rec.expect(one == two, lambda: 'two evaluation episodes with the same '
                   'observations acted {} then {}'.format(one, two))
        drive.eval_single(b.agent, 1, 4)
    else:
        one = drive.eval_batch(b.agent)
        two = drive.eval_batch(b.agent)
        rec.expect(one == two, lambda: 'two identical batch evaluations acted '
                   '{} then {}'.format(one, two))
        flat = {}
        for env in one:
            for p, a in env:
                rec.expect(G.same(flat.setdefault(p, a), a),
                           lambda: 'batch evaluation: same history, different '
                           'actions: {}'.format(one))
        if b.name != 'A2C':
            # single-style evaluation starts from a fresh episode
            b.agent.stop_episode()
            seq = drive.eval_single(b.agent)
            for p, a in flat.items():
                rec.close(_arr(a), _arr(seq[p]),
                          'batch evaluation acts differently from single '
                          'evaluation at step {}'.format(p))
    after = snap(b)
    d = G.diff(before, after)
    rec.expect(d is None, lambda: 'evaluation changed the agent at {}'.format(
        d))
    n2 = len(b.explorer.calls) if getattr(b, 'explorer', None) else 0
    rec.expect(n2 == n_calls, 'evaluation used the explorer')
    np.random.set_state(st[0])
    random.setstate(st[1])


def _arr(a):
    return np.asarray(a[1] if isinstance(a, tuple) else a, dtype=float)


def train(rec, name, r, script, batch, kind, where, n_envs=2, mid=False):
    np.random.seed(chk.seed)
    random.seed(chk.seed)
    with G.noise():
        b = make(name, r)

        def hook(i):
            if kind is not None and (where is None or where == i):
                interlude(rec, b, kind, i, not batch)
        if batch:
            tr = drive.run_batch(b.agent, script, n_envs, hook)
        else:
            hook(-1)
            tr = drive.run_single(b.agent, script, hook,
                                  hook_mid=hook if mid else None)
    return tr.actions, snap(b)


def compare(rec, name, r, script, batch, kind, where, base, mid=False):
    got = train(rec, name, r, script, batch, kind, where, mid=mid)
    rec.expect(got[0] == base[0], lambda: '{} {} script {}: training actions '
               'with {} interludes at {}: {} without: {}'.format(
                   name, r, script, kind, where, got[0], base[0]))
    d = G.diff(base[1], got[1])
    rec.expect(d is None, lambda: '{} {} script {}: {} interludes at {} '
               'changed {}'.format(name, r, script, kind, where, d))
    rec.trace()
    rec.trans(len(script))
    rec.state(name, r, script, kind, where)


def gen_single(tier):
    for name, r in SINGLE:
        for first in drive.ALL:
            yield [name, r, first,
                   (4 if (name, r) in HEAVY else 3) + (tier == 'thorough')]


@chk.part('single', gen_single,
          bound='one environment, scripts of length 4 for some classes and 3 '
                'for the others (one more in the thorough tier) over '
                '{continue, done, reset, both} with at least one end')
def single(rec, case):
    name, r, first, length = case
    for tail in drive.scripts((CONT, DONE, RESET), length - 1):
        script = (first,) + tail
        if not any(script):
            continue
        base = train(rec, name, r, script, False, None, None)
        compare(rec, name, r, script, False, 'single', None, base)
        if name in MID:
            compare(rec, name, r, script, False, 'single', None, base,
                    mid=True)
        if name in G.BATCH:
            compare(rec, name, r, script, False, 'batch', None, base)


def gen_batch(tier):
    deep = tier == 'thorough'
    for name, r in BATCH:
        light = (name, r) not in HEAVY
        for first in (drive.joint(2, (CONT, DONE, RESET)) if deep
                      else drive.FEW2):
            yield [name, r, list(first), deep, 1 if light else 2]


@chk.part('batch', gen_batch,
          bound='two environments, scripts of length 3 (2 for some classes) over 5 joint outcomes '
                '(thorough: all 9), interludes after every step (thorough: '
                'also after each single step)')
def batch(rec, case):
    name, r, first, deep, more = case
    joint = drive.joint(2, (CONT, DONE, RESET)) if deep else drive.FEW2
    for tail in drive.scripts(joint, more):
        script = (tuple(first),) + tail
        base = train(rec, name, r, script, True, None, None)
        kinds = ['batch'] + (['single'] if name != 'A2C' else [])
        for kind in kinds:
            for where in ([None] + ([0, 1] if deep else [])):
                compare(rec, name, r, script, True, kind, where, base)


if __name__ == '__main__':
    raise SystemExit(chk.main())
