"""C24: copied and shared parameters hold exactly the source's values."""
import copy
import importlib
import itertools
import multiprocessing as mp
import os
import random
import signal
import time
import warnings

import chainer
import chainer.functions as F
import chainer.links as L
import numpy as np

import chainerrl
from chainerrl import links as RL
from chainerrl.misc import async_
from chainerrl.misc import copy_param as CP
from mc import agents as G
from mc.core import Check

warnings.filterwarnings('ignore')
TAA = importlib.import_module('chainerrl.experiments.train_agent_async')

chk = Check(
    'C24',
    rule='copying, soft copying, gradient copying and sharing are run over a '
         'zoo of links, data types, coefficients and every pattern of absent '
         'gradients; every interleaving of updates, loads and statistics '
         'updates of up to three copies of a shared model and optimizer, of '
         'rollout steps of two asynchronous agents and of updates by forked '
         'processes is compared with one model that is not shared; run_async '
         'is run for every combination of fates of its processes',
    assumptions=['an optimizer update is atomic: torn concurrent writes of '
                 'lock-free updates are not explored',
                 'one process holds all copies except in the parts that fork'])


# ----------------------------------------------------------------- the zoo

class Mixed(chainer.Chain):
    """Nested children, a scalar parameter, statistics and a scalar
    persistent."""

    def __init__(self):
        super().__init__()
        with self.init_scope():
            self.l = L.Linear(2, 2)
            self.inner = chainer.ChainList(
                L.BatchNormalization(2), L.Linear(2, 1, nobias=True))
            self.s = chainer.Parameter(np.asarray(0.5, dtype=np.float32))
        self.add_persistent('k', 3)
        self.add_persistent('arr', np.arange(3, dtype=np.float64))


class Typed(chainer.Chain):
    def __init__(self, dtype):
        super().__init__()
        with self.init_scope():
            self.a = chainer.Parameter(np.zeros((2, 3), dtype=dtype))
            self.b = chainer.Parameter(np.zeros((3,), dtype=dtype))


ZOO = {
    'linear': lambda: L.Linear(2, 3),
    'nobias': lambda: L.Linear(2, 3, nobias=True),
    'bn': lambda: L.BatchNormalization(3),
    'renorm': lambda: L.BatchRenormalization(3),
    'mixed': Mixed,
    'mlp': lambda: RL.MLP(2, 1, (3,)),
    'mlpbn': lambda: RL.MLPBN(2, 2, (3,), normalize_input=True,
                              normalize_output=True),
    'noisy': lambda: RL.FactorizedNoisyLinear(L.Linear(2, 2)),
    'seq': lambda: RL.Sequence(L.Linear(2, 2), F.tanh, L.Linear(2, 1)),
    'lstm': lambda: RL.StatelessRecurrentSequential(
        L.NStepLSTM(1, 2, 2, 0), L.Linear(2, 2)),
    'f64': lambda: Typed(np.float64),
    'f16': lambda: Typed(np.float16),
    'f32': lambda: Typed(np.float32),
}


def bns(link):
    return [(n, l) for n, l in sorted(link.namedlinks(), key=lambda x: x[0])
            if isinstance(l, L.BatchNormalization)]


def put(link, seed):
    rs = np.random.RandomState(seed)
    for _, p in sorted(link.namedparams()):
        p.array[...] = rs.uniform(-2, 2, size=p.shape)
    for _, l in bns(link):
        l.avg_mean[...] = rs.uniform(-1, 1, size=l.avg_mean.shape)
        l.avg_var[...] = rs.uniform(0.5, 2, size=l.avg_var.shape)
    return link


def params(link):
    return {n: p.array.copy() for n, p in link.namedparams()}


def stats(link):
    return {n: (l.avg_mean.copy(), l.avg_var.copy()) for n, l in bns(link)}


def grads(link):
    return {n: None if p.grad is None else p.grad.copy()
            for n, p in link.namedparams()}


def persist(link):
    return {n: np.array(v) for n, v in chainerrl.misc.namedpersistent(link)}


def everything(link):
    return params(link), persist(link)


def eqd(rec, got, want, msg):
    rec.eq(sorted(got), sorted(want), msg + ' names')
    for k in want:
        g, w = got[k], want[k]
        if w is None or g is None:
            rec.expect(g is None and w is None, '{}: {} is {} instead of {}'
                       .format(msg, k, g, w))
            continue
        if isinstance(w, tuple):
            for a, b in zip(g, w):
                rec.expect(np.array_equal(a, b), '{}: {} is {} instead of {}'
                           .format(msg, k, a, b))
            continue
        rec.expect(g.dtype == w.dtype and g.shape == w.shape
                   and np.array_equal(g, w, equal_nan=g.dtype.kind == 'f'),
                   lambda: '{}: {} is {} instead of {}'.format(msg, k, g, w))


def near(rec, got, want, msg, tol=1e-6):
    rec.eq(sorted(got), sorted(want), msg + ' names')
    for k in want:
        g, w = got[k], want[k]
        if not isinstance(w, tuple):
            g, w = (g,), (w,)
        for a, b in zip(g, w):
            t = tol if np.asarray(a).dtype != np.float16 else 5e-3
            rec.expect(np.shape(a) == np.shape(b) and np.allclose(
                a, b, rtol=t, atol=t),
                lambda: '{}: {} is {} instead of {}'.format(msg, k, a, b))


def aliased(a, b):
    ap = {n: p.array for n, p in a.namedparams()}
    bp = {n: p.array for n, p in b.namedparams()}
    return [n for n in ap if n in bp and np.shares_memory(ap[n], bp[n])]


# --------------------------------------------------------------- copy_param

TAUS = [0.0, 1e-3, 0.25, 0.5, 0.99, 1.0]


def copies(tier):
    for kind in ZOO:
        for via in ('direct', 'sync'):
            for pat in itertools.product((False, True), repeat=2):
                yield dict(kind=kind, how='hard', via=via, grads=pat)
            for tau in TAUS + ([0.01, 0.75] if tier == 'thorough' else []):
                for n in (1, 2):
                    yield dict(kind=kind, how='soft', via=via, tau=tau, n=n,
                               grads=(True, False))


@chk.part('copies', copies, timeout=60,
          bound='12 links x hard or soft (6-8 coefficients) x 1-2 copies in '
                'a row x direct or synchronize_parameters x gradients present '
                'or absent on either side')
def copies_case(rec, c):
    src, dst = put(ZOO[c['kind']](), 1), put(ZOO[c['kind']](), 2)
    for link, g in ((src, c['grads'][0]), (dst, c['grads'][1])):
        if g:
            for n, p in link.namedparams():
                p.grad = np.full_like(p.array, 3)
        else:
            link.cleargrads()
    ids = {n: p.array for n, p in dst.namedparams()}
    p_src, s_src = params(src), stats(src)
    want_p, want_s = params(dst), stats(dst)
    gs, gd = grads(src), grads(dst)
    for _ in range(c.get('n', 1)):
        if c['how'] == 'hard':
            if c['via'] == 'sync':
                CP.synchronize_parameters(src=src, dst=dst, method='hard')
            else:
                CP.copy_param(target_link=dst, source_link=src)
            want_p, want_s = params(src), stats(src)
        else:
            tau = c['tau']
            if c['via'] == 'sync':
                CP.synchronize_parameters(src=src, dst=dst, method='soft',
                                          tau=tau)
            else:
                CP.soft_copy_param(target_link=dst, source_link=src, tau=tau)

            def mix(t, s):
                return ((1 - tau) * t.astype(np.float64)
                        + tau * s.astype(np.float64))
            want_p = {k: mix(v, p_src[k]) for k, v in want_p.items()}
            want_s = {k: tuple(mix(a, b) for a, b in zip(v, s_src[k]))
                      for k, v in want_s.items()}
        rec.trans()
    f = eqd if c['how'] == 'hard' else near
    f(rec, params(dst), want_p, 'parameters of the target')
    f(rec, stats(dst), want_s, 'statistics of the target')
    if c['how'] == 'soft':
        for n, p in dst.namedparams():
            rec.eq(p.array.dtype, p_src[n].dtype, 'dtype')
    eqd(rec, params(src), p_src, 'parameters of the source')
    eqd(rec, stats(src), s_src, 'statistics of the source')
    eqd(rec, grads(src), gs, 'gradients of the source')
    eqd(rec, grads(dst), gd, 'gradients of the target')
    rec.eq(aliased(src, dst), [], 'arrays shared by a copy')
    # a target whose arrays are shared with others keeps these arrays
    for n, p in dst.namedparams():
        rec.expect(np.shares_memory(p.array, ids[n]) or p.array.size == 0,
                   'the copy replaced the array of {}'.format(n))
    for n, p in src.namedparams():
        p.array[...] = 7
    for _, l in bns(src):
        l.avg_mean[...] = 9
    f(rec, params(dst), want_p, 'target after changing the source')
    f(rec, stats(dst), want_s, 'statistics after changing the source')
    rec.state(c['kind'], c['how'], c.get('tau'))
    rec.trace()
    rec.outcome(sorted(c.items()))


# ---------------------------------------------------------------- copy_grad

def gradcases(tier):
    kinds = ['linear', 'nobias', 'bn', 'f64', 'seq', 'f16']
    if tier == 'thorough':
        kinds += ['mixed', 'noisy']
    for kind in kinds:
        n = len(list(ZOO[kind]().namedparams()))
        for s in itertools.product((0, 1), repeat=n):
            for d in itertools.product((0, 1), repeat=n):
                yield dict(kind=kind, src=s, dst=d)


@chk.part('gradients', gradcases, timeout=60,
          bound='6-8 links x every pattern of present and absent gradients '
                'of source and target parameters')
def grad_case(rec, c):
    src, dst = put(ZOO[c['kind']](), 1), put(ZOO[c['kind']](), 2)
    rs = np.random.RandomState(0)
    for link, pat in ((src, c['src']), (dst, c['dst'])):
        link.cleargrads()
        for on, (n, p) in zip(pat, sorted(link.namedparams())):
            if on:
                p.grad = rs.uniform(-1, 1, p.shape).astype(p.dtype)
    gs, ps, pd = grads(src), params(src), params(dst)
    for _ in range(2):
        CP.copy_grad(target_link=dst, source_link=src)
        rec.trans()
        eqd(rec, grads(dst), gs, 'gradients of the target')
        eqd(rec, grads(src), gs, 'gradients of the source')
    eqd(rec, params(dst), pd, 'parameters of the target')
    eqd(rec, params(src), ps, 'parameters of the source')
    for n, p in src.namedparams():
        if p.grad is not None:
            p.grad[...] = 5
    eqd(rec, grads(dst), gs, 'target gradients after changing the source')
    rec.state(c['kind'], c['src'], c['dst'])
    rec.trace()
    rec.outcome(c['kind'], c['src'], c['dst'])


def uninit(tier):
    for how in ('hard', 'soft'):
        for deep in (False, True):
            yield dict(how=how, deep=deep)


@chk.part('uninitialized', uninit, timeout=60,
          bound='hard or soft copies into a target without determined shapes')
def uninit_case(rec, c):
    def make(n):
        l = L.Linear(n, 2)
        return chainer.ChainList(chainer.ChainList(l)) if c['deep'] else l
    src, dst = put(make(2), 1), make(None)
    before = params(src)
    try:
        if c['how'] == 'hard':
            CP.copy_param(dst, src)
        else:
            CP.soft_copy_param(dst, src, 0.5)
    except TypeError:
        pass
    else:
        rec.fail('a copy into an uninitialized target was accepted')
    eqd(rec, params(src), before, 'parameters of the source')
    rec.trans()
    rec.trace()
    rec.outcome(sorted(c.items()))


# ------------------------------------------------------------------ sharing

OPTS = {
    'sgd': lambda: chainer.optimizers.SGD(0.1),
    'momentum': lambda: chainer.optimizers.MomentumSGD(0.1, 0.9),
    'rmsprop': lambda: chainer.optimizers.RMSprop(0.1, 0.9),
    'rmspropasync': lambda: chainerrl.optimizers.rmsprop_async.RMSpropAsync(
        0.1, 0.9, 1e-2),
    'adagrad': lambda: chainer.optimizers.AdaGrad(0.1),
    'adam': lambda: chainer.optimizers.Adam(0.1),
}


def opt_states(opt):
    out = {}
    for n, p in opt.target.namedparams():
        for k, v in (p.update_rule.state or {}).items():
            out[n + ':' + k] = np.array(v)
    return out


def clock(opt):
    return (opt.t, {n: p.update_rule.t for n, p in opt.target.namedparams()})


def set_clock(opt, t):
    opt.t = t[0]
    for n, p in opt.target.namedparams():
        p.update_rule.t = t[1][n]


def give_grads(link, k):
    rs = np.random.RandomState(k)
    for _, p in sorted(link.namedparams()):
        p.grad = rs.uniform(-1, 1, p.shape).astype(p.dtype)


# u: optimizer update, c: copy from another link, b: statistics of a batch,
# w: write into a persistent value
def apply_op(op, link, opt, k):
    if op == 'u':
        give_grads(link, k)
        opt.update()
    elif op == 'c':
        CP.copy_param(link, put(copy.deepcopy(link), 50 + k))
    elif op == 's':
        CP.soft_copy_param(link, put(copy.deepcopy(link), 50 + k), 0.25)
    elif op == 'b':
        for n, l in bns(link):
            x = np.random.RandomState(k).uniform(
                -1, 1, size=(3,) + l.avg_mean.shape).astype(np.float32)
            l(x, finetune=k % 2 == 1)
    elif op == 'w':
        link.arr[...] = k


def sharecases(tier):
    deep = 5 if tier == 'thorough' else 4
    for kind in ('linear', 'f64', 'mixed', 'bn', 'lstm', 'noisy'):
        ops = 'uc' if kind != 'mixed' else 'ucbw'
        if kind == 'bn':
            ops = 'usb'
        for oname in OPTS:
            n_copies = 2
            depth = deep if len(ops) == 2 else deep - 1
            if kind in ('lstm', 'noisy'):
                depth = 3
            yield dict(kind=kind, opt=oname, copies=n_copies, ops=ops,
                       depth=depth, pre=0)
            yield dict(kind=kind, opt=oname, copies=n_copies, ops='u',
                       depth=4, pre=2)
        yield dict(kind=kind, opt='rmspropasync', copies=3, ops='u',
                   depth=4, pre=1)


@chk.part('sharing', sharecases, timeout=600,
          bound='6 links x 6 optimizers x 2-3 copies x every interleaving of '
                'updates, copies and statistics updates up to length 3-5, '
                'with 0-2 updates before sharing')
def share_case(rec, c):
    moves = list(itertools.product(range(c['copies']), c['ops']))
    for n in (c['depth'],):
        for seq in itertools.product(moves, repeat=n):
            if seq[0][0] > 1 and c['copies'] > 2:
                continue
            share_run(rec, c, seq)


def share_run(rec, c, seq):
    root = put(ZOO[c['kind']](), 1)
    opt = OPTS[c['opt']]()
    opt.setup(root)
    ref = put(ZOO[c['kind']](), 1)
    ropt = OPTS[c['opt']]()
    ropt.setup(ref)
    for k in range(c['pre']):
        for l, o in ((root, opt), (ref, ropt)):
            apply_op('u', l, o, 100 + k)
    for _, p in ref.namedparams():
        if p.update_rule.state is None:
            # the same initial states as a shared optimizer is given
            async_.ensure_initialized_update_rule(p)
    mem = async_.as_shared_objects((root, opt))
    eqd(rec, params(root), params(ref), 'parameters after extraction')
    eqd(rec, opt_states(opt), opt_states(ropt), 'states after extraction')
    agents = []
    for i in range(c['copies']):
        l = put(ZOO[c['kind']](), 10 + i)
        o = OPTS[c['opt']]()
        o.setup(l)
        got = async_.synchronize_to_shared_objects((l, o), mem)
        rec.expect(got[0] is l and got[1] is o, 'synchronize returned others')
        agents.append((l, o))
    clocks = [clock(o) for _, o in agents]
    marks = []
    for i, (l, o) in enumerate(agents):
        give_grads(l, 30 + i)
        marks.append(grads(l))
    check_all(rec, agents, ref, ropt, 'after sharing')
    for k, (i, op) in enumerate(seq):
        l, o = agents[i]
        apply_op(op, l, o, k)
        own = clock(ropt)
        set_clock(ropt, clocks[i])
        apply_op(op, ref, ropt, k)
        clocks[i] = clock(ropt)
        set_clock(ropt, own)
        rec.trans()
        check_all(rec, agents, ref, ropt, 'after {} of {}'.format(k, seq))
        rec.eq(clock(o), clocks[i], 'step counters of the optimizer')
        if op == 'u':
            marks[i] = grads(l)
        for (l2, _), m in zip(agents, marks):
            eqd(rec, grads(l2), m, 'gradients of each copy')
    # a deep copy continues on its own once its parameters are not shared
    l, o = agents[0]
    twin = copy.deepcopy(l)
    async_.assert_params_not_shared(l, twin)
    async_.make_params_not_shared(l)
    rec.eq(aliased(l, agents[1][0]), [], 'shared after make_params_not_shared')
    async_.assert_params_not_shared(l, agents[1][0])
    before = params(l)
    rec.eq(before.keys(), params(ref).keys(), 'names')
    eqd(rec, before, params(ref), 'parameters after unsharing')
    apply_op('u', *agents[1], 77)
    eqd(rec, params(l), before, 'unshared parameters after another update')
    if c['copies'] > 2:
        try:
            async_.assert_params_not_shared(agents[1][0], agents[2][0])
        except AssertionError:
            pass
        else:
            rec.fail('assert_params_not_shared accepts shared parameters')
    rec.state(c['kind'], c['opt'], seq)
    rec.trace()
    rec.outcome(c['kind'], c['opt'], seq)


def check_all(rec, agents, ref, ropt, where):
    want_p, want_q, want_s = params(ref), persist(ref), opt_states(ropt)
    for j, (l, o) in enumerate(agents):
        eqd(rec, params(l), want_p, 'copy {} {}'.format(j, where))
        eqd(rec, persist(l), want_q, 'persistents {} {}'.format(j, where))
        eqd(rec, opt_states(o), want_s, 'states {} {}'.format(j, where))


# ------------------------------------------------- asynchronous agents

def spy(cls, log, **kw):
    class Spy(cls):
        def update(self, lossfun=None, *args, **kwds):
            log.append((params(self.target), grads(self.target),
                        opt_states(self), clock(self)))
            return super().update(lossfun, *args, **kwds)
    return Spy(**kw)


AGENT_OPTS = {
    'sgd': (chainer.optimizers.SGD, dict(lr=0.1)),
    'rmspropasync': (chainerrl.optimizers.rmsprop_async.RMSpropAsync,
                     dict(lr=0.05, alpha=0.9, eps=1e-2)),
    'adam': (chainer.optimizers.Adam, dict(alpha=0.05)),
}

LOCAL = {'NSQ': ('q_function', 'shared_q_function')}


def agentcases(tier):
    # one of the agents starts
    n = 8 if tier == 'thorough' else 7
    for name in ('A3C', 'ACER', 'PCL', 'NSQ'):
        for oname in AGENT_OPTS:
            for head in itertools.product((0, 1), repeat=3):
                if head[0]:
                    continue
                yield dict(name=name, opt=oname, head=head, n=n)


@chk.part('agents', agentcases, timeout=600,
          bound='A3C, ACER, PCL, NSQ x 3 optimizers x every interleaving of '
                '7-8 steps of two agents sharing one model')
def agents_case(rec, c):
    for tail in itertools.product((0, 1), repeat=c['n'] - len(c['head'])):
        agents_run(rec, c, tuple(c['head']) + tail)


def agents_run(rec, c, order):
    name = c['name']
    cls, kw = AGENT_OPTS[c['opt']]
    local, shared = LOCAL.get(name, ('model', 'shared_model'))
    log = []

    def opt(link):
        o = spy(cls, log, **kw)
        o.setup(link)
        return o

    extra = {}
    if name == 'ACER':
        extra = dict(replay_start_size=100)
    if name == 'PCL':
        extra = dict(replay_start_size=100, train_async=True,
                     t_max=2)
    np.random.seed(0)
    random.seed(0)
    agents = [G.build(name, opt=opt, seed=3 * i, **extra).agent
              for i in range(2)]
    mem = TAA.extract_shared_objects_from_agent(agents[0])
    for a in agents:
        TAA.set_shared_objects(a, mem)
    # reference: an optimizer and a model nobody shares
    ref = copy.deepcopy(getattr(agents[0], shared))
    for _, p in ref.namedparams():
        p.array = p.array.copy()
        p.update_rule = None
    ropt = cls(**kw)
    ropt.setup(ref)
    for _, p in ref.namedparams():
        async_.ensure_initialized_update_rule(p)
    clocks = [clock(ropt), clock(ropt)]
    if name != 'NSQ':
        rec.eq([aliased(getattr(a, local), getattr(b, shared))
                for a in agents for b in agents], [[]] * 4,
               'local parameters shared')
    t = [0, 0]
    for i in order:
        a = agents[i]
        before = params(getattr(a, local))
        other = params(getattr(agents[1 - i], local))
        other_g = grads(getattr(agents[1 - i], local))
        del log[:]
        terminal = t[i] % 3 == 2
        a.process_idx = i
        if terminal:
            a.stop_episode_and_train(G.obs_of(i, t[i]), 1. - i, True)
        else:
            a.act_and_train(G.obs_of(i, t[i]), 0.5 + t[i] - i)
        t[i] += 1
        rec.trans()
        for p, g, s, ck in log:
            eqd(rec, p, params(ref), 'shared model before an update')
            eqd(rec, s, opt_states(ropt), 'optimizer before an update')
            for n, q in ref.namedparams():
                q.grad = g[n]
            set_clock(ropt, clocks[i])
            ropt.update()
            clocks[i] = clock(ropt)
            rec.note_add('updates of shared models')
        for j, b in enumerate(agents):
            eqd(rec, params(getattr(b, shared)), params(ref),
                'shared model of agent {} after a step of {}'.format(j, i))
            eqd(rec, opt_states(b.optimizer), opt_states(ropt),
                'optimizer of agent {}'.format(j))
        now = params(getattr(a, local))
        if log:
            eqd(rec, now, params(ref), 'local model after an own update')
            g_local = grads(getattr(a, local))
            eqd(rec, log[-1][1], g_local, 'gradient applied')
        else:
            eqd(rec, now, before, 'local model without an own update')
        eqd(rec, params(getattr(agents[1 - i], local)), other,
            'local model of the other agent')
        eqd(rec, grads(getattr(agents[1 - i], local)), other_g,
            'gradients of the other agent')
    rec.state(name, c['opt'], order)
    rec.trace()
    rec.outcome(name, c['opt'], order)


# ------------------------------------------------------------ real processes

def forkcases(tier):
    for kind, oname in [('linear', 'rmspropasync'), ('f64', 'momentum'),
                        ('mixed', 'adam')]:
        for order in sorted(set(itertools.permutations((0, 0, 1, 1)))):
            yield dict(kind=kind, opt=oname, order=order)
    if tier == 'thorough':
        for order in sorted(set(itertools.permutations((0, 0, 1, 1, 2)))):
            yield dict(kind='f64', opt='rmspropasync', order=order)


@chk.part('processes', forkcases, timeout=120,
          bound='3 links x every order of two updates by each of two forked '
                'processes of run_async (thorough: three processes)')
def fork_case(rec, c):
    order = c['order']
    n = max(order) + 1
    root = put(ZOO[c['kind']](), 1)
    opt = OPTS[c['opt']]()
    opt.setup(root)
    ref = put(ZOO[c['kind']](), 1)
    ropt = OPTS[c['opt']]()
    ropt.setup(ref)
    mem = async_.as_shared_objects((root, opt))
    turn = mp.Value('l', 0)

    def run(i):
        l = put(ZOO[c['kind']](), 10 + i)
        o = OPTS[c['opt']]()
        o.setup(l)
        async_.synchronize_to_shared_objects((l, o), mem)
        for k, who in enumerate(order):
            if who != i:
                continue
            end = time.time() + 60
            while turn.value < k:
                time.sleep(0.0005)
                assert time.time() < end
            apply_op('u', l, o, k)
            turn.value = k + 1
    async_.run_async(n, run)
    rec.eq(turn.value, len(order), 'updates that ran')
    clocks = [clock(ropt)] * n
    for k, i in enumerate(order):
        set_clock(ropt, clocks[i])
        apply_op('u', ref, ropt, k)
        clocks[i] = clock(ropt)
        rec.trans()
    eqd(rec, params(root), params(ref), 'parameters seen by the parent')
    eqd(rec, opt_states(opt), opt_states(ropt), 'states seen by the parent')
    rec.state(c['kind'], order)
    rec.trace()
    rec.outcome(c['kind'], order)


FATES = ['ok', 'raise', 'exit3', 'kill']


def asynccases(tier):
    for n in (0, 1, 2, 3):
        fates = FATES if n < 3 or tier == 'thorough' else FATES[::2] + ['kill']
        for f in itertools.product(fates, repeat=n):
            yield dict(fates=f)


@chk.part('run_async', asynccases, timeout=120,
          bound='0-3 processes x every combination of their fates (returns, '
                'raises, exits with a code, is killed)')
def async_case(rec, c):
    fates = c['fates']
    n = len(fates)
    q = mp.SimpleQueue()

    def run(i):
        q.put((i, os.getpid(), np.random.randint(2 ** 31), random.random(),
               os.environ.get('CHAINER_SEED')))
        f = fates[i]
        if f == 'raise':
            os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
            raise ValueError('of {}'.format(i))
        if f == 'exit3':
            os._exit(3)
        if f == 'kill':
            os.kill(os.getpid(), signal.SIGKILL)

    def once(seed):
        np.random.seed(seed)
        random.seed(seed)
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter('always')
            async_.run_async(n, run)
        got = []
        while not q.empty():
            got.append(q.get())
        rec.trans(n)
        rec.eq(sorted(g[0] for g in got), list(range(n)),
               'processes that ran')
        rec.eq(len(set(g[1] for g in got) | {os.getpid()}), n + 1,
               'number of processes')
        ws = [str(w.message) for w in ws
              if issubclass(w.category, async_.AbnormalExitWarning)]
        bad = [i for i, f in enumerate(fates) if f != 'ok']
        rec.eq(len(ws), len(bad), 'warnings {}'.format(ws))
        for i, w in zip(bad, ws):
            rec.expect('#{} '.format(i) in w, 'warning {}: {}'.format(i, w))
            pid = [g[1] for g in got if g[0] == i][0]
            rec.expect('pid={}'.format(pid) in w, 'pid in {}'.format(w))
            code = {'raise': '1', 'exit3': '3', 'kill': '9'}[fates[i]]
            rec.expect(w.endswith(' ' + code), 'code in {}'.format(w))
            rec.eq('signal' in w, fates[i] == 'kill', 'signal in {}'.format(w))
        return sorted((g[0],) + g[2:] for g in got)

    a, b, d = once(5), once(5), once(6)
    rec.eq(a, b, 'random numbers of the processes with the same seed')
    for col in (1, 2, 3):
        rec.eq(len(set(g[col] for g in a)), n,
               'distinct random streams of the processes: {}'.format(a))
        if n:
            rec.expect([g[col] for g in a] != [g[col] for g in d],
                       'random streams do not depend on the seed')
    rec.state(fates)
    rec.trace()
    rec.outcome(fates)


if __name__ == '__main__':
    raise SystemExit(chk.main())
