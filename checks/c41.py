"""C41: bundled models compute exactly the documented networks."""
import contextlib
import copy
import itertools
import warnings

import chainer
import chainer.functions as F
import chainer.links as L
import numpy as np

import chainerrl
from chainerrl import links as RL
from chainerrl import policies as PI
from chainerrl import q_functions as QF
from chainerrl import v_functions as VF
from chainerrl.agents import iqn
from chainerrl.links import to_factorized_noisy
from mc.core import Check

warnings.filterwarnings('ignore')

chk = Check(
    'C41',
    rule='every bundled network, policy and value function is built for '
         'every combination of its options on small sizes, given arbitrary '
         'parameters by name, and evaluated (for recurrent ones: on every '
         'sequence of steps and resets of a length) against the same '
         'computation written in numpy; every parameter must receive a '
         'gradient; noisy layers run under every noise of a grid',
    assumptions=['parameters are identified by their names in the tree of '
                 'links, which saved models rely on',
                 'comparison within single-precision tolerance'])

TOL = dict(rtol=2e-4, atol=2e-5)
NL = {'relu': (F.relu, lambda x: np.maximum(x, 0)),
      'tanh': (F.tanh, np.tanh),
      'leaky': (F.leaky_relu, lambda x: np.where(x > 0, x, 0.2 * x))}


def fill(link, seed=0, scale=0.8):
    rs = np.random.RandomState(seed)
    for _, p in sorted(link.namedparams()):
        if p.array is None:
            continue
        p.array[...] = rs.uniform(-1, 1, size=p.shape) * scale
    for _, l in sorted(link.namedlinks(), key=lambda x: x[0]):
        if isinstance(l, L.BatchNormalization):
            l.avg_mean[...] = rs.uniform(-1, 1, size=l.avg_mean.shape)
            l.avg_var[...] = rs.uniform(0.5, 2, size=l.avg_var.shape)
    return link


class P(object):
    """Parameters and statistics of a link by path, in double precision."""

    def __init__(self, link):
        self.d = {n: p.array.astype(np.float64)
                  for n, p in link.namedparams()}
        self.bn = {n: l for n, l in link.namedlinks()
                   if isinstance(l, L.BatchNormalization)}
        self.stats = {n: (l.avg_mean.astype(float), l.avg_var.astype(float))
                      for n, l in self.bn.items()}
        self.used = set()

    def __getitem__(self, k):
        self.used.add(k)
        return self.d[k]

    def lin(self, path, x):
        y = x.reshape(len(x), -1).dot(self[path + '/W'].T)
        if path + '/b' in self.d:
            y = y + self[path + '/b']
        return y

    def norm(self, path, x, train):
        if train:
            m, v = x.mean(axis=0), x.var(axis=0)
        else:
            m, v = self.stats[path]
        return ((x - m) / np.sqrt(v + 2e-5) * self[path + '/gamma']
                + self[path + '/beta'])

    def mlp(self, path, x, n, f):
        for i in range(n):
            x = f(self.lin('{}/hidden_layers/{}'.format(path, i), x))
        return self.lin(path + '/output', x)

    def mlpbn(self, path, x, n, f, n_in, n_out, train):
        if n_in:
            x = self.norm(path + '/input_bn', x, train)
        for i in range(n):
            q = '{}/hidden_layers/{}'.format(path, i)
            x = f(self.norm(q + '/bn', self.lin(q + '/linear', x), train))
        x = self.lin(path + '/output', x)
        return self.norm(path + '/output_bn', x, train) if n_out else x

    def lstm(self, path, x, state):
        z = self.lin(path + '/upward', x)
        if state is not None:
            z = z + self.lin(path + '/lateral', state[1])
        z = z.reshape(len(x), -1, 4)
        a, i, f, o = [z[:, :, k] for k in range(4)]
        c = np.tanh(a) * sigm(i)
        if state is not None:
            c = c + sigm(f) * state[0]
        return c, sigm(o) * np.tanh(c)

    def conv(self, path, x, stride):
        W = self[path + '/W']
        k = W.shape[2]
        b, ch, h, w = x.shape
        s = x.strides
        oh, ow = (h - k) // stride + 1, (w - k) // stride + 1
        win = np.lib.stride_tricks.as_strided(
            x, (b, ch, oh, ow, k, k),
            (s[0], s[1], s[2] * stride, s[3] * stride, s[2], s[3]))
        return np.einsum('bcijkl,ockl->boij', win, W) + self[
            path + '/b'][None, :, None, None]


def sigm(x):
    return 1 / (1 + np.exp(-x))


def softmax(x, axis):
    e = np.exp(x - x.max(axis=axis, keepdims=True))
    return e / e.sum(axis=axis, keepdims=True)


def softplus(x):
    return np.log1p(np.exp(x))


def inputs(b, n, k=0):
    rs = np.random.RandomState(40 + k)
    return rs.uniform(-2, 2, size=(b, n)).astype(np.float32)


def bound(t, lo, hi):
    return np.tanh(t) * (hi - lo) / 2 + (hi + lo) / 2


def arr(y):
    return np.asarray(getattr(y, 'array', y))


@contextlib.contextmanager
def mode(train):
    with chainer.using_config('train', train):
        yield


def trained(rec, link, outs, skip=()):
    """Every parameter takes part in the outputs."""
    link.cleargrads()
    tot = None
    for k, o in enumerate(outs):
        w = np.cos(np.arange(o.size)).reshape(o.shape).astype(np.float32)
        t = F.sum(o * w) * (1. + k)
        tot = t if tot is None else tot + t
    tot.backward()
    for n, p in link.namedparams():
        rec.expect(p.grad is not None or n in skip,
                   'parameter {} is not used'.format(n))


def done(rec, c, p=None):
    rec.trace()
    rec.state(sorted(map(str, c.items())))
    rec.outcome(sorted(map(str, c.items())))
    if p is not None:
        rec.eq(sorted(p.used), sorted(p.d), 'parameters of the network')


# -------------------------------------------------------------------- feedfwd

def ffcases(tier):
    hid = (0, 1, 2) if tier == 'quick' else (0, 1, 2, 3)
    for nl in NL:
        for n in hid:
            for b in (1, 2, 3):
                for cls in ('MLP', 'FCV', 'FCQ', 'DistFCQ', 'FCSA', 'Softmax'):
                    yield dict(cls=cls, nl=nl, n=n, b=b)
                for bd in (False, True):
                    yield dict(cls='FCDet', nl=nl, n=n, b=b, bound=bd)
                    for vt in ('spherical', 'diagonal'):
                        yield dict(cls='FCGauss', nl=nl, n=n, b=b, bound=bd,
                                   vt=vt)
                        yield dict(cls='FCGaussInd', nl=nl, n=n, b=b,
                                   bound=bd, vt=vt)
                    yield dict(cls='FCGaussFix', nl=nl, n=n, b=b, bound=bd,
                               vt='spherical')
                    yield dict(cls='FCGaussFix', nl=nl, n=n, b=b, bound=bd,
                               vt='diagonal')
                if n:
                    yield dict(cls='LateSA', nl=nl, n=n, b=b)
                for ni in (False, True):
                    if n:
                        yield dict(cls='BNLateSA', nl=nl, n=n, b=b, ni=ni)
                    yield dict(cls='BNSA', nl=nl, n=n, b=b, ni=ni)
                    for bd in (False, True):
                        yield dict(cls='BNDet', nl=nl, n=n, b=b, bound=bd,
                                   ni=ni)
                    for no in (False, True):
                        yield dict(cls='MLPBN', nl=nl, n=n, b=b, ni=ni, no=no)
    for n in (1, 2):
        for b in (1, 3):
            for a in (1, 2, 3):
                for sc in (False, True):
                    yield dict(cls='Quad', n=n, b=b, a=a, sc=sc, nl='relu')
                    for ni in (False, True):
                        yield dict(cls='BNQuad', n=n, b=b, a=a, sc=sc, ni=ni,
                                   nl='relu')


LO = np.asarray([-1., 0.5, -3.], dtype=np.float32)
HI = np.asarray([2., 1.5, -1.], dtype=np.float32)


class Space(object):
    def __init__(self, n):
        self.low, self.high = LO[:n], HI[:n]


@chk.part('feedforward', ffcases, timeout=120,
          bound='18 classes x 0-2 (thorough 3) hidden layers x 3 '
                'nonlinearities x all flags x batches of 1-3, in training '
                'and test mode')
def feedforward(rec, c):
    f, g = NL[c['nl']]
    n, b = c['n'], c['b']
    nh = 3 if n else (None if c['cls'] in ('FCGauss', 'FCGaussInd',
                                           'FCGaussFix', 'FCV') else 3)
    cls = c['cls']
    for train in (False, True):
        is_bn = 'BN' in cls
        if is_bn and train and b == 1:
            continue
        p = one(rec, c, cls, f, g, n, b, nh, train)
        rec.trans()
    done(rec, c, p)


def one(rec, c, cls, f, g, n, b, nh, train):
    x, a = inputs(b, 2), inputs(b, 3, 1)
    X, AA = x.astype(float), a.astype(float)
    lo, hi = LO.astype(float), HI.astype(float)
    bd = c.get('bound')
    mm = dict(min_action=LO, max_action=HI)
    with mode(train):
        if cls == 'MLP':
            link = fill(RL.MLP(2, 3, (3, 4, 2)[:n], nonlinearity=f))
            p = P(link)
            y = link(x)
            rec.close(arr(y), p.mlp('', X, n, g), 'output', **TOL)
            trained(rec, link, [y])
        elif cls == 'FCV':
            link = fill(VF.FCVFunction(2, n, nh, nonlinearity=f))
            p = P(link)
            y = link(x)
            rec.close(arr(y), p.mlp('/model', X, n, g), 'value', **TOL)
            trained(rec, link, [y])
        elif cls == 'FCQ':
            link = fill(QF.FCStateQFunctionWithDiscreteAction(
                2, 3, nh, n, nonlinearity=f))
            p = P(link)
            y = link(x)
            want = p.mlp('/model', X, n, g)
            rec.close(arr(y.q_values), want, 'values', **TOL)
            rec.eq(arr(y.greedy_actions).tolist(),
                   want.argmax(axis=1).tolist(), 'greedy actions')
            trained(rec, link, [y.q_values])
        elif cls == 'DistFCQ':
            link = fill(QF.DistributionalFCStateQFunctionWithDiscreteAction(
                2, 3, 4, -2., 3., nh, n, nonlinearity=f))
            p = P(link)
            y = link(x)
            q = softmax(p.mlp('/model/0', X, n, g).reshape(b, 3, 4), 2)
            rec.close(arr(y.q_dist), q, 'distributions', **TOL)
            rec.close(arr(y.q_values), q.dot(np.linspace(-2, 3, 4)),
                      'values', **TOL)
            rec.close(link.z_values, np.linspace(-2, 3, 4), 'atoms', **TOL)
            trained(rec, link, [y.q_dist])
        elif cls == 'FCSA':
            link = fill(QF.FCSAQFunction(2, 3, nh, n, nonlinearity=f))
            p = P(link)
            y = link(x, a)
            rec.close(arr(y), p.mlp('', np.concatenate((X, AA), 1), n, g),
                      'value', **TOL)
            trained(rec, link, [y])
        elif cls == 'Softmax':
            for beta, mp in ((1., 0.), (0.5, 0.), (2., 0.1)):
                link = fill(PI.FCSoftmaxPolicy(
                    2, 3, n, nh, beta=beta, nonlinearity=f, min_prob=mp))
                p = P(link)
                y = link(x)
                q = softmax(beta * p.mlp('/model', X, n, g), 1)
                rec.close(arr(y.all_prob), (1 - 3 * mp) * q + mp,
                          'probabilities', **TOL)
                trained(rec, link, [y.all_prob])
        elif cls == 'FCDet':
            link = fill(PI.FCDeterministicPolicy(
                2, n, nh, 3, bound_action=bd, nonlinearity=f, **mm))
            p = P(link)
            y = link(x)
            t = p.mlp('/model', X, n, g)
            rec.close(arr(y.most_probable), bound(t, lo, hi) if bd else t,
                      'action', **TOL)
            rec.close(arr(y.sample()), arr(y.most_probable), 'sample')
            trained(rec, link, [y.most_probable])
        elif cls == 'FCGauss':
            for mv in (0, 0.3):
                link = fill(PI.FCGaussianPolicy(
                    2, 3, n, nh, bound_mean=bd, var_type=c['vt'],
                    nonlinearity=f, min_var=mv, **mm))
                p = P(link)
                y = link(x)
                h = X
                for i in range(n):
                    h = g(p.lin('/{}'.format(2 + i), h))
                t = p.lin('/0', h)
                rec.close(arr(y.mean), bound(t, lo, hi) if bd else t, 'mean',
                          **TOL)
                v = np.broadcast_to(softplus(p.lin('/1', h)), (b, 3)) + mv
                rec.close(arr(y.var), v, 'variance', **TOL)
                rec.eq(p.d['/1/b'].size, 1 if c['vt'] == 'spherical' else 3,
                       'size of the variance layer')
                trained(rec, link, [y.mean, y.var])
            link = PI.FCGaussianPolicy(2, 3, n, nh, var_bias=0.7,
                                       var_type=c['vt'])
            rec.close(link.var_layer.b.array,
                      np.full_like(link.var_layer.b.array, 0.7), 'var_bias')
        elif cls == 'FCGaussInd':
            for vf, vg in ((F.softplus, softplus),
                           (lambda v: F.exp(2 * v), lambda v: np.exp(2 * v))):
                link = PI.FCGaussianPolicyWithStateIndependentCovariance(
                    2, 3, n, nh, bound_mean=bd, var_type=c['vt'],
                    nonlinearity=f, var_func=vf, var_param_init=0.25, **mm)
                size = 1 if c['vt'] == 'spherical' else 3
                rec.close(link.var_param.array, np.full(size, 0.25), 'init')
                fill(link)
                p = P(link)
                y = link(x)
                h = X
                for i in range(n):
                    h = g(p.lin('/hidden_layers/{}'.format(i), h))
                t = p.lin('/hidden_layers/{}'.format(n), h)
                rec.close(arr(y.mean), bound(t, lo, hi) if bd else t, 'mean',
                          **TOL)
                rec.close(arr(y.var), np.broadcast_to(
                    vg(p['/var_param']), (b, 3)), 'variance', **TOL)
                trained(rec, link, [y.mean, y.var])
                head = PI.GaussianHeadWithStateIndependentCovariance(
                    3, c['vt'], vf, 0.25)
                z = head(chainer.Variable(a))
                rec.close(arr(z.mean), AA, 'mean of the head')
                rec.close(arr(z.var), np.full((b, 3), vg(0.25)),
                          'variance of the head', **TOL)
                trained(rec, head, [z.var])
        elif cls == 'FCGaussFix':
            var = 0.5 if c['vt'] == 'spherical' else np.asarray(
                [0.5, 1., 2.], dtype=np.float32)
            link = fill(PI.FCGaussianPolicyWithFixedCovariance(
                2, 3, var, n, nh, bound_mean=bd, nonlinearity=f, **mm))
            p = P(link)
            y = link(x)
            h = X
            for i in range(n):
                h = g(p.lin('/{}'.format(i), h))
            t = p.lin('/{}'.format(n), h)
            rec.close(arr(y.mean), bound(t, lo, hi) if bd else t, 'mean',
                      **TOL)
            rec.close(arr(y.var), np.broadcast_to(var, (b, 3)), 'variance',
                      **TOL)
            trained(rec, link, [y.mean])
        elif cls == 'LateSA':
            link = fill(QF.FCLateActionSAQFunction(2, 3, nh, n,
                                                   nonlinearity=f))
            p = P(link)
            y = link(x, a)
            h = g(p.mlp('/obs_mlp', X, 0, g))
            want = p.mlp('/mlp', np.concatenate((h, AA), 1), n - 1, g)
            rec.close(arr(y), want, 'value', **TOL)
            trained(rec, link, [y])
        elif cls == 'BNLateSA':
            link = fill(QF.FCBNLateActionSAQFunction(
                2, 3, nh, n, normalize_input=c['ni'], nonlinearity=f))
            p = P(link)
            y = link(x, a)
            h = g(p.mlpbn('/obs_mlp', X, 0, g, c['ni'], True, train))
            want = p.mlp('/mlp', np.concatenate((h, AA), 1), n - 1, g)
            rec.close(arr(y), want, 'value', rtol=1e-3, atol=2e-4)
            trained(rec, link, [y])
        elif cls == 'BNSA':
            link = fill(QF.FCBNSAQFunction(
                2, 3, nh, n, normalize_input=c['ni'], nonlinearity=f))
            p = P(link)
            y = link(x, a)
            want = p.mlpbn('', np.concatenate((X, AA), 1), n, g, c['ni'],
                           False, train)
            rec.close(arr(y), want, 'value', rtol=1e-3, atol=2e-4)
            trained(rec, link, [y])
        elif cls == 'BNDet':
            link = fill(PI.FCBNDeterministicPolicy(
                2, n, nh, 3, bound_action=bd, normalize_input=c['ni'],
                nonlinearity=f, **mm))
            p = P(link)
            y = link(x)
            t = p.mlpbn('/model', X, n, g, c['ni'], False, train)
            rec.close(arr(y.most_probable), bound(t, lo, hi) if bd else t,
                      'action', rtol=1e-3, atol=2e-4)
            trained(rec, link, [y.most_probable])
        elif cls == 'MLPBN':
            link = fill(RL.MLPBN(2, 3, (3, 4, 2)[:n], c['ni'], c['no'],
                                 nonlinearity=f))
            p = P(link)
            y = link(x)
            rec.close(arr(y), p.mlpbn('', X, n, g, c['ni'], c['no'], train),
                      'output', rtol=1e-3, atol=2e-4)
            trained(rec, link, [y])
        else:
            p = quad(rec, c, cls, n, b, x, X, train)
    return p


def quad(rec, c, cls, n, b, x, X, train):
    k = c['a']
    sp = Space(k)
    lo, hi = sp.low.astype(float), sp.high.astype(float)
    relu = NL['relu'][1]
    if cls == 'Quad':
        link = fill(QF.FCQuadraticStateQFunction(
            2, k, 3, n, sp, scale_mu=c['sc']))
        p = P(link)
        h = X
        for i in range(n):
            h = relu(p.lin('/hidden_layers/{}'.format(i), h))
    else:
        link = fill(QF.FCBNQuadraticStateQFunction(
            2, k, 3, n, sp, scale_mu=c['sc'], normalize_input=c['ni']))
        p = P(link)
        h = p.mlpbn('/hidden_layers', X, n - 1, relu, c['ni'], False, train)
    y = link(x)
    v, mu = p.lin('/v', h), p.lin('/mu', h)
    if c['sc']:
        mu = bound(mu, lo, hi)
    tri = np.zeros((b, k, k))
    d = np.exp(p.lin('/mat_diag', h))
    for i in range(k):
        tri[:, i, i] = d[:, i]
    if k > 1:
        nd = p.lin('/mat_non_diag', h)
        for j, (r, s) in enumerate((r, s) for r in range(k)
                                   for s in range(r)):
            tri[:, r, s] = nd[:, j]
    mat = np.einsum('bij,bkj->bik', tri, tri)
    t = dict(rtol=1e-3, atol=1e-3)
    greedy = np.clip(mu, lo, hi)
    rec.close(arr(y.greedy_actions), greedy, 'greedy action', **t)

    def q(u):
        return v[:, 0] - 0.5 * np.einsum('bi,bij,bj->b', u - mu, mat, u - mu)
    rec.close(arr(y.max), q(greedy), 'maximum', **t)
    for u in (lo, hi, (lo + hi) / 2, lo * 0 + 0.3):
        u = np.broadcast_to(u, (b, k))
        rec.close(arr(y.evaluate_actions(u.astype(np.float32))), q(u),
                  'value of an action', **t)
    trained(rec, link, [y.evaluate_actions(np.broadcast_to(
        lo, (b, k)).astype(np.float32))])
    return p


# ------------------------------------------------------------------ recurrent

def reccases(tier):
    depth = 5 if tier == 'quick' else 7
    for n in (0, 1, 2):
        for head in itertools.product('xr', repeat=2):
            for nl in ('relu', 'tanh'):
                yield dict(cls='LSTMSA', n=n, head=head, depth=depth, nl=nl)
                for bd in (False, True):
                    yield dict(cls='LSTMDet', n=n, head=head, depth=depth,
                               nl=nl, bound=bd)
            yield dict(cls='LSTMQ', n=n, head=head, depth=depth, nl='relu')


@chk.part('recurrent', reccases, timeout=120,
          bound='FCLSTMSAQFunction, FCLSTMStateQFunction, '
                'FCLSTMDeterministicPolicy x 0-2 hidden layers x every '
                'sequence of five (thorough seven) steps and resets')
def recurrent(rec, c):
    f, g = NL[c['nl']]
    n = c['n']
    lo, hi = LO[:2].astype(float), HI[:2].astype(float)
    p = None
    for tail in itertools.product('xr', repeat=c['depth'] - 2):
        ops = tuple(c['head']) + tail
        if c['cls'] == 'LSTMSA':
            link = fill(QF.FCLSTMSAQFunction(2, 3, 3, n, nonlinearity=f))
            pre = ''
        elif c['cls'] == 'LSTMQ':
            link = fill(QF.FCLSTMStateQFunction(2, 3, 3, n))
            pre = ''
        else:
            link = fill(PI.FCLSTMDeterministicPolicy(
                2, n, 3, 2, min_action=LO[:2], max_action=HI[:2],
                bound_action=c['bound'], nonlinearity=f))
            pre = '/model'
        p = P(link)
        state = None
        for k, op in enumerate(ops):
            if op == 'r':
                link.reset_state()
                state = None
                continue
            x, a = inputs(2, 2, k), inputs(2, 3, 9 + k)
            y = link(x, a) if c['cls'] == 'LSTMSA' else link(x)
            X = x.astype(float)
            if c['cls'] == 'LSTMSA':
                X = np.concatenate((X, a.astype(float)), 1)
            state = p.lstm(pre + '/lstm', g(p.mlp(pre + '/fc', X, n, g)),
                           state)
            out = p.lin(pre + '/out', state[1])
            if c['cls'] == 'LSTMQ':
                y = y.q_values
            elif c['cls'] == 'LSTMDet':
                y = y.most_probable
                out = bound(out, lo, hi) if c['bound'] else out
            rec.close(arr(y), out, lambda: 'output of step {} of {}'.format(
                k, ops), **TOL)
            rec.trans()
        rec.state(c['cls'], n, c['nl'], c.get('bound'), ops)
    done(rec, c)


# ---------------------------------------------------------------------- vision

def visioncases(tier):
    for cls in ('Nature', 'NIPS', 'Dueling', 'DistDueling'):
        for ch in (1, 4):
            for act in ('relu', 'tanh'):
                for b in (1, 2):
                    yield dict(cls=cls, ch=ch, act=act, b=b)


@chk.part('vision', visioncases, timeout=120,
          bound='4 convolutional networks x 1 or 4 channels x 2 activations '
                'x batches of 1-2')
def vision(rec, c):
    f, g = NL[c['act']]
    b = c['b']
    rs = np.random.RandomState(7)
    x = rs.uniform(0, 1, size=(b, c['ch'], 84, 84)).astype(np.float32)
    X = x.astype(float)
    cls = c['cls']
    link = {'Nature': lambda: RL.NatureDQNHead(c['ch'], 7, activation=f),
            'NIPS': lambda: RL.NIPSDQNHead(c['ch'], 7, activation=f),
            'Dueling': lambda: QF.DuelingDQN(3, c['ch'], activation=f),
            'DistDueling': lambda: QF.DistributionalDuelingDQN(
                3, 4, -2., 3., c['ch'], activation=f)}[cls]()
    init = [q.array for n_, q in link.namedparams()
            if n_.endswith('/b') and ('conv' in n_ or 'DQN' not in cls)]
    for n_, q in link.namedparams():
        if n_.endswith('/b') and ('conv' in n_ or cls in ('Nature', 'NIPS')):
            rec.close(q.array, np.full(q.shape, 0.1), 'initial ' + n_)
    fill(link, scale=0.05)
    p = P(link)
    y = link(x)
    if cls in ('Nature', 'NIPS'):
        h = X
        strides = (4, 2, 1) if cls == 'Nature' else (4, 2)
        for i, s in enumerate(strides):
            h = np.ascontiguousarray(g(p.conv('/{}'.format(i), h, s)))
        want = g(p.lin('/{}'.format(len(strides)), h))
        rec.close(arr(y), want, 'output', rtol=1e-3, atol=1e-4)
        trained(rec, link, [y])
    else:
        h = X
        for i, s in enumerate((4, 2, 1)):
            h = np.ascontiguousarray(
                g(p.conv('/conv_layers/{}'.format(i), h, s)))
        if cls == 'Dueling':
            relu = NL['relu'][1]
            a = p.mlp('/a_stream', h, 1, relu)
            v = p.mlp('/v_stream', h, 1, relu)
            rec.close(arr(y.q_values), v + a - a.mean(axis=1, keepdims=True),
                      'values', rtol=1e-3, atol=1e-4)
            trained(rec, link, [y.q_values])
        else:
            h = g(p.lin('/main_stream', h))
            a = p.lin('/a_stream', h[:, :512]).reshape(b, 3, 4)
            v = p.lin('/v_stream', h[:, 512:]).reshape(b, 1, 4)
            q = softmax(v + a - a.mean(axis=1, keepdims=True), 2)
            rec.close(arr(y.q_dist), q, 'distributions', rtol=1e-3, atol=1e-4)
            rec.close(link.z_values, np.linspace(-2, 3, 4), 'atoms', **TOL)
            trained(rec, link, [y.q_dist])
    del init
    rec.trans()
    done(rec, c, p)


# ----------------------------------------------------------------- containers

class Lin(chainer.Chain):
    """A link without options."""

    def __init__(self):
        super().__init__()
        with self.init_scope():
            self.l = L.Linear(2, 2)

    def __call__(self, x):
        return self.l(x)


class Kw(chainer.Chain):
    """A link with a named option."""

    def __init__(self, k):
        super().__init__()
        self.k = k
        with self.init_scope():
            self.l = L.Linear(2, 2)

    def __call__(self, x, extra=0.):
        return self.l(x) * self.k + extra


def opt_fn(x, extra=0.):
    return x * 2 + extra


def any_fn(x, **kwargs):
    return x + sum(kwargs.values())


def other_fn(x, other=1.):
    return x * other


PIECES = ['lin', 'kw', 'tanh', 'opt', 'any', 'other']


def seqcases(tier):
    n = 3 if tier == 'quick' else 4
    for k in range(1, n + 1):
        for head in PIECES:
            yield dict(head=head, n=k)


@chk.part('containers', seqcases, timeout=120,
          bound='every Sequence of 1-3 (thorough 4) of six kinds of layers x '
                'every set of keyword arguments; Branched over them; IQN '
                'networks')
def containers(rec, c):
    for tail in itertools.product(PIECES, repeat=c['n'] - 1):
        kinds = (c['head'],) + tail
        layers = []
        for k, kind in enumerate(kinds):
            layers.append({
                'lin': lambda: Lin(), 'kw': lambda: Kw(k + 1.),
                'tanh': lambda: F.tanh, 'opt': lambda: opt_fn,
                'any': lambda: any_fn, 'other': lambda: other_fn}[kind]())
        link = fill(RL.Sequence(*layers))
        br = RL.Branched(link, RL.Sequence(*[copy.deepcopy(l)
                                             for l in layers[:1]]))
        for kws in ({}, {'extra': 0.5}, {'other': 3.},
                    {'extra': -1., 'other': 2.}):
            x = inputs(2, 2)
            y = arr(link(x, **kws))
            h = x.astype(float)
            firsts = []
            for l, kind in zip(layers, kinds):
                if kind == 'lin':
                    h = h.dot(l.l.W.array.T.astype(float)) + l.l.b.array
                elif kind == 'kw':
                    h = (h.dot(l.l.W.array.T.astype(float)) + l.l.b.array
                         ) * l.k + kws.get('extra', 0.)
                elif kind == 'tanh':
                    h = np.tanh(h)
                elif kind == 'opt':
                    h = h * 2 + kws.get('extra', 0.)
                elif kind == 'any':
                    h = h + sum(kws.values())
                else:
                    h = h * kws.get('other', 1.)
                firsts.append(h)
            rec.close(y, h, lambda: 'output of {} with {}'.format(kinds, kws),
                      **TOL)
            out = br(x, **kws)
            rec.expect(isinstance(out, tuple) and len(out) == 2,
                       'outputs of Branched')
            rec.close(arr(out[0]), h, 'first branch', **TOL)
            rec.close(arr(out[1]), firsts[0], 'second branch', **TOL)
            rec.trans()
        rec.state(kinds)
    done(rec, c)


def iqncases(tier):
    for b in (1, 2, 3):
        for nt in (1, 2, 4):
            for nb in (1, 3, 64):
                yield dict(b=b, nt=nt, nb=nb)


@chk.part('quantile networks', iqncases, timeout=60,
          bound='batches of 1-3 x 1-4 thresholds from a grid x 1, 3, 64 basis '
                'functions')
def quantile(rec, c):
    b, nt, nb = c['b'], c['nt'], c['nb']
    link = fill(iqn.ImplicitQuantileQFunction(
        psi=RL.Sequence(L.Linear(2, 3), F.relu),
        phi=RL.Sequence(iqn.CosineBasisLinear(nb, 3), F.relu),
        f=L.Linear(3, 4)))
    p = P(link)
    grid = (0., 0.1, 0.5, 0.9, 1.)
    for ts in itertools.product(grid, repeat=min(nt, 3)):
        taus = np.resize(ts, (b, nt)).astype(np.float32)
        taus[b // 2] = 1 - taus[b // 2]
        x = inputs(b, 2)
        y = link(x)(taus)
        psi = np.maximum(p.lin('/psi/0', x.astype(float)), 0)
        basis = np.cos(taus.astype(float)[..., None]
                       * np.arange(1, nb + 1) * np.pi)
        phi = np.maximum(p.lin('/phi/0/linear', basis.reshape(-1, nb)), 0)
        h = psi[:, None, :] * phi.reshape(b, nt, 3)
        want = p.lin('/f', h.reshape(-1, 3)).reshape(b, nt, 4)
        rec.close(arr(y.quantiles), want, 'quantiles', rtol=1e-3, atol=2e-4)
        rec.close(arr(y.q_values), want.mean(axis=1), 'values', rtol=1e-3,
                  atol=2e-4)
        rec.trans()
    trained(rec, link, [y.quantiles])
    done(rec, c, p)


# ----------------------------------------------------------------------- noise

@contextlib.contextmanager
def noise(stream):
    """Serve standard normal noise from a given sequence, in order."""
    it = iter(stream)
    saved = np.random.standard_normal, np.random.normal, np.random.randn

    def sn(size=None):
        shape = () if size is None else size
        n = int(np.prod(shape))
        return np.asarray([next(it) for _ in range(n)]).reshape(shape)
    np.random.standard_normal = sn
    np.random.normal = lambda loc=0., scale=1., size=None: loc + scale * sn(
        size)
    np.random.randn = lambda *s: sn(s)
    try:
        yield
    finally:
        (np.random.standard_normal, np.random.normal,
         np.random.randn) = saved


def fz(e):
    e = np.asarray(e, dtype=float)
    return np.sign(e) * np.sqrt(np.abs(e))


def noisycases(tier):
    g = (-1., 0., 0.25, 2.)
    for nobias in (False, True):
        for ni, no in ((1, 1), (2, 1), (1, 2), (2, 2), (3, 2)):
            for e0 in g:
                yield dict(nobias=nobias, ni=ni, no=no, e0=e0)


@chk.part('noisy layers', noisycases, timeout=120,
          bound='sizes 1-3 x bias or none x every assignment of noise from a '
                'grid of four (three for five units) to all units, two calls')
def noisy(rec, c):
    ni, no = c['ni'], c['no']
    k = ni + no
    grid = (-1., 0., 0.25, 2.) if k < 5 else (-1., 0.25, 2.)
    base = L.Linear(ni, no, nobias=c['nobias'])
    link = RL.FactorizedNoisyLinear(base, sigma_scale=0.5)
    rec.expect((np.abs(link.mu.W.array) <= 1 / np.sqrt(ni) + 1e-6).all(),
               'initial means out of range')
    rec.close(link.sigma.W.array, np.full((no, ni), 0.5 / np.sqrt(ni)),
              'initial noise scales')
    rec.eq(link.mu.b is None, c['nobias'], 'bias')
    rec.eq(link.sigma.b is None, c['nobias'], 'bias of the noise')
    fill(link)
    p = P(link)
    x = inputs(2, ni)
    X = x.astype(float)
    gy = np.asarray([[1., -2.], [0.5, 3.]])[:, :no]
    for tail in itertools.product(grid, repeat=k - 1):
        e = (c['e0'],) + tail
        second = e[::-1]
        with noise(e + second):
            y1 = link(x)
            link.cleargrads()
            y1.grad = gy.astype(np.float32)
            y1.backward()
            grads = {n: q.grad.copy() for n, q in link.namedparams()}
            y2 = link(x)
        for y, ee in ((y1, e), (y2, second)):
            ex, ey = fz(ee[:ni]), fz(ee[ni:])
            W = p['/mu/W'] + p['/sigma/W'] * np.outer(ey, ex)
            want = X.dot(W.T)
            if not c['nobias']:
                want = want + p['/mu/b'] + p['/sigma/b'] * ey
            rec.close(arr(y), want, lambda: 'output for noise {}'.format(ee),
                      **TOL)
        ex, ey = fz(e[:ni]), fz(e[ni:])
        gW = gy.T.dot(X)
        rec.close(grads['/mu/W'], gW, 'gradient of the means', **TOL)
        rec.close(grads['/sigma/W'], gW * np.outer(ey, ex),
                  'gradient of the noise scales', **TOL)
        if not c['nobias']:
            rec.close(grads['/mu/b'], gy.sum(axis=0), 'gradient', **TOL)
            rec.close(grads['/sigma/b'], gy.sum(axis=0) * ey, 'gradient',
                      **TOL)
        rec.trans(2)
        rec.state(c['nobias'], ni, no, e)
    done(rec, c, p)


def nested(seed):
    return chainer.ChainList(
        L.Linear(2, 3), RL.MLP(3, 2, (2,)),
        RL.Sequence(L.Linear(2, 2, nobias=True), F.tanh, RL.MLP(2, 1, ())))


class Wrap(chainer.Chain):
    def __init__(self):
        super().__init__()
        with self.init_scope():
            self.a = L.Linear(2, 2)
            self.inner = nested(0)
            self.bn = L.BatchNormalization(2)

    def __call__(self, x):
        h = self.bn(F.tanh(self.a(x)))
        h = F.relu(self.inner[0](h))
        return self.inner[2](self.inner[1](h))


def as_image(x):
    return F.reshape(x, (-1, 1, 1, 2))


TOP = {
    'seq': lambda: RL.Sequence(L.Linear(2, 3), F.relu, L.Linear(3, 2)),
    'seqseq': lambda: RL.Sequence(
        RL.Sequence(L.Linear(2, 3), F.tanh), RL.Sequence(L.Linear(3, 2))),
    'sequential': lambda: chainer.Sequential(
        L.Linear(2, 3), F.relu, L.Linear(3, 2)),
    'lazy': lambda: RL.Sequence(L.Linear(None, 3), F.relu, L.Linear(None, 2)),
    'mlp': lambda: RL.MLP(2, 2, (3, 3)),
    'mlpbn': lambda: RL.MLPBN(2, 2, (3,)),
    'wrap': Wrap,
    'fcq': lambda: QF.FCStateQFunctionWithDiscreteAction(2, 3, 3, 1),
    'distq': lambda: QF.DistributionalFCStateQFunctionWithDiscreteAction(
        2, 2, 3, -1., 1., 3, 1),
    'branched': lambda: RL.Branched(
        RL.Sequence(L.Linear(2, 2), F.tanh), RL.MLP(2, 1, (2,))),
    'quad': lambda: QF.FCQuadraticStateQFunction(2, 2, 3, 1, Space(2)),
    'softmax': lambda: PI.FCSoftmaxPolicy(2, 3, 1, 3),
    'gauss': lambda: PI.FCGaussianPolicy(2, 2, 1, 3, var_type='diagonal'),
    'gauss0': lambda: PI.FCGaussianPolicy(2, 2),
    'gaussind': lambda:
        PI.FCGaussianPolicyWithStateIndependentCovariance(2, 2, 1, 3),
    'gaussfix': lambda: PI.FCGaussianPolicyWithFixedCovariance(
        2, 2, 0.5, 1, 3),
    'duel': lambda: QF.DistributionalDuelingDQN(2, 3, -1., 1.),
    'conv': lambda: chainer.Sequential(
        as_image, L.Convolution2D(1, 2, (1, 2)),
        F.relu, L.Linear(2, 2)),
}


def convcases(tier):
    for kind in TOP:
        for s in (0.4, 0.1):
            for z in (-2., -0.25, 0., 1.):
                yield dict(kind=kind, scale=s, z=z)


def out_arrays(y):
    if isinstance(y, tuple):
        return [v for o in y for v in out_arrays(o)]
    for name in ('q_dist', 'q_values', 'all_prob'):
        if hasattr(y, name):
            return [getattr(y, name)]
    if hasattr(y, 'mat'):
        return [y.mu, y.mat, y.v]
    if hasattr(y, 'var'):
        return [y.mean, y.var]
    return [y]


@chk.part('conversion', convcases, timeout=60,
          bound='18 models made noisy x 2 scales x 4 constant noises, '
                'compared with the plain model with the perturbed weights')
def conversion(rec, c):
    plain = TOP[c['kind']]()
    model = TOP[c['kind']]()
    x = inputs(3, 2)
    if c['kind'] == 'duel':
        x = inputs(1, 4 * 84 * 84).reshape((1, 4, 84, 84))
    with mode(False):
        plain(x)
    linears = {n for n, l in plain.namedlinks() if isinstance(l, L.Linear)}
    others = {n: q.array.copy() for n, q in model.namedparams()
              if n.rsplit('/', 1)[0] not in linears and q.array is not None}
    to_factorized_noisy(model, sigma_scale=c['scale'])
    got = {n for n, l in model.namedlinks()
           if isinstance(l, RL.FactorizedNoisyLinear)}
    rec.eq(sorted(got), sorted(linears), 'noisy layers')
    with noise(itertools.repeat(c['z'])), mode(False):
        model(x)
    sig = {}
    for n, l in model.namedlinks():
        if n in got:
            rec.close(l.sigma.W.array, np.full(
                l.sigma.W.shape, c['scale'] / np.sqrt(l.sigma.W.shape[1])),
                'noise scale of ' + n)
            sig[n] = l
    for n, q in model.namedparams():
        if n in others:
            rec.expect(np.array_equal(q.array, others[n]),
                       'parameter {} of another layer changed'.format(n))
    fill(model, 3)
    z = fz(c['z'])
    for n, q in plain.namedparams():
        layer, name = n.rsplit('/', 1)
        if layer in sig:
            e = z * z if name == 'W' else z
            q.array[...] = (getattr(sig[layer].mu, name).array
                            + getattr(sig[layer].sigma, name).array * e)
        else:
            q.array[...] = dict(model.namedparams())[n].array
    for n, l in plain.namedlinks():
        if isinstance(l, L.BatchNormalization):
            m = dict(model.namedlinks())[n]
            l.avg_mean[...], l.avg_var[...] = m.avg_mean, m.avg_var
    with noise(itertools.repeat(c['z'])), mode(False):
        y = model(x)
        want = out_arrays(plain(x))
        outs = out_arrays(y)
    rec.eq(len(outs), len(want), 'outputs')
    for a, b in zip(outs, want):
        rec.close(arr(a), arr(b), 'output', rtol=1e-3, atol=1e-4)
    trained(rec, model, outs)
    # a copy of a noisy model is noisy on its own
    twin = copy.deepcopy(model)
    for q in twin.params():
        q.array[...] = 0
    with noise(itertools.repeat(c['z'])), mode(False):
        again = out_arrays(model(x))
    for a, b in zip(again, outs):
        rec.eq(arr(a), arr(b), 'output after changing a copy')
    rec.trans()
    done(rec, c)


# ----------------------------------------------------------- plain wrappers

def wrapcases(tier):
    for b in (1, 3):
        for k in range(4):
            yield dict(b=b, k=k)


@chk.part('wrappers', wrapcases, timeout=60,
          bound='single-model wrappers over a nonlinear model, filters and '
                'calls given or not, batches of 1 and 3')
def wrappers(rec, c):
    b = c['b']
    x, a = inputs(b, 2, c['k']), inputs(b, 3, 5)
    m = fill(RL.MLP(2, 3, (3,)), c['k'])
    h = arr(m(x)).astype(float)
    y = QF.SingleModelStateQFunctionWithDiscreteAction(m)(x)
    rec.close(arr(y.q_values), h, 'values')
    y = VF.SingleModelVFunction(m)(x)
    rec.close(arr(y), h, 'value')
    d = RL.Sequence(m, lambda v: F.softmax(F.reshape(v, (-1, 1, 3)), axis=2))
    zs = np.asarray([0., 1., 5.], dtype=np.float32)
    y = QF.DistributionalSingleModelStateQFunctionWithDiscreteAction(
        d, zs)(x)
    rec.close(arr(y.q_values)[:, 0], softmax(h, 1).dot(zs), 'values', **TOL)

    class SA(chainer.Chain):
        def __call__(self, s, u):
            return F.sum(s, axis=1, keepdims=True) * 2 + u[:, :1]
    y = QF.SingleModelStateActionQFunction(SA())(x, a)
    rec.close(arr(y)[:, 0], x.sum(axis=1) * 2 + a[:, 0], 'value', **TOL)
    for call in (None, lambda mod, v: mod(v) * 3):
        for filt in (None, lambda v: v + 1):
            y = PI.ContinuousDeterministicPolicy(m, call, filt)(x)
            want = h * (1 if call is None else 3) + (filt is not None)
            rec.close(arr(y.most_probable), want, 'action', **TOL)
    for beta, mp in ((1., 0.), (2., 0.1)):
        y = PI.SoftmaxPolicy(m, beta, mp)(x)
        rec.close(arr(y.all_prob), softmax(beta * h, 1) * (1 - 3 * mp) + mp,
                  'probabilities', **TOL)
    for omega in (1., 5.):
        y = PI.MellowmaxPolicy(m, omega)(x)
        mm = np.log(np.exp(omega * h).mean(axis=1)) / omega
        rec.close((arr(y.all_prob) * h).sum(axis=1), mm,
                  'expectation of mellowmax', rtol=1e-3, atol=1e-3)
    rec.trans()
    done(rec, c)


if __name__ == '__main__':
    raise SystemExit(chk.main())
