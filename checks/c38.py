"""C38: numerical building blocks compute and differentiate as defined."""
import itertools
import warnings

import chainer
import chainer.functions as F
import chainer.links as L
import numpy as np

import chainerrl
from chainerrl import functions as CF
from chainerrl import misc
from chainerrl import links as RL
from chainerrl.functions.bound_by_tanh import bound_by_tanh
from chainerrl.functions.invert_gradients import invert_gradients
from chainerrl.functions.lower_triangular_matrix import \
    lower_triangular_matrix
from chainerrl.functions.mellowmax import mellowmax
from chainerrl.functions.scale_grad import scale_grad
from chainerrl.misc.init_like_torch import init_like_torch
from chainerrl.optimizers.nonbias_weight_decay import NonbiasWeightDecay
from chainerrl.optimizers.rmsprop_async import RMSpropAsync
from mc.core import Check

warnings.filterwarnings('ignore')

chk = Check(
    'C38',
    rule='functions, solvers and optimizers are run on every input of finite '
         'grids of values, shapes, data types and coefficients (all integer '
         'positive-definite matrices and right-hand sides of a range for the '
         'solver, all sequences of gradients for the optimizers) and compared '
         'with formulas in double precision, outputs and gradients',
    assumptions=['comparison within the precision of the data type'])

TOL = {np.float16: 1e-2, np.float32: 2e-5, np.float64: 1e-10}


def tol(dtype, k=1):
    t = TOL[np.dtype(dtype).type] * k
    return dict(rtol=t, atol=t)


def V(x, dtype=np.float32):
    return chainer.Variable(np.asarray(x, dtype=dtype))


def back(y, gy):
    y.grad = np.asarray(gy, dtype=y.dtype)
    y.backward()


# ---------------------------------------------------------------- elementwise

def elem(tier):
    for dt in ('float16', 'float32', 'float64'):
        for shape in ([7], [2, 3], [1, 1], [2, 1, 3]):
            yield dict(f='arctanh', dt=dt, shape=shape)
    for n in (1, 2, 3):
        for lo, hi in itertools.product((-2., -0.5, 0., 1.), (1.5, 3.)):
            yield dict(f='bound', n=n, lo=lo, hi=hi)
            yield dict(f='invert', n=n, lo=lo, hi=hi)
    for scale in (0., 1., -1., 0.5, 1e-3, 7.):
        for shape in ([3], [2, 2], []):
            yield dict(f='scale', scale=scale, shape=shape)
    for shape in ([3], [2, 2], [1, 3, 2]):
        yield dict(f='muladd', shape=shape)


@chk.part('elementwise', elem, timeout=120,
          bound='arctanh, bound_by_tanh, invert_gradients, scale_grad, muladd '
                'over grids of values, bounds, shapes and output gradients')
def elementwise(rec, c):
    {'arctanh': f_arctanh, 'bound': f_bound, 'invert': f_invert,
     'scale': f_scale, 'muladd': f_muladd}[c['f']](rec, c)
    rec.trace()
    rec.state(sorted(map(str, c.items())))
    rec.outcome(sorted(map(str, c.items())))


GRID = [-0.99, -0.9, -0.5, -1e-3, 0., 1e-3, 0.25, 0.75, 0.95]


def f_arctanh(rec, c):
    dt = np.dtype(c['dt']).type
    n = int(np.prod(c['shape']))
    for off in range(len(GRID)):
        x = np.resize(np.roll(GRID, off), n).reshape(c['shape']).astype(dt)
        v = V(x, dt)
        y = CF.arctanh(v)
        x64 = x.astype(np.float64)
        rec.eq(y.dtype, np.dtype(dt), 'dtype')
        rec.close(y.array, np.arctanh(x64), 'arctanh', **tol(dt, 3))
        gy = np.arange(1, n + 1).reshape(c['shape']) - 2.
        back(y, gy)
        rec.close(v.grad, gy / (1 - x64 ** 2), 'gradient of arctanh',
                  **tol(dt, 5))
        if dt is np.float64:
            v = V(x, dt)
            g, = chainer.grad([F.sum(CF.arctanh(v))], [v],
                              enable_double_backprop=True)
            gg, = chainer.grad([F.sum(g)], [v])
            rec.close(gg.array, 2 * x64 / (1 - x64 ** 2) ** 2,
                      'second derivative of arctanh', **tol(dt, 5))
        rec.trans()


XS = [-30., -3., -0.7, 0., 0.4, 2., 30.]


def f_bound(rec, c):
    n = c['n']
    lo = np.asarray([c['lo'] - 0.5 * k for k in range(n)], dtype=np.float32)
    hi = np.asarray([c['hi'] + k for k in range(n)], dtype=np.float32)
    for xs in itertools.product(XS, repeat=min(n, 2)):
        x = np.resize(xs, (2, n)).astype(np.float32)
        x[1] = x[1, ::-1]
        for scalars in ((False, True) if n == 1 else (False,)):
            v = V(x)
            y = bound_by_tanh(v, np.float32(lo[0]) if scalars else lo,
                              np.float32(hi[0]) if scalars else hi)
            rec.expect(isinstance(y, chainer.Variable), 'type')
            t = np.tanh(x.astype(np.float64))
            want = t * (hi - lo) / 2 + (hi.astype(float) + lo) / 2
            rec.close(y.array, want, 'bound_by_tanh', **tol(np.float32))
            rec.expect((y.array >= lo - 1e-5).all()
                       and (y.array <= hi + 1e-5).all(), 'out of the bounds')
            gy = np.asarray([[1.] * n, [-2.] * n])
            back(y, gy)
            rec.close(v.grad, gy * (1 - t ** 2) * (hi - lo) / 2,
                      'gradient of bound_by_tanh', **tol(np.float32))
            rec.trans()


def f_invert(rec, c):
    n = c['n']
    lo = np.asarray([c['lo'] - 0.5 * k for k in range(n)], dtype=np.float32)
    hi = np.asarray([c['hi'] + k for k in range(n)], dtype=np.float32)
    w = hi - lo
    rel = [-0.5, 0., 0.25, 0.5, 1., 1.5]
    for rs in itertools.product(rel, repeat=min(n, 2)):
        for gs in itertools.product((-2., -0.5, 0., 1., 3.), repeat=min(n, 2)):
            x = (lo + np.resize(rs, (2, n)) * w).astype(np.float32)
            gy = np.resize(gs, (2, n))
            gy[1] = -gy[1]
            v = V(x)
            y = invert_gradients(v, lo, hi)
            rec.expect((y.array == x).all(), 'values changed')
            back(y, gy)
            # a negative gradient increases the value
            want = np.where(gy < 0, gy * (hi - x) / w, gy * (x - lo) / w)
            rec.close(v.grad, want, 'inverted gradients', **tol(np.float32))
            outside = (x > hi) & (gy != 0)
            rec.expect((v.grad[outside] >= 0).all(),
                       'a gradient that increases a value over its maximum')
            outside = (x < lo) & (gy != 0)
            rec.expect((v.grad[outside] <= 0).all(),
                       'a gradient that decreases a value below its minimum')
            rec.trans()


def f_scale(rec, c):
    n = int(np.prod(c['shape'])) if c['shape'] else 1
    x = (np.arange(n) - 1.).reshape(c['shape'])
    for gy in (1., -2., 0.):
        v = V(x)
        y = scale_grad(v, c['scale'])
        rec.expect((y.array == v.array).all(), 'values changed')
        back(y, np.full(c['shape'], gy))
        rec.close(v.grad, np.full(c['shape'], gy * c['scale']), 'gradient',
                  **tol(np.float32))
        v = V(x)
        # only the branch that passes through is scaled
        z = scale_grad(scale_grad(v, c['scale']), 3.) * 2 + v
        back(z, np.full(c['shape'], gy))
        rec.close(v.grad, np.full(c['shape'], gy * (6 * c['scale'] + 1)),
                  'gradient of a composition', **tol(np.float32))
        rec.trans()


def f_muladd(rec, c):
    n = int(np.prod(c['shape']))
    for a, b, d in itertools.product((-1.5, 0., 2.), repeat=3):
        vs = [V((np.arange(n) * 0.5 + k).reshape(c['shape']))
              for k in (a, b, d)]
        y = CF.muladd(*vs)
        x, w, z = [v.array.astype(float) for v in vs]
        rec.close(y.array, x * w + z, 'muladd', **tol(np.float32))
        gy = np.arange(n).reshape(c['shape']) - 1.
        back(y, gy)
        for v, g in zip(vs, (w * gy, x * gy, gy)):
            rec.close(v.grad, g, 'gradient of muladd', **tol(np.float32))
        rec.trans()


# --------------------------------------------------------------------- arrays

def arrcases(tier):
    n_max = 4 if tier == 'quick' else 5
    for n in range(1, n_max + 1):
        # every way to use the same variable several times
        for pat in itertools.product(range(n), repeat=n):
            if any(p > max((-1,) + pat[:k]) + 1 for k, p in enumerate(pat)):
                continue
            for shape in ([3], [2, 2], []):
                yield dict(pat=pat, shape=shape)


@chk.part('sums', arrcases, timeout=120,
          bound='sum_arrays and weighted_sum_arrays of 1-5 arrays x every '
                'repetition of arguments x 3 shapes x 3 data types x 3 '
                'weightings')
def sums(rec, c):
    n = len(c['pat'])
    size = int(np.prod(c['shape'])) if c['shape'] else 1
    for dt in (np.float16, np.float32, np.float64):
        for ws in (None, [1.] * n, [0.5 * (k - 1) for k in range(n)],
                   [2. ** k for k in range(n)]):
            vs = [V((np.arange(size) + 3. * k - 2).reshape(c['shape']), dt)
                  for k in range(max(c['pat']) + 1)]
            xs = tuple(vs[p] for p in c['pat'])
            y = CF.sum_arrays(xs) if ws is None else CF.weighted_sum_arrays(
                xs, ws)
            w = [1.] * n if ws is None else ws
            rec.close(y.array, sum(a * x.array.astype(float)
                                   for a, x in zip(w, xs)), 'sum', **tol(dt))
            gy = (np.arange(size) - 1.).reshape(c['shape'])
            back(y, gy)
            for k, v in enumerate(vs):
                s = sum(a for a, p in zip(w, c['pat']) if p == k)
                rec.close(v.grad, s * gy, 'gradient', **tol(dt))
                v.grad = v.grad.copy()
            rec.trans()
    rec.trace()
    rec.state(c['pat'], c['shape'])
    rec.outcome(c['pat'], c['shape'])


def tricases(tier):
    for n in (1, 2, 3, 4):
        for b in (1, 2, 3):
            for dt in ('float16', 'float32', 'float64'):
                yield dict(n=n, b=b, dt=dt)


@chk.part('triangular', tricases, timeout=120,
          bound='triangular matrices of size 1-4, batches of 1-3, 3 data '
                'types: every position on its own and all together')
def triangular(rec, c):
    n, b, dt = c['n'], c['b'], np.dtype(c['dt']).type
    m = n * (n - 1) // 2
    where = [(i, j) for i in range(n) for j in range(i)]
    units = [('d', i, k) for i in range(b) for k in range(n)]
    units += [('n', i, k) for i in range(b) for k in range(m)]
    for u in units + ['all']:
        d, o = np.zeros((b, n)), np.zeros((b, m))
        want = np.zeros((b, n, n))
        for v in units if u == 'all' else [u]:
            val = 1. + units.index(v)
            if v[0] == 'd':
                d[v[1], v[2]] = val
                want[v[1], v[2], v[2]] = val
            else:
                o[v[1], v[2]] = val
                want[(v[1],) + where[v[2]]] = val
        vd, vo = V(d, dt), V(o, dt)
        y = lower_triangular_matrix(vd, vo)
        rec.eq(y.dtype, np.dtype(dt), 'dtype')
        rec.close(y.array, want, 'matrix', **tol(dt))
        gy = np.arange(b * n * n).reshape(b, n, n) - 4.
        back(y, gy)
        rec.close(vd.grad, [[g[i, i] for i in range(n)] for g in gy],
                  'gradient of the diagonal', **tol(dt))
        rec.close(vo.grad, np.asarray(
            [[g[w] for w in where] for g in gy]).reshape(b, m),
            'gradient of the others', **tol(dt))
        rec.trans()
    rec.trace()
    rec.state(n, b, c['dt'])
    rec.outcome(n, b, c['dt'])


# ----------------------------------------------------------------- mellowmax

def mmcases(tier):
    for shape, axes in (([1, 1], (0, 1)), ([1, 2], (0, 1)), ([2, 3], (0, 1)),
                        ([2, 2, 3], (0, 1, 2)), ([4], (0,))):
        for axis in axes:
            for omega in (0.1, 1., 5., -2.):
                yield dict(shape=shape, axis=axis, omega=omega)


@chk.part('mellowmax', mmcases, timeout=120,
          bound='5 shapes x every axis x 4 parameters x all rows of a grid of '
                'four values')
def mellow(rec, c):
    size = int(np.prod(c['shape']))
    omega, ax = c['omega'], c['axis']
    vals = (-3., -0.5, 0., 2.)
    rows = list(itertools.product(vals, repeat=min(size, 4)))
    for r in rows:
        for dt in (np.float32, np.float64):
            x = np.resize(r, c['shape']).astype(dt)
            x64 = x.astype(np.float64)
            v = V(x, dt)
            y = mellowmax(v, omega=omega, axis=ax)
            e = np.exp(omega * x64)
            want = np.log(e.mean(axis=ax)) / omega
            rec.close(y.array, want, 'mellowmax', **tol(dt, 5))
            rec.expect((y.array <= x.max(axis=ax) + 1e-4).all()
                       and (y.array >= x.min(axis=ax) - 1e-4).all(),
                       'mellowmax out of the range of its values')
            gy = np.arange(y.size).reshape(y.shape) - 1.
            back(y, gy)
            p = e / e.sum(axis=ax, keepdims=True)
            rec.close(v.grad, p * np.expand_dims(gy, ax), 'gradient',
                      **tol(dt, 5))
            rec.trans()
    rec.trace()
    rec.state(c['shape'], ax, omega)
    rec.outcome(c['shape'], ax, omega)


# ---------------------------------------------------------- conjugate gradient

def cgcases(tier):
    for a in range(1, 5):
        yield dict(n=1, a=[[a]])
    r = range(-2, 3)
    for a, b, d in itertools.product(range(1, 5), r, range(1, 5)):
        if a * d - b * b > 0:
            yield dict(n=2, a=[[a, b], [b, d]])
    diag = (2, 3) if tier == 'quick' else (1, 2, 3, 5)
    for p, q, s in itertools.product(diag, repeat=3):
        for x, y, z in itertools.product((-1, 0, 1), repeat=3):
            m = np.array([[p, x, y], [x, q, z], [y, z, s]])
            if np.linalg.eigvalsh(m).min() > 0.2:
                yield dict(n=3, a=m.tolist())
    yield dict(n=6, a=(np.eye(6) * 3 + np.eye(6, k=1)
                       + np.eye(6, k=-1)).tolist())


@chk.part('solver', cgcases, timeout=120,
          bound='all positive-definite integer matrices of a range up to size '
                '3 and one of size 6 x right-hand sides from a grid '
                '(including zero) x 2 data types x iteration limits and '
                'tolerances, and small and large multiples')
def solver(rec, c):
    n = c['n']
    grid = (-3., -1., 0., 0.5, 2.) if n < 3 else (-1., 0., 2.)
    for dt in (np.float32, np.float64):
        A = np.asarray(c['a'], dtype=dt)
        rhs = itertools.product(grid, repeat=n) if n < 6 else [
            (0.,) * 6, (1.,) * 6, (1., 0., 0., 0., 0., -1.), (0., 1, 2, 3, 4, 5)]
        for b in rhs:
            b = np.asarray(b, dtype=dt)
            for k, t in itertools.product((0, 1, n, 10), (1e-10, 1e-3)):
                calls = []

                def prod(v):
                    rec.eq((v.shape, v.dtype), (b.shape, b.dtype),
                           'argument of the product')
                    calls.append(v)
                    return A.dot(v)
                b0 = b.copy()
                x = misc.conjugate_gradient(prod, b, tol=t, max_iter=k)
                rec.trans()
                rec.expect((b == b0).all(), 'right-hand side changed')
                rec.eq((x.shape, x.dtype), (b.shape, b.dtype), 'type')
                rec.close(x, ref_cg(A, b, t, k), lambda: 'solution of {} x = '
                          '{}'.format(c['a'], b.tolist()), **tol(dt, 100))
                if k >= n:
                    want = np.linalg.solve(A.astype(float), b.astype(float))
                    rec.close(x, want, lambda: 'solution of {} x = {}'.format(
                        c['a'], b.tolist()), rtol=2e-3, atol=2e-3)
            for s in (1e-8, 1e-5, 1e6) if dt == np.float64 else ():
                x = misc.conjugate_gradient(A.dot, b * s, tol=1e-10 * s,
                                            max_iter=10)
                rec.close(x / s, np.linalg.solve(A, b), lambda: 'solution of '
                          '{} x = {} * {}'.format(c['a'], s, b.tolist()),
                          rtol=1e-6, atol=1e-6)
            rec.state(c['a'], b.tolist())
    rec.trace()
    rec.outcome(c['a'])


def ref_cg(A, b, t, k):
    """Textbook method in double precision."""
    A, b = A.astype(np.float64), b.astype(np.float64)
    x = np.zeros_like(b)
    r = b.copy()
    p = r.copy()
    for _ in range(k):
        if np.linalg.norm(r) < max(t, 1e-7):
            break
        q = A.dot(p)
        a = r.dot(r) / p.dot(q)
        x = x + a * p
        s = r - a * q
        p = s + p * (s.dot(s) / r.dot(r))
        r = s
    return x


# ------------------------------------------------------------------ optimizers

def optcases(tier):
    depth = 4 if tier == 'quick' else 5
    for lr, alpha, eps in itertools.product(
            (0.1, 1e-3), (0.99, 0.5, 0.), (1e-1, 1e-8)):
        yield dict(lr=lr, alpha=alpha, eps=eps, depth=depth)


@chk.part('rmsprop_async', optcases, timeout=300,
          bound='12 settings x every sequence of four (thorough five) '
                'gradients from {absent, 0, 1, -3}, with the learning rate '
                'changed in between')
def rmsasync(rec, c):
    for dt in (np.float32, np.float64):
        for seq in itertools.product((None, 0., 1., -3.), repeat=c['depth']):
            link = chainer.Link()
            with link.init_scope():
                link.w = chainer.Parameter(np.asarray([1., -2.], dtype=dt))
                link.u = chainer.Parameter(np.asarray([0.5], dtype=dt))
            opt = RMSpropAsync(c['lr'], c['alpha'], c['eps'])
            opt.setup(link)
            w, ms = np.asarray([1., -2.]), np.zeros(2)
            lr = c['lr']
            for k, g in enumerate(seq):
                if k == 2:
                    lr = lr / 2
                    opt.lr = lr
                if k == 3:
                    opt.eps = 2 * c['eps']
                eps = c['eps'] * (2 if k >= 3 else 1)
                link.cleargrads()
                # chainer takes an absent gradient as zero
                gr = np.zeros(2)
                if g is not None:
                    gr = np.asarray([g, 0.5 * g - 1])
                    link.w.grad = gr.astype(dt)
                ms = c['alpha'] * ms + (1 - c['alpha']) * gr ** 2
                w = w - lr * gr / np.sqrt(ms + eps)
                opt.update()
                rec.trans()
                rec.close(link.w.array, w, lambda: 'parameter after {} of {}'
                          .format(k, seq), rtol=2e-4, atol=1e-5)
                rec.eq(link.w.dtype, np.dtype(dt), 'dtype')
                rec.close(link.u.array, [0.5], 'parameter without gradient')
            rec.state(c['lr'], c['alpha'], c['eps'], seq)
    rec.trace()
    rec.outcome(c['lr'], c['alpha'], c['eps'])


class Named(chainer.Chain):
    def __init__(self):
        super().__init__()
        with self.init_scope():
            self.l = L.Linear(2, 2)
            self.b = chainer.Parameter(np.ones(2, dtype=np.float32))
            self.bb = chainer.Parameter(np.ones(2, dtype=np.float32))
            self.inner = chainer.ChainList(L.Linear(2, 1),
                                           L.Linear(1, 1, nobias=True))
            self.bn = L.BatchNormalization(2)


def wdcases(tier):
    for rate in (0., 0.1, 1., 1e-4):
        for pat in range(4):
            for oname in ('sgd', 'adam'):
                yield dict(rate=rate, pat=pat, opt=oname)


@chk.part('weight_decay', wdcases, timeout=60,
          bound='a nested chain x 4 rates x 4 patterns of absent gradients x '
                '2 optimizers, three updates')
def weight_decay(rec, c):
    def make():
        link = Named()
        for k, (n, p) in enumerate(sorted(link.namedparams())):
            p.array[...] = np.arange(p.size).reshape(p.shape) * 0.5 - 1 + k
        o = (chainer.optimizers.SGD(0.1) if c['opt'] == 'sgd'
             else chainer.optimizers.Adam(0.1))
        o.setup(link)
        return link, o
    link, opt = make()
    ref, ropt = make()
    opt.add_hook(NonbiasWeightDecay(c['rate']))
    for step in range(3):
        named = dict(ref.namedparams())
        for k, (n, p) in enumerate(sorted(link.namedparams())):
            q = named[n]
            rec.close(p.array, q.array, lambda: '{} after {} updates'.format(
                n, step), **tol(np.float32, 2))
            p.cleargrad(), q.cleargrad()
            # chainer takes an absent gradient as zero
            g = np.zeros(p.shape, dtype=np.float32)
            if not (c['pat'] and (k + step) % (c['pat'] + 1) == 0):
                g = np.full(p.shape, 0.25 * k - 1, dtype=np.float32)
                p.grad = g.copy()
            decay = 0. if n.split('/')[-1] == 'b' else c['rate']
            q.grad = g + np.float32(decay) * q.array
        opt.update()
        ropt.update()
        rec.trans()
    for n, p in link.namedparams():
        rec.close(p.array, dict(ref.namedparams())[n].array, n,
                  **tol(np.float32, 2))
    rec.trace()
    rec.state(c['rate'], c['pat'], c['opt'])
    rec.outcome(c['rate'], c['pat'], c['opt'])


# -------------------------------------------------------------- initialization

def initcases(tier):
    for kind in ('linear', 'nobias', 'conv', 'deep', 'root'):
        for u in (0., 0.25, 0.5, 1.):
            yield dict(kind=kind, u=u)
    for scale in (1.0, 0.4):
        for shape in ([4], [1], [2, 3], [3, 2, 2, 2]):
            yield dict(kind='const', scale=scale, shape=shape)
    for shape in ([], [1], [2, 2], [2, 3], [3, 2], [2, 1, 2], [4, 2, 1, 1]):
        for scale in (1.1, 1., 2.):
            for mode in ('auto', 'projection', 'embedding', 'basis'):
                yield dict(kind='orth', scale=scale, shape=shape, mode=mode)


@chk.part('initialization', initcases, timeout=60,
          bound='init_like_torch over 5 models x 4 outcomes of the noise; '
                'VarianceScalingConstant; Orthogonal over 7 shapes x modes')
def initialization(rec, c):
    if c['kind'] == 'const':
        a = np.zeros(c['shape'], dtype=np.float32)
        chainerrl.initializers.VarianceScalingConstant(c['scale'])(a)
        fan = c['shape'][0] if len(c['shape']) == 1 else np.prod(
            c['shape'][1:])
        rec.close(a, np.full(c['shape'], c['scale'] / np.sqrt(fan)),
                  'constant')
    elif c['kind'] == 'orth':
        orth(rec, c)
    else:
        torch_like(rec, c)
    rec.trans()
    rec.trace()
    rec.state(sorted(map(str, c.items())))
    rec.outcome(sorted(map(str, c.items())))


def orth(rec, c):
    shape = tuple(c['shape'])
    n = shape[0] if shape else 1
    m = int(np.prod(shape[1:])) if shape else 1
    for seed in range(4):
        np.random.seed(seed)
        a = np.zeros(shape, dtype=np.float32)
        bad = shape and ((c['mode'] in ('embedding', 'basis') and m > n)
                         or (c['mode'] in ('projection', 'basis') and m < n))
        try:
            chainerrl.initializers.Orthogonal(c['scale'], mode=c['mode'])(a)
        except ValueError:
            rec.expect(bad, 'a legal shape was refused')
            continue
        rec.expect(not bad, 'an illegal shape was accepted')
        q = a.reshape(n, m).astype(np.float64)
        g = q.dot(q.T) if n <= m else q.T.dot(q)
        rec.close(g, np.eye(min(n, m)) * c['scale'] ** 2, 'orthogonality',
                  atol=1e-5)


def torch_like(rec, c):
    u = c['u']
    lin = L.Linear(3, 2)
    conv = L.Convolution2D(2, 3, (2, 3))
    link = {'linear': lambda: chainer.ChainList(lin),
            'nobias': lambda: chainer.ChainList(L.Linear(3, 2, nobias=True)),
            'conv': lambda: chainer.ChainList(
                conv, L.Convolution2D(1, 2, 2, nobias=True)),
            'deep': lambda: chainer.ChainList(
                RL.MLP(4, 2, (5,)), chainer.ChainList(lin, conv),
                L.BatchNormalization(2), L.LSTM(2, 2)),
            'root': lambda: lin}[c['kind']]()
    other = {n: p.array.copy() for n, p in link.namedparams()}
    saved = np.random.uniform
    saved_rand = np.random.rand

    def uniform(low=0., high=1., size=None):
        return np.full(size if size is not None else (),
                       low + u * (high - low))
    np.random.uniform = uniform
    try:
        init_like_torch(link)
    finally:
        np.random.uniform = saved
        np.random.rand = saved_rand
    done = set()
    for n, l in link.namedlinks():
        if isinstance(l, (L.Linear, L.Convolution2D)):
            fan = int(np.prod(l.W.shape[1:]))
            s = 1 / np.sqrt(fan)
            for p in [l.W] + ([l.b] if l.b is not None else []):
                rec.close(p.array, np.full(p.shape, (2 * u - 1) * s),
                          'initial {} of {}'.format(p.name, n))
                done.add(id(p))
    for n, p in link.namedparams():
        if id(p) not in done:
            rec.eq(p.array, other[n], 'a parameter of another layer')


if __name__ == '__main__':
    raise SystemExit(chk.main())
