"""C33: policy distributions are what their parameters say."""
import contextlib
import itertools
import warnings

import chainer
import chainer.functions as F
import numpy as np
import scipy.optimize

from mc.choices import explore
from mc.core import Check
from mc.shim_random import RandomShim

warnings.filterwarnings('ignore')

chk = Check(
    'C33',
    rule='every batch of distributions over a finite grid of parameters is '
         'built in every class, and all queries, sequences of queries inside '
         'and outside of no-backprop scopes, slices and copies are compared '
         'with exact values and (numerical, double precision) gradients; '
         'sampling is run for every assignment of noise from a grid',
    assumptions=['comparison within single-precision tolerance',
                 'noise is enumerated on a grid of values of the generator\'s '
                 'output, not over its whole range'])

TOL = dict(rtol=2e-4, atol=2e-5)


def f64(v):
    return np.asarray(getattr(v, 'array', v), dtype=np.float64)


# ------------------------------------------------------------- references

def softmax(x):
    e = np.exp(x - x.max(axis=1, keepdims=True))
    return e / e.sum(axis=1, keepdims=True)


def mellowmax_beta(v, omega):
    m = v.max()
    mm = m + np.log(np.mean(np.exp(omega * (v - m)))) / omega
    adv = v - mm

    def f(b):
        return np.sum(np.exp(b * adv) * adv)
    if np.ptp(v) < 1e-9:
        return 0., True
    if f(-10) * f(10) > 0:
        return 0., False
    return scipy.optimize.brentq(f, -10, 10), True


class Cat(object):
    """Reference of a categorical distribution."""
    queries = ('all_prob', 'all_log_prob', 'prob', 'log_prob', 'entropy',
               'most_probable', 'kl')

    def __init__(self, kind, par):
        self.kind, self.par = kind, par

    def make(self, arrays):
        from chainerrl import distribution as d
        if self.kind == 'softmax':
            beta, mp = self.par
            return d.SoftmaxDistribution(arrays[0], beta=beta, min_prob=mp)
        return d.MellowmaxDistribution(arrays[0], omega=self.par[0])

    def p(self, params):
        x = params[0]
        if self.kind == 'softmax':
            beta, mp = self.par
            return softmax(beta * x) * (1 - mp * x.shape[1]) + mp
        return softmax(np.array([
            mellowmax_beta(r, self.par[0])[0] * r for r in x]))

    def value(self, query, params, xs, other):
        p = self.p(params)
        idx = np.arange(len(p))
        if query == 'all_prob':
            return p
        if query == 'all_log_prob':
            return np.log(p)
        if query == 'prob':
            return p[idx, xs]
        if query == 'log_prob':
            return np.log(p[idx, xs])
        if query == 'entropy':
            return -(p * np.log(p)).sum(axis=1)
        if query == 'kl':
            return (p * (np.log(p) - np.log(self.p(other)))).sum(axis=1)
        raise ValueError(query)

    def differentiable(self):
        return self.kind == 'softmax'

    def xs(self, params):
        B, A = params[0].shape
        return [np.array(v, 'i') for v in
                itertools.product(range(A), repeat=B)]

    def most_probable_ok(self, got, params):
        p = self.p(params)
        return (np.issubdtype(got.dtype, np.integer)
                and got.shape == (len(p),)
                and all(0 <= g < p.shape[1] and r[g] >= r.max() - 1e-5
                        for g, r in zip(got, p)))


def gauss_ll(x, m, v):
    return -0.5 * np.log(2 * np.pi * v) - (x - m) ** 2 / (2 * v)


class Gauss(object):
    queries = ('prob', 'log_prob', 'entropy', 'most_probable', 'kl')

    def __init__(self, kind='gauss', par=None):
        self.kind = kind

    def make(self, arrays):
        from chainerrl import distribution as d
        if self.kind == 'gauss':
            return d.GaussianDistribution(*arrays)
        return d.SquashedGaussianDistribution(*arrays)

    def value(self, query, params, xs, other):
        m, v = params
        if query == 'log_prob':
            if self.kind == 'gauss':
                return gauss_ll(xs, m, v).sum(axis=1)
            return (gauss_ll(np.arctanh(xs), m, v)
                    - np.log(1 - xs ** 2)).sum(axis=1)
        if query == 'prob':
            return np.exp(self.value('log_prob', params, xs, other))
        if query == 'entropy':
            return 0.5 * np.log(2 * np.pi * np.e * v).sum(axis=1)
        if query == 'kl':
            m2, v2 = other
            return 0.5 * (np.log(v2 / v) + (v + (m - m2) ** 2) / v2
                          - 1).sum(axis=1)
        raise ValueError(query)

    def differentiable(self):
        return True

    def xs(self, params):
        B, A = params[0].shape
        g = (-0.6, 0.3) if self.kind != 'gauss' else (-1.5, 0.25)
        out = []
        for v in itertools.product(g, repeat=A):
            out.append(np.array([v] + [v[::-1]] * (B - 1), 'f'))
        return out

    def most_probable_ok(self, got, params):
        m = params[0]
        if self.kind != 'gauss':
            m = np.tanh(m)
        return got.shape == m.shape and np.allclose(got, m, **TOL)


class Squashed(Gauss):
    queries = ('prob', 'log_prob', 'most_probable')

    def __init__(self, par=None):
        Gauss.__init__(self, 'squashed')


KINDS = [('softmax', b, mp) for b in (1., 0.5, 2.) for mp in (0., 0.1)] + [
    ('mellowmax', 1.), ('mellowmax', 4.), ('mellowmax', 8.),
    ('gauss',), ('squashed',)]


def ref_of(kind):
    kind = tuple(kind)
    if kind[0] in ('softmax', 'mellowmax'):
        return Cat(kind[0], kind[1:])
    return Gauss() if kind[0] == 'gauss' else Squashed()


def universe(kind, deep):
    kind = tuple(kind)
    if kind[0] in ('softmax', 'mellowmax'):
        grid = (-1., 0., 1.5)
        for B, A in ((1, 1), (1, 2), (1, 3), (2, 2)) + (
                ((2, 3), (1, 4)) if deep else ()):
            for v in itertools.product(grid, repeat=B * A):
                yield [np.reshape(v, (B, A))]
    else:
        ms, vs = (-1., 0.5), (0.25, 2.)
        for B, A in ((1, 1), (1, 2), (2, 1)) + (((2, 2),) if deep else ()):
            for m in itertools.product(ms, repeat=B * A):
                for v in itertools.product(vs, repeat=B * A):
                    yield [np.reshape(m, (B, A)), np.reshape(v, (B, A))]


def other_of(params):
    if len(params) == 1:
        return [np.roll(params[0], 1, axis=1) * 0.5 + 0.1]
    return [params[0] * 0.5 + 0.2, params[1] * 1.5]


def ask(d, query, xs, q):
    if query in ('prob', 'log_prob'):
        return getattr(d, query)(xs)
    if query == 'kl':
        return d.kl(q)
    return getattr(d, query)


def numgrad(f, params, shape, h=1e-5):
    """Central differences of sum(w * f(params))."""
    out = []
    for k, p in enumerate(params):
        g = np.zeros(p.shape)
        for ix in np.ndindex(p.shape):
            hi = [np.array(a, dtype=np.float64) for a in params]
            lo = [np.array(a, dtype=np.float64) for a in params]
            hi[k][ix] += h
            lo[k][ix] -= h
            g[ix] = (f(hi) - f(lo)) / (2 * h)
        out.append(g)
    return out


def weights(shape):
    n = int(np.prod(shape))
    return (np.arange(n) * 0.7 - 0.4).reshape(shape)


def variables(params):
    return [chainer.Variable(np.array(p, 'f')) for p in params]


def compare(rec, ref, params, other, vs, got, query, xs, what, grads=True):
    if query == 'most_probable':
        rec.expect(ref.most_probable_ok(got.array, params),
                   lambda: what() + ': {}'.format(got.array.tolist()))
        return
    want = ref.value(query, params, xs, other)
    rec.eq(np.shape(got.array), np.shape(want), what)
    rec.close(f64(got), want, what, **TOL)
    if not grads or not ref.differentiable():
        return
    w = weights(np.shape(want))
    for v in vs:
        v.cleargrad()
    F.sum(got * w.astype('f')).backward()
    wantg = numgrad(
        lambda ps: (w * ref.value(query, ps, xs, other)).sum(), params, None)
    for v, g in zip(vs, wantg):
        got_g = np.zeros(g.shape) if v.grad is None else v.grad
        rec.close(got_g, g, lambda: what() + ' gradient', rtol=1e-3,
                  atol=2e-4)


def gen(tier):
    deep = tier == 'thorough'
    for kind in KINDS:
        n = sum(1 for _ in universe(kind, deep))
        for i in range(0, n, 20):
            yield [list(kind), i, deep]


@chk.part('values', gen, bound='all batches over a grid of 3 logits (4 pairs '
          'of mean and variance per dimension) up to 1x3 and 2x2 (thorough '
          '1x4, 2x3), every query, every action')
def values(rec, case):
    kind, i, deep = case
    ref = ref_of(kind)
    for params in itertools.islice(universe(kind, deep), i, i + 20):
        other = other_of(params)
        allx = ref.xs(params)
        for j, xs in enumerate(allx):
            for query in ref.queries:
                if j and query not in ('prob', 'log_prob'):
                    continue
                vs = variables(params)
                d = ref.make(vs)
                q = ref.make(variables(other))

                def what():
                    return '{} {} {} of {}'.format(
                        kind, [p.tolist() for p in params], query,
                        xs.tolist())
                # gradients for a few of the actions are enough: they are
                # the same selection
                compare(rec, ref, params, other, vs, ask(d, query, xs, q),
                        query, xs, what, grads=j < 2)
                if j == 0:
                    rec.expect(len(d.params) == len(vs) and all(
                        a is b for a, b in zip(d.params, vs)), 'params')
                rec.trans()
        d = ref.make(variables(params))
        if 'kl' in ref.queries:
            for same in (d, d.copy(), ref.make(variables(params))):
                rec.close(f64(d.kl(same)), np.zeros(len(params[0])),
                          lambda: '{} kl to itself'.format(kind), **TOL)
            v = f64(d.kl(ref.make(variables(other))))
            rec.expect((v >= -1e-5).all(), lambda: 'negative kl {}'.format(v))
        if kind[0] in ('softmax', 'mellowmax'):
            p = f64(d.all_prob)
            rec.close(p.sum(axis=1), np.ones(len(p)), 'total probability',
                      **TOL)
            if kind[0] == 'softmax':
                rec.expect((p >= kind[2] - 1e-6).all(), lambda:
                           'min_prob {}: {}'.format(kind, p.tolist()))
            else:
                for row, r in zip(p, params[0]):
                    b, inside = mellowmax_beta(r, kind[1])
                    if inside:
                        mm = np.log(np.mean(np.exp(kind[1] * r))) / kind[1]
                        rec.close((row * r).sum(), mm, lambda: 'expectation '
                                  'of mellowmax {} {}'.format(kind, r), **TOL)
                    rec.outcome('inside' if inside else 'outside')
        slices(rec, kind, ref, params, other)
        copies(rec, kind, ref, params, other)
        rec.trace()
        rec.state(kind, [p.tolist() for p in params])


def slices(rec, kind, ref, params, other):
    B = len(params[0])
    for ix in [slice(0, 1), slice(1, None), slice(None),
               slice(None, None, -1), list(range(B))[::-1],
               np.arange(B) % 2 == 0]:
        n = len(np.arange(B)[ix])
        if not n:
            continue
        sub = ref.make(variables(params))[ix]
        sp = [np.asarray(p)[ix] for p in params]
        so = [np.asarray(p)[ix] for p in other]
        q = ref.make(variables(so))
        xs = ref.xs(sp)[-1]
        for query in ref.queries:
            def what():
                return '{} {} slice {} {}'.format(
                    kind, [p.tolist() for p in params], ix, query)
            compare(rec, ref, sp, so, None, ask(sub, query, xs, q), query,
                    xs, what, grads=False)


def copies(rec, kind, ref, params, other):
    """A copy answers as the original, is cut off from its graph and does
    not follow later changes of its arrays."""
    for raw in (False, True):
        if raw and kind[0] in ('softmax', 'mellowmax'):
            arrays = [np.array(p, 'f') for p in params]
            vs = arrays
        else:
            vs = variables(params)
            arrays = [v.array for v in vs]
        d = ref.make([v * 1 for v in vs] if not raw else vs)
        c = d.copy()
        for a in arrays:
            a[...] = 0.77
        for a in d.params:
            getattr(a, 'array', a)[...] = 0.33
        q = ref.make(variables(other))
        xs = ref.xs(params)[-1]
        for query in ref.queries:
            def what():
                return '{} {} copy {}'.format(
                    kind, [p.tolist() for p in params], query)
            rec.expect(type(c) is type(d), 'class of a copy')
            got = ask(c, query, xs, q)
            compare(rec, ref, params, other, None, got, query, xs, what,
                    grads=False)
            if not raw and query != 'most_probable' and query != 'kl':
                for v in vs:
                    v.cleargrad()
                if got.requires_grad:
                    F.sum(got).backward()
                rec.expect(all(v.grad is None for v in vs), lambda: what()
                           + ' is chained to the original')


# -------------------------------------------------- order of queries

CHOSEN = {'softmax': [[[-1., 2., 0.3], [0.5, 0., 0.]]],
          'mellowmax': [[[-1., 2., 0.3], [0.5, 0., 0.]]],
          'gauss': [[[-1., 2.], [0.5, 0.]], [[0.3, 2.], [1., 0.5]]],
          'squashed': [[[-1., 2.], [0.5, 0.]], [[0.3, 2.], [1., 0.5]]]}
FORCED = {'all_prob', 'all_log_prob', 'entropy'}


def gen_order(tier):
    deep = tier == 'thorough'
    for kind in (('softmax', 1., 0.), ('softmax', 0.5, 0.1),
                 ('mellowmax', 4.), ('gauss',), ('squashed',)):
        n = len(ref_of(kind).queries)
        for qs in itertools.product(range(n), repeat=3 if deep else 2):
            yield [list(kind), list(qs)]


@chk.part('order of queries', gen_order, bound='all sequences of 2 (thorough '
          '3) queries, each inside or outside of a no-backprop scope')
def order(rec, case):
    kind, qs = case
    ref = ref_of(kind)
    params = [np.array(p) for p in CHOSEN[kind[0]]]
    other = other_of(params)
    xs = ref.xs(params)[1]
    for scope in itertools.product((False, True), repeat=len(qs)):
        vs = variables(params)
        d = ref.make(vs)
        q = ref.make(variables(other))
        for k, nb in zip(qs, scope):
            query = ref.queries[k]

            def what():
                return '{} queries {} in no-backprop scopes {}'.format(
                    kind, [ref.queries[j] for j in qs], scope)
            with (chainer.no_backprop_mode() if nb
                  else contextlib.suppress()):
                got = ask(d, query, xs, q)
            compare(rec, ref, params, other, vs, got, query, xs, what,
                    grads=not nb or query in FORCED)
            rec.trans()
        rec.trace()
        rec.state(kind, qs, scope)


# ------------------------------------------------------------- sampling

class Noise(RandomShim):
    """Gumbel and normal noise as choices from a grid; other functions of
    numpy.random are answered by the exact enumeration of RandomShim."""
    GUMBEL = (-1., 0.5, 2.)
    NORMAL = (-1.25, 0.5)

    def __init__(self, ch):
        RandomShim.__init__(self, ch)
        self.gumbels, self.normals = [], []

    def gumbel(self, loc=0., scale=1., size=None):
        g = np.asarray(self._fill(size, lambda: self.GUMBEL[
            self.ch.choose(len(self.GUMBEL), 'gumbel')]), dtype=float)
        self.gumbels.append(g)
        return loc + scale * g

    def standard_normal(self, size=None, dtype=np.float64):
        if size is not None and not np.isscalar(size):
            size = tuple(size)
        g = np.asarray(self._fill(size, lambda: self.NORMAL[
            self.ch.choose(len(self.NORMAL), 'normal')]), dtype=dtype)
        self.normals.append(g)
        return g

    def normal(self, loc=0., scale=1., size=None):
        return loc + scale * self.standard_normal(size)

    def randn(self, *shape):
        return self.standard_normal(shape or None)

    @contextlib.contextmanager
    def patched(self):
        names = ('gumbel', 'standard_normal', 'normal', 'randn')
        saved = {k: getattr(np.random, k) for k in names}
        with RandomShim.patched(self):
            try:
                for k in names:
                    setattr(np.random, k, getattr(self, k))
                yield self
            finally:
                for k, v in saved.items():
                    setattr(np.random, k, v)


CAT_PARAMS = [[[0., 1.]], [[0.3, 0.3]], [[-1., 2., 0.3]],
              [[0., -200., 0.2]], [[-1., 1.], [2., 0.5]]]


def gen_cat(tier):
    for kind in KINDS:
        if kind[0] in ('softmax', 'mellowmax'):
            for i in range(len(CAT_PARAMS)):
                for how in ('sample', 'with_log_prob'):
                    yield [list(kind), i, how]


@chk.part('categorical samples', gen_cat, bound='every assignment of Gumbel '
          'noise from a grid of 3 values to up to 4 entries')
def cat_samples(rec, case):
    kind, i, how = case
    ref = ref_of(kind)
    params = [np.array(CAT_PARAMS[i])]
    p = ref.p(params)
    B, A = p.shape
    law = {}

    def run(ch):
        shim = Noise(ch)
        d = ref.make(variables(params))
        with shim.patched():
            if how == 'sample':
                s = d.sample()
            else:
                s, lp = d.sample_with_log_prob()
        rec.eq(s.array.shape, (B,), 'shape of samples')
        rec.expect(np.issubdtype(s.array.dtype, np.integer), 'type of samples')
        a = s.array
        rec.expect(((a >= 0) & (a < A)).all(), lambda: 'sample {}'.format(a))
        rec.expect(all(p[b, a[b]] > 1e-30 for b in range(B)), lambda:
                   'impossible sample {} from {}'.format(a, p.tolist()))
        if how != 'sample':
            rec.close(f64(lp), np.log(p[np.arange(B), a]),
                      lambda: '{} log_prob of a sample'.format(case), **TOL)
        if shim.gumbels:
            rec.eq(len(shim.gumbels), 1, 'gumbel draws')
            g = shim.gumbels[0]
            rec.eq(g.shape, (B, A), 'one Gumbel number per action')
            s_ = np.log(np.maximum(p, 1e-300)) + g
            rec.expect(all(s_[b, a[b]] >= s_[b].max() - 1e-4
                           for b in range(B)), lambda:
                       '{} noise {} gives {}'.format(case, g.tolist(), a))
        else:
            k = tuple(int(x) for x in a)
            law[k] = law.get(k, 0) + float(shim.prob)
        rec.outcome(tuple(int(x) for x in a))
        rec.trans()
        rec.state(case, [g.tolist() for g in shim.gumbels])
    rec.trace(sum(1 for _ in explore(run)))
    for k, v in law.items():
        rec.close(v, np.prod(p[np.arange(B), list(k)]), lambda:
                  '{} probability of the samples {}'.format(case, k),
                  rtol=0.02, atol=0.01)


def gen_gauss(tier):
    for kind in ('gauss', 'squashed', 'deterministic'):
        for how in ('sample', 'with_log_prob'):
            for m in ([[0.5]], [[-1., 0.3]], [[0.2], [3.]],
                      [[0.2, -8.], [3., 1.]]):
                for v in (0.04, 1.):
                    if kind == 'deterministic' and (how != 'sample'
                                                    or v != 1.):
                        continue
                    yield [kind, how, m, v]


@chk.part('continuous samples', gen_gauss, bound='every assignment of normal '
          'noise from a grid of 2 values to up to 4 entries; samples, log '
          'probabilities and reparameterization gradients')
def gauss_samples(rec, case):
    from chainerrl import distribution as D
    kind, how, m, v = case
    m = np.array(m)
    var = np.full(m.shape, v) * (1 + np.arange(m.shape[1]))
    if kind == 'deterministic':
        x = variables([m])[0]
        d = D.ContinuousDeterministicDistribution(x)
        for got in (d.sample(), d.most_probable, d.copy().sample(),
                    d.params[0]):
            rec.close(f64(got), m, 'deterministic distribution', **TOL)
        c = d.copy()
        x.array[...] = 9
        rec.close(f64(c.sample()), m, 'copy of a deterministic distribution',
                  **TOL)
        rec.trace()
        return

    def run(ch):
        shim = Noise(ch)
        vs = variables([m, var])
        d = (D.GaussianDistribution(*vs) if kind == 'gauss'
             else D.SquashedGaussianDistribution(*vs))
        with shim.patched():
            if how == 'sample':
                s, lp = d.sample(), None
            else:
                s, lp = d.sample_with_log_prob()
        rec.eq(len(shim.normals), 1, 'normal draws')
        z = shim.normals[0].astype(np.float64)
        rec.eq(z.shape, m.shape, 'one number per component')

        def sample(ps):
            x = ps[0] + z * np.sqrt(ps[1])
            return x if kind == 'gauss' else np.tanh(x)

        def logp(ps):
            # of the sample as a function of the parameters, through it
            x = ps[0] + z * np.sqrt(ps[1])
            ll = gauss_ll(x, *ps)
            if kind != 'gauss':
                # log(1 - tanh(x)^2), stably
                ll = ll - (2 * (np.log(2.) - x - np.logaddexp(0, -2 * x)))
            return ll.sum(axis=1)
        ps = [m, var]

        def what():
            return '{} noise {}'.format(case, z.tolist())
        rec.close(f64(s), sample(ps), what, **TOL)
        if kind != 'gauss':
            rec.expect((np.abs(s.array) <= 1).all(), 'range of samples')
        checks = [(s, sample)]
        if lp is not None:
            rec.close(f64(lp), logp(ps), lambda: what() + ' log_prob',
                      rtol=1e-3, atol=1e-4)
            checks.append((lp, logp))
        for got, f in checks:
            w = weights(got.shape)
            for x in vs:
                x.cleargrad()
            F.sum(got * w.astype('f')).backward(retain_grad=False)
            want = numgrad(lambda q: (w * f(q)).sum(), ps, None)
            for x, g in zip(vs, want):
                got_g = np.zeros(g.shape) if x.grad is None else x.grad
                rec.close(got_g, g, lambda: what() + ' gradient',
                          rtol=2e-3, atol=1e-3)
        rec.trans()
        rec.state(case, z.tolist())
    rec.trace(sum(1 for _ in explore(run)))


# ---------------------------------------------------------- the functions

def gen_mm(tier):
    grid = (-1., 0., 0.5, 2.)
    for omega in (-3., 0.5, 1., 10.):
        for n in (1, 2, 3) + ((4,) if tier == 'thorough' else ()):
            yield [omega, n, list(grid)]


@chk.part('mellowmax', gen_mm, bound='every vector of up to 3 (thorough 4) '
          'values from a grid of 4, four omegas, both axes')
def mm(rec, case):
    from chainerrl.functions import mellowmax
    omega, n, grid = case
    x = np.array(list(itertools.product(grid, repeat=n)), 'f')
    want = np.log(np.mean(np.exp(omega * x.astype(np.float64)), axis=1)
                  ) / omega
    rec.close(f64(mellowmax.mellowmax(x, omega=omega)), want,
              lambda: 'mellowmax {}'.format(case), **TOL)
    rec.close(f64(mellowmax.mellowmax(x.T.copy(), omega=omega, axis=0)), want,
              lambda: 'mellowmax axis 0 {}'.format(case), **TOL)
    p = f64(mellowmax.maximum_entropy_mellowmax(x, omega=omega))
    for r, row in zip(x.astype(np.float64), p):
        b, inside = mellowmax_beta(r, omega)
        rec.close(row, softmax((b * r)[None])[0], lambda:
                  'maximum entropy mellowmax {} {} beta {}'.format(
                      omega, r, b), rtol=5e-3, atol=1e-3)
        rec.trans()
    rec.trace(len(x))
    rec.state(case)


if __name__ == '__main__':
    raise SystemExit(chk.main())
