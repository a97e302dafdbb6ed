"""C31: explorers explore exactly as configured."""
import contextlib
import itertools
import logging
import warnings
from fractions import Fraction

import chainer
import numpy as np

from mc.choices import explore
from mc.core import Check
from mc.shim_random import RandomShim

warnings.filterwarnings('ignore')
logging.disable(logging.CRITICAL)

chk = Check(
    'C31',
    rule='all answers of the random generator are enumerated (uniform draws '
         'on the cells of a grid fine enough to be exact) for every listed '
         'explorer, parameter set and step; the probability of every action '
         'is compared with its exact value, noise processes with their '
         'recurrences over every scripted noise sequence',
    assumptions=['numpy.random functions have their documented '
                 'distributions'])

GRID = 16


def action_distribution(make, t, greedy, n):
    """Exact distribution of the actions of an explorer."""
    dist = {}
    first = {}

    def run(ch):
        shim = RandomShim(ch, grid=GRID)
        with shim.patched():
            a = make().select_action(t, lambda: greedy)
        return a, shim.prob
    k = 0
    for ch, (a, p) in explore(run, max_execs=20000):
        dist[a] = dist.get(a, 0) + p
        first.setdefault(a, ch.taken)
        k += 1
    return dist, k


def expected(eps, greedy, n):
    d = {a: eps / n for a in range(n) if eps}
    if eps < 1:
        d[greedy] = d.get(greedy, 0) + 1 - eps
    return d


def random_action(n):
    return lambda: int(np.random.randint(n))


def gen_eps(tier):
    deep = tier == 'thorough'
    for e in range(17):
        for n in (1, 3):
            yield ['const', e, e, 0, n]
    grid = (0, 4, 8, 16)
    for s, e in itertools.product(grid, repeat=2):
        for d in (0, 1, 2, 4) + ((8, 16) if deep else ()):
            if d and abs(s - e) * 2 % d:
                continue
            yield ['linear', s, e, d, 2]


@chk.part('epsilon-greedy', gen_eps, bound='all constant epsilons in '
          'multiples of 1/16, linear ones between multiples of 1/4 and 1/2 '
          'over 0-4 (thorough 16) steps, every step up to 3 after the end, '
          '1-3 actions')
def eps_case(rec, case):
    from chainerrl import explorers
    kind, s, e, d, n = case
    for t in range(d + 4):
        x = min(Fraction(t, d), Fraction(1)) if d else Fraction(1)
        eps = Fraction(s, 16) + (Fraction(e, 16) - Fraction(s, 16)) * x
        if (eps * GRID).denominator != 1:
            continue

        def make():
            if kind == 'const':
                return explorers.ConstantEpsilonGreedy(s / 16,
                                                       random_action(n))
            return explorers.LinearDecayEpsilonGreedy(
                s / 16, e / 16, d, random_action(n))
        greedy = n - 1
        got, k = action_distribution(make, t, greedy, n)
        rec.eq(got, expected(eps, greedy, n), lambda: '{} t={} action '
               'distribution'.format(case, t))
        rec.trace(k)
        rec.state(case, t)
        # the edges of the unit interval
        for u in (0., np.nextafter(1., 0.)):
            if eps in (0, 1):
                with fixed_unit(u):
                    flag = []
                    a = make_flag(kind, s, e, d, flag).select_action(
                        t, lambda: 7)
                rec.eq(a, -1 if eps else 7, lambda: '{} t={} answer {} of '
                       'the generator'.format(case, t, u))
                rec.trans()


def make_flag(kind, s, e, d, flag):
    from chainerrl import explorers
    if kind == 'const':
        return explorers.ConstantEpsilonGreedy(s / 16, lambda: -1)
    return explorers.LinearDecayEpsilonGreedy(s / 16, e / 16, d, lambda: -1)


@contextlib.contextmanager
def fixed_unit(u):
    names = ['rand', 'random', 'random_sample', 'uniform', 'sample', 'ranf']
    saved = {n: getattr(np.random, n) for n in names}
    try:
        for n in names:
            setattr(np.random, n, lambda *a, **k: u)
        yield
    finally:
        for n in names:
            setattr(np.random, n, saved[n])


def gen_seq(tier):
    deep = tier == 'thorough'
    for ts in itertools.product((0, 1, 2, 3, 5), repeat=4 if deep else 3):
        yield list(ts)


@chk.part('order of steps', gen_seq, bound='one decaying explorer asked at '
          'every sequence of 3 (thorough 4) of the steps 0, 1, 2, 3, 5')
def seq_case(rec, case):
    from chainerrl import explorers

    def run(ch):
        shim = RandomShim(ch, grid=8)
        ex = explorers.LinearDecayEpsilonGreedy(1., 0.25, 3, lambda: 1)
        out = []
        with shim.patched():
            for t in case:
                out.append(ex.select_action(t, lambda: 0))
        return tuple(out), shim.prob
    dist = {}
    for ch, (a, p) in explore(run):
        dist[a] = dist.get(a, 0) + p
        rec.trace()
    for a in itertools.product((0, 1), repeat=len(case)):
        want = Fraction(1)
        for t, x in zip(case, a):
            eps = Fraction(1) - Fraction(1, 4) * min(t, 3)
            want *= eps if x else 1 - eps
        rec.eq(dist.get(a, 0), want, lambda: 'actions {} at steps {}'.format(
            a, case))
    rec.state(case)


# --------------------------------------------------------------- boltzmann

QS = (-1., 0., 0.5, 2., 1000.)


def gen_boltz(tier):
    deep = tier == 'thorough'
    for n in (1, 2, 3) + ((4,) if deep else ()):
        for T in (0.05, 1., 3.):
            yield [n, T]


@chk.part('Boltzmann', gen_boltz, bound='all rows of 1-3 (thorough 4) values '
          'of a grid of 5, three temperatures')
def boltz_case(rec, case):
    from chainerrl import explorers
    from chainerrl.action_value import DiscreteActionValue
    n, T = case
    for q in itertools.product(QS, repeat=n):
        av = DiscreteActionValue(chainer.Variable(np.array([q], 'f')))
        z = np.array(q) / T
        p = np.exp(z - z.max())
        p /= p.sum()
        got = np.zeros(n)

        def run(ch):
            shim = RandomShim(ch, grid=64)
            with shim.patched():
                a = explorers.Boltzmann(T).select_action(
                    0, lambda: None, action_value=av)
            return a, shim.prob, [c[0] for c in shim.calls]
        names = []
        for ch, (a, pr, calls) in explore(run, max_execs=5000):
            got[int(a)] += float(pr)
            names += calls
            rec.trace()
        exact = 'choice' in names
        rec.close(got, p, lambda: 'Boltzmann T={} values {}'.format(T, q),
                  rtol=0, atol=1e-5 if exact else 1 / 32)
        # and the real generator accepts the probabilities
        np.random.seed(0)
        a = explorers.Boltzmann(T).select_action(0, lambda: None,
                                                 action_value=av)
        rec.expect(p[int(a)] > 0, lambda: 'impossible action')
        rec.state(n, T, q)


# ------------------------------------------------------------------- noise

@contextlib.contextmanager
def scripted_normals(z):
    """Every standard normal number drawn is the next of z."""
    it = iter(z)
    names = ['normal', 'standard_normal', 'randn']
    saved = {n: getattr(np.random, n) for n in names}

    def std(size=None, dtype=None):
        if size is None:
            return next(it)
        out = np.empty(size)
        f = out.reshape(-1)
        for i in range(f.size):
            f[i] = next(it)
        return f.reshape(out.shape)

    def normal(loc=0., scale=1., size=None):
        if size is None and (np.ndim(loc) or np.ndim(scale)):
            size = np.broadcast(loc, scale).shape
        return loc + np.asarray(scale) * std(size)
    try:
        np.random.normal = normal
        np.random.standard_normal = std
        np.random.randn = lambda *s: std(s or None)
        yield it
    finally:
        for n in names:
            setattr(np.random, n, saved[n])


Z = (-1.5, 0., 2.)
SHAPES = ((1,), (2,), (1, 2))


def gen_gauss(tier):
    for shape in range(len(SHAPES)):
        for scale in (0, 1, 2):
            for low in (None, -0.5, 'v'):
                for high in (None, 0.75, 'v'):
                    yield [shape, scale, low, high]


@chk.part('Gaussian noise', gen_gauss, bound='all noise vectors over three '
          'values, actions at, inside and outside the bounds, scalar and '
          'vector scales and bounds')
def gauss_case(rec, case):
    from chainerrl import explorers
    k, s, low, high = case
    shape = SHAPES[k]
    n = int(np.prod(shape))
    scale = [0.3, np.array([0.2, 0.6][:shape[-1]]), 0.][s]
    if low == 'v':
        low = np.array([-1., -0.2][:shape[-1]], 'f')
    if high == 'v':
        high = np.array([0.4, 0.9][:shape[-1]], 'f')
    for base in (0., 0.5, 1.5, -1.5):
        a = (base + 0.1 * np.arange(n).reshape(shape)).astype('f')
        for z in itertools.product(Z, repeat=n):
            ex = explorers.AdditiveGaussian(scale, low=low, high=high)
            keep = a.copy()
            with scripted_normals(z):
                got = ex.select_action(3, lambda: a)
            want = a + scale * np.array(z).reshape(shape)
            if low is not None:
                want = np.maximum(want, low)
            if high is not None:
                want = np.minimum(want, high)

            def what():
                return '{} action {} noise {}'.format(case, a, z)
            rec.eq(np.shape(got), shape, lambda: what() + ' shape')
            rec.eq(np.asarray(got).dtype, a.dtype, lambda: what() + ' type')
            rec.close(got, want, what, rtol=1e-5, atol=1e-6)
            rec.expect(np.array_equal(a, keep), lambda: what() +
                       ' greedy action modified')
            if low is not None:
                rec.expect((got >= low).all(), lambda: what() + ' bound')
            if high is not None:
                rec.expect((got <= high).all(), lambda: what() + ' bound')
            rec.trace()
            rec.state(case, base, z)


def gen_ou(tier):
    for n in (1, 2):
        for start in (False, True):
            for mu in (0., 0.5):
                for theta in (0.15, 0.5):
                    for sigma in (0.3, 'v'):
                        yield [n, start, mu, theta, sigma, tier]


@chk.part('Ornstein-Uhlenbeck noise', gen_ou, bound='all noise sequences '
          'over three values of 4 (thorough 6) calls for 1, of 3 for 2 '
          'dimensions')
def ou_case(rec, case):
    from chainerrl import explorers
    n, start, mu, theta, sigma, tier = case
    if sigma == 'v':
        sigma = np.array([0.2, 0.7][:n])
    steps = (6 if tier == 'thorough' else 4) if n == 1 else 3
    total = steps - 1 if start else steps
    for z in itertools.product(Z, repeat=total * n):
        ex = explorers.AdditiveOU(mu, theta, sigma, start_with_mu=start)
        zs = np.array(z).reshape(total, n)
        outs = []
        with scripted_normals(z):
            for i in range(steps):
                a = np.full(n, 0.1 * i, 'f')
                outs.append((a, ex.select_action(i, lambda: a)))
                rec.eq(np.asarray(outs[-1][1]).dtype, a.dtype, 'type')
        x = None
        j = 0
        for i, (a, got) in enumerate(outs):
            if x is None:
                if start:
                    x = np.full(n, mu, float)
                else:
                    x = mu + sigma / np.sqrt(
                        2 * theta - theta ** 2) * zs[j]
                    j += 1
            else:
                x = x + theta * (mu - x) + sigma * zs[j]
                j += 1

            def what():
                return 'AdditiveOU {} noise {} step {}'.format(case, z, i)
            rec.eq(np.shape(got), (n,), lambda: what() + ' shape')
            rec.close(got, a + x, what, rtol=1e-4, atol=1e-5)
            rec.trans()
        rec.trace()
    rec.state(case)


@chk.part('no exploration', lambda tier: [[0]], bound='one')
def greedy_case(rec, case):
    from chainerrl import explorers
    for a in (0, np.float32(1), np.ones(2), None):
        rec.expect(explorers.Greedy().select_action(0, lambda: a) is a,
                   'Greedy changed the action')
    rec.state('greedy')


if __name__ == '__main__':
    raise SystemExit(chk.main())
