"""C32: action values answer every query consistently."""
import itertools
import warnings

import chainer
import chainer.functions as F
import numpy as np

from mc.core import Check

warnings.filterwarnings('ignore')

chk = Check(
    'C32',
    rule='every batch of action values over a finite grid is built in every '
         'class, and every sequence of queries (greedy actions, maximum, '
         'evaluation, advantages, expectation, slices), inside and outside '
         'of no-backprop scopes, up to a length is answered and compared '
         'with exact values and exact gradients',
    assumptions=['comparison within single-precision tolerance',
                 'backpropagation through elementary functions is trusted'])

TOL = dict(rtol=1e-4, atol=1e-5)


def V(x):
    return chainer.Variable(np.array(x, dtype='f'))


def f64(v):
    return np.asarray(getattr(v, 'array', v), dtype=np.float64)


def softmax(x):
    e = np.exp(x - x.max(axis=1, keepdims=True))
    return e / e.sum(axis=1, keepdims=True)


class Ref(object):
    """Values and gradients with respect to the parameter array, for action
    values that are linear in it: q[b, a] = sum_k w[k] * param..."""

    def __init__(self, kind, x, z=None):
        self.kind, self.x, self.z = kind, np.asarray(x, np.float64), z
        if kind == 'discrete':
            self.q = self.x
        elif kind == 'distributional':
            self.q = (self.x * z).sum(axis=2)
        elif kind == 'quantile':
            self.q = self.x.mean(axis=1)
        self.B, self.A = self.q.shape

    def grad(self, co):
        """Gradient at the parameters for coefficients co on q."""
        if self.kind == 'discrete':
            return co
        if self.kind == 'distributional':
            return co[:, :, None] * self.z
        return np.broadcast_to(co[:, None, :] / self.x.shape[1],
                               self.x.shape)

    def onehot(self, acts):
        return np.eye(self.A)[np.asarray(acts, int)]

    def answer(self, query, acts):
        """-> value, coefficients on q (or None)."""
        g = self.q.argmax(axis=1)
        idx = np.arange(self.B)
        if query == 'greedy':
            return g, None
        if query == 'max':
            return self.q[idx, g], self.onehot(g)
        if query == 'eval':
            return self.q[idx, acts], self.onehot(acts)
        if query == 'adv':
            return (self.q[idx, acts] - self.q[idx, g],
                    self.onehot(acts) - self.onehot(g))
        if query == 'double':
            other = (np.asarray(acts) + 1) % self.A
            return (self.q[idx, acts] - self.q[idx, other],
                    self.onehot(acts) - self.onehot(other))
        if query == 'expect':
            beta = 0.7
            p = softmax(beta * self.q)
            e = (p * self.q).sum(axis=1)
            return e, p + beta * p * (self.q - e[:, None])
        if query == 'q':
            return self.q, None
        raise ValueError(query)


def ask(av, query, acts, A):
    acts = np.asarray(acts, 'i')
    if query == 'greedy':
        return av.greedy_actions
    if query == 'max':
        return av.max
    if query == 'eval':
        return av.evaluate_actions(acts)
    if query == 'adv':
        return av.compute_advantage(acts)
    if query == 'double':
        return av.compute_double_advantage(acts, (acts + 1) % A)
    if query == 'expect':
        return av.compute_expectation(0.7)
    if query == 'q':
        return av.q_values
    raise ValueError(query)


QUERIES = ('greedy', 'max', 'eval', 'adv', 'double', 'expect', 'q')
GRID = (-1., 0., 2.)
Z = np.array([-2., 0.5, 4.], 'f')


def build(kind, x):
    from chainerrl import action_value as m
    p = chainer.Variable(np.array(x, 'f'))
    if kind == 'discrete':
        return p, m.DiscreteActionValue(p)
    if kind == 'distributional':
        return p, m.DistributionalDiscreteActionValue(p, Z)
    return p, m.QuantileDiscreteActionValue(p)


def universe(kind, deep):
    """Batches of parameters."""
    # one batch of distinct values of every shape
    for B, T, A in itertools.product((1, 2, 3, 4), (1, 2, 3), (1, 2, 3)):
        if T != {'discrete': 1, 'distributional': 3}.get(kind, T):
            continue
        shape = {'discrete': (B, A), 'distributional': (B, A, T),
                 'quantile': (B, T, A)}[kind]
        x = (np.arange(B * T * A) * 7 % (B * T * A + 3) + 1.).reshape(shape)
        if kind == 'distributional':
            x /= x.sum(axis=2, keepdims=True)
        yield x
    if kind == 'discrete':
        for B, A in ((1, 1), (1, 2), (1, 3), (2, 2)) + (
                ((2, 3), (1, 4), (3, 2)) if deep else ()):
            for v in itertools.product(GRID, repeat=B * A):
                yield np.reshape(v, (B, A))
    elif kind == 'distributional':
        ps = [(1., 0, 0), (0, 1., 0), (0.25, 0.25, 0.5), (0.5, 0, 0.5)]
        for B, A in ((1, 2), (2, 2)) + (((1, 4), (2, 3)) if deep else ()):
            for v in itertools.product(ps, repeat=B * A):
                yield np.reshape(v, (B, A, 3))
    else:
        for B, T, A in ((1, 2, 2), (2, 1, 2), (1, 3, 2) if deep
                        else (1, 1, 3)):
            for v in itertools.product(GRID, repeat=B * T * A):
                yield np.reshape(v, (B, T, A))


KINDS = ('discrete', 'distributional', 'quantile')


def gen(tier):
    deep = tier == 'thorough'
    for kind in KINDS:
        n = sum(1 for _ in universe(kind, deep))
        for i in range(0, n, 30):
            yield [kind, i, deep]


def compare(rec, kind, ref, p, got, query, acts, what, backprop=True):
    want, co = ref.answer(query, acts)
    rec.close(f64(got), want, what, **TOL)
    if co is None or not backprop:
        return
    p.cleargrad()
    F.sum(got).backward()
    rec.expect(p.grad is not None, lambda: what() + ': no gradient')
    rec.close(p.grad, ref.grad(co), lambda: what() + ' gradient', **TOL)


@chk.part('values', gen, bound='all batches over a grid of 3 values (4 '
          'distributions), shapes up to 2x2 (thorough 2x3), and one batch of '
          'every shape up to 4 rows and 3 actions, all actions, '
          'every query')
def values(rec, case):
    kind, i, deep = case
    for x in itertools.islice(universe(kind, deep), i, i + 30):
        ref = Ref(kind, x, Z)
        for acts in itertools.product(range(ref.A), repeat=ref.B):
            p, av = build(kind, x)
            for query in QUERIES:
                def what():
                    return '{} {} {} of actions {}'.format(
                        kind, x.tolist(), query, acts)
                compare(rec, kind, ref, p, ask(av, query, acts, ref.A),
                        query, acts, what)
                rec.trans()
            extra(rec, kind, p, av, x, acts, ref)
        slices(rec, kind, x, ref)
        rec.trace()
        rec.state(kind, x.tolist())


def extra(rec, kind, p, av, x, acts, ref):
    idx = np.arange(ref.B)
    a = np.asarray(acts, 'i')
    rec.eq(int(av.n_actions), ref.A, 'n_actions')
    rec.expect(len(av.params) == 1 and av.params[0] is p, 'params')
    if kind == 'distributional':
        g = ref.q.argmax(axis=1)
        rec.close(f64(av.max_as_distribution), x[idx, g],
                  lambda: 'max_as_distribution {}'.format(x.tolist()), **TOL)
        for acts_ in (a, chainer.Variable(a).array):
            d = av.evaluate_actions_as_distribution(acts_)
            rec.close(f64(d), x[idx, a], lambda:
                      'evaluate_actions_as_distribution {} {}'.format(
                          x.tolist(), acts), **TOL)
        p.cleargrad()
        w = np.arange(d.array.size, dtype='f').reshape(d.shape)
        F.sum(d * w).backward()
        g = np.zeros(x.shape)
        g[idx, a] = w
        rec.close(p.grad, g, lambda: 'gradient of a distribution', **TOL)
    if kind == 'quantile':
        for acts_ in (a, chainer.Variable(a)):
            d = av.evaluate_actions_as_quantiles(acts_)
            rec.close(f64(d), x[idx, :, a], lambda:
                      'evaluate_actions_as_quantiles {} {}'.format(
                          x.tolist(), acts), **TOL)


def slices(rec, kind, x, ref):
    B = ref.B
    for ix in [slice(0, 1), slice(1, None), slice(None),
               slice(None, None, -1), list(range(B))[::-1],
               np.arange(B) % 2 == 0]:
        n = len(np.arange(B)[ix])
        if not n:
            continue
        p, av = build(kind, x)
        sub = av[ix]
        r = Ref(kind, np.asarray(x)[ix], Z)
        for query in QUERIES:
            acts = [k % r.A for k in range(n)]
            rec.close(f64(ask(sub, query, acts, r.A)),
                      r.answer(query, acts)[0],
                      lambda: '{} {} slice {} {}'.format(
                          kind, x.tolist(), ix, query), **TOL)


# -------------------------------------------------- order of queries

def gen_order(tier):
    deep = tier == 'thorough'
    for kind in KINDS:
        for qs in itertools.product(range(len(QUERIES)), repeat=3 if deep
                                    else 2):
            yield [kind, list(qs)]


CHOSEN = {'discrete': [[-1., 2.], [0.5, 0.]],
          'distributional': [[[.25, .25, .5], [1, 0, 0]],
                             [[0, 1., 0], [.5, 0, .5]]],
          'quantile': [[[1., -1.], [0., 3.]], [[2., 1.], [2., -5.]]]}


@chk.part('order of queries', gen_order, bound='all sequences of 2 (thorough '
          '3) queries, each one inside or outside of a no-backprop scope')
def order(rec, case):
    kind, qs = case
    x = np.array(CHOSEN[kind])
    ref = Ref(kind, x, Z)
    acts = [1, 0]
    for scope in itertools.product((False, True), repeat=len(qs)):
        p, av = build(kind, x)
        for k, nb in zip(qs, scope):
            def what():
                return '{} queries {} in no-backprop scopes {}'.format(
                    kind, [QUERIES[j] for j in qs], scope)
            if nb:
                with chainer.no_backprop_mode():
                    got = ask(av, QUERIES[k], acts, ref.A)
                backprop = QUERIES[k] == 'max'   # forced by the class
                compare(rec, kind, ref, p, got, QUERIES[k], acts, what,
                        backprop)
            else:
                compare(rec, kind, ref, p, ask(av, QUERIES[k], acts, ref.A),
                        QUERIES[k], acts, what)
            rec.trans()
        rec.trace()
        rec.state(kind, qs, scope)


# ------------------------------------------------------- continuous ones

def gen_quad(tier):
    for n in (1, 2):
        for lo in (None, -1., 'v'):
            for hi in (None, 0.5, 'v'):
                yield [n, lo, hi, tier == 'thorough']


@chk.part('quadratic', gen_quad, bound='means, values and actions over a '
          'grid, three matrices, bounds of every kind, batches of 2')
def quad(rec, case):
    from chainerrl.action_value import QuadraticActionValue
    n, lo, hi, deep = case
    if lo == 'v':
        lo = np.array([-0.5, -2.][:n])
    if hi == 'v':
        hi = np.array([1., 0.][:n])
    mats = [np.eye(n), np.diag([2., 0.5][:n]),
            np.array([[2., 0.6], [0.6, 1.]])[:n, :n]]
    grid = (-1.5, 0., 1.)
    for mu in itertools.product(grid, repeat=n):
        for mat, (v0, v1) in itertools.product(mats, [(0., 3.), (-1., 0.5)]):
            mus = np.array([mu, [0.25] * n])
            ms = np.array([mat, mats[0]])
            vs = np.array([[v0], [v1]])
            av = QuadraticActionValue(V(mus), V(ms), V(vs), lo, hi)
            g = mus.copy()
            if lo is not None:
                g = np.maximum(g, lo)
            if hi is not None:
                g = np.minimum(g, hi)

            def q(a):
                d = a - mus
                return vs[:, 0] - 0.5 * np.einsum('bi,bij,bj->b', d, ms, d)

            def what():
                return 'quadratic {} mu {} mat {} v {}'.format(
                    case, mu, mat.tolist(), (v0, v1))
            rec.close(f64(av.greedy_actions), g, what, **TOL)
            rec.eq(np.shape(av.max.array), (2,), what)
            rec.close(f64(av.max), q(g), lambda: what() + ' max', **TOL)
            for a in itertools.product(grid, repeat=n):
                acts = np.array([a, [0.5] * n], 'f')
                rec.close(f64(av.evaluate_actions(acts)), q(acts),
                          lambda: what() + ' at {}'.format(a), **TOL)
                rec.close(f64(av.compute_advantage(acts)), q(acts) - q(g),
                          lambda: what() + ' advantage', **TOL)
                b = np.roll(acts, 1, axis=0)
                rec.close(f64(av.compute_double_advantage(acts, b)),
                          q(acts) - q(b), lambda: what() + ' double', **TOL)
            for ix in (slice(0, 1), slice(1, 2), slice(None, None, -1)):
                sub = av[ix]
                rec.close(f64(sub.max), q(g)[ix], lambda: what() +
                          ' slice max', **TOL)
                rec.close(f64(sub.greedy_actions), g[ix], lambda: what() +
                          ' slice greedy', **TOL)
            rec.trace()
            rec.state(case, mu, mat.tolist(), v0)


def gen_single(tier):
    for x in (-1., 0., 2.):
        for m in (-2., 1.):
            yield [x, m]


@chk.part('single', gen_single, bound='a grid of states, maximizers, '
          'actions')
def single(rec, case):
    from chainerrl.action_value import SingleActionValue
    x, m = case
    s = V([[x], [x + 1]])
    greedy = V([[m], [0.5 * m]])

    def evaluator(a):
        return (s * a)[:, 0]
    av = SingleActionValue(evaluator, lambda: greedy)
    f = f64(s)[:, 0]
    rec.close(f64(av.greedy_actions), f64(greedy), 'greedy')
    rec.close(f64(av.max), f * f64(greedy)[:, 0], 'max', **TOL)
    for a in itertools.product((-1., 0., 3.), repeat=2):
        acts = np.array(a, 'f')[:, None]
        rec.close(f64(av.evaluate_actions(acts)), f * a, 'eval', **TOL)
        rec.close(f64(av.compute_advantage(acts)),
                  f * a - f * f64(greedy)[:, 0], 'advantage', **TOL)
        rec.close(f64(av.compute_double_advantage(acts, acts[::-1])),
                  f * a - f * a[::-1], 'double advantage', **TOL)
        rec.trans()
    rec.trace()
    rec.state(case)


if __name__ == '__main__':
    raise SystemExit(chk.main())
