"""C34: the categorical projection moves every atom to its neighbours."""
import itertools
import warnings
from fractions import Fraction

import numpy as np

from chainerrl.agents import categorical_dqn as cd
from mc.core import Check

warnings.filterwarnings('ignore')

chk = Check(
    'C34',
    rule='every row of atoms over a grid of positions (on atoms, between '
         'them, at and beyond the bounds) with every row of probabilities '
         'over a grid is projected on every listed support, alone and in '
         'batches, and compared with a projection in exact arithmetic',
    assumptions=['comparison within single-precision tolerance',
                 'evenly spaced supports of at least two atoms'])

SUPPORTS = [(-1., 1., 2), (0., 1., 2), (-2., 3., 3), (-10., 10., 3),
            (0., 0.3, 4), (-0.1, 0.2, 4), (5., 8., 4), (-7., -3., 5)]
BIG = [(-10., 10., 51), (0., 1., 51), (-100., 300., 11), (-1e-3, 1e-3, 21),
       (-0.7, 1.3, 7)]


def exact(y, p, z):
    """Projection in exact rational arithmetic of the values as stored."""
    z = [Fraction(float(v)) for v in z]
    out = [Fraction(0)] * len(z)
    for v, m in zip(y, p):
        v, m = Fraction(float(v)), Fraction(float(m))
        if v <= z[0]:
            out[0] += m
        elif v >= z[-1]:
            out[-1] += m
        else:
            j = max(k for k in range(len(z)) if z[k] <= v)
            w = (v - z[j]) / (z[j + 1] - z[j])
            out[j] += m * (1 - w)
            out[j + 1] += m * w
    return [float(v) for v in out]


def support(s):
    return np.linspace(s[0], s[1], num=s[2], dtype=np.float32)


def positions(z, fine):
    d = float(z[1] - z[0])
    out = [z[0] - 5 * d, z[0] - d / 4, z[-1] + d / 2, z[-1] + 100 * d]
    for k, v in enumerate(z):
        out.append(float(v))
        if fine:
            out += [float(v) + 0.25 * d, float(np.nextafter(v, np.float32(9))),
                    float(np.nextafter(v, np.float32(-9))), float(v) + d / 2]
        elif k == 0:
            out += [float(v) + 0.25 * d]
    return sorted(set(np.float32(v) for v in out))


def masses(n):
    out = [tuple(1. if i == k else 0. for i in range(n)) for k in range(n)]
    out.append(tuple([1. / n] * n))
    out.append(tuple((k + 1) / (n * (n + 1) / 2) for k in range(n)))
    return out


def judge(rec, y, p, z):
    y, p = np.asarray(y, dtype=np.float32), np.asarray(p, dtype=np.float32)
    y0, p0, z0 = y.copy(), p.copy(), z.copy()
    got = cd._apply_categorical_projection(y, p, z)
    rec.trans()
    rec.expect((y == y0).all() and (p == p0).all() and (z == z0).all(),
               'the projection changed its arguments')
    rec.eq(got.shape, y.shape, 'shape')
    rec.expect((got >= -1e-6).all(), lambda: 'negative probabilities {} of {} '
               '{} on {}'.format(got, y, p, z))
    want = [exact(a, b, z) for a, b in zip(y, p)]
    # a rounding error of the spacing adds up over the atoms
    tol = 2e-6 + 2.5e-7 * len(z) * float(np.abs(z).max() / (z[1] - z[0]))
    rec.close(got, want, lambda: 'projection of {} with {} on {}'.format(
        y.tolist(), p.tolist(), z.tolist()), rtol=1e-5, atol=tol)
    rec.close(got.sum(axis=1), p.sum(axis=1), 'total probability', atol=2e-6)
    mean = (np.clip(y, z[0], z[-1]).astype(float) * p).sum(axis=1)
    rec.close((got.astype(float) * z).sum(axis=1), mean, 'mean',
              rtol=1e-4, atol=2 * tol * float(z[1] - z[0])
              + 1e-5 * float(np.abs(z).max()))


def cases(tier):
    for i, s in enumerate(SUPPORTS + BIG):
        yield dict(s=s, fine=i < len(SUPPORTS), tier=tier)


@chk.part('rows', cases, timeout=600,
          bound='13 supports of 2-51 atoms; every combination of positions '
                '(up to 4 atoms: of all atoms; more: of pairs of atoms, the '
                'others fixed) x concentrated, even and uneven probabilities')
def rows(rec, c):
    z = support(c['s'])
    n = len(z)
    pos = positions(z, n <= 3 or (n <= 7 and c['tier'] == 'thorough'))
    if n <= 3 or (n == 4 and c['tier'] == 'thorough'):
        ys = itertools.product(pos, repeat=n)
    elif n <= 5:
        ys = (a + b for a in itertools.product(pos, repeat=2)
              for b in [tuple(z[:n - 2]), tuple(z[::-1][:n - 2]),
                        (pos[0],) * (n - 2)])
    else:
        ys = ((a, b) + tuple(z[2:]) for a in pos for b in pos)
    ms = masses(n) if n <= 7 else [masses(n)[k] for k in (0, 1, n, n + 1)]
    batch = []
    for y in ys:
        for m in ms:
            batch.append((y, m))
            if len(batch) == 256:
                judge(rec, *zip(*batch), z)
                batch = []
        rec.state(c['s'], [float(v) for v in y])
    if batch:
        judge(rec, *zip(*batch), z)
    rec.trace()
    rec.outcome(c['s'])


FRACTIONS = sorted(set(
    [k / 16. for k in range(17)] + [1 / 3., 0.9, 0.1] +
    [f for e in range(1, 6) for f in (10. ** -e, 3 * 10. ** -e,
                                      1 - 10. ** -e, 1 - 3 * 10. ** -e)]))


@chk.part('one atom', cases, timeout=300,
          bound='13 supports x every gap between neighbours x 37 places in '
                'the gap, from 1e-5 of it next to either neighbour, for the '
                'first, middle and last projected atom')
def one_atom(rec, c):
    z = support(c['s'])
    n = len(z)
    d = float(z[1]) - float(z[0])
    batch = []
    for which in sorted(set([0, n // 2, n - 1])):
        for j in range(-1, n):
            for f in FRACTIONS:
                y = [float(v) for v in z[::-1]]
                y[which] = float(z[0]) + (j + f) * d
                batch.append((y, masses(n)[which]))
                if len(batch) == 256:
                    judge(rec, *zip(*batch), z)
                    batch = []
            rec.state(c['s'], which, j)
    judge(rec, *zip(*batch), z)
    rec.trace()
    rec.outcome(c['s'])


@chk.part('batches', cases, timeout=300,
          bound='13 supports x batches of 1, 2, 3, 7 rows')
def batches(rec, c):
    z = support(c['s'])
    n = len(z)
    rs = np.random.RandomState(3)
    for b in (1, 2, 3, 7):
        y = rs.uniform(z[0] * 1.5 - 1, z[-1] * 1.5 + 1, size=(b, n))
        y = y.astype(np.float32)
        p = rs.dirichlet(np.ones(n), size=b).astype(np.float32)
        judge(rec, y, p, z)
        whole = cd._apply_categorical_projection(y, p, z)
        for i in range(b):
            rec.close(cd._apply_categorical_projection(
                y[i:i + 1], p[i:i + 1], z)[0], whole[i], 'row of a batch')
        # shifting by rewards and discounting as agents do
        for r, g in itertools.product((-1., 0., 2.), (0., 0.5, 1.)):
            judge(rec, r + g * np.broadcast_to(z, (b, n)), p, z)
    rec.trace()
    rec.state(c['s'], 'batch')
    rec.outcome(c['s'])


if __name__ == '__main__':
    raise SystemExit(chk.main())
