"""C35: empirical normalization follows exactly the data it has learned."""
import copy
import itertools
import warnings

import chainer
import chainer.functions as F
import numpy as np

from chainerrl.links import EmpiricalNormalization
from chainerrl.misc import async_
from mc.core import Check

warnings.filterwarnings('ignore')

chk = Check(
    'C35',
    rule='every sequence of operations (learning batches of several sizes by '
         'experience or by calling, normalizing without learning, inverting, '
         'saving, loading into a fresh or used link, copying, sharing) up to '
         'a depth runs on the real link for every listed setting and is '
         'compared with the exact mean and variance of the rows it should '
         'have learned, in double precision',
    assumptions=['comparison within single-precision tolerance',
                 'the output of a call that also learns its input is not '
                 'specified, only what it learns',
                 'floating-point inputs'])

D = (2,)


class Ref(object):
    def __init__(self, until):
        self.rows = []
        self.count = 0
        self.until = until

    def learn(self, rows):
        if self.until is not None and self.count >= self.until:
            return
        self.rows.extend(np.asarray(r, dtype=np.float64) for r in rows)
        self.count += len(rows)

    def stats(self, shape):
        if not self.rows:
            return np.zeros(shape), np.ones(shape)
        x = np.stack(self.rows)
        return x.mean(axis=0), x.var(axis=0)


def batch(k, n, shape, axis, dtype=np.float32):
    rs = np.random.RandomState(100 + k)
    rows = (rs.uniform(-1, 1, size=(n,) + shape) * (1 + 2 * k) + 3 * k - 2)
    rows = rows.astype(dtype)
    return rows, np.moveaxis(rows, 0, axis)


OPS = ['e1', 'e3', 'e0', 'c2', 'n', 'save', 'loadfresh', 'loadused', 'copy',
       'v1']


def cases(tier):
    depth = 5 if tier == 'thorough' else 4
    base = dict(shape=[2], axis=0, until=None, clip=None, dtype='float32',
                var=False)
    for head in OPS:
        yield dict(base, head=head, depth=depth)
        yield dict(base, head=head, depth=4, until=4)
        yield dict(base, head=head, depth=3, until=1, clip=0.5)
        yield dict(base, head=head, depth=3, shape=[2, 3], axis=1, until=3)
        yield dict(base, head=head, depth=3, shape=[2, 3], axis=2, clip=1.0,
                   var=True)
        yield dict(base, head=head, depth=3, shape=[], axis=0)
        yield dict(base, head=head, depth=3, dtype='float64', var=True)
        yield dict(base, head=head, depth=3, until=0)
        yield dict(base, head=head, depth=3, eps=1e-4, var=True, clip=2.)


@chk.part('histories', cases, timeout=600,
          bound='9 settings (shape, batch axis, until, clip, data type, '
                'Variables or arrays) x every sequence of 3-4 (thorough 5) of '
                'ten operations')
def histories(rec, c):
    for tail in itertools.product(OPS, repeat=c['depth'] - 1):
        one(rec, c, (c['head'],) + tail)


def make(c):
    return EmpiricalNormalization(
        tuple(c['shape']), batch_axis=c['axis'], until=c['until'],
        clip_threshold=c['clip'], dtype=np.dtype(c['dtype']),
        **({'eps': c['eps']} if 'eps' in c else {}))


def save(link):
    target = {}
    s = chainer.serializers.DictionarySerializer(target)
    s.save(link)
    return {k: np.array(v) for k, v in target.items()}


def load(data, link):
    chainer.serializers.NpzDeserializer(data).load(link)


def one(rec, c, ops):
    shape = tuple(c['shape'])
    link, ref = make(c), Ref(c['until'])
    saved = None
    others = []
    for k, op in enumerate(ops):
        if op[0] in 'ec' and op[1:].isdigit() or op == 'v1':
            n = int(op[1:])
            rows, x = batch(k, n, shape, c['axis'], c['dtype'])
            x0 = x.copy()
            if op[0] == 'e':
                link.experience(x)
            elif op[0] == 'v':
                link.experience(chainer.Variable(x))
            else:
                y = link(chainer.Variable(x) if c['var'] else x)
            rec.expect((x == x0).all(), 'learning changed its input')
            ref.learn(rows)
            if op[0] == 'c':
                # normalized by what has been learned, these rows included
                mean, var = ref.stats(shape)
                want = (rows - mean) / np.sqrt(var + c.get('eps', 1e-2))
                if c['clip'] is not None:
                    want = np.clip(want, -c['clip'], c['clip'])
                rec.close(np.moveaxis(
                    np.asarray(getattr(y, 'array', y)), c['axis'], 0), want,
                    lambda: 'values normalized while learned, {}'.format(
                        (ops, k)), rtol=1e-3, atol=1e-3)
        elif op == 'n':
            look(rec, c, link, ref, k)
        elif op == 'save':
            saved = (save(link), copy.deepcopy(ref))
        elif op in ('loadfresh', 'loadused'):
            if saved is None:
                return
            if op == 'loadfresh':
                others.append((link, ref))
                link = make(c)
            load(saved[0], link)
            ref = copy.deepcopy(saved[1])
        elif op == 'copy':
            others.append((link, copy.deepcopy(ref)))
            link = copy.deepcopy(link)
        rec.trans()
        stats(rec, c, link, ref, (ops, k))
    look(rec, c, link, ref, 9)
    for l, r in others:
        stats(rec, c, l, r, (ops, 'another link'))
        look(rec, c, l, r, 8)
    rec.state(sorted((k, v) for k, v in c.items() if k != 'head'), ops)
    rec.trace()
    rec.outcome(ops)


def stats(rec, c, link, ref, where):
    mean, var = ref.stats(tuple(c['shape']))
    rec.close(link.mean, mean, lambda: 'mean after {}'.format(where),
              rtol=1e-4, atol=2e-5)
    rec.close(np.square(link.std), var,
              lambda: 'variance after {}'.format(where), rtol=2e-4, atol=1e-4)
    rec.eq(int(link.count), ref.count, 'number of learned rows')
    m = link.mean
    m[...] = 77   # a copy: writing into it changes nothing


def look(rec, c, link, ref, k):
    shape = tuple(c['shape'])
    mean, var = ref.stats(shape)
    eps = c.get('eps', 1e-2)
    for n in (1, 3):
        rows, x = batch(k + 1, n, shape, c['axis'], c['dtype'])
        before = (link.mean, link.std, int(link.count))
        v = chainer.Variable(x) if c['var'] else x
        y = link(v, update=False)
        rec.expect(isinstance(y, chainer.Variable if c['var']
                              else np.ndarray), 'type of the output')
        arr = np.asarray(getattr(y, 'array', y))
        full = (rows - mean) / np.sqrt(var + eps)
        want = full if c['clip'] is None else np.clip(
            full, -c['clip'], c['clip'])
        tol = dict(rtol=1e-3, atol=1e-3)
        rec.close(np.moveaxis(arr, c['axis'], 0), want, 'normalized values',
                  **tol)
        if c['var']:
            F.sum(y).backward()
            inside = np.ones_like(full) if c['clip'] is None else (
                np.abs(full) < c['clip'])
            near = np.zeros_like(full, dtype=bool) if c['clip'] is None \
                else np.abs(np.abs(full) - c['clip']) < 1e-2
            g = np.moveaxis(v.grad, c['axis'], 0)
            w = inside / np.broadcast_to(np.sqrt(var + eps), full.shape)
            rec.close(np.where(near, 0, g), np.where(near, 0, w),
                      'gradient of the input', **tol)
        back = link.inverse(np.moveaxis(full, 0, c['axis']).astype(
            c['dtype']))
        rec.close(np.moveaxis(back, c['axis'], 0), rows, 'inverse', **tol)
        after = (link.mean, link.std, int(link.count))
        for a, b in zip(before, after):
            rec.expect(np.array_equal(a, b), 'asking changed the statistics')


def longcases(tier):
    for until in (None, 50, 64):
        for sizes in itertools.product((1, 5, 32), repeat=3):
            yield dict(until=until, sizes=sizes, loc=100., scale=1e-1)
            yield dict(until=until, sizes=sizes, loc=-3., scale=10.)


@chk.part('streams', longcases, timeout=120,
          bound='streams of 60 batches in 27 patterns of sizes, far from and '
                'near zero, with until of none, 50, 64')
def streams(rec, c):
    link, ref = EmpiricalNormalization(3, until=c['until']), Ref(c['until'])
    rs = np.random.RandomState(1)
    for k in range(60):
        n = c['sizes'][k % 3]
        x = rs.normal(c['loc'], c['scale'], size=(n, 3)).astype(np.float32)
        if k % 2:
            link.experience(x)
        else:
            link(x)
        ref.learn(x)
        rec.trans()
        if k % 10 == 9 or k < 3:
            mean, var = ref.stats((3,))
            rec.close(link.mean, mean, 'mean', rtol=1e-4, atol=1e-4)
            rec.close(np.square(link.std), var, 'variance', rtol=1e-2,
                      atol=1e-4)
            rec.eq(int(link.count), ref.count, 'count')
    rec.trace()
    rec.state(c['until'], c['sizes'], c['loc'])
    rec.outcome(c['until'], c['sizes'], c['loc'])


def sharecases(tier):
    for ops in itertools.product((0, 1), repeat=5):
        for until in (None, 5):
            yield dict(ops=ops, until=until)


@chk.part('shared', sharecases, timeout=60,
          bound='two links sharing their statistics x every order of five '
                'learned batches, with and without until')
def shared(rec, c):
    a = EmpiricalNormalization(2, until=c['until'])
    b = EmpiricalNormalization(2, until=c['until'])
    mem = async_.as_shared_objects(a)
    async_.synchronize_to_shared_objects(b, mem)
    ref = Ref(c['until'])
    cc = dict(shape=[2], axis=0, until=c['until'], clip=None,
              dtype='float32', var=False)
    for k, who in enumerate(c['ops']):
        rows, x = batch(k, 1 + k % 2, (2,), 0)
        (a, b)[who].experience(x)
        ref.learn(rows)
        rec.trans()
        for l in (a, b):
            stats(rec, cc, l, ref, (c['ops'], k))
    rec.trace()
    rec.state(c['ops'], c['until'])
    rec.outcome(c['ops'], c['until'])


if __name__ == '__main__':
    raise SystemExit(chk.main())
