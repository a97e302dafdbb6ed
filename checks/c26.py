"""C26: batches of recurrent sequences are computed as the sequences alone."""
import itertools
import warnings

import chainer
import chainer.functions as F
import chainer.links as L
import numpy as np

from mc import agents as G
from mc.core import Check

warnings.filterwarnings('ignore')

chk = Check(
    'C26',
    rule='every sequence of operations on a batched recurrent state (one '
         'step, several steps of all combinations of lengths, masking, '
         'selecting, reordering, splitting and concatenating) up to a length '
         'is run on real stateless recurrent models; outputs and gradients '
         'are compared with each sequence\'s own history fed alone, at once, '
         'to the recurrent links',
    assumptions=['chainer\'s n-step links on a single whole sequence are '
                 'trusted'])

DX = 2


def x_of(tag, t):
    """Input t of the sequence `tag`."""
    return np.array([np.sin(1.3 * tag + 0.7 * t + 1),
                     np.cos(0.9 * tag - 0.4 * t)], 'f')


def zoo(kind):
    from chainerrl import links as K
    S, B = K.StatelessRecurrentSequential, K.StatelessRecurrentBranched
    if kind == 'lstm':
        return S(L.NStepLSTM(1, DX, 3, 0.), L.Linear(3, 2))
    if kind == 'gru':
        return S(L.Linear(DX, 3), F.tanh, L.NStepGRU(2, 3, 2, 0.))
    if kind == 'tanh':
        return S(L.NStepRNNTanh(1, DX, 3, 0.), L.Linear(3, 2), F.relu)
    if kind == 'relu':
        return S(L.Linear(DX, 3), L.NStepRNNReLU(2, 3, 2, 0.))
    if kind == 'two':
        return S(L.NStepLSTM(2, DX, 3, 0.), L.Linear(3, 2), F.tanh,
                 L.NStepGRU(1, 2, 2, 0.), L.Linear(2, 2))
    if kind == 'inserted':
        m = S(L.NStepGRU(1, 3, 2, 0.))
        m.insert(0, L.NStepLSTM(1, DX, 3, 0.))
        return m
    if kind == 'branched':
        return B(S(L.NStepLSTM(1, DX, 2, 0.), L.Linear(2, 2)),
                 S(L.NStepGRU(1, DX, 3, 0.), L.Linear(3, 1)))
    if kind == 'nested':
        return S(L.Linear(DX, 2),
                 B(S(L.NStepGRU(1, 2, 2, 0.)),
                   S(F.tanh, L.NStepLSTM(1, 2, 2, 0.), L.Linear(2, 2))),
                 lambda a, b: F.concat([a, b], axis=1),
                 L.NStepRNNTanh(1, 4, 2, 0.))
    if kind == 'tuple':
        return S(lambda a, b: F.concat([a, b], axis=1),
                 L.NStepGRU(1, DX + 1, 2, 0.), L.Linear(2, 2))
    raise AssertionError(kind)


KINDS = ['lstm', 'gru', 'tanh', 'relu', 'two', 'inserted', 'branched',
         'nested']


def inputs(kind, x):
    """x: (T, DX) array -> what the model takes."""
    if kind == 'tuple':
        return (x, x[:, :1] * 2)
    return x


# ----------------------------------------------------------------- oracle

def alone(m, xs):
    """Evaluate a model on one whole sequence, link by link."""
    from chainerrl import links as K
    if isinstance(m, K.StatelessRecurrentSequential):
        h = xs
        for layer in m._layers:
            if isinstance(h, tuple):
                h = (alone(layer, *h) if isinstance(layer, chainer.Link)
                     else layer(*h))
            else:
                h = alone(layer, h)
        return h
    if isinstance(m, K.StatelessRecurrentBranched):
        return tuple(alone(c, xs) for c in m)
    if isinstance(m, L.NStepLSTM):
        return m(None, None, [xs])[2][0]
    if isinstance(m, (L.NStepGRU, L.NStepRNNReLU, L.NStepRNNTanh)):
        return m(None, [xs])[1][0]
    return m(xs)


def flat(y):
    return F.concat(y, axis=1) if isinstance(y, tuple) else y


MODELS = {}
MEMO = {}


def model(kind):
    if kind not in MODELS:
        m = zoo(kind)
        G.fill(m, 2, 0.8)
        for p in m.params():
            p.array += 0.1 * np.sin(np.arange(p.size)).astype(
                'f').reshape(p.shape)
        MODELS[kind] = m
    return MODELS[kind]


def stack(hist):
    return np.stack([x_of(*h) for h in hist])


def expected(kind, hist):
    """Outputs along one history."""
    key = kind, hist
    if key not in MEMO:
        with chainer.no_backprop_mode():
            MEMO[key] = flat(alone(model(kind), inputs(
                kind, stack(hist)))).array
    return MEMO[key]


# ------------------------------------------------------------- operations

class Run(object):
    def __init__(self, rec, kind, n, what):
        self.rec, self.kind, self.what = rec, kind, what
        self.m = model(kind)
        self.state = None
        self.hist = [()] * n
        self.tags = list(range(n))
        self.next = 10
        self.t = [0] * n
        self.points = []

    def feed(self, e, k):
        out = tuple((self.tags[e], self.t[e] + j) for j in range(k))
        self.t[e] += k
        return out

    def step(self):
        n = len(self.hist)
        new = [self.feed(e, 1) for e in range(n)]
        y, self.state = self.m(
            inputs(self.kind, np.concatenate([stack(h) for h in new])),
            self.state)
        self.hist = [h + a for h, a in zip(self.hist, new)]
        y = flat(y)
        self.rec.eq(len(y), n, lambda: self.what() + ' batch size')
        for e in range(n):
            self.check(y.array[e], expected(self.kind, self.hist[e])[-1],
                       'one step of sequence {}'.format(e))
        return y

    def check(self, got, want, label):
        self.rec.close(got, want, lambda: '{}: {} histories {}'.format(
            self.what(), label, self.hist), rtol=1e-4, atol=1e-5)

    def nstep(self, lengths, mode):
        n = len(self.hist)
        new = [self.feed(e, lengths[e % len(lengths)]) for e in range(n)]
        seqs = [inputs(self.kind, stack(h)) for h in new]
        old = [len(h) for h in self.hist]
        y, self.state = self.m.n_step_forward(seqs, self.state,
                                              output_mode=mode)
        self.hist = [h + a for h, a in zip(self.hist, new)]
        want = [expected(self.kind, h)[o:] for h, o in zip(self.hist, old)]
        if mode == 'concat':
            self.check(flat(y).array, np.concatenate(want), 'concatenated')
        else:
            self.rec.eq(len(y), n, lambda: self.what() + ' sequences')
            for e in range(n):
                self.check(flat(y[e]).array, want[e],
                           'sequence {}'.format(e))

    def do(self, op):
        n = len(self.hist)
        m = self.m
        kind = op[0]
        if kind == 'step':
            self.step()
        elif kind == 'nstep':
            self.nstep(op[1], op[2])
        elif kind == 'mask':
            ix = op[1]
            ids = [ix] if isinstance(ix, int) else list(ix)
            if any(i >= n for i in ids):
                return False
            self.state = m.mask_recurrent_state_at(self.state, ix)
            for i in ids:
                self.hist[i] = ()
        elif kind == 'select':
            ids = [i for i in op[1] if i < n]
            if self.state is None or not ids:
                return False
            self.state = m.get_recurrent_state_at(self.state, ids,
                                                  unwrap_variable=op[2])
            if op[2]:
                # saved parts are put together to be used as a batch again
                self.state = m.concatenate_recurrent_states([self.state])
            self.take(ids)
        elif kind == 'rejoin':
            ids = [i for i in op[1] if i is None or i < n]
            if not ids:
                return False
            parts = []
            for i in ids:
                parts.append(None if i is None else m.get_recurrent_state_at(
                    self.state, i, unwrap_variable=op[2]))
            self.state = m.concatenate_recurrent_states(parts)
            self.take(ids)
        return True

    def take(self, ids):
        hist, tags, t = self.hist, self.tags, self.t
        self.hist = [() if i is None else hist[i] for i in ids]
        # every sequence goes on with inputs of its own
        self.tags, self.t = [], []
        for i in ids:
            self.tags.append(self.next)
            self.t.append(0)
            self.next += 1

    def keep(self):
        self.points.append((self.state, list(self.hist), list(self.tags),
                            list(self.t)))

    def recheck(self):
        """States are values: no operation changed an earlier one."""
        for st, hist, tags, t in self.points:
            self.state, self.hist = st, list(hist)
            self.tags, self.t = list(tags), list(t)
            with chainer.no_backprop_mode():
                self.step()


OPS = [('step',), ('nstep', (2, 1, 3), 'split'), ('nstep', (1, 2), 'concat'),
       ('mask', 0), ('mask', [1]), ('mask', [0, 1]),
       ('select', [1, 0], True), ('select', [1], False),
       ('rejoin', [0, 1], True), ('rejoin', [1, None, 0], True),
       ('rejoin', [1, 0], False), ('rejoin', [None, 0], True)]


def gen(tier):
    deep = tier == 'thorough'
    for kind in KINDS:
        for n in (1, 2, 3):
            for first in range(len(OPS)):
                yield [kind, n, first, (4 if deep else 3) - (
                    n != 2 or kind not in ('lstm', 'two', 'branched',
                                           'nested'))]


@chk.part('operations', gen, bound='all sequences of 3 (2 for some models and '
          'batch sizes; thorough one more) of 12 operations followed by a step, batches '
          'of 1-3, eight models')
def case(rec, case):
    kind, n, first, length = case
    for tail in itertools.product(range(len(OPS)), repeat=length - 1):
        seq = [OPS[i] for i in (first,) + tail]

        def what():
            return '{} batch {} operations {}'.format(kind, n, seq)
        r = Run(rec, kind, n, what)
        r.keep()
        ok = True
        for op in seq:
            if not r.do(op):
                ok = False
                break
            r.keep()
            rec.trans()
        if not ok:
            continue
        hist = [h for h in r.hist]
        unwrapped = any(op[-1] is True for op in seq)
        y = r.step()
        if not unwrapped:
            gradients(rec, r, y, what)
        r.recheck()
        rec.trace()
        rec.state(kind, hist)
        rec.outcome(len(hist))


def gradients(rec, r, y, what):
    m = r.m
    w = (np.arange(y.array.size, dtype='f') * 0.3 + 1).reshape(y.shape)
    m.cleargrads()
    F.sum(y * w).backward()
    got = [None if p.grad is None else p.grad.copy()
           for _, p in sorted(m.namedparams())]
    m.cleargrads()
    total = 0
    for e, h in enumerate(r.hist):
        total += F.sum(flat(alone(m, inputs(r.kind, stack(h))))[-1] * w[e])
    total.backward()
    for g, (name, p) in zip(got, sorted(m.namedparams())):
        z = np.zeros(p.shape)
        rec.close(z if g is None else g, z if p.grad is None else p.grad,
                  lambda: '{}: gradient of {}'.format(what(), name),
                  rtol=1e-3, atol=1e-4)


# ------------------------------------------------- all lengths of sequences

def gen_len(tier):
    m = 4 if tier == 'thorough' else 3
    for kind in KINDS:
        for n in (1, 2, 3, 4) if tier == 'thorough' else (1, 2, 3):
            for mode in ('split', 'concat'):
                yield [kind, n, mode, m]


@chk.part('lengths', gen_len, bound='all combinations of lengths 1-3 '
          '(thorough 4) of up to 3 (4) sequences, continued twice, both '
          'output modes')
def lengths(rec, case):
    kind, n, mode, mx = case
    for ls in itertools.product(range(1, mx + 1), repeat=n):
        def what():
            return '{} lengths {} {}'.format(kind, ls, mode)
        r = Run(rec, kind, n, what)
        r.nstep(ls, mode)
        r.nstep(ls[::-1], mode)
        r.step()
        rec.trace()
        rec.trans(3)
        rec.state(kind, ls, mode)


# ------------------------------------------------------ tuples of arrays

@chk.part('tuples', lambda tier: [[n, mode] for n in (1, 2, 3)
                                  for mode in ('split', 'concat')],
          bound='all combinations of lengths 1-3 of up to 3 sequences given '
          'as pairs of arrays, both output modes')
def tuples(rec, case):
    n, mode = case
    m = model('tuple')
    try:
        y = m(inputs('tuple', stack([(e, 0) for e in range(n)])), None)[0]
    except AssertionError:
        rec.finding('one-step-tuple-rejected', 'batch of {}'.format(n))
    else:
        rec.close(y.array, np.concatenate([expected('tuple', ((e, 0),))
                                           for e in range(n)]),
                  'one step of tuples', rtol=1e-4, atol=1e-5)
    for ls in itertools.product((1, 2, 3), repeat=n):
        hs = [tuple((e, t) for t in range(k)) for e, k in enumerate(ls)]
        want = [expected('tuple', h) for h in hs]

        def ask(seqs, link):
            y = link.n_step_forward(seqs, None, output_mode=mode)[0]
            if mode == 'concat':
                return [y.array]
            return [v.array for v in y]

        def what():
            return 'tuples of lengths {} {}'.format(ls, mode)

        def agree(a, b):
            return len(a) == len(b) and all(
                x.shape == y.shape and np.allclose(x, y, 1e-4, 1e-5)
                for x, y in zip(a, b))
        if mode == 'concat':
            want = [np.concatenate(want)]
        seqs = [inputs('tuple', stack(h)) for h in hs]
        try:
            got = ask(seqs, m)
        except Exception as e:
            got = repr(e)
        rec.trace()
        rec.state(ls, mode)
        if not isinstance(got, str) and agree(got, want):
            continue
        if all(k == 2 for k in ls[:-1]):
            rec.fail('{}: {} for {}'.format(what(), got, want))
        # what comes out of sequences cut at multiples of the tuple size
        x = np.concatenate([np.concatenate(s, axis=1) for s in seqs])
        try:
            cut = ask([(a[:, :DX], a[:, DX:]) for a in np.split(
                x, np.arange(2, 2 * n, 2))], flatten_model())
        except Exception as e:
            cut = repr(e)
        if isinstance(got, str) or isinstance(cut, str):
            known = isinstance(got, str) == isinstance(cut, str)
        else:
            known = agree(got, cut)
        if not known:
            rec.fail('{}: {} for {}'.format(what(), got, want))
        rec.finding('tuple-sequences-cut-at-tuple-size', what())


def flatten_model():
    """The same links on sequences of concatenated arrays."""
    from chainerrl import links as K
    m = model('tuple')
    rnn, out = m._layers[1:]

    class Direct(object):
        def n_step_forward(self, seqs, state, output_mode):
            seqs = [np.concatenate(s, axis=1) for s in seqs]
            y = rnn(None, seqs)[1]
            y = [out(v) for v in y]
            if output_mode == 'concat':
                return F.concat(y, axis=0), None
            return y, None
    return Direct()


# -------------------------------------------------------------- helpers

@chk.part('is_recurrent_link', lambda tier: [[0]], bound='all link types of '
          'the models')
def is_rec(rec, case):
    from chainerrl.links.stateless_recurrent import is_recurrent_link
    for kind in KINDS + ['tuple']:
        rec.expect(is_recurrent_link(zoo(kind)), kind)
        m = model(kind)
        n = [c for c in m.recurrent_children]
        for c in m.children():
            rec.eq(is_recurrent_link(c), not isinstance(c, L.Linear), kind)
            rec.eq(any(c is d for d in n), not isinstance(c, L.Linear), kind)
    rec.expect(not is_recurrent_link(F.tanh), 'function')
    rec.trace()


if __name__ == '__main__':
    raise SystemExit(chk.main())
