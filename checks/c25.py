"""C25: recurrent states are kept, reset and restored as asked."""
import itertools
import warnings

import chainer
import chainer.functions as F
import chainer.links as L
import numpy as np

from mc import agents as G
from mc.core import Check

warnings.filterwarnings('ignore')

chk = Check(
    'C25',
    rule='every sequence of operations (evaluate, reset, save, restore, '
         'unchain, enter a state-keeping or state-resetting scope of either '
         'of two models, leave the innermost scope normally or by an '
         'exception) up to a length is run on real recurrent models; '
         'afterwards outputs and gradients are compared with a fresh model '
         'that replays the history the operations amount to',
    assumptions=['scopes are left in the order of a with statement',
                 'evaluating a fresh model on a history is trusted'])


def _lin(n, m):
    return L.Linear(n, m)


def zoo(kind):
    from chainerrl import links, policies, v_functions
    from chainerrl.agents import a3c, acer
    from chainerrl.recurrent import RecurrentChainMixin

    class Net(chainer.Chain, RecurrentChainMixin):
        """Two recurrent links at different depths of a tree, and links that
        are not recurrent in between."""

        def __init__(self):
            super().__init__()
            with self.init_scope():
                self.a = _lin(2, 2)
                self.sub = chainer.ChainList(_lin(2, 2), L.LSTM(2, 2))
                self.b = L.LSTM(2, 3)
                self.out = _lin(3, 2)

        def __call__(self, x):
            h = F.tanh(self.a(x))
            h = self.sub[1](F.tanh(self.sub[0](h)))
            return self.out(self.b(h))

    class Own(chainer.Chain, __import__('chainerrl').recurrent.Recurrent):
        """A model with a recurrence of its own."""

        def __init__(self):
            super().__init__()
            self.s = None
            with self.init_scope():
                self.w = _lin(2, 2)
                self.u = _lin(2, 2)

        def get_state(self):
            return self.s

        def set_state(self, s):
            self.s = s

        def reset_state(self):
            self.s = None

        def __call__(self, x):
            h = self.w(x)
            if self.s is not None:
                h = h + self.u(self.s)
            self.s = F.tanh(h)
            return self.s

    class Mixed(chainer.Chain, RecurrentChainMixin):
        def __init__(self):
            super().__init__()
            with self.init_scope():
                self.own = Own()
                self.seq = links.Sequence(_lin(2, 2), L.LSTM(2, 2))

        def __call__(self, x):
            return self.seq(self.own(x))

    if kind == 'sequence':
        return links.Sequence(_lin(2, 2), F.tanh, L.LSTM(2, 3), _lin(3, 2))
    if kind == 'tree':
        return Net()
    if kind == 'own':
        return Own()
    if kind == 'mixed':
        return Mixed()
    if kind == 'a3c':
        m = a3c.A3CSeparateModel(
            policies.SoftmaxPolicy(links.Sequence(L.LSTM(2, 2), _lin(2, 2))),
            v_functions.SingleModelVFunction(
                links.Sequence(L.LSTM(2, 2), _lin(2, 1))))
        return Adapter(m, lambda o: F.concat([o[0].logits, o[1]], axis=1))
    if kind == 'a3cshared':
        m = a3c.A3CSharedModel(
            links.Sequence(_lin(2, 2), L.LSTM(2, 2)),
            policies.SoftmaxPolicy(_lin(2, 2)),
            v_functions.SingleModelVFunction(_lin(2, 1)))
        return Adapter(m, lambda o: F.concat([o[0].logits, o[1]], axis=1))
    if kind == 'acer':
        import chainerrl
        m = acer.ACERSeparateModel(
            links.Sequence(L.LSTM(2, 2), _lin(2, 2),
                           chainerrl.distribution.SoftmaxDistribution),
            links.Sequence(L.LSTM(2, 2), _lin(2, 2),
                           chainerrl.action_value.DiscreteActionValue))
        return Adapter(m, lambda o: F.concat(
            [o[0].logits, o[1].q_values,
             F.reshape(o[2], (1, 1))], axis=1))
    if kind == 'critic':
        # recurrent Q-function of state and action
        from chainerrl import q_functions
        m = q_functions.FCLSTMSAQFunction(2, 1, 3, 1)
        return Adapter(m, lambda o: o, lambda f, x: f(x, x[:, :1]))
    if kind == 'detpolicy':
        m = policies.FCLSTMDeterministicPolicy(
            n_input_channels=2, n_hidden_layers=1, n_hidden_channels=3,
            action_size=2, min_action=np.full(2, -1, 'f'),
            max_action=np.full(2, 1, 'f'), bound_action=True)
        return Adapter(m, lambda o: o.x)
    if kind == 'qlstm':
        from chainerrl import q_functions
        m = q_functions.FCLSTMStateQFunction(2, 2, 3, 1)
        return Adapter(m, lambda o: o.q_values)
    raise AssertionError(kind)


class Adapter(object):
    """The model under test with its output as one array."""

    def __init__(self, model, out, call=None):
        self.model, self.out = model, out
        self.call = call or (lambda f, x: f(x))

    def __call__(self, x):
        o = self.call(self.model, x)
        if type(self.model).__name__.startswith(('A3C', 'ACER')):
            pass
        return self.out(o)


def core(m):
    return m.model if isinstance(m, Adapter) else m


def forward(m, x):
    if isinstance(m, Adapter) and hasattr(m.model, 'pi_and_v'):
        return m.out(m.model.pi_and_v(x))
    return m(x)


KINDS = ['sequence', 'tree', 'own', 'mixed', 'a3c', 'a3cshared', 'acer',
         'critic', 'detpolicy', 'qlstm']
XS = [np.array([[1., -0.5]], 'f'), np.array([[-0.8, 0.6]], 'f')]
PROBE = np.array([[0.4, 0.9]], 'f')

FRESH = {}
BUILT = {}


class Boom(Exception):
    pass


class Node(object):
    """A state: the input after the previous state.  Cutting a state from
    its graph cuts everything before it, whoever holds it."""

    def __init__(self, parent=None, x=None):
        self.parent, self.x, self.is_cut = parent, x, False

    def cut(self):
        n = self
        while n.parent is not None:
            n.is_cut = True
            n = n.parent

    def history(self):
        out = []
        n = self
        while n.parent is not None:
            if n.is_cut:
                out.append('cut')
            out.append(n.x)
            n = n.parent
        return tuple(out[::-1])


def reference(kind, hist):
    """Output and gradients of the probe on a model with history `hist`."""
    key = (kind, hist)
    if key not in FRESH:
        m = zoo(kind)
        G.fill(core(m), 1, 0.9)
        core(m).reset_state()
        for h in hist:
            if h == 'cut':
                core(m).unchain_backward()
            elif h == 'u':
                core(m).update_state(*args_of(kind, XS[1]))
            else:
                forward(m, XS[h])
        FRESH[key] = probe(m)
    return FRESH[key]


def args_of(kind, x):
    return (x, x[:, :1]) if kind == 'critic' else (x,)


def probe(m, grads=True):
    if not grads:
        with chainer.no_backprop_mode():
            return [forward(m, PROBE).array.copy()]
    y = forward(m, PROBE)
    core(m).cleargrads()
    w = (np.arange(y.array.size, dtype='f') + 1).reshape(y.shape)
    F.sum(y * w).backward()
    return [y.array.copy()] + [
        None if p.grad is None else p.grad.copy()
        for _, p in sorted(core(m).namedparams())]


OPS = ['x0', 'x1', 'reset', 'cut', 'keep', 'fresh', 'exit', 'boom', 'save',
       'load', 'update', 'Bx0', 'Bkeep', 'Bfresh', 'Breset']
MAIN = ['x0', 'reset', 'keep', 'fresh', 'exit', 'Bx0', 'Bfresh']
SMALL = ['x0', 'reset', 'cut', 'keep', 'fresh', 'exit', 'boom', 'save',
         'load', 'update']


def gen(tier):
    deep = tier == 'thorough'
    for kind in KINDS:
        for ops, n in ((OPS, 4 if deep else 3),
                       (SMALL, 5 if deep else 4 if kind in (
                           'mixed',) else 0),
                       (MAIN, 6 if deep else 5 if kind == 'mixed' else 0)):
            if not n:
                continue
            for first in ops:
                if first == 'exit' or first == 'boom' or first == 'load':
                    continue
                for second in ops:
                    yield [kind, ops, n, [first, second]]


def valid(seq):
    depth, saved = 0, False
    for o in seq:
        if o in ('keep', 'fresh', 'Bkeep', 'Bfresh'):
            depth += 1
        elif o in ('exit', 'boom'):
            depth -= 1
            if depth < 0:
                return False
        elif o == 'save':
            saved = True
        elif o == 'load' and not saved:
            return False
    return True


@chk.part('operations', gen, bound='all sequences of 3 of 15 operations on '
          'ten kinds of models, of 4 of 10 and of 5 of 7 on some of them '
          '(thorough 4, 5 and 6)')
def case(rec, case):
    kind, ops, n, head = case
    for tail in itertools.product(ops, repeat=n - len(head)):
        seq = tuple(head) + tail
        if not valid(seq):
            continue
        for style in (0, 1):
            if style and len(seq) > 3 or style and not any(o in ('keep', 'fresh', 'Bkeep', 'Bfresh')
                                 for o in seq):
                continue
            run(rec, kind, seq, style)


def run(rec, kind, seq, style):
    from chainerrl import recurrent as R
    ms = {}
    for k in 'AB':
        if (kind, k) not in BUILT:
            BUILT[kind, k] = zoo(kind)
            G.fill(core(BUILT[kind, k]), 1, 0.9)
        ms[k] = BUILT[kind, k]
        core(ms[k]).reset_state()
    hist = {'A': Node(), 'B': Node()}
    stack = []
    saved = None

    def what():
        return '{} operations {} {}'.format(
            kind, seq, 'methods' if style else 'functions')

    def leave(boom):
        ctx, who, old = stack.pop()
        if boom:
            try:
                got = ctx.__exit__(Boom, Boom(), None)
            except Boom:
                got = None
            rec.expect(not got, lambda: what() + ': exception swallowed')
        else:
            ctx.__exit__(None, None, None)
        hist[who] = old
    for o in seq:
        who = 'A'
        if o[0] == 'B':
            who, o = 'B', o[1:]
        m = ms[who]
        if o in ('x0', 'x1'):
            k = int(o[1])
            y = forward(m, XS[k])
            hist[who] = Node(hist[who], k)
        elif o == 'update':
            core(m).update_state(*args_of(kind, XS[1]))
            hist[who] = Node(hist[who], 'u')
        elif o == 'reset':
            core(m).reset_state()
            hist[who] = Node()
        elif o == 'cut':
            core(m).unchain_backward()
            hist[who].cut()
        elif o == 'save':
            saved = core(m).get_state(), hist[who]
        elif o == 'load':
            core(m).set_state(saved[0])
            hist[who] = saved[1]
        elif o in ('keep', 'fresh'):
            if style:
                ctx = (core(m).state_kept() if o == 'keep'
                       else core(m).state_reset())
            else:
                ctx = (R.state_kept if o == 'keep'
                       else R.state_reset)(core(m))
            ctx.__enter__()
            stack.append((ctx, who, hist[who]))
            if o == 'fresh':
                hist[who] = Node()
        else:
            leave(o == 'boom')
        rec.trans()
    compare(rec, kind, ms, hist, what, seq)
    while stack:
        leave(False)
        compare(rec, kind, ms, hist, what, seq)
    rec.trace()
    rec.state(kind, seq)
    rec.outcome(len(hist['A'].history()), len(hist['B'].history()))


def compare(rec, kind, ms, hist, what, seq):
    grads = 'cut' in seq
    for who in 'AB':
        m = ms[who]
        st = core(m).get_state()
        h = hist[who].history()
        if who == 'B' and not h and not any(
                o[0] == 'B' for o in seq):
            continue
        got = probe(m, grads)
        core(m).set_state(st)
        want = reference(kind, hist[who].history())
        for g, w in zip(got, want):
            if w is None or g is None:
                rec.expect(g is None and w is None, lambda: what() +
                           ': gradient present only on one side')
                continue
            rec.close(g, w, lambda: '{}: model {} should have history {}'
                      .format(what(), who, hist[who].history()), rtol=1e-5, atol=1e-6)


# ------------------------------------------------- overlapping scopes

OVER = ['x', 'K', 'F', 'P']


def overlap_gen(tier):
    n = 4 if tier == 'thorough' else 3
    for kind in KINDS:
        for first in ('K', 'F'):
            for second in OVER:
                for style in (0, 1, 2):
                    yield [kind, [first + 'A', second + 'B'], n, style]
                    if tier == 'thorough':
                        yield [kind, [first + 'A', second + 'A'], n, style]


@chk.part('overlapping scopes', overlap_gen, bound='two models whose scopes '
          'are left in any order (each model\'s own ones last in, first out): '
          'all sequences of 3 (thorough 4) further operations')
def overlap(rec, case):
    from chainerrl import recurrent as R
    kind, head, n, style = case
    ops = [o + k for o in OVER for k in 'AB']
    for tail in itertools.product(ops, repeat=n):
        seq = tuple(head) + tail
        depth = {'A': 0, 'B': 0}
        ok = True
        for o in seq:
            depth[o[1]] += {'x': 0, 'K': 1, 'F': 1, 'P': -1}[o[0]]
            ok = ok and depth[o[1]] >= 0
        if not ok:
            continue
        # only sequences in which some scope is left before an inner one of
        # the other model (the others are covered by the operations above)
        st, crossed = [], False
        for o in seq:
            if o[0] in 'KF':
                st.append(o[1])
            elif o[0] == 'P':
                crossed = crossed or st[-1] != o[1]
                i = len(st) - 1 - st[::-1].index(o[1])
                del st[i]
        if not crossed:
            continue
        ms, hist = {}, {'A': Node(), 'B': Node()}
        for k in 'AB':
            if (kind, k) not in BUILT:
                BUILT[kind, k] = zoo(kind)
                G.fill(core(BUILT[kind, k]), 1, 0.9)
            ms[k] = BUILT[kind, k]
            core(ms[k]).reset_state()
            forward(ms[k], XS['AB'.index(k)])
            hist[k] = Node(hist[k], 'AB'.index(k))
        stacks = {'A': [], 'B': []}

        def leave(who):
            ctx, old = stacks[who].pop()
            if style == 2:
                core(ms[who]).pop_state()
            else:
                ctx.__exit__(None, None, None)
            hist[who] = old
        for o, who in seq:
            m = core(ms[who])
            if o == 'x':
                forward(ms[who], XS[0])
                hist[who] = Node(hist[who], 0)
            elif o == 'P':
                leave(who)
            else:
                ctx = None
                if style == 2:
                    (m.push_and_keep_state if o == 'K' else m.push_state)()
                else:
                    ctx = ((m.state_kept() if o == 'K' else m.state_reset())
                           if style else (R.state_kept if o == 'K'
                                          else R.state_reset)(m))
                    ctx.__enter__()
                stacks[who].append((ctx, hist[who]))
                if o == 'F':
                    hist[who] = Node()
            rec.trans()

        def what():
            return '{} overlapping {} style {}'.format(kind, seq, style)
        bseq = tuple('B' for _ in seq)
        compare(rec, kind, ms, hist, what, bseq)
        for who in 'AB':
            while stacks[who]:
                leave(who)
        compare(rec, kind, ms, hist, what, bseq)
        rec.trace()
        rec.state(kind, seq, style)


# ------------------------------------------------- not recurrent models

@chk.part('feed-forward', lambda tier: [[0], [1]], bound='both scopes with '
          'links that are not recurrent')
def plain(rec, case):
    from chainerrl import recurrent as R
    m = L.Linear(2, 2)
    f = R.state_kept if case[0] else R.state_reset
    with f(m):
        y = m(XS[0])
    rec.close(y.array, m(XS[0]).array, 'feed-forward link')
    try:
        with f(m):
            raise Boom()
    except Boom:
        pass
    else:
        rec.fail('exception swallowed')
    rec.trace()


if __name__ == '__main__':
    raise SystemExit(chk.main())
