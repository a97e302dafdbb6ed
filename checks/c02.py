"""C02: episodic replay keeps whole episodes, evicting whole oldest ones."""
import itertools

import numpy as np

from mc.choices import explore
from mc.core import Check
from mc.refs import (EpisodicRef, OPS1, OPS2, apply_nstep_op, window_key,
                     transition_key)
from mc.shim_random import RandomShim

chk = Check(
    'C02',
    rule='every sequence of append/terminal-append/stop operations over 1 or '
         '2 environments up to the depth bound, for each episodic buffer and '
         'capacity; one execution per sequence compared with a list model',
    assumptions=['transition contents are opaque distinct tokens',
                 'histories longer than the depth bound are not explored'])


def make(cls, cap):
    from chainerrl import replay_buffers
    if cls == 'episodic':
        return replay_buffers.EpisodicReplayBuffer(capacity=cap)
    return replay_buffers.PrioritizedEpisodicReplayBuffer(
        capacity=cap, betasteps=10, return_sample_weights=(cls == 'pe_w'))


def sample_eps(buf, cls, n, max_len=None):
    r = buf.sample_episodes(n, max_len) if max_len is not None \
        else buf.sample_episodes(n)
    if cls == 'pe_w':
        r, w = r
        assert len(w) == n
    if cls != 'episodic':
        buf.update_errors([1.0] * n)
    return r


def gen_hist(tier):
    deep = tier == 'thorough'
    for cls in ('episodic', 'pe', 'pe_w'):
        for cap in (None, 1, 2, 3, 4, 5):
            for first in range(len(OPS1)):
                yield [cls, cap, 1, 10 if deep else 8, first]
        for cap in (None, 1, 2, 3, 4):
            for first in range(len(OPS2)):
                yield [cls, cap, 2, 7 if deep else 5, first]


@chk.part('histories', gen_hist, bound='1 env: depth 8 (10); 2 envs: depth '
          '5 (7); capacities None,1..5')
def histories(rec, case):
    cls, cap, envs, depth, first = case
    ops = OPS1 if envs == 1 else OPS2
    np.random.seed(chk.seed)
    for ln in range(1, depth + 1):
        for tail in itertools.product(range(len(ops)), repeat=ln - 1):
            seq = (first,) + tail
            buf = make(cls, cap)
            ref = EpisodicRef(cap)
            for i, o in enumerate(seq):
                apply_nstep_op(buf, ref, ops[o], i)
            rec.trans(len(seq))

            def h():
                return [ops[o] for o in seq]
            n_eps = len(ref.episodes)
            n_tr = sum(map(len, ref.episodes))
            rec.expect(buf.n_episodes == n_eps, lambda: 'n_episodes {} want '
                       '{} after {}'.format(buf.n_episodes, n_eps, h()))
            rec.expect(len(buf) == n_tr, lambda: 'len {} want {} after {}'
                       .format(len(buf), n_tr, h()))
            if n_eps:
                got = sorted(window_key(e)
                             for e in sample_eps(buf, cls, n_eps))
                want = sorted(window_key(e) for e in ref.episodes)
                rec.expect(got == want, lambda: 'episodes after {}: {} want '
                           '{}'.format(h(), got, want))
                got = buf.sample(n_tr)
                rec.expect(all(isinstance(w, list) and len(w) == 1
                               for w in got), 'sample() must return lists of '
                           'one transition')
                got = sorted(transition_key(w[0]) for w in got)
                want = sorted(transition_key(t)
                              for e in ref.episodes for t in e)
                rec.expect(got == want, lambda: 'transitions after {}: {} '
                           'want {}'.format(h(), got, want))
            rec.trace()
            rec.state(cls, cap, ref.canon())
            rec.outcome([len(e) for e in ref.episodes])


def gen_sub(tier):
    top = 7 if tier == 'thorough' else 5
    for cls in ('episodic', 'pe', 'pe_w'):
        for lens in [[k] for k in range(1, top + 1)] + [
                [a, b] for a in range(1, 4) for b in range(1, 5)]:
            for m in [None] + list(range(1, max(lens) + 2)):
                yield [cls, lens, m]


@chk.part('subsequences', gen_sub, bound='1-2 episodes of length <=5 (7), '
          'every maximum length, every random answer')
def subsequences(rec, case):
    """Every random answer of sample_episodes(n, max_len): contiguous
    subsequence of the right length, each start equally likely."""
    cls, lens, max_len = case

    def run(ch):
        buf = make(cls, None)
        ref = EpisodicRef(None)
        i = 0
        for ln in lens:
            for k in range(ln):
                apply_nstep_op(buf, ref, ('terminal' if k == ln - 1
                                          else 'append', 0), i)
                i += 1
        shim = RandomShim(ch, uniform_grid='int')
        with shim.patched():
            got = sample_eps(buf, cls, len(lens), max_len)
        return ref, [window_key(e) for e in got], shim.prob

    starts = {}
    for ch, (ref, got, prob) in explore(run):
        rec.trans()
        rec.trace()
        eps = [window_key(e) for e in ref.episodes]
        used = set()
        key = []
        for g in got:
            hit = None
            for e, ep in enumerate(eps):
                want_len = len(ep) if max_len is None else min(
                    len(ep), max_len)
                for s in range(len(ep)):
                    if len(g) == want_len and ep[s:s + len(g)] == g:
                        hit = (e, s)
            rec.expect(hit is not None, 'sampled {} is not a contiguous '
                       'subsequence of the right length of {} '
                       '(max_len {})'.format(g, eps, max_len))
            rec.expect(hit[0] not in used, 'the same episode was sampled '
                       'twice')
            used.add(hit[0])
            key.append(hit)
        for e, s in key:
            starts.setdefault(e, {}).setdefault(s, 0)
            starts[e][s] += prob
        rec.state(cls, lens, max_len, sorted(key))
        rec.outcome(sorted(key))
    for e, d in starts.items():
        ln = lens[e]
        n_starts = 1 if max_len is None or ln <= max_len else ln - max_len + 1
        rec.expect(sorted(d) == list(range(n_starts)),
                   'start offsets {} of an episode of length {} with max_len '
                   '{}'.format(sorted(d), ln, max_len))
        rec.expect(len(set(d.values())) == 1,
                   'start offsets are not equally likely: {}'.format(d))


if __name__ == '__main__':
    raise SystemExit(chk.main())
