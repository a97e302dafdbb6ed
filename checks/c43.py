"""C43: the toy problem ABC follows its documented dynamics."""
import itertools
import math
import warnings

import numpy as np

from mc.choices import explore
from mc.core import Check
from mc.shim_random import RandomShim

warnings.filterwarnings('ignore')

chk = Check(
    'C43',
    rule='every sequence of actions (and resets) up to the bound on the real '
         'environment, under every answer of the random generator; the exact '
         'distribution of everything observed equals that of the documented '
         'process',
    assumptions=['an episode is not continued after its end'])


def menu(size, discrete):
    if discrete:
        return list(range(size))
    out = [[1.0 if j == i else -1.0 for j in range(size)]
           for i in range(size)]
    out.append([5.0] + [0.25] * (size - 1))       # beyond the bounds
    return out


def gen(tier):
    deep = tier == 'thorough'
    for size in (1, 2, 3):
        for discrete in (True, False):
            for po in (False, True):
                for episodic in (True, False):
                    for det in (False, True):
                        n = (5 if deep else 4) + (discrete and size < 3)
                        if not discrete and not det and size == 3:
                            n -= 1
                        for first in range(len(menu(size, discrete))):
                            yield [size, discrete, po, episodic, det, n,
                                   first]


def reference(size, discrete, po, episodic, det, script):
    """{observations: probability}; None in the script is a reset."""
    dist = {}

    def obs(state, off):
        v = [0.0] * (size + 2)
        v[state + off] = 1.0
        return tuple(v)

    def go(i, state, off, over, p, seen):
        if i == len(script):
            dist[seen] = dist.get(seen, 0.0) + p
            return
        a = script[i]
        if a is None or over:
            if not po:
                nexts = [(0, 1.0)]
            elif det:
                nexts = [(1 if off is None else 1 - off, 1.0)]
            else:
                nexts = [(0, 0.5), (1, 0.5)]
            for o, q in nexts:
                go(i + (a is None), 0, o, False, p * q,
                   seen + (('reset', obs(0, o)),))
            return
        if discrete:
            acts = [(a, 1.0)]
        else:
            c = [min(1.0, max(-1.0, x)) for x in a]
            if det:
                acts = [(c.index(max(c)), 1.0)]
            else:
                z = sum(math.exp(x) for x in c)
                acts = [(j, math.exp(x) / z) for j, x in enumerate(c)]
        for inner, q in acts:
            r, done, s = 0.0, False, state
            if inner == state:
                s += 1
                if s == size:
                    r = 1.0
                    done = episodic
                    s = size if episodic else 0
            elif episodic:
                done, s = True, size
            go(i + 1, s, off, done, p * q,
               seen + ((obs(s, off), r, done),))
    go(0, None, None, False, 1.0, ())
    return dist


@chk.part('dynamics', gen, bound='sizes 1..3, all 16 settings, all '
          'sequences of 3-5 (thorough 4-6) actions and resets, several '
          'episodes')
def dynamics(rec, case):
    from chainerrl.envs.abc import ABC
    size, discrete, po, episodic, det, n, first = case
    acts = menu(size, discrete)
    opts = list(range(len(acts))) + [None]
    for tail in itertools.product(opts, repeat=n - 1):
        script = [None, acts[first]] + [
            None if a is None else acts[a] for a in tail]
        want = reference(size, discrete, po, episodic, det, script)

        def run(ch):
            shim = RandomShim(ch)
            with shim.patched():
                env = ABC(size=size, discrete=discrete,
                          partially_observable=po, episodic=episodic,
                          deterministic=det)
                seen = ()
                over = False
                i = 0
                while i < len(script):
                    a = script[i]
                    if a is None or over:
                        o = env.reset()
                        seen += (('reset', tuple(o.tolist())),)
                        over = False
                        i += a is None
                        continue
                    if not discrete:
                        a = np.asarray(a, dtype=np.float32)
                        keep = a.copy()
                    o, r, done, info = env.step(a)
                    if not discrete:
                        rec.expect((a == keep).all(), 'step changed the '
                                   'given action')
                    rec.expect(o.dtype == np.float32 and
                               env.observation_space.contains(o),
                               lambda: 'observation {}'.format(o))
                    rec.expect(info == {}, 'info')
                    seen += ((tuple(o.tolist()), float(r), bool(done)),)
                    over = done
                    i += 1
                env.close()
            return seen, float(shim.prob)
        got = {}
        for ch, (seen, p) in explore(run):
            got[seen] = got.get(seen, 0.0) + p
            rec.trace()
            rec.trans(len(script))
            rec.outcome(seen)
        if det:
            rec.expect(len(got) == 1, 'a deterministic problem was random')
        rec.expect(set(got) == set(want), lambda: '{} script {}: observed {} '
                   'documented {}'.format(case, script,
                                          sorted(set(got) - set(want)),
                                          sorted(set(want) - set(got))))
        for s in want:
            rec.close(got[s], want[s], lambda: '{} script {}: probability of '
                      '{}'.format(case, script, s), rtol=1e-4)
        rec.state(case[:5], script)


if __name__ == '__main__':
    raise SystemExit(chk.main())
