"""A finite universe of experiences for learning rules."""
from mc import agents as G

OBS = [G.obs_of(0, 0), G.obs_of(0, 1), G.obs_of(1, 3)]
REW = [-3., 0.2, 2.5]


def universe():
    """Experiences: lists of 1-3 transitions as (state, action, reward, next
    state, terminal)."""
    singles = [[(s, a, r, (s + 1) % 3, t)]
               for s in (0, 1) for a in range(3) for r in range(3)
               for t in (False, True)]
    multi = []
    for n in (2, 3):
        for a in (0, 2):
            for rs in ((0, 1, 2), (2, 2, 1)):
                for t in (False, True):
                    multi.append([
                        (k % 3, a if k == 0 else (a + k) % 3, rs[k],
                         (k + 1) % 3, t and k == n - 1)
                        for k in range(n)])
    return singles, multi


def batches(deep):
    singles, multi = universe()
    out = [[e] for e in singles + multi]
    second = [singles[5], singles[20], singles[31], multi[1], multi[14]]
    base = singles + multi[::3] if deep else singles[::9] + multi[::5]
    out += [[e, f] for e in base for f in (second if deep else second[1:4])]
    out += [[e, second[i % 5], second[(i + 2) % 5]]
            for i, e in enumerate((singles + multi)[::1 if deep else 12])]
    return out


def to_exp(action, exp, weight=None):
    out = []
    for k, (s, a, r, s2, t) in enumerate(exp):
        d = dict(state=OBS[s], action=action(a), reward=REW[r],
                 next_state=OBS[s2], next_action=None, is_state_terminal=t)
        if weight is not None and k == 0:
            d['weight'] = weight
        out.append(d)
    return out
