"""Reference models and alphabets shared between checks."""
import collections

# one environment: (kind, env_id)
OPS1 = [('append', 0), ('terminal', 0), ('stop', 0)]
# two environments with unrelated hashable ids
OPS2 = [('append', 0), ('append', 'b'), ('terminal', 0), ('terminal', 'b'),
        ('stop', 0), ('stop', 'b')]


def make_transition(i, env, terminal):
    """Distinct opaque contents for the i-th appended transition."""
    return dict(state=('s', i, env), action=('a', i), reward=float(i) + 0.25,
                next_state=('ns', i, env), next_action=('na', i),
                is_state_terminal=terminal)


class NStepRef(object):
    """Every transition heads exactly one window of the <=n transitions that
    follow it within its own episode and environment."""

    def __init__(self, n, capacity):
        self.n = n
        self.capacity = capacity
        self.memory = []
        self.pending = collections.defaultdict(list)

    def _emit(self, w):
        self.memory.append(list(w))
        if self.capacity is not None and len(self.memory) > self.capacity:
            self.memory.pop(0)

    def append(self, env, tr):
        p = self.pending[env]
        p.append(tr)
        if tr['is_state_terminal']:
            self.stop(env)
        elif len(p) == self.n:
            self._emit(p)
            p.pop(0)

    def stop(self, env):
        p = self.pending[env]
        while p:
            self._emit(p)
            p.pop(0)

    def canon(self):
        return ([[t['action'][1] for t in w] for w in self.memory],
                sorted((str(e), [t['action'][1] for t in p])
                       for e, p in self.pending.items() if p))


class EpisodicRef(object):
    def __init__(self, capacity):
        self.capacity = capacity
        self.episodes = []
        self.current = collections.defaultdict(list)

    def append(self, env, tr):
        self.current[env].append(tr)
        if tr['is_state_terminal']:
            self.stop(env)

    def stop(self, env):
        if self.current[env]:
            self.episodes.append(self.current[env])
            self.current[env] = []
            if self.capacity is not None:
                while sum(map(len, self.episodes)) > self.capacity:
                    self.episodes.pop(0)

    def canon(self):
        return ([[t['action'][1] for t in w] for w in self.episodes],
                sorted((str(e), [t['action'][1] for t in p])
                       for e, p in self.current.items() if p))


def apply_nstep_op(buf, ref, op, i):
    kind, env = op
    if kind == 'stop':
        buf.stop_current_episode(env_id=env)
        if ref is not None:
            ref.stop(env)
        return
    tr = make_transition(i, env, kind == 'terminal')
    # transitions carry extra information too, and env_id=0 is the default
    extra = dict(recurrent_state=('rs', i))
    if env == 0 and i % 2:
        buf.append(**dict(tr), **extra)
    else:
        buf.append(env_id=env, **dict(tr), **extra)
    tr.update(extra)
    if ref is not None:
        ref.append(env, tr)


def transition_key(t, ignore=()):
    return repr(sorted((k, repr(v)) for k, v in t.items()
                       if k not in ignore))


def window_key(w, ignore=()):
    return [transition_key(t, ignore) for t in w]
