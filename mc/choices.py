"""Stateless exploration of every sequence of environment answers.

`explore(run)` calls run(ch) once per execution.  run asks ch.choose(n) at
each nondeterministic point; the explorer replays prefixes and enumerates all
alternatives depth first.  `bound` limits the number of *deviations* (answers
other than 0), as in iterative context bounding; None means no limit.
"""


class Divergence(Exception):
    """Replaying a prefix led to a different choice point: a hard error."""


class Choices(object):
    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.taken = []
        self.arity = []
        self.labels = []

    def choose(self, n, label=None):
        i = len(self.taken)
        if i < len(self.prefix):
            c = self.prefix[i]
            if c >= n:
                raise Divergence('choice {} of {} at point {} ({})'.format(
                    c, n, i, label))
        else:
            c = 0
        self.taken.append(c)
        self.arity.append(n)
        self.labels.append(label)
        return c

    def pick(self, options, label=None):
        return options[self.choose(len(options), label)]


def explore(run, bound=None, prefix=(), max_execs=None):
    """Enumerate all executions; yields (Choices, result) for each."""
    stack = [list(prefix)]
    n = 0
    while stack:
        pre = stack.pop()
        ch = Choices(pre)
        res = run(ch)
        if len(ch.taken) < len(pre):
            raise Divergence('execution ended before its prefix')
        yield ch, res
        n += 1
        if max_execs is not None and n >= max_execs:
            raise RuntimeError('execution cap reached')
        dev = sum(1 for c in ch.taken[:len(pre)] if c)
        for i in range(len(ch.taken) - 1, len(pre) - 1, -1):
            # positions after the prefix were answered with 0
            if bound is not None and dev + 1 > bound:
                continue
            for alt in range(ch.arity[i] - 1, 0, -1):
                stack.append(ch.taken[:i] + [alt])
