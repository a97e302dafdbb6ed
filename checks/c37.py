"""C37: scheduled hyperparameters follow their schedule in every loop."""
import itertools
from fractions import Fraction

import numpy as np

from chainerrl import experiments
from mc.core import Check, Tmp
from mc.sched import Scheduler, explore_schedules, patched_mp
from mc.world import CONT, DONE, LogAgent, RESET, ScriptEnv, make_vector_env_class

chk = Check(
    'C37',
    rule='the real interpolation hook for every step of every schedule of a '
         'grid against exact rational arithmetic, and inside the real '
         'training loops (single, batch, asynchronous under every '
         'interleaving up to a preemption bound) against the values in force '
         'at every action of every agent',
    assumptions=['asynchronous workers are isolated except for '
                 'multiprocessing values and locks'])

VALUES = [0., 1., -2., 1e-3, 5, np.float32(0.5), 1e6]
ENDS = [(a, b) for a in VALUES for b in VALUES]


def exact(total, a, b, step):
    a, b = Fraction(float(a)), Fraction(float(b))
    if step <= 1 and total > 1:
        return a
    if step >= total:
        return b
    return a + (b - a) * Fraction(step - 1, total - 1)


def hgen(tier):
    for total in list(range(1, 14 if tier == 'quick' else 40)) + [
            100, 10 ** 6, 10 ** 9, 2 ** 33]:
        yield dict(total=total)


@chk.part('values', hgen, timeout=60,
          bound='17 (thorough 43) lengths x 49 pairs of values x every step '
                'up to three beyond the end (100 steps for long ones)')
def values(rec, c):
    total = c['total']
    steps = range(1, total + 4) if total <= 100 else sorted(
        set(range(1, 20)) | {total * k // 50 for k in range(1, 60)}
        | set(range(total - 5, total + 5)))
    for a, b in ENDS:
        env, agent = object(), object()
        calls = []
        hook = experiments.LinearInterpolationHook(
            total, a, b, lambda *x: calls.append(x))
        rec.expect(isinstance(hook, experiments.StepHook), 'not a hook')
        before = None
        for s in steps:
            hook(env, agent, s)
            rec.expect(len(calls) == 1 and calls[0][0] is env
                       and calls[0][1] is agent, 'call of the setter')
            v = float(calls.pop()[2])
            w = float(exact(total, a, b, s))
            if total == 1 and s == 1:
                rec.expect(v in (float(a), float(b)), 'value of one step')
                continue
            tol = 1e-9 * (abs(float(a)) + abs(float(b)))
            rec.expect(abs(v - w) <= tol, lambda: 'value {!r} instead of {!r} '
                       'at step {} of {} from {} to {}'.format(
                           v, w, s, total, a, b))
            if s == 1:
                rec.expect(v == float(a), 'first value')
            if s >= total:
                rec.expect(v == float(b), 'last value')
            rec.expect(before is None or (v - before) * (float(b) - float(a))
                       >= 0, 'not monotonic')
            before = v
            rec.trans()
        # the order of calls does not matter
        for s in (total + 2, 1, 2, total):
            hook(env, agent, s)
            w = float(exact(total, a, b, s))
            rec.expect(total == 1 or abs(float(calls.pop()[2]) - w)
                       <= 1e-9 * (abs(float(a)) + abs(float(b))),
                       'value depends on earlier calls')
    rec.trace()
    rec.state(total)
    rec.outcome(total)


class LrAgent(LogAgent):
    """Records the value in force at every action."""

    lr = 'initial'

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.used = []

    def act_and_train(self, obs, reward):
        self.used.append((self.lr, getattr(self, 'other', None)))
        return super().act_and_train(obs, reward)

    def batch_act_and_train(self, obss):
        self.used.append((self.lr, getattr(self, 'other', None)))
        return super().batch_act_and_train(obss)


def set_lr(env, agent, value):
    agent.lr = float(value)


def set_other(env, agent, value):
    agent.other = float(value)


def hooks(total):
    return [experiments.LinearInterpolationHook(total, 2., 0., set_lr),
            experiments.LinearInterpolationHook(2 * total, 0., 1.,
                                                set_other)]


def check_value(rec, used, step, total, offset, ctx):
    """`step`: the last step finished before the action."""
    lr, other = used
    if step == offset:
        rec.eq((lr, other), ('initial', None), lambda: 'before step one')
        return
    rec.expect(abs(lr - float(exact(total, 2., 0., step))) < 1e-9
               and abs(other - float(exact(2 * total, 0., 1., step))) < 1e-9,
               lambda: 'values {} after step {} ({})'.format(
                   used, step, ctx()))


def lgen(tier):
    n = 4 if tier == 'quick' else 6
    for steps in range(1, n + 2):
        for offset in range(0, min(3, steps)):
            for total in sorted({2, 3, steps, steps + 3}):
                for max_len in (None, 2):
                    yield dict(steps=steps, offset=offset, total=total,
                               max_len=max_len, n=n)


@chk.part('loops', lgen, timeout=60,
          bound='1-5 (thorough 7) steps from offsets 0-2, 4 schedule '
                'lengths, with and without an episode limit, every script of '
                '{continue, done, reset}; 1-3 environments in the batch loop')
def loops(rec, c):
    for script in itertools.product((CONT, DONE, RESET),
                                    repeat=min(c['steps'], 4)):
        log = []
        agent = LrAgent(log)
        with Tmp() as d:
            experiments.train_agent(
                agent, ScriptEnv(list(script), log), c['steps'], d,
                max_episode_len=c['max_len'], step_offset=c['offset'],
                step_hooks=hooks(c['total']))
        rec.eq(len(agent.used), c['steps'] - c['offset'], 'actions')
        for k, u in enumerate(agent.used):
            check_value(rec, u, c['offset'] + k, c['total'], c['offset'],
                        lambda: '{} {}'.format(script, c))
        rec.trans()
        rec.state(sorted(map(str, c.items())), script)
    for n in (1, 2, 3):
        for first in itertools.product((CONT, DONE, RESET), repeat=n):
            log = []
            agent = LrAgent(log)
            env = make_vector_env_class()(
                [ScriptEnv([k], log, name=i) for i, k in enumerate(first)],
                log)
            with Tmp() as d:
                experiments.train_agent_batch(
                    agent, env, c['steps'], d, max_episode_len=c['max_len'],
                    step_offset=c['offset'], step_hooks=hooks(c['total']))
            for k, u in enumerate(agent.used):
                check_value(rec, u, c['offset'] + k * n, c['total'],
                            c['offset'], lambda: '{} {}'.format(first, c))
            rec.expect(c['offset'] + len(agent.used) * n >= c['steps'],
                       'actions')
            rec.trans()
            rec.state(sorted(map(str, c.items())), n, first)
    rec.trace()
    rec.outcome(sorted(map(str, c.items())))


def agen(tier):
    deep = tier == 'thorough'
    for steps in (1, 2, 3):
        for offset in (0, 1):
            for total in (2, 4):
                for script in ([CONT] * 8, [DONE] * 8, [RESET, CONT] * 4):
                    yield dict(procs=2, steps=steps + offset, offset=offset,
                               total=total, script=script,
                               bound=3 if deep else 2 if steps < 3 else 1)
    yield dict(procs=3, steps=2, offset=0, total=3, script=[CONT] * 8,
               bound=2 if deep else 1)


@chk.part('asynchronous', agen, timeout=800,
          bound='2 workers, 1-3 global steps with <=2 preemptions (1 for 3 '
                'steps; thorough 3); 3 workers with <=1 (thorough 2)')
def asynchronous(rec, c):
    procs, offset = c['procs'], c['offset']

    def run(ch):
        with Tmp() as d:
            s = Scheduler(ch)
            made = []
            order = []

            def make_env(idx, test):
                return ScriptEnv(list(c['script']), [])

            def make_agent(idx):
                made.append((idx, LrAgent([])))
                return made[-1][1]

            def seen(env, agent, t):
                order.append((id(agent), t, agent.lr, agent.other,
                              len(agent.used)))
            with patched_mp(s, d):
                def main():
                    experiments.train_agent_async(
                        d, procs, make_env, steps=c['steps'],
                        step_offset=offset, make_agent=make_agent,
                        eval_interval=None,
                        global_step_hooks=hooks(c['total']) + [seen])
                s.spawn(main, 'main')
                s.run()
                for t in s.tasks:
                    if t.error is not None:
                        raise t.error
        return made, order, s.points

    for ch, (made, order, points) in explore_schedules(run, c['bound']):
        rec.trans(points)
        rec.trace()

        def ctx():
            return '{} schedule {}'.format(c, ch.taken)
        rec.eq(sorted(o[1] for o in order),
               list(range(offset + 1, offset + 1 + len(order))), 'steps')
        for a, t, lr, other, k in order:
            check_value(rec, (lr, other), t, c['total'], offset, ctx)
        for idx, agent in made:
            mine = [o for o in order if o[0] == id(agent)]
            for k, u in enumerate(agent.used):
                if k == 0:
                    rec.eq(u, ('initial', None), 'before the first step')
                else:
                    rec.expect(mine[k - 1][4] == k,
                               'hooks between actions ' + ctx())
                    check_value(rec, u, mine[k - 1][1], c['total'], offset,
                                ctx)
            rec.expect(len(mine) == len(agent.used),
                       'an action without its step ' + ctx())
        rec.state(c['steps'], offset, c['total'], c['script'], ch.taken)
        rec.outcome(c['procs'], c['steps'], [o[1] for o in order])


if __name__ == '__main__':
    raise SystemExit(chk.main())
