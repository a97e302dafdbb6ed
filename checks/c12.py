"""C12: asynchronous training counts every step once, under any schedule."""
import os

from mc.core import Check, Tmp
from mc.sched import Scheduler, explore_schedules, patched_mp
from mc.world import CONT, DONE, KIND, LogAgent, RESET, ScriptEnv

chk = Check(
    'C12',
    rule='the real asynchronous training entry point with 1..3 workers; every '
         'interleaving of accesses to shared counters, flags, locks and the '
         'score file up to the preemption bound',
    assumptions=['workers are isolated except for multiprocessing values, '
                 'locks and files (each worker gets its own agent and '
                 'environment objects, as after fork)'])


class EvalEnv(ScriptEnv):
    """One-step evaluation episodes with a fixed return."""

    def __init__(self, log, score):
        super().__init__([], log, name='eval', default=DONE,
                         reward=lambda k: score)


def gen(tier):
    deep = tier == 'thorough'
    out = []
    # procs, steps, offset, max_len, scripts, eval cfg, preemption bound
    for scripts in ([[CONT] * 6, [CONT] * 6], [[DONE] * 6, [CONT] * 6],
                    [[RESET, CONT, DONE] * 2, [DONE] * 6]):
        for steps in (1, 2, 3):
            out.append([2, steps, 0, None, scripts, None,
                        (4 if deep else 3) if steps <= 2 else (3 if deep else 2)])
    out.append([2, 3, 0, 1, [[CONT] * 6, [CONT] * 6], None, 3 if deep else 2])
    out.append([2, 4, 2, 2, [[CONT] * 6, [CONT] * 6], None, 3 if deep else 2])
    out.append([2, 4, 0, 2, [[CONT] * 6, [DONE] * 6], None, 2 if deep else 1])
    out.append([1, 4, 0, 2, [[CONT, DONE] * 3], None, 0])
    out.append([1, 5, 3, None, [[CONT] * 3], None, 0])
    for steps in (1, 2):
        out.append([3, steps, 0, None, [[CONT] * 4] * 3, None,
                    2 if deep else 1])
    # with evaluation: (interval, per-process scores, successful_score)
    for scores, succ in (([1.0, 2.0], None), ([1.0, 2.0], 2.0),
                         ([2.0, 2.0], 2.0), ([0.0, -1.0], 0.0)):
        for steps in (2, 3):
            out.append([2, steps, 0, None, [[DONE] * 6, [DONE] * 6],
                        [1, scores, succ], (3 if deep else 2) if steps == 2 else (2 if deep else 1)])
        out.append([2, 4, 0, 2, [[CONT] * 6, [CONT] * 6],
                    [2, scores, succ], 2 if deep else 1])
    out.append([1, 6, 0, None, [[CONT, DONE] * 3], [2, [1.0], None], 0])
    out.append([1, 6, 0, None, [[CONT, DONE] * 3], [2, [1.0], 1.0], 0])
    return out


@chk.part('interleavings', gen, timeout=850,
          bound='2 workers, 1-4 global steps, <=2 preemptions (3 in the '
                'smallest); 3 workers, 1-2 steps, <=1; with evaluation and '
                'early success <=2/1 (one more when thorough)')
def interleavings(rec, case):
    from chainerrl.experiments import train_agent_async
    procs, steps, offset, max_len, scripts, evc, bound = case

    def run(ch):
        with Tmp() as d:
            s = Scheduler(ch)
            world = [dict(log=[], elog=[], hooks=[], agent=None, env=None,
                          eenv=None) for _ in range(procs)]
            order = []

            def make_env(idx, test):
                w = world[idx]
                if test:
                    w['eenv'] = EvalEnv(w['elog'], evc[1][idx])
                    return w['eenv']
                w['env'] = ScriptEnv(scripts[idx], w['log'])
                return w['env']

            def make_agent(idx):
                if idx == 0 and world[0]['agent'] is None:
                    # the parent's copy, used only to create shared objects
                    world[0]['agent'] = 'parent'
                    return LogAgent([])
                world[idx]['agent'] = LogAgent(world[idx]['log'])
                return world[idx]['agent']

            def hook(env, agent, t):
                idx = agent.process_idx
                world[idx]['hooks'].append(t)
                world[idx]['log'].append(('hook', t))
                order.append((idx, t))
            kw = {}
            if evc is None:
                kw['eval_interval'] = None
            else:
                kw.update(eval_interval=evc[0], eval_n_episodes=1,
                          successful_score=evc[2])
            with patched_mp(s, d):
                def main():
                    train_agent_async(
                        d, procs, make_env, steps=steps,
                        max_episode_len=max_len, step_offset=offset,
                        make_agent=make_agent, global_step_hooks=[hook],
                        **kw)
                t = s.spawn(main, 'main')
                s.run()
                for t in s.tasks:
                    if t.error is not None:
                        raise t.error
            rows = []
            p = os.path.join(d, 'scores.txt')
            if os.path.exists(p):
                with open(p) as f:
                    rows = [ln.rstrip('\n').split('\t') for ln in f]
        return world, order, rows, s.points

    n = 0
    for ch, (world, order, rows, points) in explore_schedules(run, bound):
        n += 1
        rec.trans(points)
        rec.trace()

        def ctx():
            return 'case {} schedule {}: '.format(case, ch.taken)
        total = 0
        hooks = []
        saves = []
        evals = []
        hit_success = []
        for idx, w in enumerate(world):
            log = w['log']
            nsteps = sum(1 for e in log if e[0] == 'step')
            total += nsteps
            hooks += w['hooks']
            rec.expect(len(w['hooks']) == nsteps, lambda: ctx() + 'worker {} '
                       'took {} steps but saw {} step numbers'.format(
                           idx, nsteps, w['hooks']))
            rec.expect(w['hooks'] == sorted(w['hooks']), lambda: ctx() +
                       'worker {} saw {}'.format(idx, w['hooks']))
            saves += [os.path.basename(p) for p, _ in w['agent'].saves]
            check_stream(rec, ctx, idx, w, max_len, scripts[idx])
            rec.expect(w['env'].closed == 1, lambda: ctx() + 'worker {} env '
                       'closed {} times'.format(idx, w['env'].closed))
            if evc:
                rec.expect(w['eenv'].closed == 1, lambda: ctx() + 'eval env '
                           'closed {} times'.format(w['eenv'].closed))
                k = sum(1 for e in w['elog'] if e[0] == 'step')
                evals += [idx] * k
                if evc[2] is not None and evc[1][idx] >= evc[2] and k:
                    hit_success.append(idx)
                    rec.expect(k == 1, lambda: ctx() + 'worker {} evaluated '
                               'again after succeeding'.format(idx))
        rec.expect(sorted(hooks) == list(range(offset + 1,
                                               offset + total + 1)),
                   lambda: ctx() + 'step numbers {} for {} steps taken'.format(
                       sorted(hooks), total))
        t_end = offset + total
        success = [x for x in saves if x == 'successful']
        finish = [x for x in saves if x.endswith('_finish')]
        rec.expect(not [x for x in saves if x.endswith('_except')],
                   lambda: ctx() + 'saves {}'.format(saves))
        rec.expect(t_end <= steps + procs - 1 or offset >= steps,
                   lambda: ctx() + '{} steps taken, budget {} with {} '
                   'workers'.format(t_end, steps, procs))
        if hit_success:
            rec.expect(len(success) == 1, lambda: ctx() + 'successful agent '
                       'saved {} times (workers that reached the score: {})'
                       .format(len(success), hit_success))
        else:
            rec.expect(not success, lambda: ctx() + 'saved as successful '
                       'without reaching the score')
            rec.expect(t_end >= steps, lambda: ctx() + 'stopped at {} of {} '
                       'steps'.format(t_end, steps))
        rec.expect(len(finish) == (1 if t_end >= steps else 0) and
                   all(x == '{}_finish'.format(steps) for x in finish),
                   lambda: ctx() + 'final saves {} after {} steps'.format(
                       finish, t_end))
        if evc:
            rec.expect(len(rows) - 1 == len(evals) or
                       (not evals and rows == []), lambda: ctx() +
                       '{} evaluations, score file {}'.format(
                           len(evals), rows))
            rec.expect(len(evals) <= t_end // evc[0], lambda: ctx() +
                       '{} evaluations in {} steps, interval {}'.format(
                           len(evals), t_end, evc[0]))
            for r in rows[1:]:
                rec.expect(int(r[0]) in hooks, lambda: ctx() + 'row ' +
                           str(r))
            check_episodes(rec, ctx, world, order, rows[1:])
            best = [x for x in saves if x == 'best']
            rec.expect(bool(best) == bool(evals), lambda: ctx() +
                       'best saves {} for {} evaluations'.format(
                           best, len(evals)))
        rec.state(case, order, sorted(saves), [r[0] for r in rows])
        rec.outcome(case[:3], sorted(order), sorted(saves))
    rec.note_add('schedules', n)
    rec.note_max('max_preemptions', bound)


def check_episodes(rec, ctx, world, order, rows):
    """The episodes column is the worker's view of the shared count.

    Right after one of its episodes ended a worker knows the number of
    episodes ended by all at that moment, a number of its own; before its
    first one ended it knows of none.
    """
    owner = {t: idx for idx, t in order}
    ended = [sum(1 for e in w['log'] if e[0] == 'stop_train') for w in world]
    seen = []
    for row in rows:
        t, episodes = int(row[0]), int(row[1])
        idx = owner.get(t)
        if idx is None:
            continue
        own, done = 0, False
        for e in world[idx]['log']:
            if e == ('hook', t):
                done = True
            elif e[0] == 'stop_train' and not done:
                own += 1
        rec.expect((episodes >= own if own else episodes == 0)
                   and episodes < sum(ended), lambda: ctx() + 'row {}: worker'
                   ' {} had ended {} episodes, all {}'.format(
                       row, idx, own, ended))
        if len(world) == 1:
            rec.expect(episodes == own, lambda: ctx() + 'row {} after {} '
                       'episodes'.format(row, own))
        if episodes:
            seen.append(episodes)
    rec.expect(len(set(seen)) == len(seen), lambda: ctx() + 'episode numbers '
               '{} of different evaluations'.format(seen))


def check_stream(rec, ctx, idx, w, max_len, script):
    """The worker's agent sees exactly its environment's stream."""
    log = [e for e in w['log'] if e[0] not in ('save', 'close', 'eval_act',
                                               'eval_stop')]
    obs, r, k, ep_len = None, 0, 0, 0
    state = 'start'
    for i, e in enumerate(log):
        def bad():
            return ctx() + 'worker {}: unexpected {} in {}'.format(
                idx, e, log)
        if e[0] == 'reset':
            rec.expect(state in ('start', 'stopped'), bad)
            obs, r, ep_len = e[2], 0, 0
            state = 'ready'
        elif e[0] == 'act':
            rec.expect(state in ('ready', 'running') and e[1] == obs
                       and e[2] == r, bad)
            state = 'acted'
        elif e[0] == 'step':
            rec.expect(state == 'acted' and e[2] == ('a', k), bad)
            obs, r, done, nr = e[3], e[4], e[5], e[6]
            k += 1
            ep_len += 1
            state = 'stepped'
            must_end = done or nr or ep_len == max_len
        elif e[0] == 'hook':
            rec.expect(state == 'stepped', bad)
            state = 'must-end' if must_end else 'running'
        elif e[0] == 'stop_train':
            # an episode may also be cut because training is over, which is
            # then the last thing that happens
            rec.expect(state in ('must-end', 'running') and e[1:] == (
                obs, r, done), bad)
            if state == 'running':
                rec.expect(i == len(log) - 1, bad)
            state = 'stopped'
        else:
            rec.fail(bad())
    rec.expect(state == 'stopped', lambda: ctx() + 'worker {} ended in the '
               'middle of an episode: {}'.format(idx, log))


if __name__ == '__main__':
    raise SystemExit(chk.main())
