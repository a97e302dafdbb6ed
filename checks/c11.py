"""C11: asynchronous evaluation is consistent under every interleaving."""
import itertools
import os

from mc.core import Check, Tmp
from mc.sched import Scheduler, explore_schedules, patched_mp
from mc.world import LogAgent

chk = Check(
    'C11',
    rule='2 or 3 workers asking the real shared evaluator for evaluations; '
         'every interleaving of their accesses to shared values, locks and '
         'the score file up to the preemption bound; results are checked for '
         'linearizability against a sequential evaluator',
    assumptions=['workers interact only through the shared values, locks and '
                 'files (which are the scheduling points)',
                 'one buffered write reaches the file atomically at close'])

HEADER = ['steps', 'episodes', 'elapsed', 'mean', 'median', 'stdev', 'max',
          'min', 'stat']


class OneStepEnv(object):
    action_space = observation_space = None

    def __init__(self, score):
        self.score = score

    def reset(self):
        return 0

    def step(self, a):
        return 0, self.score, True, {}


class Agent(LogAgent):
    def __init__(self, pid, glog):
        super().__init__([], stats=[('stat', pid)])
        self.pid = pid
        self.glog = glog
        self.score = None

    def save(self, d):
        self.glog.append(('save', self.pid, os.path.basename(d), self.score))


SCORES = (1.0, 0.7, 0.7 + 1e-9, 0.3, -5.0)


def gen(tier):
    deep = tier == 'thorough'
    plans = [
        # (interval, offset, per-worker list of (t, score index))
        (2, 0, [[(2, 0)], [(2, 1)]]),
        (2, 0, [[(2, 1)], [(2, 1)]]),
        (2, 0, [[(2, 1)], [(4, 1)]]),
        (2, 0, [[(2, 1)], [(4, 2)]]),
        (2, 0, [[(2, 2)], [(4, 1)]]),
        (2, 0, [[(4, 0)], [(5, 3)]]),
        (2, 0, [[(1, 0)], [(2, 4)]]),
        (3, 4, [[(5, 0)], [(6, 3)]]),
        (3, 4, [[(7, 0)], [(6, 3)]]),
        (3, 3, [[(6, 0)], [(5, 3)]]),
        (1, 0, [[(1, 3), (3, 0)], [(2, 1)]]),
        (1, 0, [[(1, 0), (3, 3)], [(2, 1)]]),
        (2, 0, [[(2, 3), (4, 0)], [(3, 1), (5, 1)]]),
        (2, 0, [[(1, 3), (4, 0)], [(3, 2), (6, 1)]]),
        (1, 0, [[(2, 3)], [(1, 1)], [(3, 0)]]),
        (2, 1, [[(2, 3)], [(4, 3)], [(3, 0)]]),
    ]
    for p in plans:
        n = sum(map(len, p[2]))
        if len(p[2]) == 2:
            bound = {2: 4, 3: 3, 4: 2}[n] + (1 if deep else 0)
        else:
            bound = 2 if deep else 1
        yield [list(p), bound]


@chk.part('interleavings', gen, timeout=800,
          bound='2 workers x 1-2 calls with <=4/3/2 preemptions, 3 workers x '
                '1 call with <=1 (one more of each when thorough)')
def interleavings(rec, case):
    from chainerrl.experiments.evaluator import AsyncEvaluator
    (interval, offset, plan), bound = case

    def run(ch):
        with Tmp() as d:
            s = Scheduler(ch)
            glog = []
            calls = []
            with patched_mp(s, d):
                ev = AsyncEvaluator(None, 1, interval, d, step_offset=offset)
                clock = itertools.count()

                def worker(pid):
                    agent = Agent(pid, glog)
                    for t, si in plan[pid]:
                        c = dict(pid=pid, t=t, score=SCORES[si],
                                 start=next(clock))
                        calls.append(c)
                        agent.score = SCORES[si]
                        c['res'] = ev.evaluate_if_necessary(
                            t=t, episodes=100 * pid + t,
                            env=OneStepEnv(SCORES[si]), agent=agent)
                        c['end'] = next(clock)
                tasks = [s.spawn(lambda pid=pid: worker(pid), str(pid))
                         for pid in range(len(plan))]
                s.run()
                for t in tasks:
                    if t.error is not None:
                        raise t.error
                mx = ev.max_score
            with open(os.path.join(d, 'scores.txt')) as f:
                text = f.read()
        return calls, glog, mx, text, s.points

    n = 0
    for ch, (calls, glog, mx, text, points) in explore_schedules(run, bound):
        n += 1
        rec.trans(points)
        rec.trace()
        done = [c for c in calls if c['res'] is not None]

        def ctx():
            return 'plan {} schedule {}: '.format(case[0], ch.taken)
        # 1. linearizable with respect to the sequential schedule
        ok = False
        for order in itertools.permutations(range(len(calls))):
            pos = {c: i for i, c in enumerate(order)}
            if any(calls[a]['end'] < calls[b]['start'] and pos[a] > pos[b]
                   for a in range(len(calls)) for b in range(len(calls))):
                continue
            base = offset - offset % interval
            good = True
            for i in order:
                due = calls[i]['t'] >= base + interval
                if due:
                    base += interval
                if due != (calls[i]['res'] is not None):
                    good = False
                    break
            if good:
                ok = True
                break
        rec.expect(ok, lambda: ctx() + 'evaluations {} cannot be explained '
                   'by any order of the calls'.format(
                       [(c['pid'], c['t'], c['res']) for c in calls]))
        for c in done:
            rec.expect(c['res'] == c['score'], lambda: ctx() + 'score')
        # 2. the score file
        rows = [ln.split('\t') for ln in text.splitlines()]
        if not done:
            rec.expect(rows == [], lambda: ctx() + 'file {!r}'.format(text))
        else:
            rec.expect(rows and rows[0] == HEADER, lambda: ctx() +
                       'header missing/misplaced: {!r}'.format(text))
            got = sorted((r[0], r[1], r[3], r[-1]) for r in rows[1:])
            want = sorted((str(c['t']), str(100 * c['pid'] + c['t']),
                           str(c['score']), str(c['pid'])) for c in done)
            rec.expect(got == want, lambda: ctx() + 'rows {} want {}'.format(
                got, want))
            rec.expect(text.endswith('\n') and all(
                len(r) == len(HEADER) for r in rows), lambda: ctx() +
                'torn rows {!r}'.format(text))
        # 3. best-so-far saves strictly improve and end at the best score
        sv = [g[3] for g in glog]
        rec.expect(all(g[2] == 'best' for g in glog), lambda: ctx() + 'saves')
        rec.expect(all(a < b for a, b in zip(sv, sv[1:])), lambda: ctx() +
                   'best saves do not improve: {}'.format(sv))
        if done:
            best = max(c['score'] for c in done)
            rec.expect(sv and sv[-1] == best and mx == best, lambda: ctx() +
                       'scores {} saves {} max {}'.format(
                           [c['score'] for c in done], sv, mx))
        rec.state(case, [(c['pid'], c['t'], c['res'] is not None,
                          c['start'], c['end']) for c in calls], sv,
                  [r[0] for r in rows[1:]])
        rec.outcome(sorted((c['pid'], c['t']) for c in done), sv,
                    [r[0] for r in rows[1:]])
    rec.note_add('schedules', n)
    rec.note_max('max_preemptions', bound)


def gen_nosave(tier):
    for interval in (1, 2, 3):
        for offset in (0, 1, 2, 4):
            for bits in range(1, 2 ** 6):
                yield [interval, offset,
                       [offset + i + 1 for i in range(6) if bits >> i & 1]]


@chk.part('sequential', gen_nosave, bound='one worker, interval 1..3, start '
          '0,1,2,4, every subset of the following 6 steps, saving on/off')
def sequential(rec, case):
    from chainerrl.experiments.evaluator import AsyncEvaluator
    interval, offset, times = case
    for save in (True, False):
        with Tmp() as d:
            glog = []
            agent = Agent(0, glog)
            ev = AsyncEvaluator(None, 1, interval, d, step_offset=offset,
                                save_best_so_far_agent=save)
            base = offset - offset % interval
            want = []
            for i, t in enumerate(times):
                agent.score = float(i % 3)
                r = ev.evaluate_if_necessary(
                    t=t, episodes=i, env=OneStepEnv(agent.score), agent=agent)
                due = t >= base + interval
                rec.expect((r is not None) == due, 'interval {} start {} '
                           'times {}: evaluated={} at {}'.format(
                               interval, offset, times, r is not None, t))
                if due:
                    base += interval
                    want.append((t, agent.score))
                rec.trans()
            with open(os.path.join(d, 'scores.txt')) as f:
                rows = [ln.rstrip('\n').split('\t') for ln in f]
            rec.eq([(r[0], r[3]) for r in rows[1:]],
                   [(str(t), str(s)) for t, s in want], 'rows')
            bests = []
            for _, s in want:
                if not bests or s > max(bests):
                    bests.append(s)
            rec.eq([g[3] for g in glog], bests if save else [], 'best saves')
            rec.trace()
            rec.state(case, save)
            rec.outcome([w[0] for w in want], bests)


if __name__ == '__main__':
    raise SystemExit(chk.main())
