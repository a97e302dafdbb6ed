"""C10: periodic evaluation: schedule, score log and best-model saves."""
import itertools
import os
import statistics

from mc.core import Check, Tmp
from mc.world import (CONT, DONE, LogAgent, RESET, ScriptEnv,
                      make_vector_env_class)

chk = Check(
    'C10',
    rule='every increasing sequence of times at which the training loop may '
         'ask for an evaluation x every sequence of evaluation scores from a '
         'small set incl. ties and values that differ by one ulp of single '
         'precision; the real evaluator runs real evaluation episodes and '
         'its score file and saves are compared with a reference',
    assumptions=['elapsed wall-clock time is only checked to be a '
                 'non-negative number'])

SCORES = (0.0, -1.5, 0.7, 0.7 + 1e-9, -1e30)


class ScoreEnv(object):
    """One-step episodes whose return is given by a script."""
    action_space = None
    observation_space = None

    def __init__(self, scores):
        self.scores = list(scores)
        self.n = 0
        self.steps = 0

    def reset(self):
        return 'o'

    def step(self, a):
        r = self.scores[self.n % len(self.scores)]
        self.n += 1
        self.steps += 1
        return 'o2', r, True, {}

    def close(self):
        pass


def read_scores(d):
    with open(os.path.join(d, 'scores.txt')) as f:
        return [ln.rstrip('\n').split('\t') for ln in f]


HEADER = ['steps', 'episodes', 'elapsed', 'mean', 'median', 'stdev', 'max',
          'min']


def check_rows(rec, rows, want, custom, ctx):
    rec.eq(rows[0], HEADER + [c[0] for c in custom], 'header ' + ctx)
    rec.eq(len(rows) - 1, len(want), 'number of evaluations ' + ctx)
    for row, (t, episodes, rets) in zip(rows[1:], want):
        rec.eq(len(row), len(rows[0]), 'columns ' + ctx)
        rec.eq(row[:2], [str(t), str(episodes)], 'steps/episodes ' + ctx)
        rec.expect(float(row[2]) >= 0, 'elapsed ' + ctx)
        mean = sum(rets) / len(rets)
        srt = sorted(rets)
        h = len(srt) // 2
        med = srt[h] if len(srt) % 2 else (srt[h - 1] + srt[h]) / 2
        sd = 0.0 if len(rets) < 2 else (sum(
            (x - mean) ** 2 for x in rets) / (len(rets) - 1)) ** .5
        rec.close([float(x) for x in row[3:8]],
                  [mean, med, sd, max(rets), min(rets)],
                  'statistics of {} {}'.format(rets, ctx), rtol=1e-9,
                  atol=1e-12)
        rec.eq(row[8:], [str(c[1]) for c in custom], 'custom columns ' + ctx)


def gen(tier):
    top = 9 if tier == 'thorough' else 7
    for interval in (1, 2, 3, 4):
        for offset in (0, 1, 2, 3, 5):
            for bits in range(1, 2 ** top):
                times = [offset + 1 + i for i in range(top)
                         if bits >> i & 1]
                yield [interval, offset, times]


@chk.part('schedule', gen, bound='interval 1..4, start 0..5, every subset of '
          'the following 7 (9) steps; two episodes per evaluation')
def schedule(rec, case):
    from chainerrl.experiments.evaluator import Evaluator
    interval, offset, times = case
    custom = [('loss', 1.25), ('n', 3)] if interval % 2 else []
    with Tmp() as d:
        env = ScoreEnv([1.0, 4.0, -2.0])
        agent = LogAgent([], stats=custom)
        ev = Evaluator(agent, env, None, 2, interval, d, step_offset=offset)
        prev = offset
        want = []
        k = 0
        best = None
        nsaves = 0
        for j, t in enumerate(times):
            before = env.n
            score = ev.evaluate_if_necessary(t=t, episodes=j)
            due = t // interval > prev // interval
            rec.trans()
            ctx = 'interval {} start {} times {} at {}'.format(
                interval, offset, times, t)
            if not due:
                rec.expect(score is None and env.n == before,
                           'evaluated although not due: ' + ctx)
                continue
            rec.expect(env.n == before + 2, 'episodes run: {} {}'.format(
                env.n - before, ctx))
            rets = [[1.0, 4.0, -2.0][(k + i) % 3] for i in range(2)]
            k += 2
            prev = t
            want.append((t, j, rets))
            rec.close(score, sum(rets) / 2, 'returned score ' + ctx)
            if best is None or sum(rets) / 2 > best:
                best = sum(rets) / 2
                nsaves += 1
            rec.close(ev.max_score, best, 'max_score ' + ctx)
        check_rows(rec, read_scores(d), want, custom, str(case))
        rec.eq([os.path.basename(p) for p, _ in agent.saves],
               ['best'] * nsaves, 'best saves')
        rec.trace()
        rec.state(case)
        rec.outcome(interval, offset % interval, [w[0] for w in want])


def gen_best(tier):
    n = 5 if tier == 'thorough' else 4
    for ln in range(1, n + 1):
        for seq in itertools.product(range(len(SCORES)), repeat=ln):
            for save in (True, False):
                yield [list(seq), save]


@chk.part('best', gen_best, bound='every sequence of up to 4 (5) scores from '
          '{0, -1.5, .7, .7+1e-9, -1e30}')
def best(rec, case):
    from chainerrl.experiments.evaluator import Evaluator
    seq, save = case
    scores = [SCORES[i] for i in seq]
    with Tmp() as d:
        env = ScoreEnv(scores)
        agent = LogAgent([])
        ev = Evaluator(agent, env, None, 1, 10, d,
                       save_best_so_far_agent=save)
        best = None
        want = []
        for i, s in enumerate(scores):
            agent.version = i
            rec.eq(ev.evaluate_if_necessary(t=10 * (i + 1), episodes=i), s,
                   'score')
            if best is None or s > best:
                best = s
                if save:
                    want.append((os.path.join(d, 'best'), i))
            rec.eq(float(ev.max_score), best, 'max_score after {}'.format(
                scores[:i + 1]))
            rec.eq(agent.saves, want, 'saves for scores {}'.format(
                scores[:i + 1]))
            rec.trans()
        check_rows(rec, read_scores(d), [(10 * (i + 1), i, [s])
                                         for i, s in enumerate(scores)],
                   [], str(case))
        rec.trace()
        rec.state(case)
        rec.outcome(scores, [w[1] for w in want])


# ------------------------------------------------------- with training loop
def gen_int(tier):
    n = 6 if tier == 'thorough' else 5
    for loop in ('single', 'batch', 'batch_vec'):
        for script in itertools.product((CONT, DONE, RESET), repeat=n):
            for interval in (1, 2, 3):
                for offset in (0, 2):
                    yield [loop, list(script), interval, offset]


@chk.part('in-training', gen_int, bound='5 (6) training steps, interval '
          '1..3, start 0/2, all episode structures, three loop kinds')
def in_training(rec, case):
    from chainerrl.experiments import train_agent_batch_with_evaluation
    from chainerrl.experiments import train_agent_with_evaluation
    loop, script, interval, offset = case
    log, elog = [], []
    agent = LogAgent(log)
    # evaluation episodes last 2 steps through the length limit
    nv = 2 if loop == 'batch_vec' else 1
    eenvs = [ScriptEnv([], elog, name=9, reward=lambda k: 1.0)
             for _ in range(nv)]
    with Tmp() as d:
        d = os.path.join(d, 'new', 'dir')
        kw = dict(eval_n_steps=None, eval_n_episodes=2,
                  eval_interval=interval, outdir=d, step_offset=offset,
                  eval_max_episode_len=2)
        steps = offset + len(script)
        V = make_vector_env_class()
        if loop == 'single':
            env = ScriptEnv(script, log)
            train_agent_with_evaluation(agent, env, steps,
                                        eval_env=eenvs[0], **kw)
        else:
            env = V([ScriptEnv(script, log)], log)
            ee = V(eenvs, elog) if loop == 'batch_vec' else eenvs[0]
            train_agent_batch_with_evaluation(agent, env, steps, eval_env=ee,
                                              **kw)
        # reference schedule
        want = []
        prev = offset
        episodes = 0
        for i, kind in enumerate(script):
            t = offset + 1 + i
            end = kind != CONT
            if loop == 'single':
                end = end or t == steps
                episodes += end
                if end and t // interval > prev // interval:
                    want.append((t, episodes, [2.0, 2.0]))
                    prev = t
            else:
                episodes += end
                if t // interval > prev // interval:
                    want.append((t, episodes, [2.0, 2.0]))
                    prev = t
        check_rows(rec, read_scores(d), want, [], str(case))
        names = [os.path.relpath(p, d) for p, _ in agent.saves]
        rec.eq(names, (['best'] if want else []) + ['{}_finish'.format(
            steps)], 'saves')
        rec.trans(len(log) + len(elog))
        rec.trace()
        rec.state(case)
        rec.outcome(loop, [w[:2] for w in want])


def gen_def(tier):
    for loop in ('single', 'batch'):
        for tml in (None, 1, 2, 3):
            for eml in (None, 1, 2):
                for own_env in (False, True):
                    for steps in (None, 3):
                        if tml is None and eml is None:
                            continue
                        yield [loop, tml, eml, own_env, steps]


@chk.part('defaults', gen_def, bound='train/eval length limits None,1..3 x '
          'own/shared evaluation environment x steps/episodes budget')
def defaults(rec, case):
    """Documented fall-backs for the evaluation env and its length limit."""
    from chainerrl.experiments import train_agent_batch_with_evaluation
    from chainerrl.experiments import train_agent_with_evaluation
    loop, tml, eml, own, n_steps = case
    log, elog = [], []
    agent = LogAgent(log)
    V = make_vector_env_class()
    env = ScriptEnv([], log, name='train')
    eenv = ScriptEnv([], elog, name='eval')
    if loop == 'batch':
        env, eenv = V([env], log), V([eenv], elog)
    with Tmp() as d:
        kw = dict(eval_n_steps=n_steps,
                  eval_n_episodes=None if n_steps else 2, eval_interval=2,
                  outdir=d, eval_max_episode_len=eml,
                  eval_env=eenv if own else None)
        if loop == 'single':
            train_agent_with_evaluation(agent, env, 6,
                                        train_max_episode_len=tml, **kw)
        else:
            train_agent_batch_with_evaluation(agent, env, 6,
                                              max_episode_len=tml, **kw)
        limit = eml if eml is not None else tml
        rows = read_scores(d)[1:]
        rec.expect(len(rows) >= 1, 'no evaluation happened')
        src = elog if own else log
        evals = []
        # lengths of evaluation episodes as the env saw them
        lens, cur, is_eval = [], 0, False
        for e in src:
            if e[0] == 'reset':
                if cur and is_eval:
                    lens.append(cur)
                cur, is_eval = 0, False
            elif e[0] == 'step':
                a = e[2]
                if a[0] == 'e':
                    is_eval = True
                    cur += 1
                elif is_eval:
                    lens.append(cur)
                    cur, is_eval = 0, False
        if cur and is_eval:
            lens.append(cur)
        del evals
        rec.expect(lens and max(lens) <= limit and limit in lens or
                   (n_steps and limit >= n_steps),
                   'evaluation episode lengths {} with limit {}'.format(
                       lens, limit))
        if not own:
            rec.expect(not elog, 'wrong environment used')
        else:
            rec.expect(not [e for e in log if e[0] == 'step' and
                            e[2][0] == 'e'], 'evaluated in the training env')
        rec.trans(len(log) + len(elog))
        rec.trace()
        rec.state(case)
        rec.outcome(case, lens)


if __name__ == '__main__':
    raise SystemExit(chk.main())
