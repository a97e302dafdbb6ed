"""C13: evaluation reports the returns of the episodes actually run."""
import itertools
import os

from mc.core import Check, Tmp
from mc.world import (BOTH, CONT, DONE, KIND, LogAgent, RESET, ScriptEnv,
                      ScriptVectorEnv)

chk = Check(
    'C13',
    rule='every sequence of environment answers (per environment) up to the '
         'depth bound x budget in steps or episodes x length limit; returned '
         'scores and the complete agent/environment call log are compared '
         'with a reference; same for demonstration collection',
    assumptions=['rewards are distinct small integers, so returns identify '
                 'the steps they sum'])


def reward(k):
    return float(1 + k * k % 7 - 3 * (k % 2))


def ref_single(script, n_steps, n_episodes, max_len):
    log, scores = [], []
    k, t, nreset = 0, 0, 0
    a = 0
    while True:
        obs = ('o', 0, ('r', nreset))
        nreset += 1
        log.append(('reset', 0, obs))
        ret, ln = 0.0, 0
        over = False
        while True:
            log.append(('eval_act', obs))
            done, nr = KIND[script[k] if k < len(script) else CONT]
            obs = ('o', 0, k)
            log.append(('step', 0, ('e', a), obs, reward(k), done, nr))
            a += 1
            ret += reward(k)
            k += 1
            ln += 1
            t += 1
            end = done or nr or ln == max_len
            if end:
                scores.append(ret)
            over = t >= n_steps if n_steps is not None else \
                len(scores) >= n_episodes
            if end or over:
                log.append(('eval_stop',))
                break
        if over:
            break
    if not scores:
        scores.append(ret)
    return log, scores


def gen_single(tier):
    n = 7 if tier == 'thorough' else 6
    for max_len in (None, 1, 2, 3):
        for n_steps in (None, 1, 2, 3, 4, n):
            for n_eps in ((1, 2, 3) if n_steps is None else (None,)):
                for first in (CONT, DONE, RESET, BOTH):
                    yield [n, max_len, n_steps, n_eps, first]


@chk.part('single', gen_single, bound='6 (7) scripted steps, budget 1..6 '
          'steps or 1..3 episodes, length limit None,1,2,3')
def single(rec, case):
    from chainerrl.experiments.evaluator import run_evaluation_episodes
    n, max_len, n_steps, n_eps, first = case
    for tail in itertools.product((CONT, DONE, RESET, BOTH), repeat=n - 1):
        script = (first,) + tail
        log = []
        env = ScriptEnv(script, log, reward=reward, default=DONE)
        agent = LogAgent(log)
        # after the script every step terminates
        got = run_evaluation_episodes(env, agent, n_steps, n_eps,
                                      max_episode_len=max_len)
        full = list(script) + [DONE] * 10
        want_log, want = ref_single(full, n_steps, n_eps, max_len)
        rec.expect([float(x) for x in got] == want, lambda: 'script {} '
                   'max_len {} steps {} episodes {}: scores {} want {}'.format(
                       script, max_len, n_steps, n_eps, got, want))
        rec.expect(all(type(x) is float for x in got), 'scores are floats')
        rec.expect(log == want_log, lambda: 'script {} max_len {} steps {} '
                   'episodes {}: calls {} want {}'.format(
                       script, max_len, n_steps, n_eps, log, want_log))
        rec.trans(len(log))
        rec.trace()
        rec.state(case, script[:len([e for e in log if e[0] == 'step'])])
        rec.outcome(want)


# ----------------------------------------------------------------- batch
def ref_batch(scripts, n_steps, n_eps, max_len):
    """Episodes are numbered in the order they start (environment index
    breaks ties); the result never skips a numbered episode, so short
    episodes are not over-represented."""
    ne = len(scripts)
    log = []
    obs = [('o', i, ('r', 0)) for i in range(ne)]
    nreset = [1] * ne
    log.append(('vreset', [False] * ne))
    for i in range(ne):
        log.append(('reset', i, obs[i]))
    eps = [dict(env=i, ret=0.0, len=0, over=False) for i in range(ne)]
    cur = list(range(ne))
    k = 0
    while True:
        log.append(('eval_bact', list(obs)))
        rs, dones, resets, ends = [], [], [], []
        for i in range(ne):
            kind = scripts[i][k] if k < len(scripts[i]) else DONE
            done, nr = KIND[kind]
            obs[i] = ('o', i, k)
            r = reward(k) + 100 * i
            log.append(('step', i, ('e', k, i), obs[i], r, done, nr))
            e = eps[cur[i]]
            e['ret'] += r
            e['len'] += 1
            reset = nr or e['len'] == max_len
            rs.append(r)
            dones.append(done)
            resets.append(bool(reset))
            ends.append(bool(done or reset))
        k += 1
        for i in range(ne):
            if ends[i]:
                eps[cur[i]]['over'] = True
                cur[i] = len(eps)
                eps.append(dict(env=i, ret=0.0, len=0, over=False))
        prefix = list(itertools.takewhile(lambda e: e['over'], eps))
        result = None
        if n_eps is not None:
            if len(prefix) >= n_eps:
                result = [e['ret'] for e in prefix[:n_eps]]
        else:
            tot, fit = 0, []
            for e in eps[:len(prefix) + 1]:
                tot += e['len']
                if e['over'] and tot <= n_steps:
                    fit.append(e['ret'])
            if tot >= n_steps:
                result = fit if fit else [eps[0]['ret']]
        if result is not None:
            log.append(('eval_bobs', list(obs), rs, dones, [True] * ne))
            return log, result
        log.append(('eval_bobs', list(obs), rs, dones, resets))
        log.append(('vreset', [not e for e in ends]))
        for i in range(ne):
            if ends[i]:
                obs[i] = ('o', i, ('r', nreset[i]))
                nreset[i] += 1
                log.append(('reset', i, obs[i]))


def gen_batch(tier):
    deep = tier == 'thorough'
    for ne, n in ((1, 6), (2, 5 if deep else 4), (3, 3)):
        for max_len in (None, 1, 2, 3):
            for n_steps in (None, 1, 2, 3, 4, 5):
                for n_eps in ((1, 2, 3, 5) if n_steps is None else (None,)):
                    for first in (CONT, DONE, RESET):
                        yield [ne, n, max_len, n_steps, n_eps, first]


@chk.part('batch', gen_batch, bound='1 env x 6, 2 x 4 (5), 3 x 3 scripted '
          'steps; budget 1..5 steps or 1,2,3,5 episodes; length limit '
          'None,1,2,3')
def batch(rec, case):
    from chainerrl.experiments.evaluator import batch_run_evaluation_episodes
    ne, n, max_len, n_steps, n_eps, first = case
    for flat in itertools.product((CONT, DONE, RESET), repeat=ne * n - 1):
        flat = (first,) + flat
        scripts = [flat[i::ne] for i in range(ne)]
        log = []
        envs = [ScriptEnv(scripts[i], log, name=i, default=DONE,
                          reward=lambda k, i=i: reward(k) + 100 * i)
                for i in range(ne)]
        venv = ScriptVectorEnv(envs, log)
        agent = LogAgent(log)
        got = batch_run_evaluation_episodes(venv, agent, n_steps, n_eps,
                                            max_episode_len=max_len)
        want_log, want = ref_batch(scripts, n_steps, n_eps, max_len)

        def ctx():
            return 'scripts {} max_len {} steps {} episodes {}'.format(
                scripts, max_len, n_steps, n_eps)
        rec.expect([float(x) for x in got] == want, lambda: '{}: scores {} '
                   'want {}'.format(ctx(), got, want))
        if log != want_log:
            i = next((i for i, (a, b) in enumerate(zip(log, want_log))
                      if a != b), min(len(log), len(want_log)))
            rec.fail('{}: call {}: {} want {}'.format(
                ctx(), i, log[i:i + 2], want_log[i:i + 2]))
        rec.trans(len(log))
        rec.trace()
        rec.state(case, [e[3:] for e in log if e[0] == 'step'])
        rec.outcome(want)


# ----------------------------------------------------------- demonstrations
def gen_demo(tier):
    n = 6 if tier == 'thorough' else 5
    for max_len in (None, 1, 2, 3):
        for steps in (None, 1, 2, 4, n):
            for eps in ((1, 2, 3) if steps is None else (None,)):
                for first in (CONT, DONE, RESET, BOTH):
                    yield [n, max_len, steps, eps, first]


@chk.part('demonstrations', gen_demo, bound='5 (6) scripted steps, budget in '
          'steps or episodes, length limit None,1,2,3')
def demos(rec, case):
    import chainer
    from chainerrl.experiments import collect_demonstrations
    n, max_len, steps, eps, first = case
    for tail in itertools.product((CONT, DONE, RESET), repeat=n - 1):
        script = (first,) + tail
        log = []
        env = ScriptEnv(script, log, reward=reward, default=DONE)
        agent = LogAgent(log)
        with Tmp() as d:
            collect_demonstrations(agent, env, steps, eps, d,
                                   max_episode_len=max_len)
            with chainer.datasets.open_pickle_dataset(
                    os.path.join(d, 'demos.pickle')) as ds:
                got = [ds[i] for i in range(len(ds))]
        full = list(script) + [DONE] * 10
        want_log, _ = ref_single(full, steps, eps, max_len)

        def ctx():
            return 'script {} max_len {} steps {} episodes {}'.format(
                script, max_len, steps, eps)
        rec.expect(log == want_log, lambda: '{}: calls {} want {}'.format(
            ctx(), log, want_log))
        want = []
        obs = None
        for e in want_log:
            if e[0] == 'reset':
                obs = e[2]
            elif e[0] == 'step':
                _, _, a, o2, r, done, nr = e
                want.append((obs, a, r, o2, done, bool(nr)))
                obs = o2
        got = [(o, a, r, o2, dn, bool(info.get('needs_reset', False)))
               for o, a, r, o2, dn, info in got]
        rec.expect(got == want, lambda: '{}: recorded {} want {}'.format(
            ctx(), got, want))
        rec.trans(len(log))
        rec.trace()
        rec.state(case, script)
        rec.outcome(want)


if __name__ == '__main__':
    raise SystemExit(chk.main())
