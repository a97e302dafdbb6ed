"""C08: the batch training loop gives every environment its own true stream."""
import itertools
import os

from mc.core import Check
from mc.world import (CONT, DONE, KIND, LogAgent, RESET, ScriptEnv,
                      ScriptVectorEnv)

chk = Check(
    'C08',
    rule='every combination of environment answers for 1..3 parallel '
         'environments, for every step budget, starting step, length limit '
         'and checkpoint frequency; the complete call log is compared with a '
         'reference loop',
    assumptions=['rewards and observations are opaque distinct tokens'])


class StubEvaluator(object):
    def __init__(self, log, win_at, win_score=10.0):
        self.win_score = win_score
        self.log = log
        self.win_at = win_at
        self.calls = 0
        self.max_score = -100.0

        class E(object):
            def close(s):
                log.append(('eval_close',))
        self.env = E()

    def evaluate_if_necessary(self, t, episodes):
        self.calls += 1
        self.log.append(('evaluate', int(t), int(episodes)))
        if self.calls % 2 == 0:
            return None         # nothing to evaluate at every second call
        if self.calls >= self.win_at:
            self.max_score = self.win_score
        return self.max_score


def reference(scripts, steps, offset, max_len, ckpt, win_at):
    """What must be observable: per-call agent log and env log."""
    ne = len(scripts)
    log, saves = [], []
    ver = 0
    k = 0
    nreset = [1] * ne
    obs = [('o', i, ('r', 0)) for i in range(ne)]
    log.append(('vreset', [False] * ne))
    for i in range(ne):
        log.append(('reset', i, obs[i]))
    t = offset
    ep_len = [0] * ne
    episodes = 0
    evals = 0
    while True:
        log.append(('bact', list(obs)))
        ver += 1
        rs, dones, ends, resets = [], [], [], []
        for i in range(ne):
            kind = scripts[i][k] if k < len(scripts[i]) else CONT
            done, nr = KIND[kind]
            obs[i] = ('o', i, k)
            r = 1.0 + k + 100 * i
            log.append(('step', i, ('a', k, i), obs[i], r, done, nr))
            ep_len[i] += 1
            reset = nr or ep_len[i] == max_len
            rs.append(r)
            dones.append(done)
            resets.append(reset)
            ends.append(done or reset)
        k += 1
        log.append(('bobs', list(obs), rs, dones, resets))
        ver += 1
        episodes += sum(ends)
        for _ in range(ne):
            t += 1
            if ckpt and t % ckpt == 0:
                saves.append(('{}_checkpoint'.format(t), ver))
            log.append(('hook', t))
        if win_at is not None:
            evals += 1
            log.append(('evaluate', t, episodes))
            if evals % 2 == 1 and evals >= win_at:
                break
        if t >= steps:
            break
        log.append(('vreset', [not e for e in ends]))
        for i in range(ne):
            if ends[i]:
                obs[i] = ('o', i, ('r', nreset[i]))
                nreset[i] += 1
                log.append(('reset', i, obs[i]))
                ep_len[i] = 0
    saves.append(('{}_finish'.format(t), ver))
    return log, saves


def gen(tier):
    deep = tier == 'thorough'
    kinds = (CONT, DONE, RESET)
    for ne, depth in ((1, 7 if deep else 6), (2, 4 if deep else 3),
                      (3, 3 if deep else 2)):
        for n in range(1, depth + 1):
            for offset in (0, 1, 4):
                for max_len in (None, 1, 2, 3):
                    for ckpt in (None, 1, 2, 3):
                        for extra in range(ne):
                            yield [ne, n, offset, max_len, ckpt, extra]


@chk.part('stream', gen, bound='1 env x 6 (7) vector steps, 2 x 3 (4), 3 x 2 '
          '(3); starting step 0,1,4; length limit None,1,2,3; checkpoint '
          'every None,1,2,3; step budget not a multiple of the number of '
          'environments; evaluator absent/never/first/later success')
def stream(rec, case):
    from chainerrl.experiments.train_agent_batch import train_agent_batch
    ne, n, offset, max_len, ckpt, extra = case
    # `n` vector steps are needed; the budget may be reached mid-vector
    steps = offset + n * ne - extra
    for flat in itertools.product((CONT, DONE, RESET), repeat=n * ne):
        scripts = [flat[i * n:(i + 1) * n] for i in range(ne)]
        for win_at in ((None, 1, 3, 99) if n <= 3 and extra == 0
                       else (None,)):
            log = []
            envs = [ScriptEnv(scripts[i], log, name=i,
                              reward=lambda k, i=i: 1.0 + k + 100 * i)
                    for i in range(ne)]
            venv = ScriptVectorEnv(envs, log)
            agent = LogAgent(log, with_t=(n % 2 == 0))
            # scores of exactly zero (and below) are scores, too
            win_score = (10.0, 0.0, -1.0)[len(flat) % 3]
            ev = StubEvaluator(log, win_at, win_score) if win_at else None
            train_agent_batch(
                agent, venv, steps, '/nonexistent', checkpoint_freq=ckpt,
                max_episode_len=max_len, step_offset=offset, evaluator=ev,
                successful_score=win_score if win_at else None,
                log_interval=2 if extra else None,
                step_hooks=[lambda e, a, t: log.append(('hook', t))])
            want, wsaves = reference(scripts, steps, offset, max_len, ckpt,
                                     win_at)
            got = [e for e in log if e[0] != 'save']

            def ctx():
                return 'envs={} steps={} offset={} max_len={} ckpt={} ' \
                    'scripts={} win_at={}'.format(
                        ne, steps, offset, max_len, ckpt, scripts, win_at)
            if got != want:
                i = next((i for i, (a, b) in enumerate(zip(got, want))
                          if a != b), min(len(got), len(want)))
                rec.fail('{}: event {}: got {} want {}'.format(
                    ctx(), i, got[i:i + 3], want[i:i + 3]),
                    dict(got=got, want=want))
            saves = [(os.path.basename(d), v) for d, v in agent.saves]
            rec.expect(saves == wsaves, lambda: '{}: saves {} want {}'
                       .format(ctx(), saves, wsaves))
            if n % 2 == 0:
                rec.expect(agent.t == offset, 'agent.t')
            rec.trans(len(got))
            rec.trace()
            for e in got:
                rec.state(case, e)
            rec.outcome([e[0] for e in got], saves)


def gen_eval(tier):
    deep = tier == 'thorough'
    for ne, n in ((1, 6 if deep else 5), (2, 4 if deep else 3)):
        for own in (False, True):
            for interval in range(1, ne * n + 1):
                for n_steps in (None, 3):
                    for max_len in (None, 3):
                        yield [ne, n, own, interval, n_steps, max_len]


@chk.part('evaluations', gen_eval, bound='every combination of answers of 1 '
          'environment x 5 (6) vector steps, 2 x 3 (4), evaluated in between '
          'every 1..6 steps in the training environment itself (the default) '
          'or in its own one')
def evaluations(rec, case):
    """Whatever evaluations do to an environment, the agent is trained with
    a true stream of every environment."""
    import shutil
    import tempfile
    from chainerrl.experiments import train_agent_batch_with_evaluation
    from mc.world import make_vector_env_class
    V = make_vector_env_class()
    ne, n, own, interval, n_steps, max_len = case
    tmp = tempfile.mkdtemp(prefix='c08-')
    try:
        for flat in itertools.product((CONT, DONE, RESET), repeat=n * ne):
            log = []
            envs = [ScriptEnv(flat[i * n:(i + 1) * n], log, name=i)
                    for i in range(ne)]
            eenvs = [ScriptEnv([DONE, CONT, DONE], log, name=9 + i)
                     for i in range(ne)]
            agent = LogAgent(log)
            train_agent_batch_with_evaluation(
                agent, V(envs, log), n * ne, eval_n_steps=n_steps,
                eval_n_episodes=None if n_steps else 1,
                eval_interval=interval, outdir=tmp, max_episode_len=max_len,
                eval_max_episode_len=2,
                eval_env=V(eenvs, log) if own else None)
            here = [None] * ne          # what the environment answered last
            ended = [True] * ne         # whether the agent knows of an end
            length = [0] * ne
            n_eval = 0
            for e in log:
                if e[0] == 'reset' and e[1] < ne:
                    here[e[1]] = e
                elif e[0] == 'step' and e[1] < ne:
                    here[e[1]] = e
                elif e[0] == 'eval_bact':
                    n_eval += 1
                elif e[0] == 'bact':
                    for i in range(ne):
                        h = here[i]
                        if ended[i]:
                            ok = h[0] == 'reset' and h[2] == e[1][i]
                            length[i] = 0
                        else:
                            ok = (h[0] == 'step' and h[2][0] == 'a'
                                  and h[3] == e[1][i])
                        rec.expect(ok, lambda: '{} {}: environment {} is at '
                                   '{}, the agent is given {} as {} of an '
                                   'episode'.format(
                                       case, flat, i, h, e[1][i], 'the start'
                                       if ended[i] else 'a later step'))
                elif e[0] == 'bobs':
                    for i in range(ne):
                        h = here[i]
                        length[i] += 1
                        rec.eq((e[1][i], e[2][i], e[3][i]), h[3:6],
                               '{} {}: answer of {}'.format(case, flat, i))
                        ended[i] = e[3][i] or e[4][i]
                        rec.expect(ended[i] or not (
                            h[6] or length[i] == max_len),
                            'episode goes on after its end')
                        if own:
                            rec.eq(e[4][i], h[6] or length[i] == max_len,
                                   '{} {}: reset of {}'.format(
                                       case, flat, i))
            rec.expect(n_eval > 0, 'no evaluation')
            rec.trans(len(log))
            rec.trace()
            rec.state(case, [e[0] for e in log])
            rec.outcome([e[0] for e in log])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    raise SystemExit(chk.main())
