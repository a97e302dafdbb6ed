"""C07: the single-env training loop feeds the agent the true stream."""
import itertools
import os

from mc.core import Check
from mc.world import BOTH, CONT, DONE, KIND, LogAgent, RESET, ScriptEnv

chk = Check(
    'C07',
    rule='every sequence of environment answers (continue / terminal / asks '
         'for reset / both) for every combination of step budget, starting '
         'step, episode length limit and checkpoint frequency; the complete '
         'call log of the real loop is compared with a reference loop',
    assumptions=['rewards and observations are opaque distinct tokens'])


class StubEvaluator(object):
    def __init__(self, log, win_at):
        self.log = log
        self.win_at = win_at
        self.calls = 0
        self.max_score = -100.0

    def evaluate_if_necessary(self, t, episodes):
        self.calls += 1
        self.log.append(('evaluate', t, episodes))
        if self.calls == self.win_at:
            self.max_score = 0.0


def reference(script, steps, offset, max_len, ckpt, win_at, success):
    """Events in order, checkpoints/final saves as (name, version)."""
    log, saves = [], []
    ver = 0
    nreset = 0
    k = 0
    obs = ('o', 0, ('r', 0))
    log.append(('reset', 0, obs))
    nreset = 1
    r = 0
    t = offset
    ep_len = 0
    episodes = 0
    evals = 0
    while t < steps:
        log.append(('act', obs, r))
        ver += 1
        done, nr = KIND[script[k] if k < len(script) else CONT]
        obs = ('o', 0, k)
        r = 1.0 + k
        log.append(('step', 0, ('a', k), obs, r, done, nr))
        k += 1
        t += 1
        ep_len += 1
        log.append(('hook', t))
        log.append(('hook2', t))
        if done or nr or ep_len == max_len or t == steps:
            log.append(('stop_train', obs, r, done))
            ver += 1
            episodes += 1
            if win_at is not None:
                evals += 1
                log.append(('evaluate', t, episodes))
                if success and evals >= win_at:
                    break
            if t == steps:
                break
            obs = ('o', 0, ('r', nreset))
            log.append(('reset', 0, obs))
            nreset += 1
            r = 0
            ep_len = 0
        if ckpt and t % ckpt == 0:
            saves.append(('{}_checkpoint'.format(t), ver))
    saves.append(('{}_finish'.format(t), ver))
    return log, saves


def gen(tier):
    top = 7 if tier == 'thorough' else 5
    for n in range(0, top + 1):
        for offset in (0, 1, 3):
            for max_len in (None, 1, 2, 3):
                for ckpt in (None, 1, 2, 3):
                    if tier != 'thorough' and n == top and (
                            offset == 1 or ckpt == 3):
                        continue
                    yield [n, offset, max_len, ckpt]


@chk.part('stream', gen, bound='0..5 (7) steps, starting step 0,1,3, length '
          'limit None,1,2,3, checkpoint every None,1,2,3, four answers per '
          'step, with/without evaluator reaching the target score')
def stream(rec, case):
    from chainerrl.experiments.train_agent import train_agent
    n, offset, max_len, ckpt = case
    steps = n + offset
    wins = [None, 1, 2] if n <= 4 else [None]
    for script in itertools.product((CONT, DONE, RESET, BOTH), repeat=n):
        for win_at in wins:
            for success in ((None, 0.0) if win_at else (None,)):
                log = []
                env = ScriptEnv(script, log)
                agent = LogAgent(log, with_t=(n % 2 == 0))
                ev = StubEvaluator(log, win_at) if win_at else None
                train_agent(
                    agent, env, steps, '/nonexistent', checkpoint_freq=ckpt,
                    max_episode_len=max_len, step_offset=offset, evaluator=ev,
                    successful_score=success,
                    step_hooks=[lambda e, a, t: log.append(('hook', t)),
                                lambda e, a, t: log.append(('hook2', t))])
                want, wsaves = reference(script, steps, offset, max_len, ckpt,
                                         win_at, success is not None)
                got = [e for e in log if e[0] != 'save']

                def ctx():
                    return 'steps={} offset={} max_len={} ckpt={} script={} ' \
                        'win_at={}'.format(steps, offset, max_len, ckpt,
                                           script, win_at)
                if got != want:
                    i = next((i for i, (a, b) in enumerate(zip(got, want))
                              if a != b), min(len(got), len(want)))
                    rec.fail('{}: event {}: got {} want {}'.format(
                        ctx(), i, got[i:i + 3], want[i:i + 3]),
                        dict(got=got, want=want))
                saves = [(os.path.basename(d), v) for d, v in agent.saves]
                rec.expect(saves == wsaves, lambda: '{}: saves {} want {}'
                           .format(ctx(), saves, wsaves))
                rec.expect(all(os.path.dirname(d) == '/nonexistent'
                               for d, _ in agent.saves), 'save directory')
                if n % 2 == 0:
                    rec.expect(agent.t == offset, lambda: 'agent.t {} want {}'
                               .format(agent.t, offset))
                rec.trans(len(got))
                rec.trace()
                for e in range(len(got)):
                    rec.state(case, got[e])
                rec.outcome([e[0] for e in got], saves)


if __name__ == '__main__':
    raise SystemExit(chk.main())
