"""C09: whatever interrupts training, the agent as of that step is saved."""
import itertools
import multiprocessing as mp
import os

from mc.core import Check
from mc.world import (CONT, DONE, Fault, Faults, LogAgent, RESET, ScriptEnv,
                      ScriptVectorEnv)

chk = Check(
    'C09', level='fault_enumeration',
    rule='every environment script up to the bound x every call the training '
         'loop makes (environment, agent, hook, evaluator, checkpoint save) '
         'x {error, keyboard interrupt} raised by exactly that call; one real '
         'training run per fault',
    assumptions=['one fault per run'])

EXCS = {'error': Fault, 'interrupt': KeyboardInterrupt}


class FaultyEvaluator(object):
    def __init__(self, faults, log):
        self.faults = faults
        self.max_score = -1.0
        self.closed = 0
        outer = self

        class E(object):
            def close(s):
                outer.closed += 1
        self.env = E()

    def is_evaluation_necessary(self, t):
        return False

    def evaluate_if_necessary(self, *a, **k):
        self.faults.point('evaluate')


class OnceClosable(ScriptVectorEnv):
    """Cannot be closed twice, as MultiprocessVectorEnv."""

    def close(self):
        assert not self.closed, 'closed twice'
        super().close()


class SavingAgent(LogAgent):
    """The save itself may fail, after which nothing was saved."""

    def save(self, dirname):
        self._p('agent.save:' + os.path.basename(dirname).split('_')[-1])
        super().save(dirname)


def steps_done(log, mult=1):
    return sum(1 for e in log if e[0] == 'step')


def run_single(script, faults, cfg):
    from chainerrl.experiments.train_agent import train_agent
    log = []
    env = ScriptEnv(script, log, faults=faults)
    agent = SavingAgent(log, faults)
    ev = FaultyEvaluator(faults, log) if cfg['ev'] else None
    err = None
    try:
        train_agent(agent, env, cfg['offset'] + len(script), '/nonexistent',
                    checkpoint_freq=cfg['ckpt'], max_episode_len=2,
                    step_offset=cfg['offset'], evaluator=ev,
                    step_hooks=[lambda e, a, t: faults.point('hook')])
    except (Exception, KeyboardInterrupt) as e:
        err = e
    return log, agent, env, ev, err


def run_batch(script, faults, cfg):
    from chainerrl.experiments.train_agent_batch import train_agent_batch
    log = []
    ne = 2
    envs = [ScriptEnv(script[i::ne], log, name=i) for i in range(ne)]
    venv = OnceClosable(envs, log, faults)
    agent = SavingAgent(log, faults)
    ev = FaultyEvaluator(faults, log) if cfg['ev'] else None
    if cfg['ev'] == 'shared':
        # the default: evaluations take place in the training environment
        ev.env = venv
    err = None
    try:
        train_agent_batch(
            agent, venv, cfg['offset'] + len(script), '/nonexistent',
            checkpoint_freq=cfg['ckpt'], max_episode_len=2,
            step_offset=cfg['offset'], evaluator=ev,
            step_hooks=[lambda e, a, t: faults.point('hook')])
    except (Exception, KeyboardInterrupt) as e:
        err = e
    return log, agent, venv, ev, err


def gen(tier):
    n = 5 if tier == 'thorough' else 4
    for loop in ('single', 'batch'):
        for offset in (0, 3):
            for ckpt in (None, 1, 2):
                for ev in (False, True) + (
                        ('shared',) if loop == 'batch' else ()):
                    for ln in range(1, n + 1):
                        for script in itertools.product(
                                (CONT, DONE, RESET), repeat=ln):
                            if loop == 'batch' and ln % 2:
                                continue
                            yield [loop, offset, ckpt, ev, list(script)]


@chk.part('loops', gen, bound='scripts of up to 4 (5) steps, all call sites, '
          'two kinds of interruption; evaluation environment its own or that '
          'of training')
def loops(rec, case):
    loop, offset, ckpt, ev, script = case
    cfg = dict(offset=offset, ckpt=ckpt, ev=ev)
    run = run_single if loop == 'single' else run_batch
    probe = Faults()
    log0, agent0, _, _, err0 = run(script, probe, cfg)
    rec.expect(err0 is None, lambda: 'fault-free run raised {!r}'.format(err0))
    names = [os.path.basename(d) for d, _ in agent0.saves]
    rec.expect([n for n in names if n.endswith('_except')] == [] and
               [n for n in names if n.endswith('_finish')] ==
               ['{}_finish'.format(offset + len(script))],
               lambda: 'fault-free run saved {}'.format(names))
    for kind, k in itertools.product(EXCS, range(probe.n)):
        f = Faults(k, EXCS[kind])
        log, agent, env, evl, err = run(script, f, cfg)
        where = f.fired
        rec.trans(len(log))
        rec.trace()

        def ctx():
            return '{} loop, script {}, offset {}, ckpt {}, {} at {} (call ' \
                '#{})'.format(loop, script, offset, ckpt, kind, where, k)
        rec.expect(where is not None, lambda: ctx() + ': fault not reached')
        rec.expect(isinstance(err, EXCS[kind]),
                   lambda: '{}: the interruption was swallowed ({!r})'.format(
                       ctx(), err))
        saves = [(os.path.basename(d), v) for d, v in agent.saves]
        exc = [s for s in saves if s[0].endswith('_except')]
        fin = [s for s in saves if s[0].endswith('_finish')]
        rec.expect(not fin, lambda: '{}: saved {} as if finished'.format(
            ctx(), fin))
        first_reset = where == 'env.reset' and steps_done(log) == 0
        if first_reset or where == 'agent.save:finish':
            # training has not begun / is already over
            rec.expect(exc == [], lambda: '{}: saves {}'.format(ctx(), saves))
        else:
            t = offset + steps_done(log)
            if loop == 'batch':
                # the loop counts environment by environment, with the hook
                # (and the checkpoint) of each step in between
                hooks = sum(1 for n in f.names[:k + 1] if n == 'hook')
                full = steps_done(log)
                lo = offset + hooks
                if where.startswith('agent.save'):
                    t = lo + 1
                elif where == 'hook':
                    t = lo
                elif where in ('agent.batch_observe_and_train',):
                    t = offset + full - 2
                else:
                    t = offset + full
            want = [('{}_except'.format(t), agent.version)]
            rec.expect(exc == want, lambda: '{}: saves {} want {}'.format(
                ctx(), saves, want))
            # nothing happens to the agent or the env after the save
            tail = log[max(i for i, e in enumerate(log)
                           if e[0] == 'save') + 1:]
            tail = [e for e in tail if e[0] not in ('close', 'vclose')]
            rec.expect(tail == [], lambda: '{}: after saving: {}'.format(
                ctx(), tail))
            if loop == 'batch':
                rec.expect(env.closed >= 1, lambda: ctx() + ': worker '
                           'environments were not closed')
                if evl is not None and ev != 'shared':
                    rec.expect(evl.closed >= 1, lambda: ctx() +
                               ': evaluation environments were not closed')
        # earlier checkpoints are those of the fault-free run
        ck = [s for s in saves if s[0].endswith('_checkpoint')]
        ck0 = [(os.path.basename(d), v) for d, v in agent0.saves
               if d.endswith('_checkpoint')]
        rec.expect(ck == ck0[:len(ck)], lambda: '{}: checkpoints {} want {}'
                   .format(ctx(), ck, ck0))
        rec.state(case, k, kind)
        rec.outcome(loop, where, saves)


# ------------------------------------------------------------------- async
def gen_async(tier):
    n = 4 if tier == 'thorough' else 3
    for idx in (0, 1, 2):
        for pre in (0, 2):
            for ev in (False, True):
                for ln in range(1, n + 1):
                    for script in itertools.product((CONT, DONE, RESET),
                                                    repeat=ln):
                        yield [idx, pre, ev, list(script)]


@chk.part('async', gen_async, bound='one worker of an asynchronous run '
          '(index 0,1,2), scripts of up to 3 (4) steps, all call sites')
def async_loop(rec, case):
    from chainerrl.experiments.train_agent_async import train_loop
    idx, pre, ev, script = case

    def run(faults):
        log = []
        env = ScriptEnv(script, log, faults=faults)
        agent = SavingAgent(log, faults)
        counter = mp.Value('l', pre)
        episodes = mp.Value('l', 0)
        done = mp.Value('b', False)
        err = None
        try:
            train_loop(idx, env, agent, pre + len(script), '/nonexistent',
                       counter, episodes, done, max_episode_len=2,
                       evaluator=FaultyEvaluator(faults, log) if ev else None,
                       global_step_hooks=[
                           lambda e, a, t: faults.point('hook')])
        except (Exception, KeyboardInterrupt) as e:
            err = e
        return log, agent, counter, done, err
    probe = Faults()
    log0, agent0, c0, _, err0 = run(probe)
    rec.expect(err0 is None, lambda: 'fault-free run raised {!r}'.format(err0))
    rec.expect([os.path.basename(d) for d, _ in agent0.saves] ==
               ['{}_finish'.format(pre + len(script))],
               lambda: 'fault-free run saved {}'.format(agent0.saves))
    for kind, k in itertools.product(EXCS, range(probe.n)):
        f = Faults(k, EXCS[kind])
        log, agent, counter, done, err = run(f)
        where = f.fired
        rec.trans(len(log))
        rec.trace()

        def ctx():
            return 'worker {}, script {}, {} at {} (call #{})'.format(
                idx, script, kind, where, k)
        rec.expect(isinstance(err, EXCS[kind]), lambda: '{}: swallowed '
                   '({!r})'.format(ctx(), err))
        rec.expect(counter.value == pre + steps_done(log),
                   lambda: '{}: global step {} want {}'.format(
                       ctx(), counter.value, pre + steps_done(log)))
        saves = [os.path.basename(d) for d, _ in agent.saves]
        if where == 'agent.save:finish' or idx != 0:
            want = []
        else:
            n = steps_done(log)
            want = ['{}_except'.format(pre + n if n else 0)]
        rec.expect(saves == want, lambda: '{}: saves {} want {}'.format(
            ctx(), saves, want))
        # the shared lock was released
        rec.expect(counter.get_lock().acquire(timeout=5), lambda: ctx() +
                   ': the step counter is still locked')
        counter.get_lock().release()
        rec.state(case, k, kind)
        rec.outcome(where, saves)


if __name__ == '__main__':
    raise SystemExit(chk.main())
