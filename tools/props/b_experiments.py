EX = 'stateless exhaustive exploration of the real code against a reference model'
NOTE = ('Every case of the stated bounded space is executed on the real code '
        'and compared event by event with an independent reference. '
        'Trusts: the reference loop and the scripted environments. ')
PROPS = [
 dict(id='C07', title='Single-environment training feeds the agent the true stream',
  statement='For every sequence of environment answers, the training loop passes the agent exactly the observations and rewards the environment produced, executes exactly the actions the agent chose, and ends an episode precisely when the environment terminates, asks for a reset, the length limit is reached or the step budget is exhausted, telling the agent whether it was terminal. It takes exactly the budgeted number of steps counted from the starting step, calls every hook once per step with that step number, saves checkpoints exactly at their multiples and the final agent at the end, and stops early only after an evaluation reaches the target score.',
  over=['histories', 'inputs', 'configurations'],
  text='all environment answer sequences up to the step bound x budgets, offsets, length limits, checkpoint frequencies, evaluator outcomes',
  why='Tests run one or two scripted environments and count calls; boundary coincidences (limit = terminal = budget = checkpoint) are combinatorial.',
  files=['chainerrl/experiments/train_agent.py'],
  mechanism=[('main loop', 'chainerrl/experiments/train_agent.py: train_agent')],
  technique=EX + ' (all environment answer sequences)', note=NOTE + 'Up to 5 steps (7 thorough).'),
 dict(id='C08', title='Batch training gives every environment its own true stream',
  statement='For every combination of answers of parallel environments, the batch training loop passes the agent each environment\'s own observations, rewards, terminal and reset flags at its own position, and starts a new episode exactly in the environments whose episode ended. Evaluations never splice episodes, not even those run in the training environments themselves (the default): these end every training episode first. Steps are counted once per environment, hooks are called once for every step number, checkpoints are saved at exactly their multiples, the loop stops at the first vector step that reaches the budget or after an evaluation reaching the target score, and the final agent is saved.',
  over=['histories', 'inputs', 'configurations'],
  text='all answer combinations of 1-3 environments up to the step bound x budgets, offsets, limits, checkpoint frequencies, evaluator outcomes',
  why='Tests use mocks with one or two done patterns; simultaneous endings, limits and budgets that are no multiple of the environment count are not covered.',
  files=['chainerrl/experiments/train_agent_batch.py'],
  mechanism=[('main loop with reset masks', 'chainerrl/experiments/train_agent_batch.py: train_agent_batch')],
  technique=EX + ' (all environment answer sequences)', note=NOTE + '1 env x 6, 2 x 3, 3 x 2 vector steps (one more thorough).'),
 dict(id='C09', title='An interrupted training run always leaves the agent as of that step',
  statement='Whichever call made by a training loop fails or is interrupted by the user (environment, agent, hook, evaluation, checkpoint save), the agent is saved exactly once under the number of steps completed so far and marked as exceptional, the interruption reaches the caller, and nothing is saved as finished. Batch training also closes its environments; in asynchronous training only the first worker saves and no shared lock stays held.',
  over=['fault_sequences', 'crash_points', 'histories'],
  text='every call site of the loops x every script up to the bound x error or keyboard interrupt',
  why='Tests inject no faults into the training loops, apart from one; every call is a crash point.',
  files=['chainerrl/experiments/train_agent.py', 'chainerrl/experiments/train_agent_batch.py', 'chainerrl/experiments/train_agent_async.py'],
  mechanism=[('except clauses that save and re-raise', 'train_agent, train_agent_batch, train_loop')],
  technique='exhaustive fault enumeration: one real run per call site and fault kind', level='fault_enumeration', note=NOTE + 'Single faults.'),
 dict(id='C10', title='Evaluations happen once per interval and only real improvements are kept',
  statement='During training an evaluation takes place at the first opportunity after each multiple of the evaluation interval, never more than once per opportunity and never early. Each evaluation adds one complete row (step, episodes, time, mean, median, standard deviation, maximum, minimum, statistics) below a single header, and the agent is saved as best exactly when its mean score is strictly greater than every earlier one. Unspecified evaluation environment and length limit default to those of training.',
  over=['histories', 'inputs', 'configurations'],
  text='all sets of evaluation opportunities up to the bound, all short score sequences including ties and near-ties, all episode structures of short training runs',
  why='Tests run one schedule with a mock; the property is about every spacing of opportunities and every order of scores.',
  files=['chainerrl/experiments/evaluator.py', 'chainerrl/experiments/train_agent.py', 'chainerrl/experiments/train_agent_batch.py'],
  mechanism=[('interval bookkeeping, score file, best save', 'chainerrl/experiments/evaluator.py: Evaluator')],
  technique=EX + ' (all evaluation time sets and score sequences)', note=NOTE),
 dict(id='C11', title='Asynchronous evaluation is consistent under every interleaving',
  statement='Whatever the interleaving of workers sharing an evaluator, each interval is consumed by exactly one evaluation, as if the requests had been made one after another, starting after the initial step. The score file has one header first and one complete row per evaluation, the best score ends up as the maximum of all evaluation scores, and best-agent saves are made only for strict improvements, the last one by the agent with the maximum.',
  over=['schedules', 'histories'],
  text='all interleavings at shared-memory and file operations of 2-3 workers up to a preemption bound',
  why='Tests run real processes whose schedule is whatever the kernel gives; races need specific preemptions.',
  files=['chainerrl/experiments/evaluator.py'],
  mechanism=[('shared values updated under their locks', 'chainerrl/experiments/evaluator.py: AsyncEvaluator')],
  technique='preemption-bounded exploration of all schedules of the real code, linearizability check', note='All schedules of the stated workers up to the stated preemption bound are executed on the real evaluator with controlled locks, values and files. Trusts the emulation of multiprocessing values.'),
 dict(id='C12', title='Asynchronous training counts every step exactly once under any schedule',
  statement='For every interleaving of workers, each environment step receives its own global step number, the numbers are consecutive from the starting step, hooks see each once, and training ends no later than one step per other worker after the budget. The final agent is saved exactly once when the budget is reached, the successful agent exactly once if some evaluation reaches the target, every worker ends its last episode, closes its environments and never deadlocks.',
  over=['schedules', 'configurations', 'histories'],
  text='all interleavings at shared-memory operations of 1-3 workers up to a preemption bound x budgets, limits, evaluation settings',
  why='Tests run real processes once per configuration; lost updates and double saves need specific preemptions.',
  files=['chainerrl/experiments/train_agent_async.py', 'chainerrl/misc/async_.py', 'chainerrl/experiments/evaluator.py'],
  mechanism=[('locked global counter, shared done flag', 'chainerrl/experiments/train_agent_async.py: train_loop'), ('process management', 'chainerrl/misc/async_.py: run_async')],
  technique='preemption-bounded exploration of all schedules of the real code', note='All schedules of the stated workers up to the stated preemption bound are executed on the real training entry point with controlled processes, locks and values. Trusts the emulation of multiprocessing.'),
 dict(id='C13', title='Evaluation and demonstrations report exactly the episodes that ran',
  statement='An evaluation returns, for every behaviour of the environment(s), the undiscounted returns of complete episodes in the order they started (never skipping a longer one for a shorter one), for the requested number of episodes or as many as fit the requested number of steps, or the partial return if no episode fits. The agent sees each environment\'s true observations and is told of every episode end; with parallel environments only finished ones are reset. Collected demonstrations contain exactly the executed transitions, with episodes cut at the length limit.',
  over=['histories', 'inputs', 'configurations'],
  text='all answer sequences of 1-3 environments up to a depth x step/episode budgets x length limits',
  why='Tests enumerate a few lengths; the bookkeeping that orders parallel episodes depends on the joint pattern of endings.',
  files=['chainerrl/experiments/evaluator.py', 'chainerrl/experiments/collect_demos.py'],
  mechanism=[('sequential evaluation', 'run_evaluation_episodes'), ('parallel evaluation with episode numbering', 'batch_run_evaluation_episodes'), ('demonstrations', 'collect_demonstrations')],
  technique=EX + ' (all environment answer sequences)', note=NOTE),
]
