EX = 'stateless exhaustive exploration of the real code against a reference model'
PROPS = [
 dict(id='C31', title='Explorers explore exactly as configured',
  statement='An epsilon-greedy explorer with constant, linearly or exponentially decaying epsilon takes, at every step count and in whatever order steps are asked, the greedy action with probability 1 - epsilon(t) and otherwise exactly a random action, epsilon staying within its schedule; the greedy action is computed only when needed. Boltzmann exploration draws actions with the softmax of the values at its temperature, and additive noise explorers add Gaussian or Ornstein-Uhlenbeck noise of the configured scale, clipped to the bounds when given.',
  over=['inputs', 'histories', 'configurations'],
  text='all answers of the random generator on an exact grid x parameter sets x steps',
  why='Tests sample a few actions; a wrong probability, an off-by-one schedule or a biased clip is invisible in samples.',
  files=['chainerrl/explorers/epsilon_greedy.py', 'chainerrl/explorers/boltzmann.py', 'chainerrl/explorers/additive_gaussian.py', 'chainerrl/explorers/additive_ou.py', 'chainerrl/explorers/greedy.py'],
  mechanism=[('schedules', 'epsilon_greedy.py: compute_epsilon'), ('selection', 'explorers/*: select_action'), ('noise recurrence', 'additive_ou.py: evolve')],
  technique=EX + ' (all random outcomes, exact probabilities)', note='Random draws are enumerated on a grid on which the expected probabilities are exact fractions; noise sequences of up to 4 (thorough 6) calls.'),
 dict(id='C32', title='Action values answer every query consistently',
  statement='For every batch of action values, discrete, distributional, quantile, quadratic or single, greedy actions maximise the evaluation within the bounds, max equals the evaluation at the greedy actions, evaluate_actions, advantages, double advantages and expectations are the exact functions of the parameters with the exact gradients, and distributions or quantiles are those of the chosen actions. The answers do not depend on which queries were made before or inside which backprop scope, and slicing a batch slices all answers.',
  over=['inputs', 'histories'],
  text='all batches over finite grids x all actions x all query sequences in bound, all slices',
  why='Tests use random batches without ties or bounds and one query per object; cached answers depend on the order of queries.',
  files=['chainerrl/action_value.py'],
  mechanism=[('cached queries', 'action_value.py: cached_property max, greedy_actions, q_values'), ('evaluation', 'action_value.py: evaluate_actions*')],
  technique=EX + ' (all inputs over a grid, all query sequences)', note='Grids of 3 values per entry, shapes up to 2x2 (thorough 2x3), query sequences of 2 (thorough 3); exact gradients by hand.'),
 dict(id='C33', title='Policy distributions are what their parameters say',
  statement='For softmax (with inverse temperature and minimum probability), maximum-entropy mellowmax, Gaussian, tanh-squashed Gaussian and deterministic distributions, probabilities, log-probabilities, entropies, KL divergences, most probable actions and reparameterized samples are the exact functions of the parameters, with exact gradients, whatever was asked before and inside whichever backprop scope; a mellowmax distribution has the expectation of mellowmax for its omega. Samples follow the distribution for every noise outcome, never have probability zero, and come with their own log-probability; slices agree with the batch and copies are independent of the original.',
  over=['inputs', 'histories'],
  text='all parameter batches over finite grids x all actions x all query sequences in bound x all noise assignments from a grid',
  why='Tests use a few random parameters and statistical sampling checks with wide margins.',
  files=['chainerrl/distribution.py', 'chainerrl/functions/mellowmax.py', 'chainerrl/functions/arctanh.py'],
  mechanism=[('densities and divergences', 'distribution.py'), ('sampling', 'distribution.py: sample_discrete_actions, sample, sample_with_log_prob'), ('mellowmax temperature', 'mellowmax.py: maximum_entropy_mellowmax')],
  technique=EX + ' (all inputs over a grid, all noise outcomes on a grid)', note='Grids of 2-3 values per entry; gradients against central differences of double-precision formulas.'),
 dict(id='C25', title='Recurrent states are kept, reset and restored as asked',
  statement='For every recurrent model, whatever the sequence of evaluations, state resets, saved and restored states, unchaining, and nested state-keeping or state-resetting scopes left normally or by exceptions, the outputs are those of the same model fed exactly the history that these operations define, and gradients reach exactly the part of that history not cut. Scopes of one model never affect another, and the mixin finds every recurrent link of a model, however nested.',
  over=['histories', 'configurations'],
  text='all operation sequences up to a length x recurrent models',
  why='Tests run one or two fixed sequences; a state left behind by a nested scope or an exception needs a particular order.',
  files=['chainerrl/recurrent.py', 'chainerrl/links/sequence.py', 'chainerrl/policy.py', 'chainerrl/policies/softmax_policy.py', 'chainerrl/agents/a3c.py', 'chainerrl/agents/acer.py', 'chainerrl/q_functions/state_q_functions.py', 'chainerrl/v_functions/state_v_functions.py'],
  mechanism=[('scopes', 'recurrent.py: state_kept, state_reset'), ('state of a tree of links', 'recurrent.py: RecurrentChainMixin')],
  technique=EX + ' (all operation sequences)', note='All sequences of 3 of 15 operations (thorough 4) for every model of a zoo of 17; oracle is a fresh model replaying the history.'),
 dict(id='C26', title='Recurrent batches compute what each sequence would alone',
  statement='For every stateless recurrent link, however sequential and branched links are nested, evaluating a batch of sequences of any lengths, one step at a time or several, with any masking, selecting, reordering, splitting or concatenating of recurrent states in between, gives every sequence exactly the outputs, states and gradients of its own history fed alone. Sequences may be arrays, variables or tuples of them.',
  over=['histories', 'inputs', 'configurations'],
  text='all operation sequences up to a length x lengths of sequences x link structures',
  why='Tests use a fixed small structure and compare shapes or one permutation; an index shifted in a nested state depends on lengths and on masks.',
  files=['chainerrl/links/stateless_recurrent.py', 'chainerrl/links/stateless_recurrent_sequential.py', 'chainerrl/links/stateless_recurrent_branched.py'],
  mechanism=[('states as trees', 'stateless_recurrent.py: mask_recurrent_state_at, get_recurrent_state_at, concatenate_recurrent_states'), ('batched evaluation', 'stateless_recurrent_sequential.py: n_step_forward'), ('branches', 'stateless_recurrent_branched.py')],
  technique=EX + ' (all operation sequences)', note='Sequences of 3 operations, lengths 1-3, batches up to 3; oracle is each history alone through the n-step links.'),
 dict(id='C27', title='Vector environments behave as their environments alone',
  statement='Whatever the sequence of steps, masked resets, seedings, attribute accesses and closing, a serial or multiprocess vector environment returns exactly what its environments return when driven one by one, whichever process answers first; every environment is closed exactly once and no process is left behind. When an environment raises or its process dies at any call, or the parent dies, the pending call raises instead of hanging, the vector environment can still be closed, and the workers end.',
  over=['histories', 'schedules', 'fault_sequences'],
  text='all operation sequences up to a length x orders of answers x a fault at every call of every environment',
  why='Tests run one reset and one step; stale observations of masked resets, answers out of order and dead workers need specific histories.',
  files=['chainerrl/envs/serial_vector_env.py', 'chainerrl/envs/multiprocess_vector_env.py'],
  mechanism=[('masked resets', '*_vector_env.py: reset, last_obs'), ('worker protocol', 'multiprocess_vector_env.py: worker, close')],
  technique=EX + ' (all operation sequences, all orders of answers of real processes, all single faults)', note='Sequences of 3 operations (serial) and 2 followed by a step (processes), up to 3 environments; a call of more than 10 s counts as a hang.'),
 dict(id='C28', title='Environment wrappers change only what they are for',
  statement='Whatever the environment answers and in whatever order it is stepped and reset, the time limit wrapper asks for a reset exactly from the configured step of each episode without ending it; observation casts, reward scales, clips and filters, action normalization and repetition apply their formulas, and everything else passes through unchanged. Random action replacement has exactly the configured probability and follows its seed; the monitor records every episode once with its length, reward and mode, including those cut by a requested reset.',
  over=['histories', 'inputs'],
  text='all sequences of steps and resets up to a length x all answers of the environment x all random outcomes',
  why='Tests run one short random episode per wrapper; off-by-one limits and episodes lost by the monitor depend on the order of ends and resets.',
  files=['chainerrl/wrappers/continuing_time_limit.py', 'chainerrl/wrappers/cast_observation.py', 'chainerrl/wrappers/scale_reward.py', 'chainerrl/wrappers/render.py', 'chainerrl/wrappers/normalize_action_space.py', 'chainerrl/wrappers/randomize_action.py', 'chainerrl/wrappers/monitor.py', 'chainerrl/misc/env_modifiers.py', 'chainerrl/misc/reward_filter.py'],
  mechanism=[('time limit', 'continuing_time_limit.py: step'), ('episode statistics', 'monitor.py: _StatsRecorder'), ('filters', 'env_modifiers.py, reward_filter.py')],
  technique=EX + ' (all environment answers, all random outcomes with exact probabilities)', note='Sequences of 4-5 operations (thorough 5-6).'),
 dict(id='C29', title='Atari environments are preprocessed as defined',
  statement='For every sequence of emulator events (rewards, lost lives, game over, time limit), actions and resets, every option of make_atari and wrap_deepmind and the ALE environment give the defined observations (no-op starts, maximum of the last two frames of the skip, fire on reset, grey 84x84, scaling, flicker, stacks in the chosen channel order), rewards and ends. The emulator receives exactly the defined actions, is reset only when its game is over or a reset is due, and a finished game is never stepped.',
  over=['histories', 'inputs', 'configurations'],
  text='all event scripts up to a depth or number of events x all option combinations x all no-op counts and flickers',
  why='Tests cover only frame stacking and scaling on random frames; the rest depends on when lives are lost and limits are reached inside a skipped step or a reset.',
  files=['chainerrl/wrappers/atari_wrappers.py', 'chainerrl/envs/ale.py', 'chainerrl/wrappers/continuing_time_limit.py'],
  mechanism=[('frame skipping', 'atari_wrappers.py: MaxAndSkipEnv.step; ale.py: receive_action'), ('episodes by lives', 'atari_wrappers.py: EpisodicLifeEnv'), ('resets', 'NoopResetEnv, FireResetEnv, ale.py: initialize')],
  technique=EX + ' (all event scripts of a scripted emulator)', note='Single wrappers: every script of up to 6 calls; whole pipelines: every script with at most 1-2 events (thorough 2-3).'),
 dict(id='C30', title='Vector frame stacks equal single frame stacks',
  statement='For every sequence of steps and masked resets, number of environments, stack size and axis, a frame stack over a serial or multiprocess vector environment returns for every environment the stack that a frame stack over that environment alone would, restarting exactly the stacks of the environments reset. Observations returned earlier never change, the bounds of the space are those of the stacked frames, and other calls reach the vector environment.',
  over=['histories', 'configurations'],
  text='all operation sequences up to a length x stack sizes x axes x numbers of environments',
  why='The test makes one pass with a fixed mask; a stack mixed up or kept over a masked reset needs particular sequences.',
  files=['chainerrl/wrappers/vector_frame_stack.py', 'chainerrl/wrappers/atari_wrappers.py'],
  mechanism=[('stacks per environment', 'vector_frame_stack.py: reset, step'), ('lazy frames', 'atari_wrappers.py: LazyFrames')],
  technique=EX + ' (all operation sequences)', note='Sequences of 3-4 operations after a reset (thorough one more), up to 3 environments, stacks of 1-4.'),
 dict(id='C24', title='Copied and shared parameters hold exactly the source values',
  statement='Hard copies, soft copies with any coefficient and gradient copies give every parameter and batch-normalization statistic exactly its defined value, without aliasing or changing the source, whichever gradients are absent. Parameters, persistent values and optimizer states shared between copies, asynchronous agents or processes behave, for every interleaving of their updates, as one model updated in that order, while local models change only when their own agent updates. run_async runs every process once with its own reproducible random stream and warns for exactly those that failed.',
  over=['schedules', 'inputs', 'configurations'],
  text='all interleavings of updates of copies, agents and processes x link structures x optimizers x patterns of absent gradients',
  why='Tests compare pointers of a few links and make one copy; a lost or leaked update depends on the order in which copies update and on what is shared.',
  files=['chainerrl/misc/copy_param.py', 'chainerrl/misc/async_.py', 'chainerrl/misc/namedpersistent.py', 'chainerrl/experiments/train_agent_async.py', 'chainerrl/agents/a3c.py', 'chainerrl/agents/acer.py', 'chainerrl/agents/pcl.py', 'chainerrl/agents/nsq.py'],
  mechanism=[('copies', 'copy_param.py'), ('shared arrays', 'async_.py: share_params_as_shared_arrays, set_shared_states, synchronize_to_shared_objects'), ('processes', 'async_.py: run_async')],
  technique=EX + ' (all interleavings of updates, all fates of processes)', note='Updates are atomic steps; torn concurrent writes of lock-free updates are not explored. Sequences of 3-4 updates, 7 agent steps.'),
 dict(id='C34', title='The categorical projection moves every atom to its neighbours',
  statement='For every support of at least two evenly spaced atoms, every position of the projected atoms (on atoms, between them, at and beyond the bounds) and every probability vector, each row of the projection is non-negative and splits every atom linearly between its two neighbouring support atoms, so that total probability and mean (after clipping to the bounds) are preserved. Rows do not influence one another and arguments are unchanged.',
  over=['inputs'],
  text='all combinations of atom positions and probabilities on a grid x supports',
  why='Tests use a few hand-picked rows; losing mass needs atoms on support points, at bounds or rounding next to them, in combination.',
  files=['chainerrl/agents/categorical_dqn.py'],
  mechanism=[('projection', 'categorical_dqn.py: _apply_categorical_projection')],
  technique=EX + ' (all inputs on grids against exact rational arithmetic)', note='13 supports of 2-51 atoms; all atoms vary for up to 3 (thorough 4) atoms, pairs of atoms beyond.'),
 dict(id='C35', title='Empirical normalization follows exactly the data it has learned',
  statement='After any sequence of learned batches of any sizes, of loading saved statistics, copying or sharing, the mean, variance and count are those of exactly the rows learned, none after the configured limit, along the configured batch axis. Normalizing without learning applies these statistics with epsilon and clipping to arrays and differentiable variables alike, changes no statistic, and is undone by the inverse; a call that learns its input normalizes by the statistics that include it.',
  over=['histories', 'inputs', 'configurations'],
  text='all operation sequences up to a length x settings',
  why='Tests feed random batches in one order; cached statistics that go stale after learning, loading or copying need specific sequences.',
  files=['chainerrl/links/empirical_normalization.py'],
  mechanism=[('learning', 'empirical_normalization.py: experience'), ('cache', 'empirical_normalization.py: _std_inverse, serialize'), ('output', 'empirical_normalization.py: __call__, inverse')],
  technique=EX + ' (all operation sequences)', note='Sequences of 3-4 (thorough 5) of ten operations.'),
 dict(id='C38', title='Numerical building blocks compute and differentiate as defined',
  statement='The differentiable functions (arctanh, bounding by tanh, inverting and scaling gradients, triangular matrices, plain and weighted sums with repeated arguments, mellowmax) give their defined values and gradients for every shape and data type they accept. Conjugate gradient solves every positive-definite system, including a zero right-hand side, within its iterations and tolerance; RMSpropAsync and non-bias weight decay update exactly the defined parameters by their formulas; initializers fill exactly the parameters they are for with values of their definition.',
  over=['inputs', 'histories', 'configurations'],
  text='all inputs on grids x shapes x data types; all small positive-definite systems; all sequences of gradients',
  why='Tests check a random float32 batch; zero right-hand sides, scalars, other data types, repeated arguments and values at bounds are not drawn.',
  files=['chainerrl/functions/', 'chainerrl/misc/conjugate_gradient.py', 'chainerrl/optimizers/rmsprop_async.py', 'chainerrl/optimizers/nonbias_weight_decay.py', 'chainerrl/misc/init_like_torch.py', 'chainerrl/initializers/'],
  mechanism=[('functions', 'functions/*.py: forward, backward'), ('solver', 'conjugate_gradient.py'), ('optimizers', 'rmsprop_async.py: update_core_cpu; nonbias_weight_decay.py')],
  technique=EX + ' (all inputs on grids, all gradient sequences)', note='CPU only. Integer matrices up to size 3 with entries in a small range.'),
 dict(id='C36', title='Every run gets its own, completely described, output directory',
  statement='For every interleaving of simultaneous runs that ask for the same place, every directory returned is new, used by one run only and holds exactly that run\'s arguments, environment, command and (inside a repository) the git state; existing files never change. A directory that is taken or is no directory raises instead. When any file operation or git command fails, the call raises rather than return an incomplete directory.',
  over=['schedules', 'fault_sequences', 'configurations'],
  text='all interleavings of file operations of 2-3 runs (preemption bounded) x layouts; a fault at every operation; all repository states x arguments',
  why='Tests make one directory at a time; two runs of one second colliding, or a half-written description, need a particular interleaving or fault.',
  files=['chainerrl/experiments/prepare_output_dir.py', 'chainerrl/misc/is_return_code_zero.py'],
  mechanism=[('exclusive creation', 'prepare_output_dir.py: os.makedirs, tempfile.mkdtemp'), ('description', 'prepare_output_dir.py: args.txt, environ.txt, command.txt, git-*.txt')],
  technique='stateless exhaustive exploration of the real code under a controlled scheduler and fault injection', note='2 runs with <=2 (thorough 4), 3 runs with <=1 (2) preemptions at file operations; threads stand for processes; repositories have a commit.'),
 dict(id='C37', title='Scheduled hyperparameters follow their schedule in every loop',
  statement='The linear interpolation hook sets exactly the start value at step 1, the linear value between and exactly the stop value from the last step on, for every length, pair of values and order of calls. Inside single, batch and asynchronous training, from any step offset and under any interleaving of workers, each action of each agent is taken under the values of the last step that agent finished, and every global step sets its values once.',
  over=['schedules', 'histories', 'configurations'],
  text='all steps of all schedules of a grid; all episode scripts; all interleavings of 2-3 workers (preemption bounded)',
  why='Tests check a few steps of one schedule; off-by-one values depend on offsets, batch sizes, episode ends and the interleaving of workers.',
  files=['chainerrl/experiments/hooks.py', 'chainerrl/experiments/train_agent.py', 'chainerrl/experiments/train_agent_batch.py', 'chainerrl/experiments/train_agent_async.py'],
  mechanism=[('values', 'hooks.py: LinearInterpolationHook'), ('calls', 'train_agent*.py: step_hooks, global_step_hooks')],
  technique='stateless exhaustive exploration of the real code against a reference model (schedules, scripts, interleavings)', note='Runs of 1-5 (thorough 7) steps; asynchronous runs of 1-3 global steps with <=2 (3) preemptions.'),
 dict(id='C39', title='An evaluated agent acts by its current model, in test mode',
  statement='For every agent, observation, batch and history of changes of its parameters, acting for evaluation applies the feature extractor, the normalizer without learning, and the current model in test mode (dropout off, batch statistics used and left alone), and returns for each environment the greedy action, the most probable action if the agent is configured to act deterministically, or one fresh sample otherwise. Global modes are restored afterwards.',
  over=['histories', 'inputs', 'configurations'],
  text='all sequences of model changes, single and batch acts up to a length x all observations of a grid x all agents and options',
  why='Tests use deterministic layers only and check that an action has a type; a model in training mode, a stale model or a swapped batch entry stays invisible.',
  files=['chainerrl/agents/'],
  mechanism=[('single', 'agents/*.py: act'), ('batch', 'agents/*.py: batch_act'), ('options', 'act_deterministically, phi, obs_normalizer, batch_states')],
  technique=EX + ' (all operation sequences)', note='Sequences of 3 (thorough 4) operations; flat models (recurrent ones: C25).'),
 dict(id='C40', title='A run is a function of its seed',
  statement='After set_random_seed, building and training any agent with any exploration, memory and training loop, in a deterministic environment, gives the same actions, parameters and subsequent random numbers, whatever random numbers were drawn, seeds set, or agents trained before in the process, and in another interpreter with another hash seed. So are the initial weights of every bundled network, plain or made noisy. Another seed gives another run.',
  over=['histories', 'configurations'],
  text='all sequences of earlier uses of randomness up to a length x all agents, explorers and memories x seeds x interpreters',
  why='Tests check one call that a few numbers coincide; a forgotten random source, cached noise or set ordering shows only in particular combinations.',
  files=['chainerrl/misc/random_seed.py', 'chainerrl/agents/', 'chainerrl/explorers/', 'chainerrl/replay_buffers/', 'chainerrl/misc/random.py', 'chainerrl/initializers/', 'chainerrl/links/noisy_chain.py'],
  mechanism=[('sources', 'random_seed.py: set_random_seed'), ('draws', 'explorers, replay buffers, distributions and initializers')],
  technique=EX + ' (all histories of randomness)', note='14 training steps per run; histories of 1-2 (thorough 3) earlier uses; comparison within 1e-4.'),
 dict(id='C41', title='Bundled models compute exactly the documented networks',
  statement='Every bundled network, policy, action-value and value function computes, for every combination of its options, batch size and parameter values, in training and test mode, exactly the layers, bounds and reductions its documentation names, with all of its parameters taking part. Containers hand on exactly the options their layers accept; recurrent ones carry and reset their state. Noisy layers add exactly factorized noise, fresh for every call, and a converted model equals the plain one with perturbed weights.',
  over=['inputs', 'configurations', 'histories'],
  text='all options x batch sizes x parameters; all sequences of steps and resets; all noise values of a grid; all compositions of layers up to a length',
  why='Tests check shapes of default instances; an unused layer, a wrong bound or noise that is not used needs particular options and values.',
  files=['chainerrl/policies/', 'chainerrl/q_functions/', 'chainerrl/v_functions/', 'chainerrl/links/', 'chainerrl/agents/iqn.py'],
  mechanism=[('networks', 'links/mlp.py, mlp_bn.py, dqn_head.py; q_functions; policies; v_functions'), ('containers', 'links/sequence.py, branched.py'), ('noise', 'links/noisy_linear.py, noisy_chain.py')],
  technique=EX + ' (all configurations and inputs on grids)', note='Networks of up to 2 (thorough 3) small hidden layers, batches of 1-3; 18 converted models.'),
 dict(id='C42', title='A pretrained model is returned only when complete',
  statement='Whenever download_model returns, the directory it names holds exactly the model that is served for this algorithm, environment and type, and it reports truthfully whether the model had been stored before; a stored model is never downloaded again. This holds for any sequence of calls with missing or broken downloads, for calls killed at any point before, and for processes that ask for the same or different models at the same time; none waits forever.',
  over=['crash_points', 'schedules', 'histories', 'fault_sequences'],
  text='a kill or suspension at every operation of a call x all pairs of processes x all sequences of calls and faults in bound',
  why='Tests need the network and download once; what an interrupted or concurrent call leaves behind is never looked at.',
  files=['chainerrl/misc/pretrained_models.py'],
  mechanism=[('locks and order of steps', 'pretrained_models.py: cached_download, download_and_store_model')],
  technique='stateless model checking: every crash point and every suspension point of real processes', note='Download from file: URLs (no network here). A damaged file that was served stays in the download cache; a later call for it may fail again, but not return it.'),
 dict(id='C43', title='The toy problem ABC follows its documented dynamics',
  statement='In every setting of the ABC environment and for every sequence of actions, the state advances only by the correct action, the reward is 1 exactly when the last correct action is taken, episodes end (or restart, or stay) as documented for episodic and continuing tasks, observations are one-hot with the shift of the episode, continuous actions choose with softmax probabilities of the clipped action (or the largest, when deterministic), and deterministic settings are deterministic.',
  over=['histories', 'configurations'],
  text='all action sequences in bound x all settings x all answers of the random generator',
  why='All other tests measure learning on this environment; a changed reward or shift makes them easier or harder but seldom fails them.',
  files=['chainerrl/envs/abc.py'],
  mechanism=[('dynamics', 'abc.py: reset, step, observe')],
  technique=EX + ' (all action sequences and random answers)', note='Sizes 1-3; shifts are counted from episode 0.'),
 dict(id='C44', title='Reported statistics describe the training that happened',
  statement='After any history of training, evaluating, saving and loading, get_statistics of every agent names always the same quantities, and each is exactly what its name says: averages of values, action values and entropies over the actions chosen, of losses over the updates made and of divergences over the policy updates, with the configured decay rates or windows; counters equal the number of updates; step sizes, temperature and explained variance are those of the last updates. Asking changes nothing.',
  over=['histories', 'configurations'],
  text='all sequences of training, evaluation and save operations up to a length x all agents and settings',
  why='Tests check only that statistics can be asked for; a wrong decay, a loss reported as a value or a missed update shows in no action and no score.',
  files=['chainerrl/agents/'],
  mechanism=[('averages', 'agents/*.py: average_*, *_record'), ('report', 'agents/*.py: get_statistics')],
  technique=EX + ' (all operation sequences)', note='4 (thorough 5) free operations in each of 64 configurations (quick: a subset of the sequences); windows of 1000 overflow in one history per agent. For recurrent PPO and TRPO only values, entropies and counters.'),
]
