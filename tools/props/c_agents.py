EX = 'stateless exhaustive exploration of the real code against a reference model'
NOTE = ('Every case of the stated bounded space is executed on the real '
        'agents with tiny networks; noise is replaced by fixed numbers. ')
DQN_F = ['chainerrl/agents/dqn.py', 'chainerrl/agents/double_dqn.py',
         'chainerrl/agents/al.py', 'chainerrl/agents/pal.py',
         'chainerrl/agents/double_pal.py', 'chainerrl/agents/dpp.py',
         'chainerrl/agents/sarsa.py', 'chainerrl/agents/residual_dqn.py',
         'chainerrl/agents/categorical_dqn.py',
         'chainerrl/agents/categorical_double_dqn.py',
         'chainerrl/agents/iqn.py', 'chainerrl/agents/double_iqn.py']
AC_F = ['chainerrl/agents/ddpg.py', 'chainerrl/agents/pgt.py',
        'chainerrl/agents/td3.py', 'chainerrl/agents/soft_actor_critic.py']
ON_F = ['chainerrl/agents/ppo.py', 'chainerrl/agents/trpo.py',
        'chainerrl/agents/a2c.py', 'chainerrl/agents/a3c.py',
        'chainerrl/agents/acer.py', 'chainerrl/agents/pcl.py',
        'chainerrl/agents/nsq.py', 'chainerrl/agents/reinforce.py']
PROPS = [
 dict(id='C14', title='Evaluating an agent leaves its training untouched',
  statement='For every agent, inserting evaluation episodes (acting without training, then ending the episode) wherever the training loops allow (for the DQN family, PPO and TRPO: between any two steps of a training episode) changes nothing about training: the actions of the training run, the stored experience and everything learned are identical to those of the same run without the evaluations. This includes recurrent states, pending transitions, observation normalisation and the periods after an interrupted training episode, for single and batch interaction.',
  over=['histories', 'configurations'],
  text='all episode-end scripts up to the bound x every agent class and recurrent variant x all placements of evaluations',
  why='Tests train and evaluate separately; leaking state (last observation, recurrent state, n-step window) depends on where in an episode the evaluation falls.',
  files=DQN_F[:1] + AC_F + ON_F,
  mechanism=[('act/stop_episode separate train and test state', 'agents/*: act, batch_act, stop_episode')],
  technique=EX + ' (differential: with and without evaluation, all scripts)', note=NOTE + 'Scripts of up to 4 steps (5 thorough). The learned result is compared exactly.'),
 dict(id='C15', title='Off-policy agents act on, and store, exactly what happened',
  statement='For every sequence of rewards, episode ends and resets, a DQN-family or actor-critic off-policy agent returns exactly the action its explorer chose from the greedy action of the current network for the current observation, and its replay buffer contains exactly the experienced transitions (observation, executed action, reward, next observation, terminal flag, n-step windows, recurrent state before and after), none across episodes or environments. Episode interruptions are stored as non-terminal; recurrent state is carried inside an episode and restarts with every new one, per environment.',
  over=['histories', 'configurations'],
  text='all scripts of continue/terminal/reset up to the bound x every off-policy class, buffer kind, delay, capacity, 0-3 parallel environments',
  why='Tests check learning on toy problems, which survives corrupted or misattributed transitions; the errors depend on the pattern of simultaneous episode ends.',
  files=DQN_F + AC_F,
  mechanism=[('act_and_train, batch_act_and_train, batch_observe_and_train', 'chainerrl/agents/dqn.py, ddpg.py, td3.py, soft_actor_critic.py, pgt.py')],
  technique=EX + ' (all scripts; list-model replay buffer)', note=NOTE + 'Scripts of up to 4 steps for one environment, 3 joint steps for 2, 2 for 3; one more thorough.'),
 dict(id='C16', title='Learning and target synchronisation happen exactly when configured',
  statement='For every configuration and every history, an off-policy agent makes exactly its number of repeated updates at every multiple of the update interval once the replay buffer holds at least the replay start size, each on a fresh minibatch of the configured size, and never otherwise. The target network(s) equal the online network at construction and afterwards change only at multiples of the target interval (per environment step), by copying or by the exact soft mixing rate, or after each update for agents with soft targets, with the delayed policy update of TD3 at every configured multiple.',
  over=['histories', 'configurations', 'inputs'],
  text='start size, minibatch, intervals, repetitions, delay, target method x all scripts in bound x 0-3 environments',
  why='Tests run with default intervals and check that learning works; off-by-one schedules still learn.',
  files=['chainerrl/replay_buffer.py', 'chainerrl/agents/dqn.py', 'chainerrl/misc/copy_param.py'] + AC_F,
  mechanism=[('update schedule', 'chainerrl/replay_buffer.py: ReplayUpdater'), ('target synchronisation', 'sync_target_network, copy_param.synchronize_parameters')],
  technique=EX + ' (all configurations and scripts; schedule model)', note=NOTE),
 dict(id='C17', title='Value-based agents learn exactly their defined targets',
  statement='For every minibatch, DQN, DoubleDQN, AL, PAL, DoublePAL, DPP, SARSA, ResidualDQN, Categorical(Double)DQN and (Double)IQN change their network exactly along the gradient of their defined loss: the target of each example is its n-step reward plus gamma^n times the bootstrapped value (none when terminal), action-gap corrections and projections as defined, clipped (Huber) or squared, weighted by importance weights and averaged or summed as configured. The target network acts in test mode (as for dropout and batch normalization), it and the other examples contribute nothing else, the errors reported for prioritisation are the absolute errors of the respective examples, and recurrent networks learn every step of every sequence from its own recurrent state.',
  over=['inputs', 'configurations'],
  text='every minibatch of up to 3 experiences of a finite universe x every class, loss option and parameter set',
  why='Tests check that learning succeeds on toy tasks; wrong masks, mixed up batch rows or swapped networks still learn.',
  files=DQN_F,
  mechanism=[('_compute_y_and_t, _compute_target_values', 'the DQN-family classes'), ('compute_value_loss, compute_weighted_value_loss', 'chainerrl/agents/dqn.py')],
  technique=EX + ' (all minibatches over a finite universe; per-example oracle)', note=NOTE + 'Comparison within single-precision tolerance.'),
 dict(id='C18', title='DDPG, PGT, TD3 and SAC follow their defined learning rules',
  statement='For every minibatch, DDPG, PGT, TD3 and SAC change every network exactly along the gradients of their defined losses: critics towards n-step reward plus gamma^n times the target value of the target policy action (minimum of two critics, smoothing noise or entropy term where defined, nothing when terminal), the policy along its defined objective through the current critic, and the temperature towards the entropy target. Target networks act in test mode. No update changes a network other than its own, and observation preprocessing and a given batch_states function apply to every state used.',
  over=['inputs', 'configurations'],
  text='every minibatch of up to 3 experiences of a finite universe x every class, option and parameter set, recurrent and not',
  why='Tests check that learning succeeds on toy tasks; wrong discounts, masks or networks still learn.',
  files=AC_F,
  mechanism=[('compute_critic_loss, compute_actor_loss', 'chainerrl/agents/ddpg.py'), ('update_q_func, update_policy, update_policy_and_temperature', 'chainerrl/agents/td3.py, soft_actor_critic.py')],
  technique=EX + ' (all minibatches over a finite universe; per-example oracle)', note=NOTE + 'Comparison within single-precision tolerance.'),
 dict(id='C19', title='PPO and TRPO learn from exactly their collected data by their rules',
  statement='For every pattern of episode ends and interruptions, PPO and TRPO learn exactly when the configured amount of experience was collected (every transition used, once per epoch, none invented), with generalised advantages and returns computed within each episode and bootstrapped from the value of the last observation except at terminal states, standardised as configured. PPO follows the clipped surrogate (and clipped value and entropy) gradients of each minibatch against the probabilities at collection time; TRPO makes one natural gradient step that improves the surrogate inside the KL bound or none, and fits its value function; both for recurrent models from the right recurrent state and with one environment or several.',
  over=['histories', 'configurations', 'inputs'],
  text='all scripts of episode ends in bound x options x all shuffles in bound x 1-2 environments, feed-forward and recurrent',
  why='Tests check learning on toy tasks; wrong masks, truncated data and mispaired advantages still learn.',
  files=['chainerrl/agents/ppo.py', 'chainerrl/agents/trpo.py'],
  mechanism=[('dataset and advantages', 'ppo.py: _make_dataset, _add_advantage_and_value_target_*'), ('clipped loss', 'ppo.py: PPO._lossfun, _update, _update_recurrent'), ('constrained step', 'trpo.py: _update_policy, _line_search')],
  technique=EX + ' (all scripts and shuffles; per-transition oracle)', note=NOTE + 'Comparison within single-precision tolerance.'),
 dict(id='C20', title='A2C learns from exactly its rollouts',
  statement='For every joint pattern of episode ends in parallel environments, A2C updates exactly after every update_steps steps, using each collected transition once with the return (or generalised advantage) of its own environment, cut at episode ends and bootstrapped with the value of the last observation. The update follows exactly the gradient of the policy, value and entropy terms as configured, with probabilities of the actions really executed, and actions come from the current policy of each environment.',
  over=['histories', 'configurations'],
  text='all joint scripts of 1-3 environments in bound x every listed setting',
  why='Tests check learning on toy tasks; shifted masks or mixed environments still learn.',
  files=['chainerrl/agents/a2c.py'],
  mechanism=[('rollout storage, _compute_returns, update', 'chainerrl/agents/a2c.py')],
  technique=EX + ' (all joint scripts; per-transition oracle)', note=NOTE + 'A reset counts as an episode end, as the agent documents by its warning.'),
 dict(id='C21', title='A3C, NSQ, ACER and PCL learn from exactly their own segments',
  statement='For every pattern of episode ends and every interleaving of several agents that share parameters, an A3C, NSQ, ACER or PCL agent updates exactly at the end of every segment of t_max steps or episode, applying to the shared parameters the gradient of its defined loss (returns, retrace targets, truncated importance weights with bias correction, trust region, path consistency) over exactly its own segment, bootstrapped except at terminal states, and then copies the shared parameters. Replay updates happen exactly as often as configured on stored episodes that equal the experience, weighted by their own importance weights; the target (NSQ) and average (ACER) networks follow their schedule, and recurrent states are carried and reset per episode.',
  over=['histories', 'schedules', 'configurations'],
  text='all scripts of one agent in bound; all call interleavings of two agents; every listed setting, recurrent or not',
  why='Tests check learning on toy tasks with one interleaving chosen by the operating system.',
  files=['chainerrl/agents/a3c.py', 'chainerrl/agents/nsq.py', 'chainerrl/agents/acer.py', 'chainerrl/agents/pcl.py', 'chainerrl/misc/copy_param.py', 'chainerrl/misc/async_.py'],
  mechanism=[('segments and updates', 'a3c.py, nsq.py, acer.py, pcl.py: update*, act_and_train, stop_episode_and_train'), ('gradient copy and synchronisation', 'copy_param.copy_grad, copy_param')],
  technique=EX + ' (all scripts and call interleavings; per-transition oracle)', note=NOTE + 'Interleaving is at the granularity of agent calls; lock-free tearing inside an optimizer step is by design (Hogwild).'),
 dict(id='C22', title='REINFORCE learns from exactly its complete episodes',
  statement='For every sequence of episode ends, REINFORCE performs an update exactly when batchsize episodes have reached a terminal state, ascending the sum over these episodes and their steps of the log-probability of the executed action times the undiscounted return that followed it, plus beta times the entropy, divided by the batch size, whether gradients are computed per episode or at once. An episode interrupted without a terminal state contributes nothing and disturbs nothing. Recurrent models start every episode from a fresh state.',
  over=['histories', 'configurations'],
  text='all scripts of step kinds in bound x batch sizes, entropy weights, separate and joint backward passes, discrete and Gaussian, recurrent or not',
  why='Tests train on a toy task; a return off by one or an episode counted twice still learns.',
  files=['chainerrl/agents/reinforce.py'],
  mechanism=[('returns per episode', 'reinforce.py: accumulate_grad, batch_update'), ('batching of episodes', 'reinforce.py: stop_episode_and_train')],
  technique=EX + ' (all scripts; per-transition oracle)', note=NOTE + 'Scripts of 5 steps (thorough 7).'),
 dict(id='C23', title='A saved agent resumes training as if it had not been interrupted',
  statement='Loading a saved agent into another agent object of the same class and settings, new or already used, reproduces every network (including target networks, temperatures and observation normalizers) and every optimizer state, at whatever point of training it was saved; the loaded agent acts alike and, given the same replay contents, step counter and random state, further training yields identical actions and learned parameters. Saving does not change the agent, and starting the training loop from a step offset, or again with the same agent, learns the same as from step 0 for on-policy agents.',
  over=['histories', 'crash_points', 'configurations'],
  text='all training scripts in bound x all points of saving x every agent class, optimizer and variant',
  why='Tests save and load a few agents once and look at acting; a forgotten target network, optimizer state or a save before the first update shows only in further training.',
  files=['chainerrl/agent.py'] + DQN_F[:1] + AC_F + ON_F,
  mechanism=[('attribute saving', 'agent.py: AttributeSavingMixin, load_npz_no_strict'), ('what is saved', 'agents/*: saved_attributes, load'), ('step offsets', 'agents/a2c.py, a3c.py, acer.py, pcl.py, nsq.py: t, t_start')],
  technique=EX + ' (all scripts and interruption points; differential)', note=NOTE + 'Scripts of 5 steps (thorough 6) with interruption after every step but the first.'),
]
