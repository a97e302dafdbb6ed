EX = 'stateless exhaustive exploration of the real code against a reference model'
NOTE = ('Every case of the stated bounded space is executed on the real code '
        'and compared step by step with an independent reference model. '
        'Trusts: the reference model, numpy, and that longer histories add '
        'nothing new. ')
PROPS = [
 dict(id='C01', title='Replay memory holds exactly the n-step windows of what was observed',
  statement='For any interleaving of recorded transitions, terminal transitions and interrupted episodes from any number of environments, an n-step replay memory (uniform or prioritized) holds exactly one window per recorded transition: that transition followed by at most n-1 successors of the same episode and environment, complete and unmodified, keeping only the most recent windows when a capacity is set. A batch built from windows carries the first state and action, the discounted reward sum, the last next state, the terminal flag and the discount matching the window length.',
  over=['histories', 'inputs', 'configurations'],
  text='all operation sequences over 1-2 environments up to a depth, all n and capacities in range, all small windows for batching',
  why='The tests follow a few hand-written append sequences; the property quantifies over all interleavings of environments, terminals, interruptions and evictions.',
  files=['chainerrl/replay_buffers/replay_buffer.py', 'chainerrl/replay_buffers/prioritized.py', 'chainerrl/replay_buffer.py'],
  mechanism=[('per-environment window of the last n transitions, flushed at episode end', 'chainerrl/replay_buffers/replay_buffer.py: append, stop_current_episode'), ('batching with discounting', 'chainerrl/replay_buffer.py: batch_experiences')],
  technique=EX + ' (all operation sequences to a depth)', note=NOTE + 'Depth 8 (1 env) / 5 (2 envs), n<=5, capacity<=4.'),
 dict(id='C02', title='Episodic replay keeps whole episodes and evicts whole oldest ones',
  statement='An episodic replay memory (uniform or prioritized) holds exactly the finished or interrupted episodes of each environment, in full and in order, and never a mixture of environments. When a capacity in transitions is set, the oldest whole episodes are dropped, and only as many as needed to respect it; transition counts, episode counts and transition samples agree with the episodes held. Subsequence sampling returns contiguous pieces of the requested length with every start position equally likely.',
  over=['histories', 'configurations', 'inputs'],
  text='all operation sequences over 1-2 environments up to a depth, all capacities in range, all answers of the random generator for subsequence starts',
  why='Tests append a handful of fixed-length episodes; eviction boundaries, interruptions and interleavings are combinatorial.',
  files=['chainerrl/replay_buffers/episodic.py', 'chainerrl/replay_buffers/prioritized_episodic.py', 'chainerrl/replay_buffer.py'],
  mechanism=[('open episode per environment, moved to memory when it ends, eviction loop', 'chainerrl/replay_buffers/episodic.py: stop_current_episode'), ('prioritized variant', 'chainerrl/replay_buffers/prioritized_episodic.py'), ('random subsequence', 'chainerrl/replay_buffer.py: random_subseq')],
  technique=EX + ' (all operation sequences to a depth, all random answers)', note=NOTE + 'Depth 8 (1 env) / 5 (2 envs), capacities up to 5.'),
 dict(id='C03', title='Prioritized sampling follows the reported priorities exactly',
  statement='At every point of any history of insertions, evictions, samples and error reports, a prioritized replay memory draws items without repetition with probability proportional to their current priority (mixed with the configured uniform share), where a priority is the clipped error plus a constant raised to the configured exponent and new items get the highest priority seen so far. The importance weights attached to a sample are the corresponding probabilities raised to minus the annealed exponent, normalized as configured.',
  over=['histories', 'inputs', 'configurations'],
  text='all histories up to a depth modulo equal priority state, all answers of the random generator in each state',
  why='Tests compare sample frequencies statistically after one or two updates; exact probabilities after arbitrary evict/update histories are out of reach of sampling.',
  files=['chainerrl/replay_buffers/prioritized.py', 'chainerrl/replay_buffers/prioritized_episodic.py', 'chainerrl/misc/prioritized.py'],
  mechanism=[('sum and min trees over a sliding queue', 'chainerrl/misc/prioritized.py'), ('priority from error, importance weights', 'chainerrl/replay_buffers/prioritized.py: PriorityWeightError')],
  technique='explicit-state BFS over real buffer states with exact enumeration of random answers', note=NOTE + 'Sampling distributions are exact rationals for integer priorities.'),
 dict(id='C04', title='Replay contents survive save and load at any point of a history',
  statement='Saving a replay memory of any kind at any point and loading the file into a fresh or used memory yields the same stored items, order of eviction and priorities, and every continuation from there behaves as it would have on the original (transitions of episodes still open when saving excepted). Saving does not disturb the memory being saved. Files in the format of version 0.2 are loaded as the transitions (and episodes) they hold, and the buffer of an agent is saved exactly when the user agrees.',
  over=['histories', 'configurations', 'crash_points'],
  text='all histories up to a depth, each cut at a save, followed by all continuations up to a depth',
  why='Tests save and load one buffer once and look at its length and first elements; capacity and priority behaviour after a reload is never exercised.',
  files=['chainerrl/replay_buffers/replay_buffer.py', 'chainerrl/replay_buffers/episodic.py', 'chainerrl/replay_buffers/prioritized.py', 'chainerrl/replay_buffers/prioritized_episodic.py', 'chainerrl/experiments/train_agent.py'],
  mechanism=[('pickle of the memory objects', 'save/load of each buffer')],
  technique=EX + ' (every save point of every history, every continuation)', note=NOTE + 'Histories of depth 5, continuations of depth 2.'),
 dict(id='C05', title='Bounded queues behave as plain first-in-first-out lists',
  statement='For any sequence of appends, extensions, removals from the front, indexed reads and writes, and pickling, the random-access queue is indistinguishable from a list truncated from the front to its maximum length, including negative indices and out-of-range errors. The priority queues report exactly the sum and the minimum of the values currently queued and return them in insertion order; sampling from them, with or without removal, gives distinct items with probability proportional to their values.',
  over=['histories', 'inputs', 'configurations'],
  text='all operation sequences up to a depth for several initial sizes and bounds; all multi-phase push/pop patterns for the priority queues',
  why='Tests use random operation sequences; index arithmetic across the internal halves has corner cases a random walk rarely hits.',
  files=['chainerrl/misc/collections.py', 'chainerrl/misc/prioritized.py'],
  mechanism=[('two-list queue', 'chainerrl/misc/collections.py: RandomAccessQueue'), ('binary tree over a sliding window', 'chainerrl/misc/prioritized.py: TreeQueue')],
  technique=EX + ' (all operation sequences to a depth)', note=NOTE),
 dict(id='C06', title='Uniform sampling draws distinct stored items, all equally likely',
  statement='Sampling k of n stored items (transitions, episodes, or plain indices) returns k distinct stored items and every k-subset is equally likely, whatever answers the random generator gives. Requests for more items than are stored, or a negative number, are refused.',
  over=['inputs', 'configurations'],
  text='all n up to 7 (10 in the rejection branch), all k, all answers of the random generator',
  why='Tests check frequencies statistically for a few sizes; the collision/redraw branch is hit rarely and its bias is invisible to samples.',
  files=['chainerrl/misc/random.py', 'chainerrl/misc/collections.py', 'chainerrl/replay_buffers/replay_buffer.py', 'chainerrl/replay_buffers/episodic.py'],
  mechanism=[('permutation or rejection sampling', 'chainerrl/misc/random.py: sample_n_k')],
  technique='exhaustive enumeration of all random-generator answers, exact output distribution', note=NOTE + 'Rejection loops are cut at a stated number of answers; the cut is symmetric in the items.'),
]
