"""Single source of properties.jsonl and MANIFEST.json (see tools/meta.py)."""
PROPS = []
NOT_APPLICABLE = {}


def P(id, title, statement, over, quant, why, files, mech, technique, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why,
                      files=files, mech=mech, technique=technique, note=note))


BFS_T = 'explicit-state model checking of the real implementation (BFS over all operation sequences up to a depth, reference-model oracle)'
ENUM_T = 'bounded exhaustive enumeration of executions of the real implementation against a reference model'

P('C01', 'n-step tracing yields exactly the right transitions for every episode',
  'For any look-ahead n, discount factor and sequence of (state, action, reward, done) steps, the n-step tracer turns every '
  'recorded step into exactly one transition, in order, whose return is the discounted sum of the next n rewards truncated at the '
  'episode end, whose bootstrap factor is gamma^n when the n-th successor lies in the episode and 0 otherwise, and whose next '
  'state/action/log-probability are those n steps later. A transition is handed out only once its window is complete or the '
  'episode is done; asking too early, or adding to a finished episode that was not drained or reset, is refused, and '
  'resetting forgets everything. Batch weights and optional per-step records travel with their own step.',
  ['histories', 'inputs', 'configurations'],
  'every interleaving of add / pop / flush / reset / done over finite reward, discount, n and observation-structure alphabets',
  'The tests run a handful of fixed episodes with n=5; they never interleave adding and draining, nor vary n against the episode length, nor mix resets in.',
  ['coax/reward_tracing/_nstep.py', 'coax/reward_tracing/_base.py', 'coax/reward_tracing/_transition.py'],
  [('n-step queue with look-ahead and zero-bootstrap at the end', 'NStep.add/pop/flush/reset')],
  BFS_T, 'All histories up to the stated depth on the real tracer, each compared with a list-based reference; assumes values outside the alphabets behave alike.')

P('C02', 'Monte-Carlo tracing yields the full discounted return for every episode',
  'For any discount factor and sequence of steps, the Monte-Carlo tracer emits, once the episode is done, exactly one transition per '
  'recorded step carrying the discounted sum of all rewards from that step to the end and no bootstrap. Nothing is emitted '
  'before the episode ends, nothing may be added to an ended undrained episode, and nothing leaks from one episode into the next.',
  ['histories', 'inputs', 'configurations'],
  'every interleaving of add / pop / flush / reset / done over finite reward and discount alphabets',
  'One fixed episode is tested; partial drains, resets mid-episode and consecutive episodes are not.',
  ['coax/reward_tracing/_montecarlo.py', 'coax/reward_tracing/_base.py', 'coax/reward_tracing/_transition.py'],
  [('backward accumulation of the return', 'MonteCarlo.add/pop/flush/reset')],
  BFS_T, 'All histories up to the stated depth on the real tracer against a list-based reference.')

P('C03', 'Transition batches split, recombine, copy and compare without loss',
  'Splitting a batch of transitions into single transitions or power-of-two chunks and concatenating them again returns the same '
  'data, every field row by row, whatever the batch size, the observation structure and the set of optional fields that are present. '
  'Giving a batch other weights or ids leaves transitions split off earlier alone, and a deep copy shares nothing with its source. Two batches compare equal '
  'exactly when every field has the same presence, structure, shape and values, and a batch built from a single transition holds exactly that transition.',
  ['inputs', 'configurations'],
  'all batch sizes up to a bound x presence of each optional field x observation/action structures x every single-entry change and every pair of field structures',
  'Tests cover one batch size and no optional-field combinations.',
  ['coax/reward_tracing/_transition.py', 'coax/utils/_array.py'],
  [('pytree-wise slicing and concatenation', 'TransitionBatch.to_singles/from_single/__eq__, chunks_pow2')],
  ENUM_T, 'Complete within the listed sizes and structures.')

P('C04', 'Uniform replay keeps the most recent transitions and samples them fairly',
  'After any history of additions, samples and clears, the uniform replay buffer contains exactly the most recently added transitions, '
  'at most its capacity, unaffected by what is done to a sampled batch or to the label of a batch that was added. Sampling returns the requested '
  'number of distinct stored transitions with all fields intact, every subset of that size being equally likely, leaves the contents '
  'alone, and depends only on the buffer\'s own seed.',
  ['histories', 'inputs', 'configurations'],
  'every sequence of add / re-add / sample / tamper / clear up to a depth, for all small capacities',
  'Tests add a fixed stream to one buffer and inspect lengths; aliasing, clears and the sampling law are untested.',
  ['coax/experience_replay/_simple.py', 'coax/experience_replay/_base.py'],
  [('bounded deque of single transitions', 'SimpleReplayBuffer.add/sample/clear')],
  BFS_T, 'All histories to the stated depth; fairness is decided by exhausting the draws of the generator, not by statistics.')

P('C05', 'Prioritized replay: contents, eviction and priority updates are exact',
  'After any history of additions, priority updates, samples and clears, the prioritized replay buffer holds exactly the most recent '
  'transitions (at most its capacity) with every field intact, and each one\'s priority is that of its own latest update. '
  'Updating by the ids of a sampled batch touches exactly those transitions that are still stored and never one that has since '
  'replaced them, and sampling can never return an absent or evicted transition.',
  ['histories', 'inputs', 'configurations'],
  'every sequence of add / update (current, stale and repeated ids) / sample / clear up to a depth, for all small capacities',
  'Tests update ids right after sampling, so wrap-around between sample and update never happens.',
  ['coax/experience_replay/_prioritized.py', 'coax/utils/_segment_tree.py'],
  [('ring storage indexed by id modulo capacity, sum tree of priorities', 'PrioritizedReplayBuffer.add/update/sample/clear')],
  BFS_T, 'All histories to the stated depth; the uniform draws of sampling are dictated on a grid so that every stored item is reached.')

P('C06', 'Prioritized replay: sampling probabilities and importance weights are exact',
  'A stored transition is sampled with probability proportional to (|advantage| + epsilon)^alpha, and carries the weight '
  '(min_j p_j / p_i)^beta (the minimum taken over the sampled batch) times the weight it was added with, for every fill level, capacity and setting of alpha, beta and epsilon. Changing alpha '
  'or beta during the life of the buffer takes effect for all stored transitions, as if they had been added under the new setting (a change of alpha by less than one percent may be passed over).',
  ['histories', 'inputs', 'configurations'],
  'grid of capacity x fill x alpha x beta x epsilon x advantages, plus all add/update/retune/sample sequences up to a depth',
  'Tests sample a few times and check shapes; the law is never compared and hyperparameter changes are not followed by a sample.',
  ['coax/experience_replay/_prioritized.py', 'coax/utils/_segment_tree.py'],
  [('sum tree of priorities, min tree for the weight normaliser', 'PrioritizedReplayBuffer.sample/alpha/beta')],
  BFS_T, 'Probabilities are measured exactly by enumerating the generator\'s draws on a grid.')

P('C07', 'Segment trees return the exact reduction of any range after any updates',
  'After any sequence of value assignments (single, batched, repeated indices with the last one winning), reducing any non-empty range '
  'of a segment tree equals folding the associative operation over the stored values in that range from left to right, for every capacity '
  'and operation, for one range or a batch of ranges. Ranges that are empty or out of bounds are refused, not answered.',
  ['histories', 'inputs', 'configurations'],
  'closure of all assignments over a value alphabet x all ranges x all capacities up to a bound x sum/min/max/product/non-commutative',
  'Tests use a few ranges of one tree whose values were set once.',
  ['coax/utils/_segment_tree.py'],
  [('binary heap-shaped tree updated bottom-up', 'SegmentTree.set_values/partial_reduce/root_value')],
  BFS_T, 'All reachable trees over the alphabet and all ranges within the listed capacities.')

P('C08', 'Weighted sampling by inverse CDF maps every draw to the right element',
  'For every non-negative weight vector and every point u in [0, total weight], the inverse CDF returns the element whose cumulative-weight interval contains u, '
  'never an element with zero weight and never an index beyond the stored elements. Sampling therefore returns each element '
  'in exact proportion to its weight, and out-of-range arguments are refused.',
  ['inputs', 'configurations'],
  'all weight vectors over a small alphabet up to a length x all interval boundaries and interior points',
  'Tests check one weight vector statistically.',
  ['coax/utils/_segment_tree.py'],
  [('descent from the root choosing left or right by the left mass', 'SumTree.inverse_cdf/sample')],
  ENUM_T, 'Complete within the listed lengths and alphabets; boundary points with floating-point tolerance.')

P('C09', 'Connect Four follows the rules of the game in every position',
  'From the start position and after any sequence of moves, a disc dropped in a column lands on its lowest free row, a player who completes four in a row '
  '(horizontally, vertically or on either diagonal, anywhere on the board) wins with reward 1 and the game is over, a full board without such a line is a '
  'draw, and no other position ends the game. The observation always shows the board from the perspective of the player to move, '
  'with columns that are full marked as unavailable, and playing such a column, or playing on after the game ended, is handled as '
  'documented without corrupting the board.',
  ['histories', 'inputs'],
  'every move sequence up to a depth, every game confined to two columns, and a game for each of the 69 winning lines x completing cell x player, with every prefix checked',
  'The environment has no unit test at all in this repository.',
  ['coax/envs/_connect_four.py'],
  [('win detection and observation of the bounded board', 'ConnectFourEnv.step/state/available_actions')],
  BFS_T, 'All positions within the stated depth and all line completions; deep mid-game positions off the listed games are not visited.')

P('C10', 'Connect Four positions can be saved and restored exactly',
  'The state id of any reachable position identifies that position: restoring it into a fresh or a used environment gives the same '
  'board, player to move, available columns and outcome, and the same continuation after every further move, and different '
  'positions have different ids. An id whose player, outcome flag, last column or board is out of range is refused and leaves the environment as it was.',
  ['histories', 'inputs'],
  'every position within a depth and every prefix of 552 complete games x restore target x all one-move continuations; 60 malformed ids x 7 running or finished games',
  'Restoring is not tested at all (it was broken when we started).',
  ['coax/envs/_connect_four.py'],
  [('base-3 encoding of the board', 'ConnectFourEnv.set_state/state_id')],
  ENUM_T, 'Complete within the listed positions.')

P('C11', 'The training monitor counts steps, episodes and returns exactly',
  'Whatever sequence of resets, steps, terminations and truncations an environment goes through, the training monitor passes every observation, reward '
  'and flag, and the seed and options given to a reset, through unchanged and its step, episode and global counters, episode return, average reward and periodic-event queries equal '
  'what a recount of the whole history gives. A per-episode record is written exactly once per episode played, with the right '
  'numbers.',
  ['histories', 'configurations'],
  'every sequence of reset / step / terminate / truncate (including reset mid-episode and repeated reset) up to a depth x monitor options',
  'The wrapper has no unit test; counters after truncation, early reset or double reset are never examined.',
  ['coax/wrappers/_train_monitor.py'],
  [('running counters updated in step and reset', 'TrainMonitor.step/reset')],
  BFS_T, 'All histories up to the stated depth against a recount; clock, environment and tensorboard are stand-ins.')

P('C12', 'Monitor metrics, periodic triggers and checkpoints are exact',
  'Every recorded metric is reported as the average over exactly the values recorded since the last report, under the right step, and none is lost, '
  'repeated or attributed to another episode; a periodic trigger fires exactly on the requested schedule of steps or episodes. '
  'Counters taken out of a monitor are a snapshot that later activity does not change, and putting them back, directly or via a file, '
  'into the same or another monitor restores the exact state, including where it logs.',
  ['histories', 'configurations'],
  'every sequence of metric recording / step / reset / period queries / save / restore (memory and file) up to a depth',
  'No unit test records a metric or restores a monitor.',
  ['coax/wrappers/_train_monitor.py', 'coax/utils/_misc.py'],
  [('period bookkeeping and metric accumulation', 'TrainMonitor.record_metrics/period/get_counters/set_counters/save_counters/load_counters')],
  BFS_T, 'All histories up to the stated depth; the tensorboard writer is a recording stand-in.')

P('C13', 'Frame stacking and meta-policies wrap an environment faithfully',
  'After any history of resets and steps, frame stacking shows exactly the last k observations of the current episode, oldest first, the first one repeated to '
  'fill up, never a frame of an earlier episode, and stacks handed out before do not change. The meta-policy wrapper acts with exactly the '
  'arm that was chosen, evaluated on the current observation of the running episode, and reports that action and its log-probability. '
  'Rewards, termination flags, infos and reset arguments pass through unchanged.',
  ['histories', 'configurations'],
  'every sequence of reset / step / terminate / truncate up to a depth x number of frames x observation kinds x arm kinds',
  'Neither wrapper has a unit test.',
  ['coax/wrappers/_frame_stacking.py', 'coax/wrappers/_meta_policy.py'],
  [('deque of frames', 'FrameStacking.step/reset'), ('arm dispatch', 'MetaPolicyEnv.step/reset')],
  BFS_T, 'All histories up to the stated depth.')

P('C14', 'Rewriting a Box action space always yields the right original action',
  'For every Box action space and every action of the rewritten space, the unbounded-reals wrapper hands the original environment low + (high-low)*sigmoid(a), '
  'and the discretizing wrapper hands over a point inside the selected bin of the equal partition of each dimension. The result is always an element of the '
  'original space (bounds, shape and dtype), it is recorded in the info, nested wrappers record one after another, and everything else passes through.',
  ['inputs', 'configurations'],
  'boxes x dtypes x numbers of bins x every bin x grid of draws, and a grid of real values per component incl. extremes',
  'Tests run a handful of random actions on one box and do not check the value or its dtype.',
  ['coax/wrappers/_box_spaces.py'],
  [('affine/sigmoid rescaling and bin arithmetic', 'BoxActionsToReals/BoxActionsToDiscrete')],
  ENUM_T, 'Complete within the listed boxes and grids; the uniform draws are dictated.')

P('C15', 'Distributed actors, learner and parameter store never lose or mix data',
  'Under every interleaving of actor, learner and parameter-store operations, every transition an actor produced is stored exactly once and '
  'unaltered, in the order of its actor; the learner learns only from stored transitions; parameters that actors pull are ones that were pushed, and never older than ones pulled before; and '
  'the global step count never exceeds the steps taken and falls short of them only by reports of actors that overlapped; the learner continues from the parameters held in the store. Every accessor answers the same whether the store is the worker '
  'itself, another object or a remote actor, and workers terminate when the step budget is reached.',
  ['schedules', 'configurations'],
  'all interleavings of 1-2 actors and a learner at store-operation granularity, state-hashed, up to a bounded number of learning steps',
  'The worker module has no unit test; real runs are nondeterministic and need a cluster.',
  ['coax/_core/worker.py'],
  [('polling loops against a shared store', 'Worker.rollout_loop/learn_loop/buffer_*/push_setattr/pull_*')],
  'explicit-state exploration of all schedules of the real worker loops under a controlled scheduler',
  'Complete at the granularity of calls on the store (atomic in a ray actor) within the stated bounds; ray itself is replaced by an in-process stand-in with serialization.')

P('C16', 'TD learners bootstrap from exactly the target their algorithm defines',
  'For every batch and whatever the values at hand, the TD error reported by SimpleTD, Sarsa, Expected-Sarsa, Q-learning, double Q-learning, soft Q-learning '
  'and (soft) clipped double Q-learning is the loss-derived error between the current value and the algorithm\'s own target: reward plus bootstrap factor '
  'times the appropriate next value from the target networks, in the value-transformed scale, plus the regularization term if any. This holds alike for '
  'q-functions of (s) and of (s,a), discrete and continuous actions, with or without separate target networks, and each row depends on that row alone. Targets are evaluated in inference mode with the function states of the functions they come from, the current value in training mode.',
  ['inputs', 'configurations'],
  'all tables of values over a finite alphabet at current and next state (every tie, every ordering) x rewards/bootstrap factors x algorithm x q-function type x options',
  'The tests only check that parameters change; none compares a target with the textbook formula.',
  ['coax/td_learning/'],
  [('bootstrap target', 'target_func of SimpleTD/Sarsa/ExpectedSarsa/QLearning/DoubleQLearning/SoftQLearning/ClippedDoubleQLearning/SoftClippedDoubleQLearning'),
   ('error and regularization', 'BaseTDLearningV/Q._init_funcs')],
  ENUM_T, 'Complete over the listed value tables; functions are tables, so the alphabets stand for all orderings and ties. Where the next action is tied any of the tied actions is accepted.')

P('C17', 'A TD update takes exactly the optimizer step on the weighted loss',
  'Updating a TD learner with any sequence of batches changes the updated function\'s parameters by exactly the optimizer\'s step on the gradient of the importance-weighted '
  'mean loss (weights clipped to a factor of ten either way) with the targets held fixed, and changes nothing else: not the target networks, policies, other functions nor the batch. Computing '
  'gradients and applying them separately gives the same result, an update that is not a number in any of its parts is refused without effect, the returned errors and metrics describe the batch that was used, and '
  'distributional value functions minimize the cross-entropy or quantile loss to the projected target distribution in the same way.',
  ['histories', 'inputs', 'configurations'],
  'sequences of updates over importance weights, optimizers, losses, algorithms and function types; all target distributions on a grid',
  'The tests check only that parameters change.',
  ['coax/td_learning/', 'coax/value_losses/_losses.py', 'coax/proba_dists/_discretized_interval.py', 'coax/proba_dists/_empirical_quantile.py'],
  [('loss, gradient and optimizer step', 'BaseTDLearning.update/grads_and_metrics/apply_grads'), ('projection of distributions', 'affine_transform')],
  ENUM_T, 'Complete over the listed configurations; tabular functions make the gradient an exact closed form.')

P('C18', 'Copies are independent and soft updates interpolate exactly',
  'After any sequence of copying, soft-updating and overwriting value functions, policies and models, each one\'s parameters and function state are exactly what that history '
  'prescribes: a copy equals its source and is independent of it from then on, a soft update moves the target by the fraction tau towards the source and leaves the source alone. '
  'Parameters of another structure and soft updates between functions of different kind or structure are refused without effect, and sampling from a copy never changes what the original samples.',
  ['histories', 'configurations'],
  'every sequence of copy / deep copy / soft update / overwrite / refused overwrite on three functions up to a depth, for nine kinds of function',
  'The tests perform one copy and one soft update and check for inequality.',
  ['coax/_core/base_func.py', 'coax/_base/mixins/'],
  [('copy and interpolation', 'BaseFunc.copy/soft_update and the params/function_state setters')],
  BFS_T, 'All histories up to the stated depth against an arithmetic reference.')

P('C19', 'Policy objectives: loss, gradient and update are exactly the documented ones',
  'For every batch, the vanilla policy gradient, PPO-clip, deterministic and soft policy gradient objectives compute exactly their documented loss, '
  'weighted by the clipped importance weights and including the regularization term, and its gradient with respect to the policy parameters only, whatever the '
  'policy, action, advantage and ratio to the behaviour policy. The policy is evaluated in training mode with its own function state, q-functions with theirs. An update takes exactly the optimizer step on that gradient and changes nothing but the policy, '
  'hyperparameters and q-functions are read at the time of the update, and an update that would produce NaNs is refused without effect.',
  ['inputs', 'histories', 'configurations'],
  'all combinations of policy row x action x advantage x importance weight x log-ratio, each in its own state of one batch, for each objective, distribution and regularizer, also with policies and q-functions that depend on function state and evaluation mode; update sequences per optimizer',
  'The tests only check that parameters change.',
  ['coax/policy_objectives/', 'coax/regularizers/', 'coax/proba_dists/'],
  [('objective and optimizer step', 'PolicyObjective.update/grads_and_metrics/apply_grads, objective_func of VanillaPG/PPOClip/DeterministicPG/SoftPG')],
  ENUM_T, 'Complete over the listed rows; tabular policies give every row its own gradient entry, compared with an independently written loss.')

P('C20', 'All views of a value function, policy or model agree with each other',
  'For every observation and action of every supported kind of space, evaluating a function on a single state, a state-action pair, for all actions at once or on a batch gives the '
  'same numbers: those of the user\'s function applied to the encoded inputs with the value transform undone. Means, modes, samples and log-probabilities of '
  'distributional functions and models describe the distribution that is parametrized for that state and action. Calling a function evaluates it in inference mode with its own function state. A function whose signature or output does not fit the spaces is '
  'refused on construction.',
  ['inputs', 'configurations'],
  'grid of elements of seven observation and four action spaces x function type x value transform x preprocessor; peaked distributions for every state-action pair',
  'The tests check shapes on random inputs, hardly ever values.',
  ['coax/_core/', 'coax/utils/_misc.py', 'coax/proba_dists/'],
  [('conversion between function types and batching', 'Q/V/Policy/StochasticQ/StochasticV/TransitionModel/StochasticTransitionModel/RewardFunction __call__')],
  ENUM_T, 'Complete over the listed elements; the approximated functions are linear in an encoding computed independently by the oracle.')

P('C21', 'Policies act, and report log-probabilities, by the law they define',
  'Epsilon-greedy and Boltzmann policies give every action exactly the probability that follows from the q-values at that state (ties shared equally), for any epsilon or temperature and for '
  'every kind of q-function, and follow changes of the q-function and its function state, of epsilon or of the temperature at once. Whatever the action space, a sampled action is an element of it, the log-probability reported along '
  'with it is that of this very action, the mode is a most likely action, and uniformly random policies report the uniform log-probability. Samples are spread according to the distribution and are reproducible from the seed.',
  ['inputs', 'configurations'],
  'all rows of q-values over an alphabet (every tie) x kinds of q-function x epsilon/temperature; seven action spaces x parameters x a block of seeds',
  'The tests draw one action and check its type.',
  ['coax/_core/value_based_policy.py', 'coax/_core/base_stochastic_func_type2.py', 'coax/_core/policy.py', 'coax/_core/random_policy.py'],
  [('probabilities from q-values', 'EpsilonGreedy/BoltzmannPolicy'), ('sampling with log-probability', 'Policy.__call__/mode/dist_params'), ('uniform policy', 'RandomPolicy')],
  ENUM_T, 'Complete over the listed q-rows and seeds. The spread of samples is the one part that is decided on a fixed block of generator draws within seven sigma.')

P('C22', 'Distributions are consistent with the law they parametrize',
  'For every parametrization, the mode, mean, log-probability, entropy, cross-entropy and KL divergence of the categorical, normal, squashed-normal and discretized-interval distributions and their combinations '
  'over tuples and dicts are those of the mathematical distribution, with entropies and divergences of combinations adding up. Samples are spread by that law, the rows of a batch and the components of a combination independently of one another. Scaling and shifting a distribution gives the distribution of the scaled and shifted '
  'variable, projected onto the support if need be, without losing probability mass, also when a value transform is in between, and a quantile distribution samples and averages its own values.',
  ['inputs', 'configurations'],
  'all parameter rows over an alphabet (incl. extreme logits), all pairs of rows, grids of variates, scales and shifts',
  'Tests compare a few random parameters and skip most methods.',
  ['coax/proba_dists/'],
  [('closed forms', 'CategoricalDist/NormalDist/SquashedNormalDist/ProbaDist'), ('projection', 'DiscretizedIntervalDist.affine_transform'), ('quantiles', 'EmpiricalQuantileDist')],
  ENUM_T, 'Complete over the listed rows and grids.')

P('C23', 'Encoding elements of a space and back is lossless and stays in the space',
  'For every supported space (boxes of floating-point type), encoding any element as a variate of its distribution and decoding it again returns that element (up to rounding), singly and in batches, and decoding any variate whatsoever, saturated ones included, gives an element of '
  'the space with its shape and dtype. The default observation preprocessor encodes distinct elements distinctly, one-hot for discrete ones and unchanged for real ones, in the documented layout.',
  ['inputs', 'configurations'],
  'all intervals between 14 end points x 15 raw variates; all elements of a grid, incl. all bounds, of 21 spaces (Discrete spaces with any start included); raw variates, saturated ones included, in every leaf of each of them',
  'Tests round-trip a random sample of one or two spaces.',
  ['coax/proba_dists/', 'coax/utils/_array.py'],
  [('variates', 'preprocess_variate/postprocess_variate'), ('observation encoding', 'default_preprocessor')],
  ENUM_T, 'Complete over the listed elements.')

P('C24', 'A saved object carries on exactly as the original; a save never spoils a file',
  'Dumping any function, policy, learner, tracer, replay buffer, noise process, schedule or environment at any point of its history and loading it again (from a file or from bytes), or deep-copying it, gives an object that from then on behaves exactly as the original would have, '
  'random draws and optimizer state included, that is independent of the original, and whose parts share what they shared before. Whenever a dump to a file is cut short (by an exception, a full disk or a killed process, at any point), the path afterwards holds either the complete old content or the complete new one.',
  ['histories', 'crash_points'],
  'all histories up to a depth x all save points for nine kinds of stateful object, all save points of a history for 20 kinds of function and learner; every event and every written byte count of a save as a crash point',
  'Tests dump and load once, right after construction, and no test interrupts a save.',
  ['coax/utils/_misc.py', 'coax/utils/_jit.py', 'coax/_base/mixins/_serialize.py', 'coax/_base/mixins/_random_state.py'],
  [('serialization', 'dump/dumps/load/loads'), ('picklable jit', 'JittedFunc.__getstate__/__setstate__'), ('state of objects', 'RandomStateMixin, SerializeMixin')],
  'fault-injection model checking of the real implementation (every crash point and torn write of a save) and bounded exhaustive enumeration of histories x save points',
  'Complete within the history bound. Crash points: every Python-level event of the save and every byte count of the file being written.')

P('C25', 'The same seed gives the same behaviour, whatever else happens in the program',
  'Two objects made in the same way with the same random seed draw exactly the same sequence, however their uses are interleaved with each other, with other objects and with use or reseeding of the global random generators, and setting the seed again restarts the sequence. '
  'Initial parameters and whole training runs are functions of the seeds given, and different seeds give different sequences.',
  ['schedules', 'histories'],
  'all sequences of length 5 (thorough 6) of draws from two twins, disturbances and reseeding for 16 kinds of object; five training loops',
  'Reproducibility is a statement about all interleavings; tests fix one.',
  ['coax/_base/mixins/_random_state.py', 'coax/_core/base_func.py', 'coax/_core/random_policy.py', 'coax/experience_replay/', 'coax/utils/_action_noise.py', 'coax/utils/_segment_tree.py'],
  [('per-object random state', 'RandomStateMixin'), ('seeded samplers', 'replay buffers, SumTree, noise, policies, functions')],
  BFS_T, 'Complete within the depth.')

P('C26', 'Schedules, running averages and action noise follow their definitions',
  'A stepwise-linear schedule interpolates linearly between its points and is constant outside them, for every time step, and refuses malformed points. '
  'Rolling and exponential averages equal their defining averages after every prefix of any sequence of values, and Ornstein-Uhlenbeck noise follows its recursion, clips as documented, and starts afresh after a reset.',
  ['inputs', 'histories'],
  'all schedules over 5 times x 4 values; all value sequences of length 7 (thorough 9) x windows; all sequences of noise operations up to depth 6 (7)',
  'Tests evaluate one schedule and one noise path.',
  ['coax/utils/_array.py', 'coax/utils/_rolling.py', 'coax/utils/_action_noise.py'],
  [('schedule', 'StepwiseLinearFunction'), ('averages', 'RollingAverage/ExponentialAverage'), ('noise', 'OrnsteinUhlenbeckNoise')],
  ENUM_T, 'Complete within the bounds.')

P('C27', 'Array and tree helpers return exactly what they document for every input',
  'Argmax/argmin with random tie-breaking return a maximal/minimal element of every row and every tied one with equal chance; synchronizing shared parameters sets each module that occurs in several functions to the (weighted) average and leaves all others alone; '
  'unvectorized functions agree with the batched ones. Batching, unbatching, stacking, raveling, subsampling, merging, difference-transforming and chunking trees of arrays loses, repeats and reorders nothing, and a safe sample is always an element of the space, reproducible from the seed.',
  ['inputs', 'configurations'],
  'all rows over 5 values up to length 3 (4) x 60 keys; all assignments of 3 modules to up to 3 functions x weights; shapes and trees listed per helper; 17 spaces x 60 seeds',
  'Tests check single examples.',
  ['coax/utils/_array.py'],
  [('tie-breaking', 'argmax/argmin'), ('parameter sharing', 'sync_shared_params'), ('batching', 'single_to_batch/batch_to_single/unvectorize/stack_trees/tree_sample'), ('spaces', 'safe_sample')],
  ENUM_T, 'Complete over the listed inputs; equality of chances of tied elements is judged over a fixed block of keys.')

P('C28', 'Losses and value transforms equal their formulas, with weights, everywhere',
  'For every pair of true and predicted values (large ones included), the mean-squared, Huber, quantile-Huber and log losses return the documented weighted mean, with the corresponding gradient, finite wherever the formula is, and independent of how the batch is ordered or shaped. '
  'The logarithmic value transform and its inverse undo each other on all values, preserve order and sign, and behave like scaled versions of each other for any scale.',
  ['inputs'],
  'all pairs over 10 values x weights x parameters; batches of several shapes; grid of values for the transforms',
  'Tests compare one or two values.',
  ['coax/value_losses/', 'coax/value_transforms/'],
  [('losses', 'mse/huber/quantile_huber/logloss/logloss_sign'), ('transforms', 'LogTransform/ValueTransform')],
  ENUM_T, 'Complete over the listed values.')

P('C29', 'Model updates and successor-state q-values are exactly the documented ones',
  'Updating a transition model or reward function, deterministic or stochastic, over all actions at once or per action, with any sequence of batches takes exactly the optimizer step on the documented loss between prediction and (transformed) outcome, with the importance weights clipped to [0.1, 10] and the regularizer added, and refuses an update that is not a number in any of its parts, or an optimizer (state) of another kind, without changing anything. '
  'The successor-state q-function is r(s,a) + gamma E v(s\') for every combination of such models and value functions, whatever value transform each of them uses, and follows every change of its parts, their function states and of gamma at once. Stochastic reward functions honour their value range, number of bins, transform, preprocessors and seed.',
  ['inputs', 'configurations', 'histories'],
  'all combinations of model kinds, types and transforms; every successor function on 3 states x 2 actions; batches over every (s, a, outcome); sequences of 4 updates',
  'Tests only check that something changes, for a few combinations.',
  ['coax/model_updaters/_model_updater.py', 'coax/_core/successor_state_q.py', 'coax/_core/transition_model.py', 'coax/_core/stochastic_transition_model.py', 'coax/_core/reward_function.py', 'coax/_core/stochastic_reward_function.py'],
  [('model loss and update', 'ModelUpdater'), ('one-step look-ahead', 'SuccessorStateQ'), ('stochastic rewards', 'StochasticRewardFunction')],
  ENUM_T, 'Complete over the listed tables; sampled predictions are judged where the distribution is numerically a point mass.')

P('C30', 'Regularizers equal their formulas for every distribution and episode end',
  'The entropy regularizer is -beta times the entropy, the KL regularizer beta times the divergence from the given (or default) priors, for every stochastic function, distribution and change of beta, evaluated at the states (and actions) of the batch, with the function state given. '
  'The n-step entropy regularizer sums gamma^k times the entropy over exactly the requested steps k that still lie within the episode, wherever the episode ends and in whatever order the steps are listed, also on what the n-step tracer recorded.',
  ['inputs', 'configurations', 'histories'],
  'all table rows over an alphabet, 9-27 priors, 4 betas; all ordered selections of steps out of 4 x all positions of the episode end; tracer with n in 1..3 and episodes of 1..5 steps',
  'Tests evaluate one random batch.',
  ['coax/regularizers/'],
  [('regularization terms', 'EntropyRegularizer/KLDivRegularizer/NStepEntropyRegularizer'), ('evaluation on a batch', 'batch_eval')],
  ENUM_T, 'Complete over the listed rows.')

P('C31', 'Showing an episode plays it out faithfully; introspection answers are right',
  'Rendering an episode or recording it as a gif resets the environment once, asks the policy for an action in each current state, renders after every step and stops exactly when the episode terminates, is truncated or hits the step limit, without counting towards training. The recorded file shows those frames in order, in the requested size. '
  'Attribute look-up through wrappers finds the outermost occurrence within the given depth, or reports its absence, and the predicates for kinds of function approximators classify every kind correctly.',
  ['histories', 'configurations'],
  'episode lengths 1..6 x ways of ending x wrappings x limits; the attribute on every subset of up to 5 nested wrappers; all kinds of function',
  'None of this is tested.',
  ['coax/utils/_misc.py'],
  [('episode playback', 'render_episode/generate_gif'), ('wrapped attributes', 'has_env_attr/get_env_attr'), ('predicates', 'is_policy/is_qfunction/...')],
  ENUM_T, 'Complete within the bounds. Gifs are written to a scratch directory.')

P('C32', 'DeepMind-control environments are reproduced exactly behind the gym interface',
  'Every control-suite task made through make_dmc shows, step by step and for every seed, exactly the observations (all components, in order, as elements of the observation space), rewards and episode ends of the underlying task, cut off at the requested number of steps. '
  'Any sequence of making such environments gives each one the seed, step limit and rendering arguments it was asked for, and environments do not influence each other under any interleaving; resetting with a seed restarts from that seed.',
  ['configurations', 'histories', 'schedules'],
  '50 of the 51 tasks x 2 (thorough 4) seeds x 3 episodes; all sequences of up to 3 make calls x 4 argument sets; all interleavings of two environments',
  'None of this is tested.',
  ['coax/utils/_dmc_gym.py'],
  [('adapter', 'DmcGymWrapper'), ('spaces', 'spec_to_box/flatten_obs'), ('construction', 'make_dmc')],
  ENUM_T, 'Complete within the bounds; quadruped/escape needs an OpenGL context and is left out.')
