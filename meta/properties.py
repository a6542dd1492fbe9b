"""Single source of properties.jsonl.  python3 meta/properties.py rewrites it."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        a['state'] = [dict(name=n, meaning=m) for n, m in state]
    if observe:
        a['observe_at'] = list(observe)
    a['hook_needed'] = None
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()),
                  quantifier=dict(over=over, text=' '.join(text.split())),
                  why_tests_cant=' '.join(why.split()), anchors=a))


S = 'pybrain/structure/'
# ------------------------------------------------------------------------------------ networks
prop('N01', 'A feed-forward network computes exactly the function its graph denotes',
     """For every acyclic graph of modules and connections, in whatever order its parts were added, activating the
     network returns the composition of the module functions along the weighted connections, so each module sees the
     sum of what all its incoming connections deliver on the slices they name. The result depends only on the current
     input and parameters, never on earlier activations or backward passes (this holds for single modules, too), and sorting a network whose connections
     form a cycle is refused with an error.""",
     ['configurations', 'inputs', 'histories'],
     """all connection graphs on up to 4 modules (5 thorough), all insertion orders of modules and connections, all
     connection kinds and slices, all activation/backward histories up to the bound""",
     """The doctests activate a handful of fixed topologies once with one insertion order and compare with a literal;
     ordering and stale-buffer errors only show on particular graphs and second activations.""",
     [S + 'networks/network.py', S + 'networks/feedforward.py', S + 'modules/', S + 'connections/'],
     [('topological sort', 'Network._topologicalSort'), ('buffer handling', 'Module.activate/_resetBuffers'),
      ('connection transfer', 'Connection.forward')],
     [('inputbuffer/outputbuffer', 'per-module activation history')], ['Network.activate'])
prop('N02', 'A recurrent network computes its unrolled graph over any sequence',
     """Feeding a sequence to a recurrent network yields at every step what the explicitly unrolled network yields,
     where a recurrent connection delivers the previous step's output and nothing at the first step. After a reset the
     network behaves as if newly built whatever it processed before, sequence length is unbounded (buffers grow
     transparently), and running without history keeping gives the same outputs as running with it.""",
     ['configurations', 'histories', 'inputs'],
     """all placements of recurrent connections on small networks (plain, linear, gate, LSTM layers), all sequences over
     a small input alphabet up to length 5, all interleavings of activate/reset up to depth 6, lengths across every
     buffer-growth boundary up to 40""",
     """Tests run one recurrent topology over one sequence; time-offset, reset and buffer-growth errors need
     particular histories and lengths.""",
     [S + 'networks/recurrent.py', S + 'modules/module.py', S + 'modules/lstm.py'],
     [('time offset and buffer growth', 'RecurrentNetworkComponent._growBuffers/_forwardImplementation'),
      ('reset', 'RecurrentNetworkComponent.reset'), ('forget mode', 'forget / only the last step kept')],
     [('offset', 'current time step'), ('state buffers', 'LSTM cell state over time')], ['RecurrentNetwork.activate'])
prop('N03', 'Back-propagation yields the exact gradient for every topology and module kind',
     """For every differentiable network built from the library's layers and connections, feed-forward or recurrent,
     the derivative accumulated in each parameter by forward then backward passes equals the derivative of the output
     error with respect to that parameter, and the returned input error is the derivative with respect to the input.
     Derivatives add up over samples until they are cleared and are not influenced by passes made before a reset.""",
     ['configurations', 'inputs', 'histories'],
     """every module kind x every connection kind x small topologies (chains, diamonds, shared weights, slices,
     recurrent loops) x sequences up to length 3 x clear/accumulate histories""",
     """The gradient check of the test-suite runs on a few networks at random parameters and is part of doctests that
     are mostly single-topology.""",
     [S + 'modules/', S + 'connections/', S + 'networks/network.py', S + 'networks/recurrent.py',
      'pybrain/tools/validation.py' if False else 'pybrain/tests/helpers.py'],
     [('module backward implementations', 'Module._backwardImplementation'),
      ('connection backward', 'Connection._backwardImplementation'), ('shared weights', 'SharedConnection / MotherConnection')],
     [('derivs', 'accumulated parameter derivatives')], ['Module.backward', 'ParameterContainer.derivs'])
prop('N04', 'A network and its parts always share one parameter vector',
     """After a network is sorted its parameter and derivative vectors are the concatenation of those of its modules and
     connections, and the two views alias: writing either one in place or through a parameter assignment is immediately
     visible in the other and in the next activation. This stays true through any sequence of adding parts, re-sorting,
     nesting, copying, assigning or randomising parameters and training steps, and containers with shared weights count
     once.""",
     ['histories', 'configurations'],
     """all sequences up to depth 4 of add module / add connection / sort / set parameters / in-place write / randomise /
     copy / nest on flat, shared-weight and nested networks""",
     """Tests compare values after construction only; losing the alias is silent until some later write, and depends on
     the operation history.""",
     [S + 'parametercontainer.py', S + 'networks/network.py', S + 'connections/shared.py'],
     [('parameter ownership', 'ParameterContainer._setParameters(owner)'), ('re-concatenation', 'Network.sortModules')],
     [('_params/_derivs/owner', 'flat arrays and who owns them')], ['params', 'derivs'])
prop('N05', 'Saving, copying and pickling a network preserves its function and isolates it',
     """Writing a network to XML and reading it back, pickling and unpickling it, or copying it gives a network with the
     same structure, names and input-output function, including recurrent, shared-weight, bias, sliced and nested
     networks. Any number of networks can be kept in one file without disturbing each other, and changing the result's
     parameters or activating it leaves the original untouched (and the reverse).""",
     ['configurations', 'histories', 'inputs'],
     """every layer kind and connection kind of the library in small networks, all sequences of write/append/read of up
     to 3 networks in one file, all copy/pickle/activate histories of depth 3""",
     """The XML tests round trip five fixed networks; per-kind constructor arguments and file-append histories are not
     covered.""",
     ['pybrain/tools/customxml/', S + 'networks/network.py', S + 'evolvables/evolvable.py', 'pybrain/utilities.py'],
     [('writer/reader', 'NetworkWriter / NetworkReader'), ('argdict', 'Module/Connection.argdict'),
      ('copy', 'Network.copy')], (), ['NetworkReader.readFrom', 'Network.copy'])
prop('N06', 'Network constructors build the structure their configuration asks for',
     """Building a network from layer sizes and options yields the requested layers, sizes, kinds, bias and recurrent
     connections, full connectivity between successive layers, and nothing else, with all parameters registered and
     initialised. Multi-dimensional constructors (meshes, swiping, bidirectional, convolutional networks) connect each
     unit to its defined neighbours only, in every direction, with exactly the weights shared that the construction
     declares shared.""",
     ['configurations'],
     """all layer-size tuples up to length 4 with sizes 1..3 times every combination of options; all mesh shapes up to
     3x3(x2), all board sizes, sequence lengths and sharing options up to the bound""",
     """Tests instantiate one configuration of each constructor; the option product and asymmetric dimensions are not
     reached.""",
     ['pybrain/tools/shortcuts.py', S + 'networks/swiping.py', S + 'networks/borderswiping.py',
      S + 'networks/bidirectional.py', S + 'networks/convolutional.py', S + 'modulemesh.py', S + 'networks/multidimensional.py'],
     [('option handling', 'buildNetwork/_buildNetwork'), ('mesh indexing', 'ModuleMesh'), ('weight sharing', 'MotherConnection')],
     (), ['params count, modules, connections, activate'])
prop('N07', 'Evolvable parameter containers stay consistent under mutation and masking',
     """A masked parameter vector reads as zero wherever its mask is off, never has more parameters on than its maximal
     complexity and always at least one, and keeps the values of switched-off parameters for when they return. Mutation
     changes values only, topology mutation changes the mask only, and copies behave independently of each other although they
     share the container or module underneath. Splitting a network into per-neuron parameter pieces puts every
     weight in the piece of its neuron, and writing the pieces back reproduces the same vector.""",
     ['histories', 'schedules'],
     """all sequences up to depth 4 of mutate / topology-mutate / randomise / copy / write under every outcome of the
     random draws, for masks up to 4 parameters and every complexity limit""",
     """Mutation outcomes are random; tests see one draw. Limits are hit only on particular draw sequences.""",
     [S + 'evolvables/', S + 'networks/neurondecomposable.py'],
     [('mask application', 'MaskedParameters._applyMask'), ('flip/limit', 'MaskedParameters.mutate/topologyMutate'),
      ('decomposition', 'NeuronDecomposableNetwork')], [('mask, maskableParams', 'on/off bits and shadow values')], ['params'])

# ------------------------------------------------------------------------------------ datasets
D = 'pybrain/datasets/'
prop('D01', 'A data set is a list of linked rows under any operation history',
     """Whatever sequence of adding, linking, unlinking, clearing, assigning and resetting is performed, a data set
     returns exactly the rows appended to each field, in order, with linked fields having equal length and iteration
     visiting each row once. Capacity growth is invisible, an operation that is refused leaves the contents as they
     were, and copies do not share storage.""",
     ['histories'],
     """all operation sequences up to depth 5 over a small alphabet on data sets with 1-3 fields of dimension 1-2, and
     appends across every capacity-growth boundary up to 40 rows""",
     """Unit tests exercise a few fixed sequences; cursor, end-marker and growth bugs need particular interleavings.""",
     [D + 'dataset.py', D + 'supervised.py', D + 'unsupervised.py', D + 'importance.py', D + 'reinforcement.py'],
     [('end markers', 'DataSet.endmarker'), ('growth', 'DataSet._resizeArray/_appendUnlinked'), ('linking', 'DataSet.link')],
     [('data, endmarker, link, index', 'arrays, fill level, linked names, cursor')], ['__getitem__, getLinked, __iter__'])
prop('D02', 'A sequential data set is a list of sequences under any operation history',
     """Whatever sequence of opening sequences, adding samples, removing sequences, clearing and iterating is performed,
     the data set reports the sequence count, lengths and contents of a plain list of lists. Walking it by sequence, by
     sample, by goto/end-of-sequence cursor or by sequence iterator gives the same content in the same order, and
     opening a sequence while the last one is empty does not create another.""",
     ['histories'],
     """all operation sequences up to depth 6 (7 thorough) over add/newSequence/removeSequence(i)/clear/goto/next, with
     every reachable dataset inspected through every accessor""",
     """Tests build one dataset; index bookkeeping after removals, empty sequences and cursors depends on the history.""",
     [D + 'sequential.py', D + 'importance.py', D + 'reinforcement.py', D + 'sequenceclassification.py' if False else D + 'classification.py'],
     [('sequence index', 'SequentialDataSet.newSequence/removeSequence'), ('field slicing', 'SequentialDataSet._getSequenceField')],
     [('sequence_index, currentSeq', 'start offsets and cursor')], ['getSequence, getNumSequences, getSequenceLength'])
prop('D03', 'Splits, batches and folds partition the data exactly',
     """Splitting a data set by proportion, sampling batches, shuffling and building cross-validation folds put every
     sample in exactly one part for every outcome of the random permutation, with the requested sizes and with input
     and target of a sample kept together. Sequences are never cut or mixed by a split, and the original data set is
     unchanged.""",
     ['inputs', 'schedules', 'configurations'],
     """all data set sizes up to 6 (7 thorough), all proportions, fold counts and batch sizes, and all permutations drawn
     by the shuffler""",
     """Shuffles are random; tests check one draw or only lengths. Off-by-one loss of a row shows at particular sizes.""",
     [D + 'dataset.py', D + 'supervised.py', D + 'sequential.py', D + 'classification.py', 'pybrain/tools/validation.py', 'pybrain/tools/datasettools.py'],
     [('split', 'splitWithProportion'), ('batches', 'DataSet.batches/randomBatches'), ('folds', 'CrossValidator.validate')],
     (), ['returned parts'])
prop('D04', 'Saving and loading a data set reproduces it',
     """Saving any data set in any supported format and loading it, pickling it, or deep-copying it reproduces class,
     field names, dimensions, contents, links, sequence structure, class labels and cursor-independent state. Saving
     does not alter the data set being saved, and a loaded data set can be extended like the original.""",
     ['configurations', 'histories'],
     """every data set class x contents reachable by up to 3 operations x format/compression option x a following
     operation""",
     """Only one or two classes are saved in tests, in one format, and never used after loading.""",
     [D + 'dataset.py', 'pybrain/utilities.py', D],
     [('serialisation', 'Serializable.saveToFile/loadFromFile, DataSet.save_pickle/load_pickle/__reduce__')], (), ['loaded copy'])
prop('D05', 'Class-label and window conversions of data sets lose no information',
     """Converting class labels to one-of-many targets and back restores them, class counts and class names always match
     the stored labels, and splitting by class or assigning classes partitions the samples by their label. Conversions
     between sequence and windowed form keep every value in order.""",
     ['inputs', 'histories', 'configurations'],
     """all label vectors up to length 5 over up to 3 classes, all bounds and class-name options, all conversion
     sequences up to depth 3, all sequence-length tuples and window sizes up to the bound""",
     """Fixed examples only; missing classes, non-contiguous labels, repeated conversion and short sequences are not
     covered.""",
     [D + 'classification.py', 'pybrain/tools/datasettools.py'],
     [('one-of-many', 'ClassificationDataSet._convertToOneOfMany/_convertToClassNb'), ('statistics', 'calculateStatistics')],
     [('nClasses, class_labels, classHist', 'label statistics')], ['targets, class fields'])

# ------------------------------------------------------------------------------------ training
T = 'pybrain/supervised/trainers/'
prop('T01', 'Back-propagation training performs the documented weight updates',
     """One training epoch visits every sequence of the data set exactly once, in any shuffled order, and applies after
     each sequence (or once per epoch in batch mode) the gradient step with the configured learning rate, momentum,
     learning-rate decay and weight decay; the reported error is the average (importance-weighted) error. Evaluating on
     data never changes the weights.""",
     ['schedules', 'configurations', 'histories'],
     """every visiting order of data sets up to 4 samples x learning-rate/decay/momentum/weight-decay/batch settings x
     plain, importance and sequential data x up to 3 epochs""",
     """Tests look only at whether an error goes down for one shuffle.""",
     [T + 'backprop.py', T + 'trainer.py', 'pybrain/auxiliary/gradientdescent.py'],
     [('epoch loop', 'BackpropTrainer.train'), ('derivative accumulation', 'BackpropTrainer._calcDerivs'), ('descent', 'GradientDescent.__call__')],
     [('derivs, momentum vector, alpha', 'descent state')], ['module.params, returned error'])
prop('T02', 'Gradient step rules follow their definition on every gradient history',
     """Plain descent with momentum and decaying step size and resilient propagation turn every sequence of gradients
     into exactly the parameter sequence of their definitions: resilient step sizes grow on equal signs, shrink on sign
     changes, stay put on zero, and never leave their bounds. Re-initialising forgets all history.""",
     ['histories', 'configurations'],
     """all gradient-sign histories up to length 6 (8 thorough) in one and two dimensions x all hyper-parameter settings""",
     """Tests run one training; saturation and sign-change-then-zero cases need particular gradient histories.""",
     ['pybrain/auxiliary/gradientdescent.py', T + 'rprop.py'],
     [('RProp+ step', 'GradientDescent.__call__ rprop branch'), ('momentum', 'GradientDescent.__call__')],
     [('rprop_theta, lastgradient, momentumvector, alpha', 'descent memory')], ['GradientDescent.values'])
prop('T03', 'Training until convergence keeps the best weights and honours its limits',
     """Training until convergence never trains more epochs than its limit (one is always trained), stops as soon as the
     validation errors of the last window of epochs all exceed those of the window before or no longer differ, restores
     the parameters of the epoch with the lowest validation error, and reports the errors measured up to it. The training and validation parts it uses are disjoint and cover the data given to it.""",
     ['histories', 'fault_sequences', 'configurations'],
     """every sequence of validation errors over a 3-value alphabet up to length 6 played by an instrumented trainer x
     all patience/limit settings""",
     """A real training run gives one error curve; stop/restore mistakes need specific curves such as late improvement
     or plateaus.""",
     [T + 'backprop.py', T + 'trainer.py'],
     [('early stopping', 'BackpropTrainer.trainUntilConvergence'), ('train/validation split', 'splitWithProportion')], (), ['module.params after the call, returned errors'])

prop('T04', 'Evolino evolves by its operators and fits its output weights exactly',
     """Washing out and generating sequences follow the recurrent LSTM network with its scaled back-projection, for every history of
     calls, and output weights minimise the squared error over the part of each sequence after its washout, whose share
     is the documented ratio. Every chromosome is built into individuals equally often and gets their best fitness; selection keeps exactly the fittest,
     reproduction fills up with mutated copies of the best, burst mutation keeps the best one and runs after exactly
     the given number of epochs without a gain. After an epoch the network is the best individual of that epoch.""",
     ['histories', 'schedules', 'configurations'],
     """all histories of up to 3 calls (4 thorough) on networks of up to 2 outputs and cells, all population histories of depth 4,
     all fitness assignments and parent counts for up to 4 individuals, all draws of combinations of up to 3 parts, all fitness histories of 5 epochs""",
     """The only test trains once and checks that the error is small; populations and operators are random and never inspected.""",
     [T + 'evolino.py', 'pybrain/supervised/evolino/', 'pybrain/structure/modules/evolinonetwork.py'],
     [('network', 'EvolinoNetwork.washout/generate/setGenome'), ('regression', 'EvolinoEvaluation'), ('operators', 'EvolinoSelection, EvolinoReproduction, EvolinoBurstMutation'),
      ('epochs', 'EvolinoTrainer.train')],
     [('sub-populations', 'chromosomes with their best fitness')], ['population members and fitness, network outputs and weights'])

# ------------------------------------------------------------------------------------ RL
R = 'pybrain/rl/'
prop('R01', 'Experiments and agents keep one faithful interaction history',
     """For every number of interactions and every interleaving of episodes, resets and learning phases, an agent's
     history holds exactly the (observation, action, reward) triples that occurred, in order and grouped by episode, and
     the environment received exactly the actions the agent issued. Protocol violations (rewarding before acting, acting
     before observing) are refused, and disabling logging records nothing.""",
     ['histories', 'configurations'],
     """all operation sequences up to depth 6 of interactions/episodes/newEpisode/reset/learn/logging switches over an
     environment with recorded actions, for plain, episodic, queued and continuous experiments""",
     """Existing tests never inspect the recorded history; grouping errors need several episodes and interleavings.""",
     [R + 'agents/', R + 'experiments/', R + 'environments/task.py', D + 'reinforcement.py'],
     [('three-step protocol', 'LoggingAgent.integrateObservation/getAction/giveReward'), ('loops', 'Experiment/EpisodicExperiment')],
     [('lastobs, lastaction, lastreward, history', 'agent buffers')], ['agent.history, env actions'])
prop('R02', 'Value-based learners apply their textbook update on every history',
     """On every finite interaction history, Q-learning, SARSA, Q(lambda), neural fitted Q and their linear-function-approximation
     variants change the action values exactly as their update rule prescribes from the recorded states, actions and
     rewards, the tabular learners never across an episode boundary, and touch no other entry. A greedy module always picks
     an action of maximal value, with ties broken arbitrarily.""",
     ['histories', 'configurations'],
     """all histories over 2 states x 2 actions x 2-3 rewards of up to 4 steps (5 thorough), every split into episodes, several
     learning-rate/discount/trace settings, batch and online mode""",
     """Only end-to-end convergence is sampled in examples; wrong successor, wrong discounting or cross-episode updates
     hide in averages.""",
     [R + 'learners/valuebased/'],
     [('updates', 'Q.learn, SARSA.learn, QLambda.learn'), ('table', 'ActionValueTable')],
     [('laststate, lastaction, lastreward', 'learner memory'), ('params', 'action values')], ['ActionValueTable.params'])
prop('R03', 'Model-based policy evaluation and iteration are exact',
     """For every finite Markov decision process, the computed state and action values of a policy solve the Bellman
     equation of that policy up to the cut-off of the discounted sum, and policy iteration returns a policy no other policy improves on. Values computed from a
     process and from its collapsed transition matrices agree.""",
     ['inputs', 'configurations'],
     """every deterministic and half-half stochastic MDP with 2 states x 2 actions (3 x 2 thorough), every reward vector over a
     small alphabet, discounts {0, 0.5, 0.9}, compared with all policies""",
     """No test covers it; ties, absorbing states and zero discount are corner inputs.""",
     [R + 'learners/modelbased/policyiteration.py', R + 'learners/modelbased/leastsquares.py'],
     [('Bellman solution', 'trueValues/trueQValues'), ('improvement', 'policyIteration')], (), ['returned values and policy'])
prop('R04', 'Explorers only perturb actions as their exploration scheme allows',
     """An exploring agent takes the greedy action whenever the random draw says so and otherwise one of the available
     actions, each reachable, with the exploration rate decaying as configured; with exploration switched off the
     greedy action is always taken. Sampling an index from a probability vector picks each index on exactly its share of the unit
     interval.""",
     ['schedules', 'configurations', 'histories'],
     """every outcome of every random draw (menus around each decision threshold), all action-value orderings over 3
     actions, all settings of rate and decay, up to 3 consecutive actions""",
     """Stochastic code: tests see single draws.""",
     [R + 'explorers/', R + 'agents/learning.py', 'pybrain/utilities.py'],
     [('epsilon-greedy', 'EpsilonGreedyExplorer'), ('softmax', 'BoltzmannExplorer'), ('sampling', 'drawIndex/drawGibbs')],
     [('epsilon, tau', 'decaying rates')], ['agent.getAction'])
prop('R05', 'Maze navigation follows its map for every action sequence',
     """From every free cell, every action moves the agent to exactly the adjacent cell its direction denotes when that
     cell is free and leaves it in place otherwise, in plain and heading-relative mazes, with slippage and
     blocked-action probabilities applied as configured. Observations name the walls around (and the heading) the
     agent really has, resetting returns to a legal start cell, and reward and end of episode occur on the goal cell
     only.""",
     ['histories', 'configurations', 'schedules'],
     """all reachable states x all actions x all random outcomes on every wall layout of small mazes and on the library's
     maze tasks (plain, polar, MDP, cheese, T-maze lengths, 4x3, 89-state, Sutton)""",
     """No test covers mazes; transitions and slip branches are random and state dependent.""",
     [R + 'environments/mazes/'],
     [('moves', 'Maze.performAction/_moveInDir'), ('heading', 'PolarMaze'), ('goal handling', 'MazeTask')],
     [('perseus, perseusDir', 'agent position and heading')], ['getSensors, getReward, isFinished'])
prop('R06', 'POMDP task rewards and observations match their process definition',
     """In the tiger, shuttle and related partially observable tasks, every action in every hidden state yields one of
     the observations and exactly the reward and successor its definition assigns, for every random outcome, until the
     episode ends. Observations are drawn from the states' noise model and each episode starts in one of the defined
     starting states.""",
     ['histories', 'schedules'],
     """complete state graphs: all hidden states x all actions x all random outcomes up to the episode horizon""",
     """Untested, random and history dependent.""",
     [R + 'environments/mazes/tasks/'],
     [('tiger', 'TigerTask'), ('shuttle', 'ShuttleEnv/ShuttleTask'), ('t-maze', 'TMaze/TMazeTask')],
     [('hidden state', 'tiger position, docking state, maze cell')], ['getObservation, getReward, isFinished'])
prop('R07', 'Tasks convert, accumulate and terminate consistently',
     """A task's sensor normalisation and actuator de-normalisation are inverse linear maps onto the declared limits, an
     episodic task's cumulative reward is the (discounted) sum of exactly the rewards since the last reset, and an
     episode ends exactly when its end condition first holds. Evaluating an agent on an episodic task resets task and agent first and
     returns that cumulative reward, averaged over the requested number of trials.""",
     ['histories', 'inputs', 'configurations'],
     """all reward sequences over a small alphabet up to length 5, all reset placements, all limit combinations incl.
     None, discounts {1, 0.5}, trial counts 1..3""",
     """Tests do not cover accumulation across resets or partial limits.""",
     [R + 'environments/task.py', R + 'environments/episodic.py', R + 'environments/episodic.py', R + 'experiments/episodic.py',
      R + 'environments/cartpole/balancetask.py'],
     [('normalisation', 'Task.normalize/denormalize'), ('accumulation', 'EpisodicTask.addReward/reset'), ('evaluation', 'EpisodicTask.f')],
     [('cumreward, samples', 'episode accumulators')], ['getTotalReward, getObservation'])
prop('R08', 'The capture game follows the rules of go-capture on every game',
     """On every board size and for every sequence of moves, stone groups and their liberties are those of the go rules:
     a move is legal exactly on an empty point that is not suicide, the first capture ends the game in favour of the
     right player, and an illegal move changes nothing. Lists of legal, acceptable and killing moves contain exactly
     the points with that property in the current position.""",
     ['histories', 'configurations'],
     """every game on 2x2 and 3x3 boards (all reachable positions, all moves), bounded-depth games on larger boards
     and from dense starting positions; every position compared with an independent liberty count""",
     """The doctest plays two games; group merging and liberty bookkeeping depend on move order.""",
     [R + 'environments/twoplayergames/capturegame.py'],
     [('group union and liberties', 'CaptureGame._collectNeighbours/_setStone/updateGroups')],
     [('map, groups, liberties', 'board and incremental group data')], ['getBoardArray, getLegals, getKilling, winner'])
prop('R09', 'Gomoku and pente follow their rules on every game',
     """In every sequence of moves a stone is placed exactly on the free point named, players alternate, five (or more)
     in a row in any direction wins immediately and nothing else does; in pente flanked pairs are removed in all eight
     directions and five captured pairs win. A full board without a winner is a draw, and moves on occupied
     points are refused without effect.""",
     ['histories', 'configurations'],
     """all line placements and approach directions on 5x5..7x7 boards, all games of bounded depth from seeded near-win and
     near-capture positions, full-board draws, compared with an independent rule oracle on every position""",
     """The doctests play one or two fixed games; direction and border cases are combinatorial.""",
     [R + 'environments/twoplayergames/gomoku.py', R + 'environments/twoplayergames/pente.py'],
     [('five in a row', 'GomokuGame._fiveRow/getKilling'), ('pair capture', 'PenteGame._killing/doMove')],
     [('map, movesDone, pairsTaken', 'board and counters')], ['getBoardArray, winner, gameOver'])
prop('R10', 'Game players and tournaments only play and count legal, completed games',
     """Every built-in player always answers with a legal move of its own colour in any position where one exists, and
     killing players take a winning move when there is one. A tournament plays every ordered pairing the requested number of times
     and its win/draw table and ratings count each finished game exactly once for the right agent. The two-player tasks alternate
     moves and starting sides as set and score a won game positively, a lost one negatively and a draw as zero, averaged over the games.""",
     ['histories', 'schedules', 'configurations'],
     """all positions of small boards up to a depth x all random outcomes of each player; tournaments over scripted
     agents with every outcome pattern for up to 3 agents""",
     """Players are random; tests see a few games.""",
     [R + 'environments/twoplayergames/', R + 'experiments/tournament.py'],
     [('move choice', 'Random/Killing/Nonsuicide players'), ('bookkeeping', 'Tournament._oneGame/organize')],
     [('results table', 'outcomes per pairing')], ['getAction, results, eloScore'])

# ------------------------------------------------------------------------------------ optimisation
O = 'pybrain/optimization/'
prop('O01', 'Optimisers report the best point they evaluated and respect their limits',
     """Whatever values the objective returns, every black-box optimiser reports as best exactly a point it really
     evaluated with the best value seen, under minimisation and maximisation alike. It starts no learning step that would
     exceed the evaluation limit or the learning-step limit, nor one after the desired value was reached, continues where
     it stopped when asked to learn further, and ends quietly with the best finite value when the objective
     returns a non-finite one. When asked to store evaluations it stores exactly the evaluated points and values in order.""",
     ['fault_sequences', 'histories', 'configurations', 'schedules'],
     """every sequence of objective answers over a 3-value alphabet (ties, improvements, regressions) up to 5-6
     evaluations x every optimiser x min/max x limits x storage options""",
     """Tests run each optimiser on one smooth function; ties, late bests and exact limits need chosen answers.""",
     [O + 'optimizer.py', O],
     [('evaluation wrapper', 'BlackBoxOptimizer._oneEvaluation'), ('stop test', '_stoppingCriterion'), ('sign handling', '_setMinimizing/opposite')],
     [('bestEvaluation, bestEvaluable, numEvaluations', 'search records')], ['learn() result'])
prop('O02', 'Minimising is the mirror image of maximising',
     """Running any optimiser to minimise a function visits exactly the points that it visits when maximising the negated
     function with the same random draws, and reports the negated best value. Starting points, parameter containers and
     plain vectors passed in are interpreted identically and never modified by the search.""",
     ['configurations', 'schedules', 'inputs'],
     """every sequence of objective answers (5-7 free ones) x every optimiser x dimensions 1-3 x start kinds (list, float and
     integer vector, container, network, none) x ways of setting the direction x evaluator kinds, under scripted draws""",
     """No test compares the two directions.""",
     [O + 'optimizer.py', O, R + 'environments/functions/transformations.py'],
     [('direction flip', 'BlackBoxOptimizer.minimize / wrapping')], (), ['sequence of evaluated points'])
prop('O03', 'Population methods keep their selection, elitism and bound invariants',
     """Evolution strategies, genetic algorithms and particle swarms keep the configured population sizes, breed only from
     the fittest as defined by their scheme, keep elites when elitist, and, with bounds given, genetic algorithms evaluate only
     points within them and particles start within them. Particles move by inertia towards the best point they
     visited themselves and the best evaluated one among their neighbours. Hill climbers and their relatives move
     only to candidates that are accepted by their acceptance rule, and ranking functions keep the order of fitnesses.""",
     ['schedules', 'fault_sequences', 'configurations'],
     """every outcome of mutation/crossover/selection draws and every objective answer over a small alphabet for
     populations up to 4 and 2-3 generations""",
     """Random and objective dependent; tests see one run.""",
     [O + 'populationbased/', O + 'hillclimber.py', 'pybrain/tools/rankingfunctions.py'],
     [('generation step', 'GA/ES/ParticleSwarm'), ('acceptance', 'HillClimber/StochasticHillClimber')],
     [('currentpop, fitnesses, particles', 'population')], ['evaluated points, population'])
prop('O04', 'Pareto fronts and ranks are exact',
     """For every finite set of objective vectors, the non-dominated front is exactly the set of vectors no other vector
     dominates and non-dominated sorting ranks each vector by repeatedly peeling such fronts. Crowding distances
     are infinite at the extremes, finite and non-negative inside, and multi-objective evolution keeps the population size and always keeps
     a non-dominated subset that fits, of a front that does not fit the least crowded.""",
     ['inputs', 'schedules'],
     """every multiset of up to 5 (6 thorough) vectors over a 3x3 objective grid and up to 4 over 2x2x2, with duplicates, all input
     orders and all algorithm variants""",
     """Only one example function is run; ties and duplicates are corner inputs.""",
     ['pybrain/tools/nondominated.py', O + 'populationbased/multiobjective/'],
     [('dominance', 'non_dominated_front/non_dominated_sort'), ('selection', 'MultiObjectiveGA')], (), ['returned fronts, populations'])
prop('O05', 'Finite-difference and distribution-based search follow their estimators',
     """With any sequence of random perturbations, finite-difference methods probe exactly the symmetric perturbations of
     the current point and move along the estimated gradient, and distribution-based methods update their centre and spread as
     their published update says from the ranked samples they evaluated. Equal fitness for all
     samples leaves the centre where symmetric perturbation makes the estimate zero.""",
     ['schedules', 'inputs', 'configurations'],
     """every sign pattern / scripted draw for SPSA, FD, PGPE in dimension 1-3 over 2-3 steps; scripted draws and all
     fitness rank orders for CMA-ES, SNES, xNES centre updates with small batches""",
     """Stochastic; only end performance is ever sampled.""",
     [O + 'finitedifference/', O + 'distributionbased/'],
     [('perturb and estimate', 'FiniteDifferences/SPSA/PGPE'), ('natural gradient step', 'SNES/XNES')], [('current, sigma', 'search distribution')],
     ['evaluated points, centre after each step'])
prop('O06', 'Benchmark functions and their transformations keep their optimum',
     """Every benchmark function attains its declared optimum value at its declared optimum point for every supported
     dimension and nothing lower on the explored grid, and translating, rotating, negating, capping or combining a
     function transforms value and optimum accordingly. Evaluating a function never modifies its argument.""",
     ['configurations', 'inputs', 'schedules'],
     """every function of the library x dimensions 1-4 x a point grid x every transformation and composition of two""",
     """Tests do not evaluate transformed or composed functions, or non-default dimensions.""",
     [R + 'environments/functions/'],
     [('optimum', 'FunctionEnvironment.xopt/desiredValue'), ('wrapping', 'transformations')], (), ['function values'])

prop('O07', 'Coevolution ranks individuals by the games that were actually played',
     """Every relative evaluation is one counted step in the books, scores between two individuals and overall are averages over their
     recorded games, and competitive sharing and shared sampling follow from those scores. A tournament
     lets every individual meet the agreed number of distinct others, never itself, in both directions. A generation enters the best
     individual into the hall of fame, keeps the population size, reproduces the best-scoring share (survivors untouched), and learning stays within
     its step and generation limits.""",
     ['schedules', 'configurations', 'histories'],
     """every sequence of games over 3 players, every win/draw/loss matrix up to 3x3, every outcome of selection, sampling and reproduction
     draws, every population and tournament size up to the bound""",
     """No test imports the package.""",
     ['pybrain/optimization/populationbased/coevolution/'],
     [('books', 'Coevolution._relEval/_beats/_globalScore'), ('tournament', 'Coevolution._doTournament'),
      ('sharing', '_competitiveSharedFitness/_sharedSampling'), ('reproduction', '_selectAndReproduce'), ('limits', 'learn/_stepsPerGeneration')],
     (), ['allResults', 'populations', 'hall of fame', 'steps'])

# ------------------------------------------------------------------------------------ tools
prop('U01', 'Combinatorial helpers enumerate exactly what they promise',
     """The permutation, combination, cross-product, gray-code, binary and one-of-n helpers produce each
     element exactly once, in the documented form, and encodings invert their decodings. A reachability search
     returns exactly the destinations reachable without passing through another destination, with their true distances, and flooding
     exactly the connected elements; both leave their arguments intact.""",
     ['inputs'],
     """all inputs up to the bound: all n up to 256, all lists up to length 5, all directed graphs on up to 4 nodes with all start
     sets""",
     """Doctests check one or two arguments each.""",
     ['pybrain/utilities.py'],
     [('codes', 'toGray-style helpers'), ('search', 'reachable/flood')], (), ['return values'])
prop('U02', 'Grid search visits each grid point exactly once',
     """A grid search over any bounds and resolution evaluates every point of its grid exactly once, refines around the best known points, and
     reports the best recorded parameter setting. The work list it produces never repeats or skips a point however the
     refinement levels overlap.""",
     ['configurations', 'histories'],
     """all bounds and step combinations up to a 5x5 grid and every level of refinement""",
     """Needs an external SVM library, so no test runs it.""",
     ['pybrain/tools/gridsearch.py'],
     [('job list', 'GridSearch2D._permuteSteps/_rangeF')], (), ['job list'])
prop('U03', 'Error and validation measures equal their definitions',
     """Hit rate, mean squared error and sum of squared errors, module and sequence validation and n-fold cross-validation
     return exactly the defined measure of outputs against targets for every input, with each sequence validated from
     a fresh module state. Malformed shapes are refused.""",
     ['inputs', 'configurations', 'histories'],
     """all output/target arrays over a small alphabet up to 2x3, all sequence-boundary vectors, all module histories of
     length 2 before validation""",
     """Doctests use single arrays.""",
     ['pybrain/tools/validation.py', 'pybrain/tools/neuralnets.py', T + 'backprop.py'],
     [('measures', 'Validator'), ('module evaluation', 'ModuleValidator, testOnSequenceData')], (), ['returned values'])
prop('U04', 'Fitness shaping and selection depend on ranks alone',
     """Rank-based fitness transformations are invariant under any order-preserving change of the
     fitnesses and equivariant under permutation, select the configured numbers, and never favour a worse individual
     over a better one.""",
     ['inputs', 'configurations'],
     """all weak orders of up to 4 (5 thorough) fitness values x all permutations x all settings""",
     """No tests.""",
     ['pybrain/tools/rankingfunctions.py', 'pybrain/utilities.py'],
     [('ranking', 'rankedFitness, RankingFunction subclasses')], (), ['returned weights'])
prop('U05', 'Approximate nearest-neighbour lookup only returns true stored candidates',
     """For every history of insertions, querying a hash index returns only stored entries that share a bucket with the
     query, always includes an exact duplicate of the query, and orders neighbours by distance.""",
     ['histories', 'schedules', 'inputs'],
     """all insertion sequences up to length 4 over a small point alphabet x several hash draws""",
     """Doctests insert one fixed set.""",
     ['pybrain/supervised/knn/lsh/'],
     [('buckets', 'MinHash/MultiDimHash.put/knn')], [('hash tables', 'bucket -> entries')], ['knn results'])
prop('U06', 'The UDP exchange delivers every message to every connected peer',
     """In the UDP server/client exchange, every client that has connected receives each later message sent by the server
     completely and unchanged, in order, whatever the interleaving of connects, sends and receives, and a client message
     reaches the server unchanged. A client connects once.""",
     ['schedules', 'histories'],
     """all interleavings of up to 2 clients and 3 messages over an in-memory loopback of the socket layer""",
     """No tests; needs interleavings of several peers.""",
     ['pybrain/tools/networking/udpconnection.py'],
     [('client registry', 'UDPServer.addClient/listen/send')], [('addrList, clients', 'registered peers')], ['bytes received'])
prop('U07', 'Generic storage and option helpers are faithful',
     """Pickled dictionaries and objects read back equal to what was written, option processing applies each given option
     or its default and refuses unknown or conflicting ones as documented, and memoised or dictionary-matching helpers
     return what the plain computation returns.""",
     ['inputs', 'histories'],
     """all option subsets of a small declaration set, all dictionaries up to 2 keys x 2 alternatives, all write/read
     histories of depth 3""",
     """One or two fixed examples.""",
     ['pybrain/tools/kwargsprocessor.py', 'pybrain/tools/filehandling.py', 'pybrain/utilities.py'],
     [('files', 'pickleDumpDict/pickleReadDict'), ('options', 'KWArgsProcessor'), ('dictionaries', 'matchingDict, dictCombinations, memoize')],
     (), ['return values, files in a scratch directory'])
prop('U08', 'Numeric helpers compute what they document',
     """Drawing an index from probabilities or from a Gibbs distribution yields every index exactly with its probability for every
     vector and temperature. Linear scaling, rankings, activation helpers, densities, matrix assembly and factorisation, Fisher information and
     its inverse, average hitting times, weighted rank tests and adaptive resampling return the documented value for every
     argument, and leave their arguments intact.""",
     ['inputs', 'schedules', 'histories'],
     """all probability vectors over twelfths up to length 3 with a full grid of draws, all values over a small alphabet up to length 5, all
     block shapes up to 3x3, all value histories up to length 4, all noise histories up to 7 calls""",
     """Doctests cover one call of two of these helpers.""",
     ['pybrain/utilities.py', 'pybrain/tools/functions.py', 'pybrain/tools/fisher.py', 'pybrain/tools/aptativeresampling.py'],
     [('draws', 'drawIndex/drawGibbs'), ('matrices', 'triu2flat, blockCombine, calcInvFisher, sqrtm'), ('statistics', 'avgFoundAfter, weightedUtest, AdaptiveResampler')],
     (), ['return values'])

prop('U09', 'Training tools stop, keep the best weights and log the curve as documented',
     """For every history of training and test errors, the regression and classification tools train in increments until the epoch limit is
     reached or, if a convergence setting is given, that many increments brought no better test error. The evaluated network
     has the parameters of the best test error, and curve and file hold exactly the epochs and errors of that history. Experiment collectors
     return their own results only.""",
     ['histories', 'configurations'],
     """all histories of up to 4 increments (5 thorough) over three network states with different errors, with every combination of test set,
     validation set, increment, epoch limit and convergence setting, for feed-forward and recurrent networks; all interleavings of two collectors up to
     depth 4""",
     """No test runs these tools at all.""",
     ['pybrain/tools/neuralnets.py', 'pybrain/tools/example_tools.py'],
     [('training loop', 'NNregression.runTraining, NNclassifier.runTraining'), ('curve file', 'NNtools.saveTrainingCurve'), ('collector', 'ExTools')],
     (), ['Trainer.module.params', 'trainCurve', 'the CSV file'])

prop('R11', 'Direct policy search estimates and follows its definitions on every history',
     """For every history of observations, explored actions, rewards and episode ends, REINFORCE and ENAC keep one exact log-likelihood derivative per action
     for policy and exploration parameters, estimate the gradient their definitions give, and move the current parameters by it, bounded per
     component. Reward-weighted regression trains on exactly the experienced steps weighted by the transformed discounted return of their episode,
     with temperature and statistics updated per batch. Universal search returns a simplest working program and stops.""",
     ['histories', 'configurations'],
     """all histories of up to 3 steps (4 thorough) over small alphabets of states, exploration draws, rewards and episode boundaries, several
     policies and both explorers, two learning rounds; all action sequences of small tasks; all program tables up to 4 programs""",
     """Learners are random and tests do not run them at all; a wrong sign or a misaligned derivative still often improves on easy tasks.""",
     [R + 'learners/directsearch/', R + 'explorers/continuous/', 'pybrain/structure/modules/gaussianlayer.py'],
     [('likelihood', 'PolicyGradientLearner.learn, explorer _backwardImplementation'), ('estimators', 'Reinforce, ENAC calculateGradient'), ('regression', 'RWR.learnOneBatch'),
      ('universal search', 'LevinSeach')],
     [('derivative rows', 'loglh data set'), ('original parameters', 'gd.values')], ['loglh', 'calculateGradient()', 'params', 'weightedDs, tau'])

prop('U10', 'Principal components and k-means seeds meet their definitions',
     """For every data table and number of components, principal component analysis returns orthonormal axes carrying the largest variance, the probabilistic
     variant spans the same space from every starting point, and reduced data are the projections of the centred points. k-means++ seeds are
     data points, the first any of them and each further one reducing the potential most, and the clusters found are the points nearest to
     their means.""",
     ['inputs', 'schedules'],
     """all point multisets over small grids in up to 3 dimensions (4 thorough), all numbers of components and centres, all choices of the
     first centre""",
     """Doctests analyse three tables with distinct variances.""",
     ['pybrain/auxiliary/pca.py', 'pybrain/auxiliary/kmeans.py'],
     [('principal components', 'pca, pPca, reduceDim'), ('seeding', 'kinit')],
     (), ['return values'])

prop('D06', 'Data files are read as their format says and normalisation is consistent',
     """Every table written in LIBSVM, raw column or MNIST format is read back with exactly its features, labels, counts and classes, also by a data set
     that was loaded before, and such data sets survive copying. A normaliser maps every data set, row or pattern by the range or the moments of the data it
     was calculated from, the same after saving and loading, and touches no other field.""",
     ['inputs', 'histories'],
     """all tables of up to 3 rows and 2 features over small alphabets, all one-byte alphabets including newline bytes for binary files, all
     bounds and both normalisation modes, reloading every table over another""",
     """No test reads any of these files or normalises anything.""",
     ['pybrain/tools/svmdata.py', 'pybrain/tools/datasets/mnist.py', 'pybrain/tools/datasettools.py'],
     [('readers', 'SVMData.loadSVMdata/loadRawData, mnist.labels/images'), ('normaliser', 'DataSetNormalizer')],
     (), ['fields of the data set', 'accessors'])

prop('U11', 'A Gaussian process answers with the posterior of the samples it holds',
     """After every history of adding samples or data sets, training anew, resetting and changing hyper-parameters, the mean and the covariance predicted at the
     points asked are the Gaussian posterior given exactly the samples held then, the prior mean without any. Draws are that mean plus one deviate of that
     covariance. The sampling grid holds exactly the points of the given interval in every dimension, and arguments are never changed.""",
     ['histories', 'inputs'],
     """all histories of 4 calls in one dimension (5 thorough) and 3 in two (4 thorough), with and without automatic noise; grids for 27 intervals in up to
     three dimensions""",
     """No test uses the class; its cache of predictions and its grid can only be wrong after particular call orders.""",
     ['pybrain/auxiliary/gaussprocess.py'],
     [('posterior', 'GaussianProcess.testOnArray, _calculate'), ('sampling', 'draw, _buildGrid')],
     [('samples held', 'trainx, trainy')], ['return values, pred_cov'])

prop('T05', 'Contrastive divergence and greedy layer-wise training follow their rule',
     """For every outcome of the sampled hidden units, training a restricted Boltzmann machine changes its weights and both biases by the contrastive-divergence
     estimate averaged over each batch, with the configured rates, weight cost and momentum, and the inverse machine keeps the same weights with its own biases.
     A deep network gets layer by layer the weights learnt on the outputs of the trained layers below, and still shares one parameter vector
     with its layers. Machines compute their hidden and visible probabilities from their current parameters, and data are never changed.""",
     ['schedules', 'configurations'],
     """all sampler outcomes over 8 machine/data/configuration cases for both sampler kinds (12 thorough), 7 chains of up to 3 trained layers (10 thorough);
     machines of all shapes up to 3x3 (4x4)""",
     """The only file about these machines is disabled and does not train.""",
     ['pybrain/unsupervised/trainers/rbm.py', 'pybrain/unsupervised/trainers/deepbelief.py', 'pybrain/structure/networks/rbm.py'],
     [('contrastive divergence', 'RbmGibbsTrainer.trainOnDataset, calcUpdateByRow'), ('layer-wise training', 'DeepBeliefTrainer.train'), ('inverse', 'Rbm.invert')],
     [('visible biases', 'invRbm.biasParams')], ['params, biasParams, activate()'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    ids = [p['id'] for p in P]
    assert len(set(ids)) == len(ids)
    for p in P:
        assert len(p['title']) <= 80, p['id']
        import re
        n = len(re.findall(r'[.](?= |$)', p['statement']))
        assert n <= 3, (p['id'], n)
    with open(out, 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    print(len(P), 'properties')
