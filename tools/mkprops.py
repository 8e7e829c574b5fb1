import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=()):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=["xcsf/"+f for f in files],mechanism=[dict(name=mech,where=", ".join("xcsf/"+f for f in files[:3]))]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b) for a,b in state]
    P.append(d)
p("C01","Population bookkeeping is exact, bounded and leak-free",
"After any history of learning trials, reinforcement steps, predictions, rule insertions, snapshots, saves and loads, the population holds every rule exactly once, every rule has numerosity at least one, the reported number of rules and total numerosity equal the sums over the listed rules, and total numerosity never exceeds the configured maximum population size. Removed rules are released exactly once and never used again, and freeing the system returns all the memory it took.",
["histories","configurations","inputs"],"every operation sequence up to a small depth, every rule/action/prediction representation, small population limits, every random outcome within a deviation bound",
"The unit tests build one population per component and never check totals after evolution, deletion, subsumption and insertion are chained.",
["clset.c","ea.c","xcsf.c","xcs_supervised.c","xcs_rl.c","cl.c"],"population list plus running size and numerosity counters changed by add, delete, subsume, kill, validate, retrieve",
[("pset.size / pset.num","running macro and micro rule counts"),("kset","rules waiting to be released")])
p("C02","Match set is exact and covering represents every action",
"For every input the match set contains exactly the population rules whose condition accepts that input, each once. When covering is allowed, afterwards at least one matching rule advocates each possible action (or, with one action, at least one rule matches), every rule created by covering itself accepts the input, advocates the action it was created for and starts with the configured initial error and fitness, and covering never leaves the population above its limit.",
["inputs","configurations","histories"],"every input of a grid x every small population x every condition, action and rule representation x random outcomes within a deviation bound",
"Tests check covering on single components with one seed; no test runs matching and covering together with deletion at the population limit.",
["clset.c","cl.c","condition.c","cond_rectangle.c","cond_ellipsoid.c","cond_ternary.c","cond_gp.c","cond_dgp.c","cond_neural.c","rule_dgp.c","rule_neural.c","act_integer.c","act_neural.c"],"parallel match pass, then covering loop with limit enforcement and re-validation")
p("C03","Conditions accept exactly their region and generality is sound",
"A condition accepts an input exactly when its representation says so: a hyperrectangle when every feature lies inside its interval, a hyperellipsoid when the sum of squared scaled distances to the centre is strictly below one, a ternary string when every specified bit equals the binarised feature, a tree, graph or neural condition when its evaluated output exceeds one half, and a dummy condition always. Whenever one rule is judged more general than another (hyperrectangle, ternary, dummy), it accepts every input the other accepts and advocates the same action; a hyperrectangle or ternary rule whose region strictly contains another's, with the same action, is always judged so.",
["inputs"],"every condition and pair of conditions over a grid of parameters, every grid input including boundary values, one to three features",
"Tests check one hard-coded condition per type and a couple of inputs; generality is checked on two pairs.",
["cond_rectangle.c","cond_ellipsoid.c","cond_ternary.c","cond_dummy.c","cond_gp.c","cond_dgp.c","cond_neural.c","gp.c","dgp.c","utils.h","cl.c","act_integer.c"],"per-type match and general functions behind the condition interface")
p("C04","Predictions are fitness-weighted means; action choice follows them",
"The system prediction for each action and output is the fitness-weighted mean of the predictions of the matching rules advocating that action, and zero for actions with no such rule. Exploitation picks an action whose predicted payoff is maximal, with every tied action reachable; exploration picks an action, and every and only actions represented in the match set are reachable; exploring and exploiting follow the configured exploration probability.",
["inputs","histories","configurations"],"every small match set over a grid of fitnesses, predictions and actions, one to three actions, one to two outputs, every random outcome over an alphabet",
"Tests use one fixed five-rule set and one seed.",
["pa.c","xcs_rl.c"],"prediction array built from the match set, arg-max with random tie-breaking, rejection sampling over represented actions")
p("C05","Prediction and scoring leave the learned knowledge untouched",
"Predicting or scoring with a fallback value never adds, removes, reorders or alters a rule's condition, action, model, error, fitness, numerosity or experience; asking again gives bit-identical answers, and each row's answer does not depend on the other rows asked for. A row that no rule matches gets exactly the fallback value, and without a fallback only covering may add rules.",
["histories","inputs","configurations"],"every training history up to a depth followed by every prediction/score batch over a grid, every stateless component type",
"Tests check output values for one trained system; none compares the population before and after inference or permutes rows.",
["xcs_supervised.c","clset.c","pa.c","cl.c","neural.c","dgp.c"],"exploit trials run match and prediction without update or evolution")
p("C06","Saving then loading a system is lossless",
"A system saved to a file and loaded into a fresh or already used system has the same parameters and the same population in the same order, gives bit-identical predictions, and goes on learning identically under the same random stream, for every condition, action, prediction, rule and neural layer type. The count of items read equals the count written.",
["configurations","histories","inputs"],"every component type and option combination x training histories up to a depth x state of the receiving system",
"Tests save and load a handful of components and compare a few fields, never the continued behaviour of a reloaded system.",
["xcsf.c","param.c","cl.c","clset.c","cond_rectangle.c","cond_ellipsoid.c","cond_ternary.c","cond_gp.c","cond_dgp.c","cond_neural.c","act_integer.c","act_neural.c","pred_nlms.c","pred_rls.c","pred_neural.c","rule_dgp.c","rule_neural.c","gp.c","dgp.c","neural.c","neural_layer_args.c","neural_layer_connected.c","neural_layer_recurrent.c","neural_layer_lstm.c","neural_layer_convolutional.c"],"hand-written binary save/load pair per component")
p("C07","Rules exported as JSON can be inserted back unchanged",
"Exporting the population as JSON and inserting it into an empty system with the same parameters yields the same rules with the same statistics, conditions, actions and predictions in the same order, and the same predictions for every input, for every representation whose import is supported. Exporting never changes the system, inserting respects the population limit, and text that is not JSON, or a rule naming another component type, an array or string of the wrong length, an illegal symbol, a non-existent action, node or connection, a mutation rate outside [0,1] or a numerosity below one, is rejected rather than silently accepted. Real numbers are equal up to the precision of the text form, and the RLS covariance matrix is not part of it.",
["inputs","histories","configurations"],"every importable component combination x histories up to a depth x every single-field corruption from a list",
"Tests import a few literal strings; no test exports an evolved population and compares the re-imported system.",
["clset.c","cl.c","cond_rectangle.c","cond_ellipsoid.c","cond_ternary.c","cond_dummy.c","cond_dgp.c","dgp.c","act_integer.c","pred_constant.c","pred_nlms.c","pred_rls.c","sam.c"],"per-component JSON writers and readers, length and range checks")
p("C08","Parameters round-trip and stay in their documented ranges",
"Any parameter set accepted by the system is reproduced when exported as JSON and imported into any other system (every parameter that takes effect for the chosen components and options, up to the precision of the text form), exports again as the same text, and is reproduced exactly when saved and loaded in binary form. A value outside a parameter's documented range is rejected or brought to the nearest legal value, so no stored parameter is ever out of range; unknown names and values of the wrong kind are rejected; and exporting changes neither the parameters nor the random sequence.",
["inputs","configurations"],"every parameter x boundary and out-of-range values, every pair of component types and layer argument lists, all string enumerations",
"Tests set each parameter once to one valid value.",
["param.c","condition.c","action.c","prediction.c","ea.c","loss.c","neural_layer_args.c","gp.c","dgp.c","config.c"],"validating setters, JSON import/export per parameter group, binary save/load")
p("C09","Rule error, set size, accuracy and fitness follow XCS update rules",
"Each time a rule takes part in an update its experience grows by one and its error and set-size estimates move by the moyenne adaptive modifiee rule (exact running average while experience is below the inverse learning rate, fixed-rate afterwards), using the loss of the prediction made before learning and the numerosity of the set. Fitness then moves by the learning rate towards the rule's numerosity-weighted share of the set's total accuracy, accuracy being one up to the target error and a power-law decay above it (never below machine epsilon). The centre of a centre-spread or ellipsoid condition moves towards the input at the configured condition learning rate, no other condition changes, and nothing outside the updated set changes.",
["histories","inputs","configurations"],"every update sequence up to a depth over small sets, inputs, targets and parameter grids",
"Tests check single calls with one parameter setting and no set of rules.",
["cl.c","clset.c","loss.c"],"per-rule update then set-wide fitness share",
[("exp, err, size, fit","rule statistics")])
p("C10","Constant, NLMS and RLS models learn by their defining equations",
"For every sequence of inputs and targets, a rule's constant prediction, normalised least mean squares and recursive least squares models (linear and quadratic) equal those given by the textbook recursions started from zero weights (offset weight: the configured offset), per output dimension and with the configured offset, learning rate, forgetting factor and scale; NLMS steps are normalised by the squared offset plus the squared input norm. The prediction for an input is always the inner product of the current weights with the linear or quadratic expansion of that input.",
["inputs","histories","configurations"],"all input/target sequences up to a depth over small alphabets, one to three inputs, one to two outputs, parameter grids",
"Tests run one sequence for one configuration and compare end values loosely.",
["pred_constant.c","pred_nlms.c","pred_rls.c","prediction.c","blas.c"],"model compute/update functions behind the prediction interface")
p("C11","Evolution triggers, creates and subsumes offspring by the rules",
"The evolutionary step runs exactly when the numerosity-weighted mean time since the set's rules last took part reaches the configured threshold, then stamps the set's rules with the current time and creates the configured number of offspring (in pairs) from two parents chosen inside the set, each in proportion to fitness or by tournament (every rule enters with the configured probability, the fittest entrant wins, repeated until someone enters). Offspring start with the documented reduced parental error and fitness, one numerosity and no experience; an unchanged offspring only increments its parent, and with subsumption an offspring is absorbed only by an accurate, sufficiently experienced and more general rule, parents first, otherwise it joins the population as a new rule.",
["histories","inputs","configurations"],"every parent choice, every crossover/mutation outcome class, subsumption on and off, small sets with enumerated statistics, random outcomes within a deviation bound",
"Tests only check parameter setters and one evolved run end to end.",
["ea.c","cl.c","clset.c"],"trigger test, selection, copy, crossover, mutation, initialisation, insertion or subsumption")
p("C12","Deletion and set subsumption pick legal victims and keep counts",
"Deletion removes one unit of numerosity at a time until the limit holds: first from a rule past its probation that never matched, otherwise from a rule chosen with probability proportional to its vote (set size times numerosity, scaled up when experienced and unfit), and under compaction below the target error from the larger of two such choices. Set subsumption moves the numerosity of rules into the most general accurate experienced rule of the set only when it is more general than they are, keeping the total numerosity unchanged.",
["histories","configurations","inputs"],"all small populations over a grid of statistics, all roulette positions, compaction on/off, subsumption sets with all orders",
"Tests never look at which rule is deleted or subsumed.",
["clset.c","cl.c"],"never-match scan, roulette wheel over votes, set subsumption pass")
p("C13","Genetic operators stay legal, report change truthfully, and never alias",
"Copying a rule yields an equal but independent rule: altering or freeing one never affects the other. Mutation and crossover always leave well-formed rules (bounds, legal symbols, tree and graph structure, connectivity and weight limits, self-adapted rates within range), an operator that reports no change leaves the phenotype unchanged, and crossover only exchanges material between the two offspring.",
["inputs","histories","configurations"],"every representation, every sequence of init/cover/copy/crossover/mutate up to a depth, random outcomes within a deviation bound",
"Tests call each operator once per type, mostly without checking the result.",
["cond_rectangle.c","cond_ellipsoid.c","cond_ternary.c","cond_gp.c","cond_dgp.c","cond_neural.c","act_integer.c","act_neural.c","pred_nlms.c","pred_neural.c","rule_dgp.c","rule_neural.c","gp.c","dgp.c","sam.c","neural.c","neural_layer.c"],"per-type copy, crossover, mutate; self-adaptive rates")
p("C14","Results do not depend on thread count or scheduling",
"With parallel processing enabled, matching, prediction and updating give bit-identical results for every number of threads and every interleaving of those threads: each rule is processed exactly once and no thread reads or writes data another thread is changing.",
["schedules","configurations"],"all interleavings of 1 to 4 virtual threads over the parallel loops for every component type (partial-order reduced), every partition of iterations to threads",
"Tests run with whatever schedule the machine gives and never compare thread counts.",
["clset.c","pa.c","cl.c","param.c"],"OpenMP parallel loops over independent rules")
p("C15","Reinforcement learning applies the right targets at the right time",
"In multi-step problems the previous step's action set is updated towards its reward plus the discounted best current payoff, using the previous state, and at the end of a trial the current action set is updated towards the final reward; each updated set then evolves, except in exploitation, where no evolution happens. Trials stop when the problem ends or after the configured maximum number of steps, each step's decision, reward and error are recorded by the documented formulas, and a single-step fit equals a one-step trial with the given action and reward.",
["histories","inputs","configurations"],"all trial histories up to a depth over small state/action/reward alphabets, explore and exploit, one and several steps",
"Tests run one end-to-end maze or multiplexer experiment and check only that it learns.",
["xcs_rl.c","env.h","pa.c","clset.c"],"init/step/update/end protocol with previous action set, state, reward and prediction")
p("C16","Neural networks compute and learn by exact gradients and keep valid shapes",
"For every architecture, the forward pass equals the composition of its layers' defining formulas. In a network of feed-forward layers, one learning step moves each active weight and bias by the learning rate times the exact negative gradient of half the squared error (of the cross-entropy under a softmax output) plus momentum, with decay, inactive weights staying zero; recurrent and LSTM layers follow their one-step truncated rule. After any evolution, growth or shrinking every layer's shapes agree with its neighbours, the counts of active weights are exact, and weights, learning rates and neuron counts stay within their limits.",
["inputs","configurations","histories"],"all architectures up to three layers over every layer type and small shapes, inputs and targets from an alphabet, mutation sequences within a deviation bound",
"Tests compare one trained network per layer type with precomputed numbers.",
["neural.c","neural_activations.c","neural_layer.c","neural_layer_connected.c","neural_layer_convolutional.c","neural_layer_maxpool.c","neural_layer_avgpool.c","neural_layer_upsample.c","neural_layer_softmax.c","neural_layer_dropout.c","neural_layer_noise.c","neural_layer_recurrent.c","neural_layer_lstm.c","blas.c","image.c","clset_neural.c"],"layer-wise forward, backward, update, mutate, resize")
p("C17","Built-in environments present their problems faithfully",
"The multiplexer pays its maximum exactly for the data bit addressed by the address bits of the presented state and ends after one step; a maze agent moves only to free or food cells (wrapping at edges), senses exactly its eight neighbours, always restarts on a free cell, and gets the maximum reward and the end of the trial exactly on reaching food. A data file presents exactly its rows, columns and values.",
["inputs","histories","configurations"],"all states and actions of small multiplexers, all positions x actions x walks in small mazes, all small data files over a token alphabet",
"Tests run the shipped examples through whole experiments only.",
["env.c","env_mux.c","env_maze.c","env_csv.c"],"environment reset/get state/execute/is done interface")
p("C18","Fitting runs exactly the requested trials, in order, with its callbacks",
"Fitting runs exactly the configured number of trials in epochs of the configured length, presenting samples in data order (each fit from the first sample, continuing across its epochs) when shuffling is off, and reports per-epoch metrics that are the means of the trials they cover and the number of trials run; a fit that is not a warm start begins from scratch, a warm start continues from the model as it is. Early stopping ends the run only after the configured patience without an improvement larger than the minimum delta and restores the best population when asked; checkpoints are written exactly on their schedule and hold the population of that moment.",
["histories","configurations","inputs"],"all trial counts, epoch lengths, callback settings and monitored-metric sequences in small ranges",
"Tests run one fit per feature and check it does not fail.",
["pybind_wrapper.cpp","pybind_callback.h","pybind_callback_earlystop.h","pybind_callback_checkpoint.h","xcs_supervised.c","perf.c"],"epoch loop in the Python binding around supervised fit, callback objects")
p("C19","A stored population snapshot is isolated and restored exactly",
"Storing the population takes a snapshot that no later learning can change, and retrieving it brings back exactly the stored rules with their conditions, actions, statistics and models (learning accelerators that every copy restarts - RLS gain matrices, momentum and recurrent memory - excepted), so that predictions for every input equal those at the moment of storing. Storing again replaces the snapshot, retrieving uses it up, retrieving without a snapshot (none stored, or the stored population was empty) changes nothing, and neither operation leaks or shares memory with the live population.",
["histories","configurations","inputs"],"all interleavings of learn, store, retrieve and predict up to a depth for every component type",
"Tests store and retrieve once and look only at sizes.",
["xcsf.c","cl.c","clset.c"],"deep copy of every rule into a second set, swap on retrieve",
[("prev_pset","stored snapshot")])
p("C20","The same seed and calls give the same run",
"Two runs that set the same random seed and make the same calls produce bit-identical populations, predictions and scores, whatever ran earlier in the process, whatever the contents of uninitialised memory, and whatever read-only calls (prints, exports, saves, size queries) are interleaved.",
["histories","configurations"],"all pairs of prior histories and interleaved read-only calls up to a depth, every component type, several memory fill patterns",
"Tests only fix a seed once per process and compare nothing across runs.",
["utils.c","param.c","xcsf.c","clset.c","neural_layer_args.c"],"global random generator and cached normal deviate, seeded through the random state parameter")
p("C21","Losses and scores equal their mathematical definitions",
"Every loss function equals its definition for every prediction and target (logarithms floored at machine epsilon), so it stays finite; a score over a data set is the mean loss of the predictions for its rows (of all of them, or of the requested number sampled), and the running system error is the exponentially weighted average of per-trial losses.",
["inputs","configurations"],"all prediction/target vectors over a grid including extremes, every loss, one to three outputs, small data sets",
"Tests evaluate each loss on one vector.",
["loss.c","xcs_supervised.c"],"loss table selected by parameter; mean over exploit trials")
p("C22","The Python module hands over exactly the numbers it is given",
"Through the Python module, equal numbers give equal results whatever object holds them - any memory layout, stride, byte order, numeric type or nested list - and only their values at the time of the call count: changing or dropping the objects afterwards has no effect. Input whose shape does not fit the model is rejected with an exception and leaves the model as it was. An object that was pickled or saved and loaded answers, learns on and reports its parameters like the original, whatever files are in the working directory; objects are independent of each other, and releasing them, predicting and exporting leak no memory.",
["inputs","histories","configurations"],"every entry point taking data x array representations x shapes, and sequences of object operations up to a depth",
"Tests pass freshly made C-ordered double arrays of the right shape, one object at a time.",
["pybind_wrapper.cpp"],"numpy conversion, stored pointers, pickling and object lifetime in the Python binding")
p("C23","A configuration file sets exactly the parameters its text states",
"Reading a configuration file (or JSON text) sets exactly the parameters stated by the JSON it contains once comments are removed, leaving all others as they were, whatever the comments, blank lines, line lengths, line ends, indentation, order of members and presence of a final newline; a missing file leaves the parameters alone, and text that is not a valid configuration is rejected with an error message, never half understood, crashed on or read out of bounds. The command-line program runs with exactly the given configuration (or the default one) and continues from the saved system when one is given.",
["inputs","configurations"],"every small configuration in every enumerated layout, all truncations and single-character damages of a small file, line lengths up to several thousand, all forms of the command line",
"Tests read no configuration file and the examples use one layout.",
["config.c","main.c","param.c"],"comment-stripping reader feeding the JSON parameter import; argument handling of the program")
p("C24","Exported rules and plots describe exactly what the rules do",
"The JSON a system exports describes its rules faithfully: an exported condition, evaluated by its documented meaning, accepts exactly the inputs the rule matches; the exported model yields exactly the rule's prediction and the exported action is the one it advocates; exported statistics are those of the rule, and the export shows the condition, action and prediction exactly when asked to. The drawing utilities draw exactly the structure of an exported tree or graph - every node, connection in order, label, feature name, match node and caption - for every tree and graph.",
["inputs","histories","configurations"],"every condition and model type, learned systems of several ages and seeds, all inputs of a grid; all trees up to four operators and all graphs up to three nodes over small alphabets",
"Tests round-trip one exported rule of a type and never compare its text with its behaviour; the drawing code has no tests.",
["utils/viz.py","clset.c","cl.c","cond_ternary.c","cond_rectangle.c","cond_ellipsoid.c","gp.c","dgp.c","rule_dgp.c","pred_nlms.c","pred_rls.c","neural.c"],"JSON export of each component; TreeViz and DGPViz")
import os
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
