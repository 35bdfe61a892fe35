"""Single source for properties.jsonl and MANIFEST.json (python3 tools/props.py writes both)."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def P(id, title, statement, over, text, why, files, mechanism, state=None, observe=None, tech="", note="", claimed=True):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mechanism=mechanism, state=state or [], observe=observe or [], tech=tech, note=note, claimed=claimed))


VALS = "bcause/factors/values/"
STORES = [VALS + f for f in ("numpystore.py", "numpyops.py", "liststore.py", "listops.py", "operations.py",
                             "treedictstore.py", "treedictops.py", "store.py")]
MULT = "bcause/factors/mulitnomial.py"

P("C01", "Factor arithmetic is pointwise over the union of the operands' variables",
  "Multiplying, adding, subtracting or dividing two multinomial factors of the same storage type, or a factor and a number on either side, gives a factor over the union of their variables whose value at every joint assignment is that operation applied to the operands' values at that assignment, with 0/0 taken as 0 (a non-zero value divided by zero is unspecified). This holds for every storage type, whatever the order of the variables, the order of the states in each operand, the cardinalities and the state types (strings, integers, booleans).",
  ["inputs", "configurations"],
  "All pairs of scopes and variable orders, state orders and cardinalities, all four storage types.",
  "test_multinomial checks one fixed pair of factors (2x3 and 2) per operation; no permuted orders, no disjoint scopes, no zero divisors, no scalars on the left.",
  [MULT] + STORES,
  [{"name": "_generic_combine / _extend_domain / _reorder / index_list / _combine_dict", "where": VALS}],
  observe=["MultinomialFactor * + - / results: domain, values, get_value"])

P("C02", "Marginalising, max-marginalising and restricting factors is exact",
  "Marginalising a multinomial factor over any set of its variables, given in any order, sums the values over all states of those variables; max-marginalising takes their maximum; restricting to observed states selects exactly the matching entries and ignores observed variables the factor does not have; observing a list of several states keeps exactly the entries of those states, whatever their order and however many variables are observed that way (numpy storage; the others decline as not implemented). The remaining variables keep their states, in every storage type (the flat numpy storage may decline max-marginalisation as not implemented).",
  ["inputs", "configurations"],
  "All scopes of up to four variables in every order, all subsets and argument orders of variables removed or observed, all storage types, values of any sign.",
  "Tests marginalise one 2x3 table over A and (A,B); restriction is not tested directly and negative values, other orders or bigger scopes never occur.",
  [MULT] + STORES,
  [{"name": "marginalize/maxmarginalize/restrict of the operation sets", "where": VALS}],
  observe=["factor.marginalize, maxmarginalize, restrict, ** and ^ operators"])

P("C03", "Factor operations keep the conditional signature right",
  "A multinomial factor's left and right variables always partition its variables: a product, sum or difference has on its left every variable that is on the left of either operand and on its right all the others; marginalising or restricting keeps each remaining variable on its side; dividing by a factor puts that factor's variables on the right in addition to those already there; renaming keeps sides. The printed name of a factor reports exactly that signature, left variables before the bar and right ones after it, and nothing after the bar when there are none.",
  ["inputs", "configurations"],
  "All assignments of {absent,left,right} to three variables for both operands, all orders, every operation.",
  "No test looks at left_vars/right_vars of a computed factor.",
  ["bcause/factors/factor.py", MULT],
  [{"name": "set_variables and the new_right_vars computations", "where": MULT}],
  observe=["left_vars, right_vars, left_domain, right_domain, name"])

P("C04", "Factor operations are pure and storage types are interchangeable over histories",
  "Over any sequence of factor operations, renames, store copies, cell writes and changes of the default storage type, every live factor keeps exactly the values it had: operating on a factor never changes its operands, and writing a cell of one factor's store changes that cell and nothing in any other factor that was derived from it or that it was derived from. The same sequence carried out in any two storage types produces the same tables, and results stay in their operands' storage type whatever the default is.",
  ["histories", "configurations"],
  "All operation sequences up to a depth over a pool of factors, in the four storage types in lock step.",
  "Tests perform single operations on fresh factors and never re-read an operand, write to a result or interleave default changes.",
  [MULT, "bcause/factors/factor.py"] + STORES,
  [{"name": "copies made by restrict/builder/set_value", "where": VALS}, {"name": "DataStore.DEFAULT_STORE", "where": VALS + "store.py"}],
  state=[{"name": "DEFAULT_STORE", "meaning": "process-wide default storage type", "where": VALS + "store.py"}],
  observe=["values of every live factor after every step"])

P("C05", "All views of a factor show the same table",
  "However the values of a multinomial factor are supplied (flat, nested, scalar, numpy array), with the last variable varying fastest, the value read for an assignment is the value supplied for it, and the value list, the value dictionary, the value array in any variable order, single-value reads, probabilities and log-probabilities of observations, the sum of all values and a renamed copy all agree with it. A factor later does not change when the array or list it was built from changes.",
  ["inputs", "configurations"],
  "All scopes up to four variables in all orders, all storage types, all array orders, all input shapes.",
  "Tests read one 2x3 table in its own order only.",
  ["bcause/factors/factor.py", MULT] + STORES + ["bcause/util/treesutil.py", "bcause/util/domainutils.py"],
  [{"name": "assingment_space/index_iterator/build_default_tree", "where": "bcause/util"}],
  observe=["values, values_list, values_dict, values_array, get_value, prob, log_prob, rename_vars"])

P("C06", "Structural equations and their probability tables are two views of one function",
  "A deterministic factor given by a function table evaluates to true exactly at the assignments the function produces; its multinomial version is 1 there and 0 elsewhere; converting that back to a deterministic factor gives the same function; a constant factor puts all its mass on the given state. A probability table combined with an equation by * + - / is combined with the table of the equation. The canonical specification for a variable assigns to the exogenous states, in order, every function from the endogenous parents' configurations to the variable's states exactly once.",
  ["inputs", "configurations"],
  "All functions over small parent domains, any position of the child in the domain, any number of parents, any state labels and storage types.",
  "Tests only build equations as part of fixed models with integer states; to_deterministic, constant and canonical specifications are not tested.",
  ["bcause/factors/deterministic.py", MULT],
  [{"name": "to_multinomial / to_deterministic / constant / canonical_deterministic", "where": "bcause/factors"}],
  observe=["DeterministicFactor.eval/get_value/values_array, to_multinomial, to_deterministic, canonical_*"])

P("C07", "Variable elimination returns the exact conditional distribution",
  "For every Bayesian network or causal model, every non-empty set of target variables, every set of conditioning variables and every evidence of positive probability, the variable elimination query returns the distribution of the targets (given each conditioning configuration of positive probability) that follows from the product of all the model's factors. This does not depend on the elimination heuristic or ordering, on variable names and orders, on the storage type or on zeros in the tables.",
  ["inputs", "configurations", "schedules"],
  "All DAGs up to 4 nodes (5 up to isomorphism), all target/conditioning/evidence splits, all elimination orders of small networks, plus the asia network.",
  "test_variable_elimination checks 6 queries on one network and only the first value of each answer.",
  ["bcause/inference/probabilistic/elimination.py", "bcause/inference/probabilistic/probabilistic.py", "bcause/models/transform/simplification.py", "bcause/inference/ordering.py", MULT, VALS + "numpyops.py"],
  [{"name": "minimalize + elimination loop + normalisation", "where": "bcause/inference/probabilistic/elimination.py"}],
  observe=["VariableElimination(model, heuristic).query(target, conditioning, evidence)"])

P("C08", "Inference answers do not depend on earlier queries and leave models untouched",
  "An inference engine (variable elimination, causal, data-based or multi-model) gives to each query the answer a fresh engine would give, whatever queries, failed queries, compilations or repeated runs came before on it or on another engine over the same model. No query changes the model's graph, domains or factors, the evidence, intervention and target objects passed in, or the data.",
  ["histories"],
  "All query sequences up to a length from an alphabet with overlapping targets, evidence and interventions, on one or two engines sharing a model.",
  "Tests issue a handful of queries and never compare with a fresh engine or re-read the model.",
  ["bcause/inference/probabilistic/probabilistic.py", "bcause/inference/probabilistic/elimination.py", "bcause/inference/probabilistic/datainference.py", "bcause/inference/causal/causal.py", "bcause/inference/causal/multi.py"],
  [{"name": "compile() resetting target, evidence and inference model", "where": "bcause/inference"}],
  state=[{"name": "_target/_evidence/_inference_model/_do/_compiled", "meaning": "per-engine query state", "where": "bcause/inference"}],
  observe=["query results; model.factors, model.graph, model.domains after each query"])

P("C09", "Query simplification and elimination orderings are sound",
  "Simplifying a model for a query keeps all the targets, drops every variable that is neither a target nor evidence and has no target or evidence variable among its descendants, and leaves the posterior of the targets given the evidence unchanged. Each ordering heuristic returns every variable to eliminate exactly once, at every step one whose cost (neighbours, fill-in edges, or product of sizes of itself and its neighbours) is minimal in the moral graph with the eliminated variables' neighbours joined.",
  ["inputs", "configurations"],
  "All DAGs up to 4 nodes (5 up to isomorphism), all target/evidence splits, all sets to eliminate, all three heuristics, unequal sizes.",
  "test_minimalize checks 8 queries on one network; orderings are not tested.",
  ["bcause/models/transform/simplification.py", "bcause/inference/ordering.py", "bcause/util/graphutils.py"],
  [{"name": "barren/disconnected removal, evidence edge cutting", "where": "bcause/models/transform/simplification.py"}, {"name": "_get_elim_ordering", "where": "bcause/inference/ordering.py"}],
  observe=["minimalize(model, target, evidence): variables, factors", "min_*_heuristic results"])

P("C10", "Interventional queries follow the mutilated structural model",
  "For every structural causal model, intervention on endogenous variables and post-intervention evidence of positive probability, the causal query returns the distribution of the targets obtained by drawing the exogenous variables, solving the equations with the intervened variables held at their assigned states, and conditioning on the evidence. Intervening on a model returns a new model with the incoming edges of the intervened variables removed, those variables constant, every other equation, the exogenous distributions and the endogenous/exogenous split kept, and the original untouched; repeated interventions compose, the last assignment of a variable winning.",
  ["inputs", "configurations", "histories"],
  "All causal graphs with up to 3 endogenous variables and their exogenous parents up to a bound, families of equations, all interventions, targets and evidence.",
  "test_causal_queries runs no interventional query on a fully specified model (it is commented out) and EMCC tests one do() per model.",
  ["bcause/inference/causal/causal.py", "bcause/inference/causal/elimination.py", "bcause/models/cmodel.py", "bcause/util/graphutils.py"],
  [{"name": "StructuralCausalModel.intervention, CausalInference._preprocess/compile", "where": "bcause"}],
  observe=["CausalVariableElimination.causal_query", "StructuralCausalModel.intervention"])

P("C11", "Counterfactual queries equal abduction, action and prediction",
  "For every structural causal model, factual evidence of positive probability and one or more hypothetical interventions, each creating its own world, the counterfactual query returns the joint distribution of the endogenous targets, each not intervened in its own world, in their worlds obtained by updating the exogenous distribution with the evidence and solving the equations of every world with the same exogenous draw. The answer's variables are the targets labelled with their world's number (1 for the first intervention, the default world).",
  ["inputs", "configurations"],
  "All causal graphs with up to 3 endogenous variables, all single interventions with all evidence and targets, pairs of worlds, including interventions on leaves, on several variables, and on already intervened models.",
  "test_counterfactual checks fixed numbers for one binary chain; never interventions on leaves, multi-valued variables or two targets in different worlds with evidence.",
  ["bcause/inference/causal/causal.py", "bcause/models/transform/combination.py", "bcause/models/cmodel.py"],
  [{"name": "twin/parallel-world construction: rename_vars + fusion_roots", "where": "bcause/inference/causal/causal.py"}],
  observe=["CausalVariableElimination.counterfactual_query"])

P("C12", "Probabilities of necessity and sufficiency match their definitions",
  "For binary cause and effect, the probability of necessity is P(effect would be false had the cause been false, given both true), the probability of sufficiency is P(effect would be true had the cause been true, given both false) and the probability of necessity and sufficiency is P(effect false under cause false and true under cause true), as computed by enumerating the exogenous variables. The true and false states are those given by the caller, or else 1 and 0 (for integer, float or boolean states) or the states named as the variable followed by 1 and by 0 (or by 2 when there is no 0), in whatever order the domain lists them; a domain where they cannot be told apart is rejected with ValueError.",
  ["inputs", "configurations"],
  "All small causal graphs and equation families, all cause/effect pairs, all state labellings and orders, explicit and implicit true/false states; precise and multi-model engines.",
  "test_counterfactual compares stored numbers for one model, always with explicit true/false pairs (0,1).",
  ["bcause/inference/causal/causal.py", "bcause/inference/causal/multi.py", "bcause/util/domainutils.py"],
  [{"name": "prob_necessity / prob_sufficiency / prob_necessity_sufficiency, identify_true_false", "where": "bcause/inference/causal/causal.py"}],
  observe=["prob_* results"])

P("C13", "Multi-model inference returns exactly the envelope of its models' answers",
  "A multi-model causal engine answers every causal, counterfactual or necessity/sufficiency query with, for each value, the smallest and the largest of the answers of the models it currently holds (or the list of those answers, in model order, when intervals are switched off). This stays true over any sequence of setting models, adding models, toggling intervals and querying, needs no prior query or compilation, and never changes the list of models the caller passed in.",
  ["inputs", "histories"],
  "All histories of set/add/toggle/query up to a length over a few models with different exogenous distributions; all query kinds.",
  "test_emcc only runs one batch of learned models once, checks stored numbers and never modifies the set of models.",
  ["bcause/inference/causal/multi.py", "bcause/factors/imprecise.py"],
  [{"name": "set_models/add_models/compile/_process_output, IntervalProbFactor.from_precise", "where": "bcause"}],
  state=[{"name": "_models/_compiled/_causal_inf", "meaning": "current models and their engines", "where": "bcause/inference/causal/multi.py"}],
  observe=["CausalMultiInference query results, IntervalProbFactor values, values_low/up through restrict"])

P("C14", "C-components and the Q-factorisation reproduce the endogenous distribution",
  "For every structural causal model the c-components are the classes of variables connected through shared exogenous parents (every variable in exactly one), and the q-graph is acyclic, contains all endogenous edges, and together with the q-factors forms a Bayesian network whose joint is exactly the model's distribution of the endogenous variables. Hence the log-likelihood of any endogenous data set of positive probability under the model is the sum of its rows' log-probabilities.",
  ["inputs", "configurations"],
  "All causal graphs with up to 4 endogenous variables and all ways of attaching exogenous parents up to a bound; generic exogenous distributions.",
  "test_ccomponents/test_qfact check one graph; no test compares the Q-factorisation with the joint.",
  ["bcause/models/info.py", "bcause/models/cmodel.py"],
  [{"name": "get_ccomponent, get_qgraph, get_qfactors, log_likelihood", "where": "bcause/models"}],
  observe=["ccomponents, endo_ccomponents, exo_ccomponents, get_*ccomponent, qgraph, get_qfactorisation, get_qbnet, log_likelihood"])

P("C15", "Data-based inference returns empirical frequencies and the maximum likelihood",
  "For every data set, the data-based inference answers a query with the relative frequencies of the targets among the rows matching the evidence and conditioning configuration, whenever such rows exist; counts of a data set are exact, missing entries being counted under the state \"nan\". The maximum log-likelihood of a model's structure on the data is the log-likelihood of the empirical Q-factorisation and is never below the log-likelihood of any parameterisation of the model.",
  ["inputs", "configurations"],
  "All data sets up to a number of rows over 2-3 small variables, all targets, conditioning and evidence; all small quasi-Markovian graphs.",
  "test_laplace_inference checks first values for one sampled data set; test_qfact_data stored numbers.",
  ["bcause/inference/probabilistic/datainference.py", "bcause/util/datautils.py", "bcause/models/cmodel.py", "bcause/models/info.py"],
  [{"name": "filter_data, to_counts, max_log_likelihood", "where": "bcause"}],
  observe=["LaplaceInference.query, to_counts, filter_data, max_log_likelihood"])

P("C16", "Expectation maximisation performs exact EM on the exogenous variables",
  "Learning from endogenous data that the model can produce changes only the trainable exogenous distributions: each step replaces each of them by the data-average of its exact posterior under the current model, so it stays a distribution, and the likelihood of the data never decreases over the recorded evolution, which starts at the prior and has one model per step, at most max_iter. Running a learner again, on the same or other data, gives what a fresh learner would give, and neither the data passed in nor the prior model is changed.",
  ["inputs", "histories"],
  "All data sets up to a number of rows over small causal models, grids of starting distributions, runs and re-runs of the learner up to a number of steps.",
  "test_emcc checks stored numbers for two models and one data set; no test inspects single steps, re-use or side effects.",
  ["bcause/learning/parameter/expectation_maximization.py", "bcause/learning/parameter/parameter.py", "bcause/util/datadeps.py"],
  [{"name": "_expectation/_maximization/_update_model/_stop_learning/_process_data", "where": "bcause/learning/parameter"}],
  state=[{"name": "_converged_vars/_model_evolution/_model", "meaning": "learner state across steps", "where": "bcause/learning/parameter"}],
  observe=["ExpectationMaximization.run/step, model, model_evolution, prior_model; the data frame"])

P("C17", "Gradient learning optimises the true likelihood and returns distributions",
  "For quasi-Markovian causal models, the objective minimised by gradient learning for an exogenous variable is the negative log-likelihood of the data's part that depends on that variable (infinite if the data are impossible), and learning returns a model in which the trainable exogenous variables have distributions (non-negative, summing to one), everything else is unchanged, and the likelihood is not below that of the starting point. Endogenous or partially observed trainable variables are rejected with ValueError, and neither the data passed in nor the prior model is changed.",
  ["inputs", "histories"],
  "All data sets up to a number of rows over small quasi-Markovian models, a grid of parameters for the objective, several starting points for learning.",
  "Every gradient test is commented out.",
  ["bcause/learning/parameter/gradient.py", "bcause/learning/parameter/parameter.py"],
  [{"name": "_compute_N_and_P, negative_log_likelihood, fitPMF, _process_data", "where": "bcause/learning/parameter/gradient.py"}],
  observe=["GradientLikelihood.run, model, negative_log_likelihood; GDCC queries"])

P("C18", "Model aggregation is correct under every interleaving of its parallel runs",
  "Asking an aggregator (or EMCC/GDCC) for n models yields n models however its runs are interleaved; each run starts from its own random draw, each returned model is what a stand-alone learner started from that run's initial parameters gives on the data, the i-th learning object belongs to the i-th model, and the data and the prior model are left unchanged. Further runs append to the models obtained so far until reset.",
  ["schedules", "histories"],
  "All interleavings of 2 parallel runs with at most a bounded number of preemptions at source-line granularity of the shared code, sequences of run/reset, sequential and parallel mode.",
  "Tests never use parallel=True; the operating system would show only a few schedules anyway.",
  ["bcause/learning/aggregator/aggregator.py", "bcause/inference/causal/multi.py", "bcause/learning/parameter/expectation_maximization.py"],
  [{"name": "ModelAggregator.generate/_single_generate (joblib threads)", "where": "bcause/learning/aggregator/aggregator.py"}],
  state=[{"name": "_generated_models/_learn_objects/shared data frame", "meaning": "state shared by the parallel runs", "where": "bcause/learning/aggregator/aggregator.py"}],
  observe=["SimpleModelAggregatorEM/GD.run, models, learn_objects; EMCC/GDCC models, get_model_evolution"])

P("C19", "Sampling draws exactly from the model's distribution",
  "Sampling from a joint probability table, from a conditional one given observations, or from a whole model of such tables draws every row with exactly the probability the factor or model gives it: enumerating the random choices made, each complete sample's probability is the product of its rows' probabilities, impossible rows never appear, and rows are drawn independently. The result has the requested number of rows and all (or, for endogenous sampling, exactly the endogenous) variables, as a data frame or a list of dictionaries as requested.",
  ["inputs", "schedules"],
  "All resolutions of the random choices for small models and up to 3 rows; all small DAGs.",
  "test_sampling compares one log-probability sum for one seed; EMCC tests one seed.",
  ["bcause/models/sampling.py", MULT, "bcause/models/pgmodel.py", "bcause/models/cmodel.py"],
  [{"name": "forward_sampling, sample_conditional, _sample", "where": "bcause"}],
  observe=["factor.sample, sample_conditional, model.sample, sampleEndogenous"])

P("C20", "Saving and reading a model back preserves it",
  "Writing a Bayesian network or causal model to a .uai, .bif or .xmlbif file and reading it back gives a model with the same graph and the same value in every factor at every assignment, isolated variables, many variables, any parent and domain order and small or long-decimal probabilities included. A .uai file is read the same whatever white space separates its numbers and in whichever notation they are written (.5, 5E-1, +0.5). In .uai files variables and states are identified by their position (endogenous variables before exogenous ones for causal models, or the given variable order), in .bif and .xmlbif files by their printed labels.",
  ["inputs", "configurations"],
  "All DAGs up to 4 nodes (with isolated nodes), unequal cardinalities, domain orders, probabilities over many magnitudes; 12-variable models; causal models with multinomial or deterministic equations.",
  "test_read_write_scm round-trips one model; Bayesian network writing, isolated variables, exponents in numbers and more than ten variables never occur.",
  ["bcause/readwrite/bnread.py", "bcause/readwrite/bnwrite.py", "bcause/readwrite/scmread.py", "bcause/readwrite/scmwrite.py", "bcause/conversion/pgmpy.py", "bcause/models/pgmodel.py"],
  [{"name": "to_uai/from_uai index and value orders, pgmpy writers", "where": "bcause/readwrite"}],
  observe=["model.save / read: graph, domains, factors"])

P("C21", "Conversion to and from pgmpy preserves the network",
  "Converting a Bayesian network to pgmpy and back gives the same graph, domains and factor values, and the pgmpy network itself assigns to every variable, parent configuration and state the same conditional probability. This holds for any number and order of parents, any position of the child in the factor's domain, unequal cardinalities and isolated variables.",
  ["inputs", "configurations"],
  "All DAGs up to 4 nodes, all child positions, unequal cardinalities.",
  "Conversion is only exercised through one .bif round trip where all tables have the child last and equal sizes.",
  ["bcause/conversion/pgmpy.py"],
  [{"name": "toTabularCPT, toMultinomialFactor, toBCauseBNet, toPgmpyBNet", "where": "bcause/conversion/pgmpy.py"}],
  observe=["toPgmpyBNet(...).get_cpds, toBCauseBNet(...)"])

P("C22", "Models accept only consistent factors and derived models are independent",
  "Over any sequence of setting factors, a model accepts a factor exactly when it is a conditional factor of that variable given precisely its parents in the graph, its domains agree with those of the factors already set and (for an endogenous variable of a causal model) it is deterministic (a function, or a table of zeros and ones); a rejected factor raises ValueError and leaves the model unchanged. Copies, renamed, intervened, submodel and randomised versions carry the same factors under the mapping (variables whose factor is not set yet included), and setting or randomising factors of one model later never shows in another.",
  ["histories", "configurations"],
  "All sequences of set_factor/copy/rename/intervention/submodel/randomise up to a length over small models with right and wrong factors.",
  "test_wrong_domains tries four wrong factors on one complete model; derived models are not compared after changes.",
  ["bcause/models/pgmodel.py", "bcause/models/bnet.py", "bcause/models/cmodel.py"],
  [{"name": "set_factor checks, builder, copy, rename_vars, submodel, randomize_factors", "where": "bcause/models"}],
  state=[{"name": "_factors/_domains", "meaning": "factor and domain tables of the model", "where": "bcause/models/pgmodel.py"}],
  observe=["model.factors, domains, graph, endogenous, exogenous"])

P("C23", "Graph queries follow their graph-theoretic definitions",
  "On every directed acyclic graph, parents, children, Markov blankets, barren, disconnected, d-separated and d-connected nodes are exactly those of the definitions, edge and node removals return a new graph leaving the argument unchanged, and cyclic graphs are refused by models with ValueError. The bracket notation of a graph, written and read back or given to a model, denotes the same nodes and edges, isolated and single nodes included.",
  ["inputs"],
  "All DAGs up to 4 nodes (5 up to isomorphism), all node pairs and conditioning sets; all digraphs on 3 nodes for cycle refusal.",
  "test_bnet checks one 4-node graph; d-separation utilities and the notation are not tested.",
  ["bcause/util/graphutils.py", "bcause/models/pgmodel.py", "bcause/models/cmodel.py"],
  [{"name": "graphutils functions", "where": "bcause/util/graphutils.py"}],
  observe=["graphutils functions, get_parents/get_children/markov_blanket, get_dag_str"])

P("C24", "Observation blankets keep all the information and lose no rows",
  "For a target variable and a data set whose rows observe the same variables, the minimal observation blankets are distinct partial observations such that every row extends exactly one of them and the posterior of the target given the blanket equals its posterior given the whole row, in every network with that graph. Rows where the target is missing, with whatever other entries missing, are each reduced to the observed variables that are d-connected to the target given the other observed ones.",
  ["inputs", "configurations"],
  "All DAGs up to 4 nodes, all targets, all sets of observed variables, all row sets of a small data set; all pairs of missing patterns.",
  "No test uses the data dependency analysis directly; EMCC tests only fully observed endogenous variables.",
  ["bcause/util/datadeps.py", "bcause/util/graphutils.py"],
  [{"name": "DataDepAnalysis.get_minimal_obs_blanket", "where": "bcause/util/datadeps.py"}],
  observe=["DataDepAnalysis(...).get_minimal_obs_blanket(target)"])

P("C25", "Randomly generated factors are valid whatever the random draws",
  "Random and uniform multinomial factors are non-negative and sum to one over the left variables for every configuration of the right ones, strictly positive when zeros are not allowed; random deterministic factors put mass one on exactly one left assignment per right configuration and every such function can be drawn, all equally likely. Filling or randomising a model's factors sets exactly the requested variables with the given domains, in place or on a copy as asked. A random assignment gives every variable one of its states, and equal seeds give equal results.",
  ["inputs", "schedules"],
  "All resolutions of the random draws (extreme and interior values) for small domains, left/right splits, orders and storage types; small models.",
  "Tests draw from one seed.",
  [MULT, "bcause/util/domainutils.py", "bcause/util/arrayutils.py", "bcause/models/cmodel.py", "bcause/models/bnet.py"],
  [{"name": "random_multinomial, uniform_multinomial, random_deterministic, normalize_array, fill_random_*", "where": "bcause"}],
  observe=["random_*/uniform_* factors; fill_random_factors, randomize_factors"])

P("C26", "A model's probabilities, views and conversions describe one distribution",
  "The probability (log-probability, also restricted to some variables) a model gives to complete observations of positive probability is the product (sum of logarithms) of its factors' values at each of them, in the order given, and foreign entries are ignored. The domains, sizes, parents, children, factors, endogenous and exogenous variables and graphs a model shows are those of its graph and factors. Converting a causal model to a Bayesian network or to multinomial tables, or a Bayesian network with deterministic non-root tables to a causal model (any other is refused with ValueError), keeps graph and factor values. Fusing models of the same class at common roots gives the union of the graphs with the first model's root factors and each model's other factors; fusing at a variable that is not a root in some model raises ValueError. The models given are never changed.",
  ["inputs"],
  "All labelled DAGs with few nodes, all small causal structures, all pairs (and some triples) of networks to fuse.",
  "Tests look at one model and one observation.",
  ["bcause/models/pgmodel.py", "bcause/models/cmodel.py", "bcause/models/transform/conversion.py", "bcause/models/transform/combination.py"],
  [{"name": "prob, log_prob, get_domains, get_varsizes, to_bnet, fusion_roots, bnet_to_causal", "where": "bcause/models"}],
  observe=["model.prob(...), model.log_prob(...), model.to_bnet(), fusion_roots(...)"])

P("C27", "Interval factors keep exactly the bounds they are given",
  "An interval factor shows, for every assignment, exactly the lower and upper value it was given (last variable fastest) or, when built from precise factors over the same variables and states listed in any variable order, the smallest and largest of their values: when read with a bound, in the value list (all lower values, then all upper ones), in the value dictionary and in its two stores, in every storage type. Restricting to observed states (foreign variables ignored) and renaming keep bounds, states and the left and right sides, never mention internal variables, and leave the original unchanged. Bounds of wrong sizes, different domains and inconsistent sides raise ValueError.",
  ["inputs", "configurations"],
  "All small scopes and orders, all side splits, storage types, observations and renamings; all envelopes of up to three factors in all variable orders.",
  "The tests read two interval factors after learning.",
  ["bcause/factors/imprecise.py", "bcause/factors/factor.py"],
  [{"name": "IntervalProbFactor, from_precise, restrict, rename_vars", "where": "bcause/factors/imprecise.py"}],
  observe=["IntervalProbFactor get_value/values/values_dict/restrict/rename_vars"])

P("C28", "Learning with missing values performs exact EM steps on any network",
  "For a data set whose rows observe any of the variables of a Bayesian or causal network (missing entries or absent columns), every step of expectation maximisation from a given starting model sets each trainable factor to the expected counts given each row's observed values under the previous step's model, normalised for every parent configuration of positive expected count, and keeps every other factor. Each row counts once, including equal rows and rows with nothing observed. The trained variables are the given ones or, by default, those with missing values. The number of stored steps and their order are as requested, and the starting model and the data are unchanged.",
  ["inputs", "histories", "configurations"],
  "All small data sets with missing entries, all small networks, trainable sets and numbers of steps; every stored step is compared with an exact one.",
  "Tests run EM on complete endogenous data and look at the last step or at its convergence.",
  ["bcause/learning/parameter/expectation_maximization.py", "bcause/learning/parameter/gradient.py", "bcause/util/datadeps.py"],
  [{"name": "ExpectationMaximization.run", "where": "bcause/learning/parameter"}],
  observe=["ExpectationMaximization(model, trainable_vars).run(data, max_iter): model_evolution"])

P("C29", "Factors given as pruned trees equal the tables they denote",
  "A factor given as a tree, where every branch may test the variables in its own order and stop at a shared leaf before testing all of them, has the same values as its table of all assignments: when read cell by cell, as list, array or dictionary and after marginalising, maximising out, restricting, renaming, and combining with numbers and other trees with + - * / (zero over zero being zero). Restrictions, marginals and combinations remain trees over the remaining variables with their states. Writing one cell changes that cell only, in that store only, and no operation changes the trees given.",
  ["inputs", "histories"],
  "All trees over up to three variables with leaves at any depth, all operations and orders, all pairs of small trees, sequences of writes.",
  "Tests only build complete trees from value lists.",
  ["bcause/factors/values/treedictstore.py", "bcause/factors/values/treedictops.py", "bcause/util/treesutil.py"],
  [{"name": "TreeDictStore, TreeDictStoreOperations", "where": "bcause/factors/values"}],
  observe=["MultinomialFactor(domain, tree, vtype='treedict') and its operations; store.set_value"])


P("C30", "Requests that have no answer are refused and leave everything usable",
  "A request that the model, the data or the factor cannot answer raises an exception, whatever else it says, instead of returning a result. Queries: a target that is repeated (in a query without conditioning), observed, conditioned on or intervened on; a conditioned variable that is observed; targets, conditioned, observed or intervened variables that the model does not have; states a neighbouring observed variable or an intervened variable does not have; no target; running before compiling; counterfactual worlds that do not exist, or not one per target; no models to combine. Factors: a number of values that does not fit the domain, sides that do not partition the variables, malformed domains and internal names, states outside the domain when restricting, reading, writing or making constants, combining different storage types, sampling fewer than one row or from a conditional factor. Models and files: cyclic graphs, interventions on unknown variables or states, elimination heuristics with a wrong signature, unknown formats and labels, missing, empty and truncated files. Learners: unknown variables and, in the columns a learner looks at, unknown states; gradient learning of variables that are observed, endogenous, or share a child with another exogenous one; fewer than one model. Interval factors from bounds or factors that do not match; fusions on variables with parents; equations that are not deterministic; probabilities of causation of variables without a true and a false state. After any number of refusals the model, data, factors and arguments are unchanged and the same engine answers the next valid request correctly.",
  ["inputs", "histories"],
  "All placements of one fault in all role assignments over all small networks and several causal models, all small factor scopes and storage types, and every file truncation, interleaved with valid requests.",
  "Tests check a handful of errors, never that the engine answers correctly afterwards.",
  ["bcause/inference/probabilistic/probabilistic.py", "bcause/inference/causal/causal.py", "bcause/inference/causal/multi.py", "bcause/factors/mulitnomial.py", "bcause/factors/values/store.py", "bcause/util/assertions.py", "bcause/models/pgmodel.py", "bcause/readwrite"],
  [{"name": "ProbabilisticInference.query / compile, CausalInference.query, factor constructors and operations, readers", "where": "bcause"}],
  observe=["exceptions raised by query, compile, causal_query, counterfactual_query, factor and model constructors and methods, read and save; the next valid answer"])


P("C31", "Results that depend on chance are determined by the seed",
  "After bcause.util.randomUtil.seed(n), a random operation (sampling a model or a factor, drawing random factors, equations, marginals and assignments, randomising a model, learning from random starts with EM or gradient descent and combining the runs) gives the same result whenever the same operations are made: whatever ran before the seeding, whatever deterministic operations (queries with any heuristic, interventions, likelihoods, learning from given parameters, building and describing models) are made in between, and in any process, whatever its hash seed. Drawing real-valued results twice in a row, or with other seeds, gives other results.",
  ["histories", "inputs"],
  "All pairs of random operations and every deterministic operation before every random one, over several models and seeds, and the same operations in processes with other hash seeds.",
  "Tests run once, in one process, in one order.",
  ["bcause/util/randomUtil.py", "bcause/factors/mulitnomial.py", "bcause/models/sampling.py", "bcause/models/cmodel.py", "bcause/models/bnet.py", "bcause/inference/ordering.py", "bcause/learning/aggregator/aggregator.py", "bcause/inference/causal/multi.py"],
  [{"name": "seed, sample, random_multinomial, random_deterministic, randomize_factors, fill_random_*, ModelAggregator", "where": "bcause"}],
  observe=["values drawn and learned after seed(n)"])

P("C32", "Enumerations, positions and sub-domains describe the same space",
  "For every domain (any number of variables in any order, states of any type in any order): the state and assignment spaces list every configuration once, the last variable running fastest, also in their numeric versions; steps give the position of each configuration in that list; index_list and index_iterator give, in increasing order, the positions of the configurations that agree with an observation given in any order (variables outside of the domain being ignored); coordinates, restricted domains and sub-domains agree with them; created domains have the sizes and first state asked for. Random assignments are uniform and complete over the variables to iterate. Subsets, normalisation along any axes, values given with the first variable running fastest, writing one cell, and the product of any number of factors are as defined. No argument is changed.",
  ["inputs"],
  "All ordered domains with up to three (thorough: four) variables, every observation, and every outcome of the random choices.",
  "Tests check one or two domains.",
  ["bcause/util/domainutils.py", "bcause/util/arrayutils.py", "bcause/factors/factor.py"],
  [{"name": "state_space, assingment_space, steps, index_list, values_to_coord, restrict_domain, random_assignment, normalize_array", "where": "bcause/util"}],
  observe=["values returned by the functions of domainutils and arrayutils, Factor.combine_all"])


DEFAULT_TECH = "explicit-state model checking: exhaustive bounded enumeration of executions of the real code, each compared with an executable reference"
DEFAULT_NOTE = ("Exhaustive within the bounds reported in the evidence (small-scope): the real code is run on every enumerated case and its "
                "observable result compared with a reference computed by brute force. Trusts the reference, numpy/pandas/networkx and floating-point tolerance 1e-9.")


def write():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                    quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                                    anchors=dict(files=p["files"], state=p["state"], mechanism=p["mechanism"],
                                                 observe_at=p["observe"], hook_needed=None))) + "\n")
    checks, na = [], []
    for p in PROPS:
        i = p["id"]
        if not os.path.exists(os.path.join(HERE, "mc", "checks", i.lower() + ".py")):
            na.append(dict(property=i, reason="check not built yet"))
            continue
        checks.append(dict(property=i, quick_cmd=f"bin/check {i} quick", thorough_cmd=f"bin/check {i} thorough",
                           technique=p["tech"] or DEFAULT_TECH, level="model_checking", level_note=p["note"] or DEFAULT_NOTE))
    m = dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=na,
             notes="No hooks in /repo: the checks import bcause from /repo's working tree. Violations are replayed with bin/check --replay FILE.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    write()
    for p in PROPS:
        if len(p["title"]) > 80: print("long title", p["id"], len(p["title"]))
