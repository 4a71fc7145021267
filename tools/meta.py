"""Writes properties.jsonl and MANIFEST.json (the single source of their texts)"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'src/sims_pars/'
P = []


def prop(pid, title, statement, over, text, why, files, mech, tech, note):
    P.append({'id': pid, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': [S + f for f in files], 'mechanism': [{'name': n, 'where': S + w} for n, w in mech]}, 'technique': tech, 'note': note})


NOTE = 'Generated-input search, no proof: a violation outside the generated shapes or rarer than the number of cases can be missed. '

prop('P01', 'Expressions have the value and dependencies that ordinary arithmetic gives',
     'An arithmetic expression written as text, with numbers, variables, + - * / **, comparisons and the built-in functions (exp, log, abs, max, min, step, ifelse, logit, ...), '
     'evaluates to the value ordinary precedence gives it, whatever its spacing and brackets. The variables it is said to depend on are exactly the names it uses which are not functions. '
     'Evaluating it does not change the given values and gives the same answer again.',
     ['inputs'], 'every expression tree over the supported operators and functions, every spacing, every assignment of the variables', 'The tests evaluate a handful of fixed expressions.',
     ['util.py'], [('parsing and evaluation of expressions', 'util.py')], 'property-based testing: random expression trees against a direct evaluation', 'The oracle evaluates the tree itself.')
prop('P02', 'Calls written as text keep their name, arguments and argument values',
     'A call written as text, such as norm(mu, sd=2*x), is read as its function name and its arguments in order, with the keys of the named ones. '
     'Given values of the variables, each argument evaluates to the value of its expression, the variables of the call are those of its arguments, and a missing variable is reported rather than guessed.',
     ['inputs'], 'every call over positional and named arguments of expressions, texts and booleans', 'The tests read two or three calls.',
     ['util.py'], [('parsing of calls', 'util.py')], 'property-based testing: random calls printed and read back', '')
prop('P03', 'Definitions are completed with the defaults of the creator and nothing else',
     'Completing a call against the parameters of its creator binds positional arguments in order and named ones by name, fills the omitted ones with their defaults, and keeps the value of every given argument; the completed text read again gives the same call. '
     'Calls with a missing compulsory argument or an unknown name are refused, and what is created received exactly these values.',
     ['inputs', 'programs'], 'every creator signature (numbers, whole numbers, texts, with and without defaults) and every mix of positional, named and omitted arguments', 'The tests use one registry with a few calls.',
     ['factory/craftstation.py', 'prob.py'], [('completion of definitions and creation from them', 'factory/craftstation.py')], 'property-based testing: generated creators and calls', '')
prop('P04', 'Distributions written as text have the documented law',
     'For every family of distributions, the object read from text has the log density, support bounds, mean and standard deviation of the documented law for its parameters, given as numbers or as variables, by position, by name or by default; categories have normalised log probabilities. '
     'Values outside the support, or unknown categories, have log density minus infinity.',
     ['inputs'], 'every family, valid parameter vector, spelling, and evaluation point', 'The tests look at a few families with fixed parameters.',
     ['prob.py'], [('wrapping of laws and reading of distributions', 'prob.py')], 'property-based testing: closed-form reference laws', 'lnorm and invgamma are taken with the parameterisation which the tests of the repository pin.')
prop('P05', 'Draws follow the density of the distribution',
     'Draws from a distribution, one by one or many at a time, lie in its support and follow the law whose density the same distribution reports, independently of each other. '
     'Asking for n draws gives n values, and for one a single value.',
     ['inputs', 'schedules'], 'every family, valid parameter vector and state of the random generator', 'The tests draw without looking at the law.',
     ['prob.py'], [('sampling', 'prob.py')], 'property-based testing: goodness-of-fit of generated draws (alarm at p < 1e-9)', 'Differences of law too small for some hundred draws cannot be seen.')
prop('P06', 'Impossible parameters are rejected',
     'A distribution with a parameter out of its range (a scale or rate that is not positive, a probability out of [0, 1], a size that is not a positive whole number) is refused, whether the value is written or computed from other variables. '
     'A network evaluated at values which make the parameters of a variable impossible reports log density minus infinity instead of failing.',
     ['inputs'], 'every family and every way to put one parameter out of range', 'The tests have one or two invalid calls.',
     ['prob.py', 'bayesnet/loci.py'], [('validation of parameters', 'prob.py'), ('evaluation of random variables', 'bayesnet/loci.py')], 'property-based testing: one broken parameter at a time', '')
prop('P07', 'Weighted resampling keeps probabilities proportional to the weights',
     'Resampling returns the requested number of members, each one of those given (with its own paired parameters) and never one of zero or undefined weight, with frequencies proportional to the weights whether they are given as logs or not. '
     'The reported evidence is the log of the mean weight.',
     ['inputs', 'schedules'], 'every vector of weights, paired values, size and state of the random generator', 'The tests call it once.',
     ['util.py'], [('resampling', 'util.py')], 'property-based testing: frequencies against weights', 'Evidence is only claimed for as many draws as members.')
prop('P08', 'Graph queries agree with the paths of the graph',
     'Parents, children, ancestors, descendants, roots, leaves, orders, acyclicity, what lies above or below a set of nodes, and the subgraph spanned by nodes are exactly what following the edges gives, for any listing order of nodes and edges. '
     'Queries do not change the graph.',
     ['inputs'], 'every directed graph and set of nodes', 'The tests query one or two fixed graphs.',
     ['bayesnet/dag.py'], [('queries', 'bayesnet/dag.py')], 'property-based testing: naive search as reference', 'Graphs of up to nine nodes.')
prop('P09', 'Requirement analysis finds exactly the needed variables',
     'What is needed to compute targets when some variables are given is exactly what walking backwards from the targets meets when it stops at the given variables: nothing needed is missing and nothing screened off is included. '
     'Results come in an order where causes go first, and the graph is left unchanged.',
     ['inputs'], 'every acyclic graph, set of targets and set of given variables', 'The tests ask about a fixed graph.',
     ['bayesnet/dag.py'], [('sufficient, minimal and required nodes', 'bayesnet/dag.py')], 'property-based testing: naive backward walk as reference', 'Graphs of up to nine nodes.')
prop('P10', 'Graph edits change what they name and nothing else',
     'Adding, merging, removing the incoming or outgoing edges of a node, and removing everything above or below nodes do exactly this to nodes and edges, in any sequence. '
     'Merging leaves the merged graphs unchanged.',
     ['histories'], 'every history of edits on every graph', 'The tests do no edits or single ones.',
     ['bayesnet/dag.py'], [('edits', 'bayesnet/dag.py')], 'model-based testing: histories of edits against a naive graph', 'Histories of up to 14 edits.')
prop('P11', 'Scripts are read as the network they describe',
     'A script gives the network with its name and exactly the variables it defines, with their kind, parents, values or laws and descriptions, and the undeclared variables it uses as exogenous ones; its order puts causes first, and its roots, leaves, exogenous variables and random roots are those of the graph. '
     'The order of lines, spacing, tabs, blank lines and comments do not matter, and a later definition of a variable replaces the earlier one.',
     ['inputs', 'programs'], 'every network and every way to write it', 'The tests read a few tidy scripts.',
     ['bayesnet/bn.py', 'bayesnet/loci.py'], [('reading scripts', 'bayesnet/bn.py'), ('reading definitions', 'bayesnet/loci.py')], 'property-based testing: generated scripts against the network they were printed from', '')
prop('P12', 'Networks survive being printed as scripts',
     'A network printed as a script and read again is the same network: variables, kinds, parents, values, laws, descriptions and roles. '
     'This holds for networks built definition by definition, complete or not, and printing does not change them.',
     ['inputs', 'programs'], 'every network', 'The tests print without reading back.',
     ['bayesnet/bn.py', 'bayesnet/loci.py'], [('printing', 'bayesnet/bn.py')], 'property-based testing: round trip against the generating model', '')
prop('P13', 'Networks survive JSON and copying, and copies are independent',
     'A network written as JSON text and read again, cloned or copied (with or without a new name) is the same network, with its descriptions, roles and registered functions. '
     'Editing the copy never changes the original, nor the other way round.',
     ['inputs', 'histories'], 'every network, complete or not, and edits after the copy', 'The tests compare one or two networks.',
     ['bayesnet/bn.py', 'bayesnet/loci.py'], [('JSON, clone and copy', 'bayesnet/bn.py')], 'property-based testing: round trips, and edits of the copies', '')
prop('P14', 'Histories of definitions give the network of the latest definitions',
     'Whatever the sequence of definitions, redefinitions, completions and reopenings, the network is that of the latest definition of each variable, with edges from exactly its parents. '
     'A definition that would close a cycle, or a change to a complete network, is refused and leaves the network as it was.',
     ['histories'], 'every history of structural operations', 'The tests build networks once, without redefinition or errors.',
     ['bayesnet/bn.py'], [('appending, completing and reopening', 'bayesnet/bn.py')], 'model-based testing: histories against a table of definitions', 'Histories of up to 12 operations.')
prop('P15', 'Merging two networks lets the second override the first',
     'The merge of two networks has the variables of both, with the definition of the second where both define one; links to and from every variable follow the definitions kept, and exogenous variables nobody uses any more are gone; functions registered with either serve the merge, the second\'s where both register a name. '
     'A merge which would be cyclic is refused, and the merged networks do not change.',
     ['inputs'], 'every pair of networks over overlapping names', 'The tests merge one pair.',
     ['bayesnet/bn.py'], [('merge', 'bayesnet/bn.py')], 'property-based testing: merge of models', '')
prop('P16', 'Extending a network honours the choice to override',
     'Extending a network into another one gives the variables of both; where both define a variable the overriding choice decides whose definition stays, and a mere exogenous mention never replaces a definition. '
     'The source is left as it was and cyclic results are refused.',
     ['inputs'], 'every pair of networks and both choices', 'The tests extend one pair.',
     ['bayesnet/bn.py'], [('extend', 'bayesnet/bn.py')], 'property-based testing: union of models', '')
prop('P17', 'Kinds and randomness of variables follow from the graph',
     'Whether a variable is exogenous, random, computed, or has randomness given other variables, and which random variables have no random ancestor, agree with the definitions and the paths of the graph, given variables screening off what is only behind them. '
     'The topological order is one of the graph.',
     ['inputs'], 'every network, variable and set of given variables', 'The tests look at fixed networks.',
     ['bayesnet/bn.py'], [('roles', 'bayesnet/bn.py')], 'property-based testing: naive search as reference', 'Deterministic-or-not beyond constants is not claimed.')
prop('P18', 'Samples of a network are joint draws of all its variables',
     'A sample gives every variable one value: given values stay as they are, computed variables equal their expression at the sampled parents, and random ones are drawn from their law given the sampled parents, independently otherwise. '
     'Sampling is refused when an exogenous variable is missing, and the given values are not changed.',
     ['inputs', 'schedules'], 'every network, given values and state of the random generator', 'The tests sample without checking laws or parents.',
     ['fn.py', 'bayesnet/loci.py'], [('sampling', 'fn.py'), ('rendering of variables', 'bayesnet/loci.py')], 'property-based testing: consistency of samples, residuals against uniform', 'Laws are tested with 120 draws.')
prop('P19', 'Minimal sampling draws what the targets need and no more',
     'Sampling chosen targets returns them, together with exactly the variables needed for them given the given values, all mutually consistent and drawn from their laws. '
     'Only the exogenous variables which are needed must be given; a missing one is refused.',
     ['inputs', 'schedules'], 'every network, targets, given values and state of the random generator', 'The tests do this for one network.',
     ['fn.py', 'bayesnet/dag.py'], [('minimal sampling', 'fn.py')], 'property-based testing: needed sets by backward walk, residuals against uniform', '')
prop('P20', 'The log density of values is the sum over the random variables given',
     'Evaluating values of a network gives the sum of the log densities of the random variables among them given their parents; constants, computed variables and unknown names add nothing, and impossible values give minus infinity. '
     'A sampled set of values carries this number as its log probability.',
     ['inputs'], 'every network and every assignment, sampled, perturbed, partial or impossible', 'The tests evaluate a few samples without a reference.',
     ['fn.py', 'bayesnet/loci.py'], [('evaluation', 'fn.py')], 'property-based testing: reference log densities', '')
prop('P21', 'Interventions on a set of values renew what depends on them and nothing else',
     'Setting values in a set of sampled values keeps them, redraws or recomputes consistently what lies below them and leaves everything else untouched; asking for a new draw renews the variable itself as well, and unknown names change nothing. '
     'Copies, pickles and exports keep the values and the log probability, and changes of a copy do not reach the original; an intervention on values drops the outdated log probability.',
     ['histories'], 'every network and history of interventions and copies', 'The tests intervene once on one network.',
     ['bayesnet/chromosome.py'], [('interventions, copies, exports', 'bayesnet/chromosome.py')], 'model-based testing: histories of interventions', 'Histories of up to 4 interventions.')
prop('P22', 'Variables are allocated to groups as requested and computably',
     'For a tree of groups which request variables to be fixed or to float, each requested variable is fixed or offered there (or fixed already above), nothing is fixed twice on a path, and every variable of a group can be computed from what the group and those above it hold. '
     'A request to float a variable on which a fixed variable of the same group depends is refused, and nothing else is.',
     ['inputs', 'configurations'], 'every network and tree of groups', 'The tests allocate a few fixed trees.',
     ['simulation/nodeset.py', 'simulation/fn.py'], [('allocation', 'simulation/nodeset.py')], 'property-based testing: allocation checked against the graph', 'Requests for exogenous variables in child groups and for one variable twice on a path are out of the domain.')
prop('P23', 'Generated hierarchies of parameters agree with the network along every path',
     'Parameters generated for a group hold a value for each variable fixed there, consistent with their definitions given the values of the group and those above; given values stay, and a value fixed above is the same for all below. '
     'Siblings get independent draws from the law given what they share, and the log probability of each member is that of its own values.',
     ['inputs', 'histories', 'schedules'], 'every network, tree of groups, tree of members and state of the random generator', 'The tests generate a few hierarchies and look at names.',
     ['simulation/simugroup.py', 'simulation/simucore.py', 'simulation/parcore.py'], [('generation', 'simulation/simugroup.py'), ('breeding', 'simulation/parcore.py')], 'property-based testing: consistency along paths, residuals against uniform', '')
prop('P24', 'Interventions on a hierarchy reach exactly what depends on them',
     'After setting values (or asking for new draws) at a member, the set values hold at it and at everything below which holds them, what depends on them is renewed consistently, and every other value, above or beside, is untouched. '
     'Samplers and log probabilities follow the new values.',
     ['histories'], 'every hierarchy and history of interventions at any of its members', 'The tests intervene at the root of one hierarchy.',
     ['simulation/parcore.py', 'simulation/simugroup.py'], [('interventions', 'simulation/parcore.py'), ('responses of groups', 'simulation/simugroup.py')], 'model-based testing: histories of interventions over generated hierarchies', '')
prop('P25', 'Samplers draw from the conditional law given the values their member sees',
     'A sampler offered by a member, its own or shared with siblings, draws its variable from the law given the values the member sees, drawing unfixed causes anew each time. '
     'Sampling changes no value, and after its given values are updated the sampler follows the new ones.',
     ['inputs', 'schedules'], 'every hierarchy, member, sampler and state of the random generator', 'The tests draw once from a few samplers.',
     ['simulation/actor.py', 'simulation/simugroup.py', 'simulation/parcore.py'], [('samplers', 'simulation/actor.py')], 'property-based testing: two-sample tests against reference draws', 'Laws are tested with 150 draws (alarm at p < 1e-9).')
prop('P26', 'Operations on trees of parameters keep values and links as expected',
     'Breeding, siblings, prototypes, duplicates, look-up by address, removal, detachment (with or without collecting inherited values) and clones do to the tree what they say: new members are linked to the right parent, duplicates and clones hold equal values and log probabilities, detached members keep what they saw. '
     'Copies are independent of their originals, and everything else keeps its values and links.',
     ['histories'], 'every hierarchy and history of tree operations', 'The tests do single operations on one tree.',
     ['simulation/parcore.py', 'simulation/simucore.py'], [('tree operations', 'simulation/parcore.py')], 'model-based testing: histories against a model of the tree', 'Histories of up to 6 operations.')
prop('P27', 'A monitor records exactly what was kept at each step',
     'The trajectories of a monitor have one row per step, at the time of the step, holding exactly what was kept since the previous step (the latest value of each key) and nothing of other steps; resetting empties it. '
     'Monitors do not affect each other, and messages reach the log files asked for, once.',
     ['histories'], 'every history of records, steps, resets and messages', 'No test uses it.',
     ['monitor.py'], [('records and log files', 'monitor.py')], 'model-based testing: histories against lists of records', '')
prop('P28', 'Conversion to the unit interval and back is exact, monotone and within bounds',
     'Mapping a parameter of any domain (both bounds, one, or none) into the unit interval and back returns it, larger values map to larger ones, and every point of the unit interval maps into the domain. '
     'This holds for any location and scale.',
     ['inputs'], 'every domain, point and vector of them', 'The tests convert a few points.',
     ['fit/converter.py'], [('converters', 'fit/converter.py')], 'property-based testing: round trips, order and bounds', 'To a relative tolerance, points not within 1e-9 of the ends.')
prop('P29', 'Targets give the documented distances and likelihoods',
     'Targets given as numbers, estimates with an error or a range, or distributions are read as such with their value and variance; distances to points are the squared difference per standard deviation (zero only at the target), distances to distributions are minus the log density, which is the log likelihood. '
     'Malformed targets are refused.',
     ['inputs'], 'every set of targets and outputs', 'The tests read one set.',
     ['fit/targets'], [('reading of targets', 'fit/targets/__init__.py'), ('single targets', 'fit/targets/single.py')], 'property-based testing: reference formulas', 'Targets at zero with relative errors are out of the domain.')
prop('P30', 'Calibration problems expose the right parameters and total distances',
     'The free parameters of a calibration problem are its continuous random roots which are not given, with the bounds, location and scale of their law. '
     'Sampled and served parameters are complete and consistent, keep given and served values and carry their log density, and distance and log likelihood of a simulation are the sums over the targets.',
     ['inputs'], 'every network, set of targets and simulator', 'The tests use toy problems.',
     ['fit/base.py'], [('calibration problems', 'fit/base.py')], 'property-based testing: generated problems against reference formulas', '')
prop('P31', 'Particles and sets of them survive notes, copies and JSON',
     'A particle keeps its parameters, outputs and notes through copies and JSON, and later changes of a copy do not reach the original. '
     'Tables and JSON of a set of particles hold one row per particle, in order, with its parameters or outputs, and the notes of the set.',
     ['histories'], 'every particle and history of notes, copies and round trips', 'The tests do not look at them.',
     ['fit/base.py', 'fit/results.py', 'bayesnet/chromosome.py'], [('particles', 'fit/base.py'), ('sets of particles', 'fit/results.py')], 'model-based testing: histories against a model of a particle', '')
prop('P32', 'Rejection ABC accepts exactly the simulations within the tolerance',
     'The tolerance is the requested quantile of the finite distances of the test simulations, and the posterior has the requested number of particles, each a simulation of parameters drawn from the prior whose distance is within the tolerance, in parallel or not. '
     'The reported acceptance is that of the simulations made, and the posterior follows the prior restricted to the tolerance; simulations which fail (whose distance is infinite or not a number) are never used.',
     ['inputs', 'schedules', 'fault_sequences'], 'every calibration problem, settings, failing simulations and state of the random generator', 'The tests run one toy problem to completion.',
     ['fit/abcom/alg.py'], [('rejection ABC', 'fit/abcom/alg.py')], 'property-based testing: recorded simulations against the results; law of the posterior', 'Laws are tested with 150 particles of one-parameter problems.')
prop('P33', 'ABC-SMC shrinks its tolerance and keeps particles within it',
     'Tolerances never grow and follow the requested quantile, every weighted particle lies within the current tolerance, weights are a distribution, and the trace reports the rounds, tolerances, effective sizes, acceptance and numbers of simulations that occurred, those of the last fit only when a fitter is used again; it ends when the settings say so. '
     'Particles are consistent with the network and the posterior follows the prior restricted to the tolerance, in parallel or not, also when simulations or proposals fail (with an infinite distance or none).',
     ['inputs', 'schedules', 'fault_sequences'], 'every calibration problem, settings, failing simulations and state of the random generator', 'The tests run one toy problem to completion.',
     ['fit/abc_smc/alg.py'], [('sequential Monte Carlo', 'fit/abc_smc/alg.py')], 'property-based testing: recorded simulations against trace and particles; calibration of ranks', 'The posterior law is tested by its mean rank, in the interior of the prior.')
prop('P34', 'History matching keeps exactly the points the emulators find plausible',
     'Every wave trains one emulator per output on simulations of points spread over the current bounds within the unit cube. Of the points emulated within these bounds, those stay whose largest implausibility (distance from the target over the root of the model, target and emulator variances) is within the cut-off, which is raised to the quantile that keeps the requested share; the next wave keeps to the bounds of the points which stayed. '
     'The reported bounds, cut-off, acceptance, error and posteriors agree with the points simulated and emulated.',
     ['inputs', 'schedules', 'fault_sequences'], 'every calibration problem, settings, emulator outcome and state of the random generator', 'The tests run one toy problem.',
     ['fit/hme/alg.py', 'fit/hme/emulator.py'], [('waves', 'fit/hme/alg.py'), ('emulators', 'fit/hme/emulator.py')], 'property-based testing with recording emulators; a few runs with Gaussian processes', 'Most cases replace the Gaussian-process emulators by recording ones.')
prop('P35', 'Genetic operators respect bounds, parents and selection laws',
     'Crossovers build children from the values of their parents (averages, or swaps of whole values), mutations stay within the bounds of the domain and scale with the population, and selections pick only living members, with the frequencies their rule prescribes. '
     'Whole runs return a best individual of the search.',
     ['inputs', 'schedules'], 'every population, domain and state of the random generator', 'No test uses them.',
     ['fit/ga/cross.py', 'fit/ga/mutate.py', 'fit/ga/select.py', 'fit/ga/alg.py'], [('crossover', 'fit/ga/cross.py'), ('mutation', 'fit/ga/mutate.py'), ('selection', 'fit/ga/select.py')], 'property-based testing: generated populations, frequencies and metamorphic relations', 'Whole runs are a known finding (they fail).')
prop('P36', 'Probability tables and transition matrices draw with their normalised weights',
     'A table of weights over indices draws its cells with the normalised weights, and conditioning on or summing out indices, in any sequence, gives the table ordinary probability gives. '
     'A transition matrix draws the next state with the weights of the row of the current one, for one or many states, and unknown states are refused; source tables are left unchanged in their indices.',
     ['inputs', 'histories'], 'every table, history of conditioning and marginalising, and state of the random generator', 'The tests draw from one table.',
     ['data/static.py'], [('tables', 'data/static.py')], 'property-based testing: dictionary of weights as reference', '')
prop('P37', 'Time series return the data at their times and interpolate in between',
     'Series, vectors of series and Lee-Carter rates return the value at the times of the table, whatever the order of its rows, follow the chosen interpolation in between, and stay at the first or last value beyond the ends. '
     'Probability tables over time draw with the normalised weights of the nearest time.',
     ['inputs'], 'every table of times and values, interpolation and time', 'The tests read a few times.',
     ['data/timeseries.py'], [('series', 'data/timeseries.py')], 'property-based testing: plain look-up as reference', '')
prop('P38', 'Regression models give the documented expectations and laws',
     'The expectation of a linear, logistic, Poisson or multinomial model is its link formula at the covariates (booleans, numbers, categories), unrelated covariates do not matter and missing ones are refused. '
     'Its sampler and predictions follow the corresponding law with this expectation.',
     ['inputs', 'schedules'], 'every model, covariates and state of the random generator', 'The tests evaluate one model each.',
     ['data/reg/linear.py', 'data/reg/glm.py'], [('regressions', 'data/reg/glm.py')], 'property-based testing: reference formulas, goodness-of-fit of predictions', 'The multinomial model is claimed as implemented: logistic terms normalised to one.')
prop('P39', 'Survival models follow the baseline hazard times the risk ratio',
     'Cumulative hazards of exponential, Weibull and tabulated baselines and their inverses agree with their definition and with each other; the times of a proportional hazards model have cumulative hazard equal to the baseline times the risk ratio of the covariates, with matching expectation, spread, density and draws. '
     'With zero inflation, times are zero with the logistic probability and follow the model otherwise.',
     ['inputs', 'schedules'], 'every baseline, regressors, covariates and state of the random generator', 'No test looks at the laws.',
     ['data/reg/hazard.py', 'data/reg/survival.py'], [('hazards', 'data/reg/hazard.py'), ('survival regressions', 'data/reg/survival.py')], 'property-based testing: independent quadrature and goodness-of-fit', 'The density is a finite difference in the code and is compared within its accuracy.')
prop('P40', 'Functions and data models registered by the user work like built-in ones',
     'A function registered by the user can be called in expressions, and gives the value of the function at the values of its arguments; registering again replaces it. '
     'A data model registered by the user is a law for variables: it is given exactly the values of the named covariates, its draws and densities are used in sampling, evaluation, interventions and hierarchies, networks using it survive JSON, scripts and cloning, and a name cannot be registered twice.',
     ['inputs', 'programs'], 'every registered function or data model and network using them', 'The tests register one function.',
     ['util.py', 'bayesnet/loci.py', 'data/reg'], [('registries', 'util.py'), ('random variables', 'bayesnet/loci.py')], 'property-based testing: networks with the functions written out as reference', '')
prop('P41', 'The bundled example models simulate what they describe',
     'The example calibration problems draw from their priors, and simulate their outputs: binomial counts with the given chances, means of normal samples, and the solution of the SIR equations at the reported times. '
     'The distance between the data and the outputs equal to them (or the outputs of the parameters that made the data) is zero.',
     ['inputs'], 'all data and parameters of the examples', 'The tests run them once without checking outputs.',
     ['fit/toys.py'], [('examples', 'fit/toys.py')], 'property-based testing: exact laws and an independent solver', '')
prop('P42', 'Whole networks turn into simulation models with everything fixed or floating',
     'With all variables fixed, generated parameters are joint draws of the whole network and the free parameters are the random variables without random causes. '
     'With all variables or the leaves floating, exactly the variables with randomness get samplers, which follow their law given the exogenous values, and the others have values.',
     ['inputs', 'schedules'], 'every network, exogenous values and state of the random generator', 'The tests build one model of each sort.',
     ['simulation/fn.py', 'simulation/nodeset.py', 'simulation/simugroup.py'], [('standard simulation models', 'simulation/fn.py')], 'property-based testing: graph reference, two-sample tests of samplers', '')
prop('P43', 'The same seed gives the same numbers in every interpreter',
     'Reading, sampling, interventions, hierarchies, samplers, resampling and (non-parallel) calibrations under the same seed of the random generator give the same numbers when run again, also in another interpreter whose string hashes differ. '
     'Another seed gives other draws.',
     ['schedules', 'configurations'], 'every program over the library, seed and hash seed of the interpreter', 'The tests run in one interpreter and compare nothing between runs.',
     ['bayesnet/bn.py', 'fn.py', 'simulation/nodeset.py', 'fit'], [('order of variables', 'bayesnet/bn.py')], 'differential testing: the same generated program in three interpreters', 'Parallel calibrations draw in worker processes and are out of the domain.')
prop('P44', 'Names, order of requests and unrelated variables carry no meaning',
     'Renaming the variables of a network, hierarchy or calibration problem (also to names of Python or parts of one another) gives the same numbers under the new names from the same seed. '
     'Adding variables which have nothing to do with others changes nothing about them: order, roles, requirements, densities, minimal samples, interventions, allocations to groups and free parameters. '
     'The order in which variables and groups are requested decides neither where variables are put nor what is drawn.',
     ['inputs', 'configurations'], 'every network, hierarchy, calibration problem, renaming, unrelated network and order of requests', 'The tests use one naming and one order of each example.',
     ['util.py', 'bayesnet/loci.py', 'bayesnet/bn.py', 'fn.py', 'simulation/nodeset.py'], [('reading of definitions', 'bayesnet/loci.py'), ('allocation', 'simulation/nodeset.py')], 'property-based testing: metamorphic relations (renaming, unrelated variables, order of requests)', 'Renamings keep the alphabetical order, which may decide between equals. Names of the distributions and functions in use are out of the domain.')
prop('P45', 'Objects sent to other processes or deeply copied arrive whole',
     'Networks, laws, sampled values, simulation models, hierarchies of parameters with their samplers, calibration problems, particles and fitted algorithms survive pickling (any protocol) and deep copies: the same content and links, and the same draws as the original under the same seed of the common generator. '
     'Later edits, interventions, growth or notes on one side do not reach the other.',
     ['inputs', 'schedules', 'configurations'], 'every network, hierarchy, calibration problem and way of copying', 'The tests copy or pickle single objects without drawing from them.',
     ['prob.py', 'bayesnet/bn.py', 'bayesnet/chromosome.py', 'simulation/parcore.py', 'simulation/actor.py', 'fit/base.py'], [('distributions', 'prob.py'), ('parameters', 'simulation/parcore.py')], 'property-based testing: originals and copies run the same operations under the same seed', '')
prop('P46', 'Size and shape do not change an answer',
     'What holds of small networks, groups, formulas, tables, series, regressions and lists of particles holds of large ones: networks of hundreds of variables (beyond a thousand in a row) in any shape, groups requesting many variables or having many members, '
     'formulas of hundreds of terms or dozens of nested brackets and calls, long comments and names give the same answers as their definitions do, are copied without loss, and come back in a reasonable time: no work grows with the number of paths.',
     ['inputs', 'configurations'], 'every network, hierarchy, formula, table, series, regression and set of particles whatever its size and shape', 'The tests hold networks of at most a dozen variables.',
     ['bayesnet/dag.py', 'bayesnet/bn.py', 'bayesnet/script.py', 'simulation/simugroup.py', 'simulation/parcore.py'], [('networks', 'bayesnet/bn.py'), ('graphs', 'bayesnet/dag.py')], 'property-based testing: large generated objects against the reference models, under a limit of time', '')
prop('P47', 'Work shared out over processes or threads gives what one worker gives',
     'A calibration spread over several processes or threads simulates, counts, accepts and weighs as the serial one does: every kept particle is a simulation that took place with its parameters, priors and distance, none is lost or kept twice, and the reported numbers agree. '
     'Networks and hierarchies used by several threads at once give every one of them complete, consistent and own values.',
     ['schedules', 'inputs', 'configurations'], 'every calibration problem, backend, number of workers, network, hierarchy and interleaving', 'The tests run each fit once on a single core and draw in a single thread.',
     ['fit/alg/abc.py', 'fit/alg/abc_smc.py', 'fit/base.py', 'bayesnet/bn.py', 'simulation/simugroup.py', 'simulation/parcore.py'], [('workers', 'fit/alg/abc_smc.py'), ('threads', 'simulation/simugroup.py')], 'property-based testing: records of the simulations of all workers, and the reference models under forced switches of threads', 'The interleavings are those which the interpreter and the system happen to schedule.')


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k not in ('technique', 'note')}) + '\n')
    checks = [{'property': p['id'], 'quick_cmd': './check ' + p['id'], 'thorough_cmd': './check {} --tier thorough'.format(p['id']),
               'evidence_file': 'evidence/{}.json'.format(p['id']), 'technique': p['technique'], 'level': 'exploration', 'level_note': (NOTE + p['note']).strip()} for p in P]
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': './check --setup', 'checks': checks, 'not_applicable': [],
                   'notes': 'Pure Python: the checks import /repo/src directly, nothing is built. Known findings: known_findings.txt.'}, f, indent=1)
        f.write('\n')


main()
