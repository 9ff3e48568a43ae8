#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property list)."""
import json, os
P=[]
M='src/lop/models/'; A='src/lop/active_learning/'; U='src/lop/utilities/'; B='src/lop/probits/'
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])
    if state: a['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: a['observe_at']=observe
    a['hook_needed']=None
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))

p('C01','A model\'s training data is exactly what was delivered to it',
 "After any history of adding preferences, bounded ratings and ordinal labels, adding prior points and resetting, interleaved with predictions, optimisations and selections, a model holds exactly the delivered points in delivery order (adding prior points may drop points that take part in no preference, rating or label), and every stored preference, rating and label refers to the very points it was given for with the value it was given (ratings clipped to 0.001..0.999). With dominance pairs switched on it additionally holds exactly one preference, in favour of the dominating point, for every pair of held points of which one strictly exceeds the other in every coordinate. Arrays passed in are never modified, and changing them afterwards does not change the model.",
 ['histories','schedules','inputs'],'every sequence of add/add_prior/reset calls of every data type, interleaved with reads and with the caller reusing its own buffers',
 'Tests add one or two batches of one type; they never mix types with priors, dominance pairs, resets and reads, and never reuse a buffer after handing it over.',
 [M+'PreferenceModel.py',M+'PreferenceGP.py',M+'PreferenceLinear.py',M+'GP.py'],
 [('add: index offsetting, clipping, dominance pairs',M+'PreferenceModel.py:add'),('prior points and their pruning',M+'PreferenceModel.py:add_prior,remove_without_reference'),('reset',M+'PreferenceModel.py:reset')],
 [('X_train/y_train','delivered points and observations',M+'PreferenceModel.py')],['X_train','y_train','get_prior_pts()'])

p('C02','An addition that fails leaves the model exactly as it was',
 "If adding observations or prior points raises an error, because the input is rejected (rating outside 0..1, label below 1, an unsupported type or container, mismatched shapes, references to points that do not exist) or because an allocation fails part-way, then the stored points, the stored observations and every later prediction are the same as if the call had never been made. A call given unusable observations raises an error rather than returning having stored part of them. The same addition retried with valid input afterwards has the same effect as on an untouched model.",
 ['fault_sequences','crash_points','histories','inputs'],'every failing addition at every position of a history, with the failure injected at any array operation of the call',
 'Tests only assert that two invalid inputs raise; none looks at the state afterwards and no test makes an allocation fail.',
 [M+'PreferenceModel.py',M+'GP.py'],[('validate before commit',M+'PreferenceModel.py:add'),('GP add',M+'GP.py:add')],None,['X_train','y_train','predict()'])

p('C03','Predictions depend on the data held, not on how or when it arrived',
 "Two preference GP models with the same kernel and settings that hold the same observations give the same predictive mean, variance and covariance (within the optimiser's tolerance), whatever the order and batching in which the observations were delivered and whatever predictions, explicit optimisations and selections happened in between, a reset followed by re-delivery included. In particular the first prediction after an addition reflects it.",
 ['histories','schedules'],'all orders, batchings and interleavings of delivery with reads, resets and selections',
 'Tests fit one fixed batch and check a few signs; staleness and order effects need histories with reads between additions.',
 [M+'PreferenceGP.py',M+'PreferenceModel.py',M+'GP.py'],[('lazy refit on data change',M+'PreferenceGP.py:predict,optimize'),('dirty flag',M+'PreferenceModel.py:add'),('mode search',M+'PreferenceGP.py:find_mode')],
 [('optimized','fit is current',M+'PreferenceModel.py')],['predict()','predict_large()'])

p('C04','Transient numerical or disk faults never yield a silently wrong answer',
 "If a factorisation or matrix inversion fails transiently, or the diagnostic file cannot be written, while a preference model is being fitted, queried or used for a selection, the call either raises an error or returns the answer the fault-free run gives (within optimiser tolerance). Once the faults stop, the next prediction is the fault-free one: no poisoned state is kept. A kernel matrix that is singular by itself is also either fitted to a correct answer or reported as an error, never answered with arbitrary values.",
 ['fault_sequences','schedules'],'every placement of failing linear-algebra calls and disk writes over fit, query and selection calls',
 'No test makes a linear-algebra call or file write fail, so every recovery path in the fit and in prediction is unexecuted.',
 [M+'PreferenceGP.py',M+'PreferenceModel.py',M+'PreferenceLinear.py'],[('fallback on failed factorisation',M+'PreferenceGP.py:predict,find_mode'),('fallback on failed inversion',M+'PreferenceModel.py:newton_update')],None,['predict()','F','optimized'])

p('C05','An interrupt always gets through and leaves a model that recovers',
 "An interrupt arriving at any point while a model is fitting (hyperparameter search included), predicting or selecting stops the call and reaches the caller; it is never swallowed. Afterwards the training data is unchanged, and with fixed hyperparameters the next prediction equals that of a model that was never interrupted; after an interrupted hyperparameter search the next prediction is the one that belongs to the full data and the hyperparameters then in force.",
 ['crash_points','schedules'],'every point of execution (source line) of fit, prediction, hyperparameter search and selection at which the interrupt may land',
 'Tests never interrupt a call; the window matters line by line, in particular inside broad exception handlers.',
 [M+'PreferenceGP.py',M+'PreferenceModel.py',A+'MixedStrategy.py',A+'RateChooseLearner.py'],[('exception handlers',M+'PreferenceGP.py, '+M+'PreferenceModel.py'),('optimised flag set last',M+'PreferenceGP.py:optimize,hyperparameter_search')],None,['predict()','X_train','y_train'])

p('C06','A selection is always a valid, honestly reported query',
 "Every learner's selection returns the requested number of candidate indices, distinct and in range and (for queries built point by point) none of them previously selected; learners that can answer with a rating query return exactly one index for it. Preferred points (a given list or set, the first so many candidates, or the non-dominated ones) are used up before any other point, the currently best eligible point comes first when nothing was selected before and the learner includes the best, and the reported not-selected points are distinct candidates, neither selected now nor before nor preferred, which the metric ranked ahead of a selected one (all such candidates ahead of a selected preferred point, where the metric does not depend on what is already selected). With fewer eligible candidates than requested the call raises. Best-point, upper-confidence and random learners pick by their documented metric.",
 ['histories','configurations','inputs','schedules'],'all learners, candidate sets, query sizes, previous selections, preference forms and random seeds, along histories of queries and answers',
 'Tests use a handful of fixed candidate sets and mostly one learner; pair-based learners and size-one queries with previous selections are not covered.',
 [A+'ActiveLearner.py',A+'AcquisitionSelection.py',A+'AcquisitionBase.py',A+'BestLearner.py',A+'UCBLearner.py',A+'GV_UCBLearner.py',A+'RandomLearner.py',A+'RateChooseLearner.py',A+'AbsAcquisition.py',A+'MixedStrategy.py',U+'pareto.py'],
 [('select',A+'ActiveLearner.py:select'),('greedy/pair selection',A+'AcquisitionSelection.py'),('preferred points',A+'ActiveLearner.py:get_prefered_set_of_pts')],None,['select() result'])

p('C07','Choosing a query never changes what the model has learned',
 "A selection leaves the model's training data, hyperparameters and predictions, and the caller's candidate array and argument collections, exactly as they were. This also holds when the selection fails part-way, whether by an error in a numerical routine, an interrupt, or a candidate set that is too small.",
 ['fault_sequences','crash_points','histories'],'every learner, model state and point of failure inside a selection',
 'Tests check the returned indices only, never the model before and after, and never a selection that fails.',
 [A+'ActiveLearner.py',A+'MixedTypeDecision.py',A+'MixedStrategy.py',A+'RateChooseLearner.py',A+'BayesInfoGain.py',A+'AbsAcquisition.py'],
 [('temporary overrides during alignment decision',A+'MixedTypeDecision.py:determine_query_type'),('sampling from the posterior',A+'ActiveLearner.py, '+A+'AcquisitionBase.py')],None,['model state before/after select()'])

p('C08','A learner carries no stale samples from one query to the next',
 "What a learner selects depends only on the model, the current candidates and arguments, the random draws and its documented query counters: a learner with a history of earlier selections, failed ones included, over other candidate sets and model states chooses exactly what a fresh learner with the same counters chooses from the same random state.",
 ['histories','fault_sequences'],'all histories of selections over changing candidate sets, models and failures preceding a selection',
 'Tests build a fresh learner for each selection, so state left over from an earlier one cannot show.',
 [A+'AcquisitionBase.py',A+'MixedStrategy.py',A+'RateChooseLearner.py',A+'AbsAcquisition.py',A+'BayesInfoGain.py'],
 [('sample-cache flags',A+'AcquisitionBase.py:set_samples,unset_samples'),('clearing after use',A+'MixedStrategy.py, '+A+'RateChooseLearner.py')],None,['select() result'])

p('C09','Mixed query types follow their protocol',
 "Learners that mix rating and comparison queries issue them by their documented protocol: strict alternation starting with a comparison, a fixed number of ratings followed by comparisons only, the configured fixed or random rating probability, the configured number of alignment-seeking queries before a decision, and otherwise the type with the larger (weighted) metric (the equal-checking learner asks for a rating when two options of the chosen comparison that share a coordinate are estimated alike). A selection that fails does not advance the protocol, attaching a model starts it afresh, and independent learners never share protocol state.",
 ['histories','fault_sequences','configurations'],'all sequences of selections, failures and model attachments, for all mixed learners',
 'No test runs any of these learners for more than two queries in a row and most have no test at all.',
 [A+'MixedStrategy.py',A+'MixedTypeDecision.py',A+'RateChooseLearner.py'],
 [('query counters and probabilities',A+'MixedStrategy.py'),('alignment decision',A+'MixedTypeDecision.py'),('metric comparison',A+'RateChooseLearner.py')],None,['query type sequence'])

p('C10','A session is reproducible from its random seeds',
 "A whole active-learning session (data, fits, selections, synthetic users, evaluations) is a function of its inputs and the two global random seeds: rerun with the same seeds it yields bit-identical queries, answers and predictions, whatever ran earlier in the process, the hash seed, the wall clock, or the order in which parallel integration workers finish. Different seeds give different randomised choices.",
 ['schedules','histories','configurations'],'all seeds, prior process activity, hash seeds, clocks and worker completion orders',
 'Tests seed once and compare nothing between two executions or environments.',
 ['src/lop'],[('random draws from the global generators',A+'*.py, '+U+'*.py'),('set/dict iteration in selection',A+'ActiveLearner.py'),('parallel quadrature',A+'AbsAcquisition.py')],None,['session transcript'])

p('C11','Independent sessions in one process do not affect each other',
 "Several sessions, each with its own model, kernel, learner and user, running interleaved in one process give each session exactly the transcript it would have had running alone with the same random stream. No model, learner, kernel, probit or user shares mutable state with another instance.",
 ['schedules','histories'],'all interleavings of the steps of independent sessions, random switch points inside a step included',
 'Tests build one model and one learner at a time.',
 ['src/lop'],[('per-instance state, mutable defaults',M+'PreferenceModel.py, '+A+'*.py, '+B+'*.py, src/lop/kernels/*.py')],None,['session transcripts'])

p('C12','Fitting finds the true posterior from any random start',
 "From any random initial guess, fitting a preference GP to preferences, ratings and ordinal labels ends at a mode of the posterior defined by its kernel and likelihoods, with the matching predictive mean, variance and covariance at any query point; when the posterior is log-concave that mode is unique and the result does not depend on the start. A Gaussian process reproduces the exact regression posterior, and a linear preference model ranks the two points of any single or mutually consistent set of preferences the right way round from any start.",
 ['schedules','inputs','histories'],'all random starts (adversarial ones included), data sets of mixed types and query points',
 'Tests check a few signs for one seed and one data set; nothing compares with an independently computed posterior.',
 [M+'PreferenceGP.py',M+'PreferenceLinear.py',M+'PreferenceModel.py',M+'GP.py',B+'PreferenceProbit.py',B+'AbsBoundProbit.py',B+'OrdinalProbit.py','src/lop/kernels/RBF_kern.py'],
 [('damped Newton mode search',M+'PreferenceGP.py:find_mode'),('line searches',M+'PreferenceModel.py'),('Laplace predictive',M+'PreferenceGP.py:predict')],None,['predict()','F'])

p('C13','Markov-chain sampling obeys its acceptance rule',
 "The Metropolis-Hastings sampler returns exactly the requested number of states; each state is the previous one or the proposal made from it, never a proposal of zero or undefined density; proposals at least as likely are always accepted and less likely ones with probability equal to the density ratio. The default proposal is symmetric about the current state. Errors raised by the user's density or proposal reach the caller.",
 ['schedules','fault_sequences','inputs'],'all draws, densities (infinite and undefined values included), proposals and callback failures',
 'Tests check the sample mean loosely for one target; single-step acceptance is never examined.',
 [U+'mcmc_sampling.py',A+'MixedTypeDecision.py',A+'BayesInfoGain.py'],[('acceptance step',U+'mcmc_sampling.py:metropolis_hastings')],None,['returned chain'])

p('C14','Random query sets and folds are valid and unbiased',
 "Randomly sampled query sets consist of the requested number of distinct sets of the requested number of distinct candidates, every set equally likely; asking for more than exist ends promptly with an error or all of them rather than never. Cross-validation folds partition the training points, hold each point exactly once for every random draw, and data restricted to a fold refers to the same points under their new numbering.",
 ['schedules','inputs'],'all random draws and sizes, including sizes at and beyond the number of possible sets',
 'Tests check shapes for one size; bias and termination only show over many draws or at the limit.',
 [U+'sample_utility.py',U+'training_utility.py'],[('unique set sampling',U+'sample_utility.py'),('k-fold split and remap',U+'training_utility.py')],None,['returned sets and folds'])

p('C15','Synthetic users answer as their choice model says',
 "A perfect user always picks a best candidate; a noisy user's choices and ratings follow the choice model with its current parameters (choice frequencies equal the stated probabilities, ratings lie in the open unit interval, concentrated around the normalised true value). Calibrating a user to an achievable accuracy yields a user with that accuracy, within the solver's tolerance, or fails with an error; answers never modify the candidates, and two users never share calibration.",
 ['schedules','histories','inputs'],'all random draws, reward functions, candidate sets, calibrations and orders of use',
 'Tests compare a few frequencies loosely for one parameter; calibrate-then-answer histories and the failure path are not tested.',
 [U+'synthetic_user.py',U+'HumanChoiceUser2.py',U+'human_choice_model.py',U+'FakeFunction.py',U+'probability_utility.py'],[('choice sampling',U+'synthetic_user.py'),('calibration',U+'synthetic_user.py:learn_beta, '+U+'HumanChoiceUser2.py')],None,['choose()','rate()'])

p('C16','Completed experiment runs survive interrupts, crashes and full disks',
 "Whenever the experiment driver stops, by interrupt, crash, error or a full disk at any point, the results file on disk is loadable and holds complete results for every run whose save had finished, never rows of runs that did not complete. A run that finishes leaves all runs' results.",
 ['crash_points','fault_sequences','histories'],'every point between and during file operations of an experiment of several runs',
 'Experiments have no tests at all; the crash windows lie inside file writes.',
 ['experiments/single_experiment.py','experiments/experiment_helper.py'],[('per-run save and interrupt handler','experiments/single_experiment.py:main')],None,['results file after the stop'])

p('C17','Failures surface as errors, never as a hang in a debugger',
 "Whatever input, failing numerical routine or degenerate posterior a library call meets, it returns or raises within bounded time; it never stops to wait for an interactive debugger or for input. The error that surfaces is an ordinary exception that the caller can handle.",
 ['fault_sequences','inputs','schedules'],'every library entry point under numerical faults, degenerate data and undefined values',
 'Tests never enter the error handlers that start a debugger.',
 [M+'PreferenceGP.py',M+'PreferenceModel.py',A+'AcquisitionBase.py',A+'AcquisitionSelection.py',A+'AbsBayesInfo.py',A+'RateChooseLearner.py',B+'PreferenceProbit.py'],[('error handlers',M+'*.py, '+A+'*.py, '+B+'*.py')],None,['pdb/stdin reached'])

p('C18','Reading a trained model is repeatable and free of side effects',
 "Once a model is fitted, predicting any number of times, for any candidates and in any order, returns bit-identical results, draws no random numbers, and changes neither the query array nor the model; predicting in one large call or piecewise agrees within rounding, and asking for the best candidate returns the one with the highest prediction. Arrays handed out by one prediction are not changed by later calls.",
 ['histories','schedules'],'all interleavings of reads of any size on all model types',
 'Tests predict once per model.',
 [M+'PreferenceGP.py',M+'GP.py',M+'PreferenceLinear.py',M+'Model.py'],[('predict and predict_large',M+'PreferenceGP.py, '+M+'GP.py'),('best candidate',M+'Model.py:select_best')],None,['predict()','random state'])

p('C19','Hyperparameter search ends in a consistent, correctly assigned model',
 "After a hyperparameter search, whatever the random restarts and folds, all tuned hyperparameters are finite, each parameter was restarted from its own prior, parameters not subject to tuning are untouched, and predictions are those of the full training data under the final hyperparameters. The search terminates within its iteration bound and leaves the training data unchanged.",
 ['schedules','histories','configurations'],'all random restarts, fold assignments, data-type mixtures and kernel settings',
 'Tests run the search for one data set and only check that it returns.',
 [M+'PreferenceGP.py',M+'PreferenceModel.py',U+'training_utility.py','src/lop/kernels/RBF_kern.py',B+'ProbitBase.py'],[('restart, fold loop, rollback',M+'PreferenceGP.py:optimize,hyperparameter_search,randomize_hyper'),('hyperparameter vector layout',M+'PreferenceModel.py:get_hyper,set_hyper')],None,['get_hyper()','predict()'])

p('C20',"An experiment's recorded results describe the session that was run",
 "Whatever environment, learner, query type, model, user and utility an experiment session is given, it runs with exactly those: every training query is drawn from a different training scenario of that environment, the user answers exactly the paths selected, and the model receives exactly those paths and answers and nothing else (with dominance pairs switched on also, without answers, the Pareto paths considered and not shown). Every returned row (query type, correctness, rank, scores, regret, correlations, accuracy) and recorded model state describes the model as it was after that many queries. The recorded environments stay as they were, so a session repeated from the same seeds gives the same results; a session hit by a fault or interrupt raises rather than returning partial or wrong results, and can be run again.",
 ['histories','configurations','fault_sequences','schedules'],'all combinations of selector, query type, model, user and utility, all seeds, and faults or interrupts at any point of a session',
 'Experiments have no tests at all; a result row can only be judged against the model as it was at that moment of that session.',
 ['experiments/experiment_helper.py','experiments/GP_visualization.py',A[:-1],U+'synthetic_user.py',U+'preference_pairs.py'],[('training loop and evaluation','experiments/experiment_helper.py:train_and_eval,evaluation'),('set-up of learner, model, user and utility','experiments/experiment_helper.py:get_active_learner,get_model,get_synth_user,get_fake_func'),('state recording','experiments/GP_visualization.py:record_gp_state')],None,['train_and_eval() results','recorded state files','model training data'])

p('C21',"Sampling learners ask what their measure ranks highest",
 "A learner that samples its beliefs (mutual information, expected alignment of pairs or ratings, information about the best candidate, probability of being best) draws them from the model's current posterior over the candidates and its representative points, and each point or pair it picks has the highest value of its documented measure on exactly those draws, given the points already in the query. The strength it reports is that value. This holds for every model it supports, alone or sharing samples with another learner, after any history of selections, additions, model changes and failed selections, and for extreme draws.",
 ['inputs','histories','fault_sequences'],'all models, candidates, queries, alignments, draws, and histories with selections failing or interrupted at any point',
 'The choice depends on the draws: tests only check that some valid index comes back, or one seeded example.',
 [A+'AcquisitionBase.py',A+'AcquisitionSelection.py',A+'AbsAcquisition.py',A+'MutualInfoLearner.py',A+'BayesInfoGain.py',A+'ProbabilityLearner.py',A+'ActiveLearner.py'],[('draws and representative queries',A+'AcquisitionBase.py:get_samples_from_model,get_representative_Q,alignment'),('expected alignment',A+'AcquisitionSelection.py:select_greedy,select_pair'),('rating integral',A+'AbsAcquisition.py:select_greedy,pq_integrand'),('mutual information',A+'MutualInfoLearner.py:calc_info_gain')],None,['select() indices','sel_metric'])

# Pure functions of their inputs: listed, not claimed.
p('N01','Likelihood derivatives match the likelihoods',
 "For every likelihood, the first, second and third derivatives and hyperparameter gradients equal the derivatives of the log-likelihood it reports.",
 ['inputs'],'all latent values, labels and parameters','Tests compare with finite differences at a few points.',
 [B+'PreferenceProbit.py',B+'AbsBoundProbit.py',B+'OrdinalProbit.py'],[('closed-form derivatives',B+'*.py')])
p('N02','Kernels are valid covariance functions with right gradients',
 "Every kernel yields symmetric positive semi-definite matrices and its parameter gradients equal the derivatives of its values.",
 ['inputs'],'all point sets and parameters','Tests evaluate a few points.',
 ['src/lop/kernels/'+f for f in ('RBF_kern.py','RBF_kern_zeroed.py','LinearKern.py','PeriodicKern.py','KernelFunc.py')],[('cov and cov_gradient','src/lop/kernels/*.py')])
p('N03','Preference-pair and rank encodings are mutually consistent',
 "Encodings of rankings and ratings as preference pairs contain each implied comparison once with the right direction.",
 ['inputs'],'all rankings and ratings','Tests use a few rankings.',
 [U+'preference_pairs.py'],[('pair generation',U+'preference_pairs.py')])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
