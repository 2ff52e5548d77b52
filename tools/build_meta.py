#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note))


E_ = "obp/ope/estimators.py"
prop("P01", "Standard OPE estimators return the value of their documented formula",
     "For every valid logged data set and evaluation policy, the policy value returned by Replay Method, IPW, self-normalised IPW, DM, DR, self-normalised DR, Switch-DR, DRos, sub-Gaussian IPW/DR and Balanced IPW equals the documented formula: the mean over rounds of the estimator's per-round term, where weights, clipping, switching and baselines use the logged action at the logged position. "
     "This includes every hyperparameter value (0, infinity, ties with a weight), true or estimated propensities as configured, and a position of None for single-slot data.",
     ["inputs", "configurations"], "all logged data sets (sizes, policies incl. deterministic ones, rewards, dtypes, positions), all evaluation policies, all hyperparameter values",
     "tests/ope compare a few hand-made numbers or check loose closeness on one synthetic data set; a wrong position index, off-by-one in a clipping rule or dropped term at a tie is invisible there",
     [E_], [("per-round reward estimates", E_ + ":*._estimate_round_rewards"), ("shape/probability checks", "obp/utils.py:check_ope_inputs")],
     "property-based testing (Hypothesis) of every estimator against an independent scalar-loop reference model, plus metamorphic limits",
     "generated data up to 72 rounds, 6 actions, 4 positions; tolerance 1e-7 relative to the size of the terms")
prop("P02", "Importance-weighted estimators are exactly unbiased",
     "When the logging policy supports the evaluation policy, the expectation of the estimate over the random logged data equals the true value of the evaluation policy for IPW, DR (whatever the reward model), naive and balanced multi-logger IPW/DR, SIPS for any slate reward, IIPS for independent and RIPS/cascade-DR for cascading slate rewards, and MIPW with true embedding probabilities when the reward depends on the action only through the embedding.",
     ["inputs"], "all finite bandit/slate/embedding problems: contexts, full-support logging policies, evaluation policies, reward models and (for DR) arbitrary reward predictions",
     "unbiasedness is a statement about an expectation; the tests evaluate single random data sets with loose tolerances",
     [E_, "obp/ope/estimators_multi.py", "obp/ope/estimators_slate.py", "obp/ope/estimators_embed.py"], [("importance weights", E_), ("slate weights", "obp/ope/estimators_slate.py"), ("marginal weights", "obp/ope/estimators_embed.py")],
     "property-based testing: random small problems, the whole sample space of logged data is enumerated and the probability-weighted sum of the real estimator's outputs is compared with the true value",
     "sample spaces up to a few thousand data sets (1-2 rounds, 2-4 actions, slates up to length 3)")
prop("P03", "Confidence intervals are percentile bootstraps of the estimator's own terms",
     "For every estimator, data set, level alpha and number of resamples, estimate_interval returns the mean and the alpha/2 and 1-alpha/2 percentiles of means of resamples (with replacement, same size) of exactly the per-round (per-slate) terms whose average is the point estimate, under the documented keys, and the same seed gives the same interval. "
     "Intervals are therefore inside the range of the terms, nested in alpha and equivariant under shifting and positive scaling of the terms.",
     ["inputs", "configurations"], "all data sets, all 28 estimators, all alpha, resample counts and seeds",
     "tests only check keys and that lower <= mean <= upper on one sample; resampling the wrong terms, the wrong sample size or the wrong percentile passes",
     ["obp/utils.py", E_, "obp/ope/estimators_slate.py", "obp/ope/estimators_continuous.py", "obp/ope/estimators_multi.py", "obp/ope/estimators_embed.py"],
     [("bootstrap", "obp/utils.py:estimate_confidence_interval_by_bootstrap"), ("interval entry points", "estimate_interval of every estimator")],
     "property-based testing: bootstrap distribution enumerated exactly for small samples, differential against the bootstrap of independently computed terms, metamorphic relations",
     "exact enumeration for n<=5 with binomial error bounds; differential for all estimators")
prop("P04", "Hyperparameter tuning returns the base estimate at the selected candidate",
     "For every data set and candidate list (any order, duplicates, 0, infinity), each tuned estimator returns the untuned estimator's value and interval at the candidate its criterion selects: the smallest estimated mean-squared error (variance plus squared bias estimate or bound) for 'mse', and the SLOPE interval-intersection rule over the candidates ordered by decreasing confidence width for 'slope'. "
     "The caller's candidate list is left untouched.",
     ["inputs", "configurations"], "all logged data sets, all candidate lists, both criteria, both bias options, all six tuned estimators",
     "tests check that some candidate is selected; choosing the wrong one on particular data is not distinguished",
     ["obp/ope/estimators_tuning.py", "obp/ope/helper.py", E_], [("selection", "obp/ope/estimators_tuning.py"), ("mse scores and bias bounds", E_ + ":_estimate_mse_score"), ("deviation bounds", "obp/ope/helper.py")],
     "property-based testing against an independent model of the two selection rules that enumerates every outcome admissible under numerical ties",
     "candidates <= 6, rounds mostly <= 72 (occasionally ~600); numerically tied candidates are all accepted")
prop("P05", "Multi-logger estimators equal their documented stratified formulas",
     "For data logged by several policies, the naive estimators average per-round terms with each round's own propensity, the balanced ones use the average propensity, and the weighted ones weight each stratum by its inverse estimated variance normalised over the rounds, for IPW and DR, with clipping and estimated propensities. "
     "Estimates do not depend on how strata are labelled nor on the order of rounds, and with a single logger naive and weighted agree with the single-logger estimator.",
     ["inputs", "configurations"], "all multi-logger data sets, any stratum labels and order, all hyperparameters",
     "tests use two loggers with contiguous labels in order and loose checks",
     ["obp/ope/estimators_multi.py"], [("stratum weights", "obp/ope/estimators_multi.py"), ("round terms", E_)],
     "property-based testing against a reference model plus metamorphic relations (relabelling, permutation, single-logger reduction)", "1-4 loggers, mostly 1-72 rounds (occasionally ~600)")
prop("P06", "Slate estimators equal their documented formulas",
     "For every set of logged slates, SIPS, IIPS and RIPS return the average over slates of the sum of weighted rewards with, respectively, the slate, item-position and cascade weight; the self-normalised versions divide by the mean weight per position; cascade-DR adds its documented baseline terms. "
     "Results do not depend on slate labels or (except for cascade-DR's documented layout) on the order of rows.",
     ["inputs"], "all logged slate data sets, propensities and evaluation propensities (incl. zero)", "tests use one synthetic data set and a few boundary cases",
     ["obp/ope/estimators_slate.py"], [("slate round terms", "obp/ope/estimators_slate.py:*._estimate_round_rewards")],
     "property-based testing against a reference model plus metamorphic relations", "1-12 slates, length 1-4")
prop("P07", "Continuous-action estimators equal their kernelised formulas",
     "For every continuous-action data set, kernel and positive bandwidth, the kernelised IPW, self-normalised IPW and DR estimates equal their documented formulas with K((target - logged)/bandwidth)/bandwidth weights divided by the logged density, for real or integer-valued actions. "
     "Each kernel is the documented symmetric non-negative density with unit mass and documented support.",
     ["inputs", "configurations"], "all continuous data sets, four kernels, all bandwidths", "tests run one data set per kernel with loose tolerance",
     ["obp/ope/estimators_continuous.py"], [("kernels", "obp/ope/estimators_continuous.py:*_kernel"), ("estimators", "obp/ope/estimators_continuous.py")],
     "property-based testing against a reference model; numeric integration of the kernels", "1-60 rounds")
prop("P08", "Marginalised IPW uses the embedding's marginal weights and SLOPE selection",
     "MIPW weights each reward by the ratio of the evaluation and logging policies' probabilities of the observed embedding vector (true embedding probabilities given), or by the classifier-averaged policy ratio when they are estimated; the self-normalised version divides by the mean weight. "
     "With embedding selection, the returned value is the estimate of the subset of dimensions the documented exact or greedy SLOPE procedure selects.",
     ["inputs", "configurations"], "all embedding data sets, policies, classifiers, selection methods and deltas", "tests check ranges on one synthetic data set",
     ["obp/ope/estimators_embed.py"], [("weights", "obp/ope/estimators_embed.py:_estimate_round_rewards"), ("selection", "obp/ope/estimators_embed.py:_estimate_with_*_pruning")],
     "property-based testing against a reference model (enumeration of actions and embeddings; independent SLOPE model; recording classifier)", "1-4 embedding dimensions; selection cases with near-ties skipped")
prop("P09", "OPE front-ends report exactly what each estimator computes",
     "For every set of estimators, the front-end objects (standard, multi-logger, slate, continuous) report under each estimator's name the value, interval and relative/squared error that the estimator itself returns when called directly with the inputs meant for it, whether reward predictions, propensities, weights or embeddings are given as one array or per estimator, and with or without positions. "
     "Summary tables, relative values, default levels, and the bars and error bars drawn in figures carry the same numbers.",
     ["inputs", "configurations"], "all estimator combinations, input layouts and data sets", "tests use mock estimators and one combination each, and never look at figures",
     ["obp/ope/meta.py", "obp/ope/meta_multi.py", "obp/ope/meta_slate.py", "obp/ope/meta_continuous.py"], [("input routing", "obp/ope/meta*.py:_create_estimator_inputs"), ("summaries and figures", "obp/ope/meta*.py")],
     "property-based differential testing of the front-ends (tables and drawn figures included) against direct estimator calls", "up to 8 rounds per case; tuned estimators are not drawn (unsupported by the figures)")
prop("P10", "Malformed input is rejected instead of silently evaluated",
     "When exactly one documented requirement is broken at any single round of otherwise valid data (wrong type, dimension or length, action or position out of range, non-positive propensity, unnormalised policy, negative weight or stratum, slate propensity rules), every estimator, the OPE front-end, the reward and propensity models, the offline learners and the replay and simulation drivers raise ValueError or TypeError rather than returning a result. "
     "Ill-typed or out-of-range hyperparameters of estimators, models, policies, learners, data sets and simulators are rejected at construction, and impossible confidence levels or resample counts when an interval is requested.",
     ["inputs", "configurations"], "every argument of every estimator/learner, every documented violation, at every round index", "tests parametrise a handful of invalid values, mostly in the first round, for a part of the classes",
     ["obp/utils.py", E_, "obp/ope/estimators_slate.py", "obp/ope/regression_model.py", "obp/ope/classification_model.py", "obp/policy/offline.py"], [("input checks", "obp/utils.py:check_*"), ("constructor checks", "__post_init__ of every public class")],
     "property-based mutation fuzzing: valid generated calls with one requirement broken at a random index; oracle: must raise ValueError/TypeError", "mutation table over all estimator families (every malformed variant of every argument in each case); constructor table of ~600 bad values")

prop("P11", "Reward models are fitted on, and predict for, the right rounds",
     "For every logged data set, the reward model's prediction for each round, action and position is the base model trained on the rounds of that position only (context and action representation as features, the documented 'normal', inverse-propensity or 'mrdr' sample weights), with uniform propensities when none are given. "
     "With cross-fitting every round is predicted by a model trained on all other folds and never on the round itself, and the slate model follows the documented fitted-Q recursion from the last position to the first.",
     ["inputs", "configurations"], "all logged data sets (positions and actions missing from folds), fold counts, fitting methods and seeds", "tests check shapes, keys and error messages of fit_predict; leaking held-out rounds or mixing positions passes",
     ["obp/ope/regression_model.py", "obp/ope/regression_model_slate.py"], [("cross-fitting", "obp/ope/regression_model.py:fit_predict"), ("fitted-Q recursion", "obp/ope/regression_model_slate.py:fit")],
     "property-based testing with tabular base models (exact cell means as oracle) and provenance-recording base models (which rounds trained which prediction)", "up to 40 rounds, 5 actions, 3 positions, 5 folds")
prop("P12", "Estimated propensities and importance weights come from the right model",
     "For every logged data set, the estimated propensity of a round is the probability that the classifier trained on that position's rounds gives to the logged action (zero for actions never seen in training), and the estimated importance weight is the odds of evaluation versus logging policy for the round's context, action and position. "
     "With cross-fitting no round is used to train the model that predicts it, and calibration agrees with calibrating the same classifier directly.",
     ["inputs", "configurations"], "all logged data sets (missing actions and positions), evaluation policies, fold counts, calibration settings", "tests check shapes on one complete synthetic data set",
     ["obp/ope/classification_model.py"], [("propensities", "obp/ope/classification_model.py:PropensityScoreEstimator"), ("weights", "obp/ope/classification_model.py:ImportanceWeightEstimator")],
     "property-based testing with tabular classifiers (exact cell frequencies as oracle), provenance-recording classifiers and a differential against scikit-learn's calibration", "up to 40 rounds, 5 actions, 3 positions, 5 folds")

S_ = "obp/dataset/synthetic.py"
prop("P13", "Synthetic bandit batches are consistent with their configuration",
     "For every configuration of the synthetic, multi-logger and action-embedding data sets and every batch drawn from them, the fields fit together: expected_reward is the configured reward function's exact mean reward (truncation included) of each context and action, pi_b is the documented softmax (or deficient-support softmax) of the behaviour logits with a positive probability for each logged action, pscore is the probability of the logged action (and the documented average over loggers), and embeddings agree with their reported distributions. "
     "Ground-truth values equal the average of the evaluation policy's expected rewards, all batches of one object share one reward function, and the library's reward and behaviour functions equal their documented polynomial/sparse/logistic definitions.",
     ["inputs", "configurations", "histories"], "all configurations (reward types, functions, beta, deficient actions, strata, embedding dimensions), sequences of batches", "tests check shapes and ranges of one batch per configuration",
     [S_, "obp/dataset/synthetic_multi.py", "obp/dataset/synthetic_embed.py", "obp/dataset/base.py"], [("batch generation", S_ + ":obtain_batch_bandit_feedback"), ("reward functions", S_ + ":*_reward_function")],
     "property-based testing of generated configurations against an independent model of the data-generating process (table-driven reward functions, exact truncated-normal means, enumerated embeddings)", "up to 25 rounds, 6 actions, 4 embedding dimensions, two batches per object")
prop("P14", "Synthetic slate batches and slate values follow the configured model",
     "For every slate data set configuration, logged slates are distinct-item (or factorizable) lists whose slate, item-position and cascade propensities are the Plackett-Luce (or factorised) probabilities of the behaviour logits, and expected rewards per slot follow the documented reward structure, decay/interaction matrix, examination and click model. "
     "The ground-truth value of any evaluation policy equals the average over contexts of the sum over all slates of their probability times the expected sum of sampled rewards, and evaluation propensities of logged slates are those of the given evaluation policy.",
     ["inputs", "configurations"], "all configurations (reward structures, click models, reward types, lengths, policies), all slates", "tests compare a few hand-made pscores and check ranges elsewhere",
     ["obp/dataset/synthetic_slate.py"], [("propensities", "obp/dataset/synthetic_slate.py:_calc_pscore_given_policy_logit"), ("values", "obp/dataset/synthetic_slate.py:calc_ground_truth_policy_value"), ("rewards", "obp/dataset/synthetic_slate.py:action_interaction_*")],
     "property-based testing against a reference model that enumerates all slates and click patterns", "slates up to length 3-4, up to 5 actions (larger action sets for the reward lookup)")
prop("P15", "Synthetic continuous-action batches follow the configured model",
     "For every configuration, logged actions lie inside the configured bounds, pscore is the density of the configured (truncated normal or uniform) behaviour policy at the logged action, expected_reward is the configured reward function at the logged context and action, arrays have one entry per round, and the ground-truth value of an action sequence is the average of its expected rewards. "
     "The library's reward, behaviour and evaluation functions have their defining algebraic form.",
     ["inputs", "configurations"], "all bounds (also infinite), noise levels, functions, batch sizes", "tests check one configuration with fixed seed",
     ["obp/dataset/synthetic_continuous.py"], [("batch generation", "obp/dataset/synthetic_continuous.py:obtain_batch_bandit_feedback")],
     "property-based testing against an independent density model; functions identified from probe points", "up to 25 rounds")
prop("P16", "Multi-class reduction logs rewards and values of the true classes",
     "For every labelled data set (any label values), classifier, mixing weight, split and number of deficient actions, the logged data consist of exactly the held-out rows, pi_b is the documented mixture of the classifier trained on the training rows (renormalised over the available actions) and the uniform policy, pscore is the probability of the logged action, and reward is 1 exactly when the action is the row's class. "
     "Evaluation policies follow the same mixture and the ground-truth value of any policy is its average probability of the true class.",
     ["inputs", "configurations"], "all label sets, splits, mixing weights, deficient action counts, classifiers and policies", "tests use the digits data with labels 0..9 and check shapes",
     ["obp/dataset/multiclass.py"], [("reduction", "obp/dataset/multiclass.py:obtain_batch_bandit_feedback")],
     "property-based testing with rule-based recording classifiers and a reference model", "up to 40 rows, 5 classes")
prop("P17", "Open Bandit Dataset files load, split and resample without mixing rows",
     "For every data file in the Open Bandit Dataset layout, the loaded logged data are the file's rows in time order with action, position (ranked from 0), click, propensity and encoded features of the same row; a time-series split puts every training row before every test row; a bootstrap sample consists of existing rows (of the training part when split) with all fields of one row kept together and the same seed giving the same sample. "
     "The on-policy value is the mean click of the selected part.",
     ["inputs", "configurations"], "all file contents (row order, positions, categories), split sizes, sample sizes, campaigns and policies", "tests load the bundled sample only and check shapes",
     ["obp/dataset/real.py"], [("loading", "obp/dataset/real.py:load_raw_data"), ("splitting and bootstrap", "obp/dataset/real.py")],
     "property-based testing with generated data files in a scratch directory and an independent reader as the oracle", "files up to 40 rows")

prop("P18", "Context-free online policies learn from exactly the completed batches",
     "After any history of select, update and initialize calls, EpsilonGreedy, BernoulliTS and Random have committed exactly the counts and rewards of the completed batches; every selection is a list of len_list distinct valid actions, fixed by seed and history; initialize() makes the policy behave like a new one. "
     "EpsilonGreedy explores uniformly with probability epsilon (always while an action is untried) and otherwise ranks the empirical means, BernoulliTS selects by sampling the Beta posteriors (given, uniform or campaign priors) of the committed data and its batch action distribution is that selection frequency, and Random's distribution is uniform.",
     ["histories", "configurations"], "all histories of calls, batch sizes, list lengths, epsilons, priors and seeds", "tests call update once or twice and check counters; selection frequencies, batch boundaries and resets over long histories are not tested",
     ["obp/policy/base.py", "obp/policy/contextfree.py"], [("batch commits", "obp/policy/contextfree.py:*.update_params"), ("selection", "obp/policy/contextfree.py:*.select_action")],
     "stateful property-based testing against a reference model of the history; exact binomial bounds (1e-12) on selection frequencies", "histories up to 100 calls, 6 actions, 4 slots; 1500 selections per frequency case")
prop("P19", "Contextual online policies rank actions by their documented posterior",
     "After any history of select, update and initialize calls, the linear policies score actions by the ridge regression (plus the epsilon-scaled confidence width for LinUCB, Gaussian posterior samples for LinTS) of the completed batches, and the logistic policies by the diagonal-Laplace Bayesian logistic regression of Chapelle and Li updated batch by batch (plus confidence width or independent posterior samples per action). "
     "Selections are distinct valid actions fixed by seed and history, epsilon exploration is uniform, and initialize() makes the policy behave like a new one.",
     ["histories", "configurations"], "all histories, contexts (repeated, zero, collinear), batch sizes, list lengths, epsilon/alpha/lambda values and seeds", "tests check shapes and that an update changes some array",
     ["obp/policy/linear.py", "obp/policy/logistic.py", "obp/policy/base.py"], [("linear posterior", "obp/policy/linear.py:BaseLinPolicy.update_params"), ("logistic posterior", "obp/policy/logistic.py:MiniBatchLogisticRegression")],
     "stateful property-based testing against independent ridge / Newton-Laplace reference models; binomial bounds on selection frequencies", "histories up to 30 calls, 4 actions, 3 dimensions; score gaps below 2e-3 treated as ties for logistic policies")
prop("P20", "Online simulation delivers every reward once, in time, to its own round",
     "For every sequence of single steps, multi-round steps, batches and queue clearings, with or without delays, the policy receives each obtained reward exactly once, in the round where its delay ends (or when the queue is cleared), with the context and action of the round that earned it; recorded contexts, actions, rewards and totals are those of the rounds played, in order. "
     "Batches of the environment carry the configured expected rewards and delays, and exponential delays are whole rounds with the documented scale.",
     ["histories", "configurations"], "all operation sequences, delay functions, contextual and context-free policies", "tests run a few fixed sequences",
     ["obp/simulator/simulator.py", "obp/simulator/delay_sampler.py"], [("delivery queue", "obp/simulator/simulator.py:BanditPolicySimulator"), ("environment", "obp/simulator/simulator.py:BanditEnvironmentSimulator"), ("delays", "obp/simulator/delay_sampler.py")],
     "stateful property-based testing with recording policies and table-driven reward/delay functions against a queue model", "up to 6 operations of up to 6 rounds; histories that mix delayed and non-delayed rounds are outside the domain")
prop("P21", "Replay and ground-truth simulation of online policies follow the logged data",
     "run_bandit_replay returns the policy's actual choices for every logged round and updates the policy with exactly the rounds whose logged action equals its choice at the logged position. "
     "calc_ground_truth_policy_value returns the average expected reward of the actions chosen in n_sim independent runs of the policy that learn from the reward sampler; neither changes the caller's data, and the latter leaves the caller's policy as it was.",
     ["inputs", "histories"], "all logged data sets (any position layout, unlogged actions), all nine library policies and custom ones, all numbers of simulations", "tests check shapes only",
     ["obp/simulator/replay.py", "obp/simulator/simulator.py"], [("replay", "obp/simulator/replay.py:run_bandit_replay"), ("ground truth", "obp/simulator/simulator.py:calc_ground_truth_policy_value")],
     "property-based differential testing against a twin policy driven by an independent loop; Bernstein bounds for averages over simulations", "up to 25 rounds, 4 actions, 600 simulations")
prop("P22", "Coefficient drift follows its schedule however the rounds are requested",
     "For every drift interval, transition period, transition type, base weight, seasonality and split of the rounds into calls, the drifter's coefficients are constant within an interval up to the transition, move to the next interval's coefficients with the documented weights (or probabilities) over the transition period, repeat with period two when seasonal, and do not depend on how the rounds are split into calls. "
     "An environment using the drifter has expected rewards that are constant within an interval and change between intervals.",
     ["inputs", "histories", "configurations"], "all schedules, dimensions, seeds and splits into calls", "tests check hand-made values for whole-interval calls",
     ["obp/simulator/coefficient_drifter.py", "obp/simulator/simulator.py"], [("schedule", "obp/simulator/coefficient_drifter.py:CoefficientDrifter.get_coefficients")],
     "property-based testing against a closed-form schedule model and the split-invariance metamorphic relation", "intervals up to 7 rounds, up to 60 rounds; 600 intervals for frequencies")

prop("P23", "IPWLearner and QLearner learn from the right rounds and sample as documented",
     "For every logged data set, IPWLearner's classifier of a position is trained on that position's rounds with the logged action as label and reward divided by propensity as weight (uniform propensities when none are given), and QLearner's reward model as documented for its fitting method. "
     "predict returns per position the classifier's choice (the action with the highest predicted reward for QLearner), predict_score the learned scores per round, action and position (zero for actions the classifier never saw), predict_proba their softmax at the given temperature, and sample_action draws lists of distinct actions with the sequential softmax probabilities of the scores averaged over positions.",
     ["inputs", "configurations"], "all logged data sets (unbalanced actions and positions, actions never logged), base models, temperatures and list lengths", "tests use fixed classifiers and check shapes and sums; weighting the wrong rounds or mixing columns passes",
     ["obp/policy/offline.py"], [("IPWLearner", "obp/policy/offline.py:IPWLearner"), ("QLearner", "obp/policy/offline.py:QLearner")],
     "property-based differential testing with tabular base models against an independent reference, sampling frequencies with exact binomial bounds", "up to 30 rounds, 5 actions, 3 positions")
prop("P24", "Neural policy learners take gradient steps on their documented objective",
     "For every logged data set, network shape, optimiser, batch size and off-policy objective (IPW, self-normalised, DM, DR, SNDR, sub-Gaussian, optimistic shrinkage; deterministic and kernelised gradients for continuous actions), fit performs exactly the optimiser steps on the documented OPE objective with its policy and variance regularisers, until the stopping rule applies. "
     "Validation rounds never influence the trained parameters, the q-function estimator regresses rewards of the logged actions, predictions are the trained network's, and sampled actions follow its probabilities.",
     ["inputs", "configurations"], "all logged data sets, architectures, activations, optimisers, regularisation strengths, objectives and seeds", "tests check that losses decrease or shapes match; a dropped weight, wrong sign or wrong action index still trains",
     ["obp/policy/offline.py", "obp/policy/offline_continuous.py"], [("discrete objective", "obp/policy/offline.py:NNPolicyLearner._estimate_policy_gradient"), ("q-function", "obp/policy/offline.py:QFuncEstimator"), ("continuous objective", "obp/policy/offline_continuous.py:ContinuousNNPolicyLearner")],
     "property-based differential testing: the trained parameters are compared with independently written objectives differentiated in double precision and stepped with the same optimiser", "up to 12 rounds, 4 actions, 2 hidden layers, 3 epochs; cases where single precision is unstable are discarded; the stopping rule is a known finding")
prop("P25", "Operations never change the caller's data, earlier results or their own answers",
     "No estimator, tuner, evaluation front-end, reward, propensity or weight model, policy learner, data set, replay, simulation or helper function modifies the arrays, dictionaries and lists it is given. "
     "Repeating the same call with the same seed on the same object (or, for data generators, on a new one) returns the same result, and results returned earlier are not changed by later calls.",
     ["inputs", "histories"], "all public operations and inputs, and repeated calls on the same object", "tests call each operation once on fresh data and look at the return value only",
     ["obp/ope", "obp/policy", "obp/dataset", "obp/simulator", "obp/utils.py"], [("all public operations", "obp/")],
     "property-based testing over a registry of public operations: deep snapshots of inputs and results compared after every call", "26 operation families, inputs up to 150 rounds")
prop("P26", "Results are determined by the given seed alone",
     "For every public operation that takes an integer seed, the result is a function of its inputs and that seed: it does not depend on the state of the global random number generators or on other library calls made before, it leaves numpy's global generator untouched, and data generators and simulations give different results for different seeds.",
     ["inputs", "histories", "configurations"], "all public operations, seeds, global random states and interleavings with other operations", "tests fix one seed and one order of calls",
     ["obp/ope", "obp/policy", "obp/dataset", "obp/simulator", "obp/utils.py"], [("all seeded operations", "obp/")],
     "property-based testing over a registry of public operations: same seed under two global random states with another random operation in between", "26 operation families; neural learners are constructed immediately before they are fitted")
prop("P27", "Generated data are fresh, independent draws from the reported distributions",
     "For every configuration and any sequence of batches, actions are drawn with the reported probabilities pi_b (densities for continuous actions, slot-wise probabilities for slates), supports of deficient policies are uniform, embeddings follow p_e_a, and rewards have the reported expectation given everything drawn before them (including the click model and truncation). "
     "Contexts, actions, embeddings and rewards use independent randomness, across quantities, rounds and batches; bootstrap samples of logged data draw rows uniformly and independently; the environment simulator's rewards of different actions and rounds are independent given their expectations.",
     ["inputs", "histories", "configurations"], "all data set configurations, seeds, batch sizes and numbers of batches", "distributional statements; the tests look at single batches, where reused or correlated randomness and a slightly wrong probability are invisible",
     ["obp/dataset", "obp/simulator/simulator.py", "obp/utils.py"], [("sampling", "obtain_batch_bandit_feedback of every data set"), ("row bootstrap", "obp/dataset/real.py:sample_bootstrap_bandit_feedback"), ("environment", "obp/simulator/simulator.py:next_bandit_round_batch")],
     "property-based statistical testing: conditional-mean-zero residuals of every draw, tested against past, other quantities, neighbouring rounds and batches with Freedman bounds (false-alarm probability below 1e-12)", "1000-7500 rounds per case; deviations below a few percent of a standard deviation are not resolved")
prop("P28", "Confidence bounds and numeric helpers keep their mathematical guarantees",
     "The Hoeffding, empirical Bernstein and Student-t lower bounds and the bias estimates equal their documented formulas for every sample, range and level, and for independent draws from {0, b} the first two exceed the true mean with probability at most delta. "
     "sample_action_fast draws each row from its own distribution independently and never an action of probability zero, convert_to_action_dist is the one-hot encoding of the selected actions, sigmoid and softmax are accurate and finite for inputs of every magnitude, and check_array and check_tensor accept exactly arrays and tensors of the expected dimension.",
     ["inputs"], "all samples, levels, policies, magnitudes and array shapes", "tests use a few values",
     ["obp/ope/helper.py", "obp/utils.py"], [("bounds", "obp/ope/helper.py"), ("sampling and links", "obp/utils.py")],
     "property-based testing against closed forms; exact coverage by enumerating all outcomes; exact binomial bounds for frequencies", "up to 80 draws, 6 actions, magnitudes 1e-3 to 1e6")

#PROPS#

CHECKS = []
for p in P:
    CHECKS.append(dict(property=p["id"], quick_cmd="python3 /verif/run.py %s --tier quick" % p["id"], thorough_cmd="python3 /verif/run.py %s --tier thorough" % p["id"],
                       technique=p["technique"], level="exploration", level_note=p["note"]))
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))) + "\n")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd="python3 /verif/run.py --selftest", checks=CHECKS, not_applicable=[]), f, indent=1)
print(len(P), "properties")
