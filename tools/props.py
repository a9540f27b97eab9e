# One entry per property; tools/gen.py writes properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md from it.
# id: (title, statement, over, quantifier text, why tests cannot settle it, files, state, mechanism, observe_at, design text, not-applicable reason or None)
P = {}
def prop(id, title, statement, over, qtext, why, files, mechanism, observe_at, design, state=(), na=None, level="model_checking", note=""):
    P[id] = dict(title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mechanism=mechanism, observe_at=observe_at, design=design, state=state, na=na, level=level, note=note)

prop("P01", "A tree stays structurally consistent under any history of edits",
 "After any sequence of splitting a leaf, collapsing or pruning a split, overwriting a leaf value and re-initializing, a tree is a proper binary tree: parent and child links agree, every node's kind, depth, split feature, threshold, category set and leaf values are the ones last written, and deleted nodes are invisible. The lists and counts of leaves, internal nodes and leaf-parents name exactly the reachable nodes, once each, and node numbers freed by a prune can be reused without leaking old content.",
 ["histories", "inputs"], "every sequence of edits up to the bound on scalar-leaf and vector-leaf trees, any leaf values and thresholds (any 64-bit pattern)",
 "The stable tests never touch the tree class; the C++ tree tests upstream run a handful of fixed edits and never reuse freed nodes or re-initialize.",
 ["src/tree.cpp", "include/stochtree/tree.h"], [("ExpandNode / CollapseToLeaf / ChangeToLeaf / DeleteNode / AllocNode", "src/tree.cpp")], ["Tree accessors, leaf / internal / leaf-parent lists"],
 "harness p01_tree.cpp: K symbolic operations on a real Tree and on an independent reference tree (harness/ref_tree.h); after every operation every accessor is compared. Values are free 64-bit patterns. Bound: K=3 quick, 4 thorough, then a reset and another split.",
 state=[("leaves_, internal_nodes_, leaf_parents_, deleted_nodes_", "node lists", "include/stochtree/tree.h")])
prop("P02", "Any row is routed to one leaf by the documented rule, missing values included",
 "For every tree and every covariate row, prediction ends in exactly one leaf, found by going left at a numeric split when the value is at most the threshold, left at a categorical split when the value's category belongs to the split's set, and right otherwise. A missing value goes to the same side in every routine that routes an observation (evaluation and training partition alike).",
 ["inputs", "histories"], "all trees reachable with the bounded number of splits and prunes, all row values including NaN and infinities",
 "Tests use a few fixed matrices without missing values or out-of-range categories.",
 ["src/tree.cpp", "include/stochtree/tree.h"], [("EvaluateTree, SplitTrueNumeric, SplitTrueCategorical, RowSplitLeft", "include/stochtree/tree.h, src/tree.cpp")], ["leaf id returned for a row"],
 "harness p02_route.cpp: IEEE bit-pattern mode; symbolic tree of up to 2 (3) splits, optionally pruned and regrown; symbolic row of any doubles; every entry point that routes a row is compared with the reference rule.")
prop("P03", "The training partition always matches the tree that defines it",
 "While a forest is being trained, after any history of splits, prunes and tree resets the recorded leaf of each training observation is the leaf its covariates are routed to, and every node's list of observations is exactly the set routed through it. Changing one tree never changes the bookkeeping of another.",
 ["histories", "inputs"], "all histories up to the bound over numeric and categorical splits, all covariate values including missing ones",
 "No stable test exercises the partition tracker; upstream tests run one fixed split and prune.",
 ["src/partition_tracker.cpp", "include/stochtree/partition_tracker.h"], [("ForestTracker::AddSplit / RemoveSplit / ResetRoot, FeatureUnsortedPartition", "src/partition_tracker.cpp")], ["GetNodeId, node ranges and iterators"],
 "harness p03_tracker.cpp: exact-real mode, K symbolic operations on tree and tracker together; node membership recomputed from the routing rule and compared through all node accessors.")
prop("P04", "Sorted training partitions stay sorted and complete as nodes are split",
 "For each feature, the pre-sorted list of observations kept for tree growing holds, for every live node, exactly the observations of that node in ascending order of the feature, after any sequence of splits and after starting over for a new tree. Ties keep a fixed order.",
 ["inputs", "histories"], "all covariate values (ties included) and splits within the bound",
 "Tests never look at sorted partitions with ties or after several splits.",
 ["src/partition_tracker.cpp", "include/stochtree/partition_tracker.h"], [("FeaturePresortRoot, FeaturePresortPartition::SplitFeature", "src/partition_tracker.cpp")], ["sorted node iterators"],
 "harness p04_presort.cpp: symbolic covariates, symbolic splits over several features and rounds; order, completeness and node ranges asserted after every split.")
prop("P05", "A forest's prediction is the sum over trees of leaf value times basis",
 "Predicting any data set with a forest or with stored posterior samples gives, per observation and sample, the sum over trees of the value (or the dot product with the basis row) of the leaf the row falls in; raw predictions give the same per dimension. Results are laid out sample by sample, cover every observation exactly once, and do not depend on which equivalent entry point is used.",
 ["inputs", "configurations"], "all forests, rows, bases and leaf values within the bounds; constant, univariate and multivariate leaves",
 "Stable tests have no forest prediction at all; upstream ones compare a few fixed forests.",
 ["include/stochtree/ensemble.h", "src/container.cpp", "include/stochtree/tree.h"], [("TreeEnsemble::PredictInplace / PredictRawInplace, ForestContainer::Predict / PredictRaw, Tree::PredictFromNodes", "include/stochtree/ensemble.h, src/container.cpp")], ["prediction vectors"],
 "harness p05_predict.cpp: exact-real mode, symbolic forests, rows, bases; full and per-tree-range predictions, offsets, raw predictions, container predictions and predictions from recorded leaves all compared with the reference sum.")
prop("P06", "Saving and reloading a model loses nothing, now or later",
 "A tree, forest, set of forest samples, set of random-effect samples or label map that is written to JSON and read back, also into an object that was already in use, equals the original in every observable way. Editing, extending or continuing to sample from the reloaded object behaves exactly as it would for the original.",
 ["histories", "inputs"], "all trees and containers reachable by the bounded edit histories (prunes included), all values; reloading into fresh and used objects",
 "The serialization test in the stable set round-trips one fixed random-effects container; no tree with deleted nodes is ever reloaded.",
 ["src/tree.cpp", "src/container.cpp", "include/stochtree/ensemble.h", "src/random_effects.cpp"], [("to_json / from_json of Tree, TreeEnsemble, ForestContainer, RandomEffectsContainer, LabelMapper", "src/tree.cpp, src/container.cpp, src/random_effects.cpp")], ["accessors and predictions of the reloaded object"],
 "harness p06_json.cpp: edit history, to_json, from_json into a fresh or dirty target, full structural comparison, a second round trip and a further edit. Outside: the text form (nlohmann dump/parse of numbers) is third-party code and not encoded; the in-memory JSON value is.")
prop("P07", "Stored forest samples never change when others are added or edited",
 "A set of posterior forest samples keeps each sample independent: appending samples, copying the previous sample, initializing leaves or editing one forest leaves every other sample's trees and values as they were. Copies are deep.",
 ["histories", "inputs"], "all histories up to the bound of add / copy / edit / initialize operations, any values",
 "No stable test covers the forest container.",
 ["src/container.cpp", "include/stochtree/container.h", "include/stochtree/ensemble.h"], [("ForestContainer::AddSamples / AddSample / CopyFromPreviousSample / InitializeRoot, Tree::CloneFromTree", "src/container.cpp, src/tree.cpp")], ["trees of every stored sample"],
 "harness p07_container.cpp: symbolic history on a container and on a list of reference forests; all samples compared after every operation.")
prop("P08", "Leaf indices identify tree and leaf, and leaf kernels count shared leaves",
 "For any forest and data, each observation gets per tree an index that is the same for two observations exactly when they fall in the same leaf of the same tree, lies below the total number of leaves, and never collides across trees. Every leaf kernel entry equals the number of trees in which the two rows share a leaf.",
 ["inputs", "histories"], "all forests (pruned ones included) and rows within the bounds",
 "No stable test covers leaf indices or kernels.",
 ["include/stochtree/kernel.h", "include/stochtree/ensemble.h", "include/stochtree/tree.h"], [("ForestKernel::ComputeLeafIndices / ComputeKernel / ComputeKernelExternal, PredictLeafIndicesInplace", "include/stochtree/kernel.h, include/stochtree/ensemble.h")], ["leaf index vectors, kernel matrices"],
 "harness p08_leafindex.cpp: symbolic forests and rows, all pairs of (row, tree) compared with the reference leaves; all kernel entry points (stored and external matrices, Map and Eigen inputs).")
prop("P09", "The cutpoint grid offers every distinct split, or an even thinning of it",
 "For every feature and leaf the candidate cutpoints cover the leaf's observations in order: with few distinct values every boundary between distinct values (every category) is a candidate once, with more than the grid size the bins are a coarser partition whose ends lie on boundaries between distinct values. Bin sizes add up to the leaf size, never split tied values, never exceed the grid size in number, and each cutpoint separates exactly the counted observations.",
 ["inputs", "configurations"], "all feature values within the bound (ties in every pattern), numeric, ordered and unordered categorical features, leaf ranges produced by a split, grid sizes below and above the number of distinct values",
 "Tests check the grid of one fixed column; the thinning path with ties at the end of the range or of several leaves is never reached.",
 ["src/cutpoint_candidates.cpp", "include/stochtree/cutpoint_candidates.h"], [("FeatureCutpointGrid::EnumerateNumericCutpointsDeduplication, ScanNumericCutpoints, CutpointGridContainer", "src/cutpoint_candidates.cpp")], ["NumCutpoints, CutpointValue, BinStartIndex / BinEndIndex / BinLength"],
 "harness p09_cutpoints.cpp: exact reals; symbolic values (equal or more than the code's 1e-6 apart), an optional real split to get inner leaves; every accessor compared with bins recomputed from the values. Empty leaves are outside: the sampler never evaluates one.")
prop("P10", "Split scores are the exact marginal likelihood of the leaf model",
 "For the constant, univariate and multivariate leaf models, weighted or not, the score of a candidate split and the score of not splitting differ between any two candidates by exactly the difference of the log marginal likelihoods of the data under the Gaussian leaf model with the given error variance and leaf scale. Every observation of the leaf counts on exactly one side, with its own residual, basis and weight.",
 ["inputs", "configurations"], "all residuals, bases, weights, thresholds and category sets within the bounds, root and inner leaves; every leaf model",
 "Numerical integration against a few fixed values is the best a test can do; the stable tests do not touch the leaf models.",
 ["src/leaf_model.cpp", "include/stochtree/leaf_model.h"], [("SplitLogMarginalLikelihood, NoSplitLogMarginalLikelihood, EvaluateProposedSplit, IncrementSuffStat", "src/leaf_model.cpp")], ["(split score, no-split score, counts)"],
 "harness p10_marginal.cpp with the closed form in leaf_spec.h: exact reals, logs as atoms; each score minus its specification must be one constant, which is zero. Bounds: 3 (4) observations; with the two-dimensional basis either the basis or the variances are fixed numbers, since the solver does not finish with all of them symbolic.")
prop("P11", "Scanning a feature scores every admissible split once and no other",
 "The search over split rules lists, for each feature in use and each candidate bin of the leaf, the log marginal likelihood of sending exactly the observations up to that bin (for unordered categories the chosen prefix of categories) to the left. Splits leaving fewer observations than the minimum leaf size on a side are left out, the reported number counts exactly the listed splits, and the last entry is the score of not splitting.",
 ["inputs", "configurations"], "all residuals and feature values within the bounds (every order and tie pattern), numeric, ordered and unordered features and mixtures, all minimum leaf sizes up to the bound, thinned and full grids",
 "No stable test runs the scan; errors appear only with particular orderings or ties.",
 ["src/leaf_model.cpp", "include/stochtree/leaf_model.h", "src/cutpoint_candidates.cpp"], [("EvaluateAllPossibleSplits, AccumulateSplitRule / AccumulateCutpointBinSuffStat, the GFR EvaluateCutpoints", "src/leaf_model.cpp, include/stochtree/leaf_model.h")], ["log likelihoods, cutpoint features, values and counts"],
 "harness p11_allsplits.cpp: exact reals; the scan's output is compared entry by entry with the specification evaluated from membership recomputed per candidate. Bounds: 3 (4) observations, up to two features, grids of 2 and 9.")
prop("P12", "Leaf parameters are drawn from their Gaussian posterior",
 "Sampling the leaves of a tree draws each leaf's parameter from the normal posterior given exactly the residuals (and weights, bases) of the observations in that leaf, the error variance and the leaf scale, and stores it in that leaf. Each leaf is drawn once, internal nodes and other trees are untouched, the tree's structure does not change.",
 ["inputs", "histories"], "all residuals, bases, weights, variances and trees grown (and pruned) within the bounds, every leaf model",
 "A random draw cannot be compared to an expected value; no stable test looks at leaf posteriors.",
 ["src/leaf_model.cpp", "include/stochtree/leaf_model.h", "include/stochtree/normal_sampler.h"], [("SampleLeafParameters, PosteriorParameterMean / Variance, SetLeaf", "src/leaf_model.cpp")], ["leaf values after the draw, recorded normal draws"],
 "harness p12_leafdraw.cpp: exact reals; the library's normal distribution is modelled as recorded free draws (rng_model.h); with the draw fixed at 0 the leaf value is the posterior mean, and the squared distance from it equals z^2 times the posterior variance. Two-dimensional leaves use fixed numbers for basis and variances.")
prop("P13", "Grow-from-root draws each split with its posterior weight",
 "A grow-from-root pass regrows the trees one at a time. At every node, each admissible split of the allowed features is drawn with weight proportional to the exponential of its log marginal likelihood, against a no-split option weighted by the prior odds at that depth times the number of admissible splits; the drawn split is the one made. Leaves are then drawn given the partial residual. Afterwards the residual equals the outcome minus the forest's prediction, one forest has been stored, earlier stored forests are unchanged, and features with weight zero are never split on.",
 ["inputs", "histories", "configurations"], "all outcomes and covariates (ties included) within the bounds, every draw outcome, priors, weights and leaf models; one and two trees, a second pass",
 "No stable test runs the sampler; a sampler test sees random output and cannot tell a wrong split weight from a right one.",
 ["include/stochtree/tree_sampler.h", "src/cutpoint_candidates.cpp", "src/leaf_model.cpp", "src/partition_tracker.cpp"], [("GFRForestSampler::SampleOneIter / SampleTreeOneIter / SampleSplitRule, EvaluateCutpoints", "include/stochtree/tree_sampler.h")], ["recorded discrete distribution weights, stored forests, residual, tracker"],
 "harness p13_gfr.cpp: exact reals; the library's discrete and normal distributions are modelled (the chosen index and draws are free, weights recorded); the harness recomputes every node's weights from the definition in the same depth-first order and compares as exp/log forms, then compares trees, residual, tracker and earlier samples. Bounds: 3-4 observations, 1-2 features (numeric, ordered, unordered categorical), up to 2 trees, 2 passes; multivariate leaves with fixed numbers. Nodes emptied of observations do not occur (minimum leaf size at least 1).")
prop("P14", "MCMC moves are accepted with the Metropolis-Hastings probability",
 "An MCMC pass proposes for each tree either to split a uniformly chosen leaf with a feature drawn by the feature weights and a threshold uniform on the leaf's range, or to prune a uniformly chosen leaf-parent, and accepts the proposal exactly with the Metropolis-Hastings probability of its posterior ratio and reverse move. Proposals that would leave fewer observations than the minimum in a leaf, or that could not be undone, are rejected; a rejected proposal changes nothing. After the pass leaves are redrawn, the residual equals outcome minus prediction, training bookkeeping matches the trees and earlier samples are unchanged.",
 ["inputs", "histories", "configurations"], "all outcomes, covariates, proposals, uniform draws, starting trees of up to three splits, priors; one or two trees and passes",
 "A wrong acceptance ratio only shifts a stationary distribution; no stable test runs the sampler and sampled output would not show it.",
 ["include/stochtree/tree_sampler.h", "src/leaf_model.cpp", "src/partition_tracker.cpp"], [("MCMCForestSampler::SampleTreeOneIter / GrowTreeOneIter / PruneTreeOneIter, EvaluateProposedSplit / EvaluateExistingSplit", "include/stochtree/tree_sampler.h")], ["recorded proposals and uniform draws, accepted tree, residual, tracker, stored forests"],
 "harness p14_mcmc.cpp: exact reals; random draws are free values with recorded ranges and weights; the acceptance probability is recomputed from the definition (marginal likelihoods, tree prior, forward and reverse proposal probabilities) and the decision for a symbolic uniform draw has to agree. Bounds: numeric splits, 3-5 observations, starting trees of up to 3 splits, 2 trees, 2 passes; error variance and leaf scale are fixed numbers except in the first-step unit (thorough). A tree in which no move at all is possible raises the documented error and is assumed away.")
prop("P15", "Residuals stay outcome minus prediction through every update",
 "Adding or subtracting one tree's or the whole forest's predictions changes each observation's residual by exactly that observation's prediction (leaf value, or leaf value times basis for regression leaves) and nothing else. What is added back for a tree is what was last subtracted or recorded for it, even if the tree, its leaves or the basis changed in between; recorded predictions of other trees are untouched. Replacing every tree in turn leaves the residual equal to outcome minus the new forest's prediction.",
 ["histories", "inputs"], "every history up to the bound of tree edits, leaf changes, basis updates and residual updates, any outcomes, covariates and bases; constant, univariate and two-dimensional leaves",
 "No stable test touches residual updates; an error only shows as drift between residual and prediction after changes between two updates.",
 ["include/stochtree/tree_sampler.h", "src/partition_tracker.cpp", "include/stochtree/partition_tracker.h"], [("UpdateResidualTree, UpdateResidualEntireForest, SamplePredMapper", "include/stochtree/tree_sampler.h, include/stochtree/partition_tracker.h")], ["residual vector, GetTreeSamplePrediction"],
 "harness p15_residual.cpp: exact reals; K symbolic operations (split, prune, leaf change, basis update, one-tree and whole-forest updates in both directions and both modes), then a replacement step for every tree; residual and recorded predictions compared with a reference ledger after every operation. Bounds: 2-3 observations, 1-2 trees, K=2-3 quick, 3-4 thorough.")
prop("P16", "Variance draws come from the inverse-gamma posterior of the documented prior",
 "For every residual vector and prior, the error variance is drawn from IG(a + n/2, b + SSR/2) where the prior is IG(a, b) with a = nu and b = nu*lambda, and the leaf scale is drawn from IG(a + L/2, b + S/2), L and S being the number and the sum of squares of the leaf values over all trees of the forest. Each draw uses exactly one gamma draw from the supplied generator and changes neither residuals nor forest.",
 ["inputs", "histories"], "all residual vectors up to the size bound, all forests up to the split bound (grown by any sequence of splits), all prior parameters",
 "No stable test calls a variance model; sampling noise hides a wrong degree of freedom or factor.",
 ["include/stochtree/variance_model.h", "include/stochtree/ig_sampler.h"], [("GlobalHomoskedasticVarianceModel, LeafNodeHomoskedasticVarianceModel", "include/stochtree/variance_model.h")], ["PosteriorShape / PosteriorScale, the drawn variance"],
 "harness p16_variance.cpp: exact-real mode; residuals, leaf values, priors symbolic; the C++ library's gamma distribution is modelled as a free positive draw whose parameters are recorded (harness/rng_model.h), so the parameters of the draw and the way it is used are both decided exactly.")
prop("P17", "Random draws have the mean, variance and shape asked for",
 "The normal, multivariate normal and inverse-gamma samplers turn standard draws into the requested distribution: a scalar normal draw is mean plus standard deviation times a standard normal, a multivariate draw is the mean plus a factor whose product with its transpose is the requested covariance times independent standard normals, an inverse-gamma draw is the scale over a unit gamma of the requested shape. Arguments are left unchanged and all randomness comes from the supplied generator.",
 ["inputs"], "all means, variances, positive definite 2x2 covariances, shapes and scales in the stated ranges; two consecutive draws from one sampler object",
 "Tests can only sample and compare moments with a tolerance; no stable test does.",
 ["include/stochtree/normal_sampler.h", "include/stochtree/ig_sampler.h"], [("UnivariateNormalSampler, MultivariateNormalSampler, InverseGammaSampler", "include/stochtree/normal_sampler.h, include/stochtree/ig_sampler.h")], ["returned draw"],
 "harness p17_random.cpp: exact reals (square root as an algebraic function); standard draws are free values, and for the multivariate sampler unit vectors are fed as draws to read off the factor. Bound: dimension 2 (3x3 Cholesky leads to nested radicals the solver does not finish).")
prop("P18", "Data is stored element by element, whatever its memory layout",
 "Covariates, basis, weights, outcomes and group labels handed over as row-major or column-major buffers are stored so that element (i, j) reads back as the caller's element (i, j), bit for bit. Reloading, setting single elements and updating a basis change exactly the addressed elements; an update whose shape differs from the stored basis is rejected and changes nothing. The data set keeps its own copy and leaves the caller's buffers alone.",
 ["inputs", "configurations"], "all matrix shapes up to the bound, both layouts for each component, all bit patterns (NaN payloads included), any order of adding components",
 "The stable data test loads one fixed matrix per layout; updates, mixed layouts and shape mismatches are not tested.",
 ["include/stochtree/data.h", "src/data.cpp"], [("ColumnMatrix / ColumnVector LoadData, ForestDataset::UpdateBasis, RandomEffectsDataset", "src/data.cpp, include/stochtree/data.h")], ["GetElement, GetData, CovariateValue, BasisValue, VarWeightValue"],
 "harness p18_data.cpp: IEEE bit patterns; shapes and layouts are path choices, contents free 64-bit patterns. Bound 2x2 quick, 3x3 thorough. Outside: element counts beyond 2^31, where the index type itself overflows.")
prop("P19", "Group labels map one to one onto groups, and groups partition the data",
 "For any list of integer group labels the tracker assigns each distinct label its own number 0..G-1 consistently across every lookup; each group's size, index range and member list contain exactly the observations with that label, once each, and together they cover all observations. Changing one observation's label changes only that label. A label that was never seen is reported as an error, never treated as another group, and looking it up does not register it.",
 ["inputs"], "all label vectors up to the length bound with any 32-bit labels (groups of one observation, equal and negative labels included)",
 "The stable category test uses one fixed vector whose last group has several members; unknown labels and relabeling are never exercised.",
 ["include/stochtree/category_tracker.h", "include/stochtree/random_effects.h", "src/random_effects.cpp"], [("CategorySampleTracker, SampleCategoryMapper, LabelMapper, RandomEffectsTracker", "include/stochtree/category_tracker.h, include/stochtree/random_effects.h")], ["CategoryNumber / Size / Begin / End, NodeIndices, label map"],
 "harness p19_category.cpp: symbolic 32-bit labels (every order and equality pattern becomes a path), all lookups compared with membership computed directly from the labels. Bound: 3 observations quick, 4 thorough.")
prop("P20", "Random-effect predictions use the row's own group in every stored sample",
 "The random effect predicted for an observation is the sum over components of its basis value times the working parameter times its own group's parameter. Stored samples keep each sample's working parameters, group parameters, products and variances unmixed, and predicting from them yields, for every sample and observation, that sample's value in sample-major order.",
 ["inputs", "configurations"], "all parameter values, labels, bases and assignments of observations to groups within the bound, several stored samples",
 "The stable random-effects tests use fixed parameters for two groups and check one layout.",
 ["src/random_effects.cpp", "include/stochtree/random_effects.h"], [("RandomEffectsContainer::AddSample / Predict, MultivariateRegressionRandomEffectsModel::Predict", "src/random_effects.cpp, include/stochtree/random_effects.h")], ["prediction vectors, alpha / xi / beta / sigma arrays"],
 "harness p20_rfxpredict.cpp: exact reals; symbolic labels, basis, parameters; every stored array and prediction compared with the formula. Wrong output lengths must be rejected.")
prop("P21", "The random-effects sampler draws from the stated conditional posteriors",
 "Given the residual, group parameters are drawn per group from the normal posterior under the current working parameter, the working parameter from its normal posterior under the new group parameters, and each variance component from IG(a + G/2, b + sum of squares/2). A step first puts the previously tracked random effect back into the residual, then removes the new one and records it, so outcome minus current random effect is preserved.",
 ["inputs", "histories"], "all residuals, bases, parameters and prior values within the bounds, any assignment of observations to groups; one whole step",
 "A stochastic update cannot be compared to a value; no stable test checks a conditional posterior.",
 ["src/random_effects.cpp", "include/stochtree/random_effects.h"], [("SampleRandomEffects, WorkingParameterMean / Variance, GroupParameterMean / Variance, VarianceComponentShape / Scale", "src/random_effects.cpp")], ["posterior moments, drawn parameters, residual, tracked predictions"],
 "harness p21_rfxsampler.cpp: exact reals with modelled distributions; posterior moments are checked through precision * mean = numerator and precision * covariance = identity, draws through their squared distance from the mean, the whole step with the standard normal draws fixed at zero (so each block's mean shows its inputs). Bounds: up to 3 observations, 1-2 components, 1-2 groups; in the two-component and whole-step units the variances (and one of basis or working parameter) are fixed numbers. The model ignores observation weights by design.")
prop("P22", "BARTModel samples, stores and predicts on the data and settings it was given",
 "For any outcome, covariates (arrays or data frames), leaf basis and settings, BARTModel.sample standardizes the outcome, calibrates sigma2, lambda and the leaf scale as documented unless given, and hands every forest the encoded covariates, current residual, current error variance and current leaf scale. Exactly num_gfr + num_burnin + num_mcmc forests are drawn in order, variances are drawn from the current residual or forest only when asked for, and the documented subset of samples is retained. Stored variances and y_hat_train / y_hat_test are on the outcome scale, and predict() on the same rows returns the stored predictions.",
 ["inputs", "configurations"], "all outcomes, covariates, bases, priors, forest fits and variance draws (real numbers); every combination of sample counts, keep flags and sampling flags within the bounds",
 "No stable test samples a model through Python; upstream examples only look at plots, where a wrong prior scale, an unscaled variance or a misaligned sample is invisible.",
 ["stochtree/bart.py", "stochtree/sampler.py", "stochtree/data.py", "stochtree/forest.py"], [("BARTModel.sample / predict", "stochtree/bart.py"), ("ForestSampler, GlobalVarianceModel, LeafVarianceModel, Dataset, Residual wrappers", "stochtree/sampler.py, stochtree/data.py, stochtree/forest.py")], ["y_hat_train, y_hat_test, global_var_samples, leaf_scale_samples, keep_indices, predict()"],
 "pysym/h_bart.py: the real Python runs on proxy numbers (exact rational functions of symbolic inputs with square-root atoms); numpy, scipy and pandas are the real libraries, least squares is solved exactly, and the compiled extension is a model that logs what it is given: forests are uninterpreted functions of exactly the covariates (and basis) stored, variance draws are free positive numbers. The log is compared with a reference history; equalities of algebraic expressions are decided by normalization or Z3. Bounds: 3-5 rows, 1-4 covariates, up to 2 basis columns, 0-3 iterations of each kind. Outside: outcome variance below 1/16, designs with as many coefficients as rows.")
prop("P23", "BCFModel keeps forests, coding, propensities and predictions consistent",
 "For any outcome, treatment (binary, continuous or bivariate), covariates and settings, BCFModel.sample alternates prognostic and treatment forests, each drawn from standardized outcome minus the current fit with the current variances, coding parameters, settings and split weights of that forest; excluded variables have weight zero in that forest only, and the propensity score (given or estimated from the treatment) is a covariate of exactly the requested forests. Coding parameters are drawn from their conditional posterior. Stored and predicted mu, tau and outcome equal the fit of the sampler, split into the part without treatment and the effect of treatment, on training and new rows alike.",
 ["inputs", "configurations"], "all outcomes, treatments, propensities, forest fits, variance and coding draws (real numbers); every combination of the listed settings within the bounds",
 "No stable test runs BCF; errors in coding or propensity handling bias the estimated effect without any visible failure.",
 ["stochtree/bcf.py", "stochtree/bart.py", "stochtree/sampler.py", "stochtree/data.py"], [("BCFModel.sample / predict / predict_tau", "stochtree/bcf.py")], ["mu_hat_*, tau_hat_*, y_hat_*, b0_samples, b1_samples, global_var_samples, keep_indices, predict(), predict_tau()"],
 "pysym/h_bcf.py: as P22; the history of forest, variance and coding draws logged by the model of the extension is compared step by step with the reference (state: both fits, residual, variances, coding). Bounds: 4 rows, 2 covariates plus propensity, 1-2 treatments, up to 3 iterations. Outside: the split of a non-binary treatment into propensity groups, random effects (not part of this wrapper).")
prop("P24", "Covariate preprocessing encodes every column as documented, and new rows alike",
 "CovariateTransformer encodes a numeric column as itself, an ordered category as its level number, an unordered category or string column as one indicator per level, drops unsupported columns, labels each result column numeric or binary/ordered correctly (array columns with exactly two values are binary), and attributes it to its original column. fit_transform equals fit then transform, new tables are encoded by the levels seen at fit time whatever subset of levels they contain, refitting leaves no trace of the previous fit, and a table with another number of columns is rejected.",
 ["inputs", "configurations"], "all float contents; column kinds, level assignments and orders enumerated within the bounds",
 "The two stable preprocessing tests use one table each; column mixtures, unseen level subsets, refits and dtypes are not covered.",
 ["stochtree/preprocessing.py"], [("CovariateTransformer", "stochtree/preprocessing.py")], ["transform(), fit_transform(), _processed_feature_types, fetch_original_feature_indices()"],
 "pysym/h_prep.py: the real transformer with real pandas and scikit-learn; float columns carry symbolic numbers (pysym/symframe.py), and in the array units ties and distinct values fork on the solver. Levels and dtypes live in C arrays inside pandas and are therefore enumerated choices, a stated limit of this technique here. Bounds: 2-4 rows, 2-5 columns.")
