"""Writes /verif/properties.jsonl (run by hand when a property is added or reworded)."""
import json, os
P = 'bayesian_decision_tree/'
B, BP, BH, CL, RG, HO, UT, VE = (P + f for f in ('base.py', 'base_perpendicular.py', 'base_hyperplane.py', 'classification.py',
                                               'regression.py', 'hyperplane_optimization.py', 'utils.py', '_version.py'))
ROWS = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    ROWS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                     anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                                  state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                                  observe_at=observe, hook_needed=None)))


I, C, H = 'inputs', 'configurations', 'histories'

prop('C01', 'Every query row is answered by exactly the leaf its own features lead to',
     'When a fitted tree is asked about a batch, every row is sent at each split to exactly one child, decided by nothing but '
     "that row's own features and that split, and the answer of the leaf it reaches is stored in the slot of that row. "
     'The answer for a row is the same whatever other rows are in the batch, however many there are and in which order.',
     [I, C], 'every fitted tree, every batch of rows (any size, order, duplicates, missing values, dense or sparse), every prediction query',
     'The tests predict a handful of small dense and sparse batches on shallow trees; a row sent to the wrong slot shows only for particular tree shapes and batches.',
     [B, BP, BH], [('recursive descent that carries the original row numbers', B + ':_predict'),
                   ('routing of a node: complementary masks over the node rows', BP + ':_compute_child1_and_child2_indices'),
                   ('hyperplane routing', BH + ':_compute_child1_and_child2_indices')],
     ['predict', 'predict_proba', 'raw leaf data'])

prop('C02', 'Reported prediction paths are the splits the prediction really takes',
     'For every row, the reported path lists from the root to the leaf, once each and in order, the splits that row passes when it is predicted. '
     'Each step shows the feature, feature name and split value of that split and whether the row went to the greater-or-equal side, and a tree that is a single leaf gives empty paths.',
     [I], 'every fitted axis-parallel tree of any depth and every batch of rows',
     'One test checks paths on one data set; deep trees, where row numbers of nested subsets have to be composed, are not pinned.',
     [BP], [('path recursion', BP + ':_update_prediction_paths'), ('entry point', BP + ':prediction_paths')], ['prediction_paths'])

prop('C03', 'Training rows end up in the child that prediction would choose for them',
     'Each split divides the training rows of its node into two non-empty sets, every row in exactly one of them, and trains each child with exactly the rows (features and targets) '
     'that prediction later sends to that child. For axis-parallel trees the stored split value therefore lies above every training value of one side and not above any of the other; '
     'for hyperplane trees the stored hyperplane is the one the rows were divided by.',
     [I, C], 'every training set and every node of the resulting tree, for all four tree classes and all input containers',
     'Tests compare end results on small data; a split off by one position, a child trained with its sibling\'s rows or a narrow integer type for row numbers surfaces only for particular data sizes.',
     [BP, BH], [('partition by position in the sorted order and split value between the two neighbours', BP + ':_fit'),
                ('partition by side of the hyperplane', BH + ':_fit')], ['tree structure', 'predict on the training data'],
     [('split_value_', 'threshold of the node', BP), ('best_hyperplane_normal_', 'orientation of the node', BH)])

prop('C04', 'Splits are considered only, and everywhere, between clearly distinct points',
     'Along a feature, or along a hyperplane direction, the candidate splits of a node are exactly the positions between neighbouring training points in sorted order that lie further apart than the configured split precision. '
     'All features of an axis-parallel tree are scanned, and a direction without any candidate contributes nothing.',
     [I, C], 'every training set, every split precision, every node, all tree families',
     'Tests use one or two precisions on integer-spaced data with few ties.',
     [BP, HO], [('candidate positions', BP + ':_fit'), ('candidate positions along a direction', HO + ':HyperplaneOptimizationFunction.compute')],
     ['tree structure', 'split value'])

prop('C05', 'The split chosen is the best-scoring candidate and beats not splitting',
     'An axis-parallel node that is considered for splitting (the root, and every child with more than one row and more than one distinct target) is split if and only if the highest score over all candidate splits of all features is strictly above the score of not splitting, and then at a candidate with that highest score; '
     'a hyperplane search result is never replaced by a worse-scoring one and is never worse than not splitting. '
     'The scores a node reports are those of the split it uses and of not splitting.',
     [I, C], 'every training set and node, every sequence of directions a hyperplane optimiser tries',
     'A wrong tie, a stale index or a mismatch between score and position needs several features or candidates of particular relative quality.',
     [BP, BH, HO], [('running best over features', BP + ':_fit'), ('running best over directions', HO + ':HyperplaneOptimizationFunction.compute'),
                    ('result taken over by the node', BH + ':_fit')], ['tree structure', 'feature_importance'])

prop('C06', 'Split and no-split scores are the Bayesian log marginal likelihoods of the model',
     'The score of not splitting is log(1 - p^(1+level)) plus the log marginal likelihood of the node\'s targets; the score of a split is log(p^(1+level) / (number of candidates in that direction x number of features)) plus the log marginal '
     'likelihoods of the targets of the two sides, with p the partition prior. Marginal likelihoods are those of the Dirichlet-categorical model for classification and of the Normal-gamma model for regression, under the prior in force at the node.',
     [I, C], 'all targets, priors with any number of classes, partition priors, levels, candidate sets',
     'Tests see only tree shapes, which many wrong scores would also produce.',
     [CL, RG, UT], [('no-split score', CL + ':_compute_log_p_data_no_split'), ('split score', CL + ':_compute_log_p_data_split'),
                    ('no-split score', RG + ':_compute_log_p_data_no_split'), ('split score', RG + ':_compute_log_p_data_split'),
                    ('log multivariate beta function', UT + ':multivariate_betaln')], ['scores of a node', 'tree structure'])

prop('C07', 'Every node holds the exact conjugate posterior of its own prior and its own data',
     'The posterior of a node is the textbook conjugate update (Dirichlet for classification, Normal-gamma for regression) of the prior in force at that node with all targets of that node\'s training rows, each used once with full weight. '
     'This holds for the root, for inner nodes, and for leaves, whether or not they were considered for further splitting; the recorded data count is the number of those rows.',
     [I, C], 'every training set, prior, node and tree class',
     'Tests read the predictions of a few leaves; regression variance terms and inner-node posteriors are hardly observable in them.',
     [BP, BH, CL, RG], [('posterior of the node', BP + ':_fit'), ('posterior of the node', BH + ':_fit'), ('Dirichlet update', CL + ':_compute_posterior'), ('Normal-gamma update', RG + ':_compute_posterior_internal')],
     ['predict', 'predict_proba', 'raw leaf data', 'printed tree'])

prop('C08', 'Delta passes each child its parent\'s prior updated with the child\'s data',
     'With delta = 0 both children of a split start from the prior in force at their parent; with delta > 0 each child starts from that prior updated with delta times the evidence of exactly the rows it receives. '
     'This is the same for axis-parallel and hyperplane trees and for classification and regression.',
     [I, C], 'every delta in [0, 1], prior, training set, tree class and level',
     'Tests train with one or two deltas and compare tree shapes.',
     [BP, BH, CL, RG], [('child priors', BP + ':_fit'), ('child priors', BH + ':_fit'), ('weighted update', CL + ':_compute_posterior'), ('weighted update', RG + ':_compute_posterior_internal')],
     ['raw leaf data', 'tree structure'])

prop('C09', 'Settings reach every node of the tree unchanged',
     'Every node below the root has the same class, partition prior, delta, pruning flag, split precision and (for hyperplane trees) optimiser as the root, and a level one above its parent\'s. '
     'What users set on the tree therefore governs all of its nodes.',
     [C, I], 'every configuration of every tree class and every node created in training',
     'Tests vary few settings at once and look at shallow trees.',
     [BP, BH, CL, RG], [('creation of children', BP + ':_fit'), ('creation of children', BH + ':_fit'), ('constructors', CL), ('constructors', RG)], ['get_depth', 'tree structure'])

prop('C10', 'Estimator contract: parameters stored as given, fit returns the tree',
     'Each tree class stores every constructor argument, unmodified and under its own name, including when left at its default, and neither fitting nor any query ever changes one of these parameters. '
     'Parameters can thus be read back, copied to an equal unfitted tree and set, and fit returns the tree itself on every successful path.',
     [C, H], 'all constructor arguments of the four classes, all call histories',
     'Tests clone or inspect no estimator; a parameter overwritten in one branch of fit needs that branch plus a refit or a clone.',
     [B, BP, BH, CL, RG], [('constructors', CL), ('constructors', RG), ('fit', B + ':fit')], ['get_params', 'set_params', 'clone', 'fit'])

prop('C11', 'Training and queries never modify the caller\'s data',
     'Fitting a tree, querying it, evaluating hyperplane candidates and mapping points to the sphere never write to objects that the caller passed in: feature matrices (any container), targets, priors, feature names, hypercube points. '
     'The same objects can be used again with the same result.',
     [I, H], 'all inputs in all supported containers and element types, all calls',
     'Tests rarely look at their inputs afterwards, and most in-place writes go to a copy for the usual element types.',
     [B, BP, BH, HO, UT], [('copying conversions before every in-place operation', HO + ':HyperplaneOptimizationFunction.compute'), ('input normalisation', B + ':_normalize_data_and_feature_names'), ('sphere mapping', UT + ':hypercube_to_hypersphere_surface')],
     ['arguments after the call'])

prop('C12', 'Training is reproducible: all randomness comes from the given seed',
     'Two fits of equal trees to equal data give equal trees, also within one process and after any other activity: every random draw in training comes from a generator created afresh for that search and seeded with the optimiser\'s seed (or a constant). '
     'No result depends on global random state, time, process identity or object addresses.',
     [H, C, I], 'all optimisers, data sets and preceding histories of the process',
     'A test that runs a fit once cannot see shared generator state.',
     [HO, BH, BP, UT], [('generators created in the search from the stored seed', HO), ('default optimiser with constant seed', BH + ':_fit')], ['fit', 'predict'])

prop('C13', 'Refitting gives the same tree as fitting a new one',
     'Fitting a tree that was fitted before, with whatever data, leaves it in the same state as fitting a newly constructed tree with the same settings. '
     'No learned value of an earlier fit is read by, or survives, a later successful fit.',
     [H, I], 'all sequences of fits on one object, including from a split tree to one without splits, and with pruning',
     'Tests refit, if at all, with the same data, when stale state is invisible.',
     [B, BP, BH], [('split information erased when no split is found', BP + ':_fit'), ('erased before taking over the result', BH + ':_fit')], ['predict', 'get_depth', 'printed tree'])

prop('C14', 'Unfitted trees and inputs of the wrong width are rejected with ValueError',
     'Every query on a tree that has not been fitted raises ValueError, except that converting it to text works, and every query that takes a feature matrix raises ValueError if the number of columns differs from training. '
     'The rejection happens before any answer is computed.',
     [H, I], 'all public queries of all classes, every number of columns, dense and sparse',
     'Tests check few query/input combinations.',
     [B, BP, BH, CL], [('fitted check and width check at the start of each query', B + ':_ensure_is_fitted')], ['predict', 'predict_proba', 'prediction_paths', 'feature_importance', 'get_depth', 'get_n_leaves'])

prop('C15', 'A rejected fit leaves the tree exactly as it was',
     'Fit raises ValueError for targets that are not one-dimensional, for class labels that are not exactly 0..n-1, and when features and targets disagree in length, in every tree class. '
     'When fit rejects its arguments, nothing about the tree has changed: an unfitted tree stays unfitted and a fitted one answers as before.',
     [H, I], 'all rejected arguments, on unfitted and fitted trees of all classes',
     'Tests check that an exception is raised but not the state afterwards, and for few bad arguments.',
     [B, CL, RG], [('all validation before training', B + ':fit'), ('target checks', CL + ':_check_target'), ('target checks', RG + ':_check_target')], ['fit', 'predict'])

prop('C16', 'Every query works on every node a successful fit can produce',
     'After a successful fit, pruned or not, with or without splits, each query (prediction, probabilities, raw leaf data, paths, importances, depth, leaf count, text) finds all node values it reads on each node it reaches. '
     'No tree shape makes a query fail on a value that was never set.',
     [I, H], 'all tree shapes: single leaf, leaves considered or not considered for splitting, pruned trees; all queries',
     'Tests do not combine all queries with all ways in which a node can come to be.',
     [B, BP, BH], [('learned values set on trained nodes and on leaves made directly', BP + ':_fit'), ('same', BH + ':_fit')], ['all queries'])

prop('C17', 'Class probabilities are the normalised posterior and agree with predictions',
     'For each row, the class probabilities are the posterior pseudo-counts of its leaf divided by their sum, hence non-negative and summing to one, with one entry per class of the prior. '
     'The predicted class is the (first) class of highest probability.',
     [I], 'all fitted classification trees, rows and numbers of classes',
     'Tests compare few probabilities to literals.',
     [B, CL], [('leaf probability', CL + ':_compute_posterior_mean'), ('leaf class', CL + ':_predict_leaf'), ('choice of the leaf quantity', B + ':_predict')], ['predict', 'predict_proba'])

prop('C18', 'Pruning never changes a prediction and only removes splits that change nothing',
     'A split is removed by pruning only if both children are leaves and both predict what the node itself predicts, so predictions are the same with and without pruning, and afterwards no such split is left. '
     'A removed split leaves no trace in queries, and without the pruning option no split is removed.',
     [I, C], 'all trained trees, all shapes',
     'Tests compare pruned to literal depths for few trees; a wrong merge needs particular class counts.',
     [B], [('bottom-up merge of equal leaves', B + ':_prune'), ('erasing split information', B + ':_erase_split_info_base'), ('option', B + ':fit')], ['predict', 'get_depth', 'get_n_leaves'])

prop('C19', 'Feature importances are the normalised score gains of the splits by feature',
     'The importance of a feature is the sum, over all splits of the tree, of the split\'s score minus its no-split score, credited to the split feature (axis-parallel) or to each feature in proportion to the absolute component of the hyperplane normal, divided by the total over all features. '
     'It is a vector with one finite non-negative entry per training feature, summing to one, or to zero for a tree without splits.',
     [I], 'all fitted trees of all classes',
     'Tests check one small tree per class.',
     [B, BP, BH], [('sum over the splits', BP + ':_update_feature_importance'), ('sum over the splits', BH + ':_update_feature_importance'), ('normalisation', B + ':feature_importance')], ['feature_importance'])

prop('C20', 'Depth, leaf count and text describe the whole tree',
     'The depth is the highest level of any node, the leaf count is the number of leaves, and the text shows every node once with its split or its prediction and data count under the branch it belongs to. '
     'Both subtrees of every split are taken into account.',
     [I], 'all fitted trees of any shape',
     'Tests use mostly symmetric shallow trees where a skipped or double-counted subtree can cancel out.',
     [B, BP, BH], [('depth', B + ':_update_depth'), ('leaf count', B + ':_update_n_leaves'), ('text', BP + ':_str'), ('text', BH + ':_str')], ['get_depth', 'get_n_leaves', 'str'])

prop('C21', 'Trees do not depend on the container or number type of the data',
     'The same numbers given as list, array, data frame, compressed sparse row or compressed sparse column matrix, as integers, booleans or floats, and targets given as list, array, series or one-column matrix, give the same tree and the same answers. '
     'This includes matrices with a single column, queries with a single row and data frames with any index.',
     [I, C], 'all supported containers and element types, all shapes',
     'Tests compare containers on few data sets and never at single-row nodes or with integer overflow.',
     [B, BP, BH, HO], [('conversion', B + ':_normalize_data_and_feature_names'), ('float conversion', B + ':_ensure_float64'), ('column extraction', BP + ':_to_array')], ['fit', 'predict', 'predict_proba', 'prediction_paths'])

prop('C22', 'Hypercube points map onto the unit sphere, half-sphere if asked',
     'Points of the unit hypercube in D dimensions are mapped to vectors of Euclidean length one in D+1 dimensions, one per point, using all D coordinates of that point and no other point\'s. '
     'If the half-sphere is requested the first coordinate is never negative.',
     [I], 'all numbers of points and dimensions, even and odd, single point or batch, borders of the cube',
     'Tests sample few dimensions and interior points.',
     [UT], [('angle and radius recursion, final normalisation', UT + ':hypercube_to_hypersphere_surface')], ['orientation of hyperplane splits'])

prop('C23', 'Optimisers search the space the objective expects and minimise its negated score',
     'Every hyperplane optimiser evaluates the objective with vectors of the length and range of its declared search space (unit hypercube with one dimension less than there are features, or free vectors with one entry per feature), and treats lower objective values as better. '
     'The objective returns the negated best score of the direction it was given, always a unit vector with one entry per feature, and an optimiser keeps no state from one search to the next.',
     [C, I, H], 'all optimisers, their settings, data sets and numbers of features above one',
     'Tests run few optimisers on two-feature data where many mix-ups are invisible.',
     [HO], [('objective', HO + ':HyperplaneOptimizationFunction.compute'), ('searches', HO + ':solve')], ['fit of hyperplane trees'])

prop('C24', 'Progress output and feature names never influence the tree',
     'Fitting with or without progress output, and with any feature names or none, gives the same splits, priors and posteriors; names only appear as labels of the feature they belong to (given names first, else data frame columns, else generated). '
     'Without progress output, fitting prints nothing.',
     [C, I], 'both verbosity settings, all feature names, all classes',
     'Tests hardly ever train with progress output.',
     [B, BP, BH], [('printing', BP + ':_fit'), ('printing', BH + ':_fit'), ('name resolution', B + ':_normalize_data_and_feature_names')], ['fit', 'prediction_paths', 'str', 'standard output'])

prop('C25', 'Queries are read-only',
     'No query (prediction, probabilities, raw leaf data, paths, importances, depth, leaf count, text, fitted check) changes the tree or any of its nodes. '
     'Repeating or interleaving queries therefore always gives the same answers, and what they return shares no storage with the tree or with earlier results.',
     [H, I], 'all sequences of queries on any fitted tree',
     'Tests call queries once; a cache or an in-place operation on node data shows on later calls only.',
     [B, BP, BH, CL, RG], [('queries write only to arrays they create', B), ('same', BP), ('same', BH)], ['all queries'])

prop('C26', 'Importing the package never fails because of version lookup',
     'Importing the package computes its version without raising, whatever the surroundings: no version control, no such command, a command failing or printing nothing, an unrelated repository, a source archive. '
     'The settings used at import time are those the project is built with.',
     ['fault_sequences', C], 'all outcomes of the external commands and of directory layouts',
     'The tests import the package in one working checkout.',
     [VE], [('fallback chain', VE + ':get_versions'), ('command results checked before use', VE + ':git_pieces_from_vcs')], ['import', '__version__'])

prop('C27', 'The shipped examples use the interface the package offers',
     'Every import, constructor call and method call that the example programs make on the package exists and accepts the arguments given. ',
     ['programs'], 'all example programs, all their call sites',
     'The tests never run the examples.',
     ['examples/demo_classification_hyperplane.py', 'examples/demo_classification_perpendicular.py', 'examples/demo_classification_trading.py', 'examples/demo_regression_hyperplane.py', 'examples/demo_regression_perpendicular.py', 'examples/helper.py'],
     [('call sites', 'examples/')], ['running the examples'])

# ---- not decidable by static analysis here (listed under not_applicable in MANIFEST.json)
prop('C40', 'Scores and posteriors are numerically accurate',
     'For targets of any magnitude and any number of rows, computed scores and posteriors differ from their exact values by no more than rounding of the inputs would explain.',
     [I], 'all targets and priors, including huge offsets and tiny variances', 'Tests use small well-scaled targets.',
     [RG, CL], [('sum-of-squares formulas', RG + ':_compute_posterior_internal')], ['predict', 'tree structure'])
prop('C41', 'Sphere mapping is uniform',
     'Uniformly distributed hypercube points are mapped to uniformly distributed points of the sphere or half-sphere.',
     [I], 'all dimensions', 'Tests sample few dimensions.', [UT], [('mapping', UT + ':hypercube_to_hypersphere_surface')], ['orientation of hyperplane splits'])
prop('C42', 'Every hyperplane optimiser terminates and finds near-optimal splits',
     'Each optimiser stops after finitely many evaluations and its result approaches the best hyperplane as its budget grows.',
     [I, C], 'all data sets and settings', 'Tests run few optimisers on easy data.', [HO], [('search loops', HO + ':solve')], ['fit of hyperplane trees'])
prop('C43', 'Reordering training rows does not change the model',
     'Permuting the training rows together with their targets gives a tree with the same predictions up to rounding and up to ties between equally good splits.',
     [I], 'all permutations', 'Tests use one order.', [BP, BH], [('sorting', BP + ':_fit')], ['predict'])
prop('C44', 'Training time grows near-linearly with rows and features per level',
     'Axis-parallel training sorts once and then needs time proportional to rows times features per level of the tree.',
     [I], 'all data sizes', 'Tests do not measure time.', [BP], [('one-time sort', BP + ':_fit')], ['fit'])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for r in ROWS:
        f.write(json.dumps(r) + '\n')
print(len(ROWS))
