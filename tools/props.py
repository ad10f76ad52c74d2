PROPS = []
NOT_APPLICABLE = []


def prop(id, title, statement, over, text, why, files, mech, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text,
                      why_tests_cant=why, files=files, mech=mech, note=note))


prop(
    "C01", "Domain labels are validated, derived and interpreted consistently",
    "Whatever array-like of domain labels is given, input validation returns the data "
    "unchanged together with one integer label per row, and raises exactly when the length is "
    "wrong or a rule switched on by its flags (source, target, multi-source, multi-target, "
    "allowed domains, missing labels) is broken. Non-negative labels are source and negative "
    "labels are target in every helper; when no domain labels are given they are derived from "
    "the masked labels: masked rows (-1 in classification, NaN in regression) are target, "
    "the others are source, and without labels every row is target.",
    ["inputs", "configurations"],
    "all domain-label vectors, row orders, label dtypes/containers, masked-label patterns and flag combinations",
    "Tests use a handful of fixed label vectors; the flags interact and depend on which labels occur where.",
    ["skada/utils.py", "skada/_utils.py"],
    [("check_X_domain / check_X_y_domain", "skada/utils.py"),
     ("extract_source_indices, extract_domains_indices, source/target masks", "skada/utils.py"),
     ("_check_y_masking / _find_y_type", "skada/_utils.py")],
    ("independent reference model of the flag semantics, differential",
     "Flag semantics, domain derivation and index helpers are compared with an independent reference model."),
)

prop(
    "C02", "Source/target split and merge are exact inverses",
    "Splitting any set of aligned arrays by domain returns exactly the source rows and the target "
    "rows of each array, in their original order, and merging the parts back with the same domain "
    "labels restores every array in the original row order with no value altered. When one part is "
    "missing it is filled with the value that marks masked targets, and parts whose sizes do not match "
    "the domain labels are rejected.",
    ["inputs"],
    "all row interleavings, dtypes, dimensionalities and numbers of arrays",
    "Tests merge two float blocks in one order; dtype promotion, interleaving, empty or missing parts are not sampled.",
    ["skada/utils.py"],
    [("source_target_split", "skada/utils.py"), ("source_target_merge", "skada/utils.py")],
    ("round-trip and reference oracle", "Exact equality with an index-based reference."),
)

prop(
    "C03", "A domain-aware dataset packs exactly what was added",
    "After any sequence of adding and merging domains, packing a selection of source and target names "
    "returns, in selection order, exactly the rows added for those domains, with distinct integer domain labels "
    "(positive for source, negative for target) that select the same domain's rows again. "
    "Packing for training replaces every target label by the masked value and leaves source labels untouched, "
    "packing with targets unmasked returns every true label, and no operation modifies arrays the caller supplied.",
    ["histories", "inputs"],
    "all sequences of constructing, adding, merging, selecting and packing, over label dtypes and array libraries",
    "Tests add two or three domains once; name clashes, merges, unlabeled domains, dtypes and repeated packs are histories.",
    ["skada/datasets/_base.py"],
    [("DomainAwareDataset.add_domain/merge/select_domain/pack/pack_train/pack_test/pack_lodo", "skada/datasets/_base.py")],
    ("stateful model-based histories against a reference dataset",
     "Generated operation histories are replayed against a dictionary model."),
)

prop(
    "C04", "Synthetic data generators produce the documented shift",
    "For every seed and size, each synthetic generator returns the requested number of samples per class and domain, "
    "with finite features, the documented label set and domain labels, and is a function of its random state only. "
    "The target differs from the source exactly by the documented shift: with no shift and no noise, the blob targets "
    "equal the source plus the given offset, conditional-, covariate-, target- and subspace-shift targets "
    "keep the documented invariants, and the moons lie on the documented curves.",
    ["inputs", "configurations"],
    "all sizes, label types, shift kinds, noise levels, moon indices, frequencies and seeds",
    "Tests check shapes for one configuration each; values, label sets and seeding are not examined.",
    ["skada/datasets/_samples_generator.py"],
    [("make_shifted_blobs, make_shifted_datasets, make_dataset_from_moons_distribution, make_variable_frequency_dataset",
      "skada/datasets/_samples_generator.py")],
    ("closed-form / metamorphic oracles over generated configurations", "Oracles are closed forms of the documented generators."),
)

prop(
    "C05", "Each selector gives its estimators exactly its rows, labels and weights",
    "The shared selector fits one estimator on all rows, per-domain fits one estimator per domain on that domain's "
    "rows, select-source and select-target fit on source or target rows only, and a selector that chooses one estimator "
    "for source and one for target fits and applies each on its own side; every row reaches its estimator together with its own label, "
    "sample weight and domain label. A predictor that does not itself take domain labels never sees masked-label rows (or, when masking is disabled, sees every row), while transformers see all "
    "rows of their selection. At evaluation each row's output comes from the estimator of its domain and is "
    "returned at that row's position, with no value altered.",
    ["inputs", "configurations"],
    "all selectors, domain interleavings, masked rows, weights, evaluation subsets, output dtypes and methods "
    "(fit, transform, predict, predict_proba, predict_log_proba, decision_function); evaluation with domain labels given",
    "Tests use two stacked domains and check output shapes; which rows and labels an estimator received is not observed.",
    ["skada/base.py", "skada/_utils.py"],
    [("Shared, PerDomain, SelectSource, SelectTarget, SelectSourceTarget, MetadataContainer", "skada/base.py"),
     ("_route_params, _remove_masked, _apply_domain_masks, _merge_domain_outputs", "skada/_utils.py")],
    ("recording estimators whose inputs and outputs carry row ids, against a routing model",
     "Recording estimators log every row, label, weight and domain they get; compared with the documented routing."),
)

prop(
    "C10", "A DA pipeline means the composition of its steps",
    "Building a domain-adaptation pipeline wraps each plain step in the default selector, keeps selectors as they are, "
    "unrolls nested pipelines and gives steps unique automatic names, and fitting and evaluating it equals applying its steps one by one with each "
    "selector's documented row selection. Cloning a pipeline or a selector, or changing a parameter through it, behaves as building "
    "it anew with those parameters (target-label masking included), and unknown selectors or an empty pipeline are rejected.",
    ["configurations", "inputs"],
    "all step sequences, selectors, names, nesting depths, masking flags and parameter changes",
    "Tests check step names of a few pipelines and run one data set; equality with the stepwise composition is not examined.",
    ["skada/_pipeline.py", "skada/base.py"],
    [("make_da_pipeline, _wrap_with_selectors, _name_estimators", "skada/_pipeline.py"),
     ("BaseSelector.get_params/set_params, clone of selectors", "skada/base.py")],
    ("metamorphic: clone and nesting equivalence; differential against stepwise composition",
     "Pipelines are compared with the steps applied by hand, with their clones and with their nested form."),
)

prop(
    "C11", "What an adapter outputs reaches the next step, or the user is told",
    "Features, labels and sample weights that an adapter returns while fitting replace the pipeline's own for the following step, row by row, and a weight returned by "
    "an adapter is given to the final estimator exactly when that estimator asked for it. If the following estimator has not asked for it, fitting raises an "
    "incompatible-metadata error unless the estimator explicitly ignores it; at evaluation the adapter's output features are what the estimator predicts on.",
    ["configurations", "inputs"],
    "all combinations of adapter outputs (features, labels, weights), selectors, metadata requests and row orders",
    "Tests cover one reweighting and one mapping adapter with fixed requests.",
    ["skada/base.py", "skada/_utils.py"],
    [("MetadataContainer.merge_in/merge_out, BaseSelector._route_and_merge_params", "skada/base.py"),
     ("_route_params, IncompatibleMetadataError", "skada/base.py")],
    ("synthetic adapters whose outputs are functions of row ids, against a routing model",
     "Adapters and estimators record rows; the expected inputs follow from the documented contract."),
)

prop(
    "C13", "Reweighting gives every source row the weight its method defines",
    "A reweighting adapter returns one finite non-negative weight per row: for each source row exactly what the method defines from the source and "
    "target rows (density, Gaussian or domain-classifier ratio; counts of nearest target rows; kernel mean matching under its constraints; "
    "likelihood-optimal kernel weights with the bandwidth chosen by cross-validation; class-constant weights that match the kernel means), and zero for target rows. "
    "Weights follow their rows under any order and number of domains, new source rows are weighted by the fitted model where the method "
    "defines it, and the ready-made pipelines pass their parameters to the adapter and fit the base estimator on the source rows with exactly these weights.",
    ["inputs", "configurations"],
    "all problems (sizes, dimensions, domains, row orders), methods and hyper-parameters within the method's documented domain",
    "Tests check that weights have the right length on one data set; their values, alignment and optimality are not examined.",
    ["skada/_reweight.py"],
    [("Density, Gaussian, Discriminator, NearestNeighbor, KLIEP, KMM, MMDTarS reweight adapters", "skada/_reweight.py"),
     ("BaseReweightAdapter.fit_transform/compute_weights", "skada/_reweight.py")],
    ("independent numpy oracles per method (closed form, constraint and optimality conditions), differential for the pipelines",
     "Closed forms are compared value by value, iterative methods by feasibility and near-optimality of their documented objective."),
)

prop(
    "C14", "Mapping adapters apply the transport their method defines to source rows",
    "A mapping adapter leaves target rows untouched and sends each source row where its method defines: the barycentre of an optimal (exact, entropic or class-regularised) "
    "transport plan, the affine map between the domains' Gaussian moments, the covariance-recolouring map, the shared Monge map towards the barycentre, or the learned "
    "location-scale map. The result does not depend on the row order or the number of domains beyond what the method says, unseen rows use the fitted map, and the ready-made pipelines "
    "pass their parameters on and fit the base estimator on mapped source rows.",
    ["inputs", "configurations"],
    "all problems (sizes, dimensions, domains, row orders), methods and hyper-parameters within the method's documented domain",
    "Tests check output shapes; that the plan is optimal, or that moments match after mapping, is not examined.",
    ["skada/_mapping.py"],
    [("OTMapping, EntropicOT, ClassRegularizerOT, LinearOT, CORAL, MMDLSConS, MultiLinearMonge adapters", "skada/_mapping.py")],
    ("independent oracles: linear-program optimality of the plan, log-domain Sinkhorn, closed-form moments, metamorphic row order",
     "Optimal plans are certified by an independent LP; affine maps by closed forms."),
)

prop(
    "C20", "The numerical solvers return feasible, optimal points",
    "For every convex quadratic program, qp_solve returns a point that satisfies all given constraints (bounds, inequalities, equalities) within tolerance, whose reported value is "
    "its objective and no feasible point is better by more than tolerance; frank_wolfe does so on its own constraint form and rejects forms it cannot "
    "handle. torch_minimize returns, for one or several variables, a point with vanishing gradient and the value there, and no solver modifies its arguments.",
    ["inputs", "configurations"],
    "all positive definite problems of small dimension, constraint combinations, starting points and log flags",
    "Tests solve three or four fixed problems.",
    ["skada/utils.py"],
    [("qp_solve, frank_wolfe, torch_minimize", "skada/utils.py")],
    ("optimality conditions: feasibility and comparison with sampled and independently computed feasible points",
     "Feasibility is checked exactly and optimality against an independent solver or KKT gap."),
)

prop(
    "C15", "Subspace adapters project rows as their method defines",
    "Subspace alignment, transfer component analysis, joint matching and transfer subspace learning map every row to the requested number of features (or the documented default) by the projection their method defines: "
    "the target's principal axes reached through the source's, the leading transfer components of the kernel problem, the fixed point of the joint matching iteration with unit scatter, or an orthonormal matrix that optimises the subspace criterion. "
    "Each output row depends only on its own input row, its domain side and the fitted model, whatever the row order, the number of domains, and whether the rows were seen at fit time; the ready-made pipelines pass their parameters on and fit the base estimator on the projected source.",
    ["inputs", "configurations"],
    "all problems (sizes, dimensions, domains, row orders, evaluation subsets), kernels, numbers of components and trade-offs; rank-deficient and tied spectra are generated but not compared",
    "Tests check output shapes on stacked data; values, optimality and rows in other orders are not examined.",
    ["skada/_subspace.py"],
    [("SubspaceAlignment, TransferComponentAnalysis, TransferJointMatching, TransferSubspaceLearning adapters", "skada/_subspace.py")],
    ("independent numpy/scipy reference of each projection, up to the sign (or factor) of each component; differential for the pipelines",
     "Reference projections are computed independently and compared on fitted, permuted, partial and new rows."),
)

prop(
    "C16", "JDOT alternates between an optimal plan and the model it defines",
    "At every iteration JDOT's plan is optimal, with the (weighted) source and target marginals, for the mixture alpha of feature cost and current label cost, the model is refitted on the target rows with the transported labels "
    "(regression) or weighted candidate labels (classification), and the losses of that iteration are recorded; it stops exactly when a loss changes by less than the tolerance or the iterations run out. "
    "Target labels are not used, the estimator given is left unfitted, and predict, predict_proba and score are those of the last model.",
    ["inputs", "configurations", "histories"],
    "all problems, weights, alpha, tolerances, iteration counts, label sets, base regressors and classifiers, multinomial and hinge costs",
    "Tests check that it runs and that the losses decrease on one data set.",
    ["skada/_ot.py"],
    [("solve_jdot_regression, solve_jdot_classification", "skada/_ot.py"),
     ("get_jdot_class_cost_matrix, get_data_jdot_class, get_tgt_loss_jdot_class", "skada/_ot.py"),
     ("JDOTRegressor, JDOTClassifier", "skada/_ot.py")],
    ("reference simulation with recording base estimators, history compared step by step",
     "The whole history (training sets, losses, plan, stopping) is compared with an independent simulation; cases where several plans are optimal are certified by marginals and cost."),
)

prop(
    "C17", "OT label propagation gives targets the labels that the plan carries",
    "OT label propagation labels each target row with the source class that carries most mass to it under an optimal (exact or entropic, possibly weighted) plan, or with the plan's average of the source values in regression; "
    "JCPOT does so for several sources under target shift. Source labels come out masked, features and weights are unchanged, propagated labels are actual source labels at the right rows whatever the label values, the row order and the number of domains, "
    "and the pipelines fit the base estimator on the target rows with these labels.",
    ["inputs", "configurations"],
    "all problems, label sets, metrics, regularisations, weights, row orders and numbers of domains (JCPOT: sources that share their classes)",
    "Tests check that labels exist on one stacked data set with labels 0..K-1.",
    ["skada/_ot.py"],
    [("OTLabelPropAdapter, JCPOTLabelPropAdapter and their pipelines", "skada/_ot.py")],
    ("independent oracles: optimal cost and marginals, log-domain Sinkhorn, own implementation of the JCPOT iteration",
     "Plans are certified or recomputed independently; labels must carry maximal mass."),
)

prop(
    "C18", "DASVM follows its discard-and-add schedule and ends on target labels",
    "Starting from all source rows, each DASVM step trains on the source rows not yet discarded with their labels and the target rows added with the labels the previous model gave them, "
    "drops added rows whose label changed, discards up to k source rows per class that are farthest from the boundary and adds up to k target rows per class that lie inside the margin nearest its border; "
    "it ends when no target row is left in the margin or the iterations run out, with a model trained on all target rows with the labels of the last model. "
    "Saved indices and estimators are those of each step, predictions come from the last model, and target labels are never used.",
    ["histories", "inputs", "configurations"],
    "all binary problems, label values, k, iteration limits, base classifiers with a decision function, row orders",
    "Tests check the shapes of the saved lists on one data set.",
    ["skada/_self_labeling.py"],
    [("DASVMClassifier.fit, _find_points_next_step, _get_X_y, _get_decision", "skada/_self_labeling.py")],
    ("reference simulation over the recorded history of fits",
     "Every training set, saved index list and model of the history is compared with an independent simulation."),
)

prop(
    "C19", "Gradual adaptation walks the plan's pairs from source to target",
    "The gradual estimator keeps the source-target pairs that carry the largest mass of the transport plan (about alpha times the number of rows, or at least one per row and column in the advanced mode), and at step k of n it "
    "trains on the points (1-k/n) source + k/n target of exactly these pairs, labelled by the model of the step before, starting from a model of the labelled source. "
    "Predictions, probabilities, score and saved models and data are those of these steps, and the estimators given are left as they were.",
    ["histories", "inputs", "configurations"],
    "all problems, alpha, step counts, plan types (Sinkhorn, exact), base classifiers, row orders and label sets",
    "Tests check that it runs with one network on one data set.",
    ["skada/_gradual_da.py"],
    [("GradualEstimator.fit, _cut_off_gamma, _advanced_cut_off_gamma, generate_data_at_step", "skada/_gradual_da.py")],
    ("recording base estimators, history compared with the definition of each step",
     "The pairs are recovered from the training rows and compared with the plan; labels with a refit of the previous model."),
)

prop(
    "C21", "Scorers return the quantity they are named after, with the right sign",
    "Each scorer equals its published formula evaluated on the right rows: supervised score on target rows and target_labels; source score weighted by target/source density ratios; entropy of target predictions (none, sum, mean); soft neighborhood density; "
    "deep embedded validation with control variate; accuracy of the circularly refitted estimator on source labels; interpolation consistency on mixed target rows; MaNo p-norm with the normalisation its criterion selects. "
    "greater_is_better=False flips the sign and nothing else, random_state makes scores repeatable, the estimator is left as it was, and cross_validate reports exactly these values for the test rows of each fold.",
    ["inputs", "configurations"],
    "all problems (any label values, row orders, several domains, a source labelled 0, n-d X where accepted), scorer parameters, estimators with arbitrary (also 0/1 or uniform) probabilities",
    "Tests only check that scores are finite or have some sign.",
    ["skada/metrics.py"],
    [("SupervisedScorer, ImportanceWeightedScorer, PredictionEntropyScorer, SoftNeighborhoodDensity", "skada/metrics.py"),
     ("DeepEmbeddedValidation, CircularValidation, MixValScorer, MaNoScorer", "skada/metrics.py")],
    ("differential testing of every scorer against an independent implementation of its formula, on recording stub estimators, real pipelines and inside cross_validate",
     "Every scorer value is recomputed from predictions of the same estimator on the rows that the definition names."),
)

prop(
    "C22", "Unsupervised scores and model selection never depend on target labels",
    "For every scorer other than the supervised one, the score does not change when the labels of the target rows in y are masked, true or wrong, nor does cross_validate or GridSearchCV (scores, selected parameters) change with them "
    "or with the target_labels given for a supervised scorer evaluated alongside. CircularValidation refuses unmasked target labels.",
    ["inputs", "configurations"],
    "all problems, unsupervised scorers, pipelines, splitters and replaced target labels",
    "Tests run scorers with masked labels only.",
    ["skada/metrics.py", "skada/_pipeline.py", "skada/base.py"],
    [("_score of every unsupervised scorer", "skada/metrics.py"),
     ("label masking in selectors", "skada/base.py")],
    ("metamorphic testing: target labels replaced, scores and selected parameters must be identical",
     "Non-interference is checked directly, per scorer call and through cross_validate and GridSearchCV."),
)

prop(
    "C23", "Splitters give disjoint, correctly sized, domain-aware random splits",
    "Every splitter yields as many splits as announced, of distinct in-range rows with train and test disjoint. SourceTargetShuffleSplit and LeaveOneDomainOut split source and target separately with the sizes asked for (fractions, counts or defaults); "
    "DomainShuffleSplit uses the under-sampled share of every domain; StratifiedDomainShuffleSplit keeps the proportion of every (label, domain) group to within one row and refuses groups it cannot split; "
    "LeaveOneDomainOut leaves out different domains, at most max_n_splits, using only their target rows and only the source rows of the others. An int random_state makes splits repeatable, X plays no role, over many splits every row is used on both sides, "
    "and cross_validate fits and scores on exactly these rows.",
    ["inputs", "configurations"],
    "all domain structures (a source labelled 0, several targets), sizes, seeds, row orders, kinds of X",
    "Tests check shapes and counts on one data set.",
    ["skada/model_selection.py"],
    [("SourceTargetShuffleSplit, LeaveOneDomainOut, StratifiedDomainShuffleSplit, DomainShuffleSplit", "skada/model_selection.py")],
    ("property-based testing of split invariants with independent size and stratification formulas",
     "Invariants are checked on every generated split; coverage of rows on 80 splits each."),
)

prop(
    "C24", "Subsamplers keep an aligned random subset and never subsample at predict",
    "A subsampler returns distinct rows of X with their own labels, domains and weights (also weights computed by an earlier adapter of the pipeline), as many as train_size asks for, or all rows in order when it asks for at least all of them. "
    "The domain and the stratified version keep the share of each domain, or each (label, domain) group, to within one row. The same random_state keeps the same rows, every row can be kept, inputs are left as given, "
    "later steps of a pipeline are fitted on that subset, and transform and predict return every row unchanged.",
    ["inputs", "configurations"],
    "all problems, sizes (int or fraction) that leave enough rows on both sides for stratification, seeds, with and without weights and sample_domain",
    "Tests check sizes on one balanced data set.",
    ["skada/transformers.py"],
    [("Subsampler, DomainSubsampler, StratifiedDomainSubsampler", "skada/transformers.py")],
    ("property-based testing of subset invariants, on the transformers and in pipelines with a recording estimator",
     "Rows are identified in X, so alignment of labels, domains and weights is checked exactly."),
)

prop(
    "C06", "True target labels given to fit never influence an adapted pipeline",
    "For every shallow method in a pipeline, fitting with any labels on the target rows of y (the true ones, permuted, constant, unknown to the sources, partly masked, random; as int or float) "
    "gives exactly the same predictions, probabilities and decision values as fitting with these labels masked, and leaves y as given. "
    "Every step of a pipeline gets the source rows' own labels, and the mask for target rows (unless SelectTarget or SelectSourceTarget, which pass target labels on purpose, is that step or comes before it).",
    ["inputs", "configurations"],
    "all problems, shallow methods with their parameters, base estimators, and target labels",
    "Tests fit with masked labels, or look only at the accuracy.",
    ["skada/base.py", "skada/_pipeline.py", "skada/_mapping.py", "skada/_ot.py", "skada/_self_labeling.py"],
    [("_remove_masked / _route_and_merge_params / selectors", "skada/base.py"), ("every adapter", "skada/")],
    ("metamorphic testing: target labels replaced, every output must be bitwise equal",
     "Non-interference over all 27 shallow methods with generated parameters."),
)

prop(
    "C07", "Fitting and predicting leave the caller's data and estimators untouched",
    "For every shallow method, fit, predict, predict_proba, decision_function, transform and score leave X, y and sample_domain bitwise as given (C or Fortran order, non-contiguous views, or read-only arrays, which are accepted and give the same result), "
    "and leave the estimators and parameters given by the caller as they were: what is fitted is a copy, and does not change when the caller reuses the arrays afterwards.",
    ["inputs", "configurations"],
    "all problems, shallow methods with their parameters, base estimators, memory layouts",
    "Tests do not look at their inputs after the call.",
    ["skada/base.py", "skada/_pipeline.py", "skada/_gradual_da.py", "skada/_self_labeling.py", "skada/_ot.py"],
    [("selectors clone base_estimator", "skada/base.py"), ("every adapter", "skada/")],
    ("property-based testing: fingerprints of every argument before and after each call",
     "Bytes of arrays and the attribute trees of estimators are compared."),
)

prop(
    "C08", "Predictions do not depend on the order or company of the rows",
    "For every shallow method the prediction, probabilities and decision values of a target row depend on the fitted estimator and that row only: they are the same whether it is given alone, in a subset, in another order or next to copies. "
    "For every deterministic method with a unique solution, permuting the rows given to fit (with labels and domains) leaves the fitted probabilities, or regression values, the same up to solver tolerance.",
    ["inputs", "configurations"],
    "all problems, permutations, subsets; shallow methods with their parameters (fit order: without KLIEP, DASVM, gradual, JDOT, MMDLSConS and ties)",
    "Tests predict all rows at once, in the order of fit.",
    ["skada/base.py", "skada/_pipeline.py", "skada/_mapping.py", "skada/_reweight.py", "skada/_subspace.py", "skada/_ot.py"],
    [("adapt of every adapter on new rows", "skada/"), ("merge back in order", "skada/utils.py")],
    ("metamorphic testing under permutation, subsetting and repetition of rows",
     "Equality on every method; fit order up to 1e-3."),
)

prop(
    "C09", "A refitted, cloned or copied estimator is as good as a fresh one",
    "After any history of fits (on this or other data, also failed ones), predictions, set_params, clone, deepcopy and pickle, and whatever was done to another estimator of the same kind, "
    "fitting any shallow method gives exactly the outputs of a fresh estimator with the same parameters; deepcopy and pickle of a fitted estimator give its outputs, and a clone has the parameters of the original.",
    ["histories", "configurations"],
    "all histories of up to 5 operations, shallow methods with two parameter settings, problems",
    "Tests fit once; caches left from an earlier fit, shared defaults and parameters ignored after set_params need histories.",
    ["skada/base.py", "skada/_pipeline.py", "skada/_reweight.py", "skada/_mapping.py", "skada/_subspace.py", "skada/_ot.py"],
    [("set_params / clone / fit of every adapter and selector", "skada/")],
    ("stateful testing: generated histories of fit, predict, clone, copy, pickle, set_params against a fresh estimator",
     "Bitwise comparison with a freshly built estimator after each history."),
)

prop(
    "C12", "Rows without domains are target rows; source rows need allow_source",
    "For every shallow method fitted in a pipeline, predict, predict_proba, decision_function and score without sample_domain treat all rows as target rows and agree exactly with the target's own label or any other negative label. "
    "With a reweighting, mapping, subspace or label-propagation method, giving source rows (alone or mixed) without allow_source=True raises ValueError; with it every row gets a result, and the target rows get the same result as alone. "
    "Fitting a pipeline, or a JDOT, DASVM or gradual estimator alone, on masked target labels (-1 or NaN) without sample_domain gives what fitting with one source and one target domain gives.",
    ["inputs", "configurations"],
    "all problems, shallow methods with their parameters (without MultiLinearMonge and per-domain scaling, which need the domain)",
    "Tests check one method and one combination of flags at a time.",
    ["skada/base.py", "skada/_pipeline.py", "skada/utils.py", "skada/_utils.py"],
    [("allow_source checks of check_X_domain", "skada/utils.py"), ("routing of allow_source", "skada/base.py")],
    ("metamorphic testing on calls with and without domains, and of the ValueError of each prediction method",
     "Every prediction method of every shallow method is called with each kind of rows."),
)

prop(
    "C31", "The container, number type and memory layout of the data do not matter",
    "For every shallow method and any pipeline of selectors, fit, predict, predict_proba, decision_function and score give the same results for the same values as arrays, lists, data frames or series (whatever their index: rows count by position), "
    "read-only arrays, integer instead of real features, integer or real labels and domain labels; results agree up to rounding for other memory layouts and, for reweighting and closed-form mappings, for float32. "
    "The scorers, splitters and cross_validate give the same scores and splits for each of these forms.",
    ["inputs", "configurations"],
    "all problems, methods, selectors, scorers and splitters, and independent forms of X, y, sample_domain (and weights, true labels) at fit and at predict",
    "Tests use float64 arrays and arrays of integers only.",
    ["skada/base.py", "skada/_utils.py", "skada/utils.py", "skada/_mapping.py", "skada/_ot.py", "skada/_gradual_da.py", "skada/_self_labeling.py", "skada/metrics.py", "skada/model_selection.py"],
    [("row selection by masks", "skada/_utils.py"), ("check_X_y_domain", "skada/utils.py"), ("_route_to_estimator", "skada/base.py"), ("integer features", "skada/_mapping.py")],
    ("metamorphic testing: the same values in generated containers, number types and layouts, outputs must be equal",
     "Each argument changes its form independently; outputs are compared bitwise where no rounding differs."),
)

prop(
    "C32", "Loaders return what the data folder holds, whatever interrupted a download",
    "For any content of the data folder, the loaders of Office-31 (SURF, DeCAF), Amazon reviews, Office-Home and MNIST/USPS return exactly the samples of the domain and categories asked for, each with its own label, in the documented type, shuffled or not, one domain or all of them, and leave the folder as it is. "
    "Data that is missing is downloaded once, or OSError is raised with download_if_missing=False; after a failed, interrupted or killed download or extraction the next call downloads again and returns the complete data. get_data_home honours its argument, SKADA_DATA_FOLDER and ~.",
    ["inputs", "crash points"],
    "generated data folders and archives, domains, categories, shuffling, spellings of domains and folders; failures at every stage of a download",
    "Tests of the loaders need the network, load the one real archive and never see a failure.",
    ["skada/datasets/_office.py", "skada/datasets/_amazon_review.py", "skada/datasets/_office_home.py", "skada/datasets/_mnist_usps.py", "skada/datasets/_base.py", "skada/_utils.py"],
    [("_load_office31", "skada/datasets/_office.py"), ("_load_amazon_review", "skada/datasets/_amazon_review.py"), ("parse_office_home_csv", "skada/datasets/_office_home.py"), ("load_mnist_usps", "skada/datasets/_mnist_usps.py"), ("get_data_home", "skada/datasets/_base.py")],
    ("property-based testing with fault injection: generated folders and archives are loaded and compared with what was written",
     "Downloads are replaced below skada (in scikit-learn and torchvision) and fail in generated ways; a child process is killed during download or extraction."),
)

prop(
    "C30", "Domain labels are only names",
    "For every shallow method, renaming the domains (other integers, a source called 0, other integer or float dtypes), keeping their order and which of them are sources, changes no prediction, probability or decision value.",
    ["inputs", "configurations"],
    "all problems with up to 3 sources and 3 targets, shallow methods with their parameters, injective order-preserving renamings",
    "Tests use labels 1 and -2.",
    ["skada/utils.py", "skada/base.py", "skada/_mapping.py", "skada/_ot.py"],
    [("source/target and per-domain selection", "skada/utils.py"), ("per-domain estimators", "skada/base.py")],
    ("metamorphic testing: domains renamed, outputs must be bitwise equal",
     "Bitwise comparison on every method."),
)

prop(
    "C33", "Searching and cross-validating a pipeline repeats the fits done by hand",
    "GridSearchCV, RandomizedSearchCV, cross_validate and cross_val_score on a pipeline of any shallow method report, for each candidate and fold, the score of a fresh pipeline with these parameters fitted on the training rows alone (with their labels and domains) and scored on the test rows (with their domains, and target_labels if the scorer asks for them); "
    "the best candidate is the one with the largest score, and best_estimator_ predicts as a fresh pipeline fitted on all rows. It makes no difference whether target labels are masked in y, whether several scorers are used, whether the pipeline was cloned, or whether folds run in threads; the pipeline given is not changed. "
    "The same holds for deep networks, alone or at the end of a pipeline: their scores are those of the classifier they became by training, evaluated row by row in evaluation mode.",
    ["inputs", "configurations"],
    "problems with up to 2 sources and 2 targets with arbitrary domain labels, all shallow methods with their parameters, 4 splitters, all scorers for pipelines; 10 deep methods with 7 scorers, dropout, folds that miss a class",
    "Tests run cross_validate and check that scores are not NaN.",
    ["skada/metrics.py", "skada/base.py", "skada/_pipeline.py", "skada/model_selection.py", "skada/deep/base.py"],
    [("scorers and the metadata they request", "skada/metrics.py"), ("selector parameters and routing", "skada/base.py"), ("splitters", "skada/model_selection.py")],
    ("differential property-based testing: every candidate and fold is refitted and scored by hand",
     "The reference never goes through scikit-learn's search, its cloning or its metadata routing."),
)

prop(
    "C25", "DeepDADataset keeps data, labels, domains and weights aligned",
    "After any history of constructing (from arrays, tensors, lists, dicts, data frames, other datasets), merging (new or in place, with or without weights), adding domains, selecting (source, target, a domain, labelled rows, a condition on any field), "
    "splitting per domain, adding and removing weights, and indexing, a DeepDADataset holds exactly the rows a list of aligned rows would, in order, with their labels (-1 when absent), domains, weights and position within their domain; "
    "out-of-place operations leave their operands as they were; lengths that do not match and unknown types are refused.",
    ["histories", "inputs"],
    "all histories of up to 7 operations over 9 ways to give the data, 1 or 2 feature dimensions, partly or fully unlabelled, weighted or not",
    "Tests call each method once on one dataset.",
    ["skada/deep/base.py"],
    [("DeepDADataset", "skada/deep/base.py")],
    ("stateful model-based testing against aligned numpy arrays",
     "Every field and view is compared after every operation."),
)

prop(
    "C26", "Deep samplers give balanced, complete, shuffled batches",
    "DomainBalancedSampler alternates source and target rows, as many of each as max_samples asks for (rounded down to whole batches), reusing a row only after all rows of its side were used; its loader gives batches with exactly batch_size rows of each side, each with its own label, domain and weight. "
    "DomainOnlySampler and its loader give only rows of the side asked for, at most once an epoch, in whole batches. Announced lengths are true, epochs are shuffled and every row is used in some epoch.",
    ["inputs", "configurations"],
    "all sizes of the two sides, batch sizes, max_samples and domain_used settings, interleavings, several domains per side (a source labelled 0)",
    "Tests count the batches of one dataset.",
    ["skada/deep/base.py"],
    [("DomainBalancedSampler, DomainBalancedDataLoader, DomainOnlySampler, DomainOnlyDataLoader", "skada/deep/base.py")],
    ("property-based testing of sampling invariants over 40 epochs per case",
     "Rows carry their index, so alignment and reuse are checked exactly."),
)

prop(
    "C27", "Deep losses have the values and gradients of their definitions",
    "deepcoral, DAN (multi-kernel MMD), DeepJDOT (optimal transport cost of features and labels), CDD/CAN, MCC, GDA, NAP, SPA, DANN, CDAN, MDD and the modified cross entropy equal their closed forms on any features, logits and labels of any sizes, through the functions and through the loss modules with their parameters, in float32 and float64; "
    "the gradient of each smooth loss is that of its value. SphericalKMeans follows its iteration from given centroids, predicts the nearest direction, is reproducible with random_state, and is never worse with more restarts.",
    ["inputs", "configurations"],
    "all feature, logit and label arrays, domain sizes, parameters (kernel widths, temperatures, thresholds, regularizations, metrics, Laplacians, epochs)",
    "Tests check that the losses are finite or that training runs.",
    ["skada/deep/losses.py", "skada/deep/_divergence.py", "skada/deep/_adversarial.py", "skada/deep/_graph_alignment.py", "skada/deep/_optimal_transport.py", "skada/deep/_class_confusion.py", "skada/deep/utils.py"],
    [("loss functions", "skada/deep/losses.py"), ("loss modules", "skada/deep/"), ("SphericalKMeans", "skada/deep/utils.py")],
    ("differential testing against numpy/scipy closed forms (LP for transport); directional derivatives by finite differences",
     "Closed forms written from the definitions; values to 1e-4 relative or better."),
)

prop(
    "C28", "Deep networks train on their loss and predict with their module",
    "The domain-aware criterion is the base loss on source rows (target rows with train_on_target) plus reg times the adaptation loss on correctly separated predictions, features, domain predictions and indices. Modules return the named layer's output for the same rows, and CDAN its multilinear map. "
    "For the eleven deep methods one full-batch epoch is one gradient step on that sum, with per-sample weights when given; target labels never influence training (nor target rows SourceOnly, source rows TargetOnly). "
    "predict, predict_proba, predict_features and score of a network, alone or in a pipeline, are those of its module row by row, on target rows unless allow_source, from any form of input.",
    ["inputs", "configurations"],
    "all problems (sizes, classes, several domains, a source labelled 0, interleavings), methods with reg and one more parameter, input forms, batch sizes, dropout, clones and deep copies",
    "Tests train and look at shapes and accuracy.",
    ["skada/deep/base.py", "skada/deep/_adversarial.py", "skada/deep/_divergence.py", "skada/deep/_baseline.py", "skada/deep/_graph_alignment.py", "skada/deep/_optimal_transport.py", "skada/deep/_class_confusion.py", "skada/deep/utils.py"],
    [("DomainAwareCriterion, DomainAwareModule, DomainAwareNet", "skada/deep/base.py"), ("CDANModule", "skada/deep/_adversarial.py"), ("method constructors", "skada/deep/")],
    ("differential testing against a hand-written training step and forward pass; metamorphic non-interference of target labels",
     "Parameters after a step to 2e-5; non-interference bitwise."),
)

prop(
    "C29", "Deep callbacks and building blocks do what they are named for",
    "In every fit SPA's memory starts at unit vectors and uniform outputs and holds, for each target row, the moving average of its normalised features and sharpened outputs, and epochs count from 1; CAN clusters the target rows at each epoch from the centroids of the source classes under the current weights; the caller's callbacks run and their list is left as given. "
    "The gradient reversal layer is the identity with gradient -alpha; DomainClassifier gives probabilities and reverses only the gradient of its input; ToyModule2D, ToyCNN and MNISTtoUSPSNet compute what their layers describe; check_generator gives independent generators.",
    ["histories", "inputs"],
    "all problems, epochs, repeated fits, batch sizes, forms of the callbacks argument, dropout; all module sizes, alphas and inputs",
    "Tests train one epoch without looking at the state of the callbacks.",
    ["skada/deep/callbacks.py", "skada/deep/modules.py", "skada/deep/utils.py", "skada/deep/_graph_alignment.py", "skada/deep/_divergence.py"],
    [("MemoryBank, ComputeSourceCentroids, CountEpochs", "skada/deep/callbacks.py"), ("GradientReversalLayer, DomainClassifier, networks", "skada/deep/modules.py"), ("check_generator", "skada/deep/utils.py")],
    ("model-based testing over training histories: a watching callback compares the state after every batch and epoch with a model",
     "State compared at every batch of every epoch and fit."),
)
