"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

U="skada/utils.py"; B="skada/base.py"; PL="skada/_pipeline.py"; IU="skada/_utils.py"; MS="skada/model_selection.py"
DS="skada/datasets/_base.py"; TR="skada/transformers.py"; ME="skada/metrics.py"; OT="skada/_ot.py"; MP="skada/_mapping.py"
RW="skada/_reweight.py"; SB="skada/_subspace.py"; SL="skada/_self_labeling.py"; GR="skada/_gradual_da.py"
DB="skada/deep/base.py"; DL="skada/deep/losses.py"; DM="skada/deep/modules.py"; DC="skada/deep/callbacks.py"; GEN="skada/datasets/_samples_generator.py"

p("C01","Domain splits and merges lose, duplicate and misplace no sample",
 "For any sample_domain (any interleaving of any integer labels, 0 and above being source, below 0 target), splitting by source/target or by domain returns, for every array passed, exactly that array's rows of each side or domain in input order, with None passed through. Merging source and target parts back under the same sample_domain puts every row back at its own position with its value unchanged, and where one part is missing fills exactly its rows with the mask value (-1 for class labels, NaN for real-valued ones).",
 ["inputs"],"every sample_domain vector, every number, shape and dtype of parallel arrays, every choice of missing parts",
 "Existing tests use two blocks of contiguous domains of the same dtype; interleavings, label 0, mixed dtypes and missing sides are a combinatorial space.",
 [U,IU],[("source_target_split / per_domain_split / extract_domains_indices",U),("source_target_merge / _merge_arrays",U)],["return values of the split and merge helpers"])
p("C02","Domain validation accepts exactly the domain mixes its flags allow",
 "Input validation with the switches allow_source, allow_multi_source, allow_target, allow_multi_target, allow_common_domain_idx, allow_auto_sample_domain and allow_domains accepts a sample_domain if and only if it respects every switch (presence and number of distinct source labels, presence and number of distinct target labels, no index used with both signs, only listed domains) and its length matches the data. An accepted input is returned with the same rows, labels and domains in the same order; a refused one raises ValueError.",
 ["inputs","configurations"],"all 2^6 flag combinations times every set of domain labels, for both validators",
 "The tests try a few flag/label pairs; a switch consulting the wrong count passes them.",
 [U],[("check_X_y_domain",U),("check_X_domain",U)],["return value or ValueError of check_X_domain / check_X_y_domain"])
p("C03","A missing sample_domain is derived from the label masks or means target",
 "When sample_domain is omitted and labels are given, every row with a real label becomes source domain 1 and every row with a masked label (-1 class label, NaN regression label) becomes target domain -2, and labels containing no mask are refused. When sample_domain is omitted without labels every row is treated as target (domain -1), and a scalar sample_domain applies to every row. Estimators and adapters that derive the domain learn the same with it omitted as with the derived one passed, and predicting with it omitted is predicting for target rows.",
 ["inputs"],"every label vector (integer or float, any mask placement), every estimator that validates labels and domains together, and prediction by every fitted pipeline",
 "Tests use one dataset with all targets masked at the end.",
 [U,IU],[("auto sample_domain branch of check_X_y_domain / check_X_domain",U),("_check_y_masking",IU)],["derived sample_domain returned by the validators"])
p("C04","Target labels never influence what a masking pipeline learns",
 "With target-label masking on (the default), two fits whose inputs differ only in the labels of target rows (labels of the same kind: class labels or real values) hand identical data to every step and produce identical predictions, for every selector that supports masking and every pipeline layout. With masking switched off, or from the step that predicts target labels onwards, labels reach the steps as given.",
 ["inputs","configurations","programs"],"all datasets, target label assignments, step sequences, selectors and masking flags",
 "A 2-safety property: a leak shows only by comparing runs, and only in the step and selector where masking is skipped; tests check one final estimator.",
 [B,PL,IU],[("BaseSelector._auto_mask_target_labels",B),("_wrap_with_selectors",PL)],["labels received by each base estimator's fit/fit_transform","predictions of the fitted pipeline"])
p("C05","Fitting, predicting, scoring and splitting never modify the caller's data",
 "No public fit, fit_transform, transform, predict, score, split, pack or scorer call changes the contents of the arrays (X, y, sample_domain, sample_weight, target_labels), datasets or nested estimators that the caller passed in, and read-only arrays are accepted wherever writable ones are. Repeating the same call therefore sees the same data.",
 ["inputs","histories"],"every estimator, adapter, selector, splitter and scorer, for every history of calls sharing the same arrays",
 "Tests pass fresh arrays and look at outputs, not at what became of their inputs.",
 [B,U,TR,ME,MP,RW,OT,SL,GR],[("masking on a copy",B),("clone before fit",B)],["byte digest of every argument before and after each public call"])
p("C06","Each selector fits and applies its estimators on exactly its own rows",
 "Shared fits one estimator on all rows; per-domain selection fits one estimator per distinct domain label on exactly that domain's rows and answers each row with its own domain's estimator, refusing unknown domains; source-only and target-only selection fit on exactly those rows and then apply to any row; source-target selection fits one estimator on each side and answers each row with its side's. Labels, weights and other per-sample parameters are cut to the same rows, and outputs come back in the input's row order with their values intact.",
 ["inputs","configurations"],"every domain layout, selector, base estimator capability and method (fit, fit_transform, transform, predict, predict_proba, decision_function, score)",
 "Row-to-estimator routing depends on interleaving of domains and on dtypes; tests use block layouts and check shapes.",
 [B,IU],[("Shared/PerDomain/SelectSource/SelectTarget/SelectSourceTarget",B),("_merge_domain_outputs",IU)],["calls received by recording base estimators","selector outputs"])
p("C07","What an adapter produces reaches later steps aligned with its samples",
 "Features, labels, sample weights, sample_domain or row subsets produced by a pipeline step during fit replace the caller's in every later step, each staying attached to the sample it was computed for, and metadata is delivered to a step if and only if that step requested it. Metadata an adapter produced that a later non-transformer (or the last step) neither requests nor refuses raises an error instead of being dropped, and steps that ignore metadata in the middle leave it intact for later ones.",
 ["configurations","programs","inputs"],"every sequence of adapters, transformers and estimators with every request setting",
 "The interaction of step order, requests and row subsets is combinatorial; tests cover three fixed pipelines.",
 [B],[("MetadataContainer.merge_in / merge_out",B),("BaseSelector._prepare_routing",B)],["calls received by recording estimators in later steps"])
p("C08","Samples with masked labels never train an estimator unaware of domains",
 "A non-transforming step that does not ask for sample_domain is trained on exactly the rows whose label is real, with weights and other per-sample parameters cut to the same rows, under every selector; a step that asks for sample_domain, and every transformer, receives all rows with the mask values in place.",
 ["inputs","configurations"],"every placement of masked rows over domains, both label kinds, every selector",
 "Tests use one contiguous masked target block and the shared selector.",
 [B,IU],[("BaseSelector._remove_masked",B),("_remove_masked",IU)],["rows and labels received by recording base estimators"])
p("C09","Source samples are refused at prediction time unless allowed",
 "Adapters' transform, and pipelines built on them, raise ValueError when given any row with a source domain unless allow_source=True is passed, and accept every all-target input. With allow_source=True the answer for each target row is the one it gets in a target-only call, and the output has one row per input row in input order.",
 ["inputs","histories"],"every fitted adapter and factory pipeline, every mix of source and target rows at prediction",
 "Tests call predict on whole-target or whole-packed inputs only.",
 [B,MP,RW,SB,OT,U],[("BaseAdapter.transform / check_X_domain(allow_source)",B)],["ValueError or output rows of transform/predict"])
p("C10","Adapted features stay aligned with their samples in any sample order",
 "For every feature-mapping and subspace adapter, permuting the training rows (features, labels and domains together) permutes the adapted training rows the same way, whatever the interleaving of source and target rows. Optimal-transport mappings leave target rows numerically unchanged, and adapted outputs always have one row per input row.",
 ["inputs"],"every interleaving and permutation of source and target rows for every adapter",
 "Tests feed data with all source rows first, the one layout where a source-then-target output order is correct.",
 [MP,SB,U],[("source_target_merge in transform",MP),("row reordering in subspace transforms",SB)],["fit_transform/transform output rows"])
p("C11","Reweighting gives non-negative weights attached to the right source samples",
 "Every reweighting adapter returns one finite non-negative weight per training row, zero (up to the adapter's documented smoothing constant) on target rows, attached to its own row under any sample order. Where all target samples lie close to one source cluster and far from another, source samples of the close cluster get the larger weights.",
 ["inputs"],"every row order, domain layout and adapter; separated-cluster datasets",
 "Tests check accuracy on one layout and that weights exist.",
 [RW,B],[("compute_weights of each adapter",RW),("BaseReweightAdapter.fit_transform",RW)],["sample_weight produced by fit_transform","compute_weights"])
p("C12","Propagated labels are source labels, only on targets, in row order",
 "Label-propagation adapters return the features unchanged, mask every source row, and give each target row a label that occurs among the source labels (or, for regression, a convex combination of them), aligned with the input rows under any order. With matching source and target clusters each target row receives its cluster's label.",
 ["inputs"],"every set of class labels (including labels not of the form 0..k-1) and row order",
 "Tests use labels 0..k-1, for which class index and class label coincide.",
 [OT],[("OTLabelPropAdapter.fit_transform",OT),("JCPOTLabelPropAdapter.fit_transform",OT)],["(X, y, params) returned by fit_transform"])
p("C13","Domain-aware shuffle splits are disjoint, sized and cover both sides",
 "Every split of the source-target, domain and stratified-domain shuffle splitters yields train and test index sets without repeats and disjoint. For the first two, both sets contain source and target samples, with the sizes implied by test_size and train_size of each side; domain thinning keeps the configured share of every domain. For the stratified one, the sets have the sizes implied for the total and every (label, domain) group is shared between them in proportion to its size. The number of splits equals get_n_splits, and the same random_state reproduces the same splits.",
 ["inputs","configurations"],"every domain layout, label layout, size parameters and seed",
 "Tests run one dataset and look only at fold counts and domain presence.",
 [MS],[("_iter_indices of each splitter",MS)],["indices yielded by split"])
p("C14","Leave-one-domain-out folds never train on the held-out domain's source rows",
 "On data packed with every domain as both source and target, each fold holds out a different domain: no row of the held-out domain appears as source, the only target rows are the held-out domain's, train and test are disjoint, and all other domains appear as source. The folds number min(max_n_splits, number of source domains), the figure get_n_splits reports, and are reproducible from random_state.",
 ["inputs","configurations"],"every number of domains, max_n_splits, domain sizes and row interleavings",
 "Tests use two or three equal domains and check counts.",
 [MS],[("LeaveOneDomainOut.split",MS)],["indices yielded by split"])
p("C15","A dataset keeps every domain it was given under a stable unique identity",
 "After any sequence of add_domain and merge calls (and construction from a list or a dictionary), every domain ever added is retrievable under its own name with the data it was added with, names and ids are unique and ids never change, and re-using a name is refused rather than overwriting. Packing any choice of sources and targets returns exactly those domains' rows in the order requested, source rows labelled with the domain's id and target rows with its negation, identically for every return type.",
 ["histories","inputs"],"every history of add_domain/merge/pack calls, named or unnamed, labelled or not",
 "Name and id collisions need particular histories of named and unnamed additions.",
 [DS],[("DomainAwareDataset.add_domain / merge / pack / select_domain",DS)],["domain_names_, get_domain, pack results"],
 [("domains_ / domain_names_","registry of domains and their ids",DS)])
p("C16","Packing with masked targets hides every target label and nothing else",
 "When packed with target masking, no target row carries its label: class labels become -1 and real-valued ones NaN (or the caller's mask value) for every numeric label dtype and container, while source labels, all features and domain labels are unchanged, and without masking all labels come out as stored. The stored dataset is not changed by packing. (Non-numeric labels have no default mask; the domains packed together carry one kind of label.)",
 ["inputs","configurations"],"every combination of domain label kinds, return types, mask values and pack calls",
 "Tests pack one int-labelled and one float-labelled dataset.",
 [DS],[("DomainAwareDataset.pack / pack_lodo",DS)],["y, sample_domain of packed results"])
p("C17","Subsamplers keep rows, labels, domains and weights together",
 "A subsampling step keeps the requested number of rows when more are available and all rows otherwise, never repeats a row, and returns each kept row with its own label, domain and weight; the domain-stratified variants keep each domain (and label) in proportion. At prediction it changes nothing, and the same random_state gives the same subset.",
 ["inputs","configurations"],"every dataset, train_size, weighting and seed",
 "Tests check shapes only.",
 [TR],[("Subsampler / DomainSubsampler / StratifiedDomainSubsampler",TR)],["fit_transform output"])
p("C18","Validation scores use only the samples and labels they are entitled to",
 "The unsupervised scores are unaffected by target labels; the supervised score uses exactly the target rows with their true labels; the importance-weighted and deep-embedded scores use exactly source labels with weights that are larger for target-like source rows; each score equals its defining formula on the predictions for exactly those rows, and is negated exactly when a lower raw value is better. Scoring never changes the estimator or the data it is given.",
 ["inputs","configurations"],"every scorer, domain layout, label assignment and estimator output",
 "Tests check that cross-validation returns finite numbers.",
 [ME],[("_score of each scorer",ME)],["score values","calls received by a recording estimator"])
p("C19","Circular validation trains back from predicted targets and scores on source",
 "The circular score fits a fresh copy of the estimator with roles swapped (target rows as labelled source carrying the predicted labels, source rows as masked target), predicts the source rows with it and compares with the true source labels, in the original label space; when all target predictions agree it scores that constant answer on the source. The estimator given, its labels and the data are unchanged, and true target labels play no role.",
 ["inputs"],"every label set, domain layout and estimator prediction pattern, constant predictions and domain label 0 included",
 "Tests check only that the score is in range for a few estimators.",
 [ME],[("CircularValidation._score",ME)],["fit/predict calls of a recording estimator"])
p("C20","Progressive self-labelling exchanges source for target points as specified",
 "The progressive SVM starts from all source points and no target point, then at each round removes only source points and adds only in-margin target points (at most k of each per class), re-labels added target points with the current classifier, withdraws those whose label flips, never restores a removed source point, and ends with a classifier trained on target points only under their predicted labels. It stops when no target point is in the margin or after max_iter rounds, and predictions of every kind come from that final classifier. Each recorded classifier is the one of its round.",
 ["inputs","histories"],"every sequence of decision values the base classifier may produce, every k and max_iter",
 "The loop's path depends on decision values; tests run one dataset and look at accuracy.",
 [SL],[("DASVMClassifier.fit",SL)],["fit/predict/decision_function calls of a recording base classifier, saved indices"])
p("C21","Gradual adaptation walks from source to target in n_steps self-labelled moves",
 "The gradual estimator first trains on the true source labels only, then for steps 1..n trains on the points interpolated a fraction step/n of the way along the transport plan's retained pairs, labelled by the estimator of the previous step, ending on target points. The number of retained pairs follows the configured cut-off, recorded estimators and intermediate data are those of each stage, and target labels never influence the result.",
 ["inputs","configurations"],"every plan, n_steps, alpha and sampling mode",
 "Tests check output shapes and estimator counts for one configuration.",
 [GR],[("GradualEstimator.fit / generate_data_at_step",GR)],["fit/predict calls of a recording base estimator"])
p("C22","Joint OT alternates plan and estimator, training only on target points",
 "The joint-distribution OT estimators alternate transport and fitting: each fit trains the estimator only on target features with labels transported from source labels, iterations stop when either loss settles within tol or at n_iter_max, one loss pair is recorded per iteration, fit returns the estimator itself and predictions come from the last fitted estimator. Target labels never influence the result, and the base estimator passed in stays unfitted.",
 ["inputs","configurations"],"every dataset, weighting, tolerance and iteration cap",
 "Tests check fitted attributes on one dataset.",
 [OT],[("solve_jdot_regression / solve_jdot_classification",OT)],["fit/predict calls of a recording base estimator","lst_loss_ot_, lst_loss_tgt_labels_"])
p("C23","Deep data loaders pair source and target batches without starving rows",
 "The balanced loader yields batches made of batch_size source and batch_size target samples alternately, for a number of samples given by the chosen policy (max, min, source, target), never repeats a sample on a side before that side is exhausted, and its declared length equals what it yields; the single-domain loader yields only samples of its domain, each at most once, in whole batches.",
 ["inputs","configurations","histories"],"every dataset composition, batch size, policy and epoch",
 "Tests check one composition's length.",
 [DB],[("DomainBalancedSampler",DB),("DomainOnlySampler",DB)],["indices yielded by iterating the sampler"])
p("C24","The deep dataset keeps features, labels, domains and weights together",
 "Through construction from arrays, dicts, frames or other datasets and any sequence of merge, add_domain, select, per-domain split and weight operations, each sample keeps its own features, label, domain and weight; selections return exactly the matching samples in order, and lookups number samples within their domain. Weights stay with their samples unless the operation is documented to drop them (merge without keep_weights, add_domain). Missing labels become -1, missing domains the default, inconsistent lengths are refused, and a refused operation changes nothing.",
 ["histories","inputs"],"every history of dataset operations",
 "Tests run a handful of single operations.",
 [DB],[("DeepDADataset",DB)],["as_arrays, as_dict, __getitem__"])
p("C25","Deep training losses see each side's outputs and never target labels",
 "For every batch the criterion hands the base loss exactly the source outputs with source labels (or target ones when configured to train on target) and the adaptation loss exactly the source and target outputs, features, domain predictions and sample indices of each side, in batch order, and the total is base plus reg times adaptation. Target labels never influence the total unless training on target is configured. The source-only and target-only networks train on exactly their own side's rows and labels, with nothing added to the base loss.",
 ["inputs","configurations"],"every mixture and order of domains in a batch, including domain 0",
 "Tests train end to end on one data layout and check shapes.",
 [DB],[("DomainAwareCriterion.forward",DB),("DomainAwareNet.get_loss",DB)],["arguments received by recording losses","loss value and gradients"])
p("C26","Deep prediction answers target rows in order and honours allow_source",
 "A fitted deep estimator returns exactly one prediction per target row in input order when source is not allowed and one per row when it is, each equal to the prediction the row gets alone, for arrays, dicts and datasets alike; its score compares each prediction with the same row's label and weight.",
 ["inputs","histories"],"every order of domains in the input and every input kind",
 "Tests predict on contiguous layouts and compare shapes.",
 [DB],[("DomainAwareNet.predict_proba / score / predict_features",DB)],["predict, predict_proba, predict_features, score outputs"])
p("C27","Training counters, schedules and memory banks follow the batches seen",
 "Across any sequence of epochs and batches, epoch counters advance once per epoch and restart on a new fit, the memory bank updates exactly the entries of the samples seen by the momentum rule and leaves others alone, and scheduled quantities depend only on progress. Two fits of equally configured estimators with the same seed follow the same path, and building or fitting one leaves torch's global seed and the caller's callback list alone.",
 ["histories","schedules"],"every sequence of fits, epochs and batches",
 "Tests run a few epochs and check that training finishes.",
 [DC,DL],[("CountEpochs, MemoryBank, ComputeSourceCentroids callbacks",DC)],["state of callbacks and criterion after each batch/epoch"])
p("C28","Cloning and parameter access preserve an estimator's behaviour",
 "For every public estimator, adapter, selector, splitter and pipeline, get_params reports what was configured, set_params changes exactly the named parameters and takes effect at the next fit, and a clone (or a copy through a parameter search) behaves identically to a fresh object with the same parameters, including masking and final-step behaviour. Constructing, cloning or fitting never alters configured parameters.",
 ["configurations","histories"],"every estimator class and every history of clone/get_params/set_params/fit",
 "Only constructor acceptance is tested; lost parameters show only after clone plus fit.",
 [B,RW,OT,SL,GR],[("BaseSelector.get_params/set_params",B)],["get_params, behaviour of clones"])
p("C29","Refitting equals fitting afresh",
 "Fitting an already fitted estimator, adapter or pipeline on new data gives the same predictions as fitting a fresh clone on that data, regardless of earlier fits, predictions or scores, and fitting one estimator never affects another built from the same arguments or defaults.",
 ["histories"],"every history of fits and predictions over several estimators sharing arguments or defaults",
 "Needs multi-step histories; tests fit each object once.",
 [B,RW,GR,SL,MP,OT,SB],[("clone before fit, state reset in fit",B)],["predictions after fit histories"])
p("C30","Pipeline construction wraps, names and flattens steps faithfully",
 "Building a pipeline keeps the given steps in order with unique names (user names kept), wraps each bare estimator exactly once with the chosen selector, keeps explicit selectors, flattens nested adaptation pipelines, marks only the last step as final, and applies the masking flag up to the step that predicts target labels. Unsupported selectors raise ValueError, and no step list makes construction drop, duplicate or reorder a step.",
 ["programs","configurations"],"every list of steps: named, unnamed, repeated, nested, pre-wrapped, callable or string selectors",
 "Tests build five fixed pipelines.",
 [PL],[("make_da_pipeline / _wrap_with_selectors / _name_estimators",PL)],["steps of the constructed pipeline"])
p("C31","Synthetic datasets deliver the promised samples, labels and domains",
 "Every synthetic data generator, and the digits loader, returns the requested number of distinct source and target samples with matching labels of the promised kind, classes and shares, finite features of the promised width, and every row marked with its own domain; the returned forms agree. The requested shift, noise and standardisation act on the promised part only and in the promised way (translation, affine map, same labelling rule, class share, position, frequency), leaving the source of the same seed unchanged. The same random_state gives the same data, another seed other data, a shared random object moves on, and neither the global random state nor the arguments change.",
 ["inputs","configurations"],"every shift type, label kind, size, noise, position, share, class count and seed or random object",
 "Tests check shapes for fixed arguments.",
 [GEN,"skada/datasets/_mnist_usps.py",DS],[("make_shifted_datasets, make_shifted_blobs, make_dataset_from_moons_distribution, make_variable_frequency_dataset",GEN),("load_mnist_usps","skada/datasets/_mnist_usps.py")],["returned datasets and arrays, global random state"])
p("C32","Solvers return feasible, optimal points and the value of that very point",
 "For every convex quadratic problem the solvers return a point that satisfies every bound and linear constraint within tolerance and is not worse than any feasible point by more than the tolerance (the usual 2C/(k+2) after k Frank-Wolfe steps), with the objective value of that very point, or no value together with a warning when the optimisation failed; combinations a solver does not support raise ValueError. The gradient minimiser returns the value at the returned point, never above the start's, in the shape of the start, and warns if and only if the gradient there exceeds the tolerance. No solver changes its arguments, and kernel mean matching weights obey their bound and total and are no worse than any feasible weighting.",
 ["inputs","configurations"],"every small convex problem, constraint set, solver, iteration budget and starting point",
 "Tests solve two problems.",
 [U,RW],[("qp_solve / frank_wolfe / torch_minimize",U),("BaseKMMReweightAdapter._weights_optimization",RW)],["returned point and objective, warnings"])
p("C33","Deep adaptation losses equal their definitions and never mix the two sides",
 "Each deep loss (covariance, kernel, optimal transport, class confusion, contrastive, margin and adversarial discrepancy, graph and neighbour losses) equals its published definition wherever that value can be computed exactly. The order of rows within a side is irrelevant when what belongs together moves together; divergences are zero for identical sides, never negative, symmetric and translation invariant where the definition is; gradients reach both sides' features, batches are left unchanged; target clusters too far or too small are left out; composed losses are the weighted sum of their parts; every method minimises the source criterion plus its weight times the loss with the options it was given; the conditional method shows its domain classifier every product of an output and a feature, or as many random mixtures as there is room for; missing sizes and unknown metrics raise ValueError.",
 ["inputs","configurations"],"every pair of batches, labels, pseudo labels, parameters and row order",
 "Tests only check that a training run with each loss finishes; no test compares a value of a loss to its definition.",
 [DL,"skada/deep/_adversarial.py","skada/deep/_divergence.py","skada/deep/_optimal_transport.py","skada/deep/_class_confusion.py","skada/deep/_graph_alignment.py"],
 [("deepcoral_loss, deepjdot_loss, dan_loss, cdd_loss, gda_loss, nap_loss",DL),("DANNLoss, CDANLoss, MDDLoss","skada/deep/_adversarial.py"),("MCCLoss","skada/deep/_class_confusion.py"),("SPALoss","skada/deep/_graph_alignment.py")],["loss values and gradients"])
p("C34","Fetched datasets hold the right samples and the cache survives interruption",
 "Every dataset fetcher returns exactly the archive's samples of the requested domains and categories with their own labels and domains, shuffled alike for the same seed, in every return form. An interruption at any file operation of a download, check or extraction never leaves a cache that a later call takes for the dataset: later calls answer with the full data or fetch again. Cached data are returned without network, and with downloading switched off the network is never used.",
 ["crash_points","fault_sequences","histories"],"every interruption point, cache state, order of calls, domain and category selection",
 "The tests need the network and are not run offline; no test interrupts a download.",
 ["skada/datasets/_office.py","skada/datasets/_mnist_usps.py","skada/datasets/_amazon_review.py","skada/datasets/_office_home.py",DS],[("fetch_* functions","skada/datasets/_office.py"),("_new_dataset_dir, get_data_home",DS)],["returned dataset, network requests, files in data_home"])
p("C35","Spherical clustering answers are consistent with their own centres",
 "After fitting, the spherical clustering labels every row with a nearest centre by angle, its centres are (after convergence) the directions of the sums of their own rows, and its inertia is the summed cosine distance of rows to their own centres, no worse than any single restart with the same draws. Predictions repeat the fitted labels on the fitted rows, scale rows away, follow row order; the same random_state gives the same result, and neither the inputs, the given initial centres nor the global random state change.",
 ["inputs","configurations"],"every data set, number of clusters, restarts, iteration budget, initial centres and seed",
 "The one test checks shapes.",
 ["skada/deep/utils.py"],[("SphericalKMeans","skada/deep/utils.py")],["labels, centres, inertia, predictions"])
p("C36","Importance weights equal the ratios that define them",
 "On every data set the weight of a source sample is the ratio its adapter is named after: nearest-neighbour weights count the target samples nearest to it (plus one with Laplace smoothing), so that each target sample counts once; density and classifier weights are the target density over the source density, or the classifier's odds of the target, scaled to mean one; Gaussian weights are the ratio of the two fitted normal densities; KLIEP weights average one over the training sources and no centre can raise the likelihood of the targets, a rate chosen by cross-validation being the likeliest on held-out targets; kernel mean matching stays within its mass and bound and no move of weight brings the two mean embeddings closer; label-shift weights depend on the label alone, respect their bound, and recover the class shares of the target exactly when the targets are copies of source samples. Weights of rows not seen in fit follow the same function, target rows get none, equal seeds choose equal weights, and the estimators handed over are not fitted themselves.",
 ["inputs","configurations"],"every integer data set, row order, domain layout, kernel width, smoothing, shrinkage and query rows",
 "Tests compare shapes and accuracies; a wrong ratio still trains a classifier.",
 [RW,IU],[("compute_weights of every adapter",RW),("_estimate_covariance",IU)],["sample_weight of fit_transform, compute_weights"])
p("C37","Mapped samples satisfy the transport equations",
 "Exact transport moves the sources onto the targets in equal shares at least total cost, and moves an unseen source row by the shift of the nearest training row; entropic transport sends every row to a blend of the targets, each target used by its share, order kept on a line, with the log odds of two targets linear in the row at the slope the regularisation sets. Covariance alignment carries the (shrunk) source covariance into the target's and the mean to zero, or second moments when data are taken as centred; linear transport carries mean and covariance, by a symmetric positive map; multi-domain alignment gives all domains one mean and one covariance, the centre of the sources'. Class-wise kernel matching moves the rows of a class by one scale and shift per feature and comes closer to the target. Unseen rows follow the same maps.",
 ["inputs","configurations"],"every integer data set, sizes that divide each other, cost, normalisation, regularisation, shrinkage, centring, number of domains and query rows",
 "Tests check shapes and that a classifier still scores.",
 [MP,IU],[("OTMappingAdapter, EntropicOTMappingAdapter, ClassRegularizerOTMappingAdapter, LinearOTMappingAdapter",MP),("CORALAdapter, MultiLinearMongeAlignmentAdapter, MMDLSConSMappingAdapter",MP)],["fit_transform and transform outputs"])
p("C38","Learned subspaces solve the problems that define them",
 "Subspace alignment represents targets by orthonormal principal axes (centred, uncorrelated, decreasing and largest possible spread) and sources by the projection of those axes on the source's principal subspace, so that with all components both sides share their axes and lose no spread. Transfer component analysis and joint matching give uncorrelated components; the first ones in decreasing order with the two sides no farther apart than the trade-off permits and no better direction for a linear kernel, the second of unit scatter with the first component's gap as small as any direction's. Transfer subspace learning projects both sides on the same orthonormal axes, which without the divergence term are the best direction for the chosen criterion: most spread, classes best separated, neighbours of a class kept closest. Unseen rows follow the same projections.",
 ["inputs","configurations"],"every integer data set of full rank, number of components, kernel, trade-off and criterion",
 "Tests check shapes and that a classifier still scores.",
 [SB],[("SubspaceAlignmentAdapter, TransferComponentAnalysisAdapter, TransferJointMatchingAdapter, TransferSubspaceLearningAdapter",SB)],["fit_transform and transform outputs"])
p("C39","Model selection trains and scores every candidate on its own fold only",
 "Cross-validating a domain-aware pipeline, or searching its parameters, fits every candidate anew on exactly the training rows of each fold that its selector trains on (with their own labels and domains, target labels only where they are not masked), asks it about rows of that fold only, and reports for every fold and metric the score defined on that fold's rows: the estimator's own score counts the rows with real labels, the supervised score the target rows with their true labels, the entropy score the target rows. Every selector (shared, source, target, source/target, per domain) answers each row with the estimator of its group, also when it is scored. The candidate chosen has the best mean score, is refitted on all rows and answers from that fit. The pipeline given stays unfitted, its parameters and the data unchanged; several threads give the same result.",
 ["inputs","configurations","histories"],"every domain layout, splitter, selector, scorer and combination of scorers, set of candidates, label masking and number of threads",
 "Tests run cross_validate once per scorer and check that the result is finite; which rows reach which estimator of which fold is never looked at.",
 [B,ME,MS,PL],[("scorers and their metadata requests",ME),("selectors' fit / predict / score routing",B),("splitters",MS)],["rows, labels and domains received by recording estimators; reported scores, chosen candidate and answers of the refitted pipeline"])
p("C40","Deep nets: copies are independent and answers depend only on the weights",
 "For every deep method, handed a base module as an instance or as a class, what a net knows is the sequence of trainings behind its weights. A deep copy or a pickled net continues exactly where the original is, a clone starts untrained from the same parameters, and both are possible at any moment; training, asking or cross-validating one net never changes another. A module given as an instance keeps its weights across fits, one given as a class is made anew by every fit that is not a warm start. Predictions, probabilities, features and scores are functions of these weights and of the data: asking again, on a copy, right after training or after any other question gives the same answer. The caller's arrays stay as they are.",
 ["histories","configurations","inputs"],"every sequence of constructing, training (cold or warm), setting parameters, cloning, deep copying, pickling, asking for predictions, features and scores over several nets and data sets",
 "Tests train one net once per method and never copy it or ask twice.",
 [DB,ME],[("DomainAwareModule and its hooks, DomainAwareNet",DB),("deep nets in scorers",ME),("callbacks keeping training state","skada/deep/callbacks.py")],["weights, probabilities, features and scores of every net after every operation"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for q in P: f.write(json.dumps(q)+"\n")
print(len(P))
