"""Writes known_findings.json (fixed entries suppress nothing)."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = [
 dict(property="C18", clause="string_scoring_raised_TypeError", where=dict(ev="strscore", cls=c),
      what=f"{c}(scoring='accuracy') raises TypeError although scoring is documented to accept a string")
 for c in ("SupervisedScorer", "ImportanceWeightedScorer", "MixValScorer")
] + [
 dict(property="C32", clause="one_inequality_read_as_equality", where=dict(ev="qp", onerow=True),
      what="qp_solve(solver='frank-wolfe') solves A x = b when given a single inequality row A x <= b (an existing test requires that answer)")
]
FIXED = [  # property, subject of the fix commit, what failed
 ("C02", "validate list sample_domain", "list sample_domain skipped every domain check; wrong lengths accepted; scalar domain failed for unsigned labels"),
 ("C02", "allow_multi_target counts target", "allow_multi_target counted source domains"),
 ("C01", "source_target_merge keeps the values", "source_target_merge cast one side to the other's dtype"),
 ("C04", "mask target labels on a copy", "masking wrote into the caller's y; bool and unsigned labels wrapped"),
 ("C06", "keep the values of every domain", "per-domain outputs were cast to the first domain's dtype"),
 ("C06", "PerDomain with masked labels", "PerDomain failed with masked labels, plain transformers, scalar parameters and list domains"),
 ("C06", "SelectSourceTarget can predict", "SelectSourceTarget had no predict, could not be cloned, dropped unset metadata"),
 ("C28", "clones of selectors keep masking", "cloned selectors lost mask_target_labels and the final-step flag"),
 ("C30", "only the last step of a pipeline", "nested or reused selectors stayed marked as final in the middle"),
 ("C30", "unknown default_selector name", "unknown selector name raised AttributeError"),
 ("C30", "names exported by skada.__all__", "skada.__all__ named objects that do not exist"),
 ("C07", "deliver the caller's metadata to intermediate", "weights requested by an intermediate step were never delivered"),
 ("C07", "per-domain adapters that output no labels", "PerDomain around an adapter returning (X, params) discarded labels produced earlier"),
 ("C06", "selectors cut list-valued", "SelectSource/SelectTarget failed on list sample_domain or weights"),
 ("C30", "automatic step names never clash", "two nested pipelines, or a user name equal to an automatic one, gave duplicate step names"),
 ("C28", "accept ensembles as weight estimator", "ensembles as weight estimator or domain classifier raised AttributeError (their truth value was taken)"),
 ("C11", "discriminator weights grow with the target", "DiscriminatorReweight preferred source rows unlike the target (ratio inverted)"),
 ("C11", "nearest neighbor weights count the target", "NearestNeighborReweight counted neighbours from the wrong side"),
 ("C28", "KLIEP fit leaves the gamma", "KLIEP overwrote its gamma parameter during fit"),
 ("C28", "set_params of nearest neighbor weights", "set_params on NearestNeighborReweight had no effect"),
 ("C10", "TCA and TJM return samples in the order", "TCA and TJM returned source rows first, detached from y and sample_domain"),
 ("C10", "TCA solves the generalized eigenvalue", "TCA eigenvectors were those of a non-symmetric product, order and content wrong"),
 ("C12", "JCPOT gives target samples their own label", "JCPOT target labels were in the wrong order and indexes instead of classes"),
 ("C09", "MultiLinearMongeAlignment refuses source", "MultiLinearMongeAlignment accepted source rows at prediction"),
 ("C10", "MultiLinearMongeAlignment does not truncate", "MultiLinearMongeAlignment wrote mapped features into an integer array"),
 ("C07", "caller's parameters follow the rows", "weights not requested by SelectSource kept the full length for later steps"),
 ("C15", "names given to unnamed domains", "adding an unnamed domain could overwrite the name of an existing one (named _k)"),
 ("C15", "accepts unlabeled and named domains at creation", "DomainAwareDataset([(X,)]) and DomainAwareDataset({name: (X, y)}) failed or re-used the previous domain's data"),
 ("C15", "merge datasets with unlabeled", "merging a dataset with an unlabelled domain raised ValueError"),
 ("C15", "pack_lodo respects return_type", "pack_lodo ignored return_type (return_X_y=True by default overrode it)"),
 ("C15", "pack gives one domain label per sample", "packing 2-D labels gave a 2-D sample_domain"),
 ("C16", "pack masks target labels of every numeric", "pack(mask_target_labels=True) left target labels in place for tensors and for int8, int16, unsigned, bool and float16 labels"),
 ("C15", "pack converts numpy data to tensors", "pack(return_type='tensor' or 'DeepDADataset') raised TypeError for numpy data"),
 ("C19", "circular validation swaps the role of source domain 0", "CircularValidation kept source domain 0 as source in the backward fit (-0 = 0)"),
 ("C18", "weights each error by its own weight", "DeepEmbeddedValidation broadcast (n,1) weights against (n,) errors: every error met every weight"),
 ("C18", "deep embedded validation accepts any class labels", "DeepEmbeddedValidation raised IndexError (or read the wrong column) for class labels other than 0..k-1"),
 ("C18", "MaNo applies the Taylor softmax", "MaNoScorer shifted the logits in place before applying the Taylor softmax"),
 ("C18", "soft neighborhood density is finite", "SoftNeighborhoodDensity returned NaN when similarities underflow (small T)"),
 ("C20", "DASVM predicts probabilities", "DASVM predict_proba answered with the source classifier, not the adapted one"),
 ("C20", "DASVM leaves the base estimator unfitted", "DASVM fitted the estimator passed in"),
 ("C20", "DASVM exchanges k points per class", "DASVM exchanged one point per class and round whatever k"),
 ("C20", "DASVM keeps going when all the target points", "DASVM raised AxisError once every target point was added"),
 ("C21", "gradual adaptation leaves the transport method", "GradualEstimator fitted the transport object passed in (shared by default between estimators)"),
 ("C21", "gradual adaptation trains a clone", "GradualEstimator fitted and changed (max_iter += 100 per step) the base estimator passed in"),
 ("C21", "gradual adaptation accepts classifiers without max_iter", "GradualEstimator raised AttributeError for classifiers without max_iter"),
 ("C21", "gradual adaptation keeps exactly", "GradualEstimator raised IndexError on tied transport coefficients and kept one pair more than alpha * (n + m)"),
 ("C21", "gradual adaptation derives missing", "GradualEstimator.fit without sample_domain raised TypeError"),
 ("C22", "JDOT estimators return themselves", "JDOTRegressor.fit and JDOTClassifier.fit returned None"),
 ("C22", "JDOT estimators derive missing", "JDOT fit without sample_domain raised TypeError"),
 ("C09", "JDOT regressor predicts with allow_source", "JDOTRegressor.predict(allow_source=...) raised TypeError"),
 ("C22", "binary hinge cost of JDOT", "binary hinge cost of JDOT was the same for both labels, so labels never entered the plan"),
 ("C17", "subsamplers cut list-valued weights", "subsamplers raised TypeError for weights given as a list"),
 ("C17", "subsamplers receive sample weights in pipelines", "subsamplers in a pipeline never saw sample_weight: later steps got weights of the full length"),
 ("C17", "subsamplers return derived domain labels", "Subsampler and DomainSubsampler dropped derived domain labels when they kept all rows"),
 ("C17", "stratified subsamplers keep any number", "DomainSubsampler and StratifiedDomainSubsampler raised ValueError for small groups or when few rows were left out"),
 ("C17", "subsamplers keep all the rows for a proportion", "subsamplers raised ValueError for the documented train_size=1.0"),
 ("C28", "JDOT estimators keep the options", "options given to JDOT estimators for the base estimator's fit were lost by clone and not settable"),
 ("C28", "JDOT base estimator can be reset", "set_params(base_estimator=None) left JDOT estimators unusable and unclonable"),
 ("C28", "DASVMClassifier base estimator can be reset", "set_params(base_estimator=None) left DASVMClassifier unusable and unclonable"),
 ("C28", "estimators of reweighting adapters can be reset", "set_params(weight_estimator=None / domain_classifier=None) left the adapters unusable and unclonable"),
 ("C28", "ClassRegularizerOTMapping pipelines do not share", "set_params on one default pipeline changed the SVC of every other one"),
 ("C28", "MMDLSConSMappingAdapter does not look fitted", "unfitted objects and clones passed check_is_fitted"),
 ("C28", "TransferSubspaceLearningAdapter keeps reg=None", "reg=None was reported as 0 and set_params(reg=None) made fitting fail"),
 ("C28", "GradualEstimator objects do not share one default transport", "set_params(ot_method__*) on one estimator changed every default one"),
 ("C29", "pipelines ending in GradualEstimator can be scored", "score of a pipeline ending in GradualEstimator always raised"),
 ("C26", "DomainAwareNet.score compares predictions", "score compared the predictions of the target rows with the labels and weights of all rows"),
 ("C24", "DeepDADataset accepts a single domain", "DeepDADataset(X, y, sample_domain=<int>) raised"),
 ("C24", "DeepDADataset.merge(out=False) numbers", "merge(out=False) left merged samples without numbers and changed the dataset even when refused"),
 ("C24", "DeepDADataset.add_weights changes nothing", "refused add_weights left the dataset with the refused weights"),
 ("C26", "deep estimators accept any torch dataset", "deep estimators raised for torch datasets other than DeepDADataset"),
 ("C25", "deep sample weights follow the samples", "deep sample weights were cut to the wrong rows for domain 0 and for train_on_target"),
 ("C27", "CountEpochs restarts", "the criterion's epoch counter (and schedules) went on from the previous fit"),
 ("C27", "MemoryBank moves its entries", "memory bank entries shrank instead of moving towards the batch (stray unary plus)"),
 ("C27", "MemoryBank is not updated by validation", "validation batches overwrote entries of the memory bank"),
 ("C27", "CAN and SPA leave the list of callbacks", "CAN and SPA appended their callbacks to the caller's list: a second estimator had them twice"),
 ("C27", "check_generator returns a new generator", "check_generator(int) reseeded torch's global generator"),
 ("C35", "SphericalKMeans uses its random_state", "SphericalKMeans ignored random_state"),
 ("C25", "CDANModule accepts sample weights", "CDAN raised TypeError when trained with sample weights"),
 ("C27", "MemoryBank keeps one entry per target sample", "samples of several target domains shared memory bank entries"),
 ("C34", "an interrupted download never passes", "an interrupted download or extraction left a folder later taken for the dataset"),
 ("C31", "dataset generators accept RandomState", "dataset generators raised TypeError for RandomState instances"),
 ("C31", "classes of the subspace shift", "multiclass labels of the subspace shift were misaligned with the clusters for odd sizes"),
 ("C31", "load_mnist_usps returns distinct", "load_mnist_usps drew samples with replacement"),
 ("C32", "qp_solve returns val as None", "qp_solve reported a value although the optimization failed"),
 ("C31", "scalar mu_regression", "make_shifted_datasets(shift=subspace) raised for the documented scalar mu_regression"),
 ("C33", "cdd_loss measures the angle", "cdd_loss compared feature columns instead of samples when assigning target samples to centroids"),
 ("C33", "cdd_loss averages the kernels", "cdd_loss averaged over the wrong counts and skipped ordered pairs of classes"),
 ("C33", "deepcoral_loss does not center", "deepcoral_loss(assume_centered=True) centred the data and the other way round"),
 ("C33", "MDD compares each target sample", "MDD's target term compared every sample with the pseudo labels of all samples"),
 ("C32", "the frank-wolfe solver honours lb and ub", "the frank-wolfe solver (default of KMM weights) ignored lb and ub"),
 ("C12", "marks the sources with -1 for boolean and unsigned", "the label propagation adapters failed on boolean labels and marked sources with 255 for unsigned ones"),
 ("C12", "averages the regression targets with the mass", "OTLabelPropAdapter's regression labels left the range of the source labels when Sinkhorn stopped early"),
 ("C33", "default domain classifier has a sigmoid", "the default domain classifier (softmax over one unit) was constant: DANN, CDAN and SPA adapted nothing"),
 ("C36", "KLIEP weights maximize the likelihood", "KLIEP never optimised (steps of machine epsilon) and drew its centres with replacement: likelihood of the targets far from maximal"),
 ("C37", "automatic covariance shrinkage honours", "CORAL(reg=auto, assume_centered=True) used covariances about the mean"),
 ("C38", "discriminant subspace learning separates", "TransferSubspaceLearning(flda) minimised the scatter between the classes"),
 ("C38", "locality preserving subspace learning keeps", "TransferSubspaceLearning(lpp) maximised the distance of neighbours"),
 ("C39", "pipelines of several estimators can be scored", "score of PerDomain and SelectSourceTarget always raised AssertionError"),
 ("C39", "the supervised scorer tells the estimator", "SupervisedScorer dropped sample_domain: a source/target pipeline was scored with the source estimator on targets, a per-domain one raised KeyError"),
 ("C39", "the supervised scorer asks for the domains", "SupervisedScorer lost its request for sample_domain: in cross-validation it derived domains from label masks and raised on real labels"),
 ("C40", "a deep net can be cloned right after it was fitted", "clone (and cross-validation) of a deep net that was just fitted raised RuntimeError: the last batch's features were copied along with the module"),
 ("C40", "deep methods accept the base module as a class", "the documented module class raised TypeError at the first fit"),
 ("C40", "MaNoScorer asks deep nets for their predictions in evaluation mode", "the score of a net that was just fitted was drawn with dropout active"),
]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
out = []
for prop, subj, what in FIXED:
    hit = [l for l in log if subj in l]
    assert len(hit) == 1, (subj, hit)
    out.append(f"fixed: property={prop} {hit[0].split()[0]} {what}")
json.dump(dict(findings=FINDINGS, fixed=out), open(os.path.join(HERE, "known_findings.json"), "w"), indent=1)
