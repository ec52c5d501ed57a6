From f7ebc51864a6aca59c3a22f23c937689f8f227c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 001/103] fix: validate list sample_domain and its length in
 check_X_y_domain/check_X_domain

A list raised TypeError, a wrong length was accepted with labels, and a
scalar overflowed for unsigned labels.
---
 skada/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skada/utils.py b/skada/utils.py
index 12b285d..8a73299 100644
--- a/skada/utils.py
+++ b/skada/utils.py
@@ -96,9 +96,11 @@ def check_X_y_domain(
         sample_domain[mask] = _DEFAULT_TARGET_DOMAIN_LABEL
 
     if np.isscalar(sample_domain):
-        sample_domain = sample_domain*np.ones_like(y)
+        sample_domain = sample_domain * np.ones(X.shape[0], dtype=np.int32)
+    sample_domain = np.asarray(sample_domain)
 
     source_idx = extract_source_indices(sample_domain)
+    check_consistent_length(X, sample_domain)
 
     # xxx(okachaiev): this needs to be re-written to accommodate for a
     # a new domain labeling convention without "intersections"
@@ -194,6 +196,7 @@ def check_X_domain(
 
     if np.isscalar(sample_domain):
         sample_domain = sample_domain * np.ones(X.shape[0], dtype=np.int32)
+    sample_domain = np.asarray(sample_domain)
 
     source_idx = extract_source_indices(sample_domain)
     check_consistent_length(X, sample_domain)
-- 
2.43.0


From b9b4a7838b94c154e8f8b253ab1284315ddf4b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 002/103] fix: allow_multi_target counts target domains, not
 source domains

---
 skada/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skada/utils.py b/skada/utils.py
index 8a73299..5c147e1 100644
--- a/skada/utils.py
+++ b/skada/utils.py
@@ -116,7 +116,7 @@ def check_X_y_domain(
     if not allow_multi_source and n_sources > 1:
         raise ValueError(f"Number of sources provided is {n_sources} "
                          "and 'allow_multi_source' is set to False")
-    if not allow_multi_target and n_sources > 1:
+    if not allow_multi_target and n_targets > 1:
         raise ValueError(f"Number of targets provided is {n_targets} "
                          "and 'allow_multi_target' is set to False")
 
@@ -220,7 +220,7 @@ def check_X_domain(
     if not allow_multi_source and n_sources > 1:
         raise ValueError(f"Number of sources provided is {n_sources} "
                          "and 'allow_multi_source' is set to False")
-    if not allow_multi_target and n_sources > 1:
+    if not allow_multi_target and n_targets > 1:
         raise ValueError(f"Number of targets provided is {n_targets} "
                          "and 'allow_multi_target' is set to False")
     
-- 
2.43.0


From 46b7702f271d1681ac4f5214147d7609f3f5e9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:10 +0000
Subject: [PATCH 003/103] fix: source_target_merge keeps the values of both
 sides

Merging integer source rows with real-valued target rows (or the filled
NaN) truncated the target rows to integers.
---
 skada/utils.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/skada/utils.py b/skada/utils.py
index 5c147e1..a0b92d1 100644
--- a/skada/utils.py
+++ b/skada/utils.py
@@ -530,8 +530,7 @@ def source_target_merge(
                     default_masked_label = _DEFAULT_MASKED_TARGET_REGRESSION_LABEL
 
                 arrays[index_is_empty] = (
-                    default_masked_label *
-                    np.ones(shape_to_complete)
+                    np.full(shape_to_complete, default_masked_label)
                 )
 
         # Check consistent number of samples in source-target arrays
@@ -584,9 +583,8 @@ def _merge_arrays(
         (n_samples_source + n_samples_target, n_features)
     """
     if array_source.shape[0] > 0 and array_target.shape[0] > 0:
-        output = np.zeros_like(
-            np.concatenate((array_source, array_target)), dtype=array_source.dtype
-        )
+        # the dtype has to hold the values of both sides
+        output = np.zeros_like(np.concatenate((array_source, array_target)))
         output[sample_domain >= 0] = array_source
         output[sample_domain < 0] = array_target
 
-- 
2.43.0


From 1fcaf3817c1690b3de8ef8ed5608f2e3c1cfe030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 004/103] fix: mask target labels on a copy of the caller's
 array

Fitting overwrote the caller's target labels, refused read-only and list
labels, and turned boolean target labels into the class True.
---
 skada/base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/skada/base.py b/skada/base.py
index b5d1f7e..c072115 100644
--- a/skada/base.py
+++ b/skada/base.py
@@ -351,6 +351,11 @@ class BaseSelector(BaseEstimator, _DAMetadataRequesterMixin):
         if y is not None and routed_params.get('sample_domain') is not None:
             y_type = _find_y_type(y)
             source_idx = extract_source_indices(routed_params['sample_domain'])
+            # the labels of the caller should stay as they are
+            y = np.array(y)
+            if y.dtype.kind in 'bu':
+                # these types cannot hold the mask value
+                y = y.astype(np.int64)
             if y_type == Y_Type.DISCRETE:
                 y[~source_idx] = _DEFAULT_MASKED_TARGET_CLASSIFICATION_LABEL
             elif y_type == Y_Type.CONTINUOUS:
-- 
2.43.0


From 817da3d5093e1e1571a47894a9a742ef635ebb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:21 +0000
Subject: [PATCH 005/103] fix: keep the values of every domain when merging
 selector outputs

The output took the type of the first domain, which truncated the
predictions of the others (integers, short strings).
---
 skada/_utils.py | 45 +++++++++++++++++++++++++--------------------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/skada/_utils.py b/skada/_utils.py
index 5c4178b..23530a6 100644
--- a/skada/_utils.py
+++ b/skada/_utils.py
@@ -171,6 +171,14 @@ def _remove_masked(X, y, params):
     return X, y, params
 
 
+def _merged_array(n_samples, arrays):
+    """Empty array with a type that holds the values of all `arrays`."""
+    return np.zeros(
+        (n_samples, *arrays[0].shape[1:]),
+        dtype=np.result_type(*[a.dtype for a in arrays]),
+    )
+
+
 def _merge_domain_outputs(n_samples, domain_outputs, *, allow_containers=False):
     assert len(domain_outputs), "At least a single domain has to be given"
     _, first_output = next(iter(domain_outputs.values()))
@@ -178,7 +186,7 @@ def _merge_domain_outputs(n_samples, domain_outputs, *, allow_containers=False):
         assert (
             allow_containers
         ), "Container output is given while `allow_containers` set to False"
-        X_output, y_output, params_output = None, None, {}
+        X_parts, y_parts, params_parts = [], [], {}
         for idx, domain_output in domain_outputs.values():
             if len(domain_output) == 2:
                 domain_X, domain_params = domain_output
@@ -187,29 +195,26 @@ def _merge_domain_outputs(n_samples, domain_outputs, *, allow_containers=False):
                 domain_X, domain_y, domain_params = domain_output
             else:
                 raise ValueError("Invalid container structure")
-            if X_output is None:
-                X_output = np.zeros(
-                    (n_samples, *domain_X.shape[1:]), dtype=domain_X.dtype
-                )
-            if domain_y is not None and y_output is None:
-                y_output = np.zeros(
-                    (n_samples, *domain_y.shape[1:]), dtype=domain_y.dtype
-                )
-            X_output[idx] = domain_X
+            X_parts.append((idx, domain_X))
             if domain_y is not None:
-                y_output[idx] = domain_y
+                y_parts.append((idx, domain_y))
             for k, v in domain_params.items():
-                if k not in params_output:
-                    params_output[k] = np.zeros(
-                        (n_samples, *v.shape[1:]), dtype=v.dtype
-                    )
-                params_output[k][idx] = v
-        output = X_output, y_output, params_output
+                params_parts.setdefault(k, []).append((idx, v))
+
+        def merge(parts):
+            merged = _merged_array(n_samples, [part for _, part in parts])
+            for idx, part in parts:
+                merged[idx] = part
+            return merged
+
+        output = (
+            merge(X_parts),
+            merge(y_parts) if y_parts else None,
+            {k: merge(parts) for k, parts in params_parts.items()},
+        )
     else:
         assert isinstance(first_output, np.ndarray)
-        output = np.zeros(
-            (n_samples, *first_output.shape[1:]), dtype=first_output.dtype
-        )
+        output = _merged_array(n_samples, [out for _, out in domain_outputs.values()])
         for idx, domain_output in domain_outputs.values():
             output[idx] = domain_output
     return output
-- 
2.43.0


From 2b8c1e1446e86b8e41ad50d3c82827fd0d443642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:21 +0000
Subject: [PATCH 006/103] fix: PerDomain with masked labels, plain transformers
 and scalar parameters

Removing masked samples left the domain labels uncut (IndexError), a base
transformer without fit_transform could not be fitted, parameters such as
allow_source were indexed, and a list of domain labels matched no sample.
---
 skada/base.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/skada/base.py b/skada/base.py
index c072115..225f701 100644
--- a/skada/base.py
+++ b/skada/base.py
@@ -473,19 +473,23 @@ class PerDomain(BaseSelector):
             y = self._auto_mask_target_labels(y, params)
 
         X, y, params = X_container.merge_out(y, **params)
-        sample_domain = params['sample_domain']
+        sample_domain = np.asarray(params['sample_domain'])
         routing = get_routing_for_object(self.base_estimator)
         routing_request = getattr(routing, method_name)
         routed_params = self._prepare_routing(routing_request, X_container, params)
+        # removing masked samples should also remove their domain labels
+        routed_params['_rows'] = np.arange(len(sample_domain))
         X, y, routed_params = self._remove_masked(X, y, routed_params)
+        sample_domain = sample_domain[routed_params.pop('_rows')]
         estimators, outputs = {}, {}
         for domain_label in np.unique(sample_domain):
-            idx, = np.where(sample_domain == domain_label)
+            domain_masks = sample_domain == domain_label
+            X_domain, y_domain, domain_params = _apply_domain_masks(
+                X, y, routed_params, masks=domain_masks
+            )
             estimator = clone(self.base_estimator)
-            outputs[domain_label] = (idx, getattr(estimator, method_name)(
-                X[idx],
-                y[idx] if y is not None else None,
-                **{k: v[idx] for k, v in routed_params.items()}
+            outputs[domain_label] = (domain_masks, getattr(estimator, method_name)(
+                X_domain, y_domain, **domain_params
             ))
             estimators[domain_label] = estimator
         self.estimators_ = estimators
@@ -499,12 +503,10 @@ class PerDomain(BaseSelector):
             domain_outputs = self._fit('fit_transform', X_container, y=y, **params)
             output = _merge_domain_outputs(len(X_container), domain_outputs, allow_containers=True)
         else:
-            if self.mask_target_labels:
-                y = self._auto_mask_target_labels(y, params)
-
-            self._fit(X_container, y, **params)
+            self._fit('fit', X_container, y, **params)
             X, y, method_params = X_container.merge_out(y, **params)
             transform_params = _route_params(self.routing_.transform, method_params, self)
+            transform_params['sample_domain'] = method_params['sample_domain']
             # the output of the transform call is already merged into a single ndarray
             output = self.transform(X, **transform_params)
         return X_container.merge_in(output)
@@ -514,7 +516,7 @@ class PerDomain(BaseSelector):
         request = getattr(self.routing_, method_name)
         routed_params = self._prepare_routing(request, {}, params)
         # xxx(okachaiev): use check_*_domain to derive default domain labels
-        sample_domain = params['sample_domain']
+        sample_domain = np.asarray(params['sample_domain'])
         domain_outputs = {}
         # test if default target domain and unique target during fit and replace label
         for domain_label in np.unique(sample_domain):
@@ -526,10 +528,10 @@ class PerDomain(BaseSelector):
                     f"Domain label {domain_label} is not present in the "
                     "fitted estimators."
                 )
-            idx, = np.where(sample_domain == domain_label)
-            X_domain = X[idx]
-            y_domain = y[idx] if y is not None else None
-            domain_params = {k: v[idx] for k, v in routed_params.items()}
+            idx = sample_domain == domain_label
+            X_domain, y_domain, domain_params = _apply_domain_masks(
+                X, y, routed_params, masks=idx
+            )
             if y is None:
                 domain_output = method(X_domain, **domain_params)
             else:
-- 
2.43.0


From 1fb417fb621f3be0a6802faf5491d2678d9c9536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:21 +0000
Subject: [PATCH 007/103] fix: SelectSourceTarget can predict, be cloned and
 wrap plain transformers

predict was unavailable, get_params/clone/repr raised AttributeError, and
so did fit_transform without a base fit_transform and unset metadata.
---
 skada/base.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/skada/base.py b/skada/base.py
index 225f701..a0c42df 100644
--- a/skada/base.py
+++ b/skada/base.py
@@ -621,6 +621,7 @@ class SelectSourceTarget(BaseSelector):
         
         self.source_estimator = source_estimator
         self.target_estimator = target_estimator
+        self.mask_target_labels = mask_target_labels
         # xxx(okachaiev): the fact that we need to put those variables
         # here means that the choice of the base class is suboptimal
         self._is_final = False
@@ -721,7 +722,7 @@ class SelectSourceTarget(BaseSelector):
                 )
             X_masked, y_masked, params_masked = _apply_domain_masks(X, y, params, masks=domain_masks)
             routing = getattr(get_routing_for_object(base_estimator), method_name)
-            routed_params = self._prepare_routing(routing, X_masked, params_masked)
+            routed_params = self._prepare_routing(routing, X_container, params_masked)
             X_masked, y_masked, routed_params = self._remove_masked(X_masked, y_masked, routed_params)
             estimator = clone(base_estimator)
             estimator_method = getattr(estimator, method_name)
@@ -740,8 +741,8 @@ class SelectSourceTarget(BaseSelector):
         else:
             self.fit(X_container, y, **params)
             X, y, method_params = X_container.merge_out(y, **params)
-            transform_params = _route_params(self.routing_.transform, method_params, self)
-            output = self.transform(X, **transform_params)
+            # the parameters are routed to each of the estimators separately
+            output = self.transform(X, **method_params)
         return X_container.merge_in(output)
 
     def _route_to_estimator(self, method_name, X, y=None, **params):
@@ -774,6 +775,10 @@ class SelectSourceTarget(BaseSelector):
     def transform(self, X, **params):
         return self._route_to_estimator('transform', X, **params)
 
+    @available_if(_estimator_has('predict', base_attr_name='source_estimator'))
+    def predict(self, X, **params):
+        return self._route_to_estimator('predict', X, **params)
+
     # xxx(okachaiev): i guess this should return 'True' only if both
     # estimators have the same method. though practical advantage is,
     # surely, questionable
-- 
2.43.0


From b2a93dbfc8296efbfd0e89f3047bff2ff64115f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:25 +0000
Subject: [PATCH 008/103] fix: clones of selectors keep masking and final-step
 behaviour

clone (hence cross-validation and parameter search) switched masking back
on and forgot which step is the last one of the pipeline.
---
 skada/base.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/skada/base.py b/skada/base.py
index a0c42df..8f52a94 100644
--- a/skada/base.py
+++ b/skada/base.py
@@ -255,9 +255,10 @@ class BaseSelector(BaseEstimator, _DAMetadataRequesterMixin):
         """
         params = self.base_estimator.get_params(deep=deep)
         params['base_estimator'] = self.base_estimator
+        params['mask_target_labels'] = self.mask_target_labels
         return params
 
-    def set_params(self, base_estimator=None, **kwargs):
+    def set_params(self, base_estimator=None, mask_target_labels=None, **kwargs):
         """Set the parameters of this estimator.
 
         Valid parameter keys can be listed with ``get_params()``. Note that
@@ -276,9 +277,19 @@ class BaseSelector(BaseEstimator, _DAMetadataRequesterMixin):
         """
         if base_estimator is not None:
             self.base_estimator = base_estimator
+            self._is_transformer = hasattr(base_estimator, 'transform')
+        if mask_target_labels is not None:
+            self.mask_target_labels = mask_target_labels
         self.base_estimator.set_params(**kwargs)
         return self
 
+    def __sklearn_clone__(self):
+        # being the last step of a pipeline is not a parameter
+        # but cloning the pipeline should not change it
+        cloned = super().__sklearn_clone__()
+        cloned._is_final = self._is_final
+        return cloned
+
     def _mark_as_final(self):
         self._is_final = True
         return self
-- 
2.43.0


From b8e972c6215a6b4ccc2a586a66f5ef55d28e0de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:25 +0000
Subject: [PATCH 009/103] fix: only the last step of a pipeline is marked as
 final

A selector that had been the last step of another pipeline stayed marked.
---
 skada/_pipeline.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skada/_pipeline.py b/skada/_pipeline.py
index 72305ff..4197d2a 100644
--- a/skada/_pipeline.py
+++ b/skada/_pipeline.py
@@ -105,6 +105,9 @@ def make_da_pipeline(
         (auto_name, step) if user_name is None else (user_name, step)
         for user_name, (auto_name, step) in zip(names, steps)
     ]
+    for _, step in named_steps[:-1]:
+        if isinstance(step, BaseSelector):
+            step._unmark_as_final()
     named_steps[-1][1]._mark_as_final()
     return Pipeline(named_steps, memory=memory, verbose=verbose)
 
-- 
2.43.0


From 242bc514a29fcb0854f51990c0088bf9163ab0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:25 +0000
Subject: [PATCH 010/103] fix: unknown default_selector name raises ValueError
 instead of AttributeError

---
 skada/_pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/_pipeline.py b/skada/_pipeline.py
index 4197d2a..59190f5 100644
--- a/skada/_pipeline.py
+++ b/skada/_pipeline.py
@@ -130,7 +130,7 @@ def _wrap_with_selector(
             if selector_cls is None:
                 raise ValueError(
                     f"Unsupported `default_selector` name: {selector}."
-                    f"Use one of {_DEFAULT_SELECTORS.keys().join(', ')}"
+                    f"Use one of {', '.join(_DEFAULT_SELECTORS)}"
                 )
             estimator = selector_cls(estimator, mask_target_labels=mask_target_labels)
         else:
-- 
2.43.0


From 009fa63ffbd9dd374dee2ef4ad5b3143acc56e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:25 +0000
Subject: [PATCH 011/103] fix: names exported by skada.__all__ exist

---
 skada/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skada/__init__.py b/skada/__init__.py
index 927a8b0..b39a7d0 100644
--- a/skada/__init__.py
+++ b/skada/__init__.py
@@ -132,8 +132,9 @@ __all__ = [
     "JDOTClassifier",
     "OTLabelPropAdapter",
 
-    "SubsampleTransformer",
-    "DomainStratifiedSubsampleTransformer",
+    "Subsampler",
+    "DomainSubsampler",
+    "StratifiedDomainSubsampler",
 
     "make_da_pipeline",
 
-- 
2.43.0


From d1e07072574080e76a50b2a62ca9749a304b6d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 012/103] fix: deliver the caller's metadata to intermediate
 steps that request it

Selectors did not declare fit_transform in their routing, so a
sample_weight requested by an intermediate step never reached it.
---
 skada/base.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/skada/base.py b/skada/base.py
index 8f52a94..d3e0836 100644
--- a/skada/base.py
+++ b/skada/base.py
@@ -220,6 +220,8 @@ class BaseSelector(BaseEstimator, _DAMetadataRequesterMixin):
             .add_self_request(self)
             .add(estimator=self.base_estimator, method_mapping=MethodMapping()
                  .add(callee='fit', caller='fit')
+                 .add(callee='fit', caller='fit_transform')
+                 .add(callee='transform', caller='fit_transform')
                  .add(callee='partial_fit', caller='partial_fit')
                  .add(callee='transform', caller='transform')
                  .add(callee='predict', caller='predict')
@@ -642,6 +644,8 @@ class SelectSourceTarget(BaseSelector):
         routing = MetadataRouter(owner=self.__class__.__name__).add_self_request(self)
         routing.add(estimator=self.source_estimator, method_mapping=MethodMapping()
             .add(callee='fit', caller='fit')
+            .add(callee='fit', caller='fit_transform')
+            .add(callee='transform', caller='fit_transform')
             .add(callee='partial_fit', caller='partial_fit')
             .add(callee='transform', caller='transform')
             .add(callee='predict', caller='predict')
@@ -652,6 +656,8 @@ class SelectSourceTarget(BaseSelector):
         if self.target_estimator is not None:
             routing.add(estimator=self.target_estimator, method_mapping=MethodMapping()
                 .add(callee='fit', caller='fit')
+                .add(callee='fit', caller='fit_transform')
+                .add(callee='transform', caller='fit_transform')
                 .add(callee='partial_fit', caller='partial_fit')
                 .add(callee='transform', caller='transform')
                 .add(callee='predict', caller='predict')
-- 
2.43.0


From b68a94870698fa0a7de6496fd91ebf869c433174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:09 +0000
Subject: [PATCH 013/103] fix: per-domain adapters that output no labels keep
 the earlier labels

---
 skada/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skada/base.py b/skada/base.py
index d3e0836..ba4b4a9 100644
--- a/skada/base.py
+++ b/skada/base.py
@@ -182,7 +182,8 @@ class MetadataContainer:
             X, y, params = X_container
             assert isinstance(params, dict)
             self._features = X
-            self._labels = y
+            if y is not None:
+                self._labels = y
             self._metadata.update(params)
         elif isinstance(X_container, np.ndarray):
             self._features = X_container
-- 
2.43.0


From ce637aba5b8cb1df989a755d33ac672f0e87ba80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:09 +0000
Subject: [PATCH 014/103] fix: selectors cut list-valued per-sample parameters

---
 skada/_utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/skada/_utils.py b/skada/_utils.py
index 23530a6..4941384 100644
--- a/skada/_utils.py
+++ b/skada/_utils.py
@@ -16,7 +16,7 @@ from sklearn.covariance import (
     shrunk_covariance,
 )
 from sklearn.preprocessing import StandardScaler
-from sklearn.utils import check_random_state
+from sklearn.utils import _safe_indexing, check_random_state
 from sklearn.utils.multiclass import type_of_target
 
 _logger = logging.getLogger("skada")
@@ -132,7 +132,11 @@ def _apply_domain_masks(X, y, params, masks):
     if y is not None:
         y = y[masks]
     params = {
-        k: v[masks] if (hasattr(v, "__len__") and len(v) == len(masks)) else v
+        k: (
+            _safe_indexing(v, masks)
+            if (hasattr(v, "__len__") and len(v) == len(masks))
+            else v
+        )
         for k, v in params.items()
     }
     return X, y, params
-- 
2.43.0


From 1cda448e35e48b85f130b51a1df0c805e129ccf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:18 +0000
Subject: [PATCH 015/103] fix: automatic step names never clash with other
 names

---
 skada/_pipeline.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/skada/_pipeline.py b/skada/_pipeline.py
index 59190f5..140d0fb 100644
--- a/skada/_pipeline.py
+++ b/skada/_pipeline.py
@@ -85,6 +85,7 @@ def make_da_pipeline(
         raise TypeError("Missing 1 required positional argument: 'steps'")
 
     names, estimators = [], []
+    user_names = []
     for step in steps:
         name, estimator = step if isinstance(step, tuple) else (None, step)
         if isinstance(estimator, Pipeline) and isinstance(estimator[0], BaseSelector):
@@ -92,19 +93,28 @@ def make_da_pipeline(
             for nested_name, nested_selector in estimator.steps:
                 if name is not None:
                     nested_name = f"{name}__{nested_name}"
+                user_names.append(nested_name if name is not None else None)
                 names.append(nested_name)
                 estimators.append(nested_selector._unmark_as_final())
         else:
+            user_names.append(name)
             names.append(name)
             estimators.append(estimator)
     wrapped_estimators = _wrap_with_selectors(
         estimators, default_selector, mask_target_labels
     )
     steps = _name_estimators(wrapped_estimators)
-    named_steps = [
-        (auto_name, step) if user_name is None else (user_name, step)
-        for user_name, (auto_name, step) in zip(names, steps)
-    ]
+    named_steps = []
+    # names that were not chosen by the user should not clash with any other
+    taken = set(user_names)
+    for name, user_name, (auto_name, step) in zip(names, user_names, steps):
+        if user_name is None:
+            base_name = name if name is not None else auto_name
+            name, i = base_name, 1
+            while name in taken:
+                name, i = f"{base_name}-{i}", i + 1
+            taken.add(name)
+        named_steps.append((name, step))
     for _, step in named_steps[:-1]:
         if isinstance(step, BaseSelector):
             step._unmark_as_final()
-- 
2.43.0


From 9a78203f5b4beecc6308cc005c58955b2dde14ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:56 +0000
Subject: [PATCH 016/103] fix: caller's parameters follow the rows kept by
 earlier selectors

---
 skada/base.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/skada/base.py b/skada/base.py
index ba4b4a9..c915961 100644
--- a/skada/base.py
+++ b/skada/base.py
@@ -11,6 +11,7 @@ from typing import Any, Dict, Iterator, Literal, Optional, Tuple
 import numpy as np
 from sklearn.base import BaseEstimator, clone
 from sklearn.exceptions import UnsetMetadataPassedError
+from sklearn.utils import _safe_indexing
 from sklearn.utils.metadata_routing import (
     MetadataRouter,
     MethodMapping,
@@ -166,6 +167,9 @@ class MetadataContainer:
     _features: np.ndarray
     _labels: np.ndarray
     _metadata: dict
+    # number of samples the caller provided, and which of them selectors kept
+    _n_input: Optional[int] = None
+    _kept: Optional[np.ndarray] = None
 
     @classmethod
     def from_input(cls, X, y=None) -> 'MetadataContainer':
@@ -191,7 +195,21 @@ class MetadataContainer:
             raise ValueError("Unsupported container")
         return self
 
+    def keep(self, masks):
+        if self._kept is None:
+            self._n_input, self._kept = len(masks), np.arange(len(masks))
+        # rows are traceable only if no other step changed their number
+        if len(masks) == len(self._kept):
+            self._kept = self._kept[masks]
+
     def merge_out(self, y, **params):
+        if self._kept is not None:
+            # the caller's parameters still cover the rows filtered out before
+            params = {
+                k: _safe_indexing(v, self._kept)
+                if hasattr(v, '__len__') and len(v) == self._n_input else v
+                for k, v in params.items()
+            }
         params.update(self._metadata)
         y_out = self._labels if self._labels is not None else y
         return self._features, y_out, params
@@ -586,6 +604,7 @@ class _BaseSelectDomain(Shared):
         X, y, params = X_container.merge_out(y, **params)
         filter_masks = self._select_indices(params.get('sample_domain'))
         X_input, y, params = _apply_domain_masks(X, y, params, masks=filter_masks)
+        X_container.keep(filter_masks)
         return getattr(super(), method_name)(X_container.merge_in((X_input, y, params)), y, **params)
 
     def fit(self, X, y=None, **params):
-- 
2.43.0


From be8dac55e2086d92a0d6432c2ddd9792bb2a5e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:11 +0000
Subject: [PATCH 017/103] fix: accept ensembles as weight estimator and domain
 classifier

---
 skada/_reweight.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/skada/_reweight.py b/skada/_reweight.py
index 8395d76..ae048fa 100644
--- a/skada/_reweight.py
+++ b/skada/_reweight.py
@@ -95,7 +95,9 @@ class DensityReweightAdapter(BaseReweightAdapter):
 
     def __init__(self, weight_estimator=None):
         super().__init__()
-        self.weight_estimator = weight_estimator or KernelDensity()
+        self.weight_estimator = (
+            weight_estimator if weight_estimator is not None else KernelDensity()
+        )
 
     def fit(self, X, y=None, *, sample_domain=None):
         """Fit adaptation parameters.
@@ -319,7 +321,9 @@ class DiscriminatorReweightAdapter(BaseReweightAdapter):
 
     def __init__(self, domain_classifier=None):
         super().__init__()
-        self.domain_classifier = domain_classifier or LogisticRegression()
+        self.domain_classifier = (
+            domain_classifier if domain_classifier is not None else LogisticRegression()
+        )
 
     def fit(self, X, y=None, sample_domain=None):
         """Fit adaptation parameters.
-- 
2.43.0


From 1d875e80f8b62ac6800079b86b2a956c1408d995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:11 +0000
Subject: [PATCH 018/103] fix: discriminator weights grow with the target
 probability

---
 skada/_reweight.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skada/_reweight.py b/skada/_reweight.py
index ae048fa..317df9b 100644
--- a/skada/_reweight.py
+++ b/skada/_reweight.py
@@ -361,7 +361,8 @@ class DiscriminatorReweightAdapter(BaseReweightAdapter):
         (source_idx,) = np.where(source_idx)
         probas = self.domain_classifier_.predict_proba(X[source_idx])[:, 1]
         probas = np.clip(probas, EPS, 1.0)
-        source_weights = (1 - probas) / probas
+        # the classifier gives the probability of being a target sample
+        source_weights = probas / np.clip(1 - probas, EPS, None)
         source_weights /= source_weights.mean()
         weights = np.zeros(X.shape[0], dtype=source_weights.dtype)
         weights[source_idx] = source_weights
-- 
2.43.0


From a2d9760670498c3c66fd3d3e48876e37664ab19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:11 +0000
Subject: [PATCH 019/103] fix: nearest neighbor weights count the target
 samples

---
 skada/_reweight.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skada/_reweight.py b/skada/_reweight.py
index 317df9b..d84171f 100644
--- a/skada/_reweight.py
+++ b/skada/_reweight.py
@@ -818,8 +818,9 @@ class NearestNeighborReweightAdapter(BaseReweightAdapter):
         else:
             estimator = clone(self.base_estimator)
             estimator.fit(X[source_idx], indices_source)
-        weights = np.ones(X.shape[0])
-        weights[source_idx] = self._get_weights(X[source_idx], X[~source_idx])
+        target_idx = np.setdiff1d(np.arange(X.shape[0]), source_idx)
+        weights = np.zeros(X.shape[0])
+        weights[source_idx] = self._get_weights(X[source_idx], X[target_idx])
         return weights
 
 
-- 
2.43.0


From f3bffdd7a08aeb8c47665ad27f2295092d8ab834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:11 +0000
Subject: [PATCH 020/103] fix: KLIEP fit leaves the gamma parameter unchanged

---
 skada/_reweight.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skada/_reweight.py b/skada/_reweight.py
index d84171f..fb94a83 100644
--- a/skada/_reweight.py
+++ b/skada/_reweight.py
@@ -489,9 +489,9 @@ class KLIEPReweightAdapter(BaseReweightAdapter):
         X_source, X_target = source_target_split(X, sample_domain=sample_domain)
 
         if isinstance(self.gamma, list):
-            self.gamma = [self._auto_scale_gammas(gamma, X) for gamma in self.gamma]
+            gammas = [self._auto_scale_gammas(gamma, X) for gamma in self.gamma]
             self.best_gamma_ = self._likelihood_cross_validation(
-                self.gamma, X_source, X_target
+                gammas, X_source, X_target
             )
         else:
             self.best_gamma_ = self._auto_scale_gammas(self.gamma, X)
-- 
2.43.0


From c841a84ad046aef7b4bca323ce2a87e6c11962c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:38 +0000
Subject: [PATCH 021/103] fix: set_params of nearest neighbor weights takes
 effect

---
 skada/_reweight.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/skada/_reweight.py b/skada/_reweight.py
index fb94a83..ddfcaae 100644
--- a/skada/_reweight.py
+++ b/skada/_reweight.py
@@ -758,7 +758,11 @@ class NearestNeighborReweightAdapter(BaseReweightAdapter):
         self.metric_params = metric_params
         self.n_jobs = n_jobs
         self.laplace_smoothing = laplace_smoothing
-        self.base_estimator = KNeighborsClassifier(
+
+    @property
+    def base_estimator(self):
+        # built on demand, to follow the current values of the parameters
+        return KNeighborsClassifier(
             n_neighbors=self.n_neighbors,
             weights=self.weights,
             algorithm=self.algorithm,
-- 
2.43.0


From 4c67c60470126b77b4c55b56513eacc70aff9d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:38 +0000
Subject: [PATCH 022/103] fix: TCA and TJM return samples in the order of the
 input

---
 skada/_subspace.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/skada/_subspace.py b/skada/_subspace.py
index 751195f..6a7d9d2 100644
--- a/skada/_subspace.py
+++ b/skada/_subspace.py
@@ -21,7 +21,6 @@ from ._pipeline import make_da_pipeline
 from .base import BaseAdapter
 from .utils import (
     check_X_domain,
-    extract_source_indices,
     source_target_merge,
     source_target_split,
     torch_minimize,
@@ -363,6 +362,11 @@ class TransferComponentAnalysisAdapter(BaseAdapter):
             X_target, self.X_target_
         ):
             X_ = (self.K_ @ self.eigvects_)[: X.shape[0]]
+            # the kernel has the source samples first
+            n_source = X_source.shape[0]
+            X_, _ = source_target_merge(
+                X_[:n_source], X_[n_source:], sample_domain=sample_domain
+            )
         else:
             Ks = pairwise_kernels(X, self.X_source_, metric=self.kernel)
             Kt = pairwise_kernels(X, self.X_target_, metric=self.kernel)
@@ -524,6 +528,11 @@ class TransferJointMatchingAdapter(BaseAdapter):
         ):
             K = self._get_kernel_matrix(X_source, X_target)
             X_ = K @ self.A_
+            # the kernel has the source samples first
+            n_source = X_source.shape[0]
+            X_, _ = source_target_merge(
+                X_[:n_source], X_[n_source:], sample_domain=sample_domain
+            )
         else:
             Ks = pairwise_kernels(X, self.X_source_, metric=self.kernel)
             Kt = pairwise_kernels(X, self.X_target_, metric=self.kernel)
@@ -578,7 +587,8 @@ class TransferJointMatchingAdapter(BaseAdapter):
         self.X_target_ = X_target
 
         n = X.shape[0]
-        source_mask = extract_source_indices(sample_domain)
+        # the kernel has the source samples first
+        source_mask = np.arange(n) < X_source.shape[0]
 
         H = np.identity(n) - 1 / n * np.ones((n, n))
         K = self._get_kernel_matrix(X_source, X_target)
-- 
2.43.0


From 9bf60caf9b33848146a60837fc129eaee3993f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:50 +0000
Subject: [PATCH 023/103] fix: TCA solves the generalized eigenvalue problem

---
 skada/_subspace.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/skada/_subspace.py b/skada/_subspace.py
index 6a7d9d2..3a75969 100644
--- a/skada/_subspace.py
+++ b/skada/_subspace.py
@@ -297,9 +297,8 @@ class TransferComponentAnalysisAdapter(BaseAdapter):
 
         A = np.eye(ns + nt) + self.mu * K @ L @ K
         B = K @ H @ K
-        solution = np.linalg.solve(A, B)
-
-        eigvals, eigvects = np.linalg.eigh(solution)
+        # inv(A) @ B is not symmetric: solve the generalized problem instead
+        eigvals, eigvects = scipy.linalg.eigh(B, A)
 
         if self.n_components is None:
             n_components = min(X.shape[0], X.shape[1])
-- 
2.43.0


From 9f9cacd90fe3f4127a79612b33f784ff990fe650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:35 +0000
Subject: [PATCH 024/103] fix: JCPOT gives target samples their own label,
 among the source labels

---
 skada/_ot.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/skada/_ot.py b/skada/_ot.py
index cec768d..f151f03 100644
--- a/skada/_ot.py
+++ b/skada/_ot.py
@@ -949,18 +949,20 @@ class JCPOTLabelPropAdapter(BaseAdapter):
     def fit_transform(self, X, y, sample_domain=None, *, sample_weight=None):
         X, y, sample_domain = check_X_y_domain(X, y, sample_domain)
 
-        sources, targets = per_domain_split(X, y, sample_domain=sample_domain)
+        sources, _ = per_domain_split(X, y, sample_domain=sample_domain)
+
+        # the solver expects labels to be 0, 1, ..., n_classes - 1
+        classes = np.unique(y[sample_domain >= 0])
 
         Xs = [X for X, y in sources.values()]
-        ys = [y for X, y in sources.values()]
+        ys = [np.searchsorted(classes, y) for X, y in sources.values()]
 
         if len(ys) == 1:
             Xs = Xs * 2
             ys = ys * 2
 
-        Xt = [X for X, y in targets.values()]
-
-        Xt = np.concatenate(Xt, axis=0)
+        # all targets together, in the order of the input
+        Xt = X[sample_domain < 0]
 
         self.ot_adapter_ = ot.da.JCPOTTransport(
             reg_e=self.reg,
@@ -976,7 +978,7 @@ class JCPOTLabelPropAdapter(BaseAdapter):
 
         self.yh_continuous_ = yh
 
-        yh = np.argmax(yh, axis=1)
+        yh = classes[np.argmax(yh, axis=1)]
 
         yout = -np.ones_like(y)
         yout[sample_domain < 0] = yh
-- 
2.43.0


From 57532babace342f0b8a6147571a828ed9a4af05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:10 +0000
Subject: [PATCH 025/103] fix: MultiLinearMongeAlignment refuses source samples
 unless allowed

---
 skada/_mapping.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/skada/_mapping.py b/skada/_mapping.py
index cb1caf9..a72dba6 100644
--- a/skada/_mapping.py
+++ b/skada/_mapping.py
@@ -688,7 +688,11 @@ class MultiLinearMongeAlignmentAdapter(BaseAdapter):
         self, X, y=None, *, sample_domain=None, allow_source=False, **params
     ) -> np.ndarray:
         X, sample_domain = check_X_domain(
-            X, sample_domain, allow_multi_source=True, allow_multi_target=True
+            X,
+            sample_domain,
+            allow_source=allow_source,
+            allow_multi_source=True,
+            allow_multi_target=True,
         )
         idx = extract_domains_indices(sample_domain)
         X_adapt = X.copy()
-- 
2.43.0


From 4974fb89a73a65570e94aacb7edf7fe2b4cc63fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:10 +0000
Subject: [PATCH 026/103] fix: MultiLinearMongeAlignment does not truncate
 integer features

---
 skada/_mapping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/_mapping.py b/skada/_mapping.py
index a72dba6..abb16ea 100644
--- a/skada/_mapping.py
+++ b/skada/_mapping.py
@@ -695,7 +695,7 @@ class MultiLinearMongeAlignmentAdapter(BaseAdapter):
             allow_multi_target=True,
         )
         idx = extract_domains_indices(sample_domain)
-        X_adapt = X.copy()
+        X_adapt = X.copy() if X.dtype.kind == "f" else X.astype(np.float64)
 
         for domain, sel in idx.items():
             A, b = self.mappings_[domain]
-- 
2.43.0


From de4ae0ec6c2b32c337fb81360a1386e2f2e558d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:45 +0000
Subject: [PATCH 027/103] fix: names given to unnamed domains never clash with
 existing names

---
 skada/datasets/_base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skada/datasets/_base.py b/skada/datasets/_base.py
index 20974c5..ad2e98d 100644
--- a/skada/datasets/_base.py
+++ b/skada/datasets/_base.py
@@ -144,7 +144,10 @@ class DomainAwareDataset:
             # xxx(okachaiev): ValueError would be more appropriate
             assert domain_name not in self.domain_names_
         else:
-            domain_name = f"_{len(self.domain_names_)+1}"
+            n = len(self.domain_names_) + 1
+            while f"_{n}" in self.domain_names_:
+                n += 1
+            domain_name = f"_{n}"
         domain_id = len(self.domains_) + 1
         self.domains_.append((X, y) if y is not None else (X,))
         self.domain_names_[domain_name] = domain_id
-- 
2.43.0


From c8bce7c98cd522f4484cf23225c740b90b4706b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:46 +0000
Subject: [PATCH 028/103] fix: DomainAwareDataset accepts unlabeled and named
 domains at creation

---
 skada/datasets/_base.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/skada/datasets/_base.py b/skada/datasets/_base.py
index ad2e98d..68459f6 100644
--- a/skada/datasets/_base.py
+++ b/skada/datasets/_base.py
@@ -111,12 +111,15 @@ class DomainAwareDataset:
         self.domain_names_ = {}
         # xxx(okachaiev): there should be a simpler way for adding those
         if domains is not None:
+            if isinstance(domains, Mapping):
+                domains = [
+                    (d[0], d[1] if len(d) > 1 else None, name)
+                    for name, d in domains.items()
+                ]
             for d in domains:
-                if len(d) == 2:
-                    X, y = d
-                    domain_name = None
-                elif len(d) == 3:
-                    X, y, domain_name = d
+                if len(d) not in (1, 2, 3):
+                    raise ValueError("Invalid definition for domain data")
+                X, y, domain_name = (*d, None, None)[:3]
                 self.add_domain(X, y=y, domain_name=domain_name)
 
     def add_domain(
-- 
2.43.0


From 4f7a11a854044bf53c667ead095f4326eb1706b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:46 +0000
Subject: [PATCH 029/103] fix: merge datasets with unlabeled domains

---
 skada/datasets/_base.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/skada/datasets/_base.py b/skada/datasets/_base.py
index 68459f6..0f264be 100644
--- a/skada/datasets/_base.py
+++ b/skada/datasets/_base.py
@@ -175,10 +175,7 @@ class DomainAwareDataset:
             The updated dataset.
         """
         for domain_name in dataset.domain_names_:
-            # xxx(okachaiev): this needs to be more flexible
-            # as it should be possible to pass only X with y=None
-            # i guess best way of doing so is to change 'add_domain' API
-            X, y = dataset.get_domain(domain_name)
+            X, y = (*dataset.get_domain(domain_name), None)[:2]
             if names_mapping is not None:
                 domain_name = names_mapping.get(domain_name, domain_name)
             self.add_domain(X, y, domain_name)
-- 
2.43.0


From 5040c7c6973edffc95a668dc6578f49f1ac30587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:46 +0000
Subject: [PATCH 030/103] fix: pack_lodo respects return_type

---
 skada/datasets/_base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/skada/datasets/_base.py b/skada/datasets/_base.py
index 0f264be..118cbfe 100644
--- a/skada/datasets/_base.py
+++ b/skada/datasets/_base.py
@@ -503,7 +503,7 @@ class DomainAwareDataset:
 
     def pack_lodo(
         self,
-        return_X_y: bool = True,
+        return_X_y: bool = None,
         return_type: Literal[
             "auto", "array", "tensor", "DeepDADataset", "Bunch"
         ] = "auto",
@@ -519,10 +519,10 @@ class DomainAwareDataset:
 
         Parameters
         ----------
-        return_X_y : bool, default=True
+        return_X_y : bool, default=None
             [DEPRECATED] When set to True, returns a tuple (X, y, sample_domain).
-            Otherwise returns :class:`~sklearn.utils.Bunch` object with the structure
-            described below.
+            When set to False, returns :class:`~sklearn.utils.Bunch` object with
+            the structure described below.
         return_type : Literal["auto", "array", "tensor", "DeepDADataset", "Bunch"]
             The type of the returned data. If "auto", it will return tensors if
             the data is in tensor format, otherwise it will return numpy arrays.
-- 
2.43.0


From d875540adbb467e362421743e679bb731fc71496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:46 +0000
Subject: [PATCH 031/103] fix: pack gives one domain label per sample whatever
 the shape of labels

---
 skada/datasets/_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skada/datasets/_base.py b/skada/datasets/_base.py
index 118cbfe..0a8f614 100644
--- a/skada/datasets/_base.py
+++ b/skada/datasets/_base.py
@@ -314,7 +314,7 @@ class DomainAwareDataset:
             # xxx(okachaiev): this is horribly inefficient, re-write when API is fixed
             Xs.append(X)
             ys.append(y)
-            sample_domains.append(np.ones_like(y, dtype=int) * domain_id)
+            sample_domains.append(np.ones(len(X), dtype=int) * domain_id)
             domain_labels[domain_name] = domain_id
         # xxx(okachaiev): code duplication, re-write when API is fixed
         dtype = None
@@ -344,7 +344,7 @@ class DomainAwareDataset:
             # xxx(okachaiev): this is horribly inefficient, rewrite when API is fixed
             Xs.append(X)
             ys.append(y)
-            sample_domains.append(-1 * domain_id * np.ones_like(y, dtype=int))
+            sample_domains.append(-1 * domain_id * np.ones(len(X), dtype=int))
             domain_labels[domain_name] = -1 * domain_id
 
         # xxx(okachaiev): so far this only works if source and target has the same size
-- 
2.43.0


From 0afd45995bc7d70d1555514293a56320074db279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:46 +0000
Subject: [PATCH 032/103] fix: pack masks target labels of every numeric dtype
 and of tensors

---
 skada/datasets/_base.py | 39 ++++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/skada/datasets/_base.py b/skada/datasets/_base.py
index 0a8f614..b665da6 100644
--- a/skada/datasets/_base.py
+++ b/skada/datasets/_base.py
@@ -331,16 +331,11 @@ class DomainAwareDataset:
             else:
                 raise ValueError("Invalid definition for domain data")
             if mask_target_labels:
-                if mask is not None:
-                    y = np.array([mask] * X.shape[0], dtype=dtype)
-                elif y.dtype in (np.int32, np.int64):
-                    y = -np.ones(X.shape[0], dtype=y.dtype)
+                if mask is None:
                     # make sure that the mask is reused on the next iteration
-                    mask, dtype = -1, y.dtype
-                elif y.dtype in (np.float32, np.float64):
-                    y = np.array([np.nan] * X.shape[0], dtype=y.dtype)
-                    # make sure that the  mask is reused on the next iteration
-                    mask, dtype = np.nan, y.dtype
+                    mask, dtype = _mask_of(y)
+                if mask is not None:
+                    y = _full_like(y, mask, dtype)
             # xxx(okachaiev): this is horribly inefficient, rewrite when API is fixed
             Xs.append(X)
             ys.append(y)
@@ -585,6 +580,32 @@ class DomainAwareDataset:
         return domain_str
 
 
+def _mask_of(y):
+    """Value and dtype that mask labels of the kind of `y`, None if not numeric."""
+    if _IS_TORCH_IMPORTED and isinstance(y, torch.Tensor):
+        if y.dtype.is_floating_point:
+            return np.nan, y.dtype
+        signed = y.dtype in (torch.int8, torch.int16, torch.int32, torch.int64)
+        return -1, y.dtype if signed else torch.int64
+    y = np.asarray(y)
+    if y.dtype.kind == "f":
+        return np.nan, y.dtype
+    if y.dtype.kind in "iub":
+        return -1, y.dtype if y.dtype.kind == "i" else np.dtype(np.int64)
+    return None, None
+
+
+def _full_like(y, mask, dtype=None):
+    """Array, or tensor, of the shape of `y` filled with the mask."""
+    if _IS_TORCH_IMPORTED and isinstance(y, torch.Tensor):
+        if not isinstance(dtype, torch.dtype):
+            dtype = None if dtype is None else torch.as_tensor(np.empty(0, dtype)).dtype
+        return torch.full(y.shape, mask, dtype=dtype, device=y.device)
+    if _IS_TORCH_IMPORTED and isinstance(dtype, torch.dtype):
+        dtype = torch.empty(0, dtype=dtype).numpy().dtype
+    return np.full(np.shape(y), mask, dtype=dtype)
+
+
 # xxx(okachaiev): putting `domain_names` first argument
 # so it's compatible with `partial`
 def select_domain(
-- 
2.43.0


From b69e4375468bd4ac93f56664630a57e1a605b372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:46 +0000
Subject: [PATCH 033/103] fix: pack converts numpy data to tensors when asked
 for tensors

---
 skada/datasets/_base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/skada/datasets/_base.py b/skada/datasets/_base.py
index b665da6..47bf0d2 100644
--- a/skada/datasets/_base.py
+++ b/skada/datasets/_base.py
@@ -367,8 +367,8 @@ class DomainAwareDataset:
                     "torch is required to return data as tensors. "
                     "Please install torch to use this feature."
                 )
-            Xs = torch.cat(Xs, dim=0)
-            ys = torch.cat(ys, dim=0)
+            Xs = torch.cat([torch.as_tensor(X) for X in Xs], dim=0)
+            ys = torch.cat([torch.as_tensor(y, device=Xs.device) for y in ys], dim=0)
             sample_domains = torch.cat(
                 [
                     torch.as_tensor(sample_domain, device=Xs.device)
@@ -383,8 +383,8 @@ class DomainAwareDataset:
                     "torch and skorch are required to return data as DeepDADataset. "
                     "Please install them to use this feature."
                 )
-            Xs = torch.cat(Xs, dim=0)
-            ys = torch.cat(ys, dim=0)
+            Xs = torch.cat([torch.as_tensor(X) for X in Xs], dim=0)
+            ys = torch.cat([torch.as_tensor(y, device=Xs.device) for y in ys], dim=0)
             sample_domains = torch.cat(
                 [
                     torch.as_tensor(sample_domain, device=Xs.device)
-- 
2.43.0


From 90075100a4057a5c93097b742a230243677cbcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:21 +0000
Subject: [PATCH 034/103] fix: circular validation swaps the role of source
 domain 0

---
 skada/metrics.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skada/metrics.py b/skada/metrics.py
index 186018a..badaef6 100644
--- a/skada/metrics.py
+++ b/skada/metrics.py
@@ -624,6 +624,10 @@ class CircularValidation(_BaseDomainAwareScorer):
                 y_pred_target = le.transform(y_pred_target)
 
             backward_sample_domain = -sample_domain
+            # -0 would still be a source domain
+            backward_sample_domain[sample_domain == 0] = (
+                -np.max(np.abs(sample_domain)) - 1
+            )
 
             backward_y = np.zeros_like(y)
             backward_y[~source_idx] = y_pred_target
-- 
2.43.0


From 98a126a1a12ffa60b70348a2a69b69212e87b44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:21 +0000
Subject: [PATCH 035/103] fix: deep embedded validation weights each error by
 its own weight

---
 skada/metrics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skada/metrics.py b/skada/metrics.py
index badaef6..415b914 100644
--- a/skada/metrics.py
+++ b/skada/metrics.py
@@ -466,6 +466,7 @@ class DeepEmbeddedValidation(_BaseDomainAwareScorer):
 
         error = self._loss_func(y_val, y_pred)
         assert weights.shape[0] == error.shape[0]
+        error = error.reshape(weights.shape)
 
         weighted_error = weights * error
         weights_m = np.concatenate((weighted_error, weights), axis=1)
-- 
2.43.0


From 83f9520add73faca0189895963cf731ab47d2195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:21 +0000
Subject: [PATCH 036/103] fix: deep embedded validation accepts any class
 labels

---
 skada/metrics.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/skada/metrics.py b/skada/metrics.py
index 415b914..e59006a 100644
--- a/skada/metrics.py
+++ b/skada/metrics.py
@@ -464,6 +464,13 @@ class DeepEmbeddedValidation(_BaseDomainAwareScorer):
             X_val, sample_domain=sample_domain_val, allow_source=True
         )
 
+        classes = np.unique(y[source_idx])
+        if (
+            self._loss_func == self._no_reduc_log_loss
+            and len(classes) == y_pred.shape[1]
+        ):
+            # the default loss needs the column of each label
+            y_val = np.searchsorted(classes, y_val)
         error = self._loss_func(y_val, y_pred)
         assert weights.shape[0] == error.shape[0]
         error = error.reshape(weights.shape)
-- 
2.43.0


From 845d15022f70df9f21936781b56a16b2955cd56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:21 +0000
Subject: [PATCH 037/103] fix: MaNo applies the Taylor softmax to the original
 logits

---
 skada/metrics.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/skada/metrics.py b/skada/metrics.py
index e59006a..200ba2a 100644
--- a/skada/metrics.py
+++ b/skada/metrics.py
@@ -928,8 +928,7 @@ class MaNoScorer(_BaseDomainAwareScorer):
     @staticmethod
     def _stable_softmax(logits):
         """Compute softmax function."""
-        logits -= np.max(logits, axis=1, keepdims=True)
-        exp_logits = np.exp(logits)
+        exp_logits = np.exp(logits - np.max(logits, axis=1, keepdims=True))
         exp_logits /= np.sum(exp_logits, axis=1, keepdims=True)
         return exp_logits
 
-- 
2.43.0


From 8bb907cdc768121e482ed36c90206631d329d653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:21 +0000
Subject: [PATCH 038/103] fix: soft neighborhood density is finite for small
 temperatures

---
 skada/metrics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skada/metrics.py b/skada/metrics.py
index 200ba2a..4ad5495 100644
--- a/skada/metrics.py
+++ b/skada/metrics.py
@@ -11,6 +11,7 @@ from abc import abstractmethod
 from copy import deepcopy
 
 import numpy as np
+from scipy.special import entr
 from sklearn.base import clone
 from sklearn.linear_model import LogisticRegression
 from sklearn.metrics import balanced_accuracy_score, check_scoring
@@ -330,7 +331,7 @@ class SoftNeighborhoodDensity(_BaseDomainAwareScorer):
         np.fill_diagonal(similarity_matrix, -np.diag(similarity_matrix))
         similarity_matrix = softmax(similarity_matrix)
 
-        entropy = np.sum(-similarity_matrix * np.log(similarity_matrix), axis=1)
+        entropy = np.sum(entr(similarity_matrix), axis=1)
         return self._sign * np.mean(entropy)
 
 
-- 
2.43.0


From f44b20ca5266eb7337b46afc639f8c1d54e9dd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:34 +0000
Subject: [PATCH 039/103] fix: DASVM predicts probabilities with the adapted
 classifier

---
 skada/_self_labeling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/_self_labeling.py b/skada/_self_labeling.py
index 99d6acd..6acbd2d 100644
--- a/skada/_self_labeling.py
+++ b/skada/_self_labeling.py
@@ -293,7 +293,7 @@ class DASVMClassifier(DAEstimator):
         `predict_proba` method from the estimator we fitted
         """
         check_is_fitted(self)
-        return self.base_estimator.predict_proba(X, **kwargs)
+        return self.base_estimator_.predict_proba(X, **kwargs)
 
     def decision_function(self, X):
         """Return values of the decision function of the
-- 
2.43.0


From f977e24cc0af96cb9b7bac53b1ae09064b991ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:34 +0000
Subject: [PATCH 040/103] fix: DASVM leaves the base estimator unfitted

---
 skada/_self_labeling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/_self_labeling.py b/skada/_self_labeling.py
index 6acbd2d..6e6cbed 100644
--- a/skada/_self_labeling.py
+++ b/skada/_self_labeling.py
@@ -169,7 +169,7 @@ class DASVMClassifier(DAEstimator):
 
         X_train = Xs
         y_train = ys
-        new_estimator = self.base_estimator
+        new_estimator = clone(self.base_estimator)
         new_estimator.fit(X_train, y_train)
 
         if self.save_estimators:
-- 
2.43.0


From d123410e1636a5caa063f5e99d6830ed64c1c3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:34 +0000
Subject: [PATCH 041/103] fix: DASVM exchanges k points per class at each step

---
 skada/_self_labeling.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skada/_self_labeling.py b/skada/_self_labeling.py
index 6e6cbed..3c8f2d6 100644
--- a/skada/_self_labeling.py
+++ b/skada/_self_labeling.py
@@ -106,6 +106,7 @@ class DASVMClassifier(DAEstimator):
             for ll in idx:
                 # indices_list[l] is False at that point
                 indices_list[ll] = True
+                condition[ll] = False
 
     def _get_X_y(
         self, new_estimator, index_target_added, index_source_deleted, Xs, Xt, ys
-- 
2.43.0


From 0cda1d4181a5ecd2fed53c44c72515307f8ce216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:34 +0000
Subject: [PATCH 042/103] fix: DASVM keeps going when all the target points
 were added

---
 skada/_self_labeling.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/skada/_self_labeling.py b/skada/_self_labeling.py
index 3c8f2d6..0730ac4 100644
--- a/skada/_self_labeling.py
+++ b/skada/_self_labeling.py
@@ -130,10 +130,9 @@ class DASVMClassifier(DAEstimator):
             # `binary` case or the `multiclass` one
             decisions = np.ones(X.shape[0])
             decisions[~indices_list] = df
-            decisions = np.array([-decisions + 1, decisions + 1]).T
         else:
             decisions = np.ones(X.shape[0])
-        return decisions
+        return np.array([-decisions + 1, decisions + 1]).T
 
     def fit(self, X, y=None, sample_domain=None):
         """Fit adaptation parameters.
@@ -236,9 +235,6 @@ class DASVMClassifier(DAEstimator):
 
             decisions_target = self._get_decision(new_estimator, Xt, index_target_added)
 
-            if decisions_target.ndim > 1:
-                decisions_target_ = -np.abs(decisions_target - 1)
-
             self._find_points_next_step(
                 index_source_deleted,
                 decisions_source,
-- 
2.43.0


From 7f345a2e2e052d2df6d1ea4991798fa50fb96438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:38 +0000
Subject: [PATCH 043/103] fix: gradual adaptation leaves the transport method
 unfitted

---
 skada/_gradual_da.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skada/_gradual_da.py b/skada/_gradual_da.py
index 81f19be..5e6f688 100644
--- a/skada/_gradual_da.py
+++ b/skada/_gradual_da.py
@@ -108,8 +108,9 @@ class GradualEstimator(DAEstimator):
         target = sample_domain < 0
 
         # Compute the OT mapping between source and target
-        self.ot_method.fit(Xs=X[source], ys=y[source], Xt=X[target], yt=y[target])
-        gamma = self.ot_method.coupling_
+        self.ot_method_ = deepcopy(self.ot_method)
+        self.ot_method_.fit(Xs=X[source], ys=y[source], Xt=X[target], yt=y[target])
+        gamma = self.ot_method_.coupling_
         if self.advanced_ot_plan_sampling:
             mask_gamma = self._advanced_cut_off_gamma(gamma)
         else:
-- 
2.43.0


From 4e1777f67fdcb89a3e1709c25342e49c57ac9dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:38 +0000
Subject: [PATCH 044/103] fix: gradual adaptation trains a clone of the base
 estimator

---
 skada/_gradual_da.py | 55 +++++++++++++++++---------------------------
 1 file changed, 21 insertions(+), 34 deletions(-)

diff --git a/skada/_gradual_da.py b/skada/_gradual_da.py
index 5e6f688..da4b0c5 100644
--- a/skada/_gradual_da.py
+++ b/skada/_gradual_da.py
@@ -7,6 +7,7 @@ from copy import deepcopy
 
 import numpy as np
 from ot import da
+from sklearn.base import clone
 from sklearn.neural_network import MLPClassifier
 from sklearn.utils.validation import check_is_fitted
 
@@ -116,7 +117,7 @@ class GradualEstimator(DAEstimator):
         else:
             mask_gamma = self._cut_off_gamma(gamma)
         source = sample_domain >= 0
-        if not self.base_estimator:
+        if self.base_estimator is None:
             default_params = {
                 "hidden_layer_sizes": (100,),
                 "activation": "relu",
@@ -126,20 +127,22 @@ class GradualEstimator(DAEstimator):
                 "learning_rate_init": 0.001,
                 "max_iter": 100,
             }
-            self.base_estimator = MLPClassifier(**default_params)
-        self.base_estimator.fit(X[source], y[source])
+            self.base_estimator_ = MLPClassifier(**default_params)
+        else:
+            self.base_estimator_ = clone(self.base_estimator)
+        self.base_estimator_.fit(X[source], y[source])
         if self.save_estimators:
-            self.estimators_.append(deepcopy(self.base_estimator))
+            self.estimators_.append(deepcopy(self.base_estimator_))
         if self.save_intermediate_data:
             self.intermediate_data_ = []
         for step in range(1, self.n_steps + 1):
             X_step, y_step = self.generate_data_at_step(
                 X, sample_domain, mask_gamma, step
             )
-            self.base_estimator.max_iter += 100
-            self.base_estimator.fit(X_step, y_step)
+            self.base_estimator_.max_iter += 100
+            self.base_estimator_.fit(X_step, y_step)
             if self.save_estimators:
-                self.estimators_.append(deepcopy(self.base_estimator))
+                self.estimators_.append(deepcopy(self.base_estimator_))
             if self.save_intermediate_data:
                 self.intermediate_data_.append((X_step, y_step))
         return self
@@ -199,7 +202,7 @@ class GradualEstimator(DAEstimator):
                 i
             ] / self.n_steps + step * X_target[j] / self.n_steps
 
-        y_step = self.base_estimator.predict(
+        y_step = self.base_estimator_.predict(
             X_step
         )  # Use the classifier to predict labels
         return X_step, y_step
@@ -227,14 +230,10 @@ class GradualEstimator(DAEstimator):
         y_pred : array-like, shape (n_samples,)
             The predicted labels.
         """
-        if self.base_estimator is None:
-            raise ValueError("The model has not been fitted yet.")
-
-        else:
-            check_is_fitted(self.base_estimator)
+        check_is_fitted(self)
 
         # Use the last classifier to predict
-        return self.base_estimator.predict(X, **kwargs)
+        return self.base_estimator_.predict(X, **kwargs)
 
     def predict_proba(self, X, **kwargs):
         """Predict class probabilities for the input data.
@@ -249,16 +248,12 @@ class GradualEstimator(DAEstimator):
         y_proba : array-like, shape (n_samples, n_classes)
             The predicted class probabilities.
         """
-        if self.base_estimator is None:
-            raise ValueError("The model has not been fitted yet.")
-
-        else:
-            check_is_fitted(self.base_estimator)
+        check_is_fitted(self)
 
-        if not hasattr(self.base_estimator, "predict_proba"):
+        if not hasattr(self.base_estimator_, "predict_proba"):
             raise ValueError("The underlying estimator does not support predict_proba.")
 
-        return self.base_estimator.predict_proba(X, **kwargs)
+        return self.base_estimator_.predict_proba(X, **kwargs)
 
     def predict_log_proba(self, X, **kwargs):
         """Predict class log-probabilities for the input data.
@@ -273,18 +268,14 @@ class GradualEstimator(DAEstimator):
         y_log_proba : array-like, shape (n_samples, n_classes)
             The predicted class log-probabilities.
         """
-        if self.base_estimator is None:
-            raise ValueError("The model has not been fitted yet.")
-
-        else:
-            check_is_fitted(self.base_estimator)
+        check_is_fitted(self)
 
-        if not hasattr(self.base_estimator, "predict_log_proba"):
+        if not hasattr(self.base_estimator_, "predict_log_proba"):
             raise ValueError(
                 "The underlying estimator does not support predict_log_proba."
             )
 
-        return self.base_estimator.predict_log_proba(X, **kwargs)
+        return self.base_estimator_.predict_log_proba(X, **kwargs)
 
     def score(self, X, y):
         """Compute the accuracy of the model on the given data.
@@ -301,10 +292,6 @@ class GradualEstimator(DAEstimator):
         score : float
             The accuracy of the model.
         """
-        if self.base_estimator is None:
-            raise ValueError("The model has not been fitted yet.")
-
-        else:
-            check_is_fitted(self.base_estimator)
+        check_is_fitted(self)
 
-        return (self.base_estimator.predict(X) == y).sum() / len(y)
+        return (self.base_estimator_.predict(X) == y).sum() / len(y)
-- 
2.43.0


From 7867f52f9af74ee4cc0ee1e88d17763b684346b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:38 +0000
Subject: [PATCH 045/103] fix: gradual adaptation accepts classifiers without
 max_iter

---
 skada/_gradual_da.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skada/_gradual_da.py b/skada/_gradual_da.py
index da4b0c5..da55748 100644
--- a/skada/_gradual_da.py
+++ b/skada/_gradual_da.py
@@ -139,7 +139,9 @@ class GradualEstimator(DAEstimator):
             X_step, y_step = self.generate_data_at_step(
                 X, sample_domain, mask_gamma, step
             )
-            self.base_estimator_.max_iter += 100
+            # some classifiers have no (or no finite) number of iterations
+            if (getattr(self.base_estimator_, "max_iter", None) or 0) > 0:
+                self.base_estimator_.max_iter += 100
             self.base_estimator_.fit(X_step, y_step)
             if self.save_estimators:
                 self.estimators_.append(deepcopy(self.base_estimator_))
-- 
2.43.0


From ed0dec9ffa75e09cabb97c851d3a4d90e6267b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:38 +0000
Subject: [PATCH 046/103] fix: gradual adaptation keeps exactly alpha * (n + m)
 pairs

---
 skada/_gradual_da.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/skada/_gradual_da.py b/skada/_gradual_da.py
index da55748..a9b1ce5 100644
--- a/skada/_gradual_da.py
+++ b/skada/_gradual_da.py
@@ -153,10 +153,10 @@ class GradualEstimator(DAEstimator):
         """Cut off the OT mapping to keep only the largest values."""
         n, m = gamma.shape
         # Get the self.alpha * (n + m) largest coefficients of gamma
-        self.max_index = int(min(self.alpha * (n + m), gamma.size - 1))
-
-        threshold = np.sort(gamma.flatten())[-self.max_index - 1]
-        return gamma >= threshold
+        n_pairs = min(max(int(self.alpha * (n + m)), 1), gamma.size)
+        mask = np.zeros(gamma.size, dtype=bool)
+        mask[np.argsort(-gamma.flatten(), kind="stable")[:n_pairs]] = True
+        return mask.reshape(n, m)
 
     def _advanced_cut_off_gamma(self, gamma):
         """Cut off the OT mapping to keep at least one value per row and column."""
@@ -168,9 +168,7 @@ class GradualEstimator(DAEstimator):
             row_max[i, np.argmax(gamma[i])] = True
         for j in range(m):
             col_max[np.argmax(gamma[:, j]), j] = True
-        combined_mask = row_max | col_max
-        self.max_index = int(combined_mask.sum()) - 1
-        return combined_mask
+        return row_max | col_max
 
     def generate_data_at_step(self, X, sample_domain, mask_gamma, step):
         """Generate data at a given time step.
@@ -198,7 +196,7 @@ class GradualEstimator(DAEstimator):
         target = sample_domain < 0
         X_source = X[source]
         X_target = X[target]
-        X_step = np.zeros((self.max_index + 1, X.shape[1]))
+        X_step = np.zeros((int(mask_gamma.sum()), X.shape[1]))
         for idx, (i, j) in enumerate(np.argwhere(mask_gamma)):
             X_step[idx] = (self.n_steps - step) * X_source[
                 i
-- 
2.43.0


From 02e4da4fac3f08ae08a6c1435b55e6cd4a7631d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:38 +0000
Subject: [PATCH 047/103] fix: gradual adaptation derives missing domain labels

---
 skada/_gradual_da.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skada/_gradual_da.py b/skada/_gradual_da.py
index a9b1ce5..a5e1fd9 100644
--- a/skada/_gradual_da.py
+++ b/skada/_gradual_da.py
@@ -12,6 +12,7 @@ from sklearn.neural_network import MLPClassifier
 from sklearn.utils.validation import check_is_fitted
 
 from skada.base import DAEstimator
+from skada.utils import check_X_y_domain
 
 
 class GradualEstimator(DAEstimator):
@@ -104,6 +105,7 @@ class GradualEstimator(DAEstimator):
         self : object
             Returns self.
         """
+        X, y, sample_domain = check_X_y_domain(X, y, sample_domain)
         self.estimators_ = []
         source = sample_domain >= 0
         target = sample_domain < 0
-- 
2.43.0


From 3ebe930008ba01e537fb8b868d920696e4ec5590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:09 +0000
Subject: [PATCH 048/103] fix: JDOT estimators return themselves from fit

---
 skada/_ot.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skada/_ot.py b/skada/_ot.py
index f151f03..57e3189 100644
--- a/skada/_ot.py
+++ b/skada/_ot.py
@@ -591,6 +591,7 @@ class JDOTRegressor(DAEstimator):
         )
 
         self.estimator_, self.lst_loss_ot_, self.lst_loss_tgt_labels_, self.sol_ = res
+        return self
 
     def predict(self, X, sample_domain=None, *, sample_weight=None):
         """Predict using the model"""
@@ -721,6 +722,7 @@ class JDOTClassifier(DAEstimator):
         )
 
         self.estimator_, self.lst_loss_ot_, self.lst_loss_tgt_labels_, self.sol_ = res
+        return self
 
     def predict(self, X, sample_domain=None, *, sample_weight=None, allow_source=False):
         """Predict using the model"""
-- 
2.43.0


From 8dc9ae737886d34839cb80f50418aeb17041cd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:09 +0000
Subject: [PATCH 049/103] fix: JDOT estimators derive missing domain labels

---
 skada/_ot.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skada/_ot.py b/skada/_ot.py
index 57e3189..9703f4e 100644
--- a/skada/_ot.py
+++ b/skada/_ot.py
@@ -572,6 +572,8 @@ class JDOTRegressor(DAEstimator):
 
     def fit(self, X, y=None, sample_domain=None, *, sample_weight=None):
         """Fit adaptation parameters"""
+        if sample_domain is None:
+            X, y, sample_domain = check_X_y_domain(X, y)
         Xs, Xt, ys, yt, ws, wt = source_target_split(
             X, y, sample_weight, sample_domain=sample_domain
         )
@@ -701,6 +703,8 @@ class JDOTClassifier(DAEstimator):
 
     def fit(self, X, y=None, sample_domain=None, *, sample_weight=None):
         """Fit adaptation parameters"""
+        if sample_domain is None:
+            X, y, sample_domain = check_X_y_domain(X, y)
         Xs, Xt, ys, yt, ws, wt = source_target_split(
             X, y, sample_weight, sample_domain=sample_domain
         )
-- 
2.43.0


From 7e7bd6df06f731ddf8246dc5f0a8f5832d7cc84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:09 +0000
Subject: [PATCH 050/103] fix: JDOT regressor predicts with allow_source

---
 skada/_ot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/_ot.py b/skada/_ot.py
index 9703f4e..33dd7a8 100644
--- a/skada/_ot.py
+++ b/skada/_ot.py
@@ -595,7 +595,7 @@ class JDOTRegressor(DAEstimator):
         self.estimator_, self.lst_loss_ot_, self.lst_loss_tgt_labels_, self.sol_ = res
         return self
 
-    def predict(self, X, sample_domain=None, *, sample_weight=None):
+    def predict(self, X, sample_domain=None, *, sample_weight=None, allow_source=False):
         """Predict using the model"""
         check_is_fitted(self)
         if sample_domain is not None and np.any(sample_domain >= 0):
-- 
2.43.0


From 776931dd2e809c08cb4d7e8fba19fac2ada2340b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:09 +0000
Subject: [PATCH 051/103] fix: binary hinge cost of JDOT depends on the label

---
 skada/_ot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skada/_ot.py b/skada/_ot.py
index 33dd7a8..c19a8bb 100644
--- a/skada/_ot.py
+++ b/skada/_ot.py
@@ -73,7 +73,7 @@ def get_jdot_class_cost_matrix(Ys, Xt, estimator=None, metric="multinomial"):
         if hasattr(estimator, "decision_function"):
             Yt_pred = estimator.decision_function(Xt)
             if len(Yt_pred.shape) == 1:
-                Yt_pred = np.repeat(Yt_pred.reshape(-1, 1), 2, axis=1)
+                Yt_pred = np.stack([-Yt_pred, Yt_pred], axis=1)
             M = np.maximum(0, 1 - Ys[:, None, :] * Yt_pred[None, :, :]).sum(2)
         else:
             raise ValueError(
@@ -184,7 +184,7 @@ def get_tgt_loss_jdot_class(Xh, yh, wh, estimator, metric="multinomial"):
         if hasattr(estimator, "decision_function"):
             Yh_pred = estimator.decision_function(Xh)
             if len(Yh_pred.shape) == 1:  # handle binary classification
-                Yh_pred = np.repeat(Yh_pred.reshape(-1, 1), 2, axis=1)
+                Yh_pred = np.stack([-Yh_pred, Yh_pred], axis=1)
             loss = np.sum(np.maximum(0, 1 - yh * Yh_pred), 1).dot(wh)
         else:
             raise ValueError(
-- 
2.43.0


From a8fd8c17a5e94111971d841e841cafbab81e68cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:28 +0000
Subject: [PATCH 052/103] fix: subsamplers cut list-valued weights

---
 skada/transformers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/skada/transformers.py b/skada/transformers.py
index f7be92f..59806f5 100644
--- a/skada/transformers.py
+++ b/skada/transformers.py
@@ -3,7 +3,7 @@
 # License: BSD 3-Clause
 
 from sklearn.model_selection import ShuffleSplit, StratifiedShuffleSplit
-from sklearn.utils import check_random_state
+from sklearn.utils import _safe_indexing, check_random_state
 
 from .base import BaseAdapter
 from .model_selection import StratifiedDomainShuffleSplit
@@ -36,7 +36,7 @@ class Subsampler(BaseAdapter):
 
     def _pack_params(self, idx, **params):
         return {
-            k: (v[idx] if idx is not None else v)
+            k: (_safe_indexing(v, idx) if idx is not None else v)
             for k, v in params.items()
             if v is not None
         }
@@ -101,7 +101,7 @@ class DomainSubsampler(BaseAdapter):
 
     def _pack_params(self, idx, **params):
         return {
-            k: (v[idx] if idx is not None else v)
+            k: (_safe_indexing(v, idx) if idx is not None else v)
             for k, v in params.items()
             if v is not None
         }
@@ -164,7 +164,7 @@ class StratifiedDomainSubsampler(BaseAdapter):
 
     def _pack_params(self, idx, **params):
         return {
-            k: (v[idx] if idx is not None else v)
+            k: (_safe_indexing(v, idx) if idx is not None else v)
             for k, v in params.items()
             if v is not None
         }
-- 
2.43.0


From b7e4c87a2f3f9003fc7311491f3558f9e4a4654e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:28 +0000
Subject: [PATCH 053/103] fix: subsamplers receive sample weights in pipelines

---
 skada/transformers.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/skada/transformers.py b/skada/transformers.py
index 59806f5..c388f1e 100644
--- a/skada/transformers.py
+++ b/skada/transformers.py
@@ -30,6 +30,13 @@ class Subsampler(BaseAdapter):
         Controls the random resampling of the data.
     """
 
+    __metadata_request__fit = {"sample_domain": True, "sample_weight": True}
+    __metadata_request__transform = {
+        "sample_domain": True,
+        "sample_weight": True,
+        "allow_source": True,
+    }
+
     def __init__(self, train_size, random_state=None):
         self.train_size = train_size
         self.random_state = random_state
@@ -95,6 +102,13 @@ class DomainSubsampler(BaseAdapter):
         Controls the random resampling of the data.
     """
 
+    __metadata_request__fit = {"sample_domain": True, "sample_weight": True}
+    __metadata_request__transform = {
+        "sample_domain": True,
+        "sample_weight": True,
+        "allow_source": True,
+    }
+
     def __init__(self, train_size, random_state=None):
         self.train_size = train_size
         self.random_state = random_state
@@ -158,6 +172,13 @@ class StratifiedDomainSubsampler(BaseAdapter):
         Controls the random resampling of the data.
     """
 
+    __metadata_request__fit = {"sample_domain": True, "sample_weight": True}
+    __metadata_request__transform = {
+        "sample_domain": True,
+        "sample_weight": True,
+        "allow_source": True,
+    }
+
     def __init__(self, train_size, random_state=None):
         self.train_size = train_size
         self.random_state = random_state
-- 
2.43.0


From 25578ea1eab7bda1b56aa4686a0c868f181fb001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:28 +0000
Subject: [PATCH 054/103] fix: subsamplers return derived domain labels with
 all the rows too

---
 skada/transformers.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/skada/transformers.py b/skada/transformers.py
index c388f1e..50a0805 100644
--- a/skada/transformers.py
+++ b/skada/transformers.py
@@ -59,7 +59,7 @@ class Subsampler(BaseAdapter):
                 X,
                 y,
                 self._pack_params(
-                    None, sample_domain=sample_domain, sample_weight=sample_weight
+                    None, sample_domain=sample_domain2, sample_weight=sample_weight
                 ),
             )
 
@@ -131,7 +131,7 @@ class DomainSubsampler(BaseAdapter):
                 X,
                 y,
                 self._pack_params(
-                    None, sample_domain=sample_domain, sample_weight=sample_weight
+                    None, sample_domain=sample_domain2, sample_weight=sample_weight
                 ),
             )
 
@@ -192,7 +192,7 @@ class StratifiedDomainSubsampler(BaseAdapter):
 
     def fit_transform(self, X, y=None, *, sample_domain=None, sample_weight=None):
         """Fit and transform the data."""
-        X, y, sample_domain = check_X_y_domain(X, y, sample_domain)
+        X, y, sample_domain2 = check_X_y_domain(X, y, sample_domain)
 
         self.rng_ = check_random_state(self.random_state)
 
@@ -201,7 +201,7 @@ class StratifiedDomainSubsampler(BaseAdapter):
                 X,
                 y,
                 self._pack_params(
-                    None, sample_domain=sample_domain, sample_weight=sample_weight
+                    None, sample_domain=sample_domain2, sample_weight=sample_weight
                 ),
             )
 
@@ -209,11 +209,11 @@ class StratifiedDomainSubsampler(BaseAdapter):
             n_splits=1, train_size=self.train_size, random_state=self.rng_
         )
 
-        train_idx, _ = next(splitter.split(X, y, sample_domain))
+        train_idx, _ = next(splitter.split(X, y, sample_domain2))
         X_subsampled = X[train_idx]
         y_subsampled = y[train_idx] if y is not None else None
         params = self._pack_params(
-            train_idx, sample_domain=sample_domain, sample_weight=sample_weight
+            train_idx, sample_domain=sample_domain2, sample_weight=sample_weight
         )
         return X_subsampled, y_subsampled, params
 
-- 
2.43.0


From d0bea3a5ef4287fb49af77afdd2be02d0aa9fc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:54 +0000
Subject: [PATCH 055/103] fix: stratified subsamplers keep any number of rows

---
 skada/transformers.py | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/skada/transformers.py b/skada/transformers.py
index 50a0805..49a4edc 100644
--- a/skada/transformers.py
+++ b/skada/transformers.py
@@ -2,14 +2,30 @@
 #
 # License: BSD 3-Clause
 
-from sklearn.model_selection import ShuffleSplit, StratifiedShuffleSplit
-from sklearn.utils import _safe_indexing, check_random_state
+import numpy as np
+from sklearn.model_selection import ShuffleSplit
+from sklearn.model_selection._split import _validate_shuffle_split
+from sklearn.utils import _safe_indexing, check_random_state, resample
 
 from .base import BaseAdapter
-from .model_selection import StratifiedDomainShuffleSplit
 from .utils import check_X_y_domain
 
 
+def _stratified_indices(X, train_size, groups, rng):
+    """Random rows, each of the groups keeping its share."""
+    # unlike a stratified split, works with small groups and small remainders
+    n_train, _ = _validate_shuffle_split(
+        X.shape[0], None, train_size, default_test_size=0.1
+    )
+    return resample(
+        np.arange(X.shape[0]),
+        replace=False,
+        n_samples=n_train,
+        random_state=rng,
+        stratify=groups,
+    )
+
+
 class Subsampler(BaseAdapter):
     """Transformer that subsamples the data.
 
@@ -135,10 +151,7 @@ class DomainSubsampler(BaseAdapter):
                 ),
             )
 
-        splitter = StratifiedShuffleSplit(
-            n_splits=1, train_size=self.train_size, random_state=self.rng_
-        )
-        idx = next(splitter.split(X, sample_domain2))[0]
+        idx = _stratified_indices(X, self.train_size, sample_domain2, self.rng_)
         X_subsampled = X[idx]
         y_subsampled = y[idx] if y is not None else None
         params = self._pack_params(
@@ -205,11 +218,12 @@ class StratifiedDomainSubsampler(BaseAdapter):
                 ),
             )
 
-        splitter = StratifiedDomainShuffleSplit(
-            n_splits=1, train_size=self.train_size, random_state=self.rng_
+        _, groups = np.unique(
+            np.column_stack([y, sample_domain2]), axis=0, return_inverse=True
+        )
+        train_idx = _stratified_indices(
+            X, self.train_size, np.ravel(groups), self.rng_
         )
-
-        train_idx, _ = next(splitter.split(X, y, sample_domain2))
         X_subsampled = X[train_idx]
         y_subsampled = y[train_idx] if y is not None else None
         params = self._pack_params(
-- 
2.43.0


From dcced5ea7c10a247e32804bb190adbc37d4ee12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:54 +0000
Subject: [PATCH 056/103] fix: subsamplers keep all the rows for a proportion
 of one

---
 skada/transformers.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/skada/transformers.py b/skada/transformers.py
index 49a4edc..aa3750b 100644
--- a/skada/transformers.py
+++ b/skada/transformers.py
@@ -11,6 +11,13 @@ from .base import BaseAdapter
 from .utils import check_X_y_domain
 
 
+def _keeps_all(train_size, n_samples):
+    """Whether this size (or proportion) means all the rows."""
+    if isinstance(train_size, float) and train_size == 1.0:
+        return True
+    return train_size >= n_samples
+
+
 def _stratified_indices(X, train_size, groups, rng):
     """Random rows, each of the groups keeping its share."""
     # unlike a stratified split, works with small groups and small remainders
@@ -70,7 +77,7 @@ class Subsampler(BaseAdapter):
 
         self.rng_ = check_random_state(self.random_state)
 
-        if self.train_size >= X.shape[0]:
+        if _keeps_all(self.train_size, X.shape[0]):
             return (
                 X,
                 y,
@@ -142,7 +149,7 @@ class DomainSubsampler(BaseAdapter):
 
         self.rng_ = check_random_state(self.random_state)
 
-        if self.train_size >= X.shape[0]:
+        if _keeps_all(self.train_size, X.shape[0]):
             return (
                 X,
                 y,
@@ -209,7 +216,7 @@ class StratifiedDomainSubsampler(BaseAdapter):
 
         self.rng_ = check_random_state(self.random_state)
 
-        if self.train_size >= X.shape[0]:
+        if _keeps_all(self.train_size, X.shape[0]):
             return (
                 X,
                 y,
-- 
2.43.0


From b7d3d801c99bb33aaa15cebedba3dd8d45f2dbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:49 +0000
Subject: [PATCH 057/103] fix: JDOT estimators keep the options of the base
 estimator's fit when cloned

---
 skada/_ot.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/skada/_ot.py b/skada/_ot.py
index c19a8bb..b1a8470 100644
--- a/skada/_ot.py
+++ b/skada/_ot.py
@@ -497,7 +497,24 @@ def solve_jdot_classification(
     return estimator, lst_loss_ot, lst_loss_tgt_labels, sol
 
 
-class JDOTRegressor(DAEstimator):
+class _FitOptionsMixin:
+    """Parameter access for estimators taking fit options as keyword arguments."""
+
+    def get_params(self, deep=True):
+        """Get parameters, including the options of the base estimator's fit"""
+        params = super().get_params(deep=deep)
+        params.update(self.kwargs)
+        return params
+
+    def set_params(self, **params):
+        """Set parameters, including the options of the base estimator's fit"""
+        options = {k: params.pop(k) for k in list(params) if k in self.kwargs}
+        super().set_params(**params)
+        self.kwargs = {**self.kwargs, **options}
+        return self
+
+
+class JDOTRegressor(_FitOptionsMixin, DAEstimator):
     """Joint Distribution Optimal Transport Regressor proposed in [10]
 
     .. warning::
@@ -616,7 +633,7 @@ class JDOTRegressor(DAEstimator):
         return self.estimator_.score(X, y, sample_weight=sample_weight)
 
 
-class JDOTClassifier(DAEstimator):
+class JDOTClassifier(_FitOptionsMixin, DAEstimator):
     """Joint Distribution Optimal Transport Classifier proposed in [10]
 
     .. warning::
-- 
2.43.0


From 4167a3fa14e0ae40c9c9052f9a35dbf452d5e30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:49 +0000
Subject: [PATCH 058/103] fix: JDOT base estimator can be reset to its default

---
 skada/_ot.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skada/_ot.py b/skada/_ot.py
index b1a8470..f077e92 100644
--- a/skada/_ot.py
+++ b/skada/_ot.py
@@ -510,6 +510,8 @@ class _FitOptionsMixin:
         """Set parameters, including the options of the base estimator's fit"""
         options = {k: params.pop(k) for k in list(params) if k in self.kwargs}
         super().set_params(**params)
+        if self.base_estimator is None:
+            self.base_estimator = type(self)().base_estimator
         self.kwargs = {**self.kwargs, **options}
         return self
 
-- 
2.43.0


From 3b86362348ba3ced9f9b6860f910fbf61ec8b504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:49 +0000
Subject: [PATCH 059/103] fix: DASVMClassifier base estimator can be reset to
 its default

---
 skada/_self_labeling.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/skada/_self_labeling.py b/skada/_self_labeling.py
index 0730ac4..ee35f31 100644
--- a/skada/_self_labeling.py
+++ b/skada/_self_labeling.py
@@ -86,6 +86,13 @@ class DASVMClassifier(DAEstimator):
         self.save_indices = save_indices
         self.k = k
 
+    def set_params(self, **params):
+        """Set parameters, `base_estimator=None` being the default estimator"""
+        super().set_params(**params)
+        if self.base_estimator is None:
+            self.base_estimator = type(self)().base_estimator
+        return self
+
     def _find_points_next_step(self, indices_list, d, cond_array):
         """This function allow us to find the next points to add/discard.
 
-- 
2.43.0


From 42a93736cc8ff9bc8b5b6c40d9a58b47816b1835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:49 +0000
Subject: [PATCH 060/103] fix: estimators of reweighting adapters can be reset
 to their defaults

---
 skada/_reweight.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/skada/_reweight.py b/skada/_reweight.py
index ddfcaae..f992c7f 100644
--- a/skada/_reweight.py
+++ b/skada/_reweight.py
@@ -99,6 +99,13 @@ class DensityReweightAdapter(BaseReweightAdapter):
             weight_estimator if weight_estimator is not None else KernelDensity()
         )
 
+    def set_params(self, **params):
+        """Set parameters, `weight_estimator=None` being the default estimator"""
+        super().set_params(**params)
+        if self.weight_estimator is None:
+            self.weight_estimator = type(self)().weight_estimator
+        return self
+
     def fit(self, X, y=None, *, sample_domain=None):
         """Fit adaptation parameters.
 
@@ -325,6 +332,13 @@ class DiscriminatorReweightAdapter(BaseReweightAdapter):
             domain_classifier if domain_classifier is not None else LogisticRegression()
         )
 
+    def set_params(self, **params):
+        """Set parameters, `domain_classifier=None` being the default estimator"""
+        super().set_params(**params)
+        if self.domain_classifier is None:
+            self.domain_classifier = type(self)().domain_classifier
+        return self
+
     def fit(self, X, y=None, sample_domain=None):
         """Fit adaptation parameters.
 
-- 
2.43.0


From 12c4ccfe93a01e15117387fffbf4dd8bd828214d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:49 +0000
Subject: [PATCH 061/103] fix: ClassRegularizerOTMapping pipelines do not share
 one default SVC

---
 skada/_mapping.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skada/_mapping.py b/skada/_mapping.py
index abb16ea..b1ec53c 100644
--- a/skada/_mapping.py
+++ b/skada/_mapping.py
@@ -380,7 +380,7 @@ class ClassRegularizerOTMappingAdapter(BaseOTMappingAdapter):
 
 
 def ClassRegularizerOTMapping(
-    base_estimator=SVC(kernel="rbf"),
+    base_estimator=None,
     metric="sqeuclidean",
     norm="lpl1",
     max_iter=10,
@@ -426,6 +426,9 @@ def ClassRegularizerOTMapping(
            Optimal Transport for Domain Adaptation, in IEEE
            Transactions on Pattern Analysis and Machine Intelligence
     """
+    if base_estimator is None:
+        base_estimator = SVC(kernel="rbf")
+
     ot_mapping = make_da_pipeline(
         ClassRegularizerOTMappingAdapter(
             metric=metric,
-- 
2.43.0


From 0f29185dec8a80e7e3efd42270be339529457cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:49 +0000
Subject: [PATCH 062/103] fix: MMDLSConSMappingAdapter does not look fitted
 before it is

---
 skada/_mapping.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/skada/_mapping.py b/skada/_mapping.py
index b1ec53c..e433806 100644
--- a/skada/_mapping.py
+++ b/skada/_mapping.py
@@ -1031,8 +1031,6 @@ class MMDLSConSMappingAdapter(BaseAdapter):
         self.reg_m = reg_m
         self.tol = tol
         self.max_iter = max_iter
-        self.W_ = None
-        self.B_ = None
 
     def _mapping_optimization(self, X_source, X_target, y_source):
         """Mapping optimization"""
-- 
2.43.0


From 35d06b42f9cc89bc3a1417f1fbc40b3e053946d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:49 +0000
Subject: [PATCH 063/103] fix: TransferSubspaceLearningAdapter keeps reg=None
 as configured

---
 skada/_subspace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skada/_subspace.py b/skada/_subspace.py
index 3a75969..4dd6ff0 100644
--- a/skada/_subspace.py
+++ b/skada/_subspace.py
@@ -774,7 +774,7 @@ class TransferSubspaceLearningAdapter(BaseAdapter):
         self.mu = mu
         if reg is not None and (reg < 0 or reg > 1):
             raise ValueError("reg should be None or between 0 and 1.")
-        self.reg = 0 if reg is None else reg
+        self.reg = reg
         self.max_iter = max_iter
         self.tol = tol
         self.verbose = verbose
@@ -783,7 +783,7 @@ class TransferSubspaceLearningAdapter(BaseAdapter):
         """Compute the covariance matrix of X using torch."""
         if self.torch:
             import torch
-        reg = self.reg
+        reg = 0 if self.reg is None else self.reg
 
         n_samples, d = X.shape
         X = X - torch.mean(X, dim=0)
-- 
2.43.0


From 61d9ea3a1a357257e1f85eb066a41cb30e2419f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:49 +0000
Subject: [PATCH 064/103] fix: GradualEstimator objects do not share one
 default transport

---
 skada/_gradual_da.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/skada/_gradual_da.py b/skada/_gradual_da.py
index a5e1fd9..f530ffc 100644
--- a/skada/_gradual_da.py
+++ b/skada/_gradual_da.py
@@ -68,13 +68,7 @@ class GradualEstimator(DAEstimator):
         self,
         alpha=1,
         n_steps=10,
-        ot_method=da.SinkhornTransport(
-            reg_e=1.0,
-            metric="sqeuclidean",
-            norm=None,
-            max_iter=1000,
-            tol=1e-8,
-        ),
+        ot_method=None,
         base_estimator=None,
         advanced_ot_plan_sampling=False,
         save_estimators=False,
@@ -82,12 +76,27 @@ class GradualEstimator(DAEstimator):
     ):
         self.alpha = alpha
         self.n_steps = n_steps
+        if ot_method is None:
+            ot_method = da.SinkhornTransport(
+                reg_e=1.0,
+                metric="sqeuclidean",
+                norm=None,
+                max_iter=1000,
+                tol=1e-8,
+            )
         self.ot_method = ot_method
         self.base_estimator = base_estimator
         self.advanced_ot_plan_sampling = advanced_ot_plan_sampling
         self.save_estimators = save_estimators
         self.save_intermediate_data = save_intermediate_data
 
+    def set_params(self, **params):
+        """Set parameters, `ot_method=None` being the default transport"""
+        super().set_params(**params)
+        if self.ot_method is None:
+            self.ot_method = type(self)().ot_method
+        return self
+
     def fit(self, X, y=None, *, sample_domain=None):
         """Fit gradual adaptation parameters.
 
-- 
2.43.0


From 8b7cf2bf8e9fbbd05c838d2bd09755cb307d40bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:49 +0000
Subject: [PATCH 065/103] fix: pipelines ending in GradualEstimator can be
 scored

---
 skada/_gradual_da.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/skada/_gradual_da.py b/skada/_gradual_da.py
index f530ffc..b065caa 100644
--- a/skada/_gradual_da.py
+++ b/skada/_gradual_da.py
@@ -8,6 +8,7 @@ from copy import deepcopy
 import numpy as np
 from ot import da
 from sklearn.base import clone
+from sklearn.metrics import accuracy_score
 from sklearn.neural_network import MLPClassifier
 from sklearn.utils.validation import check_is_fitted
 
@@ -288,7 +289,7 @@ class GradualEstimator(DAEstimator):
 
         return self.base_estimator_.predict_log_proba(X, **kwargs)
 
-    def score(self, X, y):
+    def score(self, X, y, sample_weight=None):
         """Compute the accuracy of the model on the given data.
 
         Parameters
@@ -297,6 +298,8 @@ class GradualEstimator(DAEstimator):
             The input data.
         y : array-like, shape (n_samples,)
             The true labels.
+        sample_weight : array-like, shape (n_samples,), default=None
+            The sample weights.
 
         Returns
         -------
@@ -305,4 +308,6 @@ class GradualEstimator(DAEstimator):
         """
         check_is_fitted(self)
 
-        return (self.base_estimator_.predict(X) == y).sum() / len(y)
+        return accuracy_score(
+            y, self.base_estimator_.predict(X), sample_weight=sample_weight
+        )
-- 
2.43.0


From c23d90083b2111751f89fb0c4dc47c23dee78df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:22 +0000
Subject: [PATCH 066/103] fix: DomainAwareNet.score compares predictions with
 the labels and weights of the predicted rows

---
 skada/deep/base.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/skada/deep/base.py b/skada/deep/base.py
index 2162556..1ea7255 100644
--- a/skada/deep/base.py
+++ b/skada/deep/base.py
@@ -698,12 +698,20 @@ class DomainAwareNet(NeuralNetClassifier, _DAMetadataRequesterMixin):
             The mean accuracy score.
         """
         X = self._prepare_input(X, y, sample_domain, sample_weight)
+        y = to_numpy(X.y if y is None else torch.as_tensor(y))
+        if sample_weight is not None:
+            sample_weight = to_numpy(torch.as_tensor(sample_weight))
         if not allow_source:
+            # labels and weights have to follow the rows that are predicted
+            target = to_numpy(X.sample_domain < 0)
+            y = y[target]
+            if sample_weight is not None:
+                sample_weight = sample_weight[target]
             X = X.select_target()
 
         return accuracy_score(
             y,
-            self.predict(X, sample_domain, allow_source=allow_source),
+            self.predict(X, allow_source=allow_source),
             sample_weight=sample_weight,
         )
 
-- 
2.43.0


From 9ceea25d5dcd9cd3b9088a2d5e3dfc71c9143599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:22 +0000
Subject: [PATCH 067/103] fix: DeepDADataset accepts a single domain for all
 samples, as documented

---
 skada/deep/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skada/deep/base.py b/skada/deep/base.py
index 1ea7255..d44ca9e 100644
--- a/skada/deep/base.py
+++ b/skada/deep/base.py
@@ -1049,7 +1049,9 @@ class DeepDADataset(Dataset):
         self._initialize(X, y, sample_domain, sample_weight)
 
     def _initialize(self, X: torch.Tensor, y, sample_domain, sample_weight):
-        if sample_domain is None or len(sample_domain) == 0:
+        if sample_domain is None or (
+            not isinstance(sample_domain, int) and len(sample_domain) == 0
+        ):
             sample_domain = _DEFAULT_SAMPLE_DOMAIN_
         if isinstance(sample_domain, int):
             sample_domain = torch.full((X.shape[0],), sample_domain)
-- 
2.43.0


From 7f11f59227a0b85e5d98b2b94fb573e4ae4425f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:22 +0000
Subject: [PATCH 068/103] fix: DeepDADataset.merge(out=False) numbers the
 merged samples and changes nothing when refused

---
 skada/deep/base.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/skada/deep/base.py b/skada/deep/base.py
index d44ca9e..a0a87ca 100644
--- a/skada/deep/base.py
+++ b/skada/deep/base.py
@@ -1140,6 +1140,11 @@ class DeepDADataset(Dataset):
             if out:
                 return DeepDADataset(X, y, sample_domain, sample_weight, str(X.device))
             else:
+                assert len(sample_weight) in (0, len(X)), (
+                    "Every input data X should have a domain associated, a label (if there is "
+                    f"no label, it must be represented by {_NO_LABEL_}) and, "
+                    "optionally, a weight."
+                )
                 self.X = X
                 self.y = y
                 self.sample_domain = sample_domain
@@ -1147,11 +1152,7 @@ class DeepDADataset(Dataset):
                 self.has_y = torch.cat((self.has_y, dataset.has_y))
                 self.has_weights = bool(len(self.sample_weight))
                 self.device = str(X.device)
-                assert self._is_correct(), (
-                    "Every input data X should have a domain associated, a label (if there is "
-                    f"no label, it must be represented by {_NO_LABEL_}) and, "
-                    "optionally, a weight."
-                )
+                self._sample_idx = self._infer_sample_idx()
         else:
             raise TypeError("Can only merge two instances of DeepDADataset")
 
-- 
2.43.0


From 0d71e09ba1403c0d726bdc67690d4b21376ac74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:22 +0000
Subject: [PATCH 069/103] fix: DeepDADataset.add_weights changes nothing when
 the weights are refused

---
 skada/deep/base.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/skada/deep/base.py b/skada/deep/base.py
index a0a87ca..f5e7d23 100644
--- a/skada/deep/base.py
+++ b/skada/deep/base.py
@@ -1479,9 +1479,13 @@ class DeepDADataset(Dataset):
             ensure_min_samples=False,
             dtype=float,
         )
-        self.sample_weight = to_tensor(sample_weight, device=self.device)
+        sample_weight = to_tensor(sample_weight, device=self.device)
+        assert sample_weight.ndim == 1 and len(sample_weight) in (
+            0,
+            len(self.X),
+        ), "There must be a weight for every sample."
+        self.sample_weight = sample_weight
         self.has_weights = bool(len(self.sample_weight))
-        assert self._is_correct(), "There must be a weight for every sample."
         return self
 
     def remove_weights(self):
-- 
2.43.0


From 23d5c8d92e6e8b3f3b79c0c9604a4cc46e633740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:22 +0000
Subject: [PATCH 070/103] fix: deep estimators accept any torch dataset, as
 documented

---
 skada/deep/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/deep/base.py b/skada/deep/base.py
index f5e7d23..f838fa3 100644
--- a/skada/deep/base.py
+++ b/skada/deep/base.py
@@ -815,7 +815,7 @@ class DomainAwareNet(NeuralNetClassifier, _DAMetadataRequesterMixin):
         """
         if isinstance(X, DeepDADataset):
             return X
-        elif isinstance(X, Dataset):
+        elif isinstance(X, torch.utils.data.Dataset):
             X, y = self._process_dataset(X)
             return DeepDADataset(X, y, sample_domain, sample_weight, self.device)
         else:
-- 
2.43.0


From 0c7bf8be5d57ca6a8ada65b3094e4a7a8ba2db4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:22 +0000
Subject: [PATCH 071/103] fix: deep sample weights follow the samples of the
 base loss (domain 0, train_on_target)

---
 skada/deep/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/skada/deep/base.py b/skada/deep/base.py
index f838fa3..ba533bb 100644
--- a/skada/deep/base.py
+++ b/skada/deep/base.py
@@ -894,7 +894,11 @@ class DomainAwareNet(NeuralNetClassifier, _DAMetadataRequesterMixin):
 
         if "sample_weight" in X and X["sample_weight"] is not None:
             sample_weight = to_tensor(X["sample_weight"], device=self.device)
-            sample_weight = sample_weight[X["sample_domain"] > 0]
+            # keep the weights of the samples seen by the base criterion
+            used = X["sample_domain"] >= 0
+            if getattr(self.criterion_, "train_on_target", False):
+                used = ~used
+            sample_weight = sample_weight[used]
             if loss.dim() == 0 and len(sample_weight) > 1:
                 raise ValueError(
                     "You are using a criterion function that returns a scalar loss value, but sample weights are provided."
-- 
2.43.0


From 3e28658428602ed5d1392f17227b7cef7800cb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:22 +0000
Subject: [PATCH 072/103] fix: CountEpochs restarts the criterion's epoch
 counter at each fit

---
 skada/deep/callbacks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skada/deep/callbacks.py b/skada/deep/callbacks.py
index 9fc7e6b..1b52ace 100644
--- a/skada/deep/callbacks.py
+++ b/skada/deep/callbacks.py
@@ -173,9 +173,9 @@ class MemoryBank(Callback):
 class CountEpochs(Callback):
     """Callback to count the number of epochs."""
 
-    def on_train_begin(self, *args, **kwargs):
+    def on_train_begin(self, net, *args, **kwargs):
         """Initialize the epoch counter."""
-        self.n_epochs = 0
+        net.criterion__adapt_criterion.n_epochs = 0
 
     def on_epoch_begin(self, net, **kwargs):
         """Increment the number of epochs."""
-- 
2.43.0


From 6640e42e4efdf83c304f9e90d87f182c6374afa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:07 +0000
Subject: [PATCH 073/103] fix: MemoryBank moves its entries towards the batch
 instead of only shrinking them

---
 skada/deep/callbacks.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/skada/deep/callbacks.py b/skada/deep/callbacks.py
index 1b52ace..ea5cc24 100644
--- a/skada/deep/callbacks.py
+++ b/skada/deep/callbacks.py
@@ -158,13 +158,15 @@ class MemoryBank(Callback):
 
             new_memory_features = (
                 1.0 - self.momentum
-            ) * net.criterion__adapt_criterion.memory_features[batch_idx]
-            +self.momentum * features_t.clone()
+            ) * net.criterion__adapt_criterion.memory_features[
+                batch_idx
+            ] + self.momentum * features_t.clone()
 
             new_memory_outputs = (
                 1.0 - self.momentum
-            ) * net.criterion__adapt_criterion.memory_outputs[batch_idx]
-            +self.momentum * outputs_target.clone()
+            ) * net.criterion__adapt_criterion.memory_outputs[
+                batch_idx
+            ] + self.momentum * outputs_target.clone()
 
         net.criterion__adapt_criterion.memory_features[batch_idx] = new_memory_features
         net.criterion__adapt_criterion.memory_outputs[batch_idx] = new_memory_outputs
-- 
2.43.0


From 25b59e938c83355b1dbc24f5fb763b18a38bef60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:07 +0000
Subject: [PATCH 074/103] fix: MemoryBank is not updated by validation batches

---
 skada/deep/callbacks.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skada/deep/callbacks.py b/skada/deep/callbacks.py
index ea5cc24..a772040 100644
--- a/skada/deep/callbacks.py
+++ b/skada/deep/callbacks.py
@@ -132,7 +132,7 @@ class MemoryBank(Callback):
         )
         net.criterion__adapt_criterion.memory_outputs = memory_outputs
 
-    def on_batch_end(self, net, batch, **kwargs):
+    def on_batch_end(self, net, batch, training=True, **kwargs):
         """Compute memory bank at the end of each epoch.
 
         Parameters
@@ -144,6 +144,9 @@ class MemoryBank(Callback):
         **kwargs : dict
             Additional arguments passed to the callback.
         """
+        if not training:
+            # the indices of validation samples are not those of the bank
+            return
         X, _ = batch
         X_t = X["X"][X["sample_domain"] < 0]
         batch_idx = X["sample_idx"][X["sample_domain"] < 0]
-- 
2.43.0


From 4ed9902db10263c1af3faa4bab2299396d2e38c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:26 +0000
Subject: [PATCH 075/103] fix: CAN and SPA leave the list of callbacks they are
 given unchanged

---
 skada/deep/_divergence.py      | 2 +-
 skada/deep/_graph_alignment.py | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/skada/deep/_divergence.py b/skada/deep/_divergence.py
index c2fd04d..5860149 100644
--- a/skada/deep/_divergence.py
+++ b/skada/deep/_divergence.py
@@ -297,7 +297,7 @@ def CAN(
         callbacks = [ComputeSourceCentroids()]
     else:
         if isinstance(callbacks, list):
-            callbacks.append(ComputeSourceCentroids())
+            callbacks = callbacks + [ComputeSourceCentroids()]
         else:
             callbacks = [callbacks, ComputeSourceCentroids()]
 
diff --git a/skada/deep/_graph_alignment.py b/skada/deep/_graph_alignment.py
index 1dcd463..73dc089 100644
--- a/skada/deep/_graph_alignment.py
+++ b/skada/deep/_graph_alignment.py
@@ -204,8 +204,7 @@ def SPA(
         ]
     else:
         if isinstance(callbacks, list):
-            callbacks.append(MemoryBank())
-            callbacks.append(CountEpochs())
+            callbacks = callbacks + [MemoryBank(), CountEpochs()]
         else:
             callbacks = [
                 callbacks,
-- 
2.43.0


From a53abd8377bb0baf2e49d0245410061b1f81fd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:26 +0000
Subject: [PATCH 076/103] fix: check_generator returns a new generator instead
 of reseeding torch globally, as documented

---
 skada/deep/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skada/deep/utils.py b/skada/deep/utils.py
index bc39d66..8a8cd37 100644
--- a/skada/deep/utils.py
+++ b/skada/deep/utils.py
@@ -52,9 +52,9 @@ def check_generator(seed):
         The generator object based on `seed` parameter.
     """
     if seed is None or seed is torch.random:
-        return torch.random.manual_seed(torch.Generator().seed())
+        return torch.random.default_generator
     if isinstance(seed, numbers.Integral):
-        return torch.random.manual_seed(seed)
+        return torch.Generator().manual_seed(int(seed))
     if isinstance(seed, torch.Generator):
         return seed
     raise ValueError(
-- 
2.43.0


From 5a6530fb2f6ac61809d9c531c31c633833b86c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:26 +0000
Subject: [PATCH 077/103] fix: SphericalKMeans uses its random_state

---
 skada/deep/utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/skada/deep/utils.py b/skada/deep/utils.py
index 8a8cd37..ce6f5eb 100644
--- a/skada/deep/utils.py
+++ b/skada/deep/utils.py
@@ -160,12 +160,12 @@ class SphericalKMeans(BaseEstimator):
         self.random_state = random_state
         self.device = device
 
-    def _init_centroids(self, X):
+    def _init_centroids(self, X, generator=None):
         with torch.no_grad():
             # Randomly initialize centroids
             n_samples = X.shape[0]
-            indices = torch.randperm(n_samples, device=self.device)[:self.n_clusters]
-            centroids = X[indices]
+            indices = torch.randperm(n_samples, generator=generator)[:self.n_clusters]
+            centroids = X[indices.to(X.device)]
             return centroids / torch.norm(centroids, dim=1, keepdim=True)
 
     def fit(self, X, y=None):
@@ -198,8 +198,9 @@ class SphericalKMeans(BaseEstimator):
             best_n_iter = None
 
             if self.initial_centroids is None:
+                generator = check_generator(self.random_state)
                 for _ in range(self.n_init):
-                    initial_centroids = self._init_centroids(X)
+                    initial_centroids = self._init_centroids(X, generator)
                     inertia, centroids, n_iter = self._run_single_kmean(X, initial_centroids)
 
                     if best_inertia is None or inertia < best_inertia:
-- 
2.43.0


From c5e514d0625be1e216705c2b78f4d44148177626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:26 +0000
Subject: [PATCH 078/103] fix: CDANModule accepts sample weights like
 DomainAwareModule

---
 skada/deep/_adversarial.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/skada/deep/_adversarial.py b/skada/deep/_adversarial.py
index 88d462b..b5ad122 100644
--- a/skada/deep/_adversarial.py
+++ b/skada/deep/_adversarial.py
@@ -248,10 +248,12 @@ class CDANModule(DomainAwareModule):
         sample_idx=None,
         is_fit=False,
         return_features=False,
+        sample_weight=None,
     ):
+        kwargs = {} if sample_weight is None else {"sample_weight": sample_weight}
         if is_fit:
             # predict
-            y_pred = self.base_module_(X)
+            y_pred = self.base_module_(X, **kwargs)
             features = self.intermediate_layers[self.layer_name]
 
             n_classes = y_pred.shape[1]
@@ -284,9 +286,12 @@ class CDANModule(DomainAwareModule):
             )
         else:
             if return_features:
-                return self.base_module_(X), self.intermediate_layers[self.layer_name]
+                return (
+                    self.base_module_(X, **kwargs),
+                    self.intermediate_layers[self.layer_name],
+                )
             else:
-                return self.base_module_(X)
+                return self.base_module_(X, **kwargs)
 
 
 def CDAN(
-- 
2.43.0


From 2b4390950adf223f842ed27afa84df4c8e5cc987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:50 +0000
Subject: [PATCH 079/103] fix: MemoryBank keeps one entry per target sample
 with several target domains

---
 skada/deep/callbacks.py | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/skada/deep/callbacks.py b/skada/deep/callbacks.py
index a772040..89d7944 100644
--- a/skada/deep/callbacks.py
+++ b/skada/deep/callbacks.py
@@ -99,6 +99,14 @@ class MemoryBank(Callback):
         """
         X = net._prepare_input(X, y)
 
+        # Samples are numbered within their domain: in the bank, the samples of
+        # each target domain come after those of the previous target domains
+        self.offsets_, n_previous = {}, 0
+        for domain_id in X.domains():
+            if domain_id < 0:
+                self.offsets_[domain_id] = n_previous
+                n_previous += int((X.sample_domain == domain_id).sum())
+
         # Take only first sample without its label
         X_sample = X[0:1][0]
 
@@ -132,6 +140,28 @@ class MemoryBank(Callback):
         )
         net.criterion__adapt_criterion.memory_outputs = memory_outputs
 
+    def on_batch_begin(self, net, batch=None, training=True, **kwargs):
+        """Number the target samples of the batch as in the memory bank.
+
+        Parameters
+        ----------
+        net : NeuralNet
+            The neural network being trained.
+        batch : tuple
+            The current batch.
+        training : bool
+            Whether the batch is used for training or validation.
+        **kwargs : dict
+            Additional arguments passed to the callback.
+        """
+        if not training:
+            return
+        X, _ = batch
+        sample_idx = X["sample_idx"].clone()
+        for domain_id, offset in self.offsets_.items():
+            sample_idx[X["sample_domain"] == domain_id] += offset
+        X["sample_idx"] = sample_idx
+
     def on_batch_end(self, net, batch, training=True, **kwargs):
         """Compute memory bank at the end of each epoch.
 
-- 
2.43.0


From 6a5be7f1cc6dcb7dd184db93ef783352b1b7cdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:31 +0000
Subject: [PATCH 080/103] fix: an interrupted download never passes for a
 complete dataset

---
 skada/datasets/_amazon_review.py | 14 +++++++-------
 skada/datasets/_base.py          | 17 +++++++++++++++++
 skada/datasets/_office.py        | 18 +++++++++---------
 skada/datasets/_office_home.py   | 26 +++++++++++++-------------
 4 files changed, 46 insertions(+), 29 deletions(-)

diff --git a/skada/datasets/_amazon_review.py b/skada/datasets/_amazon_review.py
index feacd66..bd794f1 100644
--- a/skada/datasets/_amazon_review.py
+++ b/skada/datasets/_amazon_review.py
@@ -16,7 +16,7 @@ from sklearn.datasets._base import RemoteFileMetadata, _fetch_remote
 from sklearn.utils import Bunch
 
 from .._utils import _logger, _shuffle_arrays
-from ._base import DomainAwareDataset, get_data_home
+from ._base import DomainAwareDataset, _new_dataset_dir, get_data_home
 
 FileLoaderSpec = namedtuple(
     "FileLoaderSpec",
@@ -205,12 +205,12 @@ def _fetch_amazon_review(
     if not os.path.exists(dataset_dir):
         if not download_if_missing:
             raise OSError("Data not found and `download_if_missing` is False")
-        os.makedirs(dataset_dir)
-        _download_amazon_review(
-            loader_spec.remote,
-            data_home,
-            dataset_dir,
-        )
+        with _new_dataset_dir(dataset_dir) as new_dir:
+            _download_amazon_review(
+                loader_spec.remote,
+                data_home,
+                new_dir,
+            )
 
     (X, y) = _load_amazon_review(
         dataset_dir,
diff --git a/skada/datasets/_base.py b/skada/datasets/_base.py
index 47bf0d2..bce772d 100644
--- a/skada/datasets/_base.py
+++ b/skada/datasets/_base.py
@@ -4,7 +4,9 @@
 # License: BSD 3-Clause
 
 import os
+import tempfile
 import warnings
+from contextlib import contextmanager
 from functools import reduce
 from typing import Dict, Iterable, List, Literal, Mapping, Optional, Tuple, Union
 
@@ -81,6 +83,21 @@ def get_data_home(data_home: Union[str, os.PathLike, None]) -> str:
     return data_home
 
 
+@contextmanager
+def _new_dataset_dir(dataset_dir: str):
+    """Create `dataset_dir` only once its content is complete.
+
+    Gives a temporary folder of the same name to fill: it becomes `dataset_dir`
+    if nothing failed, and disappears otherwise.
+    """
+    parent, name = os.path.split(dataset_dir)
+    with tempfile.TemporaryDirectory(prefix=f"{name}_", dir=parent) as tmp_dir:
+        new_dir = os.path.join(tmp_dir, name)
+        os.makedirs(new_dir)
+        yield new_dir
+        os.rename(new_dir, dataset_dir)
+
+
 class DomainAwareDataset:
     """
     Container carrying all dataset domains.
diff --git a/skada/datasets/_office.py b/skada/datasets/_office.py
index fb44322..13e5782 100644
--- a/skada/datasets/_office.py
+++ b/skada/datasets/_office.py
@@ -21,7 +21,7 @@ from sklearn.datasets._base import RemoteFileMetadata, _fetch_remote
 from sklearn.utils import Bunch
 
 from .._utils import _logger
-from ._base import DomainAwareDataset, get_data_home
+from ._base import DomainAwareDataset, _new_dataset_dir, get_data_home
 
 FileLoaderSpec = namedtuple(
     "FileLoaderSpec",
@@ -403,14 +403,14 @@ def _fetch_office31(
     if not os.path.exists(dataset_dir):
         if not download_if_missing:
             raise OSError("Data not found and `download_if_missing` is False")
-        os.makedirs(dataset_dir)
-        # juggling with `extract_root` is only required because SURF features
-        # were archived with root folder and DECAF without it
-        _download_office31(
-            loader_spec.remote,
-            data_home,
-            data_home if loader_spec.extract_root else dataset_dir,
-        )
+        with _new_dataset_dir(dataset_dir) as new_dir:
+            # juggling with `extract_root` is only required because SURF features
+            # were archived with root folder and DECAF without it
+            _download_office31(
+                loader_spec.remote,
+                data_home,
+                os.path.dirname(new_dir) if loader_spec.extract_root else new_dir,
+            )
     if categories == Office31CategoriesPreset.ALL:
         # reset categories filter
         categories = None
diff --git a/skada/datasets/_office_home.py b/skada/datasets/_office_home.py
index 38f1290..5377e1f 100644
--- a/skada/datasets/_office_home.py
+++ b/skada/datasets/_office_home.py
@@ -17,7 +17,7 @@ from sklearn.datasets._base import RemoteFileMetadata, _fetch_remote
 from sklearn.utils import Bunch
 
 from .._utils import _logger, _shuffle_arrays
-from ._base import DomainAwareDataset, get_data_home
+from ._base import DomainAwareDataset, _new_dataset_dir, get_data_home
 
 FileLoaderSpec = namedtuple(
     "FileLoaderSpec",
@@ -187,12 +187,12 @@ def _fetch_office_home_all(
     if not os.path.exists(dataset_dir):
         if not download_if_missing:
             raise OSError("Data not found and `download_if_missing` is False")
-        os.makedirs(dataset_dir)
-        _download_office_home(
-            loader_spec.remote,
-            data_home,
-            dataset_dir,
-        )
+        with _new_dataset_dir(dataset_dir) as new_dir:
+            _download_office_home(
+                loader_spec.remote,
+                data_home,
+                new_dir,
+            )
 
     (X, y, domains) = _load_office_home_all(
         dataset_dir,
@@ -225,12 +225,12 @@ def _fetch_office_home(
     if not os.path.exists(dataset_dir):
         if not download_if_missing:
             raise OSError("Data not found and `download_if_missing` is False")
-        os.makedirs(dataset_dir)
-        _download_office_home(
-            loader_spec.remote,
-            data_home,
-            dataset_dir,
-        )
+        with _new_dataset_dir(dataset_dir) as new_dir:
+            _download_office_home(
+                loader_spec.remote,
+                data_home,
+                new_dir,
+            )
 
     (X, y) = _load_office_home(
         dataset_dir,
-- 
2.43.0


From fa1a4c2feda4b42bcff3c11d981bb4147df5d756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:10 +0000
Subject: [PATCH 081/103] fix: dataset generators accept RandomState instances,
 as documented

---
 skada/datasets/_mnist_usps.py        | 3 ++-
 skada/datasets/_samples_generator.py | 9 +++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/skada/datasets/_mnist_usps.py b/skada/datasets/_mnist_usps.py
index 7d00641..7425d41 100644
--- a/skada/datasets/_mnist_usps.py
+++ b/skada/datasets/_mnist_usps.py
@@ -11,6 +11,7 @@ except ImportError:
     torchvision = False
 
 import numpy as np
+from sklearn.utils import check_random_state
 
 from skada.datasets import DomainAwareDataset
 
@@ -54,7 +55,7 @@ def load_mnist_usps(
     if n_samples < 0 or n_samples > 1:
         raise ValueError("n_samples should be between 0 and 1.")
 
-    rng = np.random.RandomState(random_state)
+    rng = check_random_state(random_state)
 
     transform = transforms.Compose(
         [
diff --git a/skada/datasets/_samples_generator.py b/skada/datasets/_samples_generator.py
index fc3d272..3ff507d 100644
--- a/skada/datasets/_samples_generator.py
+++ b/skada/datasets/_samples_generator.py
@@ -12,6 +12,7 @@ from scipy import signal
 from scipy.fftpack import irfft, rfft
 from scipy.stats import multivariate_normal
 from sklearn.datasets import make_blobs
+from sklearn.utils import check_random_state
 
 from ._base import DomainAwareDataset
 
@@ -339,7 +340,7 @@ def make_shifted_blobs(
     dataset : :class:`~skada.datasets.DomainAwareDataset`
         Dataset object.
     """
-    rng = np.random.RandomState(random_state)
+    rng = check_random_state(random_state)
 
     X_source, y_source = make_blobs(
         n_samples=n_samples,
@@ -491,7 +492,7 @@ def make_shifted_datasets(
             A unifying view on dataset shift in classification.
             Pattern recognition, 45(1):521-530.
     """
-    rng = np.random.RandomState(random_state)
+    rng = check_random_state(random_state)
     X_source, y_source = _generate_data_2d_classif(
         n_samples_source,
         rng,
@@ -680,7 +681,7 @@ def make_dataset_from_moons_distribution(
     dataset : :class:`~skada.datasets.DomainAwareDataset`
         Dataset object.
     """
-    rng = np.random.RandomState(random_state)
+    rng = check_random_state(random_state)
 
     dataset = DomainAwareDataset(domains=[])
     sources = []
@@ -814,7 +815,7 @@ def make_variable_frequency_dataset(
     dataset : :class:`~skada.datasets.DomainAwareDataset`
         Dataset object.
     """
-    rng = np.random.RandomState(random_state)
+    rng = check_random_state(random_state)
     input_size = 3000
     fs = 100
     highest_frequency = 15
-- 
2.43.0


From 87822d9d1c9be1e8c2c1f189dab3ccdfe4407416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:10 +0000
Subject: [PATCH 082/103] fix: classes of the subspace shift follow the
 clusters for odd sizes

---
 skada/datasets/_samples_generator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skada/datasets/_samples_generator.py b/skada/datasets/_samples_generator.py
index 3ff507d..93e66a0 100644
--- a/skada/datasets/_samples_generator.py
+++ b/skada/datasets/_samples_generator.py
@@ -177,9 +177,9 @@ def _generate_data_2d_classif_subspace(
         y = y.astype(int)
     elif label == "multiclass":
         k = 4
-        y = np.zeros(n1 + n1 % k)
-        for i in range(k):
-            y = np.concatenate((y, (i + 1) * np.ones(n1 // k)), 0)
+        y = np.zeros(n1)
+        for i, idx in enumerate(np.array_split(np.arange(2 * n2), k)):
+            y = np.concatenate((y, (i + 1) * np.ones(len(idx))), 0)
             y = y.astype(int)
     elif label == "regression":
         # create label y with gaussian distribution
-- 
2.43.0


From 73c2a95428407cb235473b37f32e8a5cfa211581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:19 +0000
Subject: [PATCH 083/103] fix: load_mnist_usps returns distinct samples

---
 skada/datasets/_mnist_usps.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/skada/datasets/_mnist_usps.py b/skada/datasets/_mnist_usps.py
index 7425d41..6254794 100644
--- a/skada/datasets/_mnist_usps.py
+++ b/skada/datasets/_mnist_usps.py
@@ -76,8 +76,7 @@ def load_mnist_usps(
     mnist_target = mnist_target[mnist_target < n_classes]
 
     selected_samples = rng.choice(
-        np.linspace(0, len(mnist_data) - 1, len(mnist_data)),
-        int(n_samples * len(mnist_data)),
+        len(mnist_data), int(n_samples * len(mnist_data)), replace=False
     )
     mnist_data = mnist_data[selected_samples]
     mnist_target = mnist_target[selected_samples]
@@ -102,8 +101,7 @@ def load_mnist_usps(
     usps_target = usps_target[usps_target < n_classes]
 
     selected_samples = rng.choice(
-        np.linspace(0, len(usps_data) - 1, len(usps_data)),
-        int(n_samples * len(usps_data)),
+        len(usps_data), int(n_samples * len(usps_data)), replace=False
     )
     usps_data = usps_data[selected_samples]
     usps_target = usps_target[selected_samples]
-- 
2.43.0


From e127c77f4e1d36a43d95e1983b57e7de41642a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:19 +0000
Subject: [PATCH 084/103] fix: qp_solve returns val as None if the optimization
 failed, as documented

---
 skada/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skada/utils.py b/skada/utils.py
index a0b92d1..b54153a 100644
--- a/skada/utils.py
+++ b/skada/utils.py
@@ -805,10 +805,12 @@ def _qp_solve_scipy(Q, c=None, A=None, b=None, Aeq=None, beq=None,
                        options={"maxiter": max_iter,
                                 "disp": verbose})
 
+    val = results['fun']
     if not results.success:
         warnings.warn(results.message)
+        val = None
 
-    outputs = (results['x'], results['fun'])
+    outputs = (results['x'], val)
 
     if log:
         outputs += (results,)
-- 
2.43.0


From 76cf651aee2f951e3731b48db3ed48d1a1d6af2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:19 +0000
Subject: [PATCH 085/103] fix: the frank-wolfe solver honours lb and ub (upper
 bound B of KMM weights)

---
 skada/utils.py | 53 ++++++++++++++++++++++++++++++++++----------------
 1 file changed, 36 insertions(+), 17 deletions(-)

diff --git a/skada/utils.py b/skada/utils.py
index b54153a..088e495 100644
--- a/skada/utils.py
+++ b/skada/utils.py
@@ -633,7 +633,7 @@ def qp_solve(Q, c=None, A=None, b=None, Aeq=None, beq=None,
 
         A_{eq} x = b_{eq}
 
-        x >= 0
+        lb <= x <= ub
 
     Or,
 
@@ -642,11 +642,12 @@ def qp_solve(Q, c=None, A=None, b=None, Aeq=None, beq=None,
 
         A x <= b
 
-        x >= 0
+        lb <= x <= ub
 
     With Aeq and beq of respective dimension (1,d) and (1,),
     and A and b of respective dimension (1,d) and (1,) or
     (2,d) and (2,), with A[0] = -A[1] and b[0] >= -b[1].
+    The lower bound is then 0 if not provided.
 
     Parameters
     ----------
@@ -695,7 +696,7 @@ def qp_solve(Q, c=None, A=None, b=None, Aeq=None, beq=None,
                                x0, tol, max_iter, verbose, log)
     elif solver == "frank-wolfe":
         return _qp_solve_frank_wolfe(Q, c, A, b, Aeq, beq,
-                                     x0, max_iter)
+                                     x0, max_iter, lb, ub)
     else:
         raise ValueError("`solver` argument should be included in %s,"
                          " got '%s'" % (solver_list, str(solver)))
@@ -820,7 +821,7 @@ def _qp_solve_scipy(Q, c=None, A=None, b=None, Aeq=None, beq=None,
 
 def _qp_solve_frank_wolfe(Q, c=None, A=None, b=None,
                           Aeq=None, beq=None, x0=None,
-                          max_iter=1000):
+                          max_iter=1000, lb=None, ub=None):
     r""" Solves a quadratic program with Frank-Wolfe algorithm
 
     Solve the following optimization problem:
@@ -830,7 +831,7 @@ def _qp_solve_frank_wolfe(Q, c=None, A=None, b=None,
 
         A_{eq} x = b_{eq}
 
-        x >= 0
+        lb <= x <= ub
 
     Or,
 
@@ -839,11 +840,12 @@ def _qp_solve_frank_wolfe(Q, c=None, A=None, b=None,
 
         A x <= b
 
-        x >= 0
+        lb <= x <= ub
 
     With Aeq and beq of respective dimension (1,d) and (1,),
     and A and b of respective dimension (1,d) and (1,) or
     (2,d) and (2,), with A[0] = -A[1] and b[0] >= -b[1].
+    The lower bound is then 0 if not provided.
 
     Parameters
     ----------
@@ -863,6 +865,10 @@ def _qp_solve_frank_wolfe(Q, c=None, A=None, b=None,
         Initialization. Ones by default.
     max_iter : int, optional
         Maximum number of iterations to perform.
+    lb : (d) ndarray, float64, optional
+        Lower bound constraint, 0 if not provided.
+    ub : (d) ndarray, float64, optional
+        Upper bound constraint, np.inf if not provided.
 
     Returns
     -------
@@ -904,21 +910,22 @@ def _qp_solve_frank_wolfe(Q, c=None, A=None, b=None,
 
     if Aeq is not None:
         x = frank_wolfe(jac, Aeq[0], beq[0], beq[0],
-                        x0, max_iter)
+                        x0, max_iter, lb, ub)
     elif A is not None:
         if A.shape[0] > 1:
             x = frank_wolfe(jac, A[0], -b[1], b[0],
-                            x0, max_iter)
+                            x0, max_iter, lb, ub)
         else:
             x = frank_wolfe(jac, A[0], b[0], b[0],
-                            x0, max_iter)
+                            x0, max_iter, lb, ub)
     else:
         raise ValueError("`A` or `Aeq` must be given when"
                          " using the 'frank-wolfe' solver")
     return x, func(x)
 
 
-def frank_wolfe(jac, c, clb=1., cub=1., x0=None, max_iter=1000):
+def frank_wolfe(jac, c, clb=1., cub=1., x0=None, max_iter=1000,
+                lb=None, ub=None):
     r"""Frank-Wolfe algorithm for convex programming
 
     Solve the following convex optimization problem:
@@ -928,7 +935,7 @@ def frank_wolfe(jac, c, clb=1., cub=1., x0=None, max_iter=1000):
 
         clb <= \\langle x, c \\rangle <= cub
 
-        x >= 0
+        lb <= x <= ub
 
     Parameters
     ----------
@@ -942,6 +949,10 @@ def frank_wolfe(jac, c, clb=1., cub=1., x0=None, max_iter=1000):
         Upper bound of the linear constraint.
     max_iter : int, optional, default=1000
         Maximum number of iterations to perform.
+    lb : (d,) ndarray, float64, optional
+        Lower bound of x, 0 if not provided.
+    ub : (d,) ndarray, float64, optional
+        Upper bound of x, np.inf if not provided.
 
     Returns
     -------
@@ -955,15 +966,23 @@ def frank_wolfe(jac, c, clb=1., cub=1., x0=None, max_iter=1000):
 
     x = x0
 
+    # what the linear constraint leaves to each variable, above its lower bound
+    lb = np.zeros(c.shape[0]) if lb is None else np.asarray(lb, dtype=float)
+    ub = np.full(c.shape[0], np.inf) if ub is None else np.asarray(ub, dtype=float)
+    capacity = c * (ub - lb)
+    clb, cub = clb - c @ lb, cub - c @ lb
+    if np.any(ub < lb) or cub < 0 or capacity.sum() < clb:
+        raise ValueError("No `x` satisfies both the bounds and the linear constraint")
+
     for k in range(1, max_iter+1):
         grad = jac(x)
         product = grad * inv_c
-        index = np.argmin(product)
-        vect = np.zeros(c.shape[0])
-        if product[index] >= 0:
-            vect[index] = inv_c[index] * clb
-        else:
-            vect[index] = inv_c[index] * cub
+        order = np.argsort(product, kind="stable")
+        total = min(capacity[product < 0].sum(), cub)
+        total = max(total, clb, 0)
+        used = np.diff(np.minimum(np.cumsum(capacity[order]), total), prepend=0)
+        vect = lb.copy()
+        vect[order] += inv_c[order] * used
         lr = 2. / (k + 1.)
         x = (1 - lr) * x + lr * vect
     return x
-- 
2.43.0


From 4ab1b30bd7c42f689921c59819b851c2c0f59531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:06 +0000
Subject: [PATCH 086/103] fix: make_shifted_datasets accepts scalar
 mu_regression and sigma_regression with the subspace shift, as documented

---
 skada/datasets/_samples_generator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skada/datasets/_samples_generator.py b/skada/datasets/_samples_generator.py
index 93e66a0..6b6be6c 100644
--- a/skada/datasets/_samples_generator.py
+++ b/skada/datasets/_samples_generator.py
@@ -496,8 +496,9 @@ def make_shifted_datasets(
     X_source, y_source = _generate_data_2d_classif(
         n_samples_source,
         rng,
-        mu_regression,
-        sigma_regression,
+        # scalars with the subspace shift, which makes its own source below
+        None if shift == "subspace" else mu_regression,
+        None if shift == "subspace" else sigma_regression,
         regression_scaling_constant,
         label,
     )
-- 
2.43.0


From f67ffe1b4d2f9b09c3d2633e6640a59bc2f61757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:43 +0000
Subject: [PATCH 087/103] fix: cdd_loss measures the angle between target
 samples and centroids (it compared feature columns)

---
 skada/deep/losses.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/deep/losses.py b/skada/deep/losses.py
index 98c70c4..e1e02f0 100644
--- a/skada/deep/losses.py
+++ b/skada/deep/losses.py
@@ -254,7 +254,7 @@ def cdd_loss(
 
     # Discard ambiguous target samples
     similarities = F.cosine_similarity(
-        features_t.unsqueeze(1), target_kmeans.cluster_centers_.unsqueeze(0)
+        features_t.unsqueeze(1), target_kmeans.cluster_centers_.unsqueeze(0), dim=2
     )
     mask_t = 0.5 * (1 - similarities.max(dim=1)[0]) < distance_threshold
     features_t = features_t[mask_t]
-- 
2.43.0


From 2bf7900decb152dc764a0bb1079600200099968c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:43 +0000
Subject: [PATCH 088/103] fix: cdd_loss averages the kernels over the pairs of
 both classes, for every ordered pair of classes

---
 skada/deep/losses.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/skada/deep/losses.py b/skada/deep/losses.py
index e1e02f0..12a1a25 100644
--- a/skada/deep/losses.py
+++ b/skada/deep/losses.py
@@ -284,40 +284,40 @@ def cdd_loss(
     intraclass = 0
     interclass = 0
     for c1 in range(n_classes):
-        for c2 in range(c1, n_classes):
+        for c2 in range(n_classes):
             if valid_classes[c1] and valid_classes[c2]:
                 # Compute e1
                 kernel_ss = _gaussian_kernel(features_s, features_s, sigmas)
-                mask_c1_c1 = (y_s == c1).float()
+                mask_c1 = (y_s == c1).float().unsqueeze(1)
+                mask_c1_c1 = mask_c1 * mask_c1.T
 
                 # e1 measure the intra-class domain discrepancy
                 # Thus if mask_c1_c1.sum() = 0 --> e1 = 0
                 if mask_c1_c1.sum() > 0:
-                    e1 = (kernel_ss * mask_c1_c1).sum() / (mask_c1_c1.sum() ** 2)
+                    e1 = (kernel_ss * mask_c1_c1).sum() / mask_c1_c1.sum()
                 else:
                     e1 = 0
 
                 # Compute e2
                 kernel_tt = _gaussian_kernel(features_t, features_t, sigmas)
-                mask_c2_c2 = (cluster_labels_t == c2).float()
+                mask_c2 = (cluster_labels_t == c2).float().unsqueeze(0)
+                mask_c2_c2 = mask_c2.T * mask_c2
 
                 # e2 measure the intra-class domain discrepancy
                 # Thus if mask_c2_c2.sum() = 0 --> e2 = 0
                 if mask_c2_c2.sum() > 0:
-                    e2 = (kernel_tt * mask_c2_c2).sum() / (mask_c2_c2.sum() ** 2)
+                    e2 = (kernel_tt * mask_c2_c2).sum() / mask_c2_c2.sum()
                 else:
                     e2 = 0
 
                 # Compute e3
                 kernel_st = _gaussian_kernel(features_s, features_t, sigmas)
-                mask_c1 = (y_s == c1).float().unsqueeze(1)
-                mask_c2 = (cluster_labels_t == c2).float().unsqueeze(0)
                 mask_c1_c2 = mask_c1 * mask_c2
 
                 # e3 measure the inter-class domain discrepancy
                 # Thus if mask_c1_c2.sum() = 0 --> e3 = 0
                 if mask_c1_c2.sum() > 0:
-                    e3 = (kernel_st * mask_c1_c2).sum() / (mask_c1_c2.sum() ** 2)
+                    e3 = (kernel_st * mask_c1_c2).sum() / mask_c1_c2.sum()
                 else:
                     e3 = 0
 
-- 
2.43.0


From 8f4758a834e8c8c766fd906347865f86f6f9da9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:43 +0000
Subject: [PATCH 089/103] fix: deepcoral_loss does not center the data if
 assume_centered=True

---
 skada/deep/losses.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skada/deep/losses.py b/skada/deep/losses.py
index 12a1a25..e246a20 100644
--- a/skada/deep/losses.py
+++ b/skada/deep/losses.py
@@ -44,8 +44,8 @@ def deepcoral_loss(features, features_target, assume_centered=False):
     if not assume_centered:
         features = features - features.mean(0)
         features_target = features_target - features_target.mean(0)
-    cov = torch.cov(features.T)
-    cov_target = torch.cov(features_target.T)
+    cov = features.T @ features / (len(features) - 1)
+    cov_target = features_target.T @ features_target / (len(features_target) - 1)
     divergence = mse_loss(cov, cov_target, reduction="sum")
     dim = features.shape[1]
     loss = (1 / (4 * (dim**2))) * divergence
-- 
2.43.0


From e62bd2c814ad3cb791cc0494ec71fffdda0c1543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:43 +0000
Subject: [PATCH 090/103] fix: MDD compares each target sample with its own
 pseudo label (it mixed all of them)

---
 skada/deep/_adversarial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/deep/_adversarial.py b/skada/deep/_adversarial.py
index b5ad122..07994ee 100644
--- a/skada/deep/_adversarial.py
+++ b/skada/deep/_adversarial.py
@@ -416,7 +416,7 @@ class ModifiedCrossEntropyLoss(torch.nn.Module):
         smooth_prob = (1 - self.smoothing) * prob + self.smoothing / num_classes
 
         # Gather probabilities of the target classes
-        target_prob = smooth_prob[..., target]
+        target_prob = smooth_prob.gather(-1, target.unsqueeze(-1)).squeeze(-1)
 
         # Compute log(1 - probability) for the target class
         log_one_minus_prob = torch.log(1 - target_prob)
-- 
2.43.0


From 3bee901afeed49229cf5c547092d886460497d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:21 +0000
Subject: [PATCH 091/103] fix: label propagation marks the sources with -1 for
 boolean and unsigned labels as well

---
 skada/_ot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skada/_ot.py b/skada/_ot.py
index f077e92..148d208 100644
--- a/skada/_ot.py
+++ b/skada/_ot.py
@@ -860,7 +860,7 @@ class OTLabelPropAdapter(BaseAdapter):
             self.yht_continuous_ = yht
             yht = np.argmax(yht, axis=1)
             yht = classes[yht]
-            yout = -np.ones_like(y)
+            yout = -np.ones_like(y, dtype=np.result_type(y, np.int8))
         else:
             Y = ys
             yht = G.T.dot(Y) / wt
@@ -1005,7 +1005,7 @@ class JCPOTLabelPropAdapter(BaseAdapter):
 
         yh = classes[np.argmax(yh, axis=1)]
 
-        yout = -np.ones_like(y)
+        yout = -np.ones_like(y, dtype=np.result_type(y, np.int8))
         yout[sample_domain < 0] = yh
 
         return X, yout, {}
-- 
2.43.0


From 427a67cbf7d127d75fe293c310d9c1c3656b39fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:21 +0000
Subject: [PATCH 092/103] fix: OTLabelPropAdapter averages the regression
 targets with the mass the plan gives each sample

---
 skada/_ot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/_ot.py b/skada/_ot.py
index 148d208..b4fc558 100644
--- a/skada/_ot.py
+++ b/skada/_ot.py
@@ -863,7 +863,7 @@ class OTLabelPropAdapter(BaseAdapter):
             yout = -np.ones_like(y, dtype=np.result_type(y, np.int8))
         else:
             Y = ys
-            yht = G.T.dot(Y) / wt
+            yht = G.T.dot(Y) / G.sum(axis=0)
             self.yht_continuous_ = yht
             yout = np.ones_like(y) * np.nan
 
-- 
2.43.0


From a63be970e81b8c542e149330c0a15e0e970cda3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:21 +0000
Subject: [PATCH 093/103] fix: the default domain classifier has a sigmoid
 output (a softmax over one unit is constant)

---
 skada/deep/modules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/deep/modules.py b/skada/deep/modules.py
index 3563d1a..423cc43 100644
--- a/skada/deep/modules.py
+++ b/skada/deep/modules.py
@@ -178,7 +178,7 @@ class DomainClassifier(nn.Module):
             nn.BatchNorm1d(100),
             nn.ReLU(),
             nn.Linear(100, n_classes),
-            nn.Softmax(),
+            nn.Sigmoid() if n_classes == 1 else nn.Softmax(dim=1),
         )
         self.alpha = alpha
 
-- 
2.43.0


From 86c717670ff99821423f2d44fb2a987f0009ab88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:49 +0000
Subject: [PATCH 094/103] fix: KLIEP weights maximize the likelihood of the
 targets

---
 skada/_reweight.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/skada/_reweight.py b/skada/_reweight.py
index f992c7f..133db5e 100644
--- a/skada/_reweight.py
+++ b/skada/_reweight.py
@@ -520,18 +520,19 @@ class KLIEPReweightAdapter(BaseReweightAdapter):
         n_targets = len(X_target)
         n_centers = np.min((n_targets, self.n_centers))
 
-        centers = X_target[rng.choice(np.arange(n_targets), n_centers)]
+        centers = X_target[rng.choice(np.arange(n_targets), n_centers, replace=False)]
         A = pairwise_kernels(X_target, centers, metric="rbf", gamma=gamma)
         b = pairwise_kernels(X_source, centers, metric="rbf", gamma=gamma)
-        b = np.mean(b, axis=0)
+        b = np.maximum(np.mean(b, axis=0), EPS)
 
-        alpha = np.ones(n_centers)
-        obj = np.sum(np.log(A @ alpha))
+        # maximize sum(log(A @ alpha)) subject to alpha >= 0 and b @ alpha = 1:
+        # the multiplicative update keeps both constraints and never lowers the
+        # objective
+        alpha = np.ones(n_centers) / np.sum(b)
+        obj = np.sum(np.log(A @ alpha + EPS))
         for _ in range(self.max_iter):
             old_obj = obj
-            alpha += EPS * A.T @ (1 / (A @ alpha))
-            alpha += (1 - b @ alpha) * b / (b @ b)
-            alpha = (alpha > 0) * alpha
+            alpha *= A.T @ (1 / (A @ alpha + EPS)) / b
             alpha /= b @ alpha
             obj = np.sum(np.log(A @ alpha + EPS))
             if np.abs(obj - old_obj) < self.tol:
-- 
2.43.0


From 1c33b096a9db101eea606f798868e5a90c75413e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:49 +0000
Subject: [PATCH 095/103] fix: automatic covariance shrinkage honours
 assume_centered

---
 skada/_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/_utils.py b/skada/_utils.py
index 4941384..4443ba5 100644
--- a/skada/_utils.py
+++ b/skada/_utils.py
@@ -45,7 +45,7 @@ def _estimate_covariance(X, shrinkage, assume_centered=False):
     elif shrinkage == "auto":
         sc = StandardScaler(with_mean=not assume_centered)
         X = sc.fit_transform(X)
-        s = ledoit_wolf(X)[0]
+        s = ledoit_wolf(X, assume_centered=assume_centered)[0]
         # rescale
         s = sc.scale_[:, np.newaxis] * s * sc.scale_[np.newaxis, :]
     elif isinstance(shrinkage, Real):
-- 
2.43.0


From da4a81af5e4ce9f92a07dc52694da7e82a36dca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:49 +0000
Subject: [PATCH 096/103] fix: discriminant subspace learning separates the
 classes

---
 skada/_subspace.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/skada/_subspace.py b/skada/_subspace.py
index 4dd6ff0..7b905f9 100644
--- a/skada/_subspace.py
+++ b/skada/_subspace.py
@@ -825,15 +825,14 @@ class TransferSubspaceLearningAdapter(BaseAdapter):
             cov = self._torch_cov(X_source)
             loss = -torch.trace(W.T @ cov @ W)
         elif base_method == "flda":
-            classes = torch.unique(y_source)
+            # ratio of the within-class to the total (within + between) scatter
+            classes, y_index = torch.unique(y_source, return_inverse=True)
             classes_means = torch.stack(
                 [torch.mean(X_source[y_source == c], dim=0) for c in classes]
             )
-            classes_n_samples = torch.stack([torch.sum(y_source == c) for c in classes])
-            classes_means = classes_means * torch.sqrt(classes_n_samples).reshape(-1, 1)
-            S_W = self._torch_cov(classes_means)
-            S_B = self._torch_cov(X_source)
-            loss = torch.trace(W.T @ S_W @ W) / torch.trace(W.T @ S_B @ W)
+            S_W = self._torch_cov(X_source - classes_means[y_index])
+            S_T = self._torch_cov(X_source)
+            loss = torch.trace(W.T @ S_W @ W) / torch.trace(W.T @ S_T @ W)
         elif base_method == "lpp":
             # E is the Gaussian kernel if (y_source)_i == (y_source)_j and 0 otherwise
             E = torch.exp(-torch.cdist(X_source, X_source) / self.length_scale)
-- 
2.43.0


From 33c4c62ef918b4c82c21ce79d0e39af51c81a0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:49 +0000
Subject: [PATCH 097/103] fix: locality preserving subspace learning keeps
 neighbours close

---
 skada/_subspace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/_subspace.py b/skada/_subspace.py
index 7b905f9..5d4ea6d 100644
--- a/skada/_subspace.py
+++ b/skada/_subspace.py
@@ -838,7 +838,7 @@ class TransferSubspaceLearningAdapter(BaseAdapter):
             E = torch.exp(-torch.cdist(X_source, X_source) / self.length_scale)
             E = E * (y_source[:, None] == y_source[None, :])
             D = torch.diag(torch.sum(E, dim=1))
-            loss = -2 * torch.trace(W.T @ X_source.T @ (D - E) @ X_source @ W)
+            loss = 2 * torch.trace(W.T @ X_source.T @ (D - E) @ X_source @ W)
 
         return loss
 
-- 
2.43.0


From 21f42665fcee80ccd4da1b9718cd8334d644e26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:08 +0000
Subject: [PATCH 098/103] fix: pipelines of several estimators can be scored

---
 skada/_utils.py | 8 ++++++++
 skada/base.py   | 1 -
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/skada/_utils.py b/skada/_utils.py
index 4443ba5..5eca0e7 100644
--- a/skada/_utils.py
+++ b/skada/_utils.py
@@ -216,6 +216,14 @@ def _merge_domain_outputs(n_samples, domain_outputs, *, allow_containers=False):
             merge(y_parts) if y_parts else None,
             {k: merge(parts) for k, parts in params_parts.items()},
         )
+    elif np.ndim(first_output) == 0:
+        # each domain contributes to the score according to its number of samples
+        output = np.average(
+            [score for _, score in domain_outputs.values()],
+            weights=[
+                np.zeros(n_samples)[idx].size for idx, _ in domain_outputs.values()
+            ],
+        )
     else:
         assert isinstance(first_output, np.ndarray)
         output = _merged_array(n_samples, [out for _, out in domain_outputs.values()])
diff --git a/skada/base.py b/skada/base.py
index c915961..d972631 100644
--- a/skada/base.py
+++ b/skada/base.py
@@ -804,7 +804,6 @@ class SelectSourceTarget(BaseSelector):
                 domain_output = method(X_domain, **routed_params)
             else:
                 domain_output = method(X_domain, y_domain, **routed_params)
-            assert isinstance(domain_output, np.ndarray)
             outputs[domain_label] = (domain_masks, domain_output)
         return _merge_domain_outputs(X.shape[0], outputs)
 
-- 
2.43.0


From 192d3480d0f2ed3835d0855bd44dd8ab586f4b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:30 +0000
Subject: [PATCH 099/103] fix: the supervised scorer tells the estimator the
 domains of the samples

---
 skada/metrics.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skada/metrics.py b/skada/metrics.py
index 4ad5495..ab57b30 100644
--- a/skada/metrics.py
+++ b/skada/metrics.py
@@ -35,7 +35,10 @@ from .utils import check_X_y_domain, extract_source_indices, source_target_split
 
 
 def _estimator_score(estimator, X, y=None, **kwargs):
-    return estimator.score(X, y)
+    routing = get_routing_for_object(estimator)
+    return estimator.score(
+        X, y, **{k: kwargs[k] for k in routing.consumes("score", kwargs)}
+    )
 
 
 class _BaseDomainAwareScorer(_BaseScorer):
-- 
2.43.0


From 9799d2c43cb191014a085cf37f25e63304f4674f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:40 +0000
Subject: [PATCH 100/103] fix: the supervised scorer asks for the domains as
 well as the target labels

---
 skada/metrics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skada/metrics.py b/skada/metrics.py
index ab57b30..d243b35 100644
--- a/skada/metrics.py
+++ b/skada/metrics.py
@@ -75,7 +75,8 @@ class SupervisedScorer(_BaseDomainAwareScorer):
         super().__init__(
             score_func=scoring, sign=1 if greater_is_better else -1, kwargs=kwargs
         )
-        self.set_score_request(target_labels=True)
+        # a second call would drop the request made by the base class
+        self.set_score_request(sample_domain=True, target_labels=True)
 
     def _score(
         self, _, estimator, X, y=None, sample_domain=None, target_labels=None, **params
-- 
2.43.0


From f1917519863cb9be95044d35c3e593bee6c9f262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:10 +0000
Subject: [PATCH 101/103] fix: a deep net can be cloned right after it was
 fitted

---
 skada/deep/base.py  |  8 ++++++--
 skada/deep/utils.py | 12 ++++++++++++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/skada/deep/base.py b/skada/deep/base.py
index ba533bb..65e6664 100644
--- a/skada/deep/base.py
+++ b/skada/deep/base.py
@@ -15,7 +15,11 @@ from sklearn.base import _clone_parametrized
 from sklearn.metrics import accuracy_score
 from skorch import NeuralNetClassifier
 
-from .utils import _register_forwards_hook, _infer_predict_nonlinearity
+from .utils import (
+    IntermediateLayers,
+    _register_forwards_hook,
+    _infer_predict_nonlinearity,
+)
 
 from skada.base import _DAMetadataRequesterMixin
 from sklearn.utils.validation import check_array
@@ -407,7 +411,7 @@ class DomainAwareModule(torch.nn.Module):
         self.base_module_ = base_module
         self.domain_classifier_ = domain_classifier
         self.layer_name = layer_name
-        self.intermediate_layers = {}
+        self.intermediate_layers = IntermediateLayers()
         self._setup_hooks()
     
     def _setup_hooks(self):
diff --git a/skada/deep/utils.py b/skada/deep/utils.py
index ce6f5eb..f792dfd 100644
--- a/skada/deep/utils.py
+++ b/skada/deep/utils.py
@@ -14,6 +14,18 @@ from torch.nn.functional import cosine_similarity
 from sklearn.utils.validation import check_is_fitted
 
 
+class IntermediateLayers(dict):
+    """Outputs of the hooked layers during the last forward pass.
+
+    The outputs belong to that pass: they are not part of what gets copied or
+    pickled together with the module (and could not be copied when they are
+    attached to a graph).
+    """
+
+    def __reduce__(self):
+        return IntermediateLayers, ()
+
+
 class IntermediateLayerHook:
     def __init__(self, intermediate_layers, layer_name):
         self.intermediate_layers = intermediate_layers
-- 
2.43.0


From 38edbfb293ab0e5335fce7a259680161bcedcd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:10 +0000
Subject: [PATCH 102/103] fix: deep methods accept the base module as a class

---
 skada/deep/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skada/deep/base.py b/skada/deep/base.py
index 65e6664..9fc1378 100644
--- a/skada/deep/base.py
+++ b/skada/deep/base.py
@@ -408,6 +408,9 @@ class DomainAwareModule(torch.nn.Module):
 
     def __init__(self, base_module, layer_name, domain_classifier=None):
         super(DomainAwareModule, self).__init__()
+        if isinstance(base_module, type):
+            # one new module for each initialization
+            base_module = base_module()
         self.base_module_ = base_module
         self.domain_classifier_ = domain_classifier
         self.layer_name = layer_name
-- 
2.43.0


From d861a94089369767561ef3cc9290d76ab6cc5053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:10 +0000
Subject: [PATCH 103/103] fix: MaNoScorer asks deep nets for their predictions
 in evaluation mode

---
 skada/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/metrics.py b/skada/metrics.py
index d243b35..7c345c9 100644
--- a/skada/metrics.py
+++ b/skada/metrics.py
@@ -886,7 +886,7 @@ class MaNoScorer(_BaseDomainAwareScorer):
                 raise ValueError("The layer_name of the estimator is not set.")
 
             # 1) Recover logits on target
-            logits = estimator.infer(X[~source_idx], **params).cpu().detach().numpy()
+            logits = estimator.forward(X[~source_idx]).cpu().numpy()
 
             # 2) Normalize logits to obtain probabilities
             criterion = self._get_criterion(logits)
-- 
2.43.0

