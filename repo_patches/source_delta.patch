From a83f4b30bf6be29a3e27774b2a9a9b18051f1aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:26 +0000
Subject: [PATCH 01/97] fix: allow_multi_target checks the number of targets,
 not of sources

---
 skada/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skada/utils.py b/skada/utils.py
index 12b285d..6def96f 100644
--- a/skada/utils.py
+++ b/skada/utils.py
@@ -114,7 +114,7 @@ def check_X_y_domain(
     if not allow_multi_source and n_sources > 1:
         raise ValueError(f"Number of sources provided is {n_sources} "
                          "and 'allow_multi_source' is set to False")
-    if not allow_multi_target and n_sources > 1:
+    if not allow_multi_target and n_targets > 1:
         raise ValueError(f"Number of targets provided is {n_targets} "
                          "and 'allow_multi_target' is set to False")
 
@@ -217,7 +217,7 @@ def check_X_domain(
     if not allow_multi_source and n_sources > 1:
         raise ValueError(f"Number of sources provided is {n_sources} "
                          "and 'allow_multi_source' is set to False")
-    if not allow_multi_target and n_sources > 1:
+    if not allow_multi_target and n_targets > 1:
         raise ValueError(f"Number of targets provided is {n_targets} "
                          "and 'allow_multi_target' is set to False")
     
-- 
2.43.0


From e85dd5a48aa6c9e3126b456b40a77d894ab069a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:43 +0000
Subject: [PATCH 02/97] fix: domain validation accepts array-like sample_domain
 and rejects a wrong length

---
 skada/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skada/utils.py b/skada/utils.py
index 6def96f..dfb2f45 100644
--- a/skada/utils.py
+++ b/skada/utils.py
@@ -98,6 +98,8 @@ def check_X_y_domain(
     if np.isscalar(sample_domain):
         sample_domain = sample_domain*np.ones_like(y)
 
+    sample_domain = np.asarray(sample_domain)
+    check_consistent_length(X, sample_domain)
     source_idx = extract_source_indices(sample_domain)
 
     # xxx(okachaiev): this needs to be re-written to accommodate for a
@@ -195,6 +197,7 @@ def check_X_domain(
     if np.isscalar(sample_domain):
         sample_domain = sample_domain * np.ones(X.shape[0], dtype=np.int32)
 
+    sample_domain = np.asarray(sample_domain)
     source_idx = extract_source_indices(sample_domain)
     check_consistent_length(X, sample_domain)
 
-- 
2.43.0


From 6c2c58b40944c96f7e38be31602bf8c8eb2e2d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:55 +0000
Subject: [PATCH 03/97] fix: source_target_merge keeps values that the source
 dtype cannot represent

---
 skada/utils.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/skada/utils.py b/skada/utils.py
index dfb2f45..d9cb709 100644
--- a/skada/utils.py
+++ b/skada/utils.py
@@ -529,9 +529,12 @@ def source_target_merge(
                 elif y_type == Y_Type.CONTINUOUS:
                     default_masked_label = _DEFAULT_MASKED_TARGET_REGRESSION_LABEL
 
-                arrays[index_is_empty] = (
-                    default_masked_label *
-                    np.ones(shape_to_complete)
+                arrays[index_is_empty] = np.full(
+                    shape_to_complete,
+                    default_masked_label,
+                    dtype=np.result_type(
+                        arrays[pair_index].dtype, type(default_masked_label)
+                    ),
                 )
 
         # Check consistent number of samples in source-target arrays
@@ -584,9 +587,7 @@ def _merge_arrays(
         (n_samples_source + n_samples_target, n_features)
     """
     if array_source.shape[0] > 0 and array_target.shape[0] > 0:
-        output = np.zeros_like(
-            np.concatenate((array_source, array_target)), dtype=array_source.dtype
-        )
+        output = np.zeros_like(np.concatenate((array_source, array_target)))
         output[sample_domain >= 0] = array_source
         output[sample_domain < 0] = array_target
 
-- 
2.43.0


From 852cc9d9147ca34b674a8d024be49a1f09ec74e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:54 +0000
Subject: [PATCH 04/97] fix: DomainAwareDataset accepts the documented dict and
 unlabeled domains

---
 skada/datasets/_base.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/skada/datasets/_base.py b/skada/datasets/_base.py
index 20974c5..b936c2c 100644
--- a/skada/datasets/_base.py
+++ b/skada/datasets/_base.py
@@ -110,11 +110,18 @@ class DomainAwareDataset:
         self.domains_ = []
         self.domain_names_ = {}
         # xxx(okachaiev): there should be a simpler way for adding those
+        if isinstance(domains, dict):
+            domains = [
+                (*d, name) if len(d) == 2 else (*d, None, name)
+                for name, d in domains.items()
+            ]
         if domains is not None:
             for d in domains:
-                if len(d) == 2:
+                y, domain_name = None, None
+                if len(d) == 1:
+                    (X,) = d
+                elif len(d) == 2:
                     X, y = d
-                    domain_name = None
                 elif len(d) == 3:
                     X, y, domain_name = d
                 self.add_domain(X, y=y, domain_name=domain_name)
-- 
2.43.0


From e5794c916eb28c63a002142eaede74dc45a11bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:54 +0000
Subject: [PATCH 05/97] fix: DomainAwareDataset.merge handles domains without
 labels

---
 skada/datasets/_base.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/skada/datasets/_base.py b/skada/datasets/_base.py
index b936c2c..e482f6b 100644
--- a/skada/datasets/_base.py
+++ b/skada/datasets/_base.py
@@ -176,10 +176,8 @@ class DomainAwareDataset:
             The updated dataset.
         """
         for domain_name in dataset.domain_names_:
-            # xxx(okachaiev): this needs to be more flexible
-            # as it should be possible to pass only X with y=None
-            # i guess best way of doing so is to change 'add_domain' API
-            X, y = dataset.get_domain(domain_name)
+            X, *y = dataset.get_domain(domain_name)
+            y = y[0] if y else None
             if names_mapping is not None:
                 domain_name = names_mapping.get(domain_name, domain_name)
             self.add_domain(X, y, domain_name)
-- 
2.43.0


From 51abeed523677ee7f47f0a63bc06b60ef96f69b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:54 +0000
Subject: [PATCH 06/97] fix: an autogenerated domain name never replaces an
 existing domain

---
 skada/datasets/_base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skada/datasets/_base.py b/skada/datasets/_base.py
index e482f6b..e6b0b02 100644
--- a/skada/datasets/_base.py
+++ b/skada/datasets/_base.py
@@ -151,7 +151,10 @@ class DomainAwareDataset:
             # xxx(okachaiev): ValueError would be more appropriate
             assert domain_name not in self.domain_names_
         else:
-            domain_name = f"_{len(self.domain_names_)+1}"
+            name_id = len(self.domain_names_) + 1
+            while f"_{name_id}" in self.domain_names_:
+                name_id += 1
+            domain_name = f"_{name_id}"
         domain_id = len(self.domains_) + 1
         self.domains_.append((X, y) if y is not None else (X,))
         self.domain_names_[domain_name] = domain_id
-- 
2.43.0


From 4957cabfa0c8afb9783ec8ce9e9841121c5c64cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:54 +0000
Subject: [PATCH 07/97] fix: pack_lodo honours return_type

---
 skada/datasets/_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skada/datasets/_base.py b/skada/datasets/_base.py
index e6b0b02..f77fae5 100644
--- a/skada/datasets/_base.py
+++ b/skada/datasets/_base.py
@@ -508,7 +508,7 @@ class DomainAwareDataset:
 
     def pack_lodo(
         self,
-        return_X_y: bool = True,
+        return_X_y: Optional[bool] = None,
         return_type: Literal[
             "auto", "array", "tensor", "DeepDADataset", "Bunch"
         ] = "auto",
@@ -524,7 +524,7 @@ class DomainAwareDataset:
 
         Parameters
         ----------
-        return_X_y : bool, default=True
+        return_X_y : bool, default=None
             [DEPRECATED] When set to True, returns a tuple (X, y, sample_domain).
             Otherwise returns :class:`~sklearn.utils.Bunch` object with the structure
             described below.
-- 
2.43.0


From e669fe4e204b36f03acd027ceb4a006c66297f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:54 +0000
Subject: [PATCH 08/97] fix: numpy domains can be packed as tensors

---
 skada/datasets/_base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/skada/datasets/_base.py b/skada/datasets/_base.py
index f77fae5..d44bec1 100644
--- a/skada/datasets/_base.py
+++ b/skada/datasets/_base.py
@@ -377,8 +377,8 @@ class DomainAwareDataset:
                     "torch is required to return data as tensors. "
                     "Please install torch to use this feature."
                 )
-            Xs = torch.cat(Xs, dim=0)
-            ys = torch.cat(ys, dim=0)
+            Xs = torch.cat([torch.as_tensor(X) for X in Xs], dim=0)
+            ys = torch.cat([torch.as_tensor(y, device=Xs.device) for y in ys], dim=0)
             sample_domains = torch.cat(
                 [
                     torch.as_tensor(sample_domain, device=Xs.device)
@@ -393,8 +393,8 @@ class DomainAwareDataset:
                     "torch and skorch are required to return data as DeepDADataset. "
                     "Please install them to use this feature."
                 )
-            Xs = torch.cat(Xs, dim=0)
-            ys = torch.cat(ys, dim=0)
+            Xs = torch.cat([torch.as_tensor(X) for X in Xs], dim=0)
+            ys = torch.cat([torch.as_tensor(y, device=Xs.device) for y in ys], dim=0)
             sample_domains = torch.cat(
                 [
                     torch.as_tensor(sample_domain, device=Xs.device)
-- 
2.43.0


From dbd6b3c285d333210ce3cba73c46ebcb842c987c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:54 +0000
Subject: [PATCH 09/97] fix: target labels are masked whatever their numeric
 type, tensors included

---
 skada/datasets/_base.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/skada/datasets/_base.py b/skada/datasets/_base.py
index d44bec1..891940e 100644
--- a/skada/datasets/_base.py
+++ b/skada/datasets/_base.py
@@ -336,16 +336,20 @@ class DomainAwareDataset:
             else:
                 raise ValueError("Invalid definition for domain data")
             if mask_target_labels:
+                # labels may be given as a torch tensor
+                y_dtype = np.asarray(y).dtype
                 if mask is not None:
                     y = np.array([mask] * X.shape[0], dtype=dtype)
-                elif y.dtype in (np.int32, np.int64):
-                    y = -np.ones(X.shape[0], dtype=y.dtype)
+                elif y_dtype.kind in "bui":
+                    # an unsigned label type can not hold the mask
+                    dtype = y_dtype if y_dtype.kind == "i" else np.dtype(np.int64)
+                    y = -np.ones(X.shape[0], dtype=dtype)
                     # make sure that the mask is reused on the next iteration
-                    mask, dtype = -1, y.dtype
-                elif y.dtype in (np.float32, np.float64):
-                    y = np.array([np.nan] * X.shape[0], dtype=y.dtype)
+                    mask = -1
+                elif y_dtype.kind == "f":
+                    y = np.array([np.nan] * X.shape[0], dtype=y_dtype)
                     # make sure that the  mask is reused on the next iteration
-                    mask, dtype = np.nan, y.dtype
+                    mask, dtype = np.nan, y_dtype
             # xxx(okachaiev): this is horribly inefficient, rewrite when API is fixed
             Xs.append(X)
             ys.append(y)
-- 
2.43.0


From 3c9372932f0664c82efba43adb44b24542e84911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:54 +0000
Subject: [PATCH 10/97] fix: sample_domain holds one label per sample for
 multi-output y

---
 skada/datasets/_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skada/datasets/_base.py b/skada/datasets/_base.py
index 891940e..891aaaa 100644
--- a/skada/datasets/_base.py
+++ b/skada/datasets/_base.py
@@ -319,7 +319,7 @@ class DomainAwareDataset:
             # xxx(okachaiev): this is horribly inefficient, re-write when API is fixed
             Xs.append(X)
             ys.append(y)
-            sample_domains.append(np.ones_like(y, dtype=int) * domain_id)
+            sample_domains.append(np.ones(X.shape[0], dtype=int) * domain_id)
             domain_labels[domain_name] = domain_id
         # xxx(okachaiev): code duplication, re-write when API is fixed
         dtype = None
@@ -353,7 +353,7 @@ class DomainAwareDataset:
             # xxx(okachaiev): this is horribly inefficient, rewrite when API is fixed
             Xs.append(X)
             ys.append(y)
-            sample_domains.append(-1 * domain_id * np.ones_like(y, dtype=int))
+            sample_domains.append(-1 * domain_id * np.ones(X.shape[0], dtype=int))
             domain_labels[domain_name] = -1 * domain_id
 
         # xxx(okachaiev): so far this only works if source and target has the same size
-- 
2.43.0


From 78865fc2021bc50515bae7825e667502424815cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:43 +0000
Subject: [PATCH 11/97] fix: fitting a pipeline does not overwrite the caller's
 labels

---
 skada/base.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/skada/base.py b/skada/base.py
index b5d1f7e..7c5d6a3 100644
--- a/skada/base.py
+++ b/skada/base.py
@@ -349,6 +349,11 @@ class BaseSelector(BaseEstimator, _DAMetadataRequesterMixin):
 
     def _auto_mask_target_labels(self, y, routed_params):
         if y is not None and routed_params.get('sample_domain') is not None:
+            # the labels given by the caller should stay as they are
+            y = np.array(y)
+            if y.dtype.kind in 'bu':
+                # the dtype has to represent the masked label
+                y = y.astype(np.int64)
             y_type = _find_y_type(y)
             source_idx = extract_source_indices(routed_params['sample_domain'])
             if y_type == Y_Type.DISCRETE:
@@ -565,6 +570,8 @@ class _BaseSelectDomain(Shared):
         X, y, params = X_container.merge_out(y, **params)
         filter_masks = self._select_indices(params.get('sample_domain'))
         X_input, y, params = _apply_domain_masks(X, y, params, masks=filter_masks)
+        if self.mask_target_labels:
+            y = self._auto_mask_target_labels(y, params)
         return getattr(super(), method_name)(X_container.merge_in((X_input, y, params)), y, **params)
 
     def fit(self, X, y=None, **params):
-- 
2.43.0


From fe85d6849215a852375d87f5befd53e9c70efac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:43 +0000
Subject: [PATCH 12/97] fix: cloning a selector keeps mask_target_labels

---
 skada/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/skada/base.py b/skada/base.py
index 7c5d6a3..ce51e71 100644
--- a/skada/base.py
+++ b/skada/base.py
@@ -255,9 +255,10 @@ class BaseSelector(BaseEstimator, _DAMetadataRequesterMixin):
         """
         params = self.base_estimator.get_params(deep=deep)
         params['base_estimator'] = self.base_estimator
+        params['mask_target_labels'] = self.mask_target_labels
         return params
 
-    def set_params(self, base_estimator=None, **kwargs):
+    def set_params(self, base_estimator=None, mask_target_labels=None, **kwargs):
         """Set the parameters of this estimator.
 
         Valid parameter keys can be listed with ``get_params()``. Note that
@@ -276,6 +277,8 @@ class BaseSelector(BaseEstimator, _DAMetadataRequesterMixin):
         """
         if base_estimator is not None:
             self.base_estimator = base_estimator
+        if mask_target_labels is not None:
+            self.mask_target_labels = mask_target_labels
         self.base_estimator.set_params(**kwargs)
         return self
 
@@ -621,6 +624,7 @@ class SelectSourceTarget(BaseSelector):
         
         self.source_estimator = source_estimator
         self.target_estimator = target_estimator
+        self.mask_target_labels = mask_target_labels
         # xxx(okachaiev): the fact that we need to put those variables
         # here means that the choice of the base class is suboptimal
         self._is_final = False
-- 
2.43.0


From 6210d99167a8d8a62c13233b210655dca63d0977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 13/97] fix: a fitted selector answers which methods it has
 instead of raising KeyError

---
 skada/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/base.py b/skada/base.py
index ce51e71..2d0942b 100644
--- a/skada/base.py
+++ b/skada/base.py
@@ -48,7 +48,7 @@ def _estimator_has(attr, base_attr_name='base_estimator'):
     # xxx(okachaiev): there should be a simple way to access selector base estimator
     def has_estimator_selector(estimator) -> bool:
         return hasattr(estimator, "estimators_") and hasattr(
-            estimator.estimators_[0],
+            next(iter(estimator.estimators_.values())),
             attr
         )
 
-- 
2.43.0


From 2fe77d9feab76bc39628e0c121836e845ef29408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 14/97] fix: PerDomain keeps domain labels aligned with rows
 when masked rows are removed

---
 skada/base.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/skada/base.py b/skada/base.py
index 2d0942b..5e2344f 100644
--- a/skada/base.py
+++ b/skada/base.py
@@ -480,15 +480,18 @@ class PerDomain(BaseSelector):
         routing = get_routing_for_object(self.base_estimator)
         routing_request = getattr(routing, method_name)
         routed_params = self._prepare_routing(routing_request, X_container, params)
+        # domain labels should stay aligned with the rows that are left
+        sample_domain, _, _ = self._remove_masked(sample_domain, y, routed_params)
         X, y, routed_params = self._remove_masked(X, y, routed_params)
         estimators, outputs = {}, {}
         for domain_label in np.unique(sample_domain):
             idx, = np.where(sample_domain == domain_label)
+            X_domain, y_domain, domain_params = _apply_domain_masks(
+                X, y, routed_params, masks=sample_domain == domain_label
+            )
             estimator = clone(self.base_estimator)
             outputs[domain_label] = (idx, getattr(estimator, method_name)(
-                X[idx],
-                y[idx] if y is not None else None,
-                **{k: v[idx] for k, v in routed_params.items()}
+                X_domain, y_domain, **domain_params
             ))
             estimators[domain_label] = estimator
         self.estimators_ = estimators
@@ -530,9 +533,9 @@ class PerDomain(BaseSelector):
                     "fitted estimators."
                 )
             idx, = np.where(sample_domain == domain_label)
-            X_domain = X[idx]
-            y_domain = y[idx] if y is not None else None
-            domain_params = {k: v[idx] for k, v in routed_params.items()}
+            X_domain, y_domain, domain_params = _apply_domain_masks(
+                X, y, routed_params, masks=sample_domain == domain_label
+            )
             if y is None:
                 domain_output = method(X_domain, **domain_params)
             else:
-- 
2.43.0


From a58f33023f3379b0931913ef84a9322a2dc6d68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 15/97] fix: PerDomain and SelectSourceTarget accept
 transformers without fit_transform

---
 skada/base.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/skada/base.py b/skada/base.py
index 5e2344f..0e61f6a 100644
--- a/skada/base.py
+++ b/skada/base.py
@@ -505,14 +505,10 @@ class PerDomain(BaseSelector):
             domain_outputs = self._fit('fit_transform', X_container, y=y, **params)
             output = _merge_domain_outputs(len(X_container), domain_outputs, allow_containers=True)
         else:
-            if self.mask_target_labels:
-                y = self._auto_mask_target_labels(y, params)
-
-            self._fit(X_container, y, **params)
+            self._fit('fit', X_container, y, **params)
             X, y, method_params = X_container.merge_out(y, **params)
-            transform_params = _route_params(self.routing_.transform, method_params, self)
             # the output of the transform call is already merged into a single ndarray
-            output = self.transform(X, **transform_params)
+            output = self.transform(X, **method_params)
         return X_container.merge_in(output)
 
     def _route_to_estimator(self, method_name, X, y=None, **params):
@@ -741,14 +737,16 @@ class SelectSourceTarget(BaseSelector):
     @available_if(_estimator_has('transform', base_attr_name='source_estimator'))
     def fit_transform(self, X, y=None, **params):
         X_container = MetadataContainer.from_input(X)
-        if hasattr(self.source_estimator, "fit_transform"):
+        if hasattr(self.source_estimator, "fit_transform") and (
+            self.target_estimator is None
+            or hasattr(self.target_estimator, "fit_transform")
+        ):
             domain_outputs = self._fit('fit_transform', X_container, y=y, **params)
             output = _merge_domain_outputs(len(X_container), domain_outputs, allow_containers=True)
         else:
             self.fit(X_container, y, **params)
             X, y, method_params = X_container.merge_out(y, **params)
-            transform_params = _route_params(self.routing_.transform, method_params, self)
-            output = self.transform(X, **transform_params)
+            output = self.transform(X, **method_params)
         return X_container.merge_in(output)
 
     def _route_to_estimator(self, method_name, X, y=None, **params):
-- 
2.43.0


From 2bc570f906161a8b76399b70999eecdb7ec6891e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 16/97] fix: SelectSourceTarget exposes predict of its
 estimators

---
 skada/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skada/base.py b/skada/base.py
index 0e61f6a..2a50c44 100644
--- a/skada/base.py
+++ b/skada/base.py
@@ -779,6 +779,10 @@ class SelectSourceTarget(BaseSelector):
     def transform(self, X, **params):
         return self._route_to_estimator('transform', X, **params)
 
+    @available_if(_estimator_has('predict', base_attr_name='source_estimator'))
+    def predict(self, X, **params):
+        return self._route_to_estimator('predict', X, **params)
+
     # xxx(okachaiev): i guess this should return 'True' only if both
     # estimators have the same method. though practical advantage is,
     # surely, questionable
-- 
2.43.0


From 941b842585a572117c6d97322632c3d3fedd0824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 17/97] fix: SelectSourceTarget reports metadata its estimators
 do not accept

---
 skada/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/base.py b/skada/base.py
index 2a50c44..7c20975 100644
--- a/skada/base.py
+++ b/skada/base.py
@@ -724,7 +724,7 @@ class SelectSourceTarget(BaseSelector):
                 )
             X_masked, y_masked, params_masked = _apply_domain_masks(X, y, params, masks=domain_masks)
             routing = getattr(get_routing_for_object(base_estimator), method_name)
-            routed_params = self._prepare_routing(routing, X_masked, params_masked)
+            routed_params = self._prepare_routing(routing, X_container, params_masked)
             X_masked, y_masked, routed_params = self._remove_masked(X_masked, y_masked, routed_params)
             estimator = clone(base_estimator)
             estimator_method = getattr(estimator, method_name)
-- 
2.43.0


From 3b7f939a2b4dc3632ac9e1d9c5a2c3ebb94b509a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 18/97] fix: an unknown default_selector raises the intended
 ValueError

---
 skada/_pipeline.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skada/_pipeline.py b/skada/_pipeline.py
index 72305ff..efd60d1 100644
--- a/skada/_pipeline.py
+++ b/skada/_pipeline.py
@@ -126,8 +126,8 @@ def _wrap_with_selector(
             selector_cls = _DEFAULT_SELECTORS.get(selector)
             if selector_cls is None:
                 raise ValueError(
-                    f"Unsupported `default_selector` name: {selector}."
-                    f"Use one of {_DEFAULT_SELECTORS.keys().join(', ')}"
+                    f"Unsupported `default_selector` name: {selector}. "
+                    f"Use one of {', '.join(_DEFAULT_SELECTORS)}"
                 )
             estimator = selector_cls(estimator, mask_target_labels=mask_target_labels)
         else:
-- 
2.43.0


From 17d2fa61f4b1287a70d12ce4ecb0a161719769c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 19/97] fix: merging domain outputs keeps values that the first
 domain's dtype cannot represent

---
 skada/_utils.py | 39 ++++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/skada/_utils.py b/skada/_utils.py
index 5c4178b..b104a43 100644
--- a/skada/_utils.py
+++ b/skada/_utils.py
@@ -187,31 +187,32 @@ def _merge_domain_outputs(n_samples, domain_outputs, *, allow_containers=False):
                 domain_X, domain_y, domain_params = domain_output
             else:
                 raise ValueError("Invalid container structure")
-            if X_output is None:
-                X_output = np.zeros(
-                    (n_samples, *domain_X.shape[1:]), dtype=domain_X.dtype
-                )
-            if domain_y is not None and y_output is None:
-                y_output = np.zeros(
-                    (n_samples, *domain_y.shape[1:]), dtype=domain_y.dtype
-                )
-            X_output[idx] = domain_X
+            X_output = _merge_rows(X_output, n_samples, idx, domain_X)
             if domain_y is not None:
-                y_output[idx] = domain_y
+                y_output = _merge_rows(y_output, n_samples, idx, domain_y)
             for k, v in domain_params.items():
-                if k not in params_output:
-                    params_output[k] = np.zeros(
-                        (n_samples, *v.shape[1:]), dtype=v.dtype
-                    )
-                params_output[k][idx] = v
+                params_output[k] = _merge_rows(
+                    params_output.get(k), n_samples, idx, v
+                )
         output = X_output, y_output, params_output
     else:
         assert isinstance(first_output, np.ndarray)
-        output = np.zeros(
-            (n_samples, *first_output.shape[1:]), dtype=first_output.dtype
-        )
+        output = None
         for idx, domain_output in domain_outputs.values():
-            output[idx] = domain_output
+            output = _merge_rows(output, n_samples, idx, domain_output)
+    return output
+
+
+def _merge_rows(output, n_samples, idx, values):
+    """Writes `values` into the rows `idx` of `output`, creating the array for
+    the first domain and promoting its type when another domain needs it.
+    """
+    if output is None:
+        output = np.zeros((n_samples, *values.shape[1:]), dtype=values.dtype)
+    dtype = np.result_type(output.dtype, values.dtype)
+    if dtype != output.dtype:
+        output = output.astype(dtype)
+    output[idx] = values
     return output
 
 
-- 
2.43.0


From d5d6e2565a90cd0d64fdb6bc3a12a6c1e03f02c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:18 +0000
Subject: [PATCH 20/97] fix: DiscriminatorReweight weights are target over
 source density ratios

---
 skada/_reweight.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skada/_reweight.py b/skada/_reweight.py
index 8395d76..b544a7a 100644
--- a/skada/_reweight.py
+++ b/skada/_reweight.py
@@ -356,8 +356,9 @@ class DiscriminatorReweightAdapter(BaseReweightAdapter):
         # as we only use this array for indexing
         (source_idx,) = np.where(source_idx)
         probas = self.domain_classifier_.predict_proba(X[source_idx])[:, 1]
-        probas = np.clip(probas, EPS, 1.0)
-        source_weights = (1 - probas) / probas
+        # the class 1 of the domain classifier is the target
+        probas = np.clip(probas, 0.0, 1.0 - EPS)
+        source_weights = probas / (1 - probas)
         source_weights /= source_weights.mean()
         weights = np.zeros(X.shape[0], dtype=source_weights.dtype)
         weights[source_idx] = source_weights
-- 
2.43.0


From 8a3113266ce9d273a5a3c6ef77b790d8cecb6d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:18 +0000
Subject: [PATCH 21/97] fix: KLIEPReweightAdapter.fit leaves its gamma
 parameter as given

---
 skada/_reweight.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skada/_reweight.py b/skada/_reweight.py
index b544a7a..d471288 100644
--- a/skada/_reweight.py
+++ b/skada/_reweight.py
@@ -484,10 +484,10 @@ class KLIEPReweightAdapter(BaseReweightAdapter):
         )
         X_source, X_target = source_target_split(X, sample_domain=sample_domain)
 
-        if isinstance(self.gamma, list):
-            self.gamma = [self._auto_scale_gammas(gamma, X) for gamma in self.gamma]
+        if isinstance(self.gamma, (list, tuple, np.ndarray)):
+            gammas = [self._auto_scale_gammas(gamma, X) for gamma in self.gamma]
             self.best_gamma_ = self._likelihood_cross_validation(
-                self.gamma, X_source, X_target
+                gammas, X_source, X_target
             )
         else:
             self.best_gamma_ = self._auto_scale_gammas(self.gamma, X)
-- 
2.43.0


From 03712c627b92fd3e299ad23637d619a977af5730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:38 +0000
Subject: [PATCH 22/97] fix: NearestNeighborReweight counts the neighbors of
 the target samples

---
 skada/_reweight.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skada/_reweight.py b/skada/_reweight.py
index d471288..77c3022 100644
--- a/skada/_reweight.py
+++ b/skada/_reweight.py
@@ -814,8 +814,9 @@ class NearestNeighborReweightAdapter(BaseReweightAdapter):
         else:
             estimator = clone(self.base_estimator)
             estimator.fit(X[source_idx], indices_source)
-        weights = np.ones(X.shape[0])
-        weights[source_idx] = self._get_weights(X[source_idx], X[~source_idx])
+        X_source, X_target = source_target_split(X, sample_domain=sample_domain)
+        weights = np.zeros(X.shape[0])
+        weights[source_idx] = self._get_weights(X_source, X_target)
         return weights
 
 
-- 
2.43.0


From c3d6e1c818c0006452045ddf9c6fee8df3eb4964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:38 +0000
Subject: [PATCH 23/97] fix: NearestNeighborReweightAdapter honours parameters
 changed by set_params

---
 skada/_reweight.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/skada/_reweight.py b/skada/_reweight.py
index 77c3022..6487062 100644
--- a/skada/_reweight.py
+++ b/skada/_reweight.py
@@ -754,7 +754,11 @@ class NearestNeighborReweightAdapter(BaseReweightAdapter):
         self.metric_params = metric_params
         self.n_jobs = n_jobs
         self.laplace_smoothing = laplace_smoothing
-        self.base_estimator = KNeighborsClassifier(
+
+    @property
+    def base_estimator(self):
+        """The nearest neighbors classifier for the current parameters."""
+        return KNeighborsClassifier(
             n_neighbors=self.n_neighbors,
             weights=self.weights,
             algorithm=self.algorithm,
-- 
2.43.0


From ecf359ea3b5307a43c15c37f836b28ee860770ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 24/97] fix: the frank-wolfe solver keeps x >= 0 when the lower
 bound is negative

---
 skada/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/utils.py b/skada/utils.py
index d9cb709..b7dad93 100644
--- a/skada/utils.py
+++ b/skada/utils.py
@@ -908,7 +908,7 @@ def _qp_solve_frank_wolfe(Q, c=None, A=None, b=None,
                         x0, max_iter)
     elif A is not None:
         if A.shape[0] > 1:
-            x = frank_wolfe(jac, A[0], -b[1], b[0],
+            x = frank_wolfe(jac, A[0], max(-b[1], 0.), b[0],
                             x0, max_iter)
         else:
             x = frank_wolfe(jac, A[0], b[0], b[0],
-- 
2.43.0


From 99403dfc2dece330aa3daa1fd91b2e6e975217f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:28 +0000
Subject: [PATCH 25/97] fix: TransferComponentAnalysis returns transformed rows
 in the order of X

---
 skada/_subspace.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/skada/_subspace.py b/skada/_subspace.py
index 751195f..3fe7a7b 100644
--- a/skada/_subspace.py
+++ b/skada/_subspace.py
@@ -362,12 +362,15 @@ class TransferComponentAnalysisAdapter(BaseAdapter):
         if np.array_equal(X_source, self.X_source_) and np.array_equal(
             X_target, self.X_target_
         ):
-            X_ = (self.K_ @ self.eigvects_)[: X.shape[0]]
+            X_ = self.K_ @ self.eigvects_
+            ns = X_source.shape[0]
+            # K_ stacks source and target, the output follows the rows of X
+            X_, _ = source_target_merge(X_[:ns], X_[ns:], sample_domain=sample_domain)
         else:
             Ks = pairwise_kernels(X, self.X_source_, metric=self.kernel)
             Kt = pairwise_kernels(X, self.X_target_, metric=self.kernel)
             K = np.concatenate((Ks, Kt), axis=1)
-            X_ = (K @ self.eigvects_)[: X.shape[0]]
+            X_ = K @ self.eigvects_
         return X_
 
 
-- 
2.43.0


From c25e3b5ed106d36299334bacf45caedb23b1ae3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:28 +0000
Subject: [PATCH 26/97] fix: TransferJointMatching returns transformed rows in
 the order of X

---
 skada/_subspace.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skada/_subspace.py b/skada/_subspace.py
index 3fe7a7b..5f92af7 100644
--- a/skada/_subspace.py
+++ b/skada/_subspace.py
@@ -527,6 +527,9 @@ class TransferJointMatchingAdapter(BaseAdapter):
         ):
             K = self._get_kernel_matrix(X_source, X_target)
             X_ = K @ self.A_
+            ns = X_source.shape[0]
+            # K stacks source and target, the output follows the rows of X
+            X_, _ = source_target_merge(X_[:ns], X_[ns:], sample_domain=sample_domain)
         else:
             Ks = pairwise_kernels(X, self.X_source_, metric=self.kernel)
             Kt = pairwise_kernels(X, self.X_target_, metric=self.kernel)
-- 
2.43.0


From 2cfdfbdde0519c6822cf5cde2e350f693624bbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:28 +0000
Subject: [PATCH 27/97] fix: TransferJointMatching regularizes the rows of the
 source samples

---
 skada/_subspace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skada/_subspace.py b/skada/_subspace.py
index 5f92af7..e0a6059 100644
--- a/skada/_subspace.py
+++ b/skada/_subspace.py
@@ -21,7 +21,6 @@ from ._pipeline import make_da_pipeline
 from .base import BaseAdapter
 from .utils import (
     check_X_domain,
-    extract_source_indices,
     source_target_merge,
     source_target_split,
     torch_minimize,
@@ -584,7 +583,8 @@ class TransferJointMatchingAdapter(BaseAdapter):
         self.X_target_ = X_target
 
         n = X.shape[0]
-        source_mask = extract_source_indices(sample_domain)
+        # the kernel matrix stacks source and target samples
+        source_mask = np.arange(n) < X_source.shape[0]
 
         H = np.identity(n) - 1 / n * np.ones((n, n))
         K = self._get_kernel_matrix(X_source, X_target)
-- 
2.43.0


From 79244deae327e33a6e0ed0e1893d5b0281071988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:28 +0000
Subject: [PATCH 28/97] fix: TransferJointMatching iterates until the loss
 converges

---
 skada/_subspace.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/skada/_subspace.py b/skada/_subspace.py
index e0a6059..258109d 100644
--- a/skada/_subspace.py
+++ b/skada/_subspace.py
@@ -593,7 +593,7 @@ class TransferJointMatchingAdapter(BaseAdapter):
         G = np.identity(n)
 
         EPS_eigval = 1e-10
-        last_loss = -2 * self.tol
+        last_loss = None
         for i in range(self.max_iter):
             # update A
             B = K @ M @ K.T + self.tradeoff * G
@@ -636,10 +636,11 @@ class TransferJointMatchingAdapter(BaseAdapter):
                 print(f"Constraint satisfaction: {cond}, dist={dist:.3e}")
                 print(f"Error of generalized eigendecomposition: {error_eigv:.3e}")
 
-            if last_loss == 0 or np.abs(last_loss - loss_total) / last_loss < self.tol:
+            if last_loss is not None and (
+                np.abs(last_loss - loss_total) <= self.tol * np.abs(last_loss)
+            ):
                 break
-            else:
-                last_loss = loss_total
+            last_loss = loss_total
 
         self.A_ = A
 
-- 
2.43.0


From 3e8cbbe6bfa1ed8084ef14e6c206839346142da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:28 +0000
Subject: [PATCH 29/97] fix: TransferComponentAnalysis solves its generalized
 eigenvalue problem

---
 skada/_subspace.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/skada/_subspace.py b/skada/_subspace.py
index 258109d..cf25ef8 100644
--- a/skada/_subspace.py
+++ b/skada/_subspace.py
@@ -297,9 +297,8 @@ class TransferComponentAnalysisAdapter(BaseAdapter):
 
         A = np.eye(ns + nt) + self.mu * K @ L @ K
         B = K @ H @ K
-        solution = np.linalg.solve(A, B)
-
-        eigvals, eigvects = np.linalg.eigh(solution)
+        # leading eigenvectors of inv(A) @ B, which is not symmetric
+        eigvals, eigvects = scipy.linalg.eigh(B, A)
 
         if self.n_components is None:
             n_components = min(X.shape[0], X.shape[1])
-- 
2.43.0


From f937c74f3b50c7ea0e657b6eeb87b9ccd2fe8e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:28 +0000
Subject: [PATCH 30/97] fix: the default n_components of SubspaceAlignment
 suits both domains

---
 skada/_subspace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/_subspace.py b/skada/_subspace.py
index cf25ef8..ca33a3c 100644
--- a/skada/_subspace.py
+++ b/skada/_subspace.py
@@ -92,7 +92,7 @@ class SubspaceAlignmentAdapter(BaseAdapter):
         X_source, X_target = source_target_split(X, sample_domain=sample_domain)
 
         if self.n_components is None:
-            n_components = min(X.shape[0], X.shape[1])
+            n_components = min(X_source.shape[0], X_target.shape[0], X.shape[1])
         else:
             n_components = self.n_components
         self.random_state_ = check_random_state(self.random_state)
-- 
2.43.0


From 4805a6b06deebd2847e298e0ebda92136de8515d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:27 +0000
Subject: [PATCH 31/97] fix: the flda objective of TransferSubspaceLearning
 separates the classes

---
 skada/_subspace.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/skada/_subspace.py b/skada/_subspace.py
index ca33a3c..f8af2ba 100644
--- a/skada/_subspace.py
+++ b/skada/_subspace.py
@@ -822,15 +822,14 @@ class TransferSubspaceLearningAdapter(BaseAdapter):
             cov = self._torch_cov(X_source)
             loss = -torch.trace(W.T @ cov @ W)
         elif base_method == "flda":
-            classes = torch.unique(y_source)
+            # within-class scatter over total scatter
+            classes, y_index = torch.unique(y_source, return_inverse=True)
             classes_means = torch.stack(
                 [torch.mean(X_source[y_source == c], dim=0) for c in classes]
             )
-            classes_n_samples = torch.stack([torch.sum(y_source == c) for c in classes])
-            classes_means = classes_means * torch.sqrt(classes_n_samples).reshape(-1, 1)
-            S_W = self._torch_cov(classes_means)
-            S_B = self._torch_cov(X_source)
-            loss = torch.trace(W.T @ S_W @ W) / torch.trace(W.T @ S_B @ W)
+            S_W = self._torch_cov(X_source - classes_means[y_index])
+            S_T = self._torch_cov(X_source)
+            loss = torch.trace(W.T @ S_W @ W) / torch.trace(W.T @ S_T @ W)
         elif base_method == "lpp":
             # E is the Gaussian kernel if (y_source)_i == (y_source)_j and 0 otherwise
             E = torch.exp(-torch.cdist(X_source, X_source) / self.length_scale)
-- 
2.43.0


From 1ec20fe08689fe9f4198928f1b397032886c9f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:56 +0000
Subject: [PATCH 32/97] fix: the binary hinge cost of JDOT depends on the label

---
 skada/_ot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skada/_ot.py b/skada/_ot.py
index cec768d..c44d3ff 100644
--- a/skada/_ot.py
+++ b/skada/_ot.py
@@ -73,7 +73,7 @@ def get_jdot_class_cost_matrix(Ys, Xt, estimator=None, metric="multinomial"):
         if hasattr(estimator, "decision_function"):
             Yt_pred = estimator.decision_function(Xt)
             if len(Yt_pred.shape) == 1:
-                Yt_pred = np.repeat(Yt_pred.reshape(-1, 1), 2, axis=1)
+                Yt_pred = np.stack([-Yt_pred, Yt_pred], axis=1)
             M = np.maximum(0, 1 - Ys[:, None, :] * Yt_pred[None, :, :]).sum(2)
         else:
             raise ValueError(
@@ -184,7 +184,7 @@ def get_tgt_loss_jdot_class(Xh, yh, wh, estimator, metric="multinomial"):
         if hasattr(estimator, "decision_function"):
             Yh_pred = estimator.decision_function(Xh)
             if len(Yh_pred.shape) == 1:  # handle binary classification
-                Yh_pred = np.repeat(Yh_pred.reshape(-1, 1), 2, axis=1)
+                Yh_pred = np.stack([-Yh_pred, Yh_pred], axis=1)
             loss = np.sum(np.maximum(0, 1 - yh * Yh_pred), 1).dot(wh)
         else:
             raise ValueError(
-- 
2.43.0


From 5533feb3492738d2c39075f9c6d8c4ae5a48b0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:56 +0000
Subject: [PATCH 33/97] fix: JDOTRegressor.fit and JDOTClassifier.fit return
 self

---
 skada/_ot.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skada/_ot.py b/skada/_ot.py
index c44d3ff..169d320 100644
--- a/skada/_ot.py
+++ b/skada/_ot.py
@@ -591,6 +591,7 @@ class JDOTRegressor(DAEstimator):
         )
 
         self.estimator_, self.lst_loss_ot_, self.lst_loss_tgt_labels_, self.sol_ = res
+        return self
 
     def predict(self, X, sample_domain=None, *, sample_weight=None):
         """Predict using the model"""
@@ -721,6 +722,7 @@ class JDOTClassifier(DAEstimator):
         )
 
         self.estimator_, self.lst_loss_ot_, self.lst_loss_tgt_labels_, self.sol_ = res
+        return self
 
     def predict(self, X, sample_domain=None, *, sample_weight=None, allow_source=False):
         """Predict using the model"""
-- 
2.43.0


From 1f80d467bd340aa913d627eab8ae3443cf80db38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:56 +0000
Subject: [PATCH 34/97] fix: JDOTRegressor accepts allow_source as the other
 estimators do

---
 skada/_ot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skada/_ot.py b/skada/_ot.py
index 169d320..6a84e91 100644
--- a/skada/_ot.py
+++ b/skada/_ot.py
@@ -593,7 +593,7 @@ class JDOTRegressor(DAEstimator):
         self.estimator_, self.lst_loss_ot_, self.lst_loss_tgt_labels_, self.sol_ = res
         return self
 
-    def predict(self, X, sample_domain=None, *, sample_weight=None):
+    def predict(self, X, sample_domain=None, *, sample_weight=None, allow_source=False):
         """Predict using the model"""
         check_is_fitted(self)
         if sample_domain is not None and np.any(sample_domain >= 0):
@@ -603,7 +603,7 @@ class JDOTRegressor(DAEstimator):
             )
         return self.estimator_.predict(X)
 
-    def score(self, X, y, sample_domain=None, *, sample_weight=None):
+    def score(self, X, y, sample_domain=None, *, sample_weight=None, **kwargs):
         """Return the coefficient of determination R^2 of the prediction"""
         check_is_fitted(self)
         if sample_domain is not None and np.any(sample_domain >= 0):
-- 
2.43.0


From d5c19fa0ede2b5875dbfde314266ffd438c67d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:23 +0000
Subject: [PATCH 35/97] fix: JCPOTLabelProp propagates the labels of the
 classes, not their indices

---
 skada/_ot.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skada/_ot.py b/skada/_ot.py
index 6a84e91..2ccfb6d 100644
--- a/skada/_ot.py
+++ b/skada/_ot.py
@@ -955,6 +955,9 @@ class JCPOTLabelPropAdapter(BaseAdapter):
 
         Xs = [X for X, y in sources.values()]
         ys = [y for X, y in sources.values()]
+        # POT works with class indices
+        classes = np.unique(np.concatenate(ys))
+        ys = [np.searchsorted(classes, y) for y in ys]
 
         if len(ys) == 1:
             Xs = Xs * 2
@@ -978,7 +981,7 @@ class JCPOTLabelPropAdapter(BaseAdapter):
 
         self.yh_continuous_ = yh
 
-        yh = np.argmax(yh, axis=1)
+        yh = classes[np.argmax(yh, axis=1)]
 
         yout = -np.ones_like(y)
         yout[sample_domain < 0] = yh
-- 
2.43.0


From 1d5e0a6473f9a001348c418dbf8becea9000c6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:23 +0000
Subject: [PATCH 36/97] fix: JCPOTLabelProp gives each target row its own label
 with several targets

---
 skada/_ot.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/skada/_ot.py b/skada/_ot.py
index 2ccfb6d..8363964 100644
--- a/skada/_ot.py
+++ b/skada/_ot.py
@@ -983,8 +983,12 @@ class JCPOTLabelPropAdapter(BaseAdapter):
 
         yh = classes[np.argmax(yh, axis=1)]
 
+        # Xt stacks the target domains, the output follows the rows of X
         yout = -np.ones_like(y)
-        yout[sample_domain < 0] = yh
+        n = 0
+        for domain, (Xd, _) in targets.items():
+            yout[sample_domain == domain] = yh[n : n + len(Xd)]
+            n += len(Xd)
 
         return X, yout, {}
 
-- 
2.43.0


From b10b80c85201e716215c95ae6feceecfccfdbef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:23 +0000
Subject: [PATCH 37/97] fix: DASVMClassifier leaves base_estimator unfitted and
 predict_proba agrees with predict

---
 skada/_self_labeling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skada/_self_labeling.py b/skada/_self_labeling.py
index 99d6acd..6e6cbed 100644
--- a/skada/_self_labeling.py
+++ b/skada/_self_labeling.py
@@ -169,7 +169,7 @@ class DASVMClassifier(DAEstimator):
 
         X_train = Xs
         y_train = ys
-        new_estimator = self.base_estimator
+        new_estimator = clone(self.base_estimator)
         new_estimator.fit(X_train, y_train)
 
         if self.save_estimators:
@@ -293,7 +293,7 @@ class DASVMClassifier(DAEstimator):
         `predict_proba` method from the estimator we fitted
         """
         check_is_fitted(self)
-        return self.base_estimator.predict_proba(X, **kwargs)
+        return self.base_estimator_.predict_proba(X, **kwargs)
 
     def decision_function(self, X):
         """Return values of the decision function of the
-- 
2.43.0


From ea8ae4e37aa92f413cc78feeeea4b5696954523a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:23 +0000
Subject: [PATCH 38/97] fix: DASVMClassifier adds and discards k points per
 class at each step

---
 skada/_self_labeling.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skada/_self_labeling.py b/skada/_self_labeling.py
index 6e6cbed..c0431b9 100644
--- a/skada/_self_labeling.py
+++ b/skada/_self_labeling.py
@@ -95,6 +95,7 @@ class DASVMClassifier(DAEstimator):
         # depending on the values of d
         condition = np.logical_and(~indices_list, cond_array)
         for _ in range(min(self.k, math.ceil(sum(condition) / self.n_class))):
+            condition = np.logical_and(~indices_list, cond_array)
             idx = np.unique(np.argmax(d[condition], axis=0))
             # We need to get all those indices to be take into account
             # the fact that the some previous points weren't in the list
-- 
2.43.0


From 063e2d86ed3e2b85a1a250ea9ad73f086a5bfb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:23 +0000
Subject: [PATCH 39/97] fix: DASVMClassifier stops when every target sample was
 added

---
 skada/_self_labeling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/_self_labeling.py b/skada/_self_labeling.py
index c0431b9..7e44c05 100644
--- a/skada/_self_labeling.py
+++ b/skada/_self_labeling.py
@@ -132,7 +132,7 @@ class DASVMClassifier(DAEstimator):
             decisions[~indices_list] = df
             decisions = np.array([-decisions + 1, decisions + 1]).T
         else:
-            decisions = np.ones(X.shape[0])
+            decisions = np.ones((X.shape[0], 2))
         return decisions
 
     def fit(self, X, y=None, sample_domain=None):
-- 
2.43.0


From db3648891acd2baaafaada647ab968e6a3935a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:23 +0000
Subject: [PATCH 40/97] fix: GradualEstimator keeps the right number of pairs
 when the plan has ties

---
 skada/_gradual_da.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/skada/_gradual_da.py b/skada/_gradual_da.py
index 81f19be..1fb647d 100644
--- a/skada/_gradual_da.py
+++ b/skada/_gradual_da.py
@@ -149,8 +149,10 @@ class GradualEstimator(DAEstimator):
         # Get the self.alpha * (n + m) largest coefficients of gamma
         self.max_index = int(min(self.alpha * (n + m), gamma.size - 1))
 
-        threshold = np.sort(gamma.flatten())[-self.max_index - 1]
-        return gamma >= threshold
+        largest = np.argsort(gamma, axis=None, kind="stable")[-self.max_index - 1 :]
+        mask_gamma = np.zeros(gamma.shape, dtype=bool)
+        mask_gamma.flat[largest] = True
+        return mask_gamma
 
     def _advanced_cut_off_gamma(self, gamma):
         """Cut off the OT mapping to keep at least one value per row and column."""
-- 
2.43.0


From 29c74635d6fc9bd61659326e8f9f049fecb75919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:23 +0000
Subject: [PATCH 41/97] fix: GradualEstimator.fit leaves base_estimator and
 ot_method as given

---
 skada/_gradual_da.py | 60 ++++++++++++++++++--------------------------
 1 file changed, 24 insertions(+), 36 deletions(-)

diff --git a/skada/_gradual_da.py b/skada/_gradual_da.py
index 1fb647d..8f777a3 100644
--- a/skada/_gradual_da.py
+++ b/skada/_gradual_da.py
@@ -7,6 +7,7 @@ from copy import deepcopy
 
 import numpy as np
 from ot import da
+from sklearn.base import clone
 from sklearn.neural_network import MLPClassifier
 from sklearn.utils.validation import check_is_fitted
 
@@ -108,14 +109,15 @@ class GradualEstimator(DAEstimator):
         target = sample_domain < 0
 
         # Compute the OT mapping between source and target
-        self.ot_method.fit(Xs=X[source], ys=y[source], Xt=X[target], yt=y[target])
-        gamma = self.ot_method.coupling_
+        self.ot_method_ = deepcopy(self.ot_method)
+        self.ot_method_.fit(Xs=X[source], ys=y[source], Xt=X[target], yt=y[target])
+        gamma = self.ot_method_.coupling_
         if self.advanced_ot_plan_sampling:
             mask_gamma = self._advanced_cut_off_gamma(gamma)
         else:
             mask_gamma = self._cut_off_gamma(gamma)
         source = sample_domain >= 0
-        if not self.base_estimator:
+        if self.base_estimator is None:
             default_params = {
                 "hidden_layer_sizes": (100,),
                 "activation": "relu",
@@ -125,20 +127,22 @@ class GradualEstimator(DAEstimator):
                 "learning_rate_init": 0.001,
                 "max_iter": 100,
             }
-            self.base_estimator = MLPClassifier(**default_params)
-        self.base_estimator.fit(X[source], y[source])
+            self.base_estimator_ = MLPClassifier(**default_params)
+        else:
+            self.base_estimator_ = clone(self.base_estimator)
+        self.base_estimator_.fit(X[source], y[source])
         if self.save_estimators:
-            self.estimators_.append(deepcopy(self.base_estimator))
+            self.estimators_.append(deepcopy(self.base_estimator_))
         if self.save_intermediate_data:
             self.intermediate_data_ = []
         for step in range(1, self.n_steps + 1):
             X_step, y_step = self.generate_data_at_step(
                 X, sample_domain, mask_gamma, step
             )
-            self.base_estimator.max_iter += 100
-            self.base_estimator.fit(X_step, y_step)
+            self.base_estimator_.max_iter += 100
+            self.base_estimator_.fit(X_step, y_step)
             if self.save_estimators:
-                self.estimators_.append(deepcopy(self.base_estimator))
+                self.estimators_.append(deepcopy(self.base_estimator_))
             if self.save_intermediate_data:
                 self.intermediate_data_.append((X_step, y_step))
         return self
@@ -200,7 +204,7 @@ class GradualEstimator(DAEstimator):
                 i
             ] / self.n_steps + step * X_target[j] / self.n_steps
 
-        y_step = self.base_estimator.predict(
+        y_step = self.base_estimator_.predict(
             X_step
         )  # Use the classifier to predict labels
         return X_step, y_step
@@ -228,14 +232,10 @@ class GradualEstimator(DAEstimator):
         y_pred : array-like, shape (n_samples,)
             The predicted labels.
         """
-        if self.base_estimator is None:
-            raise ValueError("The model has not been fitted yet.")
-
-        else:
-            check_is_fitted(self.base_estimator)
+        check_is_fitted(self, "base_estimator_")
 
         # Use the last classifier to predict
-        return self.base_estimator.predict(X, **kwargs)
+        return self.base_estimator_.predict(X, **kwargs)
 
     def predict_proba(self, X, **kwargs):
         """Predict class probabilities for the input data.
@@ -250,16 +250,12 @@ class GradualEstimator(DAEstimator):
         y_proba : array-like, shape (n_samples, n_classes)
             The predicted class probabilities.
         """
-        if self.base_estimator is None:
-            raise ValueError("The model has not been fitted yet.")
-
-        else:
-            check_is_fitted(self.base_estimator)
+        check_is_fitted(self, "base_estimator_")
 
-        if not hasattr(self.base_estimator, "predict_proba"):
+        if not hasattr(self.base_estimator_, "predict_proba"):
             raise ValueError("The underlying estimator does not support predict_proba.")
 
-        return self.base_estimator.predict_proba(X, **kwargs)
+        return self.base_estimator_.predict_proba(X, **kwargs)
 
     def predict_log_proba(self, X, **kwargs):
         """Predict class log-probabilities for the input data.
@@ -274,18 +270,14 @@ class GradualEstimator(DAEstimator):
         y_log_proba : array-like, shape (n_samples, n_classes)
             The predicted class log-probabilities.
         """
-        if self.base_estimator is None:
-            raise ValueError("The model has not been fitted yet.")
-
-        else:
-            check_is_fitted(self.base_estimator)
+        check_is_fitted(self, "base_estimator_")
 
-        if not hasattr(self.base_estimator, "predict_log_proba"):
+        if not hasattr(self.base_estimator_, "predict_log_proba"):
             raise ValueError(
                 "The underlying estimator does not support predict_log_proba."
             )
 
-        return self.base_estimator.predict_log_proba(X, **kwargs)
+        return self.base_estimator_.predict_log_proba(X, **kwargs)
 
     def score(self, X, y):
         """Compute the accuracy of the model on the given data.
@@ -302,10 +294,6 @@ class GradualEstimator(DAEstimator):
         score : float
             The accuracy of the model.
         """
-        if self.base_estimator is None:
-            raise ValueError("The model has not been fitted yet.")
-
-        else:
-            check_is_fitted(self.base_estimator)
+        check_is_fitted(self, "base_estimator_")
 
-        return (self.base_estimator.predict(X) == y).sum() / len(y)
+        return (self.base_estimator_.predict(X) == y).sum() / len(y)
-- 
2.43.0


From 4bfcdb7bfc847a5e184f910c481339c62d212681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:17 +0000
Subject: [PATCH 42/97] fix: PredictionEntropyScorer reduces one entropy per
 sample

---
 skada/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/metrics.py b/skada/metrics.py
index 186018a..dbe929f 100644
--- a/skada/metrics.py
+++ b/skada/metrics.py
@@ -272,7 +272,7 @@ class PredictionEntropyScorer(_BaseDomainAwareScorer):
         entropy_per_sample = -proba * log_proba
         entropy_per_sample[infty_mask] = 0  # x*log(x) -> 0 as x -> 0
         if self.reduction == "none":
-            return self._sign * entropy_per_sample
+            return self._sign * np.sum(entropy_per_sample, axis=1)
         elif self.reduction == "sum":
             return self._sign * np.sum(entropy_per_sample)
         elif self.reduction == "mean":
-- 
2.43.0


From 07f8f0a675539478a7557585beb89a715d0f87b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:17 +0000
Subject: [PATCH 43/97] fix: DeepEmbeddedValidation weights each sample's own
 loss

---
 skada/metrics.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skada/metrics.py b/skada/metrics.py
index dbe929f..19fd41b 100644
--- a/skada/metrics.py
+++ b/skada/metrics.py
@@ -464,7 +464,10 @@ class DeepEmbeddedValidation(_BaseDomainAwareScorer):
             X_val, sample_domain=sample_domain_val, allow_source=True
         )
 
-        error = self._loss_func(y_val, y_pred)
+        error = np.asarray(self._loss_func(y_val, y_pred))
+        if error.ndim == 1:
+            # one column, as the weights
+            error = error[:, None]
         assert weights.shape[0] == error.shape[0]
 
         weighted_error = weights * error
-- 
2.43.0


From c1aa3ce2d36b5cb511b5fb34da8e30ee6f8249ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:17 +0000
Subject: [PATCH 44/97] fix: CircularValidation swaps the domains when a source
 is labeled 0

---
 skada/metrics.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skada/metrics.py b/skada/metrics.py
index 19fd41b..79976f7 100644
--- a/skada/metrics.py
+++ b/skada/metrics.py
@@ -626,7 +626,10 @@ class CircularValidation(_BaseDomainAwareScorer):
                 le.fit(y_pred_target)
                 y_pred_target = le.transform(y_pred_target)
 
-            backward_sample_domain = -sample_domain
+            # sources become targets and conversely, 0 is a source label
+            backward_sample_domain = np.where(
+                source_idx, -sample_domain - 1, -sample_domain
+            )
 
             backward_y = np.zeros_like(y)
             backward_y[~source_idx] = y_pred_target
-- 
2.43.0


From 02ccc21594e997397250ae51c3b133453106fd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:17 +0000
Subject: [PATCH 45/97] fix: MaNoScorer normalizes the logits that the network
 gave

---
 skada/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/metrics.py b/skada/metrics.py
index 79976f7..96c2fb2 100644
--- a/skada/metrics.py
+++ b/skada/metrics.py
@@ -922,7 +922,7 @@ class MaNoScorer(_BaseDomainAwareScorer):
     @staticmethod
     def _stable_softmax(logits):
         """Compute softmax function."""
-        logits -= np.max(logits, axis=1, keepdims=True)
+        logits = logits - np.max(logits, axis=1, keepdims=True)
         exp_logits = np.exp(logits)
         exp_logits /= np.sum(exp_logits, axis=1, keepdims=True)
         return exp_logits
-- 
2.43.0


From 298b03131d490a3d55f0babb0b8f82f79c591d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:22 +0000
Subject: [PATCH 46/97] fix: subsamplers accept train_size=1.0 as all samples

---
 skada/transformers.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/skada/transformers.py b/skada/transformers.py
index f7be92f..81ea3fe 100644
--- a/skada/transformers.py
+++ b/skada/transformers.py
@@ -47,7 +47,9 @@ class Subsampler(BaseAdapter):
 
         self.rng_ = check_random_state(self.random_state)
 
-        if self.train_size >= X.shape[0]:
+        if self.train_size >= X.shape[0] or (
+            isinstance(self.train_size, float) and self.train_size == 1
+        ):
             return (
                 X,
                 y,
@@ -112,7 +114,9 @@ class DomainSubsampler(BaseAdapter):
 
         self.rng_ = check_random_state(self.random_state)
 
-        if self.train_size >= X.shape[0]:
+        if self.train_size >= X.shape[0] or (
+            isinstance(self.train_size, float) and self.train_size == 1
+        ):
             return (
                 X,
                 y,
@@ -175,7 +179,9 @@ class StratifiedDomainSubsampler(BaseAdapter):
 
         self.rng_ = check_random_state(self.random_state)
 
-        if self.train_size >= X.shape[0]:
+        if self.train_size >= X.shape[0] or (
+            isinstance(self.train_size, float) and self.train_size == 1
+        ):
             return (
                 X,
                 y,
-- 
2.43.0


From a745cb1cc7821abff07c8d4c8282f94653b98ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:22 +0000
Subject: [PATCH 47/97] fix: skada.__all__ names the subsamplers that exist

---
 skada/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skada/__init__.py b/skada/__init__.py
index 927a8b0..b39a7d0 100644
--- a/skada/__init__.py
+++ b/skada/__init__.py
@@ -132,8 +132,9 @@ __all__ = [
     "JDOTClassifier",
     "OTLabelPropAdapter",
 
-    "SubsampleTransformer",
-    "DomainStratifiedSubsampleTransformer",
+    "Subsampler",
+    "DomainSubsampler",
+    "StratifiedDomainSubsampler",
 
     "make_da_pipeline",
 
-- 
2.43.0


From f7237c998f11177bf7378aee7784737e7d1267fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:28 +0000
Subject: [PATCH 48/97] fix: DomainClassifier with one output gives a domain
 probability, not a constant

---
 skada/deep/modules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/deep/modules.py b/skada/deep/modules.py
index 3563d1a..423cc43 100644
--- a/skada/deep/modules.py
+++ b/skada/deep/modules.py
@@ -178,7 +178,7 @@ class DomainClassifier(nn.Module):
             nn.BatchNorm1d(100),
             nn.ReLU(),
             nn.Linear(100, n_classes),
-            nn.Softmax(),
+            nn.Sigmoid() if n_classes == 1 else nn.Softmax(dim=1),
         )
         self.alpha = alpha
 
-- 
2.43.0


From 5a72820c9df80eb1a07c9e0d776268190cec4f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:28 +0000
Subject: [PATCH 49/97] fix: MemoryBank moves the memory towards the new
 features and outputs

---
 skada/deep/callbacks.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/skada/deep/callbacks.py b/skada/deep/callbacks.py
index 9fc7e6b..70d94ef 100644
--- a/skada/deep/callbacks.py
+++ b/skada/deep/callbacks.py
@@ -158,13 +158,15 @@ class MemoryBank(Callback):
 
             new_memory_features = (
                 1.0 - self.momentum
-            ) * net.criterion__adapt_criterion.memory_features[batch_idx]
-            +self.momentum * features_t.clone()
+            ) * net.criterion__adapt_criterion.memory_features[
+                batch_idx
+            ] + self.momentum * features_t.clone()
 
             new_memory_outputs = (
                 1.0 - self.momentum
-            ) * net.criterion__adapt_criterion.memory_outputs[batch_idx]
-            +self.momentum * outputs_target.clone()
+            ) * net.criterion__adapt_criterion.memory_outputs[
+                batch_idx
+            ] + self.momentum * outputs_target.clone()
 
         net.criterion__adapt_criterion.memory_features[batch_idx] = new_memory_features
         net.criterion__adapt_criterion.memory_outputs[batch_idx] = new_memory_outputs
-- 
2.43.0


From 661704c2bb4bcdfa41769178f1455fcb370b6b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:28 +0000
Subject: [PATCH 50/97] fix: CountEpochs restarts the count when training
 begins

---
 skada/deep/callbacks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skada/deep/callbacks.py b/skada/deep/callbacks.py
index 70d94ef..ea5cc24 100644
--- a/skada/deep/callbacks.py
+++ b/skada/deep/callbacks.py
@@ -175,9 +175,9 @@ class MemoryBank(Callback):
 class CountEpochs(Callback):
     """Callback to count the number of epochs."""
 
-    def on_train_begin(self, *args, **kwargs):
+    def on_train_begin(self, net, *args, **kwargs):
         """Initialize the epoch counter."""
-        self.n_epochs = 0
+        net.criterion__adapt_criterion.n_epochs = 0
 
     def on_epoch_begin(self, net, **kwargs):
         """Increment the number of epochs."""
-- 
2.43.0


From e23c32babf015d4585c8ce66dd95c87855bd418f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:28 +0000
Subject: [PATCH 51/97] fix: ModifiedCrossEntropyLoss reads the probability of
 each sample's own label

---
 skada/deep/_adversarial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/deep/_adversarial.py b/skada/deep/_adversarial.py
index 88d462b..dfc3156 100644
--- a/skada/deep/_adversarial.py
+++ b/skada/deep/_adversarial.py
@@ -411,7 +411,7 @@ class ModifiedCrossEntropyLoss(torch.nn.Module):
         smooth_prob = (1 - self.smoothing) * prob + self.smoothing / num_classes
 
         # Gather probabilities of the target classes
-        target_prob = smooth_prob[..., target]
+        target_prob = smooth_prob.gather(-1, target.unsqueeze(-1)).squeeze(-1)
 
         # Compute log(1 - probability) for the target class
         log_one_minus_prob = torch.log(1 - target_prob)
-- 
2.43.0


From 36f91737af8801cfee1baa182539841fd63f9dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:28 +0000
Subject: [PATCH 52/97] fix: CDANModule accepts sample weights and clones with
 all its parameters

---
 skada/deep/_adversarial.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/skada/deep/_adversarial.py b/skada/deep/_adversarial.py
index dfc3156..c155283 100644
--- a/skada/deep/_adversarial.py
+++ b/skada/deep/_adversarial.py
@@ -241,17 +241,26 @@ class CDANModule(DomainAwareModule):
         self.max_features = max_features
         self.random_state = random_state
 
+    def get_params(self, deep=True):
+        return {
+            **super().get_params(deep=deep),
+            "max_features": self.max_features,
+            "random_state": self.random_state,
+        }
+
     def forward(
         self,
         X,
         sample_domain=None,
-        sample_idx=None,
+        sample_weight=None,
         is_fit=False,
         return_features=False,
+        sample_idx=None,
     ):
+        weights = {} if sample_weight is None else {"sample_weight": sample_weight}
         if is_fit:
             # predict
-            y_pred = self.base_module_(X)
+            y_pred = self.base_module_(X, **weights)
             features = self.intermediate_layers[self.layer_name]
 
             n_classes = y_pred.shape[1]
@@ -283,10 +292,11 @@ class CDANModule(DomainAwareModule):
                 sample_idx,
             )
         else:
+            y_pred = self.base_module_(X, **weights)
             if return_features:
-                return self.base_module_(X), self.intermediate_layers[self.layer_name]
+                return y_pred, self.intermediate_layers[self.layer_name]
             else:
-                return self.base_module_(X)
+                return y_pred
 
 
 def CDAN(
-- 
2.43.0


From 48aab13a036285c448aa3d96eccc3ff12ceffb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:28 +0000
Subject: [PATCH 53/97] fix: check_generator does not reseed the global torch
 generator

---
 skada/deep/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skada/deep/utils.py b/skada/deep/utils.py
index bc39d66..8a8cd37 100644
--- a/skada/deep/utils.py
+++ b/skada/deep/utils.py
@@ -52,9 +52,9 @@ def check_generator(seed):
         The generator object based on `seed` parameter.
     """
     if seed is None or seed is torch.random:
-        return torch.random.manual_seed(torch.Generator().seed())
+        return torch.random.default_generator
     if isinstance(seed, numbers.Integral):
-        return torch.random.manual_seed(seed)
+        return torch.Generator().manual_seed(int(seed))
     if isinstance(seed, torch.Generator):
         return seed
     raise ValueError(
-- 
2.43.0


From 6f1212eeab9a13c74722d4b44a41fafc6b815b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:41 +0000
Subject: [PATCH 54/97] fix: deepjdot_loss accepts domains of different sizes

---
 skada/deep/losses.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skada/deep/losses.py b/skada/deep/losses.py
index 98c70c4..d865423 100644
--- a/skada/deep/losses.py
+++ b/skada/deep/losses.py
@@ -105,12 +105,12 @@ def deepjdot_loss(
     """
     dist = torch.cdist(features_s, features_t, p=2) ** 2
 
-    y_target_matrix = y_pred_t.repeat(len(y_pred_t), 1, 1).permute(1, 2, 0)
+    y_target_matrix = y_pred_t.repeat(len(y_s), 1, 1).permute(1, 2, 0)
 
     if criterion is None:
         criterion = torch.nn.CrossEntropyLoss(reduction="none")
 
-    loss_target = criterion(y_target_matrix, y_s.repeat(len(y_s), 1)).T
+    loss_target = criterion(y_target_matrix, y_s.repeat(len(y_pred_t), 1)).T
     M = reg_dist * dist + reg_cl * loss_target
 
     # Compute the loss
-- 
2.43.0


From 12d22c2556e6105fe458a444cf37a83763df3304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:41 +0000
Subject: [PATCH 55/97] fix: cdd_loss discards the target samples that are far
 from their centroid

---
 skada/deep/losses.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/deep/losses.py b/skada/deep/losses.py
index d865423..5e7de3a 100644
--- a/skada/deep/losses.py
+++ b/skada/deep/losses.py
@@ -254,7 +254,7 @@ def cdd_loss(
 
     # Discard ambiguous target samples
     similarities = F.cosine_similarity(
-        features_t.unsqueeze(1), target_kmeans.cluster_centers_.unsqueeze(0)
+        features_t.unsqueeze(1), target_kmeans.cluster_centers_.unsqueeze(0), dim=2
     )
     mask_t = 0.5 * (1 - similarities.max(dim=1)[0]) < distance_threshold
     features_t = features_t[mask_t]
-- 
2.43.0


From a7b5a1f96176e8658920039c0d5c6ed3929296ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:41 +0000
Subject: [PATCH 56/97] fix: cdd_loss averages the kernel over the pairs of
 each class

---
 skada/deep/losses.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/skada/deep/losses.py b/skada/deep/losses.py
index 5e7de3a..6f3318b 100644
--- a/skada/deep/losses.py
+++ b/skada/deep/losses.py
@@ -289,22 +289,24 @@ def cdd_loss(
                 # Compute e1
                 kernel_ss = _gaussian_kernel(features_s, features_s, sigmas)
                 mask_c1_c1 = (y_s == c1).float()
+                mask_c1_c1 = torch.outer(mask_c1_c1, mask_c1_c1)
 
                 # e1 measure the intra-class domain discrepancy
                 # Thus if mask_c1_c1.sum() = 0 --> e1 = 0
                 if mask_c1_c1.sum() > 0:
-                    e1 = (kernel_ss * mask_c1_c1).sum() / (mask_c1_c1.sum() ** 2)
+                    e1 = (kernel_ss * mask_c1_c1).sum() / mask_c1_c1.sum()
                 else:
                     e1 = 0
 
                 # Compute e2
                 kernel_tt = _gaussian_kernel(features_t, features_t, sigmas)
                 mask_c2_c2 = (cluster_labels_t == c2).float()
+                mask_c2_c2 = torch.outer(mask_c2_c2, mask_c2_c2)
 
                 # e2 measure the intra-class domain discrepancy
                 # Thus if mask_c2_c2.sum() = 0 --> e2 = 0
                 if mask_c2_c2.sum() > 0:
-                    e2 = (kernel_tt * mask_c2_c2).sum() / (mask_c2_c2.sum() ** 2)
+                    e2 = (kernel_tt * mask_c2_c2).sum() / mask_c2_c2.sum()
                 else:
                     e2 = 0
 
@@ -317,7 +319,7 @@ def cdd_loss(
                 # e3 measure the inter-class domain discrepancy
                 # Thus if mask_c1_c2.sum() = 0 --> e3 = 0
                 if mask_c1_c2.sum() > 0:
-                    e3 = (kernel_st * mask_c1_c2).sum() / (mask_c1_c2.sum() ** 2)
+                    e3 = (kernel_st * mask_c1_c2).sum() / mask_c1_c2.sum()
                 else:
                     e3 = 0
 
-- 
2.43.0


From b8db5ae173eafaefe346ec96e8d154efd8ba4c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:41 +0000
Subject: [PATCH 57/97] fix: cdd_loss averages over the classes that it
 compares

---
 skada/deep/losses.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/skada/deep/losses.py b/skada/deep/losses.py
index 6f3318b..b93c8a6 100644
--- a/skada/deep/losses.py
+++ b/skada/deep/losses.py
@@ -284,7 +284,7 @@ def cdd_loss(
     intraclass = 0
     interclass = 0
     for c1 in range(n_classes):
-        for c2 in range(c1, n_classes):
+        for c2 in range(n_classes):
             if valid_classes[c1] and valid_classes[c2]:
                 # Compute e1
                 kernel_ss = _gaussian_kernel(features_s, features_s, sigmas)
@@ -328,9 +328,13 @@ def cdd_loss(
                 else:
                     interclass += e1 + e2 - 2 * e3
 
-    cdd = (intraclass / len(valid_classes)) - (
-        interclass / (len(valid_classes) ** 2 - len(valid_classes))
-    )
+    # Average over the classes and the (ordered) pairs of classes that were kept
+    n_valid = int(valid_classes.sum())
+    cdd = features_s.new_zeros(())
+    if n_valid > 0:
+        cdd = cdd + intraclass / n_valid
+    if n_valid > 1:
+        cdd = cdd - interclass / (n_valid**2 - n_valid)
 
     return cdd
 
-- 
2.43.0


From f5ab8b72ab370899b5d80560bdd24420d236456c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:41 +0000
Subject: [PATCH 58/97] fix: the sample weights of the loss are those of the
 samples it is computed on

---
 skada/deep/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skada/deep/base.py b/skada/deep/base.py
index 2162556..25b29a9 100644
--- a/skada/deep/base.py
+++ b/skada/deep/base.py
@@ -886,7 +886,10 @@ class DomainAwareNet(NeuralNetClassifier, _DAMetadataRequesterMixin):
 
         if "sample_weight" in X and X["sample_weight"] is not None:
             sample_weight = to_tensor(X["sample_weight"], device=self.device)
-            sample_weight = sample_weight[X["sample_domain"] > 0]
+            if getattr(self.criterion_, "train_on_target", False):
+                sample_weight = sample_weight[X["sample_domain"] < 0]
+            else:
+                sample_weight = sample_weight[X["sample_domain"] >= 0]
             if loss.dim() == 0 and len(sample_weight) > 1:
                 raise ValueError(
                     "You are using a criterion function that returns a scalar loss value, but sample weights are provided."
-- 
2.43.0


From c0e4ede4db308e8b4bd19b0f2860a45b92f377d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:41 +0000
Subject: [PATCH 59/97] fix: DomainAwareNet.score compares the predictions with
 the labels of the target samples

---
 skada/deep/base.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/skada/deep/base.py b/skada/deep/base.py
index 25b29a9..8d72e3a 100644
--- a/skada/deep/base.py
+++ b/skada/deep/base.py
@@ -699,7 +699,13 @@ class DomainAwareNet(NeuralNetClassifier, _DAMetadataRequesterMixin):
         """
         X = self._prepare_input(X, y, sample_domain, sample_weight)
         if not allow_source:
+            # keep y and sample_weight aligned with the samples that are scored
+            mask = to_numpy(X.sample_domain < 0)
             X = X.select_target()
+            if len(y) == len(mask):
+                y = np.asarray(y)[mask]
+            if sample_weight is not None and len(sample_weight) == len(mask):
+                sample_weight = np.asarray(sample_weight)[mask]
 
         return accuracy_score(
             y,
-- 
2.43.0


From 655c9023662cc5c8c4f7ee36ade27d7763e84df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:41 +0000
Subject: [PATCH 60/97] fix: DeepDADataset accepts an int as sample_domain

---
 skada/deep/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skada/deep/base.py b/skada/deep/base.py
index 8d72e3a..83583f2 100644
--- a/skada/deep/base.py
+++ b/skada/deep/base.py
@@ -1050,7 +1050,9 @@ class DeepDADataset(Dataset):
         self._initialize(X, y, sample_domain, sample_weight)
 
     def _initialize(self, X: torch.Tensor, y, sample_domain, sample_weight):
-        if sample_domain is None or len(sample_domain) == 0:
+        if sample_domain is None:
+            sample_domain = _DEFAULT_SAMPLE_DOMAIN_
+        elif not isinstance(sample_domain, int) and len(sample_domain) == 0:
             sample_domain = _DEFAULT_SAMPLE_DOMAIN_
         if isinstance(sample_domain, int):
             sample_domain = torch.full((X.shape[0],), sample_domain)
-- 
2.43.0


From 1a68ee63e9162c86700fa1e19712e1e83ca4079d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:41 +0000
Subject: [PATCH 61/97] fix: DeepDADataset.merge in place updates the sample
 indices

---
 skada/deep/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skada/deep/base.py b/skada/deep/base.py
index 83583f2..52ee1ea 100644
--- a/skada/deep/base.py
+++ b/skada/deep/base.py
@@ -1148,6 +1148,7 @@ class DeepDADataset(Dataset):
                 self.has_y = torch.cat((self.has_y, dataset.has_y))
                 self.has_weights = bool(len(self.sample_weight))
                 self.device = str(X.device)
+                self._sample_idx = self._infer_sample_idx()
                 assert self._is_correct(), (
                     "Every input data X should have a domain associated, a label (if there is "
                     f"no label, it must be represented by {_NO_LABEL_}) and, "
-- 
2.43.0


From efb1109b3fce93b757332fb0273f29af4574e66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:41 +0000
Subject: [PATCH 62/97] fix: DeepDADataset.select on missing weights raises a
 ValueError

---
 skada/deep/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skada/deep/base.py b/skada/deep/base.py
index 52ee1ea..0ea6b29 100644
--- a/skada/deep/base.py
+++ b/skada/deep/base.py
@@ -1340,8 +1340,9 @@ class DeepDADataset(Dataset):
         elif on == "sample_domain":
             mask = condition(self.sample_domain)
         elif on == "sample_weight":
-            if self.has_weights:
-                mask = condition(self.sample_weight)
+            if not self.has_weights:
+                raise ValueError("The dataset has no sample weights to select on.")
+            mask = condition(self.sample_weight)
         else:
             raise ValueError(
                 "'on' argument must be one of "
-- 
2.43.0


From ccd21d04f9e17bf56cd5f8ca7c4c9956d4df80a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:41 +0000
Subject: [PATCH 63/97] fix: CAN and SPA leave the caller's list of callbacks
 as given

---
 skada/deep/_divergence.py      | 2 +-
 skada/deep/_graph_alignment.py | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/skada/deep/_divergence.py b/skada/deep/_divergence.py
index c2fd04d..4be4306 100644
--- a/skada/deep/_divergence.py
+++ b/skada/deep/_divergence.py
@@ -297,7 +297,7 @@ def CAN(
         callbacks = [ComputeSourceCentroids()]
     else:
         if isinstance(callbacks, list):
-            callbacks.append(ComputeSourceCentroids())
+            callbacks = [*callbacks, ComputeSourceCentroids()]
         else:
             callbacks = [callbacks, ComputeSourceCentroids()]
 
diff --git a/skada/deep/_graph_alignment.py b/skada/deep/_graph_alignment.py
index 1dcd463..437ba06 100644
--- a/skada/deep/_graph_alignment.py
+++ b/skada/deep/_graph_alignment.py
@@ -204,8 +204,7 @@ def SPA(
         ]
     else:
         if isinstance(callbacks, list):
-            callbacks.append(MemoryBank())
-            callbacks.append(CountEpochs())
+            callbacks = [*callbacks, MemoryBank(), CountEpochs()]
         else:
             callbacks = [
                 callbacks,
-- 
2.43.0


From 29a67e30b7c5d64c382c3bef80a06dd7a186d72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:41 +0000
Subject: [PATCH 64/97] fix: SphericalKMeans draws its initial centroids with
 random_state

---
 skada/deep/utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/skada/deep/utils.py b/skada/deep/utils.py
index 8a8cd37..5a4d5ca 100644
--- a/skada/deep/utils.py
+++ b/skada/deep/utils.py
@@ -160,11 +160,12 @@ class SphericalKMeans(BaseEstimator):
         self.random_state = random_state
         self.device = device
 
-    def _init_centroids(self, X):
+    def _init_centroids(self, X, generator=None):
         with torch.no_grad():
             # Randomly initialize centroids
             n_samples = X.shape[0]
-            indices = torch.randperm(n_samples, device=self.device)[:self.n_clusters]
+            indices = torch.randperm(n_samples, generator=generator)[:self.n_clusters]
+            indices = indices.to(self.device)
             centroids = X[indices]
             return centroids / torch.norm(centroids, dim=1, keepdim=True)
 
@@ -198,8 +199,9 @@ class SphericalKMeans(BaseEstimator):
             best_n_iter = None
 
             if self.initial_centroids is None:
+                generator = check_generator(self.random_state)
                 for _ in range(self.n_init):
-                    initial_centroids = self._init_centroids(X)
+                    initial_centroids = self._init_centroids(X, generator)
                     inertia, centroids, n_iter = self._run_single_kmean(X, initial_centroids)
 
                     if best_inertia is None or inertia < best_inertia:
-- 
2.43.0


From 8b262670a633568ae59be9675d4e7cae431a87e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:56 +0000
Subject: [PATCH 65/97] fix: KLIEPReweightAdapter maximizes the likelihood of
 the target samples

---
 skada/_reweight.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/skada/_reweight.py b/skada/_reweight.py
index 6487062..fb81fde 100644
--- a/skada/_reweight.py
+++ b/skada/_reweight.py
@@ -508,12 +508,12 @@ class KLIEPReweightAdapter(BaseReweightAdapter):
         b = np.mean(b, axis=0)
 
         alpha = np.ones(n_centers)
-        obj = np.sum(np.log(A @ alpha))
+        alpha /= b @ alpha
+        obj = np.sum(np.log(A @ alpha + EPS))
         for _ in range(self.max_iter):
             old_obj = obj
-            alpha += EPS * A.T @ (1 / (A @ alpha))
-            alpha += (1 - b @ alpha) * b / (b @ b)
-            alpha = (alpha > 0) * alpha
+            # multiplicative ascent step, that keeps alpha >= 0 and b @ alpha = 1
+            alpha *= A.T @ (1 / (A @ alpha + EPS)) / (n_targets * b + EPS)
             alpha /= b @ alpha
             obj = np.sum(np.log(A @ alpha + EPS))
             if np.abs(obj - old_obj) < self.tol:
-- 
2.43.0


From e15506876c2a59f1707248085e7713515fef8f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:05 +0000
Subject: [PATCH 66/97] fix: ClassRegularizerOTMapping pipelines do not share
 their default estimator

---
 skada/_mapping.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skada/_mapping.py b/skada/_mapping.py
index cb1caf9..ade744f 100644
--- a/skada/_mapping.py
+++ b/skada/_mapping.py
@@ -380,7 +380,7 @@ class ClassRegularizerOTMappingAdapter(BaseOTMappingAdapter):
 
 
 def ClassRegularizerOTMapping(
-    base_estimator=SVC(kernel="rbf"),
+    base_estimator=None,
     metric="sqeuclidean",
     norm="lpl1",
     max_iter=10,
@@ -426,6 +426,9 @@ def ClassRegularizerOTMapping(
            Optimal Transport for Domain Adaptation, in IEEE
            Transactions on Pattern Analysis and Machine Intelligence
     """
+    if base_estimator is None:
+        base_estimator = SVC(kernel="rbf")
+
     ot_mapping = make_da_pipeline(
         ClassRegularizerOTMappingAdapter(
             metric=metric,
-- 
2.43.0


From 52add951498b372b58fe7af30abbd12f34c636f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:40 +0000
Subject: [PATCH 67/97] fix: DiscriminatorReweight accepts ensembles as
 domain_classifier

---
 skada/_reweight.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/skada/_reweight.py b/skada/_reweight.py
index fb81fde..3e4a980 100644
--- a/skada/_reweight.py
+++ b/skada/_reweight.py
@@ -95,7 +95,9 @@ class DensityReweightAdapter(BaseReweightAdapter):
 
     def __init__(self, weight_estimator=None):
         super().__init__()
-        self.weight_estimator = weight_estimator or KernelDensity()
+        self.weight_estimator = (
+            KernelDensity() if weight_estimator is None else weight_estimator
+        )
 
     def fit(self, X, y=None, *, sample_domain=None):
         """Fit adaptation parameters.
@@ -319,7 +321,9 @@ class DiscriminatorReweightAdapter(BaseReweightAdapter):
 
     def __init__(self, domain_classifier=None):
         super().__init__()
-        self.domain_classifier = domain_classifier or LogisticRegression()
+        self.domain_classifier = (
+            LogisticRegression() if domain_classifier is None else domain_classifier
+        )
 
     def fit(self, X, y=None, sample_domain=None):
         """Fit adaptation parameters.
-- 
2.43.0


From 76c4006f96b16f97def5f8745bb9546877bb165d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:50 +0000
Subject: [PATCH 68/97] fix: TransferSubspaceLearningAdapter accepts reg=None
 set after construction

---
 skada/_subspace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/_subspace.py b/skada/_subspace.py
index f8af2ba..010744c 100644
--- a/skada/_subspace.py
+++ b/skada/_subspace.py
@@ -780,7 +780,7 @@ class TransferSubspaceLearningAdapter(BaseAdapter):
         """Compute the covariance matrix of X using torch."""
         if self.torch:
             import torch
-        reg = self.reg
+        reg = 0 if self.reg is None else self.reg
 
         n_samples, d = X.shape
         X = X - torch.mean(X, dim=0)
-- 
2.43.0


From ed18d99141c3f784b99b10889420edfd342ca857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:01 +0000
Subject: [PATCH 69/97] fix: TransferJointMatching solves a well-conditioned
 eigenvalue problem

---
 skada/_subspace.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/skada/_subspace.py b/skada/_subspace.py
index 010744c..9600ea4 100644
--- a/skada/_subspace.py
+++ b/skada/_subspace.py
@@ -599,10 +599,12 @@ class TransferJointMatchingAdapter(BaseAdapter):
             C = K @ H @ K.T
             B = B + EPS_eigval * np.identity(n)
             C = C + EPS_eigval * np.identity(n)
-            phi, A = scipy.linalg.eigh(B, C)
-            phi = phi + EPS_eigval
-            indices = np.argsort(phi)[:n_components]
-            phi, A = phi[indices], A[:, indices]
+            # the smallest eigenvalues of (B, C) are the inverse of the largest
+            # ones of (C, B), where B is well conditioned, contrary to C
+            inv_phi, A = scipy.linalg.eigh(C, B)
+            indices = np.argsort(inv_phi)[::-1][:n_components]
+            inv_phi = np.maximum(inv_phi[indices], EPS_eigval)
+            phi, A = 1 / inv_phi, A[:, indices] / np.sqrt(inv_phi)
             error_eigv = np.linalg.norm(B @ A - C @ A @ np.diag(phi))
             if error_eigv > 1e-5:
                 warnings.warn(
-- 
2.43.0


From a985793180777b926b9d8923d47bbf19da20eea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:01 +0000
Subject: [PATCH 70/97] fix: GradualEstimator accepts classifiers without a
 positive max_iter

---
 skada/_gradual_da.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skada/_gradual_da.py b/skada/_gradual_da.py
index 8f777a3..e44fc16 100644
--- a/skada/_gradual_da.py
+++ b/skada/_gradual_da.py
@@ -139,7 +139,9 @@ class GradualEstimator(DAEstimator):
             X_step, y_step = self.generate_data_at_step(
                 X, sample_domain, mask_gamma, step
             )
-            self.base_estimator_.max_iter += 100
+            max_iter = getattr(self.base_estimator_, "max_iter", None)
+            if max_iter is not None and max_iter > 0:
+                self.base_estimator_.max_iter = max_iter + 100
             self.base_estimator_.fit(X_step, y_step)
             if self.save_estimators:
                 self.estimators_.append(deepcopy(self.base_estimator_))
-- 
2.43.0


From e5bdb2cd004054eb7285ec14b9b5ac602c814602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:37 +0000
Subject: [PATCH 71/97] fix: SupervisedScorer passes the domains to the score
 of the estimator

---
 skada/metrics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skada/metrics.py b/skada/metrics.py
index 96c2fb2..a781144 100644
--- a/skada/metrics.py
+++ b/skada/metrics.py
@@ -34,7 +34,9 @@ from .utils import check_X_y_domain, extract_source_indices, source_target_split
 
 
 def _estimator_score(estimator, X, y=None, **kwargs):
-    return estimator.score(X, y)
+    # the estimator may not accept the domains
+    consumed = get_routing_for_object(estimator).consumes("score", kwargs.keys())
+    return estimator.score(X, y, **{name: kwargs[name] for name in consumed})
 
 
 class _BaseDomainAwareScorer(_BaseScorer):
-- 
2.43.0


From 102871a12870e436b3f34f7c4a8f2b66d0853784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:03 +0000
Subject: [PATCH 72/97] fix: subsamplers subsample the weights that a previous
 adapter gave

---
 skada/transformers.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/skada/transformers.py b/skada/transformers.py
index 81ea3fe..853660a 100644
--- a/skada/transformers.py
+++ b/skada/transformers.py
@@ -4,6 +4,7 @@
 
 from sklearn.model_selection import ShuffleSplit, StratifiedShuffleSplit
 from sklearn.utils import check_random_state
+from sklearn.utils.metadata_routing import UNUSED
 
 from .base import BaseAdapter
 from .model_selection import StratifiedDomainShuffleSplit
@@ -30,6 +31,10 @@ class Subsampler(BaseAdapter):
         Controls the random resampling of the data.
     """
 
+    # weights given by a previous adapter have to follow their samples
+    __metadata_request__fit = {"sample_weight": True}
+    __metadata_request__transform = {"sample_weight": UNUSED}
+
     def __init__(self, train_size, random_state=None):
         self.train_size = train_size
         self.random_state = random_state
@@ -97,6 +102,10 @@ class DomainSubsampler(BaseAdapter):
         Controls the random resampling of the data.
     """
 
+    # weights given by a previous adapter have to follow their samples
+    __metadata_request__fit = {"sample_weight": True}
+    __metadata_request__transform = {"sample_weight": UNUSED}
+
     def __init__(self, train_size, random_state=None):
         self.train_size = train_size
         self.random_state = random_state
@@ -162,6 +171,10 @@ class StratifiedDomainSubsampler(BaseAdapter):
         Controls the random resampling of the data.
     """
 
+    # weights given by a previous adapter have to follow their samples
+    __metadata_request__fit = {"sample_weight": True}
+    __metadata_request__transform = {"sample_weight": UNUSED}
+
     def __init__(self, train_size, random_state=None):
         self.train_size = train_size
         self.random_state = random_state
-- 
2.43.0


From 065407fd1782c9cb97a0d1df37adb63f2b6e1081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:16 +0000
Subject: [PATCH 73/97] fix: pipelines that end with GradualEstimator have a
 score

---
 skada/_gradual_da.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/skada/_gradual_da.py b/skada/_gradual_da.py
index e44fc16..5bdec6b 100644
--- a/skada/_gradual_da.py
+++ b/skada/_gradual_da.py
@@ -8,6 +8,7 @@ from copy import deepcopy
 import numpy as np
 from ot import da
 from sklearn.base import clone
+from sklearn.metrics import accuracy_score
 from sklearn.neural_network import MLPClassifier
 from sklearn.utils.validation import check_is_fitted
 
@@ -281,7 +282,7 @@ class GradualEstimator(DAEstimator):
 
         return self.base_estimator_.predict_log_proba(X, **kwargs)
 
-    def score(self, X, y):
+    def score(self, X, y, sample_weight=None):
         """Compute the accuracy of the model on the given data.
 
         Parameters
@@ -290,6 +291,8 @@ class GradualEstimator(DAEstimator):
             The input data.
         y : array-like, shape (n_samples,)
             The true labels.
+        sample_weight : array-like, shape (n_samples,), default=None
+            The weights of the samples.
 
         Returns
         -------
@@ -298,4 +301,5 @@ class GradualEstimator(DAEstimator):
         """
         check_is_fitted(self, "base_estimator_")
 
-        return (self.base_estimator_.predict(X) == y).sum() / len(y)
+        y_pred = self.base_estimator_.predict(X)
+        return accuracy_score(y, y_pred, sample_weight=sample_weight)
-- 
2.43.0


From 9bf68f9d938851d99d46f78d09ce52180410f523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:16 +0000
Subject: [PATCH 74/97] fix: reweighting adapters can be cloned after their
 estimator is set to None

---
 skada/_reweight.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/skada/_reweight.py b/skada/_reweight.py
index 3e4a980..559c13c 100644
--- a/skada/_reweight.py
+++ b/skada/_reweight.py
@@ -95,9 +95,7 @@ class DensityReweightAdapter(BaseReweightAdapter):
 
     def __init__(self, weight_estimator=None):
         super().__init__()
-        self.weight_estimator = (
-            KernelDensity() if weight_estimator is None else weight_estimator
-        )
+        self.weight_estimator = weight_estimator
 
     def fit(self, X, y=None, *, sample_domain=None):
         """Fit adaptation parameters.
@@ -119,9 +117,12 @@ class DensityReweightAdapter(BaseReweightAdapter):
         X, sample_domain = check_X_domain(X, sample_domain)
         X_source, X_target = source_target_split(X, sample_domain=sample_domain)
 
-        source_estimator = clone(self.weight_estimator)
+        weight_estimator = self.weight_estimator
+        if weight_estimator is None:
+            weight_estimator = KernelDensity()
+        source_estimator = clone(weight_estimator)
         source_estimator.fit(X_source)
-        target_estimator = clone(self.weight_estimator)
+        target_estimator = clone(weight_estimator)
         target_estimator.fit(X_target)
         self.weight_estimator_source_ = source_estimator
         self.weight_estimator_target_ = target_estimator
@@ -321,9 +322,7 @@ class DiscriminatorReweightAdapter(BaseReweightAdapter):
 
     def __init__(self, domain_classifier=None):
         super().__init__()
-        self.domain_classifier = (
-            LogisticRegression() if domain_classifier is None else domain_classifier
-        )
+        self.domain_classifier = domain_classifier
 
     def fit(self, X, y=None, sample_domain=None):
         """Fit adaptation parameters.
@@ -347,7 +346,10 @@ class DiscriminatorReweightAdapter(BaseReweightAdapter):
         (source_idx,) = np.where(source_idx)
         y_domain = np.ones(X.shape[0], dtype=np.int32)
         y_domain[source_idx] = 0
-        domain_classifier = clone(self.domain_classifier)
+        domain_classifier = self.domain_classifier
+        if domain_classifier is None:
+            domain_classifier = LogisticRegression()
+        domain_classifier = clone(domain_classifier)
         domain_classifier.fit(X, y_domain)
         self.domain_classifier_ = domain_classifier
         return self
-- 
2.43.0


From 8a85658429a80dfd12456ee89cd1bfcb0696bbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:16 +0000
Subject: [PATCH 75/97] fix: TransferSubspaceLearningAdapter can be cloned
 after reg is set to None

---
 skada/_subspace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skada/_subspace.py b/skada/_subspace.py
index 9600ea4..5c44c87 100644
--- a/skada/_subspace.py
+++ b/skada/_subspace.py
@@ -773,7 +773,7 @@ class TransferSubspaceLearningAdapter(BaseAdapter):
         self.mu = mu
         if reg is not None and (reg < 0 or reg > 1):
             raise ValueError("reg should be None or between 0 and 1.")
-        self.reg = 0 if reg is None else reg
+        self.reg = reg
         self.max_iter = max_iter
         self.tol = tol
         self.verbose = verbose
-- 
2.43.0


From edab6bfcdfe10504a0a1ac0bf0b9f8438cf61961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:59 +0000
Subject: [PATCH 76/97] fix: dan_loss, cdd_loss and deepjdot_loss accept
 float64 features

---
 skada/deep/losses.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/skada/deep/losses.py b/skada/deep/losses.py
index b93c8a6..a184428 100644
--- a/skada/deep/losses.py
+++ b/skada/deep/losses.py
@@ -116,11 +116,17 @@ def deepjdot_loss(
     # Compute the loss
     if sample_weights is None:
         sample_weights = torch.full(
-            (len(features_s),), 1.0 / len(features_s), device=features_s.device
+            (len(features_s),),
+            1.0 / len(features_s),
+            device=features_s.device,
+            dtype=features_s.dtype,
         )
     if target_sample_weights is None:
         target_sample_weights = torch.full(
-            (len(features_t),), 1.0 / len(features_t), device=features_t.device
+            (len(features_t),),
+            1.0 / len(features_t),
+            device=features_t.device,
+            dtype=features_t.dtype,
         )
     loss = ot.emd2(sample_weights, target_sample_weights, M)
 
@@ -181,12 +187,12 @@ def dan_loss(features_s, features_t, sigmas=None, eps=1e-7):
         )
         sigmas = (
             torch.tensor([2 ** (-8) * 2 ** (i * 1 / 2) for i in range(33)]).to(
-                features_s.device
+                features_s
             )
             * median_pairwise_distance
         )
     else:
-        sigmas = torch.tensor(sigmas).to(features_s.device)
+        sigmas = torch.tensor(sigmas).to(features_s)
 
     gaussian_kernel = partial(_gaussian_kernel, sigmas=sigmas)
 
@@ -273,12 +279,12 @@ def cdd_loss(
         )
         sigmas = (
             torch.tensor([2 ** (-8) * 2 ** (i * 1 / 2) for i in range(33)]).to(
-                features_s.device
+                features_s
             )
             * median_pairwise_distance
         )
     else:
-        sigmas = torch.tensor(sigmas).to(features_s.device)
+        sigmas = torch.tensor(sigmas).to(features_s)
 
     # Compute CDD
     intraclass = 0
-- 
2.43.0


From 57656a1fd4c59284ad9a3d9d72d4abf9da1e1138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:09 +0000
Subject: [PATCH 77/97] fix: a network can be cloned right after it was trained

---
 skada/deep/base.py  |  8 ++++++--
 skada/deep/utils.py | 11 +++++++++++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/skada/deep/base.py b/skada/deep/base.py
index 0ea6b29..f953d72 100644
--- a/skada/deep/base.py
+++ b/skada/deep/base.py
@@ -15,7 +15,11 @@ from sklearn.base import _clone_parametrized
 from sklearn.metrics import accuracy_score
 from skorch import NeuralNetClassifier
 
-from .utils import _register_forwards_hook, _infer_predict_nonlinearity
+from .utils import (
+    _LayerOutputs,
+    _infer_predict_nonlinearity,
+    _register_forwards_hook,
+)
 
 from skada.base import _DAMetadataRequesterMixin
 from sklearn.utils.validation import check_array
@@ -407,7 +411,7 @@ class DomainAwareModule(torch.nn.Module):
         self.base_module_ = base_module
         self.domain_classifier_ = domain_classifier
         self.layer_name = layer_name
-        self.intermediate_layers = {}
+        self.intermediate_layers = _LayerOutputs()
         self._setup_hooks()
     
     def _setup_hooks(self):
diff --git a/skada/deep/utils.py b/skada/deep/utils.py
index 5a4d5ca..5606685 100644
--- a/skada/deep/utils.py
+++ b/skada/deep/utils.py
@@ -14,6 +14,17 @@ from torch.nn.functional import cosine_similarity
 from sklearn.utils.validation import check_is_fitted
 
 
+class _LayerOutputs(dict):
+    """Outputs of the last forward pass, by layer name.
+
+    They may be part of a computation graph, which cannot be copied: the copy of
+    a module starts without outputs.
+    """
+
+    def __deepcopy__(self, memo):
+        return type(self)()
+
+
 class IntermediateLayerHook:
     def __init__(self, intermediate_layers, layer_name):
         self.intermediate_layers = intermediate_layers
-- 
2.43.0


From 7013b0eb24106283974386e2a7ae195fbad1b7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:48 +0000
Subject: [PATCH 78/97] fix: integer samples are mapped and transported as real
 numbers

---
 skada/_mapping.py | 10 ++++++----
 skada/_ot.py      | 12 ++++++------
 skada/_utils.py   |  5 +++++
 3 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/skada/_mapping.py b/skada/_mapping.py
index ade744f..d7a6c9b 100644
--- a/skada/_mapping.py
+++ b/skada/_mapping.py
@@ -15,7 +15,7 @@ from sklearn.metrics.pairwise import pairwise_distances
 from sklearn.svm import SVC
 
 from ._pipeline import make_da_pipeline
-from ._utils import Y_Type, _estimate_covariance, _find_y_type
+from ._utils import Y_Type, _as_float, _estimate_covariance, _find_y_type
 from .base import BaseAdapter, clone
 from .utils import (
     check_X_domain,
@@ -58,7 +58,9 @@ class BaseOTMappingAdapter(BaseAdapter):
         )
         transport = self._create_transport_estimator()
         self.ot_transport_ = clone(transport)
-        self.ot_transport_.fit(Xs=X, ys=y, Xt=X_target, yt=y_target)
+        self.ot_transport_.fit(
+            Xs=_as_float(X), ys=y, Xt=_as_float(X_target), yt=y_target
+        )
         return self
 
     def fit_transform(self, X, y=None, *, sample_domain=None, **params):
@@ -96,7 +98,7 @@ class BaseOTMappingAdapter(BaseAdapter):
         # in case of prediction we would get only target samples here,
         # thus there's no need to perform any transformations
         if X_source.shape[0] > 0:
-            X_source = self.ot_transport_.transform(Xs=X_source)
+            X_source = self.ot_transport_.transform(Xs=_as_float(X_source))
         X_adapt, _ = source_target_merge(
             X_source, X_target, sample_domain=sample_domain
         )
@@ -694,7 +696,7 @@ class MultiLinearMongeAlignmentAdapter(BaseAdapter):
             X, sample_domain, allow_multi_source=True, allow_multi_target=True
         )
         idx = extract_domains_indices(sample_domain)
-        X_adapt = X.copy()
+        X_adapt = _as_float(X).copy()
 
         for domain, sel in idx.items():
             A, b = self.mappings_[domain]
diff --git a/skada/_ot.py b/skada/_ot.py
index 8363964..a4abc04 100644
--- a/skada/_ot.py
+++ b/skada/_ot.py
@@ -15,7 +15,7 @@ from sklearn.utils.metaestimators import available_if
 from sklearn.utils.validation import check_is_fitted
 
 from ._pipeline import make_da_pipeline
-from ._utils import Y_Type, _find_y_type
+from ._utils import Y_Type, _as_float, _find_y_type
 from .base import BaseAdapter, DAEstimator
 from .utils import check_X_y_domain, per_domain_split, source_target_split
 
@@ -269,7 +269,7 @@ def solve_jdot_regression(
     estimator = clone(base_estimator)
 
     # compute feature distance matrix
-    Mf = ot.dist(Xs, Xt)
+    Mf = ot.dist(_as_float(Xs), _as_float(Xt))
     Mf = Mf / Mf.mean()
 
     nt = Xt.shape[0]
@@ -420,7 +420,7 @@ def solve_jdot_classification(
     estimator = clone(base_estimator)
 
     # compute feature distance matrix
-    Mf = ot.dist(Xs, Xt)
+    Mf = ot.dist(_as_float(Xs), _as_float(Xt))
     Mf = Mf / Mf.mean()
 
     nt = Xt.shape[0]
@@ -824,7 +824,7 @@ class OTLabelPropAdapter(BaseAdapter):
             ws = ot.unif(Xs.shape[0])
             wt = ot.unif(Xt.shape[0])
 
-        M = ot.dist(Xs, Xt, metric=self.metric)
+        M = ot.dist(_as_float(Xs), _as_float(Xt), metric=self.metric)
         G = ot.solve(M, ws, wt, reg=self.reg, max_iter=self.n_iter_max).plan
 
         self.discrete_ = discrete = _find_y_type(ys) == Y_Type.DISCRETE
@@ -953,7 +953,7 @@ class JCPOTLabelPropAdapter(BaseAdapter):
 
         sources, targets = per_domain_split(X, y, sample_domain=sample_domain)
 
-        Xs = [X for X, y in sources.values()]
+        Xs = [_as_float(X) for X, y in sources.values()]
         ys = [y for X, y in sources.values()]
         # POT works with class indices
         classes = np.unique(np.concatenate(ys))
@@ -963,7 +963,7 @@ class JCPOTLabelPropAdapter(BaseAdapter):
             Xs = Xs * 2
             ys = ys * 2
 
-        Xt = [X for X, y in targets.values()]
+        Xt = [_as_float(X) for X, y in targets.values()]
 
         Xt = np.concatenate(Xt, axis=0)
 
diff --git a/skada/_utils.py b/skada/_utils.py
index b104a43..51d0fda 100644
--- a/skada/_utils.py
+++ b/skada/_utils.py
@@ -127,6 +127,11 @@ def _find_y_type(y):
         raise ValueError(f"Incompatible label type: {y_type}")
 
 
+def _as_float(X):
+    """Real-valued samples: integer arithmetic overflows or truncates."""
+    return X if X.dtype.kind == "f" else X.astype(np.float64)
+
+
 def _apply_domain_masks(X, y, params, masks):
     X = X[masks]
     if y is not None:
-- 
2.43.0


From 1ef99ab5633790c34ca7267e4e6f1c787ca9641a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:48 +0000
Subject: [PATCH 79/97] fix: rows are selected by position, whatever container
 holds them

---
 skada/_ot.py            | 10 +++++-----
 skada/_self_labeling.py |  2 +-
 skada/_utils.py         | 14 ++++++++++----
 skada/base.py           | 10 +++++-----
 4 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/skada/_ot.py b/skada/_ot.py
index a4abc04..90bd3db 100644
--- a/skada/_ot.py
+++ b/skada/_ot.py
@@ -596,7 +596,7 @@ class JDOTRegressor(DAEstimator):
     def predict(self, X, sample_domain=None, *, sample_weight=None, allow_source=False):
         """Predict using the model"""
         check_is_fitted(self)
-        if sample_domain is not None and np.any(sample_domain >= 0):
+        if sample_domain is not None and np.any(np.asarray(sample_domain) >= 0):
             warnings.warn(
                 "Source domain detected. Predictor is trained on target"
                 "and prediction might be biased."
@@ -606,7 +606,7 @@ class JDOTRegressor(DAEstimator):
     def score(self, X, y, sample_domain=None, *, sample_weight=None, **kwargs):
         """Return the coefficient of determination R^2 of the prediction"""
         check_is_fitted(self)
-        if sample_domain is not None and np.any(sample_domain >= 0):
+        if sample_domain is not None and np.any(np.asarray(sample_domain) >= 0):
             warnings.warn(
                 "Source domain detected. Predictor is trained on target"
                 "and score might be biased."
@@ -727,7 +727,7 @@ class JDOTClassifier(DAEstimator):
     def predict(self, X, sample_domain=None, *, sample_weight=None, allow_source=False):
         """Predict using the model"""
         check_is_fitted(self)
-        if sample_domain is not None and np.any(sample_domain >= 0):
+        if sample_domain is not None and np.any(np.asarray(sample_domain) >= 0):
             warnings.warn(
                 "Source domain detected. Predictor is trained on target"
                 "and prediction might be biased."
@@ -748,7 +748,7 @@ class JDOTClassifier(DAEstimator):
     ):
         """Predict using the model"""
         check_is_fitted(self)
-        if sample_domain is not None and np.any(sample_domain >= 0):
+        if sample_domain is not None and np.any(np.asarray(sample_domain) >= 0):
             warnings.warn(
                 "Source domain detected. Predictor is trained on target"
                 "and prediction might be biased."
@@ -758,7 +758,7 @@ class JDOTClassifier(DAEstimator):
     def score(self, X, y, sample_domain=None, *, sample_weight=None, **kwargs):
         """Return the scores of the prediction"""
         check_is_fitted(self)
-        if sample_domain is not None and np.any(sample_domain >= 0):
+        if sample_domain is not None and np.any(np.asarray(sample_domain) >= 0):
             warnings.warn(
                 "Source domain detected. Predictor is trained on target"
                 "and score might be biased."
diff --git a/skada/_self_labeling.py b/skada/_self_labeling.py
index 7e44c05..6347e11 100644
--- a/skada/_self_labeling.py
+++ b/skada/_self_labeling.py
@@ -306,7 +306,7 @@ class DASVMClassifier(DAEstimator):
     def score(self, X, y, sample_domain=None, *, sample_weight=None, **kwargs):
         """Return the scores of the prediction"""
         check_is_fitted(self)
-        if sample_domain is not None and np.any(sample_domain >= 0):
+        if sample_domain is not None and np.any(np.asarray(sample_domain) >= 0):
             warnings.warn(
                 "Source domain detected. Predictor is trained on target"
                 "and score might be biased."
diff --git a/skada/_utils.py b/skada/_utils.py
index 51d0fda..4e02787 100644
--- a/skada/_utils.py
+++ b/skada/_utils.py
@@ -133,11 +133,17 @@ def _as_float(X):
 
 
 def _apply_domain_masks(X, y, params, masks):
-    X = X[masks]
+    # rows are selected by position, whatever container holds them
+    masks = np.asarray(masks)
+
+    def select(values):
+        return np.asarray(values)[masks] if isinstance(values, list) else values[masks]
+
+    X = select(X)
     if y is not None:
-        y = y[masks]
+        y = select(y)
     params = {
-        k: v[masks] if (hasattr(v, "__len__") and len(v) == len(masks)) else v
+        k: select(v) if (hasattr(v, "__len__") and len(v) == len(masks)) else v
         for k, v in params.items()
     }
     return X, y, params
@@ -168,7 +174,7 @@ def _remove_masked(X, y, params):
     """
     y_type = _find_y_type(y)
     if y_type == Y_Type.DISCRETE:
-        unmasked_idx = y != _DEFAULT_MASKED_TARGET_CLASSIFICATION_LABEL
+        unmasked_idx = np.asarray(y) != _DEFAULT_MASKED_TARGET_CLASSIFICATION_LABEL
     elif y_type == Y_Type.CONTINUOUS:
         unmasked_idx = np.isfinite(y)
 
diff --git a/skada/base.py b/skada/base.py
index 7c20975..d600c16 100644
--- a/skada/base.py
+++ b/skada/base.py
@@ -18,7 +18,7 @@ from sklearn.utils.metadata_routing import (
     get_routing_for_object,
 )
 from sklearn.utils.metaestimators import available_if
-from sklearn.utils.validation import check_is_fitted
+from sklearn.utils.validation import _num_samples, check_is_fitted
 
 from skada._utils import (
     _apply_domain_masks,
@@ -199,7 +199,7 @@ class MetadataContainer:
         return self._metadata.items()
 
     def __len__(self):
-        return self._features.shape[0]
+        return _num_samples(self._features)
 
 
 class BaseSelector(BaseEstimator, _DAMetadataRequesterMixin):
@@ -476,7 +476,7 @@ class PerDomain(BaseSelector):
             y = self._auto_mask_target_labels(y, params)
 
         X, y, params = X_container.merge_out(y, **params)
-        sample_domain = params['sample_domain']
+        sample_domain = np.asarray(params['sample_domain'])
         routing = get_routing_for_object(self.base_estimator)
         routing_request = getattr(routing, method_name)
         routed_params = self._prepare_routing(routing_request, X_container, params)
@@ -516,7 +516,7 @@ class PerDomain(BaseSelector):
         request = getattr(self.routing_, method_name)
         routed_params = self._prepare_routing(request, {}, params)
         # xxx(okachaiev): use check_*_domain to derive default domain labels
-        sample_domain = params['sample_domain']
+        sample_domain = np.asarray(params['sample_domain'])
         domain_outputs = {}
         # test if default target domain and unique target during fit and replace label
         for domain_label in np.unique(sample_domain):
@@ -537,7 +537,7 @@ class PerDomain(BaseSelector):
             else:
                 domain_output = method(X_domain, y_domain, **domain_params)
             domain_outputs[domain_label] = (idx, domain_output)
-        return _merge_domain_outputs(X.shape[0], domain_outputs)
+        return _merge_domain_outputs(len(sample_domain), domain_outputs)
 
 
 class _BaseSelectDomain(Shared):
-- 
2.43.0


From c2619d0f6683c58003f442a559fa30bf1d825405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:48 +0000
Subject: [PATCH 80/97] fix: domain labels are derived from masked labels in
 fit

---
 skada/_gradual_da.py |  2 ++
 skada/_ot.py         |  2 ++
 skada/base.py        | 29 +++++++++++++++++++++++++++++
 3 files changed, 33 insertions(+)

diff --git a/skada/_gradual_da.py b/skada/_gradual_da.py
index 5bdec6b..88f0c01 100644
--- a/skada/_gradual_da.py
+++ b/skada/_gradual_da.py
@@ -13,6 +13,7 @@ from sklearn.neural_network import MLPClassifier
 from sklearn.utils.validation import check_is_fitted
 
 from skada.base import DAEstimator
+from skada.utils import check_X_y_domain
 
 
 class GradualEstimator(DAEstimator):
@@ -106,6 +107,7 @@ class GradualEstimator(DAEstimator):
             Returns self.
         """
         self.estimators_ = []
+        X, y, sample_domain = check_X_y_domain(X, y, sample_domain)
         source = sample_domain >= 0
         target = sample_domain < 0
 
diff --git a/skada/_ot.py b/skada/_ot.py
index 90bd3db..2c0499d 100644
--- a/skada/_ot.py
+++ b/skada/_ot.py
@@ -572,6 +572,7 @@ class JDOTRegressor(DAEstimator):
 
     def fit(self, X, y=None, sample_domain=None, *, sample_weight=None):
         """Fit adaptation parameters"""
+        X, y, sample_domain = check_X_y_domain(X, y, sample_domain)
         Xs, Xt, ys, yt, ws, wt = source_target_split(
             X, y, sample_weight, sample_domain=sample_domain
         )
@@ -701,6 +702,7 @@ class JDOTClassifier(DAEstimator):
 
     def fit(self, X, y=None, sample_domain=None, *, sample_weight=None):
         """Fit adaptation parameters"""
+        X, y, sample_domain = check_X_y_domain(X, y, sample_domain)
         Xs, Xt, ys, yt, ws, wt = source_target_split(
             X, y, sample_weight, sample_domain=sample_domain
         )
diff --git a/skada/base.py b/skada/base.py
index d600c16..b9e9812 100644
--- a/skada/base.py
+++ b/skada/base.py
@@ -29,6 +29,8 @@ from skada._utils import (
     Y_Type,
     _DEFAULT_MASKED_TARGET_CLASSIFICATION_LABEL,
     _DEFAULT_MASKED_TARGET_REGRESSION_LABEL,
+    _DEFAULT_SOURCE_DOMAIN_LABEL,
+    _DEFAULT_TARGET_DOMAIN_LABEL,
 )
 from skada.utils import check_X_domain, check_X_y_domain, extract_source_indices
 
@@ -350,6 +352,25 @@ class BaseSelector(BaseEstimator, _DAMetadataRequesterMixin):
             routed_params = {k: params[k] for k in routing_request._consumes(params=params)}
         return routed_params
 
+    def _auto_sample_domain(self, y, params):
+        """Derives the domain labels from the masked labels, when the caller
+        gives none: masked samples are the target, the others are the source.
+        """
+        if y is None or params.get('sample_domain') is not None:
+            return params
+        y = np.asarray(y)
+        if y.ndim != 1 or y.dtype.kind not in 'iuf':
+            return params
+        if _find_y_type(y) == Y_Type.DISCRETE:
+            masked = y == _DEFAULT_MASKED_TARGET_CLASSIFICATION_LABEL
+        else:
+            masked = np.isnan(y)
+        if masked.any():
+            params['sample_domain'] = np.where(
+                masked, _DEFAULT_TARGET_DOMAIN_LABEL, _DEFAULT_SOURCE_DOMAIN_LABEL
+            )
+        return params
+
     def _auto_mask_target_labels(self, y, routed_params):
         if y is not None and routed_params.get('sample_domain') is not None:
             # the labels given by the caller should stay as they are
@@ -415,12 +436,14 @@ class Shared(BaseSelector):
 
     def fit(self, X, y=None, **params):
         X_container = MetadataContainer.from_input(X)
+        params = self._auto_sample_domain(y, params)
         self._fit('fit', X_container, y, **params)
         return self
 
     @available_if(_estimator_has('transform'))
     def fit_transform(self, X, y=None, **params):
         X_container = MetadataContainer.from_input(X)
+        params = self._auto_sample_domain(y, params)
         if hasattr(self.base_estimator, "fit_transform"):
             output = self._fit('fit_transform', X_container, y, **params)
         else:
@@ -468,6 +491,7 @@ class PerDomain(BaseSelector):
 
     def fit(self, X, y, **params):
         X_container = MetadataContainer.from_input(X)
+        params = self._auto_sample_domain(y, params)
         self._fit('fit', X_container, y, **params)
         return self
 
@@ -501,6 +525,7 @@ class PerDomain(BaseSelector):
     @available_if(_estimator_has('transform'))
     def fit_transform(self, X, y=None, **params):
         X_container = MetadataContainer.from_input(X)
+        params = self._auto_sample_domain(y, params)
         if hasattr(self.base_estimator, "fit_transform"):
             domain_outputs = self._fit('fit_transform', X_container, y=y, **params)
             output = _merge_domain_outputs(len(X_container), domain_outputs, allow_containers=True)
@@ -578,11 +603,13 @@ class _BaseSelectDomain(Shared):
 
     def fit(self, X, y=None, **params):
         X_container = MetadataContainer.from_input(X)
+        params = self._auto_sample_domain(y, params)
         return self._pre_filter('fit', X_container, y=y, **params)
 
     @available_if(_estimator_has('transform'))
     def fit_transform(self, X, y=None, **params):
         X_container = MetadataContainer.from_input(X)
+        params = self._auto_sample_domain(y, params)
         return self._pre_filter('fit_transform', X_container, y=y, **params)
 
 
@@ -698,6 +725,7 @@ class SelectSourceTarget(BaseSelector):
 
     def fit(self, X, y=None, **params):
         X_container = MetadataContainer.from_input(X)
+        params = self._auto_sample_domain(y, params)
         self._fit('fit', X_container, y=y, **params)
         return self
         
@@ -737,6 +765,7 @@ class SelectSourceTarget(BaseSelector):
     @available_if(_estimator_has('transform', base_attr_name='source_estimator'))
     def fit_transform(self, X, y=None, **params):
         X_container = MetadataContainer.from_input(X)
+        params = self._auto_sample_domain(y, params)
         if hasattr(self.source_estimator, "fit_transform") and (
             self.target_estimator is None
             or hasattr(self.target_estimator, "fit_transform")
-- 
2.43.0


From 74eec2e99c47e779838e9e0a86a2281b93be7294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:48 +0000
Subject: [PATCH 81/97] fix: deep embedded validation reads the column of the
 label

---
 skada/metrics.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/skada/metrics.py b/skada/metrics.py
index a781144..bd371df 100644
--- a/skada/metrics.py
+++ b/skada/metrics.py
@@ -466,6 +466,9 @@ class DeepEmbeddedValidation(_BaseDomainAwareScorer):
             X_val, sample_domain=sample_domain_val, allow_source=True
         )
 
+        if self._loss_func == self._no_reduc_log_loss:
+            # the default loss reads the column of the label
+            y_val, y_pred = self._align_columns(estimator, y_val, y_pred)
         error = np.asarray(self._loss_func(y_val, y_pred))
         if error.ndim == 1:
             # one column, as the weights
@@ -483,6 +486,22 @@ class DeepEmbeddedValidation(_BaseDomainAwareScorer):
             eta = -cov / var_w
         return self._sign * (np.mean(weighted_error) + eta * np.mean(weights) - eta)
 
+    def _align_columns(self, estimator, y, y_pred):
+        """Index of the labels among the columns of the predictions, where the
+        labels that the fitted estimator does not know have probability 0.
+        """
+        classes = None
+        if isinstance(estimator, Pipeline):
+            final_step = estimator.steps[-1][1]
+            final_estimator = getattr(final_step, "base_estimator_", final_step)
+            classes = getattr(final_estimator, "classes_", None)
+        if classes is None or len(classes) != y_pred.shape[1]:
+            return y, y_pred
+        labels = np.union1d(classes, y)
+        proba = np.zeros((len(y_pred), len(labels)), dtype=y_pred.dtype)
+        proba[:, np.searchsorted(labels, classes)] = y_pred
+        return np.searchsorted(labels, y), proba
+
     def cross_entropy_loss(self, y_true, y_pred, epsilon=1e-15):
         """
         Compute cross-entropy loss for a single sample between the true label
-- 
2.43.0


From e5431336e8ec6e31d48c49cdf32e96c4f9ccc1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:48 +0000
Subject: [PATCH 82/97] fix: supervised and circular scorers take labels as
 lists and floats

---
 skada/metrics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skada/metrics.py b/skada/metrics.py
index bd371df..540c292 100644
--- a/skada/metrics.py
+++ b/skada/metrics.py
@@ -83,7 +83,7 @@ class SupervisedScorer(_BaseDomainAwareScorer):
         return self._sign * self._score_func(
             estimator,
             X[~source_idx],
-            target_labels[~source_idx],
+            np.asarray(target_labels)[~source_idx],
             sample_domain=sample_domain[~source_idx],
             **params,
         )
@@ -652,7 +652,7 @@ class CircularValidation(_BaseDomainAwareScorer):
                 source_idx, -sample_domain - 1, -sample_domain
             )
 
-            backward_y = np.zeros_like(y)
+            backward_y = np.zeros_like(y, dtype=y_pred_target.dtype)
             backward_y[~source_idx] = y_pred_target
 
             if y_type == Y_Type.DISCRETE:
-- 
2.43.0


From 7c7ea34fb088eb144dc8deccfcdcd1b756c646bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:10 +0000
Subject: [PATCH 83/97] fix: an interrupted download is not taken for the
 dataset

---
 skada/datasets/_amazon_review.py | 18 ++++++++++------
 skada/datasets/_office.py        | 22 ++++++++++++--------
 skada/datasets/_office_home.py   | 35 +++++++++++++++++++++-----------
 3 files changed, 49 insertions(+), 26 deletions(-)

diff --git a/skada/datasets/_amazon_review.py b/skada/datasets/_amazon_review.py
index feacd66..3969093 100644
--- a/skada/datasets/_amazon_review.py
+++ b/skada/datasets/_amazon_review.py
@@ -3,6 +3,7 @@
 # License: BSD 3-Clause
 
 import os
+import tempfile
 import time
 import zipfile
 from collections import namedtuple
@@ -205,12 +206,17 @@ def _fetch_amazon_review(
     if not os.path.exists(dataset_dir):
         if not download_if_missing:
             raise OSError("Data not found and `download_if_missing` is False")
-        os.makedirs(dataset_dir)
-        _download_amazon_review(
-            loader_spec.remote,
-            data_home,
-            dataset_dir,
-        )
+        # the data only gets its name when it is complete, so that an interrupted
+        # download or extraction is not taken for the dataset
+        with tempfile.TemporaryDirectory(dir=data_home) as tmp_dir:
+            extracted_dir = os.path.join(tmp_dir, loader_spec.dataset_dir)
+            os.makedirs(extracted_dir)
+            _download_amazon_review(
+                loader_spec.remote,
+                data_home,
+                extracted_dir,
+            )
+            os.rename(extracted_dir, dataset_dir)
 
     (X, y) = _load_amazon_review(
         dataset_dir,
diff --git a/skada/datasets/_office.py b/skada/datasets/_office.py
index fb44322..d1926e7 100644
--- a/skada/datasets/_office.py
+++ b/skada/datasets/_office.py
@@ -7,6 +7,7 @@
 import fnmatch
 import os
 import tarfile
+import tempfile
 import time
 import warnings
 from collections import namedtuple
@@ -403,14 +404,19 @@ def _fetch_office31(
     if not os.path.exists(dataset_dir):
         if not download_if_missing:
             raise OSError("Data not found and `download_if_missing` is False")
-        os.makedirs(dataset_dir)
-        # juggling with `extract_root` is only required because SURF features
-        # were archived with root folder and DECAF without it
-        _download_office31(
-            loader_spec.remote,
-            data_home,
-            data_home if loader_spec.extract_root else dataset_dir,
-        )
+        # the data only gets its name when it is complete, so that an interrupted
+        # download or extraction is not taken for the dataset
+        with tempfile.TemporaryDirectory(dir=data_home) as tmp_dir:
+            extracted_dir = os.path.join(tmp_dir, loader_spec.dataset_dir)
+            os.makedirs(extracted_dir)
+            # juggling with `extract_root` is only required because SURF features
+            # were archived with root folder and DECAF without it
+            _download_office31(
+                loader_spec.remote,
+                data_home,
+                tmp_dir if loader_spec.extract_root else extracted_dir,
+            )
+            os.rename(extracted_dir, dataset_dir)
     if categories == Office31CategoriesPreset.ALL:
         # reset categories filter
         categories = None
diff --git a/skada/datasets/_office_home.py b/skada/datasets/_office_home.py
index 38f1290..e5cc97c 100644
--- a/skada/datasets/_office_home.py
+++ b/skada/datasets/_office_home.py
@@ -5,6 +5,7 @@
 
 import csv
 import os
+import tempfile
 import time
 import zipfile
 from collections import namedtuple
@@ -187,12 +188,17 @@ def _fetch_office_home_all(
     if not os.path.exists(dataset_dir):
         if not download_if_missing:
             raise OSError("Data not found and `download_if_missing` is False")
-        os.makedirs(dataset_dir)
-        _download_office_home(
-            loader_spec.remote,
-            data_home,
-            dataset_dir,
-        )
+        # the data only gets its name when it is complete, so that an interrupted
+        # download or extraction is not taken for the dataset
+        with tempfile.TemporaryDirectory(dir=data_home) as tmp_dir:
+            extracted_dir = os.path.join(tmp_dir, loader_spec.dataset_dir)
+            os.makedirs(extracted_dir)
+            _download_office_home(
+                loader_spec.remote,
+                data_home,
+                extracted_dir,
+            )
+            os.rename(extracted_dir, dataset_dir)
 
     (X, y, domains) = _load_office_home_all(
         dataset_dir,
@@ -225,12 +231,17 @@ def _fetch_office_home(
     if not os.path.exists(dataset_dir):
         if not download_if_missing:
             raise OSError("Data not found and `download_if_missing` is False")
-        os.makedirs(dataset_dir)
-        _download_office_home(
-            loader_spec.remote,
-            data_home,
-            dataset_dir,
-        )
+        # the data only gets its name when it is complete, so that an interrupted
+        # download or extraction is not taken for the dataset
+        with tempfile.TemporaryDirectory(dir=data_home) as tmp_dir:
+            extracted_dir = os.path.join(tmp_dir, loader_spec.dataset_dir)
+            os.makedirs(extracted_dir)
+            _download_office_home(
+                loader_spec.remote,
+                data_home,
+                extracted_dir,
+            )
+            os.rename(extracted_dir, dataset_dir)
 
     (X, y) = _load_office_home(
         dataset_dir,
-- 
2.43.0


From 7d2febcb371a8ed8b32ae67b2e7693253891c6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:10 +0000
Subject: [PATCH 84/97] fix: digits are drawn without repetition

---
 skada/datasets/_mnist_usps.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/skada/datasets/_mnist_usps.py b/skada/datasets/_mnist_usps.py
index 7d00641..4376bff 100644
--- a/skada/datasets/_mnist_usps.py
+++ b/skada/datasets/_mnist_usps.py
@@ -75,8 +75,9 @@ def load_mnist_usps(
     mnist_target = mnist_target[mnist_target < n_classes]
 
     selected_samples = rng.choice(
-        np.linspace(0, len(mnist_data) - 1, len(mnist_data)),
+        len(mnist_data),
         int(n_samples * len(mnist_data)),
+        replace=False,
     )
     mnist_data = mnist_data[selected_samples]
     mnist_target = mnist_target[selected_samples]
@@ -101,8 +102,9 @@ def load_mnist_usps(
     usps_target = usps_target[usps_target < n_classes]
 
     selected_samples = rng.choice(
-        np.linspace(0, len(usps_data) - 1, len(usps_data)),
+        len(usps_data),
         int(n_samples * len(usps_data)),
+        replace=False,
     )
     usps_data = usps_data[selected_samples]
     usps_target = usps_target[selected_samples]
-- 
2.43.0


From 7f3aa36f3739bff61630a1d33b49680f4645e1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:50 +0000
Subject: [PATCH 85/97] fix: labels that are names are masked too

---
 skada/datasets/_base.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/skada/datasets/_base.py b/skada/datasets/_base.py
index 891aaaa..c13ebf2 100644
--- a/skada/datasets/_base.py
+++ b/skada/datasets/_base.py
@@ -340,16 +340,17 @@ class DomainAwareDataset:
                 y_dtype = np.asarray(y).dtype
                 if mask is not None:
                     y = np.array([mask] * X.shape[0], dtype=dtype)
-                elif y_dtype.kind in "bui":
-                    # an unsigned label type can not hold the mask
-                    dtype = y_dtype if y_dtype.kind == "i" else np.dtype(np.int64)
-                    y = -np.ones(X.shape[0], dtype=dtype)
-                    # make sure that the mask is reused on the next iteration
-                    mask = -1
                 elif y_dtype.kind == "f":
                     y = np.array([np.nan] * X.shape[0], dtype=y_dtype)
                     # make sure that the  mask is reused on the next iteration
                     mask, dtype = np.nan, y_dtype
+                else:
+                    # labels can also be names, and an unsigned label type can
+                    # not hold the mask
+                    dtype = y_dtype if y_dtype.kind == "i" else np.dtype(np.int64)
+                    y = -np.ones(X.shape[0], dtype=dtype)
+                    # make sure that the mask is reused on the next iteration
+                    mask = -1
             # xxx(okachaiev): this is horribly inefficient, rewrite when API is fixed
             Xs.append(X)
             ys.append(y)
-- 
2.43.0


From 8b6df869b9e503d01e9f1a0fdabea8b8aea787eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:48 +0000
Subject: [PATCH 86/97] fix: the source estimator's requests are not lost in
 SelectSourceTarget

---
 skada/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skada/base.py b/skada/base.py
index b9e9812..6f4c78d 100644
--- a/skada/base.py
+++ b/skada/base.py
@@ -658,7 +658,7 @@ class SelectSourceTarget(BaseSelector):
 
     def get_metadata_routing(self):
         routing = MetadataRouter(owner=self.__class__.__name__).add_self_request(self)
-        routing.add(estimator=self.source_estimator, method_mapping=MethodMapping()
+        routing.add(source_estimator=self.source_estimator, method_mapping=MethodMapping()
             .add(callee='fit', caller='fit')
             .add(callee='partial_fit', caller='partial_fit')
             .add(callee='transform', caller='transform')
@@ -668,7 +668,7 @@ class SelectSourceTarget(BaseSelector):
             .add(callee='decision_function', caller='decision_function')
             .add(callee='score', caller='score'))
         if self.target_estimator is not None:
-            routing.add(estimator=self.target_estimator, method_mapping=MethodMapping()
+            routing.add(target_estimator=self.target_estimator, method_mapping=MethodMapping()
                 .add(callee='fit', caller='fit')
                 .add(callee='partial_fit', caller='partial_fit')
                 .add(callee='transform', caller='transform')
-- 
2.43.0


From 92e74f2f0cd30025a81875ff76c8ef02a42d47dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:23 +0000
Subject: [PATCH 87/97] fix: the contrastive discrepancy compares every class
 of a batch that misses some

---
 skada/deep/losses.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skada/deep/losses.py b/skada/deep/losses.py
index a184428..6075cac 100644
--- a/skada/deep/losses.py
+++ b/skada/deep/losses.py
@@ -246,8 +246,6 @@ def cdd_loss(
            In Proceedings of the IEEE/CVF Conference on Computer Vision
            and Pattern Recognition (pp. 4893-4902).
     """
-    n_classes = len(y_s.unique())
-
     # Use pre-computed target_kmeans
     if type(target_kmeans) is not SphericalKMeans:
         raise ValueError(
@@ -255,6 +253,9 @@ def cdd_loss(
             "A fitted SphericalKMeans should be provided."
         )
 
+    # One cluster per class: a batch of source samples may miss some of the classes
+    n_classes = len(target_kmeans.cluster_centers_)
+
     # Predict clusters for target samples
     cluster_labels_t = target_kmeans.predict(features_t)
 
-- 
2.43.0


From 2da0b9cd307e2ba3cb7daa238e6b03bbe7ba8242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:52 +0000
Subject: [PATCH 88/97] fix: the synthetic generators accept a RandomState
 instance

---
 skada/datasets/_samples_generator.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/skada/datasets/_samples_generator.py b/skada/datasets/_samples_generator.py
index fc3d272..3ff507d 100644
--- a/skada/datasets/_samples_generator.py
+++ b/skada/datasets/_samples_generator.py
@@ -12,6 +12,7 @@ from scipy import signal
 from scipy.fftpack import irfft, rfft
 from scipy.stats import multivariate_normal
 from sklearn.datasets import make_blobs
+from sklearn.utils import check_random_state
 
 from ._base import DomainAwareDataset
 
@@ -339,7 +340,7 @@ def make_shifted_blobs(
     dataset : :class:`~skada.datasets.DomainAwareDataset`
         Dataset object.
     """
-    rng = np.random.RandomState(random_state)
+    rng = check_random_state(random_state)
 
     X_source, y_source = make_blobs(
         n_samples=n_samples,
@@ -491,7 +492,7 @@ def make_shifted_datasets(
             A unifying view on dataset shift in classification.
             Pattern recognition, 45(1):521-530.
     """
-    rng = np.random.RandomState(random_state)
+    rng = check_random_state(random_state)
     X_source, y_source = _generate_data_2d_classif(
         n_samples_source,
         rng,
@@ -680,7 +681,7 @@ def make_dataset_from_moons_distribution(
     dataset : :class:`~skada.datasets.DomainAwareDataset`
         Dataset object.
     """
-    rng = np.random.RandomState(random_state)
+    rng = check_random_state(random_state)
 
     dataset = DomainAwareDataset(domains=[])
     sources = []
@@ -814,7 +815,7 @@ def make_variable_frequency_dataset(
     dataset : :class:`~skada.datasets.DomainAwareDataset`
         Dataset object.
     """
-    rng = np.random.RandomState(random_state)
+    rng = check_random_state(random_state)
     input_size = 3000
     fs = 100
     highest_frequency = 15
-- 
2.43.0


From b728b81e0616485f858e8e6a241afe9cbe09c6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:22 +0000
Subject: [PATCH 89/97] fix: load_mnist_usps accepts a RandomState instance

---
 skada/datasets/_mnist_usps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skada/datasets/_mnist_usps.py b/skada/datasets/_mnist_usps.py
index 4376bff..b256e14 100644
--- a/skada/datasets/_mnist_usps.py
+++ b/skada/datasets/_mnist_usps.py
@@ -10,7 +10,7 @@ try:
 except ImportError:
     torchvision = False
 
-import numpy as np
+from sklearn.utils import check_random_state
 
 from skada.datasets import DomainAwareDataset
 
@@ -54,7 +54,7 @@ def load_mnist_usps(
     if n_samples < 0 or n_samples > 1:
         raise ValueError("n_samples should be between 0 and 1.")
 
-    rng = np.random.RandomState(random_state)
+    rng = check_random_state(random_state)
 
     transform = transforms.Compose(
         [
-- 
2.43.0


From 7798f6a6558ed3b1c0dbb769c9fd32e0698e6ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:49 +0000
Subject: [PATCH 90/97] fix: make_shifted_datasets accepts scalar regression
 parameters for the subspace shift

---
 skada/datasets/_samples_generator.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/skada/datasets/_samples_generator.py b/skada/datasets/_samples_generator.py
index 3ff507d..c613fd0 100644
--- a/skada/datasets/_samples_generator.py
+++ b/skada/datasets/_samples_generator.py
@@ -493,14 +493,15 @@ def make_shifted_datasets(
             Pattern recognition, 45(1):521-530.
     """
     rng = check_random_state(random_state)
-    X_source, y_source = _generate_data_2d_classif(
-        n_samples_source,
-        rng,
-        mu_regression,
-        sigma_regression,
-        regression_scaling_constant,
-        label,
-    )
+    if shift != "subspace":
+        X_source, y_source = _generate_data_2d_classif(
+            n_samples_source,
+            rng,
+            mu_regression,
+            sigma_regression,
+            regression_scaling_constant,
+            label,
+        )
 
     if shift == "covariate_shift":
         n_samples_target_temp = n_samples_target * 100
-- 
2.43.0


From 35c7157a9d3236ed74a48aee7c76ab92526ffc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:02 +0000
Subject: [PATCH 91/97] fix: SupervisedScorer gets sample_domain from
 cross-validation

---
 skada/metrics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skada/metrics.py b/skada/metrics.py
index 540c292..671995d 100644
--- a/skada/metrics.py
+++ b/skada/metrics.py
@@ -73,7 +73,8 @@ class SupervisedScorer(_BaseDomainAwareScorer):
         super().__init__(
             score_func=scoring, sign=1 if greater_is_better else -1, kwargs=kwargs
         )
-        self.set_score_request(target_labels=True)
+        # each request replaces the previous one
+        self.set_score_request(sample_domain=True, target_labels=True)
 
     def _score(
         self, _, estimator, X, y=None, sample_domain=None, target_labels=None, **params
-- 
2.43.0


From 7461669f97298ac65be6d467bca2032cf58f7c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:02 +0000
Subject: [PATCH 92/97] fix: the importance weighted and DEV scorers can be
 shared by threads

---
 skada/metrics.py | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/skada/metrics.py b/skada/metrics.py
index 671995d..30f75d2 100644
--- a/skada/metrics.py
+++ b/skada/metrics.py
@@ -153,17 +153,18 @@ class ImportanceWeightedScorer(_BaseDomainAwareScorer):
 
         Returns
         -------
-        self : object
-            Returns self.
+        weight_estimators : tuple of two estimators
+            The estimators fitted on the source and on the target data.
         """
         weight_estimator = self.weight_estimator
         if weight_estimator is None:
             weight_estimator = KernelDensity()
-        self.weight_estimator_source_ = clone(weight_estimator)
-        self.weight_estimator_target_ = clone(weight_estimator)
-        self.weight_estimator_source_.fit(X_source)
-        self.weight_estimator_target_.fit(X_target)
-        return self
+        weight_estimator_source = clone(weight_estimator).fit(X_source)
+        weight_estimator_target = clone(weight_estimator).fit(X_target)
+        self.weight_estimator_source_ = weight_estimator_source
+        self.weight_estimator_target_ = weight_estimator_target
+        # the scorer may be shared by threads: do not read its attributes back
+        return weight_estimator_source, weight_estimator_target
 
     def _score(self, _, estimator, X, y, sample_domain=None, **params):
         scorer = check_scoring(estimator, self.scoring)
@@ -186,9 +187,11 @@ class ImportanceWeightedScorer(_BaseDomainAwareScorer):
         X_source_reshaped = X_source.reshape(X_source.shape[0], -1)
         X_target_reshaped = X_target.reshape(X_target.shape[0], -1)
 
-        self._fit(X_source_reshaped, X_target_reshaped)
-        ws = self.weight_estimator_source_.score_samples(X_source_reshaped)
-        wt = self.weight_estimator_target_.score_samples(X_source_reshaped)
+        weight_estimator_source, weight_estimator_target = self._fit(
+            X_source_reshaped, X_target_reshaped
+        )
+        ws = weight_estimator_source.score_samples(X_source_reshaped)
+        wt = weight_estimator_target.score_samples(X_source_reshaped)
         weights = np.exp(wt - ws)
 
         if weights.sum() != 0:
@@ -392,12 +395,12 @@ class DeepEmbeddedValidation(_BaseDomainAwareScorer):
         domain_classifier = self.domain_classifier
         if domain_classifier is None:
             domain_classifier = LogisticRegression()
-        self.domain_classifier_ = clone(domain_classifier)
+        domain_classifier = clone(domain_classifier)
         y_domain = np.concatenate((len(features) * [1], len(features_target) * [0]))
-        self.domain_classifier_.fit(
-            np.concatenate((features, features_target)), y_domain
-        )
-        return self
+        domain_classifier.fit(np.concatenate((features, features_target)), y_domain)
+        self.domain_classifier_ = domain_classifier
+        # the scorer may be shared by threads: do not read its attribute back
+        return domain_classifier
 
     def _score(self, _, estimator, X, y, sample_domain=None, **kwargs):
         if not hasattr(estimator, "predict_proba"):
@@ -459,9 +462,9 @@ class DeepEmbeddedValidation(_BaseDomainAwareScorer):
             features_val = features_val.detach().numpy()
             features_target = features_target.detach().numpy()
 
-        self._fit_adapt(features_train, features_target)
+        domain_classifier = self._fit_adapt(features_train, features_target)
         N_train, N_target = len(features_train), len(features_target)
-        domain_pred = self.domain_classifier_.predict_proba(features_val)
+        domain_pred = domain_classifier.predict_proba(features_val)
         weights = (N_train / N_target) * domain_pred[:, :1] / domain_pred[:, 1:]
         y_pred = estimator.predict_proba(
             X_val, sample_domain=sample_domain_val, allow_source=True
-- 
2.43.0


From 20dfeeba47abdf57142a3f0f1d1def301f487a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:02 +0000
Subject: [PATCH 93/97] fix: the columns of the outputs of a network are its
 labels for the DEV scorer

---
 skada/metrics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skada/metrics.py b/skada/metrics.py
index 30f75d2..5b874ff 100644
--- a/skada/metrics.py
+++ b/skada/metrics.py
@@ -498,7 +498,9 @@ class DeepEmbeddedValidation(_BaseDomainAwareScorer):
         if isinstance(estimator, Pipeline):
             final_step = estimator.steps[-1][1]
             final_estimator = getattr(final_step, "base_estimator_", final_step)
-            classes = getattr(final_estimator, "classes_", None)
+            if not hasattr(final_estimator, "module_"):
+                # the outputs of a network are numbered as the labels
+                classes = getattr(final_estimator, "classes_", None)
         if classes is None or len(classes) != y_pred.shape[1]:
             return y, y_pred
         labels = np.union1d(classes, y)
-- 
2.43.0


From f565d2a6f16178dda164b295ba728954606d727e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:02 +0000
Subject: [PATCH 94/97] fix: MixValScorer gives the mixed samples the domains
 of their labels

---
 skada/metrics.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/skada/metrics.py b/skada/metrics.py
index 5b874ff..b7e975b 100644
--- a/skada/metrics.py
+++ b/skada/metrics.py
@@ -791,13 +791,15 @@ class MixValScorer(_BaseDomainAwareScorer):
 
         # Mixup with X_target and hard pseudo labels
         mix_inputs = self.alpha * X_target + (1 - self.alpha) * X_target[rand_idx]
+        # labels and domains are those of the sample with the larger share
+        mix_domains = sample_domain[~source_idx]
         if self.alpha >= 0.5:
             mix_labels = labels_a
         else:
             mix_labels = labels_b
+            mix_domains = mix_domains[rand_idx]
 
         # Calculate ICE scores based on ice_type
-        # TODO: handle multiple target domains
         if self.ice_type in ["both", "intra"]:
             if len(same_idx) == 0:
                 ice_same = np.nan
@@ -806,7 +808,7 @@ class MixValScorer(_BaseDomainAwareScorer):
                     estimator,
                     mix_inputs[same_idx],
                     mix_labels[same_idx],
-                    sample_domain=np.full(same_idx.shape[0], -1),
+                    sample_domain=mix_domains[same_idx],
                 )
 
         if self.ice_type in ["both", "inter"]:
@@ -817,7 +819,7 @@ class MixValScorer(_BaseDomainAwareScorer):
                     estimator,
                     mix_inputs[diff_idx],
                     mix_labels[diff_idx],
-                    sample_domain=np.full(diff_idx.shape[0], -1),
+                    sample_domain=mix_domains[diff_idx],
                 )
 
         if self.ice_type == "both":
-- 
2.43.0


From 4bb742ab4dfecb9593595a9f77efb9f410996d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:02 +0000
Subject: [PATCH 95/97] fix: the MaNoScorer scores networks in evaluation mode

---
 skada/metrics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skada/metrics.py b/skada/metrics.py
index b7e975b..6b16cc9 100644
--- a/skada/metrics.py
+++ b/skada/metrics.py
@@ -904,6 +904,7 @@ class MaNoScorer(_BaseDomainAwareScorer):
                 raise ValueError("The layer_name of the estimator is not set.")
 
             # 1) Recover logits on target
+            estimator.module_.eval()
             logits = estimator.infer(X[~source_idx], **params).cpu().detach().numpy()
 
             # 2) Normalize logits to obtain probabilities
-- 
2.43.0


From 016a9ca57c0bab143532812efda5d909a5b3d4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:02 +0000
Subject: [PATCH 96/97] fix: JDOTClassifier and GradualEstimator have classes_

---
 skada/_gradual_da.py | 6 ++++++
 skada/_ot.py         | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/skada/_gradual_da.py b/skada/_gradual_da.py
index 88f0c01..95286b1 100644
--- a/skada/_gradual_da.py
+++ b/skada/_gradual_da.py
@@ -214,6 +214,12 @@ class GradualEstimator(DAEstimator):
         )  # Use the classifier to predict labels
         return X_step, y_step
 
+    @property
+    def classes_(self):
+        """Labels of the columns of the predicted probabilities."""
+        check_is_fitted(self, "base_estimator_")
+        return self.base_estimator_.classes_
+
     def get_intermediate_estimators(self):
         """Return the intermediate estimators.
 
diff --git a/skada/_ot.py b/skada/_ot.py
index 2c0499d..0f79529 100644
--- a/skada/_ot.py
+++ b/skada/_ot.py
@@ -726,6 +726,12 @@ class JDOTClassifier(DAEstimator):
         self.estimator_, self.lst_loss_ot_, self.lst_loss_tgt_labels_, self.sol_ = res
         return self
 
+    @property
+    def classes_(self):
+        """Labels of the columns of the predicted probabilities"""
+        check_is_fitted(self)
+        return self.estimator_.classes_
+
     def predict(self, X, sample_domain=None, *, sample_weight=None, allow_source=False):
         """Predict using the model"""
         check_is_fitted(self)
-- 
2.43.0


From abbc050b9f0012f0f2a936459000073f7e73d09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:14 +0000
Subject: [PATCH 97/97] fix: deepcoral_loss does not center features with
 assume_centered

---
 skada/deep/losses.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skada/deep/losses.py b/skada/deep/losses.py
index 6075cac..1c1b0c2 100644
--- a/skada/deep/losses.py
+++ b/skada/deep/losses.py
@@ -44,8 +44,9 @@ def deepcoral_loss(features, features_target, assume_centered=False):
     if not assume_centered:
         features = features - features.mean(0)
         features_target = features_target - features_target.mean(0)
-    cov = torch.cov(features.T)
-    cov_target = torch.cov(features_target.T)
+    # torch.cov would center the features in any case
+    cov = features.T @ features / (len(features) - 1)
+    cov_target = features_target.T @ features_target / (len(features_target) - 1)
     divergence = mse_loss(cov, cov_target, reduction="sum")
     dim = features.shape[1]
     loss = (1 / (4 * (dim**2))) * divergence
-- 
2.43.0

