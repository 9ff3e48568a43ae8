From bd78eb2b9b2cf3e4d261f1c2a8558af203b54b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:41 +0000
Subject: [PATCH 01/40] fix: failed or rejected add leaves the model unchanged,
 and models own their data

---
 src/lop/models/GP.py              | 14 ++++++++------
 src/lop/models/PreferenceModel.py | 22 +++++++++++++++++-----
 2 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/src/lop/models/GP.py b/src/lop/models/GP.py
index a189b62..35f5a68 100644
--- a/src/lop/models/GP.py
+++ b/src/lop/models/GP.py
@@ -69,13 +69,15 @@ class GP(Model):
         y = y - self.mean_func(X)
 
         if self.X_train is None:
-            self.X_train = X
-            self.y_train = y
-            self.training_sigma = training_sigma
+            # copies, the caller keeps ownership of the passed arrays
+            X, y, training_sigma = np.array(X), np.array(y), np.array(training_sigma)
         else:
-            self.X_train = np.append(self.X_train, X, axis=0)
-            self.y_train = np.append(self.y_train, y, axis=0)
-            self.training_sigma = np.append(self.training_sigma, training_sigma, axis=0)
+            X = np.append(self.X_train, X, axis=0)
+            y = np.append(self.y_train, y, axis=0)
+            training_sigma = np.append(self.training_sigma, training_sigma, axis=0)
+
+        # store everything together, so a failed add leaves the model unchanged
+        self.X_train, self.y_train, self.training_sigma = X, y, training_sigma
 
 
     ## clear_training
diff --git a/src/lop/models/PreferenceModel.py b/src/lop/models/PreferenceModel.py
index 1d55f98..9366c53 100644
--- a/src/lop/models/PreferenceModel.py
+++ b/src/lop/models/PreferenceModel.py
@@ -185,11 +185,22 @@ class PreferenceModel(Model):
     #                          accepts scalars or a vector if each sample has
     #                          a different uncertianty.
     def add(self, X, y, type='relative_discrete', training_sigma=0):
+        X_prev, y_prev = self.X_train, list(self.y_train)
+        try:
+            self._add_data(X, y, type, training_sigma)
+        except BaseException:
+            # a failed add must not leave a half updated model behind
+            self.X_train, self.y_train = X_prev, y_prev
+            raise
+
+    ## _add_data
+    # performs the update of the training data for add (same parameters as add)
+    def _add_data(self, X, y, type='relative_discrete', training_sigma=0):
         if not isinstance(training_sigma, Sequence):
             training_sigma = np.ones(len(y)) * training_sigma
 
         if self.X_train is None:
-            self.X_train = X
+            self.X_train = np.array(X) # copy, the caller keeps ownership of X
             len_X = 0
         else:
             len_X = len(self.X_train)
@@ -215,7 +226,7 @@ class PreferenceModel(Model):
                 new_y[:,0] = y
                 new_y[:,1] = np.arange(0, y.shape[0]) + len_X
             else:
-                new_y = y
+                new_y = np.array(y)
 
             if (new_y[:,0] <= 0).any():
                 raise Exception("Can't pass ordinal with 0 rating (must all be positive ordinal values)")
@@ -232,13 +243,12 @@ class PreferenceModel(Model):
         elif type == 'abs':
             if isinstance(y, tuple):
                 v = y[0]
-                idxs = y[1]
+                idxs = np.array(y[1])
             elif isinstance(y, np.ndarray):
                 v = y
                 idxs = np.arange(len_X, y.shape[0]+len_X)
             else:
-                print('abs type received unknown type for y')
-                return
+                raise ValueError('abs type received unknown type for y: ' + str(y.__class__))
 
             if (v < 0).any() or (v > 1.0).any():
                 raise ValueError("Absloute bounded input must be between 0 and 1. v = " + str(v))
@@ -250,6 +260,8 @@ class PreferenceModel(Model):
                 idxs = np.append(self.y_train[self.probit_idxs[type]][1], idxs, axis=0)
 
             self.y_train[self.probit_idxs[type]] = (v, idxs)
+        else:
+            raise ValueError('add received an unknown type of training data: ' + str(type))
 
         if self.pareto_pairs and len(self.X_train) > 1:
             pairs = []
-- 
2.43.0


From 675dd6334a7f90a1f3338dae000fa48515e8c70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:33 +0000
Subject: [PATCH 02/40] fix: pruning unreferenced prior points keeps rated
 points and their references

---
 src/lop/models/PreferenceModel.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/lop/models/PreferenceModel.py b/src/lop/models/PreferenceModel.py
index 9366c53..bf10cda 100644
--- a/src/lop/models/PreferenceModel.py
+++ b/src/lop/models/PreferenceModel.py
@@ -95,11 +95,9 @@ class PreferenceModel(Model):
             pts = pts
             num_pts = pts.shape[0]
 
-        if self.X_train is not None:
-            self.prior_idx = (self.X_train.shape[0], self.X_train.shape[0]+num_pts)
-        else:
-            self.prior_idx = (0, num_pts)
+        num_prev = 0 if self.X_train is None else self.X_train.shape[0]
         self.add(pts, [], type='relative_discrete')
+        self.prior_idx = (num_prev, num_prev+num_pts)
         self.remove_without_reference()
 
 
@@ -116,10 +114,16 @@ class PreferenceModel(Model):
         # iterate through each type of training data
         for type in self.probit_idxs:
             y = self.y_train[self.probit_idxs[type]]
+            if y is None:
+                continue
             if type == 'relative_discrete':
                 for pair in y:
                     counts[pair[1]] += 1
                     counts[pair[2]] += 1
+            else:
+                # ordinal and abs data (values, indicies)
+                for idx in y[1]:
+                    counts[idx] += 1
 
         # check which pts don't have any counts
         #idx_to_rm = [x for x in range(len(counts)) if counts[x] == 0]
@@ -134,19 +138,26 @@ class PreferenceModel(Model):
 
         # remove X_train points to remove
         self.X_train = np.delete(self.X_train, idx_to_rm, axis=0)
+        if len(self.X_train) == 0:
+            self.X_train = None
+            self.prior_idx = None
 
         # reduce indicies of y_train to match removed indicies
         for type in self.probit_idxs:
             y = self.y_train[self.probit_idxs[type]]
+            if y is None:
+                continue
             if type == 'relative_discrete':
                 for pair in y:
                     pair[1] -= counts[pair[1]]
                     pair[2] -= counts[pair[2]]
+            else:
+                self.y_train[self.probit_idxs[type]] = (y[0], y[1] - counts[y[1]].astype(int))
 
 
-        if remove_prior:
+        if remove_prior and self.prior_idx is not None:
             # update the index if they have been removed
-            prior_idx = (self.prior_idx[0], self.prior_idx[1] - len(idx_to_rm))
+            prior_idx = tuple(end - int(np.sum(np.array(idx_to_rm) < end)) for end in self.prior_idx)
             self.prior_idx = prior_idx
 
 
-- 
2.43.0


From 4b77283f8939b0ea54fec4999725d972a63dca6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:58 +0000
Subject: [PATCH 03/40] fix: dominance pairs do not depend on the order the
 points were added in

---
 src/lop/models/PreferenceModel.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lop/models/PreferenceModel.py b/src/lop/models/PreferenceModel.py
index bf10cda..ad9f0bd 100644
--- a/src/lop/models/PreferenceModel.py
+++ b/src/lop/models/PreferenceModel.py
@@ -284,6 +284,10 @@ class PreferenceModel(Model):
                 cur_pairs = [(d_better, i+len_X, j) for j in range(len(dominate)) if dominate[j]]
                 pairs += cur_pairs
 
+                # points added earlier can dominate the new sample as well
+                dominated = np.all(self.X_train[:len_X] > x, axis=1)
+                pairs += [(d_better, j, i+len_X) for j in range(len_X) if dominated[j]]
+
             if self.y_train[self.probit_idxs['relative_discrete']] is None and len(pairs) > 0:
                 self.y_train[self.probit_idxs['relative_discrete']] = np.array(pairs)
             else:
-- 
2.43.0


From 772eefde3bf0a4ae0ad48781da559fe00126803a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:42 +0000
Subject: [PATCH 04/40] fix: a singular or uninvertible hessian no longer
 drives the fit downhill

newton_update subtracted the plain gradient, walking away from the maximum,
and swallowed interrupts; log_likelyhood_training started a debugger.
PreferenceLinear ignored mat_inv and reversed single preferences.
---
 src/lop/models/PreferenceLinear.py |  5 +++++
 src/lop/models/PreferenceModel.py  | 13 ++++---------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/lop/models/PreferenceLinear.py b/src/lop/models/PreferenceLinear.py
index 5f81114..77d1a73 100644
--- a/src/lop/models/PreferenceLinear.py
+++ b/src/lop/models/PreferenceLinear.py
@@ -91,6 +91,7 @@ class PreferenceLinear(PreferenceModel):
                                        gradient=gradient, 
                                        hess=hess,
                                        loss_func = self.loss_func,
+                                       invert_function=self.mat_inv,
                                        lambda_type="binary", # sets the type of line search ("static", "binary", "iter")
                                        line_search_max_itr=5)
 
@@ -99,6 +100,10 @@ class PreferenceLinear(PreferenceModel):
 
             # measure error convergence
             w_err = np.linalg.norm(w_new - w, ord=2)
+
+            # separable data has no finite optimum, stop once the fit does not improve
+            if np.abs(self.loss_func(w_new) - self.loss_func(w)) < 1e-4:
+                w_err = 0
             
             w = w_new
             n_loops += 1
diff --git a/src/lop/models/PreferenceModel.py b/src/lop/models/PreferenceModel.py
index ad9f0bd..d563373 100644
--- a/src/lop/models/PreferenceModel.py
+++ b/src/lop/models/PreferenceModel.py
@@ -317,13 +317,7 @@ class PreferenceModel(Model):
         log_p_w = 0.0
         for j, probit in enumerate(self.probits):
             if y[j] is not None:
-                try:
-                    p_w_local = probit.log_likelihood(y[j], F)
-                except:
-                    import pdb
-                    pdb.set_trace()
-
-                log_p_w += p_w_local
+                log_p_w += probit.log_likelihood(y[j], F)
 
         return log_p_w
 
@@ -423,8 +417,9 @@ class PreferenceModel(Model):
         # positive since we are searching for the max.
         try:
             descent = gradient @ invert_function(hess)
-        except:
-            descent = gradient
+        except Exception:
+            # hessian could not be inverted, damp it so that the step still goes uphill
+            descent = np.linalg.solve(hess - 0.1*np.identity(len(hess)), gradient)
 
         if lambda_type == "binary":
             # search along the descent direction for the min point.
-- 
2.43.0


From e70944ecdadcfbcdc2d8c0246554939a95d1900e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:42 +0000
Subject: [PATCH 05/40] fix: failed factorisations retry or raise instead of
 returning random predictions

find_mode returned random values marked as optimized, predict used a wrong
formula in its fallback, both swallowed interrupts or started a debugger.
---
 src/lop/models/PreferenceGP.py | 40 +++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/src/lop/models/PreferenceGP.py b/src/lop/models/PreferenceGP.py
index eecdc90..ea2a41f 100644
--- a/src/lop/models/PreferenceGP.py
+++ b/src/lop/models/PreferenceGP.py
@@ -126,12 +126,9 @@ class PreferenceGP(PreferenceModel):
             L = np.linalg.cholesky(K)
             lower = True
             alpha = cho_solve((L, lower), F)
-        except:
-            try:
-                K_inv = np.linalg.pinv(K)
-                alpha = F.transpose() @ K_inv @ F
-            except:
-                pdb.set_trace()
+        except np.linalg.LinAlgError:
+            K_inv = np.linalg.pinv(K)
+            alpha = K_inv @ F
 
         ####### calculate the mu of the value
         mu = np.matmul(covXX_test, alpha)
@@ -197,10 +194,7 @@ class PreferenceGP(PreferenceModel):
         for j, probit in enumerate(self.probits):
             if y[j] is not None:
                 W_local, dpy_df_local, py_local = probit.derivatives(y[j], F)
-                try:
-                    W += W_local
-                except:
-                    pdb.set_trace()
+                W += W_local
                 grad_ll += dpy_df_local
                 log_likelihood += py_local
 
@@ -226,14 +220,24 @@ class PreferenceGP(PreferenceModel):
         n_loops = 0
         f_err = self.delta_f + 1
 
-        try:
-            L = np.linalg.cholesky(self.K)
-            L_inv = np.linalg.inv(L)
-            K_inv = L_inv.T @ L_inv
-        except:
-            print('inverting covariance matrix failed... Just returning F as random values and trying again')
-            np.save('failed_covaraince.npy', {'X_train': X_train, 'y_train': y_train, 'k_params': self.cov_func.get_param()})
-            f_err = 0 # stops trying to find the mode and skipping the optimization loop
+        # a covariance matrix which can not be inverted is tried again, first
+        # as is, and then with a growing jitter on its diagonal.
+        K = self.K
+        for jitter in [0, 0, 1e-8, 1e-6, 1e-4]:
+            try:
+                self.K = K + jitter * np.mean(np.diagonal(K)) * np.identity(len(K))
+                L = np.linalg.cholesky(self.K)
+                L_inv = np.linalg.inv(L)
+                K_inv = L_inv.T @ L_inv
+                break
+            except np.linalg.LinAlgError:
+                print('inverting covariance matrix failed... trying again')
+        else:
+            try:
+                np.save('failed_covaraince.npy', {'X_train': X_train, 'y_train': y_train, 'k_params': self.cov_func.get_param()})
+            except OSError:
+                print('could not save the failed covariance')
+            raise np.linalg.LinAlgError('covariance matrix of the training data can not be inverted')
 
         # checking for convergence by optimization amount
         while f_err > self.delta_f:
-- 
2.43.0


From d2dc22bd08d34f384893cd159716f22c09285d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:04 +0000
Subject: [PATCH 06/40] fix: hyperparameter search restarts each parameter from
 its own prior and never leaves a fold's fit marked as current

---
 src/lop/models/PreferenceGP.py    | 16 ++++++++++------
 src/lop/probits/AbsBoundProbit.py |  2 ++
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/lop/models/PreferenceGP.py b/src/lop/models/PreferenceGP.py
index ea2a41f..07560df 100644
--- a/src/lop/models/PreferenceGP.py
+++ b/src/lop/models/PreferenceGP.py
@@ -103,8 +103,8 @@ class PreferenceGP(PreferenceModel):
             self.cov = cov
             return np.zeros(len(X)), sigma
 
-        # lazy optimization of GP
-        if not self.optimized:
+        # lazy optimization of GP (not needed if the fit to use is given)
+        if not self.optimized and F is None:
             self.optimize(optimize_hyperparameter=self.use_hyper_optimization)
 
         X_test = X
@@ -292,6 +292,8 @@ class PreferenceGP(PreferenceModel):
                                         self.derivatives(y_train, self.F)
 
     def optimize(self, optimize_hyperparameter=False):
+        self.optimized = False # until the fit below is complete
+
         if optimize_hyperparameter and self.X_train is not None:
             k_fold = min(math.floor(len(self.X_train) / 2), 4)
             if k_fold > 1:
@@ -373,7 +375,6 @@ class PreferenceGP(PreferenceModel):
     # This function performs an iteration of searching hyperparemters
     def hyperparameter_search(self, X_train, y_train, X_valid, y_valid, prev_grad, itr=0):
         # uses the scipy optimizer to perform the optimization
-        self.optimized = True
 
         x0 = self.get_hyper()
         
@@ -487,12 +488,15 @@ class PreferenceGP(PreferenceModel):
     def randomize_hyper(self):
         probit_samples = np.array([])
         for i in range(len(self.probits)):
-            sample = self.probits[i].randomize_hyper()
-            probit_samples = np.append(probit_samples, sample, axis=0)
+            # set_hyper only takes the parameters of probits with training data
+            if self.y_train[i] is not None:
+                sample = self.probits[i].randomize_hyper()
+                probit_samples = np.append(probit_samples, sample, axis=0)
 
         if self.hyperparam_only_probit:
             self.set_hyper(probit_samples)
-        
+            return
+
         cov_samples = self.cov_func.randomize_hyper()
 
         self.set_hyper(np.append(probit_samples, cov_samples, axis=0))
diff --git a/src/lop/probits/AbsBoundProbit.py b/src/lop/probits/AbsBoundProbit.py
index a6c2291..3cb4338 100644
--- a/src/lop/probits/AbsBoundProbit.py
+++ b/src/lop/probits/AbsBoundProbit.py
@@ -167,6 +167,8 @@ class AbsBoundProbit(ProbitBase):
     # liklihood function
     # @return numpy array of independent samples.
     def randomize_hyper(self):
+        if not self.optimize_parameters:
+            return super().randomize_hyper()
         if self.optimize_v_only:
             return np.array([np.random.gamma(self.v_k, self.v_theta)])
         else:
-- 
2.43.0


From 11458fed5e545fef0c683ec37ea934f4035935c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:11 +0000
Subject: [PATCH 07/40] fix: selections return the requested number of distinct
 eligible points

Pairs were selected for single point queries, ignored the indicies to
consider, could repeat a point, and points passed over were not used when the
prefered points ran out.
---
 src/lop/active_learning/AcquisitionBase.py    |  2 +-
 .../active_learning/AcquisitionSelection.py   |  4 ++--
 src/lop/active_learning/ActiveLearner.py      | 24 ++++++++++++-------
 src/lop/active_learning/BayesInfoGain.py      |  6 ++---
 4 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/lop/active_learning/AcquisitionBase.py b/src/lop/active_learning/AcquisitionBase.py
index 5dd8d20..6ab6209 100644
--- a/src/lop/active_learning/AcquisitionBase.py
+++ b/src/lop/active_learning/AcquisitionBase.py
@@ -72,7 +72,7 @@ class AcquisitionBase(ActiveLearner):
             num_alts = self.num_alts
             if num_alts == 1:
                 num_alts = 2
-        except:
+        except AttributeError:
             num_alts = 2
         
         if self.rep_Q_method == 'sampled':
diff --git a/src/lop/active_learning/AcquisitionSelection.py b/src/lop/active_learning/AcquisitionSelection.py
index 8ec26be..350a721 100644
--- a/src/lop/active_learning/AcquisitionSelection.py
+++ b/src/lop/active_learning/AcquisitionSelection.py
@@ -100,7 +100,7 @@ class AcquisitionSelection(AcquisitionBase):
             # THIS IS PROBABLY NOT THE RIGHT WAY TO HANDLE THIS
             # But needs at least a pair in order to calculate properly.
             self.sel_metric = 0
-            return np.random.choice(indicies)[0]
+            return np.random.choice(indicies)
             #return np.argmax(mu)
 
         x_rep, Q_rep = self.get_representative_Q(candidate_pts)
@@ -231,6 +231,6 @@ class AcquisitionSelection(AcquisitionBase):
         # represents the alignment metric for each pair being selected as align_Q
         align_Q = E_align_q + E_align_q.T
         
-        pair = self.pick_pair_from_metric(align_Q, prev_selection)
+        pair = self.pick_pair_from_metric(align_Q, prev_selection, indicies)
         self.sel_metric = align_Q[pair[0], pair[1]]
         return pair
diff --git a/src/lop/active_learning/ActiveLearner.py b/src/lop/active_learning/ActiveLearner.py
index 1d9cd6d..dda13c8 100644
--- a/src/lop/active_learning/ActiveLearner.py
+++ b/src/lop/active_learning/ActiveLearner.py
@@ -75,7 +75,7 @@ class ActiveLearner:
         self.first_call_greedy = True
         try:
             num_alts = min(num_alts, self.max_num_alts)
-        except:
+        except AttributeError:
             pass
         self.num_alts = num_alts
         prefer_pts = self.get_prefered_set_of_pts(candidate_pts, prefer_pts)
@@ -99,7 +99,7 @@ class ActiveLearner:
             all_not_selected = (set(range(len(candidate_pts))) - prev_selection) - set(sel_pts)
             not_selected = []
 
-            while len(sel_pts) < num_alts and len(all_not_selected) > 0:
+            while len(sel_pts) < num_alts and (len(all_not_selected) > 0 or len(not_selected) > 0):
                 # weird case where points have been selected already but out of 'prefered points'
                 # take the first index of the list then.
                 if len(pref_not_sel) == 0 and len(not_selected) > 0:
@@ -107,7 +107,7 @@ class ActiveLearner:
                     not_selected.pop(0) 
                 else:
                     if len(prev_selection) == 0 and select_pair_first and (num_alts - len(sel_pts) > 1) and hasattr(self, "select_pair"):
-                        selected_pair = self.select_pair(candidate_pts, mu, data, pref_not_sel, prev_selection | set(sel_pts))
+                        selected_pair = self.select_pair(candidate_pts, mu, data, all_not_selected, prev_selection | set(sel_pts))
                         selected_idx = selected_pair[0]
 
                         # handle second index
@@ -133,12 +133,14 @@ class ActiveLearner:
 
             return sel_pts, not_selected
         else:
-            all_not_selected = None            
+            all_not_selected = None
+            # only start with a pair if a pair is needed
+            use_pair = select_pair_first and num_alts > 1 and len(prev_selection) == 0 and hasattr(self, "select_pair")
 
             while len(sel_pts) < num_alts:
                 # only select from the prefered points if they still exist
                 if len(pref_not_sel) > 0:
-                    if select_pair_first and len(sel_pts) == 0 and hasattr(self, "select_pair"):
+                    if use_pair and len(sel_pts) == 0 and len(pref_not_sel) > 1:
                         selected_idx = self.select_pair(candidate_pts, mu, data, pref_not_sel, prev_selection | set(sel_pts))
                         
                         if selected_idx[0] in pref_not_sel:
@@ -155,7 +157,7 @@ class ActiveLearner:
                     # ensure that there is at least some pts left to select from
                     if len(all_not_selected) == 0:
                         raise Exception("Not enough points for select to create a full set")
-                    if select_pair_first and len(sel_pts) == 0 and hasattr(self, "select_pair"):
+                    if use_pair and len(sel_pts) == 0 and len(all_not_selected) > 1:
                         selected_idx = self.select_pair(candidate_pts, mu, data, all_not_selected, prev_selection | set(sel_pts))
                         all_not_selected.remove(selected_idx[0])
                         all_not_selected.remove(selected_idx[1])
@@ -264,9 +266,15 @@ class ActiveLearner:
     # pick a particular pair from a matrix of info gain
     # @param info_gain - 2d matrix [Q,Q] each represents the info gain of picking
     #                   pair [i,j].
+    # @param indicies - [opt] the indicies to consider for the pair
     #
     # @return (i,j) pair to select
-    def pick_pair_from_metric(self, info_gain, prev_selection):
+    def pick_pair_from_metric(self, info_gain, prev_selection, indicies=None):
+        if indicies is not None:
+            ignored = list(set(range(len(info_gain))) - set(indicies))
+            info_gain[ignored,:] = -np.inf
+            info_gain[:,ignored] = -np.inf
+
         # just a check to ensure the same points do not get selected twice.
         # Shouldn't happen, but in case it does... really makes sure.
         np.fill_diagonal(info_gain, -np.inf)
@@ -284,7 +292,7 @@ class ActiveLearner:
 
         # randomly select from the same values
         if num_same == 0:
-            pdb.set_trace()
+            raise ValueError('pick_pair_from_metric: no pair with a valid metric to pick from')
         to_pick = np.random.randint(0, num_same)
 
         idx_best = np.unravel_index(sorted[to_pick], info_gain.shape)
diff --git a/src/lop/active_learning/BayesInfoGain.py b/src/lop/active_learning/BayesInfoGain.py
index 92fa0f7..79a4b15 100644
--- a/src/lop/active_learning/BayesInfoGain.py
+++ b/src/lop/active_learning/BayesInfoGain.py
@@ -104,7 +104,7 @@ class BayesInfoGain(ActiveLearner):
                 probit_mat = self.model.probits[0].likelihood_all_pairs(mu)
 
                 # Get the probabilities of which candidate_pts is the best.
-                p_B = self.p_B_pref_linear(candidate_pts, mu, probit_mat)
+                p_B = self.p_B_pref_linear(candidate_pts, mu)
             self.p_B = p_B
             self.probit_mat = probit_mat
             self.first_call_greedy = False
@@ -178,7 +178,7 @@ class BayesInfoGain(ActiveLearner):
         p_B, probit_mat = self.get_p_B_probit(candidate_pts, mu)
 
         if self.model.X_train is None:
-            idxs = np.random.choice(list(indicies), 2)
+            idxs = np.random.choice(list(indicies), 2, replace=False)
             return (idxs[0], idxs[1])
 
         if debug:
@@ -257,7 +257,7 @@ class BayesInfoGain(ActiveLearner):
             print(info_gain)
 
 
-        idx_best = self.pick_pair_from_metric(info_gain, prev_selection)
+        idx_best = self.pick_pair_from_metric(info_gain, prev_selection, indicies)
         
 
         print('idx_best: ' + str(idx_best))
-- 
2.43.0


From 7b7b77b82aea108080727c46ec7ec2c8e56a9ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:08 +0000
Subject: [PATCH 08/40] fix: no library call stops in a debugger

---
 src/lop/active_learning/AbsBayesInfo.py       |  1 -
 src/lop/active_learning/ProbabilityLearner.py | 20 ++++---------------
 src/lop/probits/PreferenceProbit.py           |  2 +-
 3 files changed, 5 insertions(+), 18 deletions(-)

diff --git a/src/lop/active_learning/AbsBayesInfo.py b/src/lop/active_learning/AbsBayesInfo.py
index 6f3ffe5..f74c389 100644
--- a/src/lop/active_learning/AbsBayesInfo.py
+++ b/src/lop/active_learning/AbsBayesInfo.py
@@ -79,7 +79,6 @@ class AbsBayesInfo(ActiveLearner):
     def p_q_f_B_unorm(self, q, aa, bb, ml):
         ml_r = np.repeat(ml[:,np.newaxis, :], ml.shape[1], axis=1)
         p_q_f = beta.pdf(q, aa, bb)
-        pdb.set_trace()
         p_q_f_B = np.where(q > ml_r, np.repeat(p_q_f[:,:,np.newaxis], p_q_f.shape[1], axis=2), 0)
         return p_q_f_B
 
diff --git a/src/lop/active_learning/ProbabilityLearner.py b/src/lop/active_learning/ProbabilityLearner.py
index ad22b8e..4ecc338 100644
--- a/src/lop/active_learning/ProbabilityLearner.py
+++ b/src/lop/active_learning/ProbabilityLearner.py
@@ -83,20 +83,8 @@ class ProbabilityLearner(ActiveLearner):
 
         #p = p / np.sum(p)
 
-        print(candidate_pts)
-        print(mu)
-        print(p)
-        print(np.sum(p))
-
-        plt.show()
-        pdb.set_trace()
-
-
-                
-
-
-
-
-        
-
+        indicies = list(indicies)
 
+        best_idx = np.argmax(p[indicies])
+        self.sel_metric = p[indicies][best_idx]
+        return indicies[best_idx]
diff --git a/src/lop/probits/PreferenceProbit.py b/src/lop/probits/PreferenceProbit.py
index f7b69d5..49a629e 100644
--- a/src/lop/probits/PreferenceProbit.py
+++ b/src/lop/probits/PreferenceProbit.py
@@ -272,7 +272,7 @@ class PreferenceProbit(ProbitBase):
         dW = add_up_mat(idx4, -dw_pairs, dW)
 
         if np.isnan(dW).any():
-            pdb.set_trace()
+            raise FloatingPointError('PreferenceProbit calc_W_dHyper: undefined values in the hessian derivative')
 
         return dW[np.newaxis, :, :]
 
-- 
2.43.0


From bb00fbbba27cb3bb820b583d80e8e3781e2170fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:57 +0000
Subject: [PATCH 09/40] fix: mixed learners leave the model as it was and use
 samples drawn for the current query

---
 .../query_decision/load_intermediate_large.py |  3 +-
 src/lop/active_learning/MixedStrategy.py      | 14 +++---
 src/lop/active_learning/MixedTypeDecision.py  | 44 ++++++++++++-------
 src/lop/active_learning/RateChooseLearner.py  |  7 ++-
 4 files changed, 44 insertions(+), 24 deletions(-)

diff --git a/examples/active_learners/query_decision/load_intermediate_large.py b/examples/active_learners/query_decision/load_intermediate_large.py
index ac44e69..4ccecac 100644
--- a/examples/active_learners/query_decision/load_intermediate_large.py
+++ b/examples/active_learners/query_decision/load_intermediate_large.py
@@ -69,8 +69,9 @@ def main():
                     il.model_load(model, model_path)
 
                     model.active_learner.num_calls = trainitr
-                    sel_idxs, rating_score, pref_score = model.select(np.array([[1.0, 1.0, 1.0, 1.0, 1.0], [0,0,0,0,0]]), 2)
+                    sel_idxs = model.select(np.array([[1.0, 1.0, 1.0, 1.0, 1.0], [0,0,0,0,0]]), 2)
                     
+                    rating_score, pref_score = al.rating_score, al.pref_score
                     print('rate_score = ' +str(rating_score) + ' pref_score = ' + str(pref_score))
                     rate_scores[i_p, i_env, i_itr, run] = rating_score
                     pref_scores[i_p, i_env, i_itr, run] = pref_score
diff --git a/src/lop/active_learning/MixedStrategy.py b/src/lop/active_learning/MixedStrategy.py
index 344215d..174ff21 100644
--- a/src/lop/active_learning/MixedStrategy.py
+++ b/src/lop/active_learning/MixedStrategy.py
@@ -212,9 +212,10 @@ class MixedDecision(MixedStrategyPeak3):
     #          selection values for candidate_pts,
     #          only returns highest mean if "always select best is set"
     def select(self, candidate_pts, num_alts, prev_selection=[], prefer_pts=None, return_not_selected=False, select_pair_first=True):
-        p_rate = self.mixed_probability()
+        # samples belong to the query they were drawn for
+        self.pairwise_l.unset_samples()
+        self.abs_comp.unset_samples()
 
-        
         if self.num_calls == 5 or self.num_calls == 10 or self.num_calls == 15:
             self.state = 3
 
@@ -253,7 +254,7 @@ class MixedDecision(MixedStrategyPeak3):
 
         elif self.state == 3:
             # generate sampled points
-            self.pairwise_l.unset_samples()
+            self.pairwise_l.num_alts = num_alts
             mu, data = self.pairwise_l.model.predict(candidate_pts)
             x_rep, Q_rep = self.pairwise_l.get_representative_Q(candidate_pts)
             all_rep, all_Q = self.pairwise_l.get_samples_from_model(candidate_pts, x_rep)
@@ -362,9 +363,10 @@ class MixedDecision2(MixedStrategyPeak3):
     #          selection values for candidate_pts,
     #          only returns highest mean if "always select best is set"
     def select(self, candidate_pts, num_alts, prev_selection=[], prefer_pts=None, return_not_selected=False, select_pair_first=True):
-        p_rate = self.mixed_probability()
+        # samples belong to the query they were drawn for
+        self.pairwise_l.unset_samples()
+        self.abs_comp.unset_samples()
 
-        
         if self.num_calls == 5 or self.num_calls == 10 or self.num_calls == 15:
             self.state = 3
 
@@ -403,7 +405,7 @@ class MixedDecision2(MixedStrategyPeak3):
 
         elif self.state == 3:
             # generate sampled points
-            self.pairwise_l.unset_samples()
+            self.pairwise_l.num_alts = num_alts
             mu, data = self.pairwise_l.model.predict(candidate_pts)
             x_rep, Q_rep = self.pairwise_l.get_representative_Q(candidate_pts)
             all_rep, all_Q = self.pairwise_l.get_samples_from_model(candidate_pts, x_rep)
diff --git a/src/lop/active_learning/MixedTypeDecision.py b/src/lop/active_learning/MixedTypeDecision.py
index 4d77717..5c1e544 100644
--- a/src/lop/active_learning/MixedTypeDecision.py
+++ b/src/lop/active_learning/MixedTypeDecision.py
@@ -43,6 +43,9 @@ class AlignmentDecision(RateChooseLearner):
 
         self.num_calls = 0
         self.calls_to_decision = num_calls_decision
+        # alignment scores of the last decision
+        self.rating_score = None
+        self.pref_score = None
 
     
     #overide
@@ -79,7 +82,7 @@ class AlignmentDecision(RateChooseLearner):
                 select_pair = False
         else:
             # select using decision metric.
-            select_pair, rating_score, pref_score = self.determine_query_type(candidate_pts)
+            select_pair, self.rating_score, self.pref_score = self.determine_query_type(candidate_pts, num_alts)
 
 
         
@@ -92,13 +95,30 @@ class AlignmentDecision(RateChooseLearner):
 
         self.num_calls += 1
         # return the selected indicies from pairwise select
-        return sel_idxs, rating_score, pref_score
+        return sel_idxs
 
 
-    def determine_query_type(self, candidate_pts):
+    def determine_query_type(self, candidate_pts, num_alts=2):
+        M_prev = self.pairwise_l.M
+        pref_idx = self.model.probit_idxs['relative_discrete']
+        rating_idx = self.model.probit_idxs['abs']
+        pref_data = self.model.y_train[pref_idx]
+        rating_data = self.model.y_train[rating_idx]
+
+        try:
+            return self.compare_alignment(candidate_pts, num_alts, pref_idx, rating_idx)
+        finally:
+            # the model is left with all of its data, and never with the fit to a part of it
+            self.pairwise_l.M = M_prev
+            self.model.y_train[pref_idx] = pref_data
+            self.model.y_train[rating_idx] = rating_data
+            self.model.optimized = False
+
+
+    def compare_alignment(self, candidate_pts, num_alts, pref_idx, rating_idx):
         self.pairwise_l.unset_samples()
+        self.pairwise_l.num_alts = num_alts
         #mu, data = self.pairwise_l.model.predict(candidate_pts)
-        M_prev = self.pairwise_l.M
         self.pairwise_l.M = 8000
 
         
@@ -109,8 +129,8 @@ class AlignmentDecision(RateChooseLearner):
 
 
 
-        pref_data = self.model.y_train[self.model.probit_idxs['relative_discrete']]
-        rating_data = self.model.y_train[self.model.probit_idxs['abs']]
+        pref_data = self.model.y_train[pref_idx]
+        rating_data = self.model.y_train[rating_idx]
 
         print('pref_data')
         print(pref_data)
@@ -118,7 +138,7 @@ class AlignmentDecision(RateChooseLearner):
         print(rating_data)
 
         ## Generate samples using only preference data
-        self.model.y_train[2] = None
+        self.model.y_train[rating_idx] = None
         self.model.optimize()
         mu_pref, sig_pref = self.model.predict(x_rep)
         pref_cov = self.model.cov
@@ -127,9 +147,8 @@ class AlignmentDecision(RateChooseLearner):
 
 
         ## Generate samples using only rating data
-        self.model.y_train[0] = None
-        self.model.y_train[2] = rating_data
-        
+        self.model.y_train[pref_idx] = None
+        self.model.y_train[rating_idx] = rating_data
 
         self.model.optimize()
         mu_rating, sig_rating = self.model.predict(x_rep)
@@ -139,10 +158,6 @@ class AlignmentDecision(RateChooseLearner):
         
 
 
-        ## Reset model and start evaluating samples
-        self.model.y_train[0] = pref_data
-        self.model.y_train[2] = rating_data
-
         ## Evaluate samples
         align_pref_f = self.pairwise_l.alignment_between(pref_rep, all_rep)
         align_rate_f = self.pairwise_l.alignment_between(rating_rep, all_rep)
@@ -169,7 +184,6 @@ class AlignmentDecision(RateChooseLearner):
         print('corr pref = ' + str(np.mean(corr_pref[:-1, -1])) + 
               ' corr rating = ' + str(np.mean(corr_rating[:-1, -1])))
 
-        self.pairwise_l.M = M_prev
         return align_pref_mu > align_rate_mu, align_rate_mu, align_pref_mu
 
 
diff --git a/src/lop/active_learning/RateChooseLearner.py b/src/lop/active_learning/RateChooseLearner.py
index c280ec0..e2750d8 100644
--- a/src/lop/active_learning/RateChooseLearner.py
+++ b/src/lop/active_learning/RateChooseLearner.py
@@ -68,6 +68,7 @@ class RateChooseLearner(ActiveLearner):
     def select(self, candidate_pts, num_alts, prev_selection=[], prefer_pts=None, return_not_selected=False, select_pair_first=True):
         # generate sampled points
         self.pairwise_l.unset_samples()
+        self.pairwise_l.num_alts = num_alts
         mu, data = self.pairwise_l.model.predict(candidate_pts)
         x_rep, Q_rep = self.pairwise_l.get_representative_Q(candidate_pts)
         all_rep, all_Q = self.pairwise_l.get_samples_from_model(candidate_pts, x_rep)
@@ -148,6 +149,7 @@ class MixedComparision(RateChooseLearner):
     def select(self, candidate_pts, num_alts, prev_selection=[], prefer_pts=None, return_not_selected=False, select_pair_first=True):
         # generate sampled points
         self.pairwise_l.unset_samples()
+        self.pairwise_l.num_alts = num_alts
         mu, data = self.pairwise_l.model.predict(candidate_pts)
         x_rep, Q_rep = self.pairwise_l.get_representative_Q(candidate_pts)
         all_rep, all_Q = self.pairwise_l.get_samples_from_model(candidate_pts, x_rep)
@@ -173,7 +175,7 @@ class MixedComparision(RateChooseLearner):
         print('Absloute selected metric: ' + str(abs_metric))
         if pair_metric > abs_metric:
             sel_idxs = pair_idxs
-        elif self.pairwise_l.sel_metric == abs_metric:
+        elif pair_metric == abs_metric:
             # both the same, just randomly pick one of the options.
             if np.random.random() > 0.5:
                 sel_idxs = pair_idxs
@@ -345,6 +347,7 @@ class MixedComparisionEqualChecking(RateChooseLearner):
     def select(self, candidate_pts, num_alts, prev_selection=[], prefer_pts=None, return_not_selected=False, select_pair_first=True):
         # generate sampled points
         self.pairwise_l.unset_samples()
+        self.pairwise_l.num_alts = num_alts
         mu, data = self.pairwise_l.model.predict(candidate_pts)
         x_rep, Q_rep = self.pairwise_l.get_representative_Q(candidate_pts)
         all_rep, all_Q = self.pairwise_l.get_samples_from_model(candidate_pts, x_rep)
@@ -386,7 +389,7 @@ class MixedComparisionEqualChecking(RateChooseLearner):
         
         if pair_metric > abs_metric:
             sel_idxs = pair_idxs
-        elif self.pairwise_l.sel_metric == abs_metric:
+        elif pair_metric == abs_metric:
             # both the same, just randomly pick one of the options.
             if np.random.random() > 0.5:
                 sel_idxs = pair_idxs
-- 
2.43.0


From e145a2f56725d2428bcf241bcaefe433b905fa93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:31 +0000
Subject: [PATCH 10/40] fix: experiment results are replaced atomically and
 hold completed runs only

---
 experiments/single_experiment.py | 60 +++++++++++++++++---------------
 1 file changed, 32 insertions(+), 28 deletions(-)

diff --git a/experiments/single_experiment.py b/experiments/single_experiment.py
index 7aaa914..de91acc 100644
--- a/experiments/single_experiment.py
+++ b/experiments/single_experiment.py
@@ -94,6 +94,19 @@ def str_timestamp():
     timestamp = time.strftime('%Y-%m-%d_%H-%M-%S', t)
     return timestamp
 
+## save_results
+# Saves the results of the completed runs. The file with the results of the previous
+# runs is only replaced once the new one is completely written.
+# @param filename - the name of the results file (without the .npz extension)
+# @param results - a dictionary of result arrays, with one row for each run
+# @param num_done - the number of completed runs
+def save_results(filename, results, num_done):
+    with open(filename+'_tmp.npz', 'wb') as f:
+        np.savez(f, **{name: rows[:num_done] for name, rows in results.items()})
+        f.flush()
+        os.fsync(f.fileno())
+    os.replace(filename+'_tmp.npz', filename+'.npz')
+
 possible_selectors = ['UCB', 'SGV_UCB', 'RANDOM', 'MUTUAL_INFO', 'MUTUAL_INFO_PERF', \
                         'BAYES_INFO_GAIN_PROBIT', 'BAYES_INFO_GAIN_999', \
                         'ACQ_RHO', 'ACQ_LL', 'ACQ_EPIC', 'ACQ_SPEAR',\
@@ -212,11 +225,22 @@ def main():
     query_type_is_abs = np.empty((num_runs, num_train+1))
     query_is_correct = np.empty((num_runs, num_train+1))
 
-    cur_run = 0
+    results = dict(avg_correct=avg_correct,
+                    avg_ranks=avg_ranks,
+                    ranks=ranks,
+                    estimated_scores=estimated_scores,
+                    real_scores=real_scores,
+                    score_diff=score_diff,
+                    spearmans=spearmans,
+                    pearsons=pearsons,
+                    rhos=rhos,
+                    query_type_is_abs=query_type_is_abs,
+                    query_is_correct=query_is_correct)
+
+    num_done = 0
     try:
         path_data = None
         for j in tqdm(range(num_runs)):
-            cur_run = j
             run_folder = folder_name+'run_'+str(j)+'/'
             os.mkdir(run_folder)
             print('VERBOSE: ' + str(args.v))
@@ -264,34 +288,14 @@ def main():
             score_diff[j] = s_diff
 
             print('Updating savez file with data from run: '+str(j))
-            np.savez(folder_name+'train_data', 
-                    avg_correct=avg_correct[:j+1], 
-                    avg_ranks=avg_ranks[:j+1], \
-                    ranks=ranks[:j+1], 
-                    estimated_scores=estimated_scores[:j+1], \
-                    real_scores = real_scores[:j+1], \
-                    score_diff = score_diff[:j+1], \
-                    spearmans = spearmans[:j+1], \
-                    pearsons = pearsons[:j+1], \
-                    rhos = rhos[:j+1], \
-                    query_type_is_abs = query_type_is_abs[:j+1], \
-                    query_is_correct = query_is_correct[:j+1])
+            num_done = j+1
+            save_results(folder_name+'train_data', results, num_done)
 
     except KeyboardInterrupt:
-        j = cur_run
-
-        np.savez(folder_name+'train_data', 
-                    avg_correct=avg_correct[:j+1], 
-                    avg_ranks=avg_ranks[:j+1], \
-                    ranks=ranks[:j+1], 
-                    estimated_scores=estimated_scores[:j+1], \
-                    real_scores = real_scores[:j+1], \
-                    spearmans = spearmans[:j+1], \
-                    pearsons = pearsons[:j+1], \
-                    rhos = rhos[:j+1], \
-                    score_diff = score_diff[:j+1], \
-                    query_type_is_abs = query_type_is_abs[:j+1], \
-                    query_is_correct = query_is_correct[:j+1])
+        # the interrupt may land between or inside any of the steps above, so only
+        # the runs with all of their results are kept.
+        if num_done > 0:
+            save_results(folder_name+'train_data', results, num_done)
         sys.exit(0)
 
 if __name__ == '__main__':
-- 
2.43.0


From 7910b2285e05703229f949d7237b9dc10050722c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:58 +0000
Subject: [PATCH 11/40] fix: unique query sets are sampled without bias and
 never searched for forever

---
 src/lop/utilities/sample_utility.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/lop/utilities/sample_utility.py b/src/lop/utilities/sample_utility.py
index c0d0526..ca8fc60 100644
--- a/src/lop/utilities/sample_utility.py
+++ b/src/lop/utilities/sample_utility.py
@@ -5,6 +5,8 @@
 # Basically a set of code that might be helpful to be reusable, but
 # don't fit anywhere else.
 
+import math
+
 import numpy as np
 
 def sample_nonunique_sets(s, num_sets, size_set):
@@ -32,7 +34,10 @@ def sample_unique_sets_fast(s, num_sets, size_set):
         new_samp.sort(axis=1)
 
         all_uniq = np.append(all_uniq, new_samp, axis=0)
-        all_uniq = np.unique(all_uniq, axis=0)
+        # keep the sets in the order they were sampled, since dropping the extra sets
+        # from a sorted list would always drop the same ones.
+        _, first_idxs = np.unique(all_uniq, axis=0, return_index=True)
+        all_uniq = all_uniq[np.sort(first_idxs)]
 
         num_unique = all_uniq.shape[0]
 
@@ -55,6 +60,9 @@ def sample_unique_sets(s, num_sets, size_set):
     else:
         s_len = len(s)
 
+    if num_sets > math.comb(s_len, size_set):
+        raise ValueError('sample_unique_sets asked for ' + str(num_sets) + ' sets of size ' + str(size_set) + ' of ' + str(s_len) + ' elements, more than exist')
+
     uniq_sets = sample_unique_sets_fast(s, num_sets, size_set)
     return uniq_sets.astype(int)
     
\ No newline at end of file
-- 
2.43.0


From 6890163d5cb55268e90518aacd61a3097fe2cd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:15 +0000
Subject: [PATCH 12/40] fix: observations which do not match the given points
 are rejected

---
 src/lop/models/GP.py              |  5 ++++-
 src/lop/models/PreferenceModel.py | 19 +++++++++++++++++--
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/lop/models/GP.py b/src/lop/models/GP.py
index 35f5a68..ccca576 100644
--- a/src/lop/models/GP.py
+++ b/src/lop/models/GP.py
@@ -66,6 +66,9 @@ class GP(Model):
         if not isinstance(training_sigma, Sequence):
             training_sigma = np.ones(len(y)) * training_sigma
 
+        if len(X) != len(y):
+            raise ValueError('GP add received ' + str(len(X)) + ' points with ' + str(len(y)) + ' outputs')
+
         y = y - self.mean_func(X)
 
         if self.X_train is None:
@@ -97,7 +100,7 @@ class GP(Model):
             sigma = np.diagonal(self.cov)
             # just in case do to numerical instability a negative variance shows up
             sigma = np.maximum(0, sigma)
-            return np.zeros(len(X)), sigma
+            return np.zeros(len(X)) + self.mean_func(X), sigma
 
         #### This function treats Y as the training data
         Y = self.X_train
diff --git a/src/lop/models/PreferenceModel.py b/src/lop/models/PreferenceModel.py
index d563373..f74dc5e 100644
--- a/src/lop/models/PreferenceModel.py
+++ b/src/lop/models/PreferenceModel.py
@@ -222,7 +222,13 @@ class PreferenceModel(Model):
                 # reset index of pairwise comparisons
                 y = [(d, u+len_X, v+len_X) for d, u, v in y]
 
-            if y == []:
+            if len(y) > 0:
+                y = np.array(y)
+                if y.ndim != 2 or y.shape[1] != 3:
+                    raise ValueError('preferences must be given as (dk, u, v), not ' + str(y))
+                self.check_indices(y[:,1:])
+
+            if len(y) == 0:
                 pass
             elif self.y_train[self.probit_idxs[type]] is None:
                 self.y_train[self.probit_idxs[type]] = np.array(y)
@@ -239,6 +245,7 @@ class PreferenceModel(Model):
             else:
                 new_y = np.array(y)
 
+            self.check_indices(new_y[:,1])
             if (new_y[:,0] <= 0).any():
                 raise Exception("Can't pass ordinal with 0 rating (must all be positive ordinal values)")
 
@@ -261,7 +268,8 @@ class PreferenceModel(Model):
             else:
                 raise ValueError('abs type received unknown type for y: ' + str(y.__class__))
 
-            if (v < 0).any() or (v > 1.0).any():
+            self.check_indices(idxs)
+            if not ((v >= 0) & (v <= 1.0)).all():
                 raise ValueError("Absloute bounded input must be between 0 and 1. v = " + str(v))
             v = np.where(v < 0.001, 0.001, v)
             v = np.where(v > 0.999, 0.999, v)            
@@ -306,6 +314,13 @@ class PreferenceModel(Model):
         self.optimized = False
 
 
+    ## check_indices
+    # checks that new observations refer to points held by the model
+    # @param idxs - numpy array of indices into X_train
+    def check_indices(self, idxs):
+        if (idxs < 0).any() or (idxs >= len(self.X_train)).any():
+            raise ValueError('observations given for points which have not been added')
+
     # calculate the log_likelyhood of the provided training data.
     # log p(Y|F)
     # @param F - the input possible outputs
-- 
2.43.0


From 716e9432bec1ee198ec8e48617017d8cc275446f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:12 +0000
Subject: [PATCH 13/40] fix: keep the example as shipped

---
 .../active_learners/query_decision/load_intermediate_large.py  | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/examples/active_learners/query_decision/load_intermediate_large.py b/examples/active_learners/query_decision/load_intermediate_large.py
index 4ccecac..ac44e69 100644
--- a/examples/active_learners/query_decision/load_intermediate_large.py
+++ b/examples/active_learners/query_decision/load_intermediate_large.py
@@ -69,9 +69,8 @@ def main():
                     il.model_load(model, model_path)
 
                     model.active_learner.num_calls = trainitr
-                    sel_idxs = model.select(np.array([[1.0, 1.0, 1.0, 1.0, 1.0], [0,0,0,0,0]]), 2)
+                    sel_idxs, rating_score, pref_score = model.select(np.array([[1.0, 1.0, 1.0, 1.0, 1.0], [0,0,0,0,0]]), 2)
                     
-                    rating_score, pref_score = al.rating_score, al.pref_score
                     print('rate_score = ' +str(rating_score) + ' pref_score = ' + str(pref_score))
                     rate_scores[i_p, i_env, i_itr, run] = rating_score
                     pref_scores[i_p, i_env, i_itr, run] = pref_score
-- 
2.43.0


From ed21b99ac816c92c85f5ee70c4705cfa4670b2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:43 +0000
Subject: [PATCH 14/40] fix: uncertainties which do not match the outputs are
 rejected

---
 src/lop/models/GP.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lop/models/GP.py b/src/lop/models/GP.py
index ccca576..b6a274c 100644
--- a/src/lop/models/GP.py
+++ b/src/lop/models/GP.py
@@ -69,6 +69,9 @@ class GP(Model):
         if len(X) != len(y):
             raise ValueError('GP add received ' + str(len(X)) + ' points with ' + str(len(y)) + ' outputs')
 
+        if len(training_sigma) != len(y):
+            raise ValueError('GP add received ' + str(len(training_sigma)) + ' uncertainties for ' + str(len(y)) + ' outputs')
+
         y = y - self.mean_func(X)
 
         if self.X_train is None:
-- 
2.43.0


From 8cdc9f0878fc9882a97afb508ea92e086b32eb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:43 +0000
Subject: [PATCH 15/40] fix: an alignment decision leaves the fit of the model
 as it was

---
 src/lop/active_learning/MixedTypeDecision.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/lop/active_learning/MixedTypeDecision.py b/src/lop/active_learning/MixedTypeDecision.py
index 5c1e544..3acdd22 100644
--- a/src/lop/active_learning/MixedTypeDecision.py
+++ b/src/lop/active_learning/MixedTypeDecision.py
@@ -102,17 +102,16 @@ class AlignmentDecision(RateChooseLearner):
         M_prev = self.pairwise_l.M
         pref_idx = self.model.probit_idxs['relative_discrete']
         rating_idx = self.model.probit_idxs['abs']
-        pref_data = self.model.y_train[pref_idx]
-        rating_data = self.model.y_train[rating_idx]
+        model_state = dict(vars(self.model))
+        y_train = list(self.model.y_train)
 
         try:
             return self.compare_alignment(candidate_pts, num_alts, pref_idx, rating_idx)
         finally:
-            # the model is left with all of its data, and never with the fit to a part of it
+            # the model is left with all of its data and the fit it had
             self.pairwise_l.M = M_prev
-            self.model.y_train[pref_idx] = pref_data
-            self.model.y_train[rating_idx] = rating_data
-            self.model.optimized = False
+            vars(self.model).update(model_state)
+            self.model.y_train = y_train
 
 
     def compare_alignment(self, candidate_pts, num_alts, pref_idx, rating_idx):
-- 
2.43.0


From 4f877b657c28c98269fb8cf7caeaf1ccae446323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:09 +0000
Subject: [PATCH 16/40] fix: undefined references in observations are rejected

---
 src/lop/models/PreferenceModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/models/PreferenceModel.py b/src/lop/models/PreferenceModel.py
index f74dc5e..9bf16f9 100644
--- a/src/lop/models/PreferenceModel.py
+++ b/src/lop/models/PreferenceModel.py
@@ -318,7 +318,7 @@ class PreferenceModel(Model):
     # checks that new observations refer to points held by the model
     # @param idxs - numpy array of indices into X_train
     def check_indices(self, idxs):
-        if (idxs < 0).any() or (idxs >= len(self.X_train)).any():
+        if not ((idxs >= 0) & (idxs < len(self.X_train))).all():
             raise ValueError('observations given for points which have not been added')
 
     # calculate the log_likelyhood of the provided training data.
-- 
2.43.0


From 02d362dd386d5290a491b7f61448f7bc66a5ce53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:48 +0000
Subject: [PATCH 17/40] fix: the curvature of the ordinal likelihood is that of
 its log likelihood, also far from the label

---
 src/lop/probits/OrdinalProbit.py | 71 ++++++++++++++++++--------------
 1 file changed, 40 insertions(+), 31 deletions(-)

diff --git a/src/lop/probits/OrdinalProbit.py b/src/lop/probits/OrdinalProbit.py
index c4c05b0..b012972 100644
--- a/src/lop/probits/OrdinalProbit.py
+++ b/src/lop/probits/OrdinalProbit.py
@@ -30,6 +30,7 @@
 
 import numpy as np
 import scipy.stats as st
+import scipy.special as spec
 import copy
 import pdb
 
@@ -166,38 +167,19 @@ class OrdinalProbit(ProbitBase):
     #       dpy_df - the derivative of P(y|x,theta) with respect to F
     #       py - P(y|x,theta) for the given probit
     def derivatives(self, y, F):
-        f = F[y[1]]
         y_orig = y
-        y = y[0]
-        l = self.likelihood_each(y_orig, F)
-        py = np.log(l)
-
-        # First derivative - Chu and Gharamani
-        # Having issues with derivative (likelihood denominator drops to 0)
-        dpy_df = np.zeros(l.shape, dtype='float')
-        d2py_df2 = np.zeros(l.shape, dtype='float')
-        for i in range(l.shape[0]):
-            if l[i] < self.eps:
-                # l2 = self.likelihood(y[i], f[i]+self.delta_f)
-                # l0 = self.likelihood(y[i], f[i]-self.delta_f)
-                # dpy_df[i] = -(l2-l[i])/self.delta_f/l[i]      # (ln(f))' = f'/f
-                # d2py_df2[i] = (l2 - 2*l[i] + l0)/self.delta_f**2/dpy_df[i]/l[i]
-
-                if y[i] == 1:
-                    dpy_df[i] = self._isigma*self.z_k(y[i], f[i])
-                    d2py_df2[i] = -self._ivar
-                elif y[i] == self.n_ordinals:
-                    dpy_df[i] = self._isigma*self.z_k(y[i]-1, f[i])
-                    d2py_df2[i] = -self._ivar
-                else:
-                    z1 = self.z_k(y[i], f[i])
-                    z2 = self.z_k(y[i]-1, f[i])
-                    ep = np.exp(-0.5*(z1**2 - z2**2))
-                    dpy_df[i] = self._isigma*(z1*ep-z2)/(ep - 1.0)
-                    d2py_df2[i] = -(self._ivar*(1.0 - (z1**2 *ep - z2**2)/(ep - 1.0)) + dpy_df[i]**2)
-            else:
-                dpy_df[i] = -self._isigma*(self.norm_pdf(y[i], f[i]) - self.norm_pdf(y[i]-1, f[i])) / l[i]
-                d2py_df2[i] = -(dpy_df[i]**2 + self._ivar*(self.norm_pdf(y[i], f[i]) - self.norm_pdf(y[i]-1, f[i])) / l[i])
+        py, z1, z0 = self.log_likelihood_each(y_orig, F)
+
+        # First and second derivative - Chu and Gharamani
+        # The ratios pdf / likelihood are calculated using logs, as the likelihood drops to 0
+        # far away from the label's interval. The outer break points are at infinity, where z*pdf is 0.
+        ratio1 = np.exp(-0.5*z1**2 - py) / np.sqrt(2*np.pi)
+        ratio0 = np.exp(-0.5*z0**2 - py) / np.sqrt(2*np.pi)
+        z_ratio1 = np.where(np.isinf(z1), 0, z1) * ratio1
+        z_ratio0 = np.where(np.isinf(z0), 0, z0) * ratio0
+
+        dpy_df = -self._isigma*(ratio1 - ratio0)
+        d2py_df2 = -(dpy_df**2 + self._ivar*(z_ratio1 - z_ratio0))
 
         W = np.diagflat(-d2py_df2)
 
@@ -212,6 +194,33 @@ class OrdinalProbit(ProbitBase):
         return full_W, full_dpy_df, np.sum(py)
 
 
+    ## log_likelihood_each
+    # the log likelihood of each label, accurate far away from the label's interval as well.
+    # @param y - the given set of labels for the probit (rating, u_k)
+    # @param F - the input data samples
+    #
+    # @return log likelihood, upper z_k, lower z_k (all vectors)
+    def log_likelihood_each(self, y, F):
+        z1 = self.z_k(y, F)
+        z0 = self.z_k((y[0]-1, y[1]), F)
+
+        # use the tail in which the difference of the cdfs keeps its precision
+        upper_tail = z0 > 0
+        log_cdf_hi = spec.log_ndtr(np.where(upper_tail, -z0, z1))
+        log_cdf_lo = spec.log_ndtr(np.where(upper_tail, -z1, z0))
+
+        return log_cdf_hi + np.log1p(-np.exp(log_cdf_lo - log_cdf_hi)), z1, z0
+
+
+    ## log_likelihood
+    # @param y - the given set of labels for the probit
+    # @param F - the input data samples
+    #
+    # @return log P(y|F)
+    def log_likelihood(self, y, F):
+        return np.sum(self.log_likelihood_each(y, F)[0])
+
+
     def likelihood_each(self, y, F):
         y_modified = (y[0]-1, y[1])
         if (y_modified[0] < 0).any():
-- 
2.43.0


From e736baf86525c6479855b8b3e9eedbdd921bd3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:05 +0000
Subject: [PATCH 18/40] fix: the mode search goes uphill where the likelihood
 is not log-concave

---
 src/lop/models/PreferenceModel.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lop/models/PreferenceModel.py b/src/lop/models/PreferenceModel.py
index 9bf16f9..b6f78b0 100644
--- a/src/lop/models/PreferenceModel.py
+++ b/src/lop/models/PreferenceModel.py
@@ -431,6 +431,12 @@ class PreferenceModel(Model):
 
         # positive since we are searching for the max.
         try:
+            # the hessian is not negative definite everywhere if the likelihood is not log-concave.
+            # its directions of positive curvature are mirrored, so that the step still goes uphill
+            curvature, directions = np.linalg.eigh(hess)
+            if np.max(curvature) > 1e-9 * np.max(np.abs(curvature)):
+                hess = -(directions * np.abs(curvature)) @ directions.T
+
             descent = gradient @ invert_function(hess)
         except Exception:
             # hessian could not be inverted, damp it so that the step still goes uphill
-- 
2.43.0


From 2356bdb8debd76b8ea446d6582795d461b404cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:56 +0000
Subject: [PATCH 19/40] fix: predictions at a point do not depend on the other
 points asked for

---
 src/lop/kernels/RBF_kern.py    | 3 ++-
 src/lop/models/GP.py           | 1 +
 src/lop/models/PreferenceGP.py | 2 +-
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lop/kernels/RBF_kern.py b/src/lop/kernels/RBF_kern.py
index 5136842..0e708c3 100644
--- a/src/lop/kernels/RBF_kern.py
+++ b/src/lop/kernels/RBF_kern.py
@@ -103,6 +103,7 @@ class RBF_kern(KernelFunc):
     def cov(self, X, Y):
         N = X.shape[0]
         M = Y.shape[0]
+        same_samples = X is Y # the noise is only shared by a sample with itself
 
         if len(X.shape) == 1:
             X = X[:,np.newaxis]
@@ -116,7 +117,7 @@ class RBF_kern(KernelFunc):
         top = np.sum(diff*diff, axis=2)
 
         cov = self.sigma * self.sigma * np.exp(-top / (2 * self.l*self.l))
-        if cov.shape[0] == cov.shape[1] and (X[0] == Y[0]).all():
+        if same_samples:
             cov += np.eye(cov.shape[0])*self.sigma_noise
         return cov
 
diff --git a/src/lop/models/GP.py b/src/lop/models/GP.py
index b6a274c..d907684 100644
--- a/src/lop/models/GP.py
+++ b/src/lop/models/GP.py
@@ -107,6 +107,7 @@ class GP(Model):
 
         #### This function treats Y as the training data
         Y = self.X_train
+        X = np.array(X) # new samples, even if X is the training data
         covXX = self.cov_func.cov(X,X) # covMatrix(X, X, self.cov_func)
         covXY = self.cov_func.cov(X,Y) #covMatrix(X, Y, self.cov_func)
         covYX = np.transpose(covXY)
diff --git a/src/lop/models/PreferenceGP.py b/src/lop/models/PreferenceGP.py
index 07560df..20c0abb 100644
--- a/src/lop/models/PreferenceGP.py
+++ b/src/lop/models/PreferenceGP.py
@@ -107,7 +107,7 @@ class PreferenceGP(PreferenceModel):
         if not self.optimized and F is None:
             self.optimize(optimize_hyperparameter=self.use_hyper_optimization)
 
-        X_test = X
+        X_test = np.array(X) # new samples, even if X is the training data
         if X_train is None:
             X_train = self.X_train
         if F is None:
-- 
2.43.0


From 5077e16a6427e5222dd9059c3d08aca9cae97faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:43 +0000
Subject: [PATCH 20/40] fix: covariances singular to working precision are
 jittered as well

---
 src/lop/models/PreferenceGP.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lop/models/PreferenceGP.py b/src/lop/models/PreferenceGP.py
index 20c0abb..1e6304e 100644
--- a/src/lop/models/PreferenceGP.py
+++ b/src/lop/models/PreferenceGP.py
@@ -227,6 +227,9 @@ class PreferenceGP(PreferenceModel):
             try:
                 self.K = K + jitter * np.mean(np.diagonal(K)) * np.identity(len(K))
                 L = np.linalg.cholesky(self.K)
+                eigenvalues = np.linalg.eigvalsh(self.K)
+                if eigenvalues[0] < 1e-10 * eigenvalues[-1]:
+                    raise np.linalg.LinAlgError('covariance matrix is singular to working precision')
                 L_inv = np.linalg.inv(L)
                 K_inv = L_inv.T @ L_inv
                 break
-- 
2.43.0


From 0b7f166bbe11258183fa2d0a877110dd0bd23853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:04 +0000
Subject: [PATCH 21/40] fix: a pair is only chosen from candidates that are
 left when reporting what was not selected

---
 src/lop/active_learning/ActiveLearner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/active_learning/ActiveLearner.py b/src/lop/active_learning/ActiveLearner.py
index dda13c8..77315bf 100644
--- a/src/lop/active_learning/ActiveLearner.py
+++ b/src/lop/active_learning/ActiveLearner.py
@@ -106,7 +106,7 @@ class ActiveLearner:
                     selected_idx = not_selected[0]
                     not_selected.pop(0) 
                 else:
-                    if len(prev_selection) == 0 and select_pair_first and (num_alts - len(sel_pts) > 1) and hasattr(self, "select_pair"):
+                    if len(prev_selection) == 0 and select_pair_first and (num_alts - len(sel_pts) > 1) and len(all_not_selected) > 1 and hasattr(self, "select_pair"):
                         selected_pair = self.select_pair(candidate_pts, mu, data, all_not_selected, prev_selection | set(sel_pts))
                         selected_idx = selected_pair[0]
 
-- 
2.43.0


From 274c8fc38dcf4248facafbb715dc379178e03e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:38 +0000
Subject: [PATCH 22/40] fix: an alignment decision works on copies, so an
 interrupt cannot leave the model without its data

---
 src/lop/active_learning/MixedTypeDecision.py | 71 +++++++++-----------
 1 file changed, 32 insertions(+), 39 deletions(-)

diff --git a/src/lop/active_learning/MixedTypeDecision.py b/src/lop/active_learning/MixedTypeDecision.py
index 3acdd22..a352a1e 100644
--- a/src/lop/active_learning/MixedTypeDecision.py
+++ b/src/lop/active_learning/MixedTypeDecision.py
@@ -22,6 +22,8 @@
 # Active learning selection algorithms that select between rating or choosing
 
 
+import copy
+
 import numpy as np
 from lop.active_learning import RateChooseLearner
 import scipy.stats as st
@@ -99,37 +101,28 @@ class AlignmentDecision(RateChooseLearner):
 
 
     def determine_query_type(self, candidate_pts, num_alts=2):
-        M_prev = self.pairwise_l.M
-        pref_idx = self.model.probit_idxs['relative_discrete']
-        rating_idx = self.model.probit_idxs['abs']
-        model_state = dict(vars(self.model))
-        y_train = list(self.model.y_train)
-
-        try:
-            return self.compare_alignment(candidate_pts, num_alts, pref_idx, rating_idx)
-        finally:
-            # the model is left with all of its data and the fit it had
-            self.pairwise_l.M = M_prev
-            vars(self.model).update(model_state)
-            self.model.y_train = y_train
-
-
-    def compare_alignment(self, candidate_pts, num_alts, pref_idx, rating_idx):
         self.pairwise_l.unset_samples()
-        self.pairwise_l.num_alts = num_alts
+        # compare on copies: the model keeps all of its data and its fit
+        model = copy.copy(self.model)
+        model.y_train = list(self.model.y_train)
+        pairwise_l = copy.copy(self.pairwise_l)
+        pairwise_l.set_model(model)
+        pairwise_l.num_alts = num_alts
         #mu, data = self.pairwise_l.model.predict(candidate_pts)
-        self.pairwise_l.M = 8000
+        pairwise_l.M = 8000
+        pref_idx = model.probit_idxs['relative_discrete']
+        rating_idx = model.probit_idxs['abs']
 
         
-        x_rep, Q_rep = self.pairwise_l.get_representative_Q(candidate_pts)
-        mu, sig = self.model.predict(x_rep)
-        all_cov = self.model.cov
-        all_rep, all_Q = self.pairwise_l.get_samples_from_model(candidate_pts, x_rep)
+        x_rep, Q_rep = pairwise_l.get_representative_Q(candidate_pts)
+        mu, sig = model.predict(x_rep)
+        all_cov = model.cov
+        all_rep, all_Q = pairwise_l.get_samples_from_model(candidate_pts, x_rep)
 
 
 
-        pref_data = self.model.y_train[pref_idx]
-        rating_data = self.model.y_train[rating_idx]
+        pref_data = model.y_train[pref_idx]
+        rating_data = model.y_train[rating_idx]
 
         print('pref_data')
         print(pref_data)
@@ -137,31 +130,31 @@ class AlignmentDecision(RateChooseLearner):
         print(rating_data)
 
         ## Generate samples using only preference data
-        self.model.y_train[rating_idx] = None
-        self.model.optimize()
-        mu_pref, sig_pref = self.model.predict(x_rep)
-        pref_cov = self.model.cov
+        model.y_train[rating_idx] = None
+        model.optimize()
+        mu_pref, sig_pref = model.predict(x_rep)
+        pref_cov = model.cov
 
-        pref_rep, pref_Q = self.pairwise_l.get_samples_from_model(candidate_pts, x_rep)
+        pref_rep, pref_Q = pairwise_l.get_samples_from_model(candidate_pts, x_rep)
 
 
         ## Generate samples using only rating data
-        self.model.y_train[pref_idx] = None
-        self.model.y_train[rating_idx] = rating_data
+        model.y_train[pref_idx] = None
+        model.y_train[rating_idx] = rating_data
 
-        self.model.optimize()
-        mu_rating, sig_rating = self.model.predict(x_rep)
-        rating_cov = self.model.cov
+        model.optimize()
+        mu_rating, sig_rating = model.predict(x_rep)
+        rating_cov = model.cov
 
-        rating_rep, rating_Q = self.pairwise_l.get_samples_from_model(candidate_pts, x_rep)
+        rating_rep, rating_Q = pairwise_l.get_samples_from_model(candidate_pts, x_rep)
         
 
 
         ## Evaluate samples
-        align_pref_f = self.pairwise_l.alignment_between(pref_rep, all_rep)
-        align_rate_f = self.pairwise_l.alignment_between(rating_rep, all_rep)
-        #align_pref_f = self.pairwise_l.alignment(pref_rep, Q_rep)
-        #align_rate_f = self.pairwise_l.alignment(rating_rep, Q_rep)
+        align_pref_f = pairwise_l.alignment_between(pref_rep, all_rep)
+        align_rate_f = pairwise_l.alignment_between(rating_rep, all_rep)
+        #align_pref_f = pairwise_l.alignment(pref_rep, Q_rep)
+        #align_rate_f = pairwise_l.alignment(rating_rep, Q_rep)
 
         align_pref_mu = np.mean(align_pref_f)
         align_rate_mu = np.mean(align_rate_f)
-- 
2.43.0


From 89b14fe85f9500a51751853bce4d62c619ddfc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:24 +0000
Subject: [PATCH 23/40] fix: samples shared within one mixed query are dropped
 when it ends

---
 src/lop/active_learning/MixedStrategy.py     |  3 +++
 src/lop/active_learning/RateChooseLearner.py | 19 +++++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/src/lop/active_learning/MixedStrategy.py b/src/lop/active_learning/MixedStrategy.py
index 174ff21..f666581 100644
--- a/src/lop/active_learning/MixedStrategy.py
+++ b/src/lop/active_learning/MixedStrategy.py
@@ -25,6 +25,7 @@
 import numpy as np
 
 from lop.active_learning import ActiveLearner, RateChooseLearner
+from lop.active_learning.RateChooseLearner import query_samples
 
 
 
@@ -211,6 +212,7 @@ class MixedDecision(MixedStrategyPeak3):
     # @return [highest_mean, highest_selection, next highest selection, ...],
     #          selection values for candidate_pts,
     #          only returns highest mean if "always select best is set"
+    @query_samples
     def select(self, candidate_pts, num_alts, prev_selection=[], prefer_pts=None, return_not_selected=False, select_pair_first=True):
         # samples belong to the query they were drawn for
         self.pairwise_l.unset_samples()
@@ -362,6 +364,7 @@ class MixedDecision2(MixedStrategyPeak3):
     # @return [highest_mean, highest_selection, next highest selection, ...],
     #          selection values for candidate_pts,
     #          only returns highest mean if "always select best is set"
+    @query_samples
     def select(self, candidate_pts, num_alts, prev_selection=[], prefer_pts=None, return_not_selected=False, select_pair_first=True):
         # samples belong to the query they were drawn for
         self.pairwise_l.unset_samples()
diff --git a/src/lop/active_learning/RateChooseLearner.py b/src/lop/active_learning/RateChooseLearner.py
index e2750d8..8b005b0 100644
--- a/src/lop/active_learning/RateChooseLearner.py
+++ b/src/lop/active_learning/RateChooseLearner.py
@@ -21,12 +21,28 @@
 #
 # Active learning selection algorithms that select between rating or choosing
 
+import functools
+
 import numpy as np
 
 from lop.active_learning import ActiveLearner
 
 from pingouin import compute_effsize
 
+## query_samples
+# Decorates a select function that shares samples between its learners.
+# The samples belong to that query alone, and are dropped whichever way it ends.
+def query_samples(select):
+    @functools.wraps(select)
+    def wrapper(self, *args, **kwargs):
+        try:
+            return select(self, *args, **kwargs)
+        finally:
+            for learner in (self.pairwise_l, self.abs_l, getattr(self, 'abs_comp', None)):
+                if hasattr(learner, 'unset_samples'):
+                    learner.unset_samples()
+    return wrapper
+
 ## RateChooseLearner
 #
 # This class works as an Active learning algorithm that selects between using a rating or choose
@@ -65,6 +81,7 @@ class RateChooseLearner(ActiveLearner):
     # @return [highest_mean, highest_selection, next highest selection, ...],
     #          selection values for candidate_pts,
     #          only returns highest mean if "always select best is set"
+    @query_samples
     def select(self, candidate_pts, num_alts, prev_selection=[], prefer_pts=None, return_not_selected=False, select_pair_first=True):
         # generate sampled points
         self.pairwise_l.unset_samples()
@@ -146,6 +163,7 @@ class MixedComparision(RateChooseLearner):
     # @return [highest_mean, highest_selection, next highest selection, ...],
     #          selection values for candidate_pts,
     #          only returns highest mean if "always select best is set"
+    @query_samples
     def select(self, candidate_pts, num_alts, prev_selection=[], prefer_pts=None, return_not_selected=False, select_pair_first=True):
         # generate sampled points
         self.pairwise_l.unset_samples()
@@ -344,6 +362,7 @@ class MixedComparisionEqualChecking(RateChooseLearner):
     # @return [highest_mean, highest_selection, next highest selection, ...],
     #          selection values for candidate_pts,
     #          only returns highest mean if "always select best is set"
+    @query_samples
     def select(self, candidate_pts, num_alts, prev_selection=[], prefer_pts=None, return_not_selected=False, select_pair_first=True):
         # generate sampled points
         self.pairwise_l.unset_samples()
-- 
2.43.0


From 38974e231d7957cad2a7f6a4a26817d88ac9e9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:45 +0000
Subject: [PATCH 24/40] fix: reward functions give every reward vector the same
 value whatever the array shape

---
 src/lop/utilities/FakeFunction.py | 30 +++++++++++-------------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/src/lop/utilities/FakeFunction.py b/src/lop/utilities/FakeFunction.py
index 610dc1c..614536e 100644
--- a/src/lop/utilities/FakeFunction.py
+++ b/src/lop/utilities/FakeFunction.py
@@ -145,11 +145,8 @@ class FakeWeightedMax(FakeFunction):
         if self.w.shape[0] == 1:
             if isinstance(rewards, list):
                 rewards = np.array(rewards)
-            else:
-                return rewards
-        if len(rewards.shape) == 1:
-            return np.max(rewards * self.w)
-        return np.max(rewards * self.w, axis=1)
+            return rewards
+        return np.max(rewards * self.w, axis=-1)
 
     def __str__(self):
         return 'FakeWeightedMax: (w: ' + str(self.w) + ')'
@@ -172,11 +169,8 @@ class FakeWeightedMin(FakeFunction):
         if self.w.shape[0] == 1:
             if isinstance(rewards, list):
                 rewards = np.array(rewards)
-            else:
-                return rewards
-        if len(rewards.shape) == 1:
-            return np.min(rewards * self.w)
-        return np.min(rewards * self.w, axis=1)
+            return rewards
+        return np.min(rewards * self.w, axis=-1)
 
     def __str__(self):
         return 'FakeWeightedMin: (w: ' + str(self.w) + ')'
@@ -199,13 +193,10 @@ class FakeSquaredMinMax(FakeFunction):
         if self.w.shape[0] == 1:
             if isinstance(rewards, list):
                 rewards = np.array(rewards)
-            else:
-                return rewards
-        if len(rewards.shape) == 1:
-            return np.max(rewards * self.w)
+            return rewards
         vals = rewards * self.w
-        mins = np.min(vals, axis=1)
-        return np.sqrt(np.max(vals, axis=1)) + mins*mins
+        mins = np.min(vals, axis=-1)
+        return np.sqrt(np.max(vals, axis=-1)) + mins*mins
 
     def __str__(self):
         return 'FakeSquaredMinMax: (w: ' + str(self.w) + ')'
@@ -262,10 +253,11 @@ class FakeMixtureGaussian(FakeFunction):
     def calc(self, rewards):
         
 
-        if isinstance(rewards, np.ndarray):
-            z = np.zeros(rewards.shape[0])
+        # one value for every reward vector given
+        if self.dim == 1 and np.ndim(rewards) < 2:
+            z = np.zeros(np.shape(rewards))
         else:
-            z = 0
+            z = np.zeros(np.shape(rewards)[:-1])
 
         for i in range(self.num_kerns):
             #z += norm.pdf(rewards, loc=self.means[i], scale=self.sigs[i])
-- 
2.43.0


From 08e9d2d52dee2ff16b84b8b5c428695478757358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:45 +0000
Subject: [PATCH 25/40] fix: choice probabilities are scaled by the best option
 of their own query

---
 src/lop/utilities/human_choice_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/utilities/human_choice_model.py b/src/lop/utilities/human_choice_model.py
index 7b86ed1..3de1dd3 100644
--- a/src/lop/utilities/human_choice_model.py
+++ b/src/lop/utilities/human_choice_model.py
@@ -41,7 +41,7 @@ from scipy import stats
 #
 # @return output probability distribution of human choice
 def p_human_choice(r, p=1.0):
-    r = r - np.max(r)
+    r = r - np.max(r, axis=-1, keepdims=True)
     e = np.exp(r*p) # exponent of r
     if len(r.shape) > 1:
         sum_e = np.sum(e,axis=-1)
-- 
2.43.0


From a568921a9ab6e7703c1e6064abd8b258c67493f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:45 +0000
Subject: [PATCH 26/40] fix: calibration handles environments of different
 sizes and rejects identical rewards

---
 src/lop/utilities/HumanChoiceUser2.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lop/utilities/HumanChoiceUser2.py b/src/lop/utilities/HumanChoiceUser2.py
index 50f53db..ec0aa50 100644
--- a/src/lop/utilities/HumanChoiceUser2.py
+++ b/src/lop/utilities/HumanChoiceUser2.py
@@ -58,6 +58,8 @@ class HumanChoiceUser2(HumanChoiceUser):
 
         f_max = np.max(f)
         f_min = np.min(f)
+        if not f_max > f_min:
+            raise ValueError("HumanChoiceUser2 can not be tuned on rewards which all have the same value.")
         k = (max_sigmoid - min_sigmoid) / (f_max - f_min)
         b = min_sigmoid - k * f_min
 
@@ -83,7 +85,7 @@ class HumanChoiceUser2(HumanChoiceUser):
 
 
         # collapase to a single sampled matrix
-        F = np.empty((num_functions, len(rewards) * len(rewards[0]), min_path_problems))
+        F = np.empty((num_functions, sum([len(env) for env in rewards]), min_path_problems))
         for f_idx in range(num_functions):
             f_list = [[fake_fs[f_idx](r_problem) for r_problem in r_env] for r_env in rewards]
             min_max = np.array([min([min([np.min(f1) for f1 in f2]) for f2 in f_list]),  \
@@ -92,16 +94,16 @@ class HumanChoiceUser2(HumanChoiceUser):
             k,b = self.get_k_b(min_max)
 
             # through environments
+            idx = 0
             for i in range(len(rewards)):
                 # through planning problems
                 for j in range(len(rewards[i])):
-                    idx = i * len(rewards[0]) + j
-
                     samp_idx = np.random.choice(len(rewards[i][j]), min_path_problems, replace=False)
                     f = fake_fs[f_idx](rewards[i][j])
                     f = f * k + b
 
                     F[f_idx, idx] = f[samp_idx]
+                    idx += 1
 
         pairs = np.array(list(itertools.combinations(range(F.shape[2]), 2)), dtype=int)
         diffs = F[:,:, pairs[:,0]] - F[:,:,pairs[:,1]]
-- 
2.43.0


From 0b4fc9092d0c4c001dbdc652236506e8505971b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:40 +0000
Subject: [PATCH 27/40] fix: hyperparameter search copes with singular
 covariances as the fit does

---
 src/lop/models/PreferenceGP.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lop/models/PreferenceGP.py b/src/lop/models/PreferenceGP.py
index 1e6304e..75f5a22 100644
--- a/src/lop/models/PreferenceGP.py
+++ b/src/lop/models/PreferenceGP.py
@@ -536,8 +536,11 @@ class PreferenceGP(PreferenceModel):
 
         W, grad_ll, log_py_f = self.derivatives(y, F)
 
-        L_K = np.linalg.cholesky(K)
-        alpha_K = cho_solve((L_K, True), F)
+        try:
+            L_K = np.linalg.cholesky(K)
+            alpha_K = cho_solve((L_K, True), F)
+        except np.linalg.LinAlgError:
+            alpha_K = np.linalg.pinv(K) @ F
 
         B = np.eye(K.shape[0]) + (K @ W)
         B_inv = self.invert_function(B)
-- 
2.43.0


From 5001d54ffcb8f84883823055b50ac8a392726e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:35 +0000
Subject: [PATCH 28/40] fix: adding prior points that fails leaves the model
 unchanged

---
 src/lop/models/PreferenceModel.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/lop/models/PreferenceModel.py b/src/lop/models/PreferenceModel.py
index b6f78b0..db4ff1e 100644
--- a/src/lop/models/PreferenceModel.py
+++ b/src/lop/models/PreferenceModel.py
@@ -95,10 +95,16 @@ class PreferenceModel(Model):
             pts = pts
             num_pts = pts.shape[0]
 
-        num_prev = 0 if self.X_train is None else self.X_train.shape[0]
-        self.add(pts, [], type='relative_discrete')
-        self.prior_idx = (num_prev, num_prev+num_pts)
-        self.remove_without_reference()
+        X_prev, y_prev, prior_prev = self.X_train, list(self.y_train), self.prior_idx
+        try:
+            num_prev = 0 if self.X_train is None else self.X_train.shape[0]
+            self.add(pts, [], type='relative_discrete')
+            self.prior_idx = (num_prev, num_prev+num_pts)
+            self.remove_without_reference()
+        except BaseException:
+            # failing to add a prior must not leave a half updated model behind
+            self.X_train, self.y_train, self.prior_idx = X_prev, y_prev, prior_prev
+            raise
 
 
 
@@ -148,9 +154,11 @@ class PreferenceModel(Model):
             if y is None:
                 continue
             if type == 'relative_discrete':
+                y = np.array(y)
                 for pair in y:
                     pair[1] -= counts[pair[1]]
                     pair[2] -= counts[pair[2]]
+                self.y_train[self.probit_idxs[type]] = y
             else:
                 self.y_train[self.probit_idxs[type]] = (y[0], y[1] - counts[y[1]].astype(int))
 
-- 
2.43.0


From d6b21c72586805d7a84d9fd9bf99fabcb9a95a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:58 +0000
Subject: [PATCH 29/40] fix: decompositions of infinite covariances raise
 instead of never returning

---
 src/lop/active_learning/AbsBayesInfo.py      | 2 ++
 src/lop/active_learning/AcquisitionBase.py   | 2 ++
 src/lop/active_learning/MutualInfoLearner.py | 2 ++
 src/lop/models/PreferenceGP.py               | 8 ++++++++
 src/lop/models/PreferenceModel.py            | 2 ++
 5 files changed, 16 insertions(+)

diff --git a/src/lop/active_learning/AbsBayesInfo.py b/src/lop/active_learning/AbsBayesInfo.py
index f74c389..cec231a 100644
--- a/src/lop/active_learning/AbsBayesInfo.py
+++ b/src/lop/active_learning/AbsBayesInfo.py
@@ -33,6 +33,8 @@ class AbsBayesInfo(ActiveLearner):
                 
                 cov = self.model.cov
 
+                # the decomposition of infinite values may never return
+                np.asarray_chkfinite(cov)
                 all_Q = np.random.multivariate_normal(mu, cov, size=self.M)
             elif isinstance(self.model, PreferenceLinear):
                 w_samples = metropolis_hastings(self.model.loss_func, self.M, dim=candidate_pts.shape[1])
diff --git a/src/lop/active_learning/AcquisitionBase.py b/src/lop/active_learning/AcquisitionBase.py
index 6ab6209..bd286be 100644
--- a/src/lop/active_learning/AcquisitionBase.py
+++ b/src/lop/active_learning/AcquisitionBase.py
@@ -281,6 +281,8 @@ class AcquisitionBase(ActiveLearner):
             cov_both = self.model.cov
 
             # sample M possible parameters w (reward values of the GP)
+            # the decomposition of infinite values may never return
+            np.asarray_chkfinite(cov_both)
             all_samples = np.random.multivariate_normal(mu_both, cov_both, size=self.M)
             all_Q = all_samples[:, :N]
             all_rep = all_samples[:, N:]
diff --git a/src/lop/active_learning/MutualInfoLearner.py b/src/lop/active_learning/MutualInfoLearner.py
index c9ff311..0e2b344 100644
--- a/src/lop/active_learning/MutualInfoLearner.py
+++ b/src/lop/active_learning/MutualInfoLearner.py
@@ -68,6 +68,8 @@ class MutualInfoLearner(ActiveLearner):
             cov = self.model.cov
 
             # sample M possible parameters w (reward values of the GP)
+            # the decomposition of infinite values may never return
+            np.asarray_chkfinite(cov)
             all_w = np.random.multivariate_normal(mu, cov, size=self.M)
         elif isinstance(self.model, PreferenceLinear):
             w_samples = metropolis_hastings(self.model.loss_func, self.M, dim=candidate_pts.shape[1])
diff --git a/src/lop/models/PreferenceGP.py b/src/lop/models/PreferenceGP.py
index 75f5a22..cca5c7a 100644
--- a/src/lop/models/PreferenceGP.py
+++ b/src/lop/models/PreferenceGP.py
@@ -127,6 +127,8 @@ class PreferenceGP(PreferenceModel):
             lower = True
             alpha = cho_solve((L, lower), F)
         except np.linalg.LinAlgError:
+            # the decomposition of infinite values may never return
+            np.asarray_chkfinite(K)
             K_inv = np.linalg.pinv(K)
             alpha = K_inv @ F
 
@@ -135,6 +137,8 @@ class PreferenceGP(PreferenceModel):
 
 
         ######### calculate the covariance and the sigma on the covariance
+        # the decomposition of infinite values may never return
+        np.asarray_chkfinite(np.matmul(W, K))
         tmp = self.invert_function(np.identity(len(K)) + np.matmul(W, K))
         tmp2 = np.matmul(covXX_test, tmp)
         tmp3 = np.matmul(W, covX_testX)
@@ -540,9 +544,13 @@ class PreferenceGP(PreferenceModel):
             L_K = np.linalg.cholesky(K)
             alpha_K = cho_solve((L_K, True), F)
         except np.linalg.LinAlgError:
+            # the decomposition of infinite values may never return
+            np.asarray_chkfinite(K)
             alpha_K = np.linalg.pinv(K) @ F
 
         B = np.eye(K.shape[0]) + (K @ W)
+        # the decomposition of infinite values may never return
+        np.asarray_chkfinite(B)
         B_inv = self.invert_function(B)
 
         # Calculate derivative of W matrix with respect to the F vecotr (3d np array)
diff --git a/src/lop/models/PreferenceModel.py b/src/lop/models/PreferenceModel.py
index db4ff1e..5fdc788 100644
--- a/src/lop/models/PreferenceModel.py
+++ b/src/lop/models/PreferenceModel.py
@@ -445,6 +445,8 @@ class PreferenceModel(Model):
             if np.max(curvature) > 1e-9 * np.max(np.abs(curvature)):
                 hess = -(directions * np.abs(curvature)) @ directions.T
 
+            # the decomposition of infinite values may never return
+            np.asarray_chkfinite(hess)
             descent = gradient @ invert_function(hess)
         except Exception:
             # hessian could not be inverted, damp it so that the step still goes uphill
-- 
2.43.0


From 5ce783f05b19488df5b9c8d87b5441203f25c1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:46 +0000
Subject: [PATCH 30/40] fix: ranking pairs are returned

---
 src/lop/utilities/preference_pairs.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/lop/utilities/preference_pairs.py b/src/lop/utilities/preference_pairs.py
index c70f7fb..406d122 100644
--- a/src/lop/utilities/preference_pairs.py
+++ b/src/lop/utilities/preference_pairs.py
@@ -112,5 +112,4 @@ def generate_ranking_pairs(X, real_f):
         for j, idx2 in enumerate(sorted_idx[i+1:]):
             pairs.append((get_dk(1,0), idx1, idx2))
 
-
-
+    return pairs
-- 
2.43.0


From 4809f9bc24f1991cc44957e2fe8780084a39857f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:46 +0000
Subject: [PATCH 31/40] fix: experiments with a perfect user run (there is
 nothing to tune)

---
 src/lop/utilities/synthetic_user.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lop/utilities/synthetic_user.py b/src/lop/utilities/synthetic_user.py
index 85539e9..b6bf35b 100644
--- a/src/lop/utilities/synthetic_user.py
+++ b/src/lop/utilities/synthetic_user.py
@@ -72,6 +72,11 @@ class PerfectUser(SyntheticUser):
         y = self.fake_f(query_reward)
 
         return sigmoid(y)
+
+    ## learn_beta
+    # A perfect user makes no errors, so there is nothing to tune.
+    def learn_beta(self, rewards, p, Q_size=2, p_sigma=None):
+        pass
     
 
 
-- 
2.43.0


From 9511e8cb177ad7ebbef83e92a212b0027f8317ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:46 +0000
Subject: [PATCH 32/40] fix: model states are recorded with a min-log utility
 as well

---
 experiments/GP_visualization.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/experiments/GP_visualization.py b/experiments/GP_visualization.py
index 5100177..c73c364 100644
--- a/experiments/GP_visualization.py
+++ b/experiments/GP_visualization.py
@@ -12,7 +12,10 @@ import lop
 def record_gp_state(model, fake_f, bounds=[(0,0),(2.0,2.0)], folder='./', \
                     file_header='', visualize=False):
     
-    if fake_f.w.shape[0] == 2:
+    # FakeMinLog has no weights of its own
+    w = fake_f.min.w if isinstance(fake_f, lop.FakeMinLog) else fake_f.w
+
+    if w.shape[0] == 2:
         # Generate test grid
         num_side = 25
         x = np.linspace(bounds[0][0], bounds[0][1], num_side)
-- 
2.43.0


From 16d697a5248b17837f05c8b13eaa964ad1d0d732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:46 +0000
Subject: [PATCH 33/40] fix: all acquisition selectors use the requested
 representative points

---
 experiments/experiment_helper.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/experiments/experiment_helper.py b/experiments/experiment_helper.py
index 78ea8cc..ecd0a56 100644
--- a/experiments/experiment_helper.py
+++ b/experiments/experiment_helper.py
@@ -132,8 +132,10 @@ def get_active_learner(selector, selection_type, rep_pt_type, UCB_scalar, defaul
         al = lop.RateChooseLearner(pairwise_l=pair, abs_l=abs_l, default_to_pareto=default_to_pareto, 
                                     always_select_best=always_select_best)
     elif selector == 'SW_ACQ_SPEAR':
-        abs_l = lop.AbsAcquisition(M=M, alignment_f='spearman')
-        pair = lop.AcquisitionSelection(M=M, alignment_f='spearman')
+        abs_l = lop.AbsAcquisition(M=M, alignment_f='spearman',
+                                    rep_Q_method = rep_type, rep_Q_data = rep_pt_data)
+        pair = lop.AcquisitionSelection(M=M, alignment_f='spearman',
+                                    rep_Q_method = rep_type, rep_Q_data = rep_pt_data)
         al = lop.RateChooseLearner(pairwise_l=pair, abs_l=abs_l, default_to_pareto=default_to_pareto, 
                                     always_select_best=always_select_best)
     elif selector == 'SW_BAYES_PROBIT':
@@ -228,7 +230,8 @@ def get_active_learner(selector, selection_type, rep_pt_type, UCB_scalar, defaul
         al = lop.AlignmentDecision(pairwise_l=pair, abs_l=abs_l,num_calls_decision=2, default_to_pareto=default_to_pareto, 
                                     always_select_best=always_select_best) 
     elif selector == 'SW_DEC_LL':
-        pair = lop.AcquisitionSelection(M=M, alignment_f='loglikelihood')
+        pair = lop.AcquisitionSelection(M=M, alignment_f='loglikelihood',
+                                    rep_Q_method = rep_type, rep_Q_data = rep_pt_data)
         abs_l = lop.UCBLearner(UCB_scalar)
         al = lop.AlignmentDecision(pairwise_l=pair, abs_l=abs_l,num_calls_decision=2, default_to_pareto=default_to_pareto, 
                                     always_select_best=always_select_best) 
-- 
2.43.0


From a4af783d5754ee9c9c7e0aca14f387765d577f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:46 +0000
Subject: [PATCH 34/40] fix: experiments record Spearman's rank correlation

---
 experiments/experiment_helper.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/experiments/experiment_helper.py b/experiments/experiment_helper.py
index ecd0a56..acab304 100644
--- a/experiments/experiment_helper.py
+++ b/experiments/experiment_helper.py
@@ -27,6 +27,7 @@ import sys
 import pickle
 from sklearn_extra.cluster import KMedoids
 import scipy.spatial as spa
+import scipy.stats as st
 import pdb
 
 import lop
@@ -836,9 +837,7 @@ def evaluation(env_num, utility_f, config, model, eval_data):
 
 
         # calculate spearman and pearson correlation
-        score_sort = np.argsort(scores)[::-1]
-
-        spearman = np.corrcoef(np.array([sorted_idx, score_sort]))[0,1]
+        spearman = np.corrcoef(np.array([st.rankdata(fake_utility), st.rankdata(scores)]))[0,1]
         pearson = np.corrcoef(np.array([fake_utility, scores]))[0,1]
 
         # calculate rho space
-- 
2.43.0


From 388c3bdfbbf1fc617965ea6c8b6a8944621c99b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:46 +0000
Subject: [PATCH 35/40] fix: results have one column per evaluation of the
 environment evaluated

---
 experiments/experiment_helper.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/experiments/experiment_helper.py b/experiments/experiment_helper.py
index acab304..09f9ce8 100644
--- a/experiments/experiment_helper.py
+++ b/experiments/experiment_helper.py
@@ -665,14 +665,14 @@ def train_and_eval(config_filename,
     avg_selection = np.zeros(num_training+1)
     query_type_is_abs = np.zeros(num_training+1, dtype=int) - 1
     query_is_correct = np.zeros(num_training+1, dtype=int) - 1
-    all_ranks = np.zeros((num_training+1, len(eval_data[0])))
-
-    estimated_scores = np.zeros((num_training+1, len(eval_data[0])))
-    real_scores = np.zeros((num_training+1, len(eval_data[0])))
-    score_diff = np.zeros((num_training+1, len(eval_data[0])))
-    spearmans = np.zeros((num_training+1, len(eval_data[0])))
-    pearsons = np.zeros((num_training+1, len(eval_data[0])))
-    rhos = np.zeros((num_training+1, len(eval_data[0])))
+    all_ranks = np.zeros((num_training+1, len(eval_data[env_num])))
+
+    estimated_scores = np.zeros((num_training+1, len(eval_data[env_num])))
+    real_scores = np.zeros((num_training+1, len(eval_data[env_num])))
+    score_diff = np.zeros((num_training+1, len(eval_data[env_num])))
+    spearmans = np.zeros((num_training+1, len(eval_data[env_num])))
+    pearsons = np.zeros((num_training+1, len(eval_data[env_num])))
+    rhos = np.zeros((num_training+1, len(eval_data[env_num])))
 
     # test untrained model
     accuracy[0], avg_selection[0], all_ranks[0], estimated_scores[0], real_scores[0], score_diff[0], spearmans[0], pearsons[0], rhos[0] = \
-- 
2.43.0


From 9777570325dcb2128e438aabc63ca05e4d81a4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:59 +0000
Subject: [PATCH 36/40] fix: an answer of probability zero made the mutual
 information of a query undefined

---
 src/lop/active_learning/MutualInfoLearner.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lop/active_learning/MutualInfoLearner.py b/src/lop/active_learning/MutualInfoLearner.py
index 0e2b344..f40a027 100644
--- a/src/lop/active_learning/MutualInfoLearner.py
+++ b/src/lop/active_learning/MutualInfoLearner.py
@@ -111,7 +111,10 @@ class MutualInfoLearner(ActiveLearner):
         sum_p_over_w = np.sum(p, axis=0)
 
         # Find the information gain using the sample equation (4) in [1]
-        info_gain = np.sum(p * np.log2(self.M * p / sum_p_over_w)) / self.M
+        # an answer with a probability of zero adds nothing to it
+        ratio = np.ones(p.shape)
+        np.divide(self.M * p, sum_p_over_w, out=ratio, where=p > 0)
+        info_gain = np.sum(p * np.log2(ratio)) / self.M
 
         return info_gain
         
-- 
2.43.0


From d051552eb21ef6d1698ab0f9ca01925a11718c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:59 +0000
Subject: [PATCH 37/40] fix: a rating no sample can give made the alignment of
 a rating query undefined

---
 src/lop/active_learning/AbsAcquisition.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lop/active_learning/AbsAcquisition.py b/src/lop/active_learning/AbsAcquisition.py
index 6465872..34403f8 100644
--- a/src/lop/active_learning/AbsAcquisition.py
+++ b/src/lop/active_learning/AbsAcquisition.py
@@ -49,6 +49,8 @@ def pq_integrand(q, aa, bb, f):
     M = f.shape[0]
 
     p_q = np.sum(p_q_w, axis=0) / M
+    # a rating that no sample can give adds nothing to the integral
+    p_q = np.where(p_q > 0, p_q, 1.0)
 
     integr = fast_sum_Q(p_q_w, p_q, f, M)
 
-- 
2.43.0


From f6ec2f13a46b23e97b73d0204ac9c1e30304aa47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:59 +0000
Subject: [PATCH 38/40] fix: information about the best candidate ignored the
 raised probability of choosing it

---
 src/lop/active_learning/BayesInfoGain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/active_learning/BayesInfoGain.py b/src/lop/active_learning/BayesInfoGain.py
index 79a4b15..aae48a2 100644
--- a/src/lop/active_learning/BayesInfoGain.py
+++ b/src/lop/active_learning/BayesInfoGain.py
@@ -54,7 +54,7 @@ class BayesInfoGain(ActiveLearner):
                     if self.p_q_B_method == 'probit':
                         sub_probit = probit_mat[q_i, Q_subi]
                         sub_probit_w = np.where(q_i == B_i, np.fmax(sub_probit, 1-sub_probit), sub_probit)
-                        p_q_B[i, B_i] = np.prod(sub_probit)
+                        p_q_B[i, B_i] = np.prod(sub_probit_w)
                     elif self.p_q_B_method == '999': 
                         p_q_B[i, B_i] = np.prod(np.where(q_i == B_i, 0.999, sub_probit))
                     elif self.p_q_B_method == '99':
-- 
2.43.0


From 6812be3fc8fc942829374b14d07896d60bddd428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:59 +0000
Subject: [PATCH 39/40] fix: an impossible answer made the information about
 the best candidate undefined

---
 src/lop/active_learning/BayesInfoGain.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lop/active_learning/BayesInfoGain.py b/src/lop/active_learning/BayesInfoGain.py
index aae48a2..ab29be4 100644
--- a/src/lop/active_learning/BayesInfoGain.py
+++ b/src/lop/active_learning/BayesInfoGain.py
@@ -70,8 +70,10 @@ class BayesInfoGain(ActiveLearner):
 
 
         # calculate probability of B given Y and each q using Bayes rule
-        p_B_q = p_q_B * p_B / np.repeat(p_q[:,np.newaxis], N, axis=1)
-        p_B_q = p_B_q / np.repeat(np.sum(p_B_q, axis=1)[:, np.newaxis], N, axis=1) 
+        # an answer which is (numerically) impossible has no weight in the expectation below
+        p_B_q = p_q_B * p_B
+        norm = np.repeat(np.sum(p_B_q, axis=1)[:, np.newaxis], N, axis=1)
+        p_B_q = np.divide(p_B_q, norm, out=np.zeros(p_B_q.shape), where=norm > 0)
 
         if debug:
             print('\tp_B_q = ' + str(p_B_q))
-- 
2.43.0


From a11d5e317e00217e7b5a417412de3fc53f73c7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:15 +0000
Subject: [PATCH 40/40] fix: calibrate HumanChoiceUser2 where every choice is
 certain over much of the range of beta

The objective is flat wherever all choices are (almost) certain. For rewards
whose values are well apart, the bounded search over beta in [0.01, 200] started
on that plateau and silently returned beta = 200, a user who never errs, for any
requested accuracy. Search over log(beta) instead.
---
 src/lop/utilities/HumanChoiceUser2.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lop/utilities/HumanChoiceUser2.py b/src/lop/utilities/HumanChoiceUser2.py
index ec0aa50..6c9d575 100644
--- a/src/lop/utilities/HumanChoiceUser2.py
+++ b/src/lop/utilities/HumanChoiceUser2.py
@@ -118,14 +118,15 @@ class HumanChoiceUser2(HumanChoiceUser):
         #print(res)
 
         ## Pairwise tuning
-        res = minimize_scalar(self.obj, bounds=[0.01, 200.0], args=(diffs, p), options={'xatol': 0.001})
+        # search over log(beta), as the objective is flat wherever every choice is (almost) certain
+        res = minimize_scalar(lambda log_beta: self.obj(np.exp(log_beta), diffs, p), bounds=np.log([0.01, 200.0]), options={'xatol': 0.00001})
 
         f_list = [[self.fake_f(r_problem) for r_problem in r_env] for r_env in rewards]
         min_max = np.array([min([min([np.min(f1) for f1 in f2]) for f2 in f_list]),  \
                             max([max([np.max(f1) for f1 in f2]) for f2 in f_list])])            
 
         self.k, self.b = self.get_k_b(min_max)
-        self.beta = res.x
+        self.beta = np.exp(res.x)
 
         
 
-- 
2.43.0

