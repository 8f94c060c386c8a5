From d04ded60222090060bc4892da0678c25dd9e7ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:23 +0000
Subject: [PATCH 01/49] fix: don't pad top-N results with item 0 when N exceeds
 the number of candidates

---
 implicit/cpu/topk.pyx   | 3 +++
 implicit/evaluation.pyx | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/implicit/cpu/topk.pyx b/implicit/cpu/topk.pyx
index 05dca11..c434c9d 100644
--- a/implicit/cpu/topk.pyx
+++ b/implicit/cpu/topk.pyx
@@ -16,6 +16,9 @@ def topk(items, query, int k, item_norms=None, filter_query_items=None, filter_i
     if len(query.shape) == 1:
         query = query.reshape((1, len(query)))
 
+    # can't return more results than there are candidates to select from
+    k = min(k, items.shape[0])
+
     cdef int query_rows = query.shape[0]
     indices = np.zeros((query_rows, k), dtype="int32")
     distances = np.zeros((query_rows, k), dtype=query.dtype)
diff --git a/implicit/evaluation.pyx b/implicit/evaluation.pyx
index bd59040..212d33c 100644
--- a/implicit/evaluation.pyx
+++ b/implicit/evaluation.pyx
@@ -450,7 +450,7 @@ def ranking_metrics_at_k(model, train_user_items, test_user_items, int K=10,
                 num_pos_items = likes.size()
                 num_neg_items = items - num_pos_items
 
-                for i in range(K):
+                for i in range(min(K, ids.shape[1])):
                     if likes.find(ids[batch_idx, i]) != likes.end():
                         relevant += 1
                         hit += 1
-- 
2.43.0


From c8e6bffc24a670288e67952fa3bb4d5ca810ad7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:23 +0000
Subject: [PATCH 02/49] fix: accept a numpy RandomState as random_state

---
 implicit/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/implicit/utils.py b/implicit/utils.py
index 4e86ee7..bdf8468 100644
--- a/implicit/utils.py
+++ b/implicit/utils.py
@@ -76,7 +76,7 @@ def check_random_state(random_state):
     """
     # backwards compatibility
     if isinstance(random_state, np.random.RandomState):
-        return np.random.default_rng(random_state.rand_int(2**31))
+        return np.random.default_rng(random_state.randint(2**31))
 
     # otherwise try to initialize a new one, and let it fail through
     # on the numpy side if it doesn't work
-- 
2.43.0


From e9ec912a88e5fe029f4789680a4861a178228d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:23 +0000
Subject: [PATCH 03/49] fix: make leave_k_out_split honour its random_state

---
 implicit/evaluation.pyx | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/implicit/evaluation.pyx b/implicit/evaluation.pyx
index 212d33c..acea1eb 100644
--- a/implicit/evaluation.pyx
+++ b/implicit/evaluation.pyx
@@ -74,7 +74,7 @@ cdef _choose(rng, int n, float frac):
     return arr
 
 
-cdef _take_tails(arr, int n, return_complement=False, shuffled=False):
+cdef _take_tails(arr, int n, return_complement=False, shuffled=False, rng=None):
     """
     Given an array of (optionally shuffled) integers in the range 0->n, take the indices
     of the last 'n' occurrences of each integer (tail) -- subject to shuffling.
@@ -108,6 +108,8 @@ cdef _take_tails(arr, int n, return_complement=False, shuffled=False):
     shuffled: bool
         Optionally indicate whether you wish the dataset to be shuffled. This will act
         to randomise the 'tails' selected.
+    rng : np.random.Generator
+        The random number generator to use when shuffling.
 
     Returns
     -------
@@ -125,7 +127,7 @@ cdef _take_tails(arr, int n, return_complement=False, shuffled=False):
     ranges = np.linspace(start, end, num=n + 1, dtype=int)[1:]
 
     if shuffled:
-        shuffled_idx = (sorted_arr + np.random.random(arr.shape)).argsort()
+        shuffled_idx = (sorted_arr + rng.random(arr.shape)).argsort()
         tails = shuffled_idx[np.ravel(ranges, order="f")]
     else:
         tails = np.ravel(ranges, order="f")
@@ -204,7 +206,7 @@ cpdef leave_k_out_split(
     candidate_data = data[full_candidate_mask]
 
     test_idx, train_idx = _take_tails(
-        candidate_users, K, shuffled=True, return_complement=True
+        candidate_users, K, shuffled=True, return_complement=True, rng=random_state
     )
 
     # get all remaining remaining candidate user-item pairs, and prepare to append to
-- 
2.43.0


From da7431577816735ebf30a8770c868630f92ba2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:23 +0000
Subject: [PATCH 04/49] fix: leave_k_out_split duplicated test entries when
 candidate user ids had gaps

---
 implicit/evaluation.pyx | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/implicit/evaluation.pyx b/implicit/evaluation.pyx
index acea1eb..f5c9b99 100644
--- a/implicit/evaluation.pyx
+++ b/implicit/evaluation.pyx
@@ -94,10 +94,7 @@ cdef _take_tails(arr, int n, return_complement=False, shuffled=False, rng=None):
     Parameters
     ----------
     arr: ndarray
-        The input array. This should be an array of integers in the range 0->n, where
-        the ordered unique set of integers in said array should produce an array of
-        consecutive integers. Concretely, the array [1, 0, 1, 1, 0, 3] would be invalid,
-        but the array [1, 0, 1, 1, 0, 2] would not be.
+        The input array of integers.
     n: int
         The number of elements in the tail to take. Note that no checks are made to
         ensure that this value is correct (i.e. that a given integer occurs > n times in
@@ -120,7 +117,9 @@ cdef _take_tails(arr, int n, return_complement=False, shuffled=False, rng=None):
     """
 
     idx = arr.argsort()
-    sorted_arr = arr[idx]
+
+    # map to consecutive integers: values missing from arr have no tail to take
+    _, sorted_arr = np.unique(arr[idx], return_inverse=True)
 
     end = np.bincount(sorted_arr).cumsum() - 1
     start = end - n
-- 
2.43.0


From 06afe16b4eae9fefa15542f224632a1d4a53f864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:23 +0000
Subject: [PATCH 05/49] fix: leave_k_out_split train_only_size chose positions
 instead of users

---
 implicit/evaluation.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/implicit/evaluation.pyx b/implicit/evaluation.pyx
index f5c9b99..2c5eb7f 100644
--- a/implicit/evaluation.pyx
+++ b/implicit/evaluation.pyx
@@ -190,7 +190,8 @@ cpdef leave_k_out_split(
     # keep a given subset of users _only_ in the training set.
     if train_only_size > 0.0:
         train_only_mask = ~np.isin(
-            unique_users, _choose(random_state, len(unique_users), train_only_size)
+            unique_users,
+            unique_users[_choose(random_state, len(unique_users), train_only_size)]
         )
         candidate_mask = train_only_mask & candidate_mask
 
-- 
2.43.0


From eb095ec384a30d4422aa74538d9f15651647e03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:15 +0000
Subject: [PATCH 06/49] fix: norms and gram matrices cached by a fit callback
 went stale

---
 implicit/cpu/als.py  | 12 +++++++++---
 implicit/cpu/bpr.pyx |  2 ++
 implicit/cpu/lmf.pyx |  2 ++
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/implicit/cpu/als.py b/implicit/cpu/als.py
index 1ec7a91..8971858 100644
--- a/implicit/cpu/als.py
+++ b/implicit/cpu/als.py
@@ -148,9 +148,7 @@ class AlternatingLeastSquares(MatrixFactorizationBase):
         log.debug("Initialized factors in %s", time.time() - s)
 
         # invalidate cached norms and squared factors
-        self._item_norms = self._user_norms = None
-        self._YtY = None
-        self._XtX = None
+        self._invalidate_caches()
         loss = None
 
         solver = self.solver
@@ -176,6 +174,9 @@ class AlternatingLeastSquares(MatrixFactorizationBase):
                 )
                 progress.update(1)
 
+                # a callback in a previous iteration could have cached values of the old factors
+                self._invalidate_caches()
+
                 if self.calculate_training_loss:
                     loss = _als.calculate_loss(
                         Cui,
@@ -200,6 +201,11 @@ class AlternatingLeastSquares(MatrixFactorizationBase):
 
         self._check_fit_errors()
 
+    def _invalidate_caches(self):
+        self._item_norms = self._user_norms = None
+        self._YtY = None
+        self._XtX = None
+
     def recalculate_user(self, userid, user_items):
         """Recalculates factors for a batch of users
 
diff --git a/implicit/cpu/bpr.pyx b/implicit/cpu/bpr.pyx
index 16dd2a6..6a2b37b 100644
--- a/implicit/cpu/bpr.pyx
+++ b/implicit/cpu/bpr.pyx
@@ -194,6 +194,8 @@ class BayesianPersonalizedRanking(MatrixFactorizationBase):
                                               self.user_factors, self.item_factors,
                                               self.learning_rate, self.regularization, num_threads,
                                               self.verify_negative_samples)
+                # a callback in a previous epoch could have cached norms of the old factors
+                self._user_norms = self._item_norms = None
                 progress.update(1)
                 total = len(user_items.data)
                 if total != 0 and total != skipped:
diff --git a/implicit/cpu/lmf.pyx b/implicit/cpu/lmf.pyx
index 7349470..c4b4e5f 100644
--- a/implicit/cpu/lmf.pyx
+++ b/implicit/cpu/lmf.pyx
@@ -192,6 +192,8 @@ class LogisticMatrixFactorization(MatrixFactorizationBase):
                            item_users.indices, item_users.indptr, item_users.data,
                            self.learning_rate, self.regularization, self.neg_prop, num_threads)
                 self.item_factors[:, -1] = 1.0
+                # a callback in a previous epoch could have cached norms of the old factors
+                self._user_norms = self._item_norms = None
                 progress.update(1)
                 if callback:
                     callback(epoch, time.time() - s)
-- 
2.43.0


From 0bcf65645af6d37b3a5db0ac81c90b0ba2750d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:15 +0000
Subject: [PATCH 07/49] fix: LMF didn't invalidate cached norms when refit

---
 implicit/cpu/lmf.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/implicit/cpu/lmf.pyx b/implicit/cpu/lmf.pyx
index c4b4e5f..8e4bd50 100644
--- a/implicit/cpu/lmf.pyx
+++ b/implicit/cpu/lmf.pyx
@@ -164,6 +164,9 @@ class LogisticMatrixFactorization(MatrixFactorizationBase):
             # set factors to all zeros for users without any ratings
             self.user_factors[user_counts == 0] = np.zeros(self.factors + 2)
 
+        # invalidate cached norms
+        self._user_norms = self._item_norms = None
+
         # For Adagrad update
         user_vec_deriv_sum = np.zeros((users, self.factors + 2)).astype(np.float32)
         item_vec_deriv_sum = np.zeros((items, self.factors + 2)).astype(np.float32)
-- 
2.43.0


From eba3433fd5b085e6b6484c963ce55500218c9740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:15 +0000
Subject: [PATCH 08/49] fix: saving item-item models lost num_threads and the
 BM25 parameters

---
 implicit/nearest_neighbours.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/implicit/nearest_neighbours.py b/implicit/nearest_neighbours.py
index d33717d..8d794e8 100644
--- a/implicit/nearest_neighbours.py
+++ b/implicit/nearest_neighbours.py
@@ -157,8 +157,11 @@ class ItemItemRecommender(RecommenderBase):
         else:
             self.scorer = None
 
+    def _save_args(self):
+        return {"K": self.K, "num_threads": self.num_threads}
+
     def save(self, fileobj_or_path):
-        args = {"K": self.K}
+        args = self._save_args()
         m = self.similarity
         if m is not None:
             args.update(
@@ -180,7 +183,10 @@ class ItemItemRecommender(RecommenderBase):
                 )
                 ret.similarity = similarity
                 ret.scorer = NearestNeighboursScorer(similarity)
-            ret.K = data["K"]
+            for name in ret._save_args():
+                # files written by older versions only contain K
+                if name in data:
+                    setattr(ret, name, data[name].item())
             return ret
 
 
@@ -208,6 +214,9 @@ class BM25Recommender(ItemItemRecommender):
         self.K1 = K1
         self.B = B
 
+    def _save_args(self):
+        return {**super()._save_args(), "K1": self.K1, "B": self.B}
+
     def fit(self, counts, show_progress=True, callback=None):
         weighted = bm25_weight(counts.T, self.K1, self.B).T
         ItemItemRecommender.fit(self, weighted, show_progress, callback)
-- 
2.43.0


From cc77e9591da3e57f88416fcdf58c2822af59832b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:15 +0000
Subject: [PATCH 09/49] fix: item-item similar_items failed when items was
 passed as a list

---
 implicit/nearest_neighbours.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/implicit/nearest_neighbours.py b/implicit/nearest_neighbours.py
index 8d794e8..a58aab6 100644
--- a/implicit/nearest_neighbours.py
+++ b/implicit/nearest_neighbours.py
@@ -132,6 +132,7 @@ class ItemItemRecommender(RecommenderBase):
             ids, scores = ids[mask], scores[mask]
 
         elif items is not None:
+            items = np.array(items)
             mask = np.in1d(ids, items)
             ids, scores = ids[mask], scores[mask]
 
-- 
2.43.0


From 19589716ec2176fe07734fe449fa7294201f0abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:15 +0000
Subject: [PATCH 10/49] fix: item-item recommend returned more than N items
 when filtering

---
 implicit/nearest_neighbours.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/implicit/nearest_neighbours.py b/implicit/nearest_neighbours.py
index a58aab6..4702a32 100644
--- a/implicit/nearest_neighbours.py
+++ b/implicit/nearest_neighbours.py
@@ -71,20 +71,21 @@ class ItemItemRecommender(RecommenderBase):
         if filter_items is not None and items is not None:
             raise ValueError("Can't specify both filter_items and items")
 
+        count = N
         if filter_items is not None:
-            N += len(filter_items)
+            count += len(filter_items)
         elif items is not None:
             items = np.array(items)
-            N = self.similarity.shape[0]
+            count = self.similarity.shape[0]
             # check if items contains itemids that are not in the model(user_items)
-            if items.max() >= N or items.min() < 0:
+            if items.max() >= count or items.min() < 0:
                 raise IndexError("Some of selected itemids are not in the model")
 
         ids, scores = self.scorer.recommend(
             user_items.indptr,
             user_items.indices,
             user_items.data,
-            K=N,
+            K=count,
             remove_own_likes=filter_already_liked_items,
         )
 
@@ -102,7 +103,7 @@ class ItemItemRecommender(RecommenderBase):
                 ids = np.append(ids, missing)
                 scores = np.append(scores, np.full(missing.size, -np.finfo(scores.dtype).max))
 
-        return ids, scores
+        return ids[:N], scores[:N]
 
     def similar_users(self, userid, N=10, filter_users=None, users=None):
         raise NotImplementedError("similar_users isn't implemented for item-item recommenders")
-- 
2.43.0


From bd602fe9d4cf9de1c6da94adddbb75d49c26439a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:15 +0000
Subject: [PATCH 11/49] fix: item-item recommend returned already liked items
 when few candidates exist

---
 implicit/nearest_neighbours.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/implicit/nearest_neighbours.py b/implicit/nearest_neighbours.py
index 4702a32..d94422f 100644
--- a/implicit/nearest_neighbours.py
+++ b/implicit/nearest_neighbours.py
@@ -81,6 +81,12 @@ class ItemItemRecommender(RecommenderBase):
             if items.max() >= count or items.min() < 0:
                 raise IndexError("Some of selected itemids are not in the model")
 
+        # the scorer only zeroes out the score of liked items, so ask for enough results that
+        # they can be removed below
+        liked = user_items[0].indices
+        if filter_already_liked_items:
+            count += len(liked)
+
         ids, scores = self.scorer.recommend(
             user_items.indptr,
             user_items.indices,
@@ -89,6 +95,10 @@ class ItemItemRecommender(RecommenderBase):
             remove_own_likes=filter_already_liked_items,
         )
 
+        if filter_already_liked_items:
+            mask = np.in1d(ids, liked, invert=True)
+            ids, scores = ids[mask], scores[mask]
+
         if filter_items is not None:
             mask = np.in1d(ids, filter_items, invert=True)
             ids, scores = ids[mask][:N], scores[mask][:N]
-- 
2.43.0


From ea9db4f49d0594140eba92128dee39961fca84ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:15 +0000
Subject: [PATCH 12/49] fix: item-item recommend read out of bounds on items
 that aren't in the model

---
 implicit/nearest_neighbours.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/implicit/nearest_neighbours.py b/implicit/nearest_neighbours.py
index d94422f..3768bba 100644
--- a/implicit/nearest_neighbours.py
+++ b/implicit/nearest_neighbours.py
@@ -84,6 +84,8 @@ class ItemItemRecommender(RecommenderBase):
         # the scorer only zeroes out the score of liked items, so ask for enough results that
         # they can be removed below
         liked = user_items[0].indices
+        if liked.size and liked.max() >= self.similarity.shape[0]:
+            raise IndexError("Some itemids in user_items are not in the model")
         if filter_already_liked_items:
             count += len(liked)
 
-- 
2.43.0


From 850a85cf6016b076570e632eae0c9fb36fb5842a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:15 +0000
Subject: [PATCH 13/49] fix: all_pairs_knn made item 0 a neighbour of itself
 when any item had under K neighbours

---
 implicit/_nearest_neighbours.pyx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/implicit/_nearest_neighbours.pyx b/implicit/_nearest_neighbours.pyx
index 84fa810..c4407fc 100644
--- a/implicit/_nearest_neighbours.pyx
+++ b/implicit/_nearest_neighbours.pyx
@@ -131,7 +131,8 @@ def all_pairs_knn(users, unsigned int K=100, int num_threads=0, show_progress=Tr
 
     # holds triples of output
     cdef double[:] values = np.zeros(item_count * K)
-    cdef long[:] rows = np.zeros(item_count * K, dtype=int)
+    # (items with fewer than K neighbours leave slots unused, marked here with row -1)
+    cdef long[:] rows = np.full(item_count * K, -1, dtype=int)
     cdef long[:] cols = np.zeros(item_count * K, dtype=int)
 
     progress = tqdm(total=item_count, disable=not show_progress)
@@ -166,5 +167,7 @@ def all_pairs_knn(users, unsigned int K=100, int num_threads=0, show_progress=Tr
             del neighbours
             del topk
     progress.close()
-    return scipy.sparse.coo_matrix((values, (rows, cols)),
+    used = np.asarray(rows) >= 0
+    return scipy.sparse.coo_matrix((np.asarray(values)[used],
+                                    (np.asarray(rows)[used], np.asarray(cols)[used])),
                                    shape=(item_count, item_count))
-- 
2.43.0


From 48e82eada6bec6d40c6a20ca8c7dea4f554cead2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:00 +0000
Subject: [PATCH 14/49] fix: annoy similar_items returned too few results when
 filtering items

---
 implicit/ann/annoy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/implicit/ann/annoy.py b/implicit/ann/annoy.py
index 87d1c44..82f7448 100644
--- a/implicit/ann/annoy.py
+++ b/implicit/ann/annoy.py
@@ -139,7 +139,7 @@ class AnnoyModel(RecommenderBase):
             factor = factor.squeeze()
 
         ids, scores = self.similar_items_index.get_nns_by_vector(
-            factor, N, search_k=self.search_k, include_distances=True
+            factor, count, search_k=self.search_k, include_distances=True
         )
         ids, scores = np.array(ids), np.array(scores)
 
-- 
2.43.0


From 03b2db7db55acd0f789827845d24d79f27e0a2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:00 +0000
Subject: [PATCH 15/49] fix: faiss recommend failed with
 approximate_recommend=False

---
 implicit/ann/faiss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/implicit/ann/faiss.py b/implicit/ann/faiss.py
index 8fcb356..c51bfff 100644
--- a/implicit/ann/faiss.py
+++ b/implicit/ann/faiss.py
@@ -210,7 +210,7 @@ class FaissModel(RecommenderBase):
             )
 
         if not self.approximate_recommend:
-            warnings.warning("Calling recommend on a FaissModel with approximate_recommend=False")
+            warnings.warn("Calling recommend on a FaissModel with approximate_recommend=False")
             return self.model.recommend(
                 userid,
                 user_items,
-- 
2.43.0


From 1365bc33fa891ee8b18c06a156b0e1fc8d1707f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:00 +0000
Subject: [PATCH 16/49] fix: faiss similar_items normalized the item factors of
 the model in place

---
 implicit/ann/faiss.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/implicit/ann/faiss.py b/implicit/ann/faiss.py
index c51bfff..1f9a03b 100644
--- a/implicit/ann/faiss.py
+++ b/implicit/ann/faiss.py
@@ -162,10 +162,11 @@ class FaissModel(RecommenderBase):
                 factors = factors.to_numpy()
 
         if np.isscalar(itemid):
-            factors /= np.linalg.norm(factors)
             factors = factors.reshape(1, -1)
-        else:
-            factors /= np.linalg.norm(factors, axis=1)[:, None]
+
+        norms = np.linalg.norm(factors, axis=1)
+        norms[norms == 0] = 1e-10
+        factors = factors / norms[:, None]
 
         scores, ids = self.similar_items_index.search(factors.astype("float32"), count)
 
-- 
2.43.0


From aead7ca01fba9a5bc4b7e878e662e2014579afba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:00 +0000
Subject: [PATCH 17/49] fix: ANN models failed to recommend with an ndarray
 filter_items

---
 implicit/ann/annoy.py  | 2 +-
 implicit/ann/faiss.py  | 2 +-
 implicit/ann/nmslib.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/implicit/ann/annoy.py b/implicit/ann/annoy.py
index 82f7448..dae3011 100644
--- a/implicit/ann/annoy.py
+++ b/implicit/ann/annoy.py
@@ -205,7 +205,7 @@ class AnnoyModel(RecommenderBase):
         # calculate the top N items, removing the users own liked items from
         # the results
         count = N
-        if filter_items:
+        if filter_items is not None:
             count += len(filter_items)
             filter_items = np.array(filter_items)
 
diff --git a/implicit/ann/faiss.py b/implicit/ann/faiss.py
index 1f9a03b..06ccb06 100644
--- a/implicit/ann/faiss.py
+++ b/implicit/ann/faiss.py
@@ -237,7 +237,7 @@ class FaissModel(RecommenderBase):
         # calculate the top N items, removing the users own liked items from
         # the results
         count = N
-        if filter_items:
+        if filter_items is not None:
             count += len(filter_items)
             filter_items = np.array(filter_items)
 
diff --git a/implicit/ann/nmslib.py b/implicit/ann/nmslib.py
index 320e9fd..26b2a21 100644
--- a/implicit/ann/nmslib.py
+++ b/implicit/ann/nmslib.py
@@ -213,7 +213,7 @@ class NMSLibModel(RecommenderBase):
         # calculate the top N items, removing the users own liked items from
         # the results
         count = N
-        if filter_items:
+        if filter_items is not None:
             count += len(filter_items)
             filter_items = np.array(filter_items)
 
-- 
2.43.0


From 169d4b697cfe4588be5555a7f3dda3271a246a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:00 +0000
Subject: [PATCH 18/49] fix: ANN models never supported recalculate_user

---
 implicit/ann/annoy.py  | 7 ++++---
 implicit/ann/faiss.py  | 7 ++++---
 implicit/ann/nmslib.py | 7 ++++---
 3 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/implicit/ann/annoy.py b/implicit/ann/annoy.py
index dae3011..4601a81 100644
--- a/implicit/ann/annoy.py
+++ b/implicit/ann/annoy.py
@@ -191,7 +191,7 @@ class AnnoyModel(RecommenderBase):
             )
 
         # support recalculate_user if possible (TODO: come back to this since its a bit of a hack)
-        if hasattr(self.model, "+_user_factor"):
+        if hasattr(self.model, "_user_factor"):
             user = self.model._user_factor(
                 userid, user_items, recalculate_user
             )  # pylint: disable=protected-access
@@ -199,8 +199,9 @@ class AnnoyModel(RecommenderBase):
             raise NotImplementedError(f"recalculate_user isn't supported with {self.model}")
         else:
             user = self.model.user_factors[userid]
-            if implicit.gpu.HAS_CUDA and isinstance(user, implicit.gpu.Matrix):
-                user = user.to_numpy()
+
+        if implicit.gpu.HAS_CUDA and isinstance(user, implicit.gpu.Matrix):
+            user = user.to_numpy()
 
         # calculate the top N items, removing the users own liked items from
         # the results
diff --git a/implicit/ann/faiss.py b/implicit/ann/faiss.py
index 06ccb06..5896413 100644
--- a/implicit/ann/faiss.py
+++ b/implicit/ann/faiss.py
@@ -223,7 +223,7 @@ class FaissModel(RecommenderBase):
             )
 
         # support recalculate_user if possible (TODO: come back to this since its a bit of a hack)
-        if hasattr(self.model, "+_user_factor"):
+        if hasattr(self.model, "_user_factor"):
             user = self.model._user_factor(
                 userid, user_items, recalculate_user
             )  # pylint: disable=protected-access
@@ -231,8 +231,9 @@ class FaissModel(RecommenderBase):
             raise NotImplementedError(f"recalculate_user isn't supported with {self.model}")
         else:
             user = self.model.user_factors[userid]
-            if implicit.gpu.HAS_CUDA and isinstance(user, implicit.gpu.Matrix):
-                user = user.to_numpy()
+
+        if implicit.gpu.HAS_CUDA and isinstance(user, implicit.gpu.Matrix):
+            user = user.to_numpy()
 
         # calculate the top N items, removing the users own liked items from
         # the results
diff --git a/implicit/ann/nmslib.py b/implicit/ann/nmslib.py
index 26b2a21..eb9e4ea 100644
--- a/implicit/ann/nmslib.py
+++ b/implicit/ann/nmslib.py
@@ -199,7 +199,7 @@ class NMSLibModel(RecommenderBase):
             )
 
         # support recalculate_user if possible (TODO: come back to this since its a bit of a hack)
-        if hasattr(self.model, "+_user_factor"):
+        if hasattr(self.model, "_user_factor"):
             user = self.model._user_factor(
                 userid, user_items, recalculate_user
             )  # pylint: disable=protected-access
@@ -207,8 +207,9 @@ class NMSLibModel(RecommenderBase):
             raise NotImplementedError(f"recalculate_user isn't supported with {self.model}")
         else:
             user = self.model.user_factors[userid]
-            if implicit.gpu.HAS_CUDA and isinstance(user, implicit.gpu.Matrix):
-                user = user.to_numpy()
+
+        if implicit.gpu.HAS_CUDA and isinstance(user, implicit.gpu.Matrix):
+            user = user.to_numpy()
 
         # calculate the top N items, removing the users own liked items from
         # the results
-- 
2.43.0


From 435abdfe0a3fa5bfd86b70b098765b0c4907df8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:00 +0000
Subject: [PATCH 19/49] fix: AUC counted padding in the recommendations as
 negative items

---
 implicit/evaluation.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/implicit/evaluation.pyx b/implicit/evaluation.pyx
index 2c5eb7f..a31b19c 100644
--- a/implicit/evaluation.pyx
+++ b/implicit/evaluation.pyx
@@ -453,6 +453,9 @@ def ranking_metrics_at_k(model, train_user_items, test_user_items, int K=10,
                 num_neg_items = items - num_pos_items
 
                 for i in range(min(K, ids.shape[1])):
+                    # models pad out their results with -1 when there aren't enough candidates
+                    if ids[batch_idx, i] < 0:
+                        break
                     if likes.find(ids[batch_idx, i]) != likes.end():
                         relevant += 1
                         hit += 1
-- 
2.43.0


From 47148c93dcbdb09754ae7e1ffe4711dfb13e5b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:00 +0000
Subject: [PATCH 20/49] fix: interrupted dataset downloads were used as the
 cached dataset

---
 implicit/datasets/_download.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/implicit/datasets/_download.py b/implicit/datasets/_download.py
index 0b25227..4982ea2 100644
--- a/implicit/datasets/_download.py
+++ b/implicit/datasets/_download.py
@@ -24,4 +24,14 @@ def download_file(url, local_filename):
             progress.total = total
             progress.update(chunksize)
 
-        return urlretrieve(url, local_filename, reporthook=report)
+        # download to a temporary file, so that an interrupted download isn't mistaken
+        # for the cached dataset
+        temp_filename = f"{local_filename}.{os.getpid()}.tmp"
+        try:
+            _, headers = urlretrieve(url, temp_filename, reporthook=report)
+            os.replace(temp_filename, local_filename)
+        except BaseException:
+            if os.path.exists(temp_filename):
+                os.remove(temp_filename)
+            raise
+        return local_filename, headers
-- 
2.43.0


From 7a7ee37b223dbb90fbdcd4c73284261688c0a53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:00 +0000
Subject: [PATCH 21/49] fix: reject items together with filter_items when
 filter_items is an ndarray

---
 implicit/cpu/matrix_factorization_base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/implicit/cpu/matrix_factorization_base.py b/implicit/cpu/matrix_factorization_base.py
index dcd37fa..50b216a 100644
--- a/implicit/cpu/matrix_factorization_base.py
+++ b/implicit/cpu/matrix_factorization_base.py
@@ -56,7 +56,7 @@ class MatrixFactorizationBase(RecommenderBase):
         # and filter_query_items
         if items is not None:
             N = min(N, len(items))
-            if filter_items:
+            if filter_items is not None and len(filter_items):
                 raise ValueError("Can't set both items and filter_items in recommend call")
 
             items = np.array(items)
@@ -152,7 +152,7 @@ class MatrixFactorizationBase(RecommenderBase):
 
         # if we have an user list to restrict down to, we need to filter the user_factors
         if users is not None:
-            if filter_users:
+            if filter_users is not None and len(filter_users):
                 raise ValueError("Can't set both users and filter_users in similar_users call")
 
             users = np.array(users)
@@ -193,7 +193,7 @@ class MatrixFactorizationBase(RecommenderBase):
 
         # if we have an item list to restrict down to, we need to filter the item_factors
         if items is not None:
-            if filter_items:
+            if filter_items is not None and len(filter_items):
                 raise ValueError("Can't set both items and filter_items in similar_items call")
 
             items = np.array(items)
-- 
2.43.0


From b188f3ce4a113ab481d38fdf1f3ef1e6d95d70a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:00 +0000
Subject: [PATCH 22/49] fix: duplicate ids in the items list returned duplicate
 and liked items

---
 implicit/cpu/matrix_factorization_base.py | 9 ++++-----
 implicit/nearest_neighbours.py            | 4 ++--
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/implicit/cpu/matrix_factorization_base.py b/implicit/cpu/matrix_factorization_base.py
index 50b216a..43cac81 100644
--- a/implicit/cpu/matrix_factorization_base.py
+++ b/implicit/cpu/matrix_factorization_base.py
@@ -55,12 +55,11 @@ class MatrixFactorizationBase(RecommenderBase):
         # if we have an item list to restrict down to, we need to filter the item_factors
         # and filter_query_items
         if items is not None:
-            N = min(N, len(items))
             if filter_items is not None and len(filter_items):
                 raise ValueError("Can't set both items and filter_items in recommend call")
 
-            items = np.array(items)
-            items.sort()
+            items = np.unique(items)
+            N = min(N, len(items))
             item_factors = item_factors[items]
 
             # check selected items are in the model
@@ -155,7 +154,7 @@ class MatrixFactorizationBase(RecommenderBase):
             if filter_users is not None and len(filter_users):
                 raise ValueError("Can't set both users and filter_users in similar_users call")
 
-            users = np.array(users)
+            users = np.unique(users)
             user_factors = user_factors[users]
             norms = norms[users]
 
@@ -196,7 +195,7 @@ class MatrixFactorizationBase(RecommenderBase):
             if filter_items is not None and len(filter_items):
                 raise ValueError("Can't set both items and filter_items in similar_items call")
 
-            items = np.array(items)
+            items = np.unique(items)
             factors = factors[items]
             norms = norms[items]
 
diff --git a/implicit/nearest_neighbours.py b/implicit/nearest_neighbours.py
index 3768bba..51a5f8a 100644
--- a/implicit/nearest_neighbours.py
+++ b/implicit/nearest_neighbours.py
@@ -75,7 +75,7 @@ class ItemItemRecommender(RecommenderBase):
         if filter_items is not None:
             count += len(filter_items)
         elif items is not None:
-            items = np.array(items)
+            items = np.unique(items)
             count = self.similarity.shape[0]
             # check if items contains itemids that are not in the model(user_items)
             if items.max() >= count or items.min() < 0:
@@ -145,7 +145,7 @@ class ItemItemRecommender(RecommenderBase):
             ids, scores = ids[mask], scores[mask]
 
         elif items is not None:
-            items = np.array(items)
+            items = np.unique(items)
             mask = np.in1d(ids, items)
             ids, scores = ids[mask], scores[mask]
 
-- 
2.43.0


From 22c27dd51d016f5bd289f6c565a55aae5fa37d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:06 +0000
Subject: [PATCH 23/49] fix: refitting a model on a matrix of a different shape
 accessed memory out of bounds

---
 implicit/cpu/als.py                       | 1 +
 implicit/cpu/bpr.pyx                      | 2 ++
 implicit/cpu/lmf.pyx                      | 2 ++
 implicit/cpu/matrix_factorization_base.py | 8 ++++++++
 4 files changed, 13 insertions(+)

diff --git a/implicit/cpu/als.py b/implicit/cpu/als.py
index 8971858..e2d11ca 100644
--- a/implicit/cpu/als.py
+++ b/implicit/cpu/als.py
@@ -145,6 +145,7 @@ class AlternatingLeastSquares(MatrixFactorizationBase):
         if self.item_factors is None:
             self.item_factors = random_state.random((items, self.factors), dtype=self.dtype) * 0.01
 
+        self._check_factor_shapes(users, items)
         log.debug("Initialized factors in %s", time.time() - s)
 
         # invalidate cached norms and squared factors
diff --git a/implicit/cpu/bpr.pyx b/implicit/cpu/bpr.pyx
index 6a2b37b..fc9e2dc 100644
--- a/implicit/cpu/bpr.pyx
+++ b/implicit/cpu/bpr.pyx
@@ -172,6 +172,8 @@ class BayesianPersonalizedRanking(MatrixFactorizationBase):
 
             self.user_factors[:, self.factors] = 1.0
 
+        self._check_factor_shapes(users, items)
+
         # invalidate cached norms
         self._user_norms = self._item_norms = None
 
diff --git a/implicit/cpu/lmf.pyx b/implicit/cpu/lmf.pyx
index 8e4bd50..2020561 100644
--- a/implicit/cpu/lmf.pyx
+++ b/implicit/cpu/lmf.pyx
@@ -164,6 +164,8 @@ class LogisticMatrixFactorization(MatrixFactorizationBase):
             # set factors to all zeros for users without any ratings
             self.user_factors[user_counts == 0] = np.zeros(self.factors + 2)
 
+        self._check_factor_shapes(users, items)
+
         # invalidate cached norms
         self._user_norms = self._item_norms = None
 
diff --git a/implicit/cpu/matrix_factorization_base.py b/implicit/cpu/matrix_factorization_base.py
index 43cac81..84ebae5 100644
--- a/implicit/cpu/matrix_factorization_base.py
+++ b/implicit/cpu/matrix_factorization_base.py
@@ -244,6 +244,14 @@ class MatrixFactorizationBase(RecommenderBase):
             self._item_norms[self._item_norms == 0] = 1e-10
         return self._item_norms
 
+    def _check_factor_shapes(self, users, items):
+        # the training code doesn't do bounds checking
+        if self.user_factors.shape[0] != users or self.item_factors.shape[0] != items:
+            raise ValueError(
+                f"user_items has shape {(users, items)}, but the model has already been fit with "
+                f"{self.user_factors.shape[0]} users and {self.item_factors.shape[0]} items"
+            )
+
     def _check_fit_errors(self):
         is_nan = np.any(np.isnan(self.user_factors), axis=None)
         is_nan |= np.any(np.isnan(self.item_factors), axis=None)
-- 
2.43.0


From e5102cb7212a54fc6a5afdeeeb9fef7d2223f700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:06 +0000
Subject: [PATCH 24/49] fix: recalculating factors from a matrix with a
 mismatched shape read out of bounds

---
 implicit/cpu/als.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/implicit/cpu/als.py b/implicit/cpu/als.py
index e2d11ca..51d16fa 100644
--- a/implicit/cpu/als.py
+++ b/implicit/cpu/als.py
@@ -229,6 +229,8 @@ class AlternatingLeastSquares(MatrixFactorizationBase):
 
         if user_items.shape[0] != users:
             raise ValueError("user_items should have one row for every item in user")
+        if user_items.nnz and user_items.indices.max() >= self.item_factors.shape[0]:
+            raise IndexError("Some itemids in user_items are not in the model")
 
         if self.alpha != 1.0:
             user_items = self.alpha * user_items
@@ -262,10 +264,15 @@ class AlternatingLeastSquares(MatrixFactorizationBase):
         """
         item_users = check_csr(item_users)
 
+        items = 1 if np.isscalar(itemid) else len(itemid)
+        if item_users.shape[0] != items:
+            raise ValueError("item_users should have one row for every item in itemid")
+        if item_users.nnz and item_users.indices.max() >= self.user_factors.shape[0]:
+            raise IndexError("Some userids in item_users are not in the model")
+
         if self.alpha != 1.0:
             item_users = self.alpha * item_users
 
-        items = 1 if np.isscalar(itemid) else len(itemid)
         item_factors = np.zeros((items, self.factors), dtype=self.dtype)
         _als._least_squares(
             self.XtX,
-- 
2.43.0


From 031170aa889cbefb8440f6d4e1bba89396408ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:06 +0000
Subject: [PATCH 25/49] fix: normalize gives NaN similarities for items whose
 weights are all zero

TF-IDF weights are zero for users that interacted with all but one item, and
dividing by the resulting zero norm filled the item-item similarities with NaN.
---
 implicit/nearest_neighbours.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/implicit/nearest_neighbours.py b/implicit/nearest_neighbours.py
index 51a5f8a..bf0fcd1 100644
--- a/implicit/nearest_neighbours.py
+++ b/implicit/nearest_neighbours.py
@@ -253,7 +253,10 @@ def normalize(X):
     """equivalent to scipy.preprocessing.normalize on sparse matrices
     , but lets avoid another dependency just for a small utility function"""
     X = coo_matrix(X)
-    X.data = X.data / sqrt(bincount(X.row, X.data**2))[X.row]
+    norms = sqrt(bincount(X.row, X.data**2))
+    # don't divide by zero for rows that only contain zeros
+    norms[norms == 0] = 1.0
+    X.data = X.data / norms[X.row]
     return X
 
 
-- 
2.43.0


From 05666b853533a709a72ebca6af2727bf46bdef97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:06 +0000
Subject: [PATCH 26/49] fix: a concurrent query could divide by the zero norms
 of an unfinished cache

The cached norms were stored on the model before zeros were replaced, so a
similar_items/similar_users call from another thread at that point returned NaN.
---
 implicit/cpu/matrix_factorization_base.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/implicit/cpu/matrix_factorization_base.py b/implicit/cpu/matrix_factorization_base.py
index 84ebae5..d201f99 100644
--- a/implicit/cpu/matrix_factorization_base.py
+++ b/implicit/cpu/matrix_factorization_base.py
@@ -231,17 +231,21 @@ class MatrixFactorizationBase(RecommenderBase):
     @property
     def user_norms(self):
         if self._user_norms is None:
-            self._user_norms = np.linalg.norm(self.user_factors, axis=-1)
+            norms = np.linalg.norm(self.user_factors, axis=-1)
             # don't divide by zero in similar_items, replace with small value
-            self._user_norms[self._user_norms == 0] = 1e-10
+            norms[norms == 0] = 1e-10
+            # only publish the finished array, other threads could be querying this model
+            self._user_norms = norms
         return self._user_norms
 
     @property
     def item_norms(self):
         if self._item_norms is None:
-            self._item_norms = np.linalg.norm(self.item_factors, axis=-1)
+            norms = np.linalg.norm(self.item_factors, axis=-1)
             # don't divide by zero in similar_items, replace with small value
-            self._item_norms[self._item_norms == 0] = 1e-10
+            norms[norms == 0] = 1e-10
+            # only publish the finished array, other threads could be querying this model
+            self._item_norms = norms
         return self._item_norms
 
     def _check_factor_shapes(self, users, items):
-- 
2.43.0


From ee91d0893c569ba414a23fb31dc9f4e052c7bf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:26 +0000
Subject: [PATCH 27/49] fix: ALS training loss counted a constant for every
 negative confidence

Negative entries have preference 0, so their term of the objective is
confidence * (0 - prediction)^2, without the confidence * 1^2 of positive ones.
---
 implicit/cpu/_als.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/implicit/cpu/_als.pyx b/implicit/cpu/_als.pyx
index 630e3f1..ffeae98 100644
--- a/implicit/cpu/_als.pyx
+++ b/implicit/cpu/_als.pyx
@@ -285,6 +285,7 @@ def _calculate_loss(Cui, integral[:] indptr, integral[:] indices, float[:] data,
 
                     if confidence > 0:
                         temp = -2 * confidence
+                        loss += confidence
                     else:
                         temp = 0
                         confidence = -1 * confidence
@@ -293,7 +294,6 @@ def _calculate_loss(Cui, integral[:] indptr, integral[:] indices, float[:] data,
                     axpy(&N, &temp, &Y[i, 0], &one, r, &one)
 
                     total_confidence += confidence
-                    loss += confidence
 
                 loss += dot(&N, r, &one, &X[u, 0], &one)
                 user_norm += dot(&N, &X[u, 0], &one, &X[u, 0], &one)
-- 
2.43.0


From 2fa934140302e9337004642007c107b857231079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:09 +0000
Subject: [PATCH 28/49] fix: item-item models couldn't be fit on matrices that
 aren't float64

---
 implicit/_nearest_neighbours.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/implicit/_nearest_neighbours.pyx b/implicit/_nearest_neighbours.pyx
index c4407fc..698a1ea 100644
--- a/implicit/_nearest_neighbours.pyx
+++ b/implicit/_nearest_neighbours.pyx
@@ -112,7 +112,7 @@ cdef class NearestNeighboursScorer(object):
 def all_pairs_knn(users, unsigned int K=100, int num_threads=0, show_progress=True):
     """ Returns the top K nearest neighbours for each row in the matrix.
     """
-    users = check_csr(users)
+    users = check_csr(users).astype(np.float64, copy=False)
     items = users.T.tocsr()
 
     cdef int item_count = items.shape[0]
-- 
2.43.0


From e01195320f61ac3ef8a3987c9cd9f3e5f30d6751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:45 +0000
Subject: [PATCH 29/49] fix: item-item recommend failed on integer user_items

---
 implicit/nearest_neighbours.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/implicit/nearest_neighbours.py b/implicit/nearest_neighbours.py
index bf0fcd1..01162c6 100644
--- a/implicit/nearest_neighbours.py
+++ b/implicit/nearest_neighbours.py
@@ -92,7 +92,7 @@ class ItemItemRecommender(RecommenderBase):
         ids, scores = self.scorer.recommend(
             user_items.indptr,
             user_items.indices,
-            user_items.data,
+            user_items.data.astype(np.float64, copy=False),
             K=count,
             remove_own_likes=filter_already_liked_items,
         )
-- 
2.43.0


From be7957a974643f964cf1f70c719b281f1e13877d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:12 +0000
Subject: [PATCH 30/49] fix: filtering batch ANN results failed when fewer than
 N items are left

_filter_items_from_results assigned the remaining items to a row of N
elements, which raises (or repeats the item if only one is left) when the
index has fewer than N unfiltered items. Pad these rows like _batch_call.
---
 implicit/utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/implicit/utils.py b/implicit/utils.py
index bdf8468..f990ebc 100644
--- a/implicit/utils.py
+++ b/implicit/utils.py
@@ -142,12 +142,14 @@ def _filter_items_from_results(queryid, ids, scores, filter_items, N):
         ids, scores = ids[mask][:N], scores[mask][:N]
     else:
         rows = len(queryid)
-        filtered_scores = np.zeros((rows, N), dtype=scores.dtype)
-        filtered_ids = np.zeros((rows, N), dtype=ids.dtype)
+        # rows can have fewer than N items left after filtering: pad these out
+        filtered_scores = np.full((rows, N), -np.finfo(np.float32).max, dtype=scores.dtype)
+        filtered_ids = np.full((rows, N), -1, dtype=ids.dtype)
         for row in range(rows):
             mask = np.in1d(ids[row], filter_items, invert=True)
-            filtered_ids[row] = ids[row][mask][:N]
-            filtered_scores[row] = scores[row][mask][:N]
+            remaining = min(N, np.count_nonzero(mask))
+            filtered_ids[row, :remaining] = ids[row][mask][:N]
+            filtered_scores[row, :remaining] = scores[row][mask][:N]
         ids, scores = filtered_ids, filtered_scores
     return ids, scores
 
-- 
2.43.0


From 422c357a7fa2b888aa33fd8bc9df991e5126f962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:12 +0000
Subject: [PATCH 31/49] fix: faiss recommend with approximate_recommend=False
 padded batch results

Batch calls went through _batch_call first, so that the answer wasn't the
one of the wrapped model when N is larger than the number of items.
---
 implicit/ann/faiss.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/implicit/ann/faiss.py b/implicit/ann/faiss.py
index 5896413..3674010 100644
--- a/implicit/ann/faiss.py
+++ b/implicit/ann/faiss.py
@@ -196,13 +196,11 @@ class FaissModel(RecommenderBase):
         if items is not None and self.approximate_recommend:
             raise NotImplementedError("using a 'items' list with ANN search isn't supported")
 
-        # batch computation is tricky with filter_already_liked_items (requires querying a
-        # different number of rows per user). Instead just fallback to a faiss query per user
-        if filter_already_liked_items and not np.isscalar(userid):
-            return _batch_call(
-                self.recommend,
+        if not self.approximate_recommend:
+            warnings.warn("Calling recommend on a FaissModel with approximate_recommend=False")
+            return self.model.recommend(
                 userid,
-                user_items=user_items,
+                user_items,
                 N=N,
                 filter_already_liked_items=filter_already_liked_items,
                 filter_items=filter_items,
@@ -210,11 +208,13 @@ class FaissModel(RecommenderBase):
                 items=items,
             )
 
-        if not self.approximate_recommend:
-            warnings.warn("Calling recommend on a FaissModel with approximate_recommend=False")
-            return self.model.recommend(
+        # batch computation is tricky with filter_already_liked_items (requires querying a
+        # different number of rows per user). Instead just fallback to a faiss query per user
+        if filter_already_liked_items and not np.isscalar(userid):
+            return _batch_call(
+                self.recommend,
                 userid,
-                user_items,
+                user_items=user_items,
                 N=N,
                 filter_already_liked_items=filter_already_liked_items,
                 filter_items=filter_items,
-- 
2.43.0


From 0514fda0d0c4bd1c740f64795bdeee2dea48c3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:56 +0000
Subject: [PATCH 32/49] fix: item-item recommend for one user accepted any
 number of user_items rows

---
 implicit/nearest_neighbours.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/implicit/nearest_neighbours.py b/implicit/nearest_neighbours.py
index 01162c6..d76c220 100644
--- a/implicit/nearest_neighbours.py
+++ b/implicit/nearest_neighbours.py
@@ -53,10 +53,11 @@ class ItemItemRecommender(RecommenderBase):
         if not isinstance(user_items, csr_matrix):
             raise ValueError("user_items needs to be a CSR sparse matrix")
 
-        if not np.isscalar(userid):
-            if user_items.shape[0] != len(userid):
-                raise ValueError("user_items must contain 1 row for every user in userids")
+        user_count = 1 if np.isscalar(userid) else len(userid)
+        if user_items.shape[0] != user_count:
+            raise ValueError("user_items must contain 1 row for every user in userids")
 
+        if not np.isscalar(userid):
             return _batch_call(
                 self.recommend,
                 userid,
-- 
2.43.0


From be742a5f97e8bd872a8a3f82dd3b633ea2a74521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:56 +0000
Subject: [PATCH 33/49] fix: item-item similar_items returned selected items
 that aren't in the model

---
 implicit/nearest_neighbours.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/implicit/nearest_neighbours.py b/implicit/nearest_neighbours.py
index d76c220..b2fa9df 100644
--- a/implicit/nearest_neighbours.py
+++ b/implicit/nearest_neighbours.py
@@ -147,6 +147,8 @@ class ItemItemRecommender(RecommenderBase):
 
         elif items is not None:
             items = np.unique(items)
+            if items.max() >= self.similarity.shape[0] or items.min() < 0:
+                raise IndexError("Some of selected itemids are not in the model")
             mask = np.in1d(ids, items)
             ids, scores = ids[mask], scores[mask]
 
-- 
2.43.0


From 6f0500118892bde0d4eed2fd0d3b3d2f9dd39238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:56 +0000
Subject: [PATCH 34/49] fix: normalize overflowed on small integer types

---
 implicit/nearest_neighbours.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/implicit/nearest_neighbours.py b/implicit/nearest_neighbours.py
index b2fa9df..c661c88 100644
--- a/implicit/nearest_neighbours.py
+++ b/implicit/nearest_neighbours.py
@@ -256,7 +256,8 @@ def normalize(X):
     """equivalent to scipy.preprocessing.normalize on sparse matrices
     , but lets avoid another dependency just for a small utility function"""
     X = coo_matrix(X)
-    norms = sqrt(bincount(X.row, X.data**2))
+    # small integer types would overflow when squared
+    norms = sqrt(bincount(X.row, X.data.astype(np.float64) ** 2))
     # don't divide by zero for rows that only contain zeros
     norms[norms == 0] = 1.0
     X.data = X.data / norms[X.row]
-- 
2.43.0


From 98b84e0caaca8ee5be2db551e2f5426d64e7cdd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:18 +0000
Subject: [PATCH 35/49] fix: LMF limited the negative samples by the number of
 factors instead of items

---
 implicit/cpu/lmf.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/implicit/cpu/lmf.pyx b/implicit/cpu/lmf.pyx
index 2020561..2ee2857 100644
--- a/implicit/cpu/lmf.pyx
+++ b/implicit/cpu/lmf.pyx
@@ -242,7 +242,7 @@ def lmf_update(RNGVector rng, floating[:, :] deriv_sum_sq,
                integral num_threads):
 
     cdef integral n_users = user_vectors.shape[0]
-    cdef integral n_items = item_vectors.shape[1]
+    cdef integral n_items = item_vectors.shape[0]
     cdef integral n_factors = user_vectors.shape[1]
 
     cdef integral u, i, it, c, _, index, f
-- 
2.43.0


From 4eeb668d9f5d8cbce268dbc94c88d0dd0b4dc215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:01 +0000
Subject: [PATCH 36/49] fix: NMSLibModel ignored its method for the recommend
 index

---
 implicit/ann/nmslib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/implicit/ann/nmslib.py b/implicit/ann/nmslib.py
index eb9e4ea..12019c2 100644
--- a/implicit/ann/nmslib.py
+++ b/implicit/ann/nmslib.py
@@ -106,7 +106,7 @@ class NMSLibModel(RecommenderBase):
         if self.approximate_recommend:
             log.debug("Building nmslib recommendation index")
             self.max_norm, extra = augment_inner_product_matrix(item_factors)
-            self.recommend_index = nmslib.init(method="hnsw", space="cosinesimil")
+            self.recommend_index = nmslib.init(method=self.method, space="cosinesimil")
             self.recommend_index.addDataPointBatch(extra)
             self.recommend_index.createIndex(self.index_params, print_progress=show_progress)
             self.recommend_index.setQueryTimeParams(self.query_params)
-- 
2.43.0


From 18acd529c7d20d003eb6bd465a9ac61a56b4301b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:11 +0000
Subject: [PATCH 37/49] fix: rank_items returned at most 10 of the selected
 items

---
 implicit/recommender_base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/implicit/recommender_base.py b/implicit/recommender_base.py
index 25c7c0a..e91dcd9 100644
--- a/implicit/recommender_base.py
+++ b/implicit/recommender_base.py
@@ -209,6 +209,7 @@ class RecommenderBase(metaclass=ABCMeta):
         return self.recommend(
             userid,
             user_items,
+            N=len(selected_items),
             recalculate_user=recalculate_user,
             items=selected_items,
             filter_already_liked_items=False,
-- 
2.43.0


From a626f336666e6bce5cd54670a6cb70e9a0191738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:11 +0000
Subject: [PATCH 38/49] fix: recommend_all raised for every users_items_offset
 but 0

---
 implicit/cpu/matrix_factorization_base.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/implicit/cpu/matrix_factorization_base.py b/implicit/cpu/matrix_factorization_base.py
index d201f99..f97d300 100644
--- a/implicit/cpu/matrix_factorization_base.py
+++ b/implicit/cpu/matrix_factorization_base.py
@@ -2,7 +2,7 @@
 import warnings
 
 import numpy as np
-from scipy.sparse import csr_matrix, lil_matrix
+from scipy.sparse import csr_matrix
 
 from ..recommender_base import ModelFitError, RecommenderBase
 from .topk import topk
@@ -108,13 +108,6 @@ class MatrixFactorizationBase(RecommenderBase):
         )
 
         userids = np.arange(user_items.shape[0]) + users_items_offset
-        if users_items_offset:
-            adjusted = lil_matrix(
-                (user_items.shape[0] + users_items_offset, user_items.shape[1]),
-                dtype=user_items.dtype,
-            )
-            adjusted[users_items_offset:] = user_items
-            user_items = adjusted.tocsr()
 
         ids, _ = self.recommend(
             userids,
-- 
2.43.0


From b7ea5275c07e845205cc08b8d8f4471a14bb78f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:10 +0000
Subject: [PATCH 39/49] fix: LogisticMatrixFactorization ignored its dtype

---
 implicit/cpu/lmf.pyx | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/implicit/cpu/lmf.pyx b/implicit/cpu/lmf.pyx
index 2ee2857..af697a2 100644
--- a/implicit/cpu/lmf.pyx
+++ b/implicit/cpu/lmf.pyx
@@ -127,9 +127,10 @@ class LogisticMatrixFactorization(MatrixFactorizationBase):
         """
         rs = check_random_state(self.random_state)
 
-        # for now, all we handle is float 32 values
-        if user_items.dtype != np.float32:
-            user_items = user_items.astype(np.float32)
+        # train in the floating point type of the factors
+        dtype = self.dtype if self.item_factors is None else self.item_factors.dtype
+        if user_items.dtype != dtype:
+            user_items = user_items.astype(dtype)
 
         users, items = user_items.shape
 
@@ -151,14 +152,14 @@ class LogisticMatrixFactorization(MatrixFactorizationBase):
         # user_factors[-2] = user bias, item factors[-1] = item bias
         # This significantly simplifies both training, and serving
         if self.item_factors is None:
-            self.item_factors = rs.standard_normal(size=(items, self.factors + 2), dtype=np.float32)
+            self.item_factors = rs.standard_normal(size=(items, self.factors + 2), dtype=dtype)
             self.item_factors[:, -1] = 1.0
 
             # set factors to all zeros for items without any ratings
             self.item_factors[item_counts == 0] = np.zeros(self.factors + 2)
 
         if self.user_factors is None:
-            self.user_factors = rs.standard_normal(size=(users, self.factors + 2), dtype=np.float32)
+            self.user_factors = rs.standard_normal(size=(users, self.factors + 2), dtype=dtype)
             self.user_factors[:, -2] = 1.0
 
             # set factors to all zeros for users without any ratings
@@ -170,8 +171,8 @@ class LogisticMatrixFactorization(MatrixFactorizationBase):
         self._user_norms = self._item_norms = None
 
         # For Adagrad update
-        user_vec_deriv_sum = np.zeros((users, self.factors + 2)).astype(np.float32)
-        item_vec_deriv_sum = np.zeros((items, self.factors + 2)).astype(np.float32)
+        user_vec_deriv_sum = np.zeros((users, self.factors + 2)).astype(dtype)
+        item_vec_deriv_sum = np.zeros((items, self.factors + 2)).astype(dtype)
 
         cdef int num_threads = self.num_threads
         if not num_threads:
-- 
2.43.0


From a4dbc0639aa700047b662e22ec802f686ad6e3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:41 +0000
Subject: [PATCH 40/49] fix: recalculating factors overflowed with an integer
 alpha on small integer matrices

An integer alpha times an int8/uint8 matrix is still int8/uint8. fit converts the
matrix to float32 first, but recalculate_user/recalculate_item, partial_fit and
explain did not.
---
 implicit/cpu/als.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/implicit/cpu/als.py b/implicit/cpu/als.py
index 51d16fa..840dc06 100644
--- a/implicit/cpu/als.py
+++ b/implicit/cpu/als.py
@@ -233,7 +233,7 @@ class AlternatingLeastSquares(MatrixFactorizationBase):
             raise IndexError("Some itemids in user_items are not in the model")
 
         if self.alpha != 1.0:
-            user_items = self.alpha * user_items
+            user_items = float(self.alpha) * user_items
 
         user_factors = np.zeros((users, self.factors), dtype=self.dtype)
         _als._least_squares(
@@ -271,7 +271,7 @@ class AlternatingLeastSquares(MatrixFactorizationBase):
             raise IndexError("Some userids in item_users are not in the model")
 
         if self.alpha != 1.0:
-            item_users = self.alpha * item_users
+            item_users = float(self.alpha) * item_users
 
         item_factors = np.zeros((items, self.factors), dtype=self.dtype)
         _als._least_squares(
@@ -392,7 +392,7 @@ class AlternatingLeastSquares(MatrixFactorizationBase):
 
         user_items = check_csr(user_items)
         if self.alpha != 1.0:
-            user_items = self.alpha * user_items
+            user_items = float(self.alpha) * user_items
 
         # user_weights = Cholesky decomposition of Wu^-1
         # from section 5 of the paper CF for Implicit Feedback Datasets
-- 
2.43.0


From 2a4f702fde887bfdb4dc9314889961df9b5d5dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:41 +0000
Subject: [PATCH 41/49] fix: tf-idf weights of small integer types only had
 half precision

---
 implicit/nearest_neighbours.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/implicit/nearest_neighbours.py b/implicit/nearest_neighbours.py
index c661c88..15d8247 100644
--- a/implicit/nearest_neighbours.py
+++ b/implicit/nearest_neighbours.py
@@ -248,7 +248,8 @@ def tfidf_weight(X):
     idf = log(N) - log1p(bincount(X.col))
 
     # apply TF-IDF adjustment
-    X.data = sqrt(X.data) * idf[X.col]
+    # (sqrt returns half precision values for small integer types)
+    X.data = sqrt(X.data.astype(np.float64)) * idf[X.col]
     return X
 
 
-- 
2.43.0


From c597dac3af8090ad2caab29b2c5b4d9f0a7dacae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:41 +0000
Subject: [PATCH 42/49] fix: item-item models crashed when asked for 0 results

TopK read the first result of an empty heap for K=0.
---
 implicit/nearest_neighbours.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/implicit/nearest_neighbours.h b/implicit/nearest_neighbours.h
index 6e72452..54fb978 100644
--- a/implicit/nearest_neighbours.h
+++ b/implicit/nearest_neighbours.h
@@ -17,6 +17,9 @@ template <typename Index, typename Value> struct TopK {
   explicit TopK(size_t K) : K(K) {}
 
   void operator()(Index index, Value score) {
+    if (!K)
+      return;
+
     if ((results.size() < K) || (score > results[0].first)) {
       if (results.size() >= K) {
         std::pop_heap(results.begin(), results.end(), heap_order);
-- 
2.43.0


From a5a533877ae16cd359edf124286f628c60e630d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:41 +0000
Subject: [PATCH 43/49] fix: queries for 0 results raised an IndexError

---
 implicit/cpu/topk.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/implicit/cpu/topk.pyx b/implicit/cpu/topk.pyx
index c434c9d..c556f5a 100644
--- a/implicit/cpu/topk.pyx
+++ b/implicit/cpu/topk.pyx
@@ -22,6 +22,8 @@ def topk(items, query, int k, item_norms=None, filter_query_items=None, filter_i
     cdef int query_rows = query.shape[0]
     indices = np.zeros((query_rows, k), dtype="int32")
     distances = np.zeros((query_rows, k), dtype=query.dtype)
+    if k == 0:
+        return indices, distances
 
     # TODO: figure out appropriate batch size from available memory
     cdef int batch_size = 100 # TODO
-- 
2.43.0


From 483f83eb57bc7198a8ab728e8bf14b61f17f3103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:41 +0000
Subject: [PATCH 44/49] fix: negative ids in filter_items filtered the last
 items of the catalogue

---
 implicit/cpu/topk.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/implicit/cpu/topk.pyx b/implicit/cpu/topk.pyx
index c556f5a..054ca6c 100644
--- a/implicit/cpu/topk.pyx
+++ b/implicit/cpu/topk.pyx
@@ -13,6 +13,10 @@ cdef extern from "implicit/cpu/select.h" namespace "implicit" nogil:
 
 
 def topk(items, query, int k, item_norms=None, filter_query_items=None, filter_items=None, int num_threads=0):
+    # negative ids would filter items from the end
+    if filter_items is not None and len(filter_items) and np.min(filter_items) < 0:
+        raise IndexError("Some of the ids to filter are not in the model")
+
     if len(query.shape) == 1:
         query = query.reshape((1, len(query)))
 
-- 
2.43.0


From 4063a6cf561390bc4202f9b0030b05664dc6b5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:41 +0000
Subject: [PATCH 45/49] fix: partial_fit with a negative id overwrote the
 factors at the end

---
 implicit/cpu/als.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/implicit/cpu/als.py b/implicit/cpu/als.py
index 840dc06..0229d99 100644
--- a/implicit/cpu/als.py
+++ b/implicit/cpu/als.py
@@ -303,6 +303,8 @@ class AlternatingLeastSquares(MatrixFactorizationBase):
             Sparse matrix containing the liked items for each user. Each row in this
             matrix corresponds to a row in userids.
         """
+        if np.any(np.asarray(userids) < 0):
+            raise IndexError("Can't update negative userids")
         if len(userids) != user_items.shape[0]:
             raise ValueError("user_items must contain 1 row for every user in userids")
 
@@ -340,6 +342,8 @@ class AlternatingLeastSquares(MatrixFactorizationBase):
         item_users : csr_matrix
             Sparse matrix containing the liked users for each item in itemids
         """
+        if np.any(np.asarray(itemids) < 0):
+            raise IndexError("Can't update negative itemids")
         if len(itemids) != item_users.shape[0]:
             raise ValueError("item_users must contain 1 row for every user in itemids")
 
-- 
2.43.0


From 5ed3cf13608eb97c30a32b530c1864c51bde152b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:41 +0000
Subject: [PATCH 46/49] fix: partial_fit with no ids raised instead of doing
 nothing

---
 implicit/cpu/als.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/implicit/cpu/als.py b/implicit/cpu/als.py
index 0229d99..5d40c82 100644
--- a/implicit/cpu/als.py
+++ b/implicit/cpu/als.py
@@ -313,7 +313,7 @@ class AlternatingLeastSquares(MatrixFactorizationBase):
 
         # ensure that we have enough storage for any new users
         users, factors = self.user_factors.shape
-        max_userid = max(userids)
+        max_userid = max(userids, default=-1)
         if max_userid >= users:
             self.user_factors = np.concatenate(
                 [self.user_factors, np.zeros((max_userid - users + 1, factors), dtype=self.dtype)]
@@ -352,7 +352,7 @@ class AlternatingLeastSquares(MatrixFactorizationBase):
 
         # ensure that we have enough storage for any new items
         items, factors = self.item_factors.shape
-        max_itemid = max(itemids)
+        max_itemid = max(itemids, default=-1)
         if max_itemid >= items:
             self.item_factors = np.concatenate(
                 [self.item_factors, np.zeros((max_itemid - items + 1, factors), dtype=self.dtype)]
-- 
2.43.0


From 5294e6b6f547b1196d5a86e372442a7c4f3b001a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:38 +0000
Subject: [PATCH 47/49] fix: downloads that start at once don't fail on
 creating the cache directory

---
 implicit/datasets/_download.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/implicit/datasets/_download.py b/implicit/datasets/_download.py
index 4982ea2..be3db70 100644
--- a/implicit/datasets/_download.py
+++ b/implicit/datasets/_download.py
@@ -15,8 +15,7 @@ def download_file(url, local_filename):
     bar of download progress"""
     local_filename = os.path.abspath(local_filename)
     path = os.path.dirname(local_filename)
-    if not os.path.isdir(path):
-        os.makedirs(path)
+    os.makedirs(path, exist_ok=True)
 
     with tqdm(unit="B", unit_scale=True) as progress:
 
-- 
2.43.0


From 73a32c81484a0fc36a2df887551ea0d5d6b6b83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:38 +0000
Subject: [PATCH 48/49] fix: concurrent downloads in threads don't share a
 temporary file

---
 implicit/datasets/_download.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/implicit/datasets/_download.py b/implicit/datasets/_download.py
index be3db70..cb7fb9d 100644
--- a/implicit/datasets/_download.py
+++ b/implicit/datasets/_download.py
@@ -1,4 +1,5 @@
 import os
+import threading
 
 try:
     from urllib.request import urlretrieve
@@ -25,7 +26,7 @@ def download_file(url, local_filename):
 
         # download to a temporary file, so that an interrupted download isn't mistaken
         # for the cached dataset
-        temp_filename = f"{local_filename}.{os.getpid()}.tmp"
+        temp_filename = f"{local_filename}.{os.getpid()}.{threading.get_ident()}.tmp"
         try:
             _, headers = urlretrieve(url, temp_filename, reporthook=report)
             os.replace(temp_filename, local_filename)
-- 
2.43.0


From 21e43ea76465cb05c33d6971d5fa17e3e0435a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:07 +0000
Subject: [PATCH 49/49] fix: top-N queries read out of bounds when batch *
 items exceeds an int

Ranking 100 users against more than 21 million items computed offsets into the scores (and, for
large results, into the output) in 32 bits
---
 implicit/cpu/select.h | 3 ++-
 implicit/cpu/topk.pyx | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/implicit/cpu/select.h b/implicit/cpu/select.h
index 2199b85..7e14e4e 100644
--- a/implicit/cpu/select.h
+++ b/implicit/cpu/select.h
@@ -15,7 +15,8 @@ inline void select(const T *batch, int rows, int cols, int k, int *ids,
   std::vector<std::pair<T, int>> results;
   std::greater<std::pair<T, int>> heap_order;
 
-  for (int row = 0; row < rows; ++row) {
+  // (rows * cols can be larger than an int)
+  for (size_t row = 0; row < static_cast<size_t>(rows); ++row) {
     results.clear();
     for (int col = 0; col < cols; ++col) {
       T score = batch[row * cols + col];
diff --git a/implicit/cpu/topk.pyx b/implicit/cpu/topk.pyx
index 054ca6c..0709435 100644
--- a/implicit/cpu/topk.pyx
+++ b/implicit/cpu/topk.pyx
@@ -73,5 +73,7 @@ def _topk_batch(items, query, int k, int startidx, int endidx, int[:, :] indices
     cdef int cols = batch_view.shape[1]
 
     with nogil:
-        select(c_batch, rows, cols, k, c_indices + startidx * k, c_distances + startidx * k)
+        # (the size of the results can be larger than an int)
+        select(c_batch, rows, cols, k,
+               c_indices + <size_t>startidx * k, c_distances + <size_t>startidx * k)
 
-- 
2.43.0

