From 39d32ac881dbc48a40f1a0d7d4974470e66f4270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:26 +0000
Subject: [PATCH 01/47] fix: don't pad cpu topk results with item 0 when N
 exceeds the number of candidates

---
 implicit/cpu/topk.pyx   | 3 +++
 implicit/evaluation.pyx | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/implicit/cpu/topk.pyx b/implicit/cpu/topk.pyx
index 05dca11..9b71058 100644
--- a/implicit/cpu/topk.pyx
+++ b/implicit/cpu/topk.pyx
@@ -16,6 +16,9 @@ def topk(items, query, int k, item_norms=None, filter_query_items=None, filter_i
     if len(query.shape) == 1:
         query = query.reshape((1, len(query)))
 
+    # we can't return more results than there are candidate items
+    k = min(k, <int>items.shape[0])
+
     cdef int query_rows = query.shape[0]
     indices = np.zeros((query_rows, k), dtype="int32")
     distances = np.zeros((query_rows, k), dtype=query.dtype)
diff --git a/implicit/evaluation.pyx b/implicit/evaluation.pyx
index bd59040..7089a47 100644
--- a/implicit/evaluation.pyx
+++ b/implicit/evaluation.pyx
@@ -450,7 +450,7 @@ def ranking_metrics_at_k(model, train_user_items, test_user_items, int K=10,
                 num_pos_items = likes.size()
                 num_neg_items = items - num_pos_items
 
-                for i in range(K):
+                for i in range(min(K, <int>ids.shape[1])):
                     if likes.find(ids[batch_idx, i]) != likes.end():
                         relevant += 1
                         hit += 1
-- 
2.43.0


From eb83fdddc93e616f3ca34a724d1526845c5a501c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:26 +0000
Subject: [PATCH 02/47] fix: accept a numpy RandomState in check_random_state

---
 implicit/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/implicit/utils.py b/implicit/utils.py
index 4e86ee7..bdf8468 100644
--- a/implicit/utils.py
+++ b/implicit/utils.py
@@ -76,7 +76,7 @@ def check_random_state(random_state):
     """
     # backwards compatibility
     if isinstance(random_state, np.random.RandomState):
-        return np.random.default_rng(random_state.rand_int(2**31))
+        return np.random.default_rng(random_state.randint(2**31))
 
     # otherwise try to initialize a new one, and let it fail through
     # on the numpy side if it doesn't work
-- 
2.43.0


From cd4c697f3eb3130a623d45e5e9b2b513d1a90bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:26 +0000
Subject: [PATCH 03/47] fix: detect conflicting items/filter_items arguments
 passed as numpy arrays

---
 implicit/cpu/matrix_factorization_base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/implicit/cpu/matrix_factorization_base.py b/implicit/cpu/matrix_factorization_base.py
index dcd37fa..50b216a 100644
--- a/implicit/cpu/matrix_factorization_base.py
+++ b/implicit/cpu/matrix_factorization_base.py
@@ -56,7 +56,7 @@ class MatrixFactorizationBase(RecommenderBase):
         # and filter_query_items
         if items is not None:
             N = min(N, len(items))
-            if filter_items:
+            if filter_items is not None and len(filter_items):
                 raise ValueError("Can't set both items and filter_items in recommend call")
 
             items = np.array(items)
@@ -152,7 +152,7 @@ class MatrixFactorizationBase(RecommenderBase):
 
         # if we have an user list to restrict down to, we need to filter the user_factors
         if users is not None:
-            if filter_users:
+            if filter_users is not None and len(filter_users):
                 raise ValueError("Can't set both users and filter_users in similar_users call")
 
             users = np.array(users)
@@ -193,7 +193,7 @@ class MatrixFactorizationBase(RecommenderBase):
 
         # if we have an item list to restrict down to, we need to filter the item_factors
         if items is not None:
-            if filter_items:
+            if filter_items is not None and len(filter_items):
                 raise ValueError("Can't set both items and filter_items in similar_items call")
 
             items = np.array(items)
-- 
2.43.0


From 2be7c72a4f0a60278b9f3d3ca0acf7201dfbb30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:26 +0000
Subject: [PATCH 04/47] fix: recommend_all with users_items_offset

---
 implicit/cpu/matrix_factorization_base.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/implicit/cpu/matrix_factorization_base.py b/implicit/cpu/matrix_factorization_base.py
index 50b216a..0a2d857 100644
--- a/implicit/cpu/matrix_factorization_base.py
+++ b/implicit/cpu/matrix_factorization_base.py
@@ -2,7 +2,7 @@
 import warnings
 
 import numpy as np
-from scipy.sparse import csr_matrix, lil_matrix
+from scipy.sparse import csr_matrix
 
 from ..recommender_base import ModelFitError, RecommenderBase
 from .topk import topk
@@ -109,14 +109,6 @@ class MatrixFactorizationBase(RecommenderBase):
         )
 
         userids = np.arange(user_items.shape[0]) + users_items_offset
-        if users_items_offset:
-            adjusted = lil_matrix(
-                (user_items.shape[0] + users_items_offset, user_items.shape[1]),
-                dtype=user_items.dtype,
-            )
-            adjusted[users_items_offset:] = user_items
-            user_items = adjusted.tocsr()
-
         ids, _ = self.recommend(
             userids,
             user_items,
-- 
2.43.0


From 31ca7b35dccb7738e8fb33ca57c21c0f071d1e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:26 +0000
Subject: [PATCH 05/47] fix: publish cached norms only once they are safe to
 divide by

---
 implicit/cpu/matrix_factorization_base.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/implicit/cpu/matrix_factorization_base.py b/implicit/cpu/matrix_factorization_base.py
index 0a2d857..c268d4e 100644
--- a/implicit/cpu/matrix_factorization_base.py
+++ b/implicit/cpu/matrix_factorization_base.py
@@ -224,17 +224,19 @@ class MatrixFactorizationBase(RecommenderBase):
     @property
     def user_norms(self):
         if self._user_norms is None:
-            self._user_norms = np.linalg.norm(self.user_factors, axis=-1)
+            norms = np.linalg.norm(self.user_factors, axis=-1)
             # don't divide by zero in similar_items, replace with small value
-            self._user_norms[self._user_norms == 0] = 1e-10
+            norms[norms == 0] = 1e-10
+            self._user_norms = norms
         return self._user_norms
 
     @property
     def item_norms(self):
         if self._item_norms is None:
-            self._item_norms = np.linalg.norm(self.item_factors, axis=-1)
+            norms = np.linalg.norm(self.item_factors, axis=-1)
             # don't divide by zero in similar_items, replace with small value
-            self._item_norms[self._item_norms == 0] = 1e-10
+            norms[norms == 0] = 1e-10
+            self._item_norms = norms
         return self._item_norms
 
     def _check_fit_errors(self):
-- 
2.43.0


From d7c7c4de1f97c47ae3d109dc119fb7d5b7bd85a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:26 +0000
Subject: [PATCH 06/47] fix: rank_items returns every selected item

---
 implicit/recommender_base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/implicit/recommender_base.py b/implicit/recommender_base.py
index 25c7c0a..e91dcd9 100644
--- a/implicit/recommender_base.py
+++ b/implicit/recommender_base.py
@@ -209,6 +209,7 @@ class RecommenderBase(metaclass=ABCMeta):
         return self.recommend(
             userid,
             user_items,
+            N=len(selected_items),
             recalculate_user=recalculate_user,
             items=selected_items,
             filter_already_liked_items=False,
-- 
2.43.0


From 8d259d6631b1c417ece51d10437a1b703a89e9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:26 +0000
Subject: [PATCH 07/47] fix: negative confidences have a target of zero in the
 ALS training loss

---
 implicit/cpu/_als.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/implicit/cpu/_als.pyx b/implicit/cpu/_als.pyx
index 630e3f1..ffeae98 100644
--- a/implicit/cpu/_als.pyx
+++ b/implicit/cpu/_als.pyx
@@ -285,6 +285,7 @@ def _calculate_loss(Cui, integral[:] indptr, integral[:] indices, float[:] data,
 
                     if confidence > 0:
                         temp = -2 * confidence
+                        loss += confidence
                     else:
                         temp = 0
                         confidence = -1 * confidence
@@ -293,7 +294,6 @@ def _calculate_loss(Cui, integral[:] indptr, integral[:] indices, float[:] data,
                     axpy(&N, &temp, &Y[i, 0], &one, r, &one)
 
                     total_confidence += confidence
-                    loss += confidence
 
                 loss += dot(&N, r, &one, &X[u, 0], &one)
                 user_norm += dot(&N, &X[u, 0], &one, &X[u, 0], &one)
-- 
2.43.0


From 438b3de8028395caf14afbc6795810b4aba2a648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:26 +0000
Subject: [PATCH 08/47] fix: validate the number of rows passed to
 recalculate_item

---
 implicit/cpu/als.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/implicit/cpu/als.py b/implicit/cpu/als.py
index 1ec7a91..1fa8812 100644
--- a/implicit/cpu/als.py
+++ b/implicit/cpu/als.py
@@ -259,6 +259,10 @@ class AlternatingLeastSquares(MatrixFactorizationBase):
             item_users = self.alpha * item_users
 
         items = 1 if np.isscalar(itemid) else len(itemid)
+
+        if item_users.shape[0] != items:
+            raise ValueError("item_users should have one row for every item in itemid")
+
         item_factors = np.zeros((items, self.factors), dtype=self.dtype)
         _als._least_squares(
             self.XtX,
-- 
2.43.0


From f993b93bedb861e7d85e85c902e42a9e31405e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:26 +0000
Subject: [PATCH 09/47] fix: invalidate cached norms when refitting the LMF
 model

---
 implicit/cpu/lmf.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/implicit/cpu/lmf.pyx b/implicit/cpu/lmf.pyx
index 7349470..6205fa6 100644
--- a/implicit/cpu/lmf.pyx
+++ b/implicit/cpu/lmf.pyx
@@ -164,6 +164,9 @@ class LogisticMatrixFactorization(MatrixFactorizationBase):
             # set factors to all zeros for users without any ratings
             self.user_factors[user_counts == 0] = np.zeros(self.factors + 2)
 
+        # invalidate cached norms
+        self._user_norms = self._item_norms = None
+
         # For Adagrad update
         user_vec_deriv_sum = np.zeros((users, self.factors + 2)).astype(np.float32)
         item_vec_deriv_sum = np.zeros((items, self.factors + 2)).astype(np.float32)
-- 
2.43.0


From 015369e4e0933a92494dac776932b4a932af5519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:26 +0000
Subject: [PATCH 10/47] fix: normalizing an all zero row doesn't produce NaN
 similarities

---
 implicit/nearest_neighbours.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/implicit/nearest_neighbours.py b/implicit/nearest_neighbours.py
index d33717d..0bdeb9e 100644
--- a/implicit/nearest_neighbours.py
+++ b/implicit/nearest_neighbours.py
@@ -230,7 +230,10 @@ def normalize(X):
     """equivalent to scipy.preprocessing.normalize on sparse matrices
     , but lets avoid another dependency just for a small utility function"""
     X = coo_matrix(X)
-    X.data = X.data / sqrt(bincount(X.row, X.data**2))[X.row]
+    norms = sqrt(bincount(X.row, X.data**2))
+    # rows that are all zero stay zero
+    norms[norms == 0] = 1.0
+    X.data = X.data / norms[X.row]
     return X
 
 
-- 
2.43.0


From ed6c01512442a0fc6ba99a37c5700e5be01c4e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:26 +0000
Subject: [PATCH 11/47] fix: accept any array_like for items in
 ItemItemRecommender.similar_items

---
 implicit/nearest_neighbours.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/implicit/nearest_neighbours.py b/implicit/nearest_neighbours.py
index 0bdeb9e..d7e516c 100644
--- a/implicit/nearest_neighbours.py
+++ b/implicit/nearest_neighbours.py
@@ -132,6 +132,7 @@ class ItemItemRecommender(RecommenderBase):
             ids, scores = ids[mask], scores[mask]
 
         elif items is not None:
+            items = np.array(items)
             mask = np.in1d(ids, items)
             ids, scores = ids[mask], scores[mask]
 
-- 
2.43.0


From ec805470fe2dfecfc6c73c79f9303cb48f3cda11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:26 +0000
Subject: [PATCH 12/47] fix: all_pairs_knn accepts any numeric dtype

---
 implicit/_nearest_neighbours.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/implicit/_nearest_neighbours.pyx b/implicit/_nearest_neighbours.pyx
index 84fa810..3aa8a25 100644
--- a/implicit/_nearest_neighbours.pyx
+++ b/implicit/_nearest_neighbours.pyx
@@ -113,6 +113,8 @@ def all_pairs_knn(users, unsigned int K=100, int num_threads=0, show_progress=Tr
     """ Returns the top K nearest neighbours for each row in the matrix.
     """
     users = check_csr(users)
+    if users.dtype != np.float64:
+        users = users.astype(np.float64)
     items = users.T.tocsr()
 
     cdef int item_count = items.shape[0]
-- 
2.43.0


From b7b723e9d7a5d8604da6809dac113ed777908660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:26 +0000
Subject: [PATCH 13/47] fix: all_pairs_knn doesn't return unused slots as
 neighbours of item 0

---
 implicit/_nearest_neighbours.pyx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/implicit/_nearest_neighbours.pyx b/implicit/_nearest_neighbours.pyx
index 3aa8a25..a652f46 100644
--- a/implicit/_nearest_neighbours.pyx
+++ b/implicit/_nearest_neighbours.pyx
@@ -168,5 +168,8 @@ def all_pairs_knn(users, unsigned int K=100, int num_threads=0, show_progress=Tr
             del neighbours
             del topk
     progress.close()
-    return scipy.sparse.coo_matrix((values, (rows, cols)),
-                                   shape=(item_count, item_count))
+    ret = scipy.sparse.coo_matrix((values, (rows, cols)),
+                                  shape=(item_count, item_count))
+    # unused slots (for items with less than K neighbours) aren't part of the results
+    ret.eliminate_zeros()
+    return ret
-- 
2.43.0


From e87f008f1792e7c32fbcb70c7226fe6730c16a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:26 +0000
Subject: [PATCH 14/47] fix: FaissModel.recommend with
 approximate_recommend=False

---
 implicit/ann/faiss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/implicit/ann/faiss.py b/implicit/ann/faiss.py
index 8fcb356..c51bfff 100644
--- a/implicit/ann/faiss.py
+++ b/implicit/ann/faiss.py
@@ -210,7 +210,7 @@ class FaissModel(RecommenderBase):
             )
 
         if not self.approximate_recommend:
-            warnings.warning("Calling recommend on a FaissModel with approximate_recommend=False")
+            warnings.warn("Calling recommend on a FaissModel with approximate_recommend=False")
             return self.model.recommend(
                 userid,
                 user_items,
-- 
2.43.0


From 022c15d34c192bd78afe2a9aa3e2c91e19200eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:26 +0000
Subject: [PATCH 15/47] fix: FaissModel.similar_items doesn't modify the
 factors of the underlying model

---
 implicit/ann/faiss.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/implicit/ann/faiss.py b/implicit/ann/faiss.py
index c51bfff..09860cb 100644
--- a/implicit/ann/faiss.py
+++ b/implicit/ann/faiss.py
@@ -161,11 +161,11 @@ class FaissModel(RecommenderBase):
             if implicit.gpu.HAS_CUDA and isinstance(factors, implicit.gpu.Matrix):
                 factors = factors.to_numpy()
 
-        if np.isscalar(itemid):
-            factors /= np.linalg.norm(factors)
-            factors = factors.reshape(1, -1)
-        else:
-            factors /= np.linalg.norm(factors, axis=1)[:, None]
+        # note: can't normalize in-place here, since this could be a view on the model's factors
+        factors = factors.reshape(1, -1) if np.isscalar(itemid) else factors
+        norms = np.linalg.norm(factors, axis=1)
+        norms[norms == 0] = 1e-10
+        factors = factors / norms[:, None]
 
         scores, ids = self.similar_items_index.search(factors.astype("float32"), count)
 
-- 
2.43.0


From b17a32f0c57cb07e65de7e9dcfa81b7f0d4a6234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:26 +0000
Subject: [PATCH 16/47] fix: AnnoyModel.similar_items returns N results when
 filter_items is set

---
 implicit/ann/annoy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/implicit/ann/annoy.py b/implicit/ann/annoy.py
index 87d1c44..82f7448 100644
--- a/implicit/ann/annoy.py
+++ b/implicit/ann/annoy.py
@@ -139,7 +139,7 @@ class AnnoyModel(RecommenderBase):
             factor = factor.squeeze()
 
         ids, scores = self.similar_items_index.get_nns_by_vector(
-            factor, N, search_k=self.search_k, include_distances=True
+            factor, count, search_k=self.search_k, include_distances=True
         )
         ids, scores = np.array(ids), np.array(scores)
 
-- 
2.43.0


From 742e7185049777ab3b52e95387b39f035e4f6b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:26 +0000
Subject: [PATCH 17/47] fix: accept numpy arrays for filter_items in ANN
 recommend calls

---
 implicit/ann/annoy.py  | 2 +-
 implicit/ann/faiss.py  | 2 +-
 implicit/ann/nmslib.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/implicit/ann/annoy.py b/implicit/ann/annoy.py
index 82f7448..dae3011 100644
--- a/implicit/ann/annoy.py
+++ b/implicit/ann/annoy.py
@@ -205,7 +205,7 @@ class AnnoyModel(RecommenderBase):
         # calculate the top N items, removing the users own liked items from
         # the results
         count = N
-        if filter_items:
+        if filter_items is not None:
             count += len(filter_items)
             filter_items = np.array(filter_items)
 
diff --git a/implicit/ann/faiss.py b/implicit/ann/faiss.py
index 09860cb..53ba185 100644
--- a/implicit/ann/faiss.py
+++ b/implicit/ann/faiss.py
@@ -236,7 +236,7 @@ class FaissModel(RecommenderBase):
         # calculate the top N items, removing the users own liked items from
         # the results
         count = N
-        if filter_items:
+        if filter_items is not None:
             count += len(filter_items)
             filter_items = np.array(filter_items)
 
diff --git a/implicit/ann/nmslib.py b/implicit/ann/nmslib.py
index 320e9fd..26b2a21 100644
--- a/implicit/ann/nmslib.py
+++ b/implicit/ann/nmslib.py
@@ -213,7 +213,7 @@ class NMSLibModel(RecommenderBase):
         # calculate the top N items, removing the users own liked items from
         # the results
         count = N
-        if filter_items:
+        if filter_items is not None:
             count += len(filter_items)
             filter_items = np.array(filter_items)
 
-- 
2.43.0


From f8bb3fbe9fdc85fe1e0566f0877b1239a2aea4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:26 +0000
Subject: [PATCH 18/47] fix: an interrupted download isn't used as a cached
 dataset

---
 implicit/datasets/_download.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/implicit/datasets/_download.py b/implicit/datasets/_download.py
index 0b25227..8770950 100644
--- a/implicit/datasets/_download.py
+++ b/implicit/datasets/_download.py
@@ -24,4 +24,13 @@ def download_file(url, local_filename):
             progress.total = total
             progress.update(chunksize)
 
-        return urlretrieve(url, local_filename, reporthook=report)
+        # download to a temporary file first, so that an interrupted download never
+        # gets picked up as a valid cached dataset
+        temp_filename = f"{local_filename}.{os.getpid()}.part"
+        try:
+            _, headers = urlretrieve(url, temp_filename, reporthook=report)
+            os.replace(temp_filename, local_filename)
+        finally:
+            if os.path.exists(temp_filename):
+                os.remove(temp_filename)
+        return local_filename, headers
-- 
2.43.0


From 1606e32f19321b20331b948eae3405e0d6765a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:05 +0000
Subject: [PATCH 19/47] fix: models using a random generator as the
 random_state can be loaded after saving

---
 implicit/cpu/als.py  | 6 +++---
 implicit/cpu/bpr.pyx | 6 +++---
 implicit/cpu/lmf.pyx | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/implicit/cpu/als.py b/implicit/cpu/als.py
index 1fa8812..27083d4 100644
--- a/implicit/cpu/als.py
+++ b/implicit/cpu/als.py
@@ -474,9 +474,9 @@ class AlternatingLeastSquares(MatrixFactorizationBase):
             "random_state": self.random_state,
             "alpha": self.alpha,
         }
-        # filter out 'None' valued args, since we can't go np.load on
-        # them without using pickle
-        args = {k: v for k, v in args.items() if v is not None}
+        # filter out 'None' valued args and random number generators, since we can't
+        # go np.load on them without using pickle
+        args = {k: v for k, v in args.items() if not np.asarray(v).dtype.hasobject}
         np.savez(fileobj_or_path, **args)
 
 
diff --git a/implicit/cpu/bpr.pyx b/implicit/cpu/bpr.pyx
index 16dd2a6..1a6ca48 100644
--- a/implicit/cpu/bpr.pyx
+++ b/implicit/cpu/bpr.pyx
@@ -238,9 +238,9 @@ class BayesianPersonalizedRanking(MatrixFactorizationBase):
             random_state=self.random_state
         )
 
-        # filter out 'None' valued args, since we can't go np.load on
-        # them without using pickle
-        args = {k:v for k,v in args.items() if v is not None}
+        # filter out 'None' valued args and random number generators, since we can't
+        # go np.load on them without using pickle
+        args = {k: v for k, v in args.items() if not np.asarray(v).dtype.hasobject}
         np.savez(fileobj_or_path, **args)
 
 
diff --git a/implicit/cpu/lmf.pyx b/implicit/cpu/lmf.pyx
index 6205fa6..2a71d9b 100644
--- a/implicit/cpu/lmf.pyx
+++ b/implicit/cpu/lmf.pyx
@@ -214,9 +214,9 @@ class LogisticMatrixFactorization(MatrixFactorizationBase):
             dtype=self.dtype.name,
             random_state=self.random_state)
 
-        # filter out 'None' valued args, since we can't go np.load on
-        # them without using pickle
-        args = {k:v for k,v in args.items() if v is not None}
+        # filter out 'None' valued args and random number generators, since we can't
+        # go np.load on them without using pickle
+        args = {k: v for k, v in args.items() if not np.asarray(v).dtype.hasobject}
         np.savez(fileobj_or_path, **args)
 
 
-- 
2.43.0


From c74e2e4cd3b46ff9be993f1149f50cdd55fa3079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:05 +0000
Subject: [PATCH 20/47] fix: filtering a batch of ANN results that leaves fewer
 than N items

---
 implicit/utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/implicit/utils.py b/implicit/utils.py
index bdf8468..1d5256e 100644
--- a/implicit/utils.py
+++ b/implicit/utils.py
@@ -142,12 +142,14 @@ def _filter_items_from_results(queryid, ids, scores, filter_items, N):
         ids, scores = ids[mask][:N], scores[mask][:N]
     else:
         rows = len(queryid)
-        filtered_scores = np.zeros((rows, N), dtype=scores.dtype)
-        filtered_ids = np.zeros((rows, N), dtype=ids.dtype)
+        # pad out with -1 ids if there are fewer than N items left
+        filtered_scores = np.full((rows, N), -np.finfo(np.float32).max, dtype=scores.dtype)
+        filtered_ids = np.full((rows, N), -1, dtype=ids.dtype)
         for row in range(rows):
             mask = np.in1d(ids[row], filter_items, invert=True)
-            filtered_ids[row] = ids[row][mask][:N]
-            filtered_scores[row] = scores[row][mask][:N]
+            row_ids, row_scores = ids[row][mask][:N], scores[row][mask][:N]
+            filtered_ids[row, : len(row_ids)] = row_ids
+            filtered_scores[row, : len(row_scores)] = row_scores
         ids, scores = filtered_ids, filtered_scores
     return ids, scores
 
-- 
2.43.0


From c13affd6b35be4a53960d9abd0a862035509a476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:05 +0000
Subject: [PATCH 21/47] fix: saving an item-item model keeps all of its
 parameters

---
 implicit/nearest_neighbours.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/implicit/nearest_neighbours.py b/implicit/nearest_neighbours.py
index d7e516c..7617fb6 100644
--- a/implicit/nearest_neighbours.py
+++ b/implicit/nearest_neighbours.py
@@ -21,6 +21,9 @@ class ItemItemRecommender(RecommenderBase):
         means to default to the number of cores on the machine.
     """
 
+    # parameters that are stored when saving the model
+    _saved_params = ("K", "num_threads")
+
     def __init__(self, K=20, num_threads=0):
         self.similarity = None
         self.K = K
@@ -159,7 +162,7 @@ class ItemItemRecommender(RecommenderBase):
             self.scorer = None
 
     def save(self, fileobj_or_path):
-        args = {"K": self.K}
+        args = {k: getattr(self, k) for k in self._saved_params}
         m = self.similarity
         if m is not None:
             args.update(
@@ -181,7 +184,9 @@ class ItemItemRecommender(RecommenderBase):
                 )
                 ret.similarity = similarity
                 ret.scorer = NearestNeighboursScorer(similarity)
-            ret.K = data["K"]
+            for k in cls._saved_params:
+                if k in data:
+                    setattr(ret, k, data[k].item())
             return ret
 
 
@@ -204,6 +209,8 @@ class TFIDFRecommender(ItemItemRecommender):
 class BM25Recommender(ItemItemRecommender):
     """An Item-Item Recommender on BM25 distance between items"""
 
+    _saved_params = ItemItemRecommender._saved_params + ("K1", "B")
+
     def __init__(self, K=20, K1=1.2, B=0.75, num_threads=0):
         super().__init__(K, num_threads)
         self.K1 = K1
-- 
2.43.0


From ae34ba7c65057163845857596266f7a0491eaa38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:05 +0000
Subject: [PATCH 22/47] fix: refitting ALS on a matrix with a different shape
 doesn't access invalid memory

---
 implicit/cpu/als.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/implicit/cpu/als.py b/implicit/cpu/als.py
index 27083d4..8d8d30c 100644
--- a/implicit/cpu/als.py
+++ b/implicit/cpu/als.py
@@ -139,10 +139,11 @@ class AlternatingLeastSquares(MatrixFactorizationBase):
         items, users = Ciu.shape
 
         s = time.time()
-        # Initialize the variables randomly if they haven't already been set
-        if self.user_factors is None:
+        # Initialize the variables randomly if they haven't already been set (or were set
+        # for a different set of users/items)
+        if self.user_factors is None or self.user_factors.shape != (users, self.factors):
             self.user_factors = random_state.random((users, self.factors), dtype=self.dtype) * 0.01
-        if self.item_factors is None:
+        if self.item_factors is None or self.item_factors.shape != (items, self.factors):
             self.item_factors = random_state.random((items, self.factors), dtype=self.dtype) * 0.01
 
         log.debug("Initialized factors in %s", time.time() - s)
-- 
2.43.0


From 3d63fdce78eebea70257aafe0c8049f8b7e73cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:05 +0000
Subject: [PATCH 23/47] fix: refitting BPR on a matrix with a different shape
 doesn't access invalid memory

---
 implicit/cpu/bpr.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/implicit/cpu/bpr.pyx b/implicit/cpu/bpr.pyx
index 1a6ca48..10b9467 100644
--- a/implicit/cpu/bpr.pyx
+++ b/implicit/cpu/bpr.pyx
@@ -155,7 +155,7 @@ class BayesianPersonalizedRanking(MatrixFactorizationBase):
         # create factors if not already created.
         # Note: the final dimension is for the item bias term - which is set to a 1 for all users
         # this simplifies interfacing with approximate nearest neighbours libraries etc
-        if self.item_factors is None:
+        if self.item_factors is None or self.item_factors.shape != (items, self.factors + 1):
             self.item_factors = (rs.random((items, self.factors + 1), dtype=self.dtype) - .5)
             self.item_factors /= self.factors
 
@@ -163,7 +163,7 @@ class BayesianPersonalizedRanking(MatrixFactorizationBase):
             item_counts = np.bincount(user_items.indices, minlength=items)
             self.item_factors[item_counts == 0] = np.zeros(self.factors + 1)
 
-        if self.user_factors is None:
+        if self.user_factors is None or self.user_factors.shape != (users, self.factors + 1):
             self.user_factors = (rs.random((users, self.factors + 1), dtype=self.dtype) - .5)
             self.user_factors /= self.factors
 
-- 
2.43.0


From 55d442a0dbc80e72ce9d6ba8ed8859fb0ce6e66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:05 +0000
Subject: [PATCH 24/47] fix: refitting LMF on a matrix with a different shape
 doesn't access invalid memory

---
 implicit/cpu/lmf.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/implicit/cpu/lmf.pyx b/implicit/cpu/lmf.pyx
index 2a71d9b..9d930bf 100644
--- a/implicit/cpu/lmf.pyx
+++ b/implicit/cpu/lmf.pyx
@@ -150,14 +150,14 @@ class LogisticMatrixFactorization(MatrixFactorizationBase):
         # user_factors[-1] = 1, item_factors[-2] = 1
         # user_factors[-2] = user bias, item factors[-1] = item bias
         # This significantly simplifies both training, and serving
-        if self.item_factors is None:
+        if self.item_factors is None or self.item_factors.shape != (items, self.factors + 2):
             self.item_factors = rs.standard_normal(size=(items, self.factors + 2), dtype=np.float32)
             self.item_factors[:, -1] = 1.0
 
             # set factors to all zeros for items without any ratings
             self.item_factors[item_counts == 0] = np.zeros(self.factors + 2)
 
-        if self.user_factors is None:
+        if self.user_factors is None or self.user_factors.shape != (users, self.factors + 2):
             self.user_factors = rs.standard_normal(size=(users, self.factors + 2), dtype=np.float32)
             self.user_factors[:, -2] = 1.0
 
-- 
2.43.0


From 141b1fe7e704a68b03776f06e9bd41928b1470fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:05 +0000
Subject: [PATCH 25/47] fix: number of negative samples in LMF is limited by
 the number of items

---
 implicit/cpu/lmf.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/implicit/cpu/lmf.pyx b/implicit/cpu/lmf.pyx
index 9d930bf..892bc17 100644
--- a/implicit/cpu/lmf.pyx
+++ b/implicit/cpu/lmf.pyx
@@ -238,7 +238,7 @@ def lmf_update(RNGVector rng, floating[:, :] deriv_sum_sq,
                integral num_threads):
 
     cdef integral n_users = user_vectors.shape[0]
-    cdef integral n_items = item_vectors.shape[1]
+    cdef integral n_items = item_vectors.shape[0]
     cdef integral n_factors = user_vectors.shape[1]
 
     cdef integral u, i, it, c, _, index, f
-- 
2.43.0


From 4810481dfc7e9f2a2b8d1044810e2134a3650977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:05 +0000
Subject: [PATCH 26/47] fix: leave_k_out_split picks train only users by id
 instead of by position

---
 implicit/evaluation.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/implicit/evaluation.pyx b/implicit/evaluation.pyx
index 7089a47..bf71c44 100644
--- a/implicit/evaluation.pyx
+++ b/implicit/evaluation.pyx
@@ -189,7 +189,8 @@ cpdef leave_k_out_split(
     # keep a given subset of users _only_ in the training set.
     if train_only_size > 0.0:
         train_only_mask = ~np.isin(
-            unique_users, _choose(random_state, len(unique_users), train_only_size)
+            np.arange(len(unique_users)),
+            _choose(random_state, len(unique_users), train_only_size),
         )
         candidate_mask = train_only_mask & candidate_mask
 
-- 
2.43.0


From 5deb8c33ab06bb5d450f596bcedb3a624505f406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:05 +0000
Subject: [PATCH 27/47] fix: leave_k_out_split with users that can't be in the
 test set

---
 implicit/evaluation.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/implicit/evaluation.pyx b/implicit/evaluation.pyx
index bf71c44..978f39a 100644
--- a/implicit/evaluation.pyx
+++ b/implicit/evaluation.pyx
@@ -204,8 +204,10 @@ cpdef leave_k_out_split(
     candidate_items = items[full_candidate_mask]
     candidate_data = data[full_candidate_mask]
 
+    # _take_tails needs consecutive integers
+    _, user_positions = np.unique(candidate_users, return_inverse=True)
     test_idx, train_idx = _take_tails(
-        candidate_users, K, shuffled=True, return_complement=True
+        user_positions, K, shuffled=True, return_complement=True
     )
 
     # get all remaining remaining candidate user-item pairs, and prepare to append to
-- 
2.43.0


From 0e0619099e5614a6fb6e5558add813eb8a3d8ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:05 +0000
Subject: [PATCH 28/47] fix: leave_k_out_split respects the random_state

---
 implicit/evaluation.pyx | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/implicit/evaluation.pyx b/implicit/evaluation.pyx
index 978f39a..7c412fb 100644
--- a/implicit/evaluation.pyx
+++ b/implicit/evaluation.pyx
@@ -74,7 +74,7 @@ cdef _choose(rng, int n, float frac):
     return arr
 
 
-cdef _take_tails(arr, int n, return_complement=False, shuffled=False):
+cdef _take_tails(arr, int n, return_complement=False, shuffled=False, rng=np.random):
     """
     Given an array of (optionally shuffled) integers in the range 0->n, take the indices
     of the last 'n' occurrences of each integer (tail) -- subject to shuffling.
@@ -108,6 +108,8 @@ cdef _take_tails(arr, int n, return_complement=False, shuffled=False):
     shuffled: bool
         Optionally indicate whether you wish the dataset to be shuffled. This will act
         to randomise the 'tails' selected.
+    rng: Generator
+        The random number generator to shuffle with
 
     Returns
     -------
@@ -125,7 +127,7 @@ cdef _take_tails(arr, int n, return_complement=False, shuffled=False):
     ranges = np.linspace(start, end, num=n + 1, dtype=int)[1:]
 
     if shuffled:
-        shuffled_idx = (sorted_arr + np.random.random(arr.shape)).argsort()
+        shuffled_idx = (sorted_arr + rng.random(arr.shape)).argsort()
         tails = shuffled_idx[np.ravel(ranges, order="f")]
     else:
         tails = np.ravel(ranges, order="f")
@@ -207,7 +209,7 @@ cpdef leave_k_out_split(
     # _take_tails needs consecutive integers
     _, user_positions = np.unique(candidate_users, return_inverse=True)
     test_idx, train_idx = _take_tails(
-        user_positions, K, shuffled=True, return_complement=True
+        user_positions, K, shuffled=True, return_complement=True, rng=random_state
     )
 
     # get all remaining remaining candidate user-item pairs, and prepare to append to
-- 
2.43.0


From 8102da6b6ac611163e36721683d5b1e72b79a110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:05 +0000
Subject: [PATCH 29/47] fix: item-item recommend accepts any numeric dtype

---
 implicit/nearest_neighbours.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/implicit/nearest_neighbours.py b/implicit/nearest_neighbours.py
index 7617fb6..f6324af 100644
--- a/implicit/nearest_neighbours.py
+++ b/implicit/nearest_neighbours.py
@@ -83,10 +83,14 @@ class ItemItemRecommender(RecommenderBase):
             if items.max() >= N or items.min() < 0:
                 raise IndexError("Some of selected itemids are not in the model")
 
+        user_data = user_items.data
+        if user_data.dtype not in (np.float32, np.float64):
+            user_data = user_data.astype(np.float64)
+
         ids, scores = self.scorer.recommend(
             user_items.indptr,
             user_items.indices,
-            user_items.data,
+            user_data,
             K=N,
             remove_own_likes=filter_already_liked_items,
         )
-- 
2.43.0


From bf300ec75f4a8b6c6fa504269bb8f0ba40752c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:22 +0000
Subject: [PATCH 30/47] fix: item-item recommend returns at most N items when
 filtering

---
 implicit/nearest_neighbours.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/implicit/nearest_neighbours.py b/implicit/nearest_neighbours.py
index f6324af..afca54c 100644
--- a/implicit/nearest_neighbours.py
+++ b/implicit/nearest_neighbours.py
@@ -74,13 +74,14 @@ class ItemItemRecommender(RecommenderBase):
         if filter_items is not None and items is not None:
             raise ValueError("Can't specify both filter_items and items")
 
+        count = N
         if filter_items is not None:
-            N += len(filter_items)
+            count += len(filter_items)
         elif items is not None:
             items = np.array(items)
-            N = self.similarity.shape[0]
+            count = self.similarity.shape[0]
             # check if items contains itemids that are not in the model(user_items)
-            if items.max() >= N or items.min() < 0:
+            if items.max() >= count or items.min() < 0:
                 raise IndexError("Some of selected itemids are not in the model")
 
         user_data = user_items.data
@@ -91,13 +92,13 @@ class ItemItemRecommender(RecommenderBase):
             user_items.indptr,
             user_items.indices,
             user_data,
-            K=N,
+            K=count,
             remove_own_likes=filter_already_liked_items,
         )
 
         if filter_items is not None:
             mask = np.in1d(ids, filter_items, invert=True)
-            ids, scores = ids[mask][:N], scores[mask][:N]
+            ids, scores = ids[mask], scores[mask]
 
         elif items is not None:
             mask = np.in1d(ids, items)
@@ -109,7 +110,7 @@ class ItemItemRecommender(RecommenderBase):
                 ids = np.append(ids, missing)
                 scores = np.append(scores, np.full(missing.size, -np.finfo(scores.dtype).max))
 
-        return ids, scores
+        return ids[:N], scores[:N]
 
     def similar_users(self, userid, N=10, filter_users=None, users=None):
         raise NotImplementedError("similar_users isn't implemented for item-item recommenders")
-- 
2.43.0


From fe6c0cf4324fcb51d1d720b69047be46981244f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:22 +0000
Subject: [PATCH 31/47] fix: item-item recommend doesn't return already liked
 items

---
 implicit/nearest_neighbours.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/implicit/nearest_neighbours.py b/implicit/nearest_neighbours.py
index afca54c..1d520fd 100644
--- a/implicit/nearest_neighbours.py
+++ b/implicit/nearest_neighbours.py
@@ -84,6 +84,11 @@ class ItemItemRecommender(RecommenderBase):
             if items.max() >= count or items.min() < 0:
                 raise IndexError("Some of selected itemids are not in the model")
 
+        # the scorer still returns liked items (with a score of 0): leave enough room so that
+        # removing them doesn't displace other items
+        if filter_already_liked_items:
+            count += len(user_items.indices)
+
         user_data = user_items.data
         if user_data.dtype not in (np.float32, np.float64):
             user_data = user_data.astype(np.float64)
@@ -96,6 +101,10 @@ class ItemItemRecommender(RecommenderBase):
             remove_own_likes=filter_already_liked_items,
         )
 
+        if filter_already_liked_items:
+            mask = np.in1d(ids, user_items.indices, invert=True)
+            ids, scores = ids[mask], scores[mask]
+
         if filter_items is not None:
             mask = np.in1d(ids, filter_items, invert=True)
             ids, scores = ids[mask], scores[mask]
-- 
2.43.0


From 4b18a5a2eb498da3f150335f60e2d062eff289b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:22 +0000
Subject: [PATCH 32/47] fix: item-item recommend validates the number of rows
 for a single user

---
 implicit/nearest_neighbours.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/implicit/nearest_neighbours.py b/implicit/nearest_neighbours.py
index 1d520fd..1c698ba 100644
--- a/implicit/nearest_neighbours.py
+++ b/implicit/nearest_neighbours.py
@@ -71,6 +71,9 @@ class ItemItemRecommender(RecommenderBase):
                 items=items,
             )
 
+        if user_items.shape[0] != 1:
+            raise ValueError("user_items must contain 1 row for every user in userids")
+
         if filter_items is not None and items is not None:
             raise ValueError("Can't specify both filter_items and items")
 
-- 
2.43.0


From e735acf3347111920b6fbb92f4961803906b0488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:25 +0000
Subject: [PATCH 33/47] fix: ranking metrics ignore the padding of short
 recommendation lists

---
 implicit/evaluation.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/implicit/evaluation.pyx b/implicit/evaluation.pyx
index 7c412fb..45df736 100644
--- a/implicit/evaluation.pyx
+++ b/implicit/evaluation.pyx
@@ -456,6 +456,9 @@ def ranking_metrics_at_k(model, train_user_items, test_user_items, int K=10,
                 num_neg_items = items - num_pos_items
 
                 for i in range(min(K, <int>ids.shape[1])):
+                    # models pad their results with -1 if they have less than K items
+                    if ids[batch_idx, i] < 0:
+                        break
                     if likes.find(ids[batch_idx, i]) != likes.end():
                         relevant += 1
                         hit += 1
-- 
2.43.0


From 128643b7ce6b610713b58fc4ffa04976a64d8f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:44 +0000
Subject: [PATCH 34/47] fix: item-item weighting of narrow integer types
 doesn't overflow

---
 implicit/nearest_neighbours.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/implicit/nearest_neighbours.py b/implicit/nearest_neighbours.py
index 1c698ba..d1855e1 100644
--- a/implicit/nearest_neighbours.py
+++ b/implicit/nearest_neighbours.py
@@ -247,7 +247,7 @@ def tfidf_weight(X):
     idf = log(N) - log1p(bincount(X.col))
 
     # apply TF-IDF adjustment
-    X.data = sqrt(X.data) * idf[X.col]
+    X.data = sqrt(X.data.astype(np.float64)) * idf[X.col]
     return X
 
 
@@ -255,7 +255,7 @@ def normalize(X):
     """equivalent to scipy.preprocessing.normalize on sparse matrices
     , but lets avoid another dependency just for a small utility function"""
     X = coo_matrix(X)
-    norms = sqrt(bincount(X.row, X.data**2))
+    norms = sqrt(bincount(X.row, X.data.astype(np.float64) ** 2))
     # rows that are all zero stay zero
     norms[norms == 0] = 1.0
     X.data = X.data / norms[X.row]
@@ -276,5 +276,6 @@ def bm25_weight(X, K1=100, B=0.8):
     length_norm = (1.0 - B) + B * row_sums / average_length
 
     # weight matrix rows by bm25
-    X.data = X.data * (K1 + 1.0) / (K1 * length_norm[X.row] + X.data) * idf[X.col]
+    data = X.data.astype(np.float64)
+    X.data = data * (K1 + 1.0) / (K1 * length_norm[X.row] + data) * idf[X.col]
     return X
-- 
2.43.0


From 7ecfc7a0f11200248a303825ab37082dad4e34ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:17 +0000
Subject: [PATCH 35/47] fix: item-item similar_items validates the candidate
 items

---
 implicit/nearest_neighbours.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/implicit/nearest_neighbours.py b/implicit/nearest_neighbours.py
index d1855e1..5bcb36d 100644
--- a/implicit/nearest_neighbours.py
+++ b/implicit/nearest_neighbours.py
@@ -153,6 +153,10 @@ class ItemItemRecommender(RecommenderBase):
 
         elif items is not None:
             items = np.array(items)
+            # check if items contains itemids that are not in the model
+            if items.size and (items.max() >= self.similarity.shape[0] or items.min() < 0):
+                raise IndexError("Some of selected itemids are not in the model")
+
             mask = np.in1d(ids, items)
             ids, scores = ids[mask], scores[mask]
 
-- 
2.43.0


From 58cde1b03c4a7d200d057c22d6a46971aa341b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:02 +0000
Subject: [PATCH 36/47] fix: ANN recommend validates the number of interaction
 rows

---
 implicit/ann/annoy.py  | 10 ++++++----
 implicit/ann/faiss.py  | 10 ++++++----
 implicit/ann/nmslib.py | 10 ++++++----
 3 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/implicit/ann/annoy.py b/implicit/ann/annoy.py
index dae3011..5631996 100644
--- a/implicit/ann/annoy.py
+++ b/implicit/ann/annoy.py
@@ -158,10 +158,12 @@ class AnnoyModel(RecommenderBase):
         recalculate_user=False,
         items=None,
     ):
-        if (filter_already_liked_items or recalculate_user) and not isinstance(
-            user_items, csr_matrix
-        ):
-            raise ValueError("user_items needs to be a CSR sparse matrix")
+        if filter_already_liked_items or recalculate_user:
+            if not isinstance(user_items, csr_matrix):
+                raise ValueError("user_items needs to be a CSR sparse matrix")
+            user_count = 1 if np.isscalar(userid) else len(userid)
+            if user_items.shape[0] != user_count:
+                raise ValueError("user_items must contain 1 row for every user in userids")
 
         if items is not None and self.approximate_recommend:
             raise NotImplementedError("using a 'items' list with ANN search isn't supported")
diff --git a/implicit/ann/faiss.py b/implicit/ann/faiss.py
index 53ba185..4ec3df4 100644
--- a/implicit/ann/faiss.py
+++ b/implicit/ann/faiss.py
@@ -187,10 +187,12 @@ class FaissModel(RecommenderBase):
         recalculate_user=False,
         items=None,
     ):
-        if (filter_already_liked_items or recalculate_user) and not isinstance(
-            user_items, csr_matrix
-        ):
-            raise ValueError("user_items needs to be a CSR sparse matrix")
+        if filter_already_liked_items or recalculate_user:
+            if not isinstance(user_items, csr_matrix):
+                raise ValueError("user_items needs to be a CSR sparse matrix")
+            user_count = 1 if np.isscalar(userid) else len(userid)
+            if user_items.shape[0] != user_count:
+                raise ValueError("user_items must contain 1 row for every user in userids")
 
         if items is not None and self.approximate_recommend:
             raise NotImplementedError("using a 'items' list with ANN search isn't supported")
diff --git a/implicit/ann/nmslib.py b/implicit/ann/nmslib.py
index 26b2a21..9e7ad7d 100644
--- a/implicit/ann/nmslib.py
+++ b/implicit/ann/nmslib.py
@@ -166,10 +166,12 @@ class NMSLibModel(RecommenderBase):
         recalculate_user=False,
         items=None,
     ):
-        if (filter_already_liked_items or recalculate_user) and not isinstance(
-            user_items, csr_matrix
-        ):
-            raise ValueError("user_items needs to be a CSR sparse matrix")
+        if filter_already_liked_items or recalculate_user:
+            if not isinstance(user_items, csr_matrix):
+                raise ValueError("user_items needs to be a CSR sparse matrix")
+            user_count = 1 if np.isscalar(userid) else len(userid)
+            if user_items.shape[0] != user_count:
+                raise ValueError("user_items must contain 1 row for every user in userids")
 
         if items is not None and self.approximate_recommend:
             raise NotImplementedError("using a 'items' list with ANN search isn't supported")
-- 
2.43.0


From e2e114655abf941911d93866e8ed6cee80941020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:19 +0000
Subject: [PATCH 37/47] fix: NMSLib batched similar_items with a different
 number of neighbours per row

---
 implicit/ann/nmslib.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/implicit/ann/nmslib.py b/implicit/ann/nmslib.py
index 9e7ad7d..c9cd481 100644
--- a/implicit/ann/nmslib.py
+++ b/implicit/ann/nmslib.py
@@ -145,12 +145,17 @@ class NMSLibModel(RecommenderBase):
 
         if np.isscalar(itemid):
             ids, scores = self.similar_items_index.knnQuery(factors, count)
+            scores = 1.0 - scores
         else:
+            # nmslib can return a different number of neighbours for each query: pad out with -1 ids
             results = self.similar_items_index.knnQueryBatch(factors, count)
-            ids = np.stack([result[0] for result in results])
-            scores = np.stack([result[1] for result in results])
+            width = max((len(result[0]) for result in results), default=0)
+            ids = np.full((len(results), width), -1, dtype=np.int32)
+            scores = np.full((len(results), width), -np.finfo(np.float32).max, dtype=np.float32)
+            for row, (row_ids, distances) in enumerate(results):
+                ids[row, : len(row_ids)] = row_ids
+                scores[row, : len(row_ids)] = 1.0 - distances
 
-        scores = 1.0 - scores
         if filter_items is not None:
             ids, scores = _filter_items_from_results(itemid, ids, scores, filter_items, N)
 
-- 
2.43.0


From 7a04c3a5bcf2305e1cb78c9e67d262d683d3bc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:35 +0000
Subject: [PATCH 38/47] fix: values cached by a query from a training callback
 are stale after the following iterations

---
 implicit/cpu/als.py  | 4 ++++
 implicit/cpu/bpr.pyx | 2 ++
 implicit/cpu/lmf.pyx | 2 ++
 3 files changed, 8 insertions(+)

diff --git a/implicit/cpu/als.py b/implicit/cpu/als.py
index 8d8d30c..98e6448 100644
--- a/implicit/cpu/als.py
+++ b/implicit/cpu/als.py
@@ -175,6 +175,10 @@ class AlternatingLeastSquares(MatrixFactorizationBase):
                     self.regularization,
                     num_threads=self.num_threads,
                 )
+                # the callback can query the model: don't keep values cached by an earlier one
+                self._item_norms = self._user_norms = None
+                self._YtY = None
+                self._XtX = None
                 progress.update(1)
 
                 if self.calculate_training_loss:
diff --git a/implicit/cpu/bpr.pyx b/implicit/cpu/bpr.pyx
index 10b9467..029f29f 100644
--- a/implicit/cpu/bpr.pyx
+++ b/implicit/cpu/bpr.pyx
@@ -194,6 +194,8 @@ class BayesianPersonalizedRanking(MatrixFactorizationBase):
                                               self.user_factors, self.item_factors,
                                               self.learning_rate, self.regularization, num_threads,
                                               self.verify_negative_samples)
+                # the callback can query the model: don't keep norms cached by an earlier one
+                self._user_norms = self._item_norms = None
                 progress.update(1)
                 total = len(user_items.data)
                 if total != 0 and total != skipped:
diff --git a/implicit/cpu/lmf.pyx b/implicit/cpu/lmf.pyx
index 892bc17..c0f3722 100644
--- a/implicit/cpu/lmf.pyx
+++ b/implicit/cpu/lmf.pyx
@@ -195,6 +195,8 @@ class LogisticMatrixFactorization(MatrixFactorizationBase):
                            item_users.indices, item_users.indptr, item_users.data,
                            self.learning_rate, self.regularization, self.neg_prop, num_threads)
                 self.item_factors[:, -1] = 1.0
+                # the callback can query the model: don't keep norms cached by an earlier one
+                self._user_norms = self._item_norms = None
                 progress.update(1)
                 if callback:
                     callback(epoch, time.time() - s)
-- 
2.43.0


From c5600b32a4bef527b35e64c9183d7972e1f5dc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:00 +0000
Subject: [PATCH 39/47] fix: an interrupted save leaves a file that loads as an
 incomplete model

np.savez completes the archive with whatever has been written when it is
interrupted, so after a Ctrl-C the file loaded without complaint - with default
values for the parameters that were missing. Write to a temporary file and
replace the target once it is complete.
---
 implicit/cpu/als.py            |  4 ++--
 implicit/cpu/bpr.pyx           |  4 ++--
 implicit/cpu/lmf.pyx           |  4 ++--
 implicit/nearest_neighbours.py |  4 ++--
 implicit/utils.py              | 26 ++++++++++++++++++++++++++
 5 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/implicit/cpu/als.py b/implicit/cpu/als.py
index 98e6448..4a3b4c4 100644
--- a/implicit/cpu/als.py
+++ b/implicit/cpu/als.py
@@ -9,7 +9,7 @@ import scipy
 import scipy.sparse
 from tqdm.auto import tqdm
 
-from ..utils import check_blas_config, check_csr, check_random_state, nonzeros
+from ..utils import _savez, check_blas_config, check_csr, check_random_state, nonzeros
 from . import _als
 from .matrix_factorization_base import MatrixFactorizationBase
 
@@ -482,7 +482,7 @@ class AlternatingLeastSquares(MatrixFactorizationBase):
         # filter out 'None' valued args and random number generators, since we can't
         # go np.load on them without using pickle
         args = {k: v for k, v in args.items() if not np.asarray(v).dtype.hasobject}
-        np.savez(fileobj_or_path, **args)
+        _savez(fileobj_or_path, **args)
 
 
 def least_squares(Cui, X, Y, regularization, num_threads=0):
diff --git a/implicit/cpu/bpr.pyx b/implicit/cpu/bpr.pyx
index 029f29f..7b95268 100644
--- a/implicit/cpu/bpr.pyx
+++ b/implicit/cpu/bpr.pyx
@@ -20,7 +20,7 @@ import scipy.sparse
 
 from libcpp.vector cimport vector
 
-from ..utils import check_csr, check_random_state
+from ..utils import _savez, check_csr, check_random_state
 from .matrix_factorization_base import MatrixFactorizationBase
 
 log = logging.getLogger("implicit")
@@ -243,7 +243,7 @@ class BayesianPersonalizedRanking(MatrixFactorizationBase):
         # filter out 'None' valued args and random number generators, since we can't
         # go np.load on them without using pickle
         args = {k: v for k, v in args.items() if not np.asarray(v).dtype.hasobject}
-        np.savez(fileobj_or_path, **args)
+        _savez(fileobj_or_path, **args)
 
 
 @cython.cdivision(True)
diff --git a/implicit/cpu/lmf.pyx b/implicit/cpu/lmf.pyx
index c0f3722..60300bd 100644
--- a/implicit/cpu/lmf.pyx
+++ b/implicit/cpu/lmf.pyx
@@ -22,7 +22,7 @@ import scipy.sparse
 
 from libcpp.vector cimport vector
 
-from ..utils import check_csr, check_random_state
+from ..utils import _savez, check_csr, check_random_state
 from .matrix_factorization_base import MatrixFactorizationBase
 
 log = logging.getLogger("implicit")
@@ -219,7 +219,7 @@ class LogisticMatrixFactorization(MatrixFactorizationBase):
         # filter out 'None' valued args and random number generators, since we can't
         # go np.load on them without using pickle
         args = {k: v for k, v in args.items() if not np.asarray(v).dtype.hasobject}
-        np.savez(fileobj_or_path, **args)
+        _savez(fileobj_or_path, **args)
 
 
 @cython.cdivision(True)
diff --git a/implicit/nearest_neighbours.py b/implicit/nearest_neighbours.py
index 5bcb36d..749c570 100644
--- a/implicit/nearest_neighbours.py
+++ b/implicit/nearest_neighbours.py
@@ -4,7 +4,7 @@ from scipy.sparse import coo_matrix, csr_matrix
 
 from ._nearest_neighbours import NearestNeighboursScorer, all_pairs_knn
 from .recommender_base import RecommenderBase
-from .utils import _batch_call
+from .utils import _batch_call, _savez
 
 
 class ItemItemRecommender(RecommenderBase):
@@ -189,7 +189,7 @@ class ItemItemRecommender(RecommenderBase):
             args.update(
                 {"shape": m.shape, "data": m.data, "indptr": m.indptr, "indices": m.indices}
             )
-        np.savez(fileobj_or_path, **args)
+        _savez(fileobj_or_path, **args)
 
     @classmethod
     def load(cls, fileobj_or_path):
diff --git a/implicit/utils.py b/implicit/utils.py
index 1d5256e..5d0fe2b 100644
--- a/implicit/utils.py
+++ b/implicit/utils.py
@@ -1,3 +1,4 @@
+import os
 import time
 import warnings
 
@@ -169,3 +170,28 @@ def check_csr(user_items):
             ParameterWarning,
         )
     return user_items
+
+
+def _savez(fileobj_or_path, **args):
+    """Same as np.savez, but a file is only replaced once everything has been written.
+
+    When it gets interrupted, np.savez completes the archive with just the arrays that have been
+    written so far - which would load as a model that is missing some of its parameters
+    """
+    if hasattr(fileobj_or_path, "write"):
+        np.savez(fileobj_or_path, **args)
+        return
+
+    path = os.fspath(fileobj_or_path)
+    if not path.endswith(".npz"):
+        path = path + ".npz"
+
+    temp_filename = f"{path}.{os.getpid()}.part"
+    try:
+        with open(temp_filename, "wb") as f:
+            np.savez(f, **args)
+        os.replace(temp_filename, path)
+    except BaseException:
+        if os.path.exists(temp_filename):
+            os.remove(temp_filename)
+        raise
-- 
2.43.0


From 4c1004bbdab9ffc193276aa1ebe762b9616bec92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:43 +0000
Subject: [PATCH 40/47] fix: ranking metrics count filtered items that only
 fill up the results

When less than K items are left after filtering out the training items, the
matrix factorization models fill up the results with filtered items that have the
lowest possible score. The metrics took these as recommended items.
---
 implicit/evaluation.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/implicit/evaluation.pyx b/implicit/evaluation.pyx
index 45df736..8464af2 100644
--- a/implicit/evaluation.pyx
+++ b/implicit/evaluation.pyx
@@ -436,7 +436,10 @@ def ranking_metrics_at_k(model, train_user_items, test_user_items, int K=10,
 
     while start_idx < len(to_generate):
         batch = to_generate[start_idx: start_idx + batch_size]
-        ids, _ = model.recommend(batch, train_user_items[batch], N=K)
+        recommended, scores = model.recommend(batch, train_user_items[batch], N=K)
+        # if there are less than K items left for a user, the results are filled up with filtered
+        # items that have the lowest possible score: these haven't been recommended
+        ids = np.where(scores <= -np.finfo(np.float32).max, -1, recommended).astype("int32")
         start_idx += batch_size
 
         with nogil:
-- 
2.43.0


From b50c4baf706e1e806e2f6efd14fc38c3e2fc29ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:44 +0000
Subject: [PATCH 41/47] fix: integer alpha overflows with small integer
 interactions in ALS

recalculate_user/recalculate_item/partial_fit/explain multiplied the interactions with
alpha in their own dtype: an integer alpha and int8/uint8 interactions wrapped around,
and gave different factors than the same interactions stored as floats
---
 implicit/cpu/als.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/implicit/cpu/als.py b/implicit/cpu/als.py
index 4a3b4c4..2a009db 100644
--- a/implicit/cpu/als.py
+++ b/implicit/cpu/als.py
@@ -229,7 +229,7 @@ class AlternatingLeastSquares(MatrixFactorizationBase):
             raise ValueError("user_items should have one row for every item in user")
 
         if self.alpha != 1.0:
-            user_items = self.alpha * user_items
+            user_items = float(self.alpha) * user_items
 
         user_factors = np.zeros((users, self.factors), dtype=self.dtype)
         _als._least_squares(
@@ -261,7 +261,7 @@ class AlternatingLeastSquares(MatrixFactorizationBase):
         item_users = check_csr(item_users)
 
         if self.alpha != 1.0:
-            item_users = self.alpha * item_users
+            item_users = float(self.alpha) * item_users
 
         items = 1 if np.isscalar(itemid) else len(itemid)
 
@@ -387,7 +387,7 @@ class AlternatingLeastSquares(MatrixFactorizationBase):
 
         user_items = check_csr(user_items)
         if self.alpha != 1.0:
-            user_items = self.alpha * user_items
+            user_items = float(self.alpha) * user_items
 
         # user_weights = Cholesky decomposition of Wu^-1
         # from section 5 of the paper CF for Implicit Feedback Datasets
-- 
2.43.0


From 939469f334f158ebdaee75d89e4d8b38d0055473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:44 +0000
Subject: [PATCH 42/47] fix: item-item models crash when asked for 0 results

TopK read the first element of an empty heap, when recommend was called with N=0 or a
model was fit with K=0
---
 implicit/nearest_neighbours.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/implicit/nearest_neighbours.h b/implicit/nearest_neighbours.h
index 6e72452..6149bd4 100644
--- a/implicit/nearest_neighbours.h
+++ b/implicit/nearest_neighbours.h
@@ -17,7 +17,7 @@ template <typename Index, typename Value> struct TopK {
   explicit TopK(size_t K) : K(K) {}
 
   void operator()(Index index, Value score) {
-    if ((results.size() < K) || (score > results[0].first)) {
+    if ((results.size() < K) || (K > 0 && score > results[0].first)) {
       if (results.size() >= K) {
         std::pop_heap(results.begin(), results.end(), heap_order);
         results.pop_back();
-- 
2.43.0


From dcb3a33eed82330dfb7c568b0e8d856a784acede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:44 +0000
Subject: [PATCH 43/47] fix: all_pairs_knn writes out of bounds with a large K

The number of results (items * K) overflowed 32 bits, so that fitting an item-item model
with a K much larger than the number of items crashed
---
 implicit/_nearest_neighbours.pyx | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/implicit/_nearest_neighbours.pyx b/implicit/_nearest_neighbours.pyx
index a652f46..928d3a8 100644
--- a/implicit/_nearest_neighbours.pyx
+++ b/implicit/_nearest_neighbours.pyx
@@ -119,6 +119,7 @@ def all_pairs_knn(users, unsigned int K=100, int num_threads=0, show_progress=Tr
 
     cdef int item_count = items.shape[0]
     cdef int i, u, index1, index2, j
+    cdef long position
     cdef double w1, w2
 
     cdef int[:] item_indptr = items.indptr, item_indices = items.indices
@@ -131,10 +132,14 @@ def all_pairs_knn(users, unsigned int K=100, int num_threads=0, show_progress=Tr
     cdef TopK[int, double] * topk
     cdef pair[double, int] result
 
+    # an item can't have more neighbours than there are items
+    K = min(K, <unsigned int>item_count)
+
     # holds triples of output
-    cdef double[:] values = np.zeros(item_count * K)
-    cdef long[:] rows = np.zeros(item_count * K, dtype=int)
-    cdef long[:] cols = np.zeros(item_count * K, dtype=int)
+    cdef long size = <long>item_count * K
+    cdef double[:] values = np.zeros(size)
+    cdef long[:] rows = np.zeros(size, dtype=int)
+    cdef long[:] cols = np.zeros(size, dtype=int)
 
     progress = tqdm(total=item_count, disable=not show_progress)
     with nogil, parallel(num_threads=num_threads):
@@ -154,13 +159,13 @@ def all_pairs_knn(users, unsigned int K=100, int num_threads=0, show_progress=Tr
                 topk.results.clear()
                 neighbours.foreach(dereference(topk))
 
-                index2 = K * i
+                position = <long>K * i
 
                 for result in topk.results:
-                    rows[index2] = i
-                    cols[index2] = result.second
-                    values[index2] = result.first
-                    index2 = index2 + 1
+                    rows[position] = i
+                    cols[position] = result.second
+                    values[position] = result.first
+                    position = position + 1
                 with gil:
                     progress.update(1)
 
-- 
2.43.0


From 92553232030c405d388159e6a6cc0397e9615499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:44 +0000
Subject: [PATCH 44/47] fix: queries with N=0 raise an IndexError

---
 implicit/cpu/topk.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/implicit/cpu/topk.pyx b/implicit/cpu/topk.pyx
index 9b71058..50cad62 100644
--- a/implicit/cpu/topk.pyx
+++ b/implicit/cpu/topk.pyx
@@ -23,6 +23,9 @@ def topk(items, query, int k, item_norms=None, filter_query_items=None, filter_i
     indices = np.zeros((query_rows, k), dtype="int32")
     distances = np.zeros((query_rows, k), dtype=query.dtype)
 
+    if k == 0:
+        return indices, distances
+
     # TODO: figure out appropriate batch size from available memory
     cdef int batch_size = 100 # TODO
 
-- 
2.43.0


From c52f58b9d8c2e0dfe631fed7a10e2795d1fb2496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:44 +0000
Subject: [PATCH 45/47] fix: item-item recommend reads out of bounds for items
 outside the model

Passing interactions with an item that the model wasn't trained on crashed or returned
scores from unrelated memory
---
 implicit/nearest_neighbours.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/implicit/nearest_neighbours.py b/implicit/nearest_neighbours.py
index 749c570..1da6350 100644
--- a/implicit/nearest_neighbours.py
+++ b/implicit/nearest_neighbours.py
@@ -74,6 +74,9 @@ class ItemItemRecommender(RecommenderBase):
         if user_items.shape[0] != 1:
             raise ValueError("user_items must contain 1 row for every user in userids")
 
+        if user_items.nnz and user_items.indices.max() >= self.similarity.shape[0]:
+            raise IndexError("Some of the itemids in user_items are not in the model")
+
         if filter_items is not None and items is not None:
             raise ValueError("Can't specify both filter_items and items")
 
-- 
2.43.0


From 43b1bd986cc6f9c601bfdefb44630b5d11177e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:44 +0000
Subject: [PATCH 46/47] fix: ALS recalculate reads out of bounds for ids
 outside the model

recalculate_user, recalculate_item and the partial fits read past the end of the factors
when the interactions contained an item (user) that isn't in the model, and silently
returned factors computed from unrelated memory
---
 implicit/cpu/als.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/implicit/cpu/als.py b/implicit/cpu/als.py
index 2a009db..fd14ecb 100644
--- a/implicit/cpu/als.py
+++ b/implicit/cpu/als.py
@@ -227,6 +227,8 @@ class AlternatingLeastSquares(MatrixFactorizationBase):
 
         if user_items.shape[0] != users:
             raise ValueError("user_items should have one row for every item in user")
+        if user_items.nnz and user_items.indices.max() >= self.item_factors.shape[0]:
+            raise IndexError("Some of the itemids in user_items are not in the model")
 
         if self.alpha != 1.0:
             user_items = float(self.alpha) * user_items
@@ -267,6 +269,8 @@ class AlternatingLeastSquares(MatrixFactorizationBase):
 
         if item_users.shape[0] != items:
             raise ValueError("item_users should have one row for every item in itemid")
+        if item_users.nnz and item_users.indices.max() >= self.user_factors.shape[0]:
+            raise IndexError("Some of the userids in item_users are not in the model")
 
         item_factors = np.zeros((items, self.factors), dtype=self.dtype)
         _als._least_squares(
-- 
2.43.0


From 4eeb64d382190b097c5e6e06edcbfd487a7f6925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:44 +0000
Subject: [PATCH 47/47] fix: a set of filter_items is silently ignored by
 item-item and ANN models

np.in1d treats a set as a single element, so none of its items were filtered from the
results
---
 implicit/ann/annoy.py          | 2 +-
 implicit/ann/faiss.py          | 2 +-
 implicit/ann/nmslib.py         | 2 +-
 implicit/nearest_neighbours.py | 4 ++--
 implicit/utils.py              | 4 ++--
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/implicit/ann/annoy.py b/implicit/ann/annoy.py
index 5631996..d4d539f 100644
--- a/implicit/ann/annoy.py
+++ b/implicit/ann/annoy.py
@@ -209,7 +209,7 @@ class AnnoyModel(RecommenderBase):
         count = N
         if filter_items is not None:
             count += len(filter_items)
-            filter_items = np.array(filter_items)
+            filter_items = np.array(list(filter_items))
 
         if filter_already_liked_items:
             user_likes = user_items[0].indices
diff --git a/implicit/ann/faiss.py b/implicit/ann/faiss.py
index 4ec3df4..2799916 100644
--- a/implicit/ann/faiss.py
+++ b/implicit/ann/faiss.py
@@ -240,7 +240,7 @@ class FaissModel(RecommenderBase):
         count = N
         if filter_items is not None:
             count += len(filter_items)
-            filter_items = np.array(filter_items)
+            filter_items = np.array(list(filter_items))
 
         if filter_already_liked_items:
             user_likes = user_items[0].indices
diff --git a/implicit/ann/nmslib.py b/implicit/ann/nmslib.py
index c9cd481..c89dd79 100644
--- a/implicit/ann/nmslib.py
+++ b/implicit/ann/nmslib.py
@@ -222,7 +222,7 @@ class NMSLibModel(RecommenderBase):
         count = N
         if filter_items is not None:
             count += len(filter_items)
-            filter_items = np.array(filter_items)
+            filter_items = np.array(list(filter_items))
 
         if filter_already_liked_items:
             user_likes = user_items[0].indices
diff --git a/implicit/nearest_neighbours.py b/implicit/nearest_neighbours.py
index 1da6350..a15ba1d 100644
--- a/implicit/nearest_neighbours.py
+++ b/implicit/nearest_neighbours.py
@@ -112,7 +112,7 @@ class ItemItemRecommender(RecommenderBase):
             ids, scores = ids[mask], scores[mask]
 
         if filter_items is not None:
-            mask = np.in1d(ids, filter_items, invert=True)
+            mask = np.in1d(ids, list(filter_items), invert=True)
             ids, scores = ids[mask], scores[mask]
 
         elif items is not None:
@@ -151,7 +151,7 @@ class ItemItemRecommender(RecommenderBase):
         scores = self.similarity[itemid].data
 
         if filter_items is not None:
-            mask = np.in1d(ids, filter_items, invert=True)
+            mask = np.in1d(ids, list(filter_items), invert=True)
             ids, scores = ids[mask], scores[mask]
 
         elif items is not None:
diff --git a/implicit/utils.py b/implicit/utils.py
index 5d0fe2b..d1b593f 100644
--- a/implicit/utils.py
+++ b/implicit/utils.py
@@ -139,7 +139,7 @@ def _batch_call(func, ids, *args, N=10, **kwargs):
 
 def _filter_items_from_results(queryid, ids, scores, filter_items, N):
     if np.isscalar(queryid):
-        mask = np.in1d(ids, filter_items, invert=True)
+        mask = np.in1d(ids, list(filter_items), invert=True)
         ids, scores = ids[mask][:N], scores[mask][:N]
     else:
         rows = len(queryid)
@@ -147,7 +147,7 @@ def _filter_items_from_results(queryid, ids, scores, filter_items, N):
         filtered_scores = np.full((rows, N), -np.finfo(np.float32).max, dtype=scores.dtype)
         filtered_ids = np.full((rows, N), -1, dtype=ids.dtype)
         for row in range(rows):
-            mask = np.in1d(ids[row], filter_items, invert=True)
+            mask = np.in1d(ids[row], list(filter_items), invert=True)
             row_ids, row_scores = ids[row][mask][:N], scores[row][mask][:N]
             filtered_ids[row, : len(row_ids)] = row_ids
             filtered_scores[row, : len(row_scores)] = row_scores
-- 
2.43.0

