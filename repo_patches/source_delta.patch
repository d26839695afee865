From b589b7e175f0e918ce06e3a8c2191765be17f5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 15:49:12 +0000
Subject: [PATCH 01/59] fix: restore the line break that hid the typing import
 in polytope.py (import aideme raised NameError)

---
 aideme/active_learning/dsm/polytope.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aideme/active_learning/dsm/polytope.py b/aideme/active_learning/dsm/polytope.py
index 6b524a5..474c6c4 100644
--- a/aideme/active_learning/dsm/polytope.py
+++ b/aideme/active_learning/dsm/polytope.py
@@ -9,7 +9,8 @@
 #    TO THE WARRANTIES OF MERCHANTABILITY, FITNESS FOR A PARTICULAR PURPOSE AND NON-INFRINGEMENT. IN NO EVENT SHALL
 #    THE AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER LIABILITY, WHETHER IN AN ACTION OF
 #    CONTRACT, TORT OR OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS
-#    IN THE SOFTWARE.from typing import Set, List, Tuple
+#    IN THE SOFTWARE.
+from typing import Set, List, Tuple
 
 import numpy as np
 
-- 
2.43.0


From 1171b632deb55a036a22b37c7e8e352cc68df47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:36 +0000
Subject: [PATCH 02/59] fix: np.float no longer exists (categorical polytope
 and gaussian kernel always failed)

---
 aideme/active_learning/dsm/polytope.py | 2 +-
 aideme/active_learning/kernel.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aideme/active_learning/dsm/polytope.py b/aideme/active_learning/dsm/polytope.py
index 474c6c4..e678928 100644
--- a/aideme/active_learning/dsm/polytope.py
+++ b/aideme/active_learning/dsm/polytope.py
@@ -226,7 +226,7 @@ class CategoricalPolytope(PolytopeBase):
             return np.full(len(X), fill_value=0.5)
 
         X = np.argmax(X, axis=1)
-        return np.fromiter((self._predict_single(x) for x in X), np.float)
+        return np.fromiter((self._predict_single(x) for x in X), float)
 
     def _predict_single(self, x: np.ndarray) -> float:
         if x in self._pos_classes:
diff --git a/aideme/active_learning/kernel.py b/aideme/active_learning/kernel.py
index 618870a..976f461 100644
--- a/aideme/active_learning/kernel.py
+++ b/aideme/active_learning/kernel.py
@@ -120,7 +120,7 @@ class GaussianKernel(Kernel):
         :param X: a M x D matrix of data points
         :return: a M-dimensional array K_i = k(X_i, X_i)
         """
-        return np.ones(len(X), dtype=np.float)
+        return np.ones(len(X), dtype=float)
 
 
 class PolynomialKernel(Kernel):
-- 
2.43.0


From 088c604d787b5e5eed895c070de3ff0e5cb7eec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:36 +0000
Subject: [PATCH 03/59] fix: diagonal of the polynomial kernel differs from the
 kernel matrix diagonal

---
 aideme/active_learning/kernel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aideme/active_learning/kernel.py b/aideme/active_learning/kernel.py
index 976f461..1905487 100644
--- a/aideme/active_learning/kernel.py
+++ b/aideme/active_learning/kernel.py
@@ -154,8 +154,9 @@ class PolynomialKernel(Kernel):
         :param X: a M x D matrix of data points
         :return: a M-dimensional array K_i = k(X_i, X_i)
         """
+        gamma = 1 / X.shape[1] if self.gamma is None else self.gamma
         sqsum = np.einsum('ir, ir -> i', X, X)
-        return (self.gamma * sqsum + self.coef0) ** (1 / self.degree)
+        return (gamma * sqsum + self.coef0) ** self.degree
 
 
 class IncrementedDiagonalKernel(Kernel):
-- 
2.43.0


From 7b2851f096d6cba8e948d74d662068d56d0fb5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:36 +0000
Subject: [PATCH 04/59] fix: move_to_unknown used the index of a point as its
 position

---
 aideme/explore/partitioned.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/explore/partitioned.py b/aideme/explore/partitioned.py
index a81d7d0..220b2cb 100644
--- a/aideme/explore/partitioned.py
+++ b/aideme/explore/partitioned.py
@@ -110,7 +110,7 @@ class PartitionedDataset:  # TODO: how can we add partition information? (factor
             pos = self.__index_to_row[idx]
 
             if pos < self.__unknown_start:
-                self.__move_right(idx, to_unknown=True)
+                self.__move_right(pos, to_unknown=True)
             else:
                 self.__raise_error(idx, pos, 'unknown')
 
-- 
2.43.0


From 39baac505c8073aaa0ff7d92fa7b3ee5f718d261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:36 +0000
Subject: [PATCH 05/59] fix: exploration manager appended its own criterion to
 the user's list

---
 aideme/utils/validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/utils/validation.py b/aideme/utils/validation.py
index 31d3539..7fa9b93 100644
--- a/aideme/utils/validation.py
+++ b/aideme/utils/validation.py
@@ -58,4 +58,4 @@ def process_callback(callback):
     if not all(callable(f) for f in callback):
         raise ValueError("Expected callable or list of callable objects, got {}".format(callback))
 
-    return callback
+    return list(callback)
-- 
2.43.0


From c1f586fbcd59cc76607da639a02e71ce4edfd40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:10 +0000
Subject: [PATCH 06/59] fix: a rejected move left its points half moved, and
 moving a view of the dataset indexes moved other points

---
 aideme/explore/labeledset.py  |  2 +-
 aideme/explore/partitioned.py | 39 ++++++++++++++++++++++-------------
 2 files changed, 26 insertions(+), 15 deletions(-)

diff --git a/aideme/explore/labeledset.py b/aideme/explore/labeledset.py
index 1f0b36c..1d5e35a 100644
--- a/aideme/explore/labeledset.py
+++ b/aideme/explore/labeledset.py
@@ -58,7 +58,7 @@ class LabeledSet:
         if index is None:
             return np.arange(len(self))
 
-        idx = np.ravel(index)
+        idx = np.array(index).ravel()  # copy, since 'index' can be a view of dataset indexes, which change in-place
 
         if len(idx) != len(self):
             raise ValueError("Wrong size of indexes: expected {}, but got {}".format(len(idx), len(self)))
diff --git a/aideme/explore/partitioned.py b/aideme/explore/partitioned.py
index 220b2cb..14aea0a 100644
--- a/aideme/explore/partitioned.py
+++ b/aideme/explore/partitioned.py
@@ -13,7 +13,7 @@
 
 from __future__ import annotations
 
-from typing import Iterable, Tuple, Optional, Sequence, TYPE_CHECKING
+from typing import Callable, Iterable, List, Tuple, Optional, Sequence, TYPE_CHECKING
 
 import numpy as np
 import sklearn.utils
@@ -77,13 +77,10 @@ class PartitionedDataset:  # TODO: how can we add partition information? (factor
         Move indexes to LABELED partition, and store its labels. Throws exception if any index is already in this partition.
         :param labeled_set: LabeledSet instance containing the labels and indexes of points to be moved
         """
-        for idx in labeled_set.index:
-            pos = self.__index_to_row[idx]
+        indexes = self.__check_indexes(labeled_set.index, lambda pos: pos < self.__inferred_start, 'labeled')
 
-            if pos >= self.__inferred_start:
-                self.__move_left(pos, to_labeled=True)
-            else:
-                self.__raise_error(idx, pos, 'labeled')
+        for idx in indexes:
+            self.__move_left(self.__index_to_row[idx], to_labeled=True)
 
         self.__last_user_labeled_set = labeled_set
         self.__labeled_set = self.__labeled_set.concat(labeled_set)
@@ -92,27 +89,41 @@ class PartitionedDataset:  # TODO: how can we add partition information? (factor
         """
         Move indexes to INFERRED partition. Throws exception if any index is already in this partition.
         """
+        indexes = self.__check_indexes(indexes, lambda pos: self.__inferred_start <= pos < self.__unknown_start, 'inferred')
+
         for idx in indexes:
             pos = self.__index_to_row[idx]
 
             if pos >= self.__unknown_start:
                 self.__move_left(pos, to_labeled=False)
-            elif pos < self.__inferred_start:
-                self.__move_right(pos, to_unknown=False)
             else:
-                self.__raise_error(idx, pos, 'inferred')
+                self.__move_right(pos, to_unknown=False)
 
     def move_to_unknown(self, indexes: Iterable) -> None:
         """
         Move indexes to UNKNOWN partition. Throws exception if any index is already in this partition.
         """
+        indexes = self.__check_indexes(indexes, lambda pos: pos >= self.__unknown_start, 'unknown')
+
+        for idx in indexes:
+            self.__move_right(self.__index_to_row[idx], to_unknown=True)
+
+    def __check_indexes(self, indexes: Iterable, is_in_partition: Callable[[int], bool], partition_name: str) -> List:
+        """
+        Checks that all indexes can be moved before moving any of them. Indexes are also copied, since they can be a view
+        of the dataset's own indexes, which change at every move.
+        """
+        indexes, visited = list(indexes), set()
+
         for idx in indexes:
             pos = self.__index_to_row[idx]
 
-            if pos < self.__unknown_start:
-                self.__move_right(pos, to_unknown=True)
-            else:
-                self.__raise_error(idx, pos, 'unknown')
+            if is_in_partition(pos) or idx in visited:
+                self.__raise_error(idx, pos, partition_name)
+
+            visited.add(idx)
+
+        return indexes
 
     def __move_left(self, pos: int, to_labeled: bool) -> None:
         if pos >= self.__unknown_start:
-- 
2.43.0


From bff1f433b5c90d3c1f7f6614b9d99148eb1cdc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:10 +0000
Subject: [PATCH 07/59] fix: points leaving the labeled partition kept their
 labels, shifting the labels of the training set

---
 aideme/explore/partitioned.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/aideme/explore/partitioned.py b/aideme/explore/partitioned.py
index 14aea0a..9895913 100644
--- a/aideme/explore/partitioned.py
+++ b/aideme/explore/partitioned.py
@@ -99,6 +99,8 @@ class PartitionedDataset:  # TODO: how can we add partition information? (factor
             else:
                 self.__move_right(pos, to_unknown=False)
 
+        self.__remove_unused_labels()
+
     def move_to_unknown(self, indexes: Iterable) -> None:
         """
         Move indexes to UNKNOWN partition. Throws exception if any index is already in this partition.
@@ -108,6 +110,8 @@ class PartitionedDataset:  # TODO: how can we add partition information? (factor
         for idx in indexes:
             self.__move_right(self.__index_to_row[idx], to_unknown=True)
 
+        self.__remove_unused_labels()
+
     def __check_indexes(self, indexes: Iterable, is_in_partition: Callable[[int], bool], partition_name: str) -> List:
         """
         Checks that all indexes can be moved before moving any of them. Indexes are also copied, since they can be a view
@@ -145,6 +149,13 @@ class PartitionedDataset:  # TODO: how can we add partition information? (factor
             self.__swap_rows(pos, self.__unknown_start - 1)
             self.__unknown_start -= 1
 
+    def __remove_unused_labels(self) -> None:
+        """
+        Forgets the labels of all points which have left the LABELED partition
+        """
+        if len(self.__labeled_set) > self.labeled_size:
+            self.__labeled_set = self.__labeled_set.get_index(self.labeled.index)
+
     def __swap_rows(self, i: int, j: int) -> None:
         idx_i, idx_j = self.__dataset.index[i], self.__dataset.index[j]
         self.__dataset.swap_rows(i, j)
-- 
2.43.0


From c0ae5a87e7a5d5c70f6c45d6f8ab723ddf4d58ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:10 +0000
Subject: [PATCH 08/59] fix: setting partial labels of the dataset changed the
 user's own labeled set

---
 aideme/explore/partitioned.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/explore/partitioned.py b/aideme/explore/partitioned.py
index 9895913..13378fd 100644
--- a/aideme/explore/partitioned.py
+++ b/aideme/explore/partitioned.py
@@ -289,7 +289,7 @@ class PartitionedDataset:  # TODO: how can we add partition information? (factor
         Sets the partial labels for the current user labeled set of points
         :param y_partial: array of partial labels
         """
-        self.__labeled_set.set_partial_labels(y_partial)
+        self.__labeled_set = LabeledSet(self.__labeled_set.labels, y_partial, self.__labeled_set.index)
 
     def predict_user_labels(self, active_learner: ActiveLearner) -> LabeledSet:
         """
-- 
2.43.0


From a0e21ad40d731d9ca3edb5818b5921a6c0b65f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:39 +0000
Subject: [PATCH 09/59] fix: metrics left by an abandoned run could stop the
 next run before its first iteration

---
 aideme/explore/explore.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aideme/explore/explore.py b/aideme/explore/explore.py
index 8c6af47..8d27c29 100644
--- a/aideme/explore/explore.py
+++ b/aideme/explore/explore.py
@@ -90,6 +90,7 @@ class PoolBasedExploration:
     def _run(self, manager: ExplorationManager, labeled_set: LabeledSet, seed: Optional[int]) -> RunType:
         set_random_state(seed)
 
+        metric_logger.flush()  # forget any metrics left by a previous run which did not finish
         manager.clear()
 
         while not manager.converged():
-- 
2.43.0


From e30b87e2256727ea1723d5fd32fa7b0e00980571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:39 +0000
Subject: [PATCH 10/59] fix: command line exploration accepted labels such as
 11 or 01

---
 aideme/explore/command_line_explore.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aideme/explore/command_line_explore.py b/aideme/explore/command_line_explore.py
index 73b45a2..e5b2ba2 100644
--- a/aideme/explore/command_line_explore.py
+++ b/aideme/explore/command_line_explore.py
@@ -91,5 +91,9 @@ class CommandLineExploration:
             print('Incorrect number of labels: got {} but expected {}\n'.format(len(vals), expected_size))
             return False, None
 
+        if not set(vals).issubset({'0', '1'}):
+            print("Invalid label. Only 0 and 1 are permitted.\n")
+            return False, None
+
         print()
         return True, [int(x) for x in vals]
-- 
2.43.0


From aea684bf88241373f5c88e43321b945edd1f444b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:39 +0000
Subject: [PATCH 11/59] fix: command line exploration ignored its callbacks, so
 metric convergence criteria never stopped it

---
 aideme/explore/command_line_explore.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/aideme/explore/command_line_explore.py b/aideme/explore/command_line_explore.py
index e5b2ba2..7717aa2 100644
--- a/aideme/explore/command_line_explore.py
+++ b/aideme/explore/command_line_explore.py
@@ -15,7 +15,7 @@ from __future__ import annotations
 from typing import Optional, TYPE_CHECKING
 
 from . import LabeledSet, ExplorationManager, PartitionedDataset
-from ..utils import assert_positive_integer, process_callback
+from ..utils import assert_positive_integer, process_callback, metric_logger
 
 if TYPE_CHECKING:
     from ..active_learning import ActiveLearner
@@ -58,11 +58,17 @@ class CommandLineExploration:
 
         print('Welcome to the manual exploration process. \n')
 
+        metric_logger.flush()
+
         while not manager.converged() and self._is_willing:
+            metric_logger.flush()  # avoid overlapping metrics between iterations
+
             data_to_label = manager.get_next_to_label()
             new_labeled_set = self._label(data_to_label.index, data_to_label.data)
             manager.update(new_labeled_set)
 
+            metric_logger.log_metrics(manager.get_callback_metrics())
+
     @property
     def _is_willing(self) -> bool:
         val = input("Continue (y/n): ")
-- 
2.43.0


From eba46b7307c37e05824672c4d70ac4ac0332abf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:39 +0000
Subject: [PATCH 12/59] fix: flipped polytope missed the batch of points which
 invalidated the positive one

---
 aideme/active_learning/dsm/polytope.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aideme/active_learning/dsm/polytope.py b/aideme/active_learning/dsm/polytope.py
index e678928..c00bc16 100644
--- a/aideme/active_learning/dsm/polytope.py
+++ b/aideme/active_learning/dsm/polytope.py
@@ -186,7 +186,9 @@ class PersistentPolytope(PolytopeBase):
             raise RuntimeError("Attempting to update invalid polytope.")
 
         if self._pol.is_valid and self._flipped.is_valid:
-            return self._pol.update(X, y) and self._flipped.update(X, y)
+            # both models must see the data, even if one of them becomes invalid
+            is_pol_valid, is_flipped_valid = self._pol.update(X, y), self._flipped.update(X, y)
+            return is_pol_valid and is_flipped_valid
 
         if self._pol.is_valid:
             return self._pol.update(X, y)
-- 
2.43.0


From 9dab23b49da65cc0804789e61431a996aa1b69b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:39 +0000
Subject: [PATCH 13/59] fix: subspaces after a conflicting one missed the whole
 batch of labeled points

---
 aideme/active_learning/dsm/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aideme/active_learning/dsm/model.py b/aideme/active_learning/dsm/model.py
index 961fbf9..b208314 100644
--- a/aideme/active_learning/dsm/model.py
+++ b/aideme/active_learning/dsm/model.py
@@ -96,7 +96,8 @@ class FactorizedPolytopeModel(PolytopeModelBase):
         if not self.is_valid:
             raise RuntimeError("Cannot update invalid polytope.")
 
-        return all(pol.update(X[:, idx], y[:, i]) for i, idx, pol in self.__valid_elements())
+        # update all subspaces, even if some of them become invalid
+        return all([pol.update(X[:, idx], y[:, i]) for i, idx, pol in self.__valid_elements()])
 
     def predict(self, X: np.ndarray) -> np.ndarray:
         val = 1.0 if self.is_all_valid else 0.5
-- 
2.43.0


From 47de06308f62479bbc73ba01e3ff97706646c56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:39 +0000
Subject: [PATCH 14/59] fix: multiset polytope missed the conflict of a
 negative point having only positive elements

---
 aideme/active_learning/dsm/polytope.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aideme/active_learning/dsm/polytope.py b/aideme/active_learning/dsm/polytope.py
index c00bc16..bcfbe3c 100644
--- a/aideme/active_learning/dsm/polytope.py
+++ b/aideme/active_learning/dsm/polytope.py
@@ -333,6 +333,9 @@ class MultiSetPolytope(PolytopeBase):
             return self.__update_positive_set(idx)
 
         idx -= self._pos_indexes
+        if not idx:  # all elements are positive, but the label is negative
+            return False
+
         if len(idx) == 1:
             return self.__update_negative_set(idx)
 
-- 
2.43.0


From 36ee538547bb8590aefc921b36a4bbe507061aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:39 +0000
Subject: [PATCH 15/59] fix: unpickled convex cone could take another vertex as
 its apex

---
 aideme/active_learning/dsm/convex/convex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/active_learning/dsm/convex/convex.py b/aideme/active_learning/dsm/convex/convex.py
index 27d437b..9a1e0c7 100644
--- a/aideme/active_learning/dsm/convex/convex.py
+++ b/aideme/active_learning/dsm/convex/convex.py
@@ -33,7 +33,7 @@ class ConvexHull:
         of "vertices" composing the convex hull.
         """
         return {
-            'vertices': self.vertices,
+            'vertices': self.hull.points[np.sort(self.hull.vertices)],  # keep original order, ConvexCone relies on it
             'tol': self.tol
         }
 
-- 
2.43.0


From a453952045a6bad9e1edb675972a02e87a27504a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:39 +0000
Subject: [PATCH 16/59] fix: point labeled both positive and negative was not
 detected as a conflict

---
 aideme/active_learning/dsm/convex/convex.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aideme/active_learning/dsm/convex/convex.py b/aideme/active_learning/dsm/convex/convex.py
index 9a1e0c7..82253cf 100644
--- a/aideme/active_learning/dsm/convex/convex.py
+++ b/aideme/active_learning/dsm/convex/convex.py
@@ -102,7 +102,9 @@ class ConvexCone:
     def __update_cone_equations(self):
         self.equations = self.convex_hull.equations_defining_vertex(0)
 
-        if len(self.equations) == 0:
+        is_vertex_repeated = np.any(np.all(self.convex_hull.hull.points[1:] == self.vertex, axis=1))
+
+        if len(self.equations) == 0 or is_vertex_repeated:
             raise ConvexError
 
     def is_inside(self, points):
-- 
2.43.0


From 8cb36e6dead8638b03226fe9fa042c43ee8822e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:39 +0000
Subject: [PATCH 17/59] fix: laplace approximation used the upper Cholesky
 factor as the lower one

---
 aideme/active_learning/version_space/bayesian/laplace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/active_learning/version_space/bayesian/laplace.py b/aideme/active_learning/version_space/bayesian/laplace.py
index 010c971..05f4d3b 100644
--- a/aideme/active_learning/version_space/bayesian/laplace.py
+++ b/aideme/active_learning/version_space/bayesian/laplace.py
@@ -92,7 +92,7 @@ class LaplaceBayesianLogisticRegressionBase:
         self._mean = self._compute_map_estimator(X, y)
 
         H = self._compute_hessian(X, self._mean)
-        self._L = cholesky(H)
+        self._L = cholesky(H, lower=True)
 
     def _compute_map_estimator(self, X, y):
         raise NotImplementedError
-- 
2.43.0


From 6ddcfc27dcaf5d527864e264a495c245bcd76cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:39 +0000
Subject: [PATCH 18/59] fix: rounding errors in the kernel decomposition
 produced NaN predictions

---
 aideme/active_learning/version_space/kernel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/active_learning/version_space/kernel.py b/aideme/active_learning/version_space/kernel.py
index f483650..9071621 100644
--- a/aideme/active_learning/version_space/kernel.py
+++ b/aideme/active_learning/version_space/kernel.py
@@ -70,7 +70,7 @@ class KernelBayesianLogisticRegression:
             scipy.linalg.solve_triangular(self.__L_train, K.T, lower=True, trans=0, overwrite_b=True)  # inplace L^-1 K
 
             delta = self.kernel.diagonal(X) - np.einsum('ir, ir -> i', K, K)
-            np.sqrt(delta, out=delta)
+            np.sqrt(np.maximum(delta, 0, out=delta), out=delta)  # delta >= 0, except for rounding errors
 
             K = np.c_[K, delta]  # TODO: how to avoid copying data?
 
-- 
2.43.0


From 263531f3b5067c2fa5bee632bf7c88f840db0b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:39 +0000
Subject: [PATCH 19/59] fix: query by disagreement failed once fewer points
 than the background sample remained

---
 aideme/active_learning/query_by_disagreement.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/aideme/active_learning/query_by_disagreement.py b/aideme/active_learning/query_by_disagreement.py
index f20f68b..e088f94 100644
--- a/aideme/active_learning/query_by_disagreement.py
+++ b/aideme/active_learning/query_by_disagreement.py
@@ -37,13 +37,14 @@ class QueryByDisagreement(ActiveLearner):
         background_points = data.unlabeled.sample(self._background_sample_size).data
         X_train = np.r_[X, background_points]
 
+        # there may be fewer unlabeled points than the background sample size
         sample_weights = np.ones(len(X_train))
-        sample_weights[-self._background_sample_size:] *= self._background_sample_weight
+        sample_weights[len(X):] *= self._background_sample_weight
 
-        y_train = np.r_[y, np.ones(self._background_sample_size)]
+        y_train = np.r_[y, np.ones(len(background_points))]
         self._positively_biased_learner.fit(X_train, y_train, sample_weights)
 
-        y_train[-self._background_sample_size:] = 0
+        y_train[len(X):] = 0
         self._negatively_biased_learner.fit(X_train, y_train, sample_weights)
 
     def predict(self, X: np.ndarray) -> np.ndarray:
-- 
2.43.0


From d7fc19e3190f6f23dbc4470b25761c9ab776b660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:08 +0000
Subject: [PATCH 20/59] fix: polytope silently dropped labeled points when a
 batch came before any positive point or had flat points

---
 aideme/active_learning/dsm/polytope.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/aideme/active_learning/dsm/polytope.py b/aideme/active_learning/dsm/polytope.py
index bcfbe3c..c3dbd22 100644
--- a/aideme/active_learning/dsm/polytope.py
+++ b/aideme/active_learning/dsm/polytope.py
@@ -88,22 +88,32 @@ class Polytope(PolytopeBase):
         except ConvexError:
             self.__is_valid = False
 
-        finally:
-            return self.__is_valid
+        return self.__is_valid
 
     def __update_positive(self, X: np.ndarray) -> None:
         if len(X) > 0:
-            self.positive_region.update(X)
+            self.__add_points(self.positive_region.update, X)
 
             for nr in self.negative_region:
-                nr.add_points_to_hull(X)
+                self.__add_points(nr.add_points_to_hull, X)
 
     def __update_negative(self, X: np.ndarray) -> None:
+        vertices = self.positive_region.vertices
+
         for x in X:
             cone = NegativeCone(x, self.positive_region._tol)
-            cone.add_points_to_hull(self.positive_region.vertices)
             self.negative_region.append(cone)
 
+            if vertices is not None:  # there may be no positive points so far
+                self.__add_points(cone.add_points_to_hull, vertices)
+
+    @staticmethod
+    def __add_points(add_points, X: np.ndarray) -> None:
+        try:
+            add_points(X)
+        except RuntimeError:  # QhullError: points are still contained in a hyperplane, so no region can be built yet
+            pass
+
 
 class FlippedPolytope(PolytopeBase):
     """
-- 
2.43.0


From 4ad42dc0b8e794bc0017e9438bcb996110ca7dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:21 +0000
Subject: [PATCH 21/59] fix: after a conflict, DSM kept training on labels
 opposite to the ones of its polytope model

---
 aideme/active_learning/dsm/base.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/aideme/active_learning/dsm/base.py b/aideme/active_learning/dsm/base.py
index 1379c0e..99516f8 100644
--- a/aideme/active_learning/dsm/base.py
+++ b/aideme/active_learning/dsm/base.py
@@ -67,10 +67,11 @@ class DualSpaceModelBase(ActiveLearner):
         if self._dsm_labeled_cache.is_empty:
             return
 
-        is_known = self.polytope_model.predict(self._dsm_labeled_cache.X) != 0.5
+        # keep only the labels which still agree with the polytope model
+        is_consistent = self.polytope_model.predict(self._dsm_labeled_cache.X) == self._dsm_labeled_cache.y
 
-        if not np.all(is_known):
-            self._dsm_labeled_cache.filter(is_known)
+        if not np.all(is_consistent):
+            self._dsm_labeled_cache.filter(is_consistent)
             self.__fit_active_learner(data)  # retrain AL since labeled changed
 
     def predict(self, X: np.ndarray) -> np.ndarray:
@@ -163,6 +164,13 @@ class TrainingSetCache:
         """
         return np.vstack(self._X)
 
+    @property
+    def y(self) -> np.ndarray:
+        """
+        :return: the training labels as numpy array
+        """
+        return np.asarray(self._y)
+
     def clear(self) -> None:
         """
         Empties the cache
-- 
2.43.0


From bf74906ce8cd32c389fc656ae8ed7450e3d122a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:43 +0000
Subject: [PATCH 22/59] fix: polytope models never saw the points labeled in
 all but the last initial sampling iteration

---
 aideme/active_learning/dsm/model.py                 | 9 ++++++++-
 aideme/active_learning/version_space/categorical.py | 6 +++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/aideme/active_learning/dsm/model.py b/aideme/active_learning/dsm/model.py
index b208314..8c73f7b 100644
--- a/aideme/active_learning/dsm/model.py
+++ b/aideme/active_learning/dsm/model.py
@@ -25,6 +25,7 @@ if TYPE_CHECKING:
 class PolytopeModelBase(PolytopeBase):
     def __init__(self, factorized: bool):
         self._factorized = factorized
+        self._is_first_update = True
 
     @staticmethod
     def get_polytope(mode: str, tol: float) -> PolytopeBase:
@@ -41,7 +42,11 @@ class PolytopeModelBase(PolytopeBase):
         raise ValueError('Unknown mode {0}. Available values are: {1}'.format(mode, ['categorical', 'multiset', 'negative', 'persist', 'positive']))
 
     def update_data(self, data: PartitionedDataset) -> bool:
-        X, y = data.last_training_set(get_partial=self._factorized)
+        # points labeled during the initial sampling phase are only seen at the first update
+        training_set = data.training_set if self._is_first_update else data.last_training_set
+        self._is_first_update = False
+
+        X, y = training_set(get_partial=self._factorized)
         return self.update(X, y)
 
 
@@ -56,6 +61,7 @@ class PolytopeModel(PolytopeModelBase):
 
     def clear(self) -> None:
         self._pol.clear()
+        self._is_first_update = True
 
     def predict(self, X: np.ndarray) -> np.ndarray:
         return self._pol.predict(X)
@@ -91,6 +97,7 @@ class FactorizedPolytopeModel(PolytopeModelBase):
     def clear(self) -> None:
         for pol in self.polytope_models:
             pol.clear()
+        self._is_first_update = True
 
     def update(self, X: np.ndarray, y: np.ndarray) -> bool:
         if not self.is_valid:
diff --git a/aideme/active_learning/version_space/categorical.py b/aideme/active_learning/version_space/categorical.py
index e54a5bc..125832d 100644
--- a/aideme/active_learning/version_space/categorical.py
+++ b/aideme/active_learning/version_space/categorical.py
@@ -23,19 +23,23 @@ class PolytopeLearner(ActiveLearner):
     """
     def __init__(self, pol):
         self.pol = pol
+        self.__is_first_fit = True
 
     def clear(self):
         """
         Clears polytope model
         """
         self.pol.clear()
+        self.__is_first_fit = True
 
     def fit_data(self, data):
         """
         Updates the polytope model with the last user labeled data.
         :param data: PartitionedDataset instance
         """
-        X_new, y_new = data.last_training_set()
+        # points labeled during the initial sampling phase are only seen at the first fit
+        X_new, y_new = data.training_set() if self.__is_first_fit else data.last_training_set()
+        self.__is_first_fit = False
         self.__update_polytope(X_new, y_new)
 
     def fit(self, X, y):
-- 
2.43.0


From 30001420dae55185a93458b997eec82a31efc0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:17 +0000
Subject: [PATCH 23/59] fix: copying (and so pruning) a linear factorization
 learner with a proximal optimizer failed

---
 aideme/active_learning/factorization/linear.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/aideme/active_learning/factorization/linear.py b/aideme/active_learning/factorization/linear.py
index 3b5694a..2508069 100644
--- a/aideme/active_learning/factorization/linear.py
+++ b/aideme/active_learning/factorization/linear.py
@@ -79,8 +79,7 @@ class LinearFactorizationLearner:
         return 0 if self._weights is None else self._weights.shape[0]
 
     def copy(self) -> LinearFactorizationLearner:
-        learner = LinearFactorizationLearner(optimizer=self.optimizer, add_bias=self.add_bias)
-        learner.penalty_term = self.penalty_term
+        learner = LinearFactorizationLearner(optimizer=self.optimizer, penalty_term=self.penalty_term, add_bias=self.add_bias)
 
         learner._weights = self.weights
         if self.add_bias:
-- 
2.43.0


From ee6a4e5b48a5f0f76b879fc5194d3a768f7faf6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:17 +0000
Subject: [PATCH 24/59] fix: pruning subspaces of a learner without bias failed

---
 aideme/active_learning/factorization/learn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aideme/active_learning/factorization/learn.py b/aideme/active_learning/factorization/learn.py
index 49f1073..962b0c7 100644
--- a/aideme/active_learning/factorization/learn.py
+++ b/aideme/active_learning/factorization/learn.py
@@ -38,7 +38,8 @@ def prune_irrelevant_subspaces(X: np.ndarray, learner: LinearFactorizationLearne
 
     pruned_learner = learner.copy()
     pruned_learner._weights = learner._weights[relevant_rows]
-    pruned_learner._bias = learner._bias[relevant_rows]
+    if learner.add_bias:
+        pruned_learner._bias = learner._bias[relevant_rows]
 
     return pruned_learner
 
-- 
2.43.0


From 37eae4698bab8a8ff3bc8ac9e911aa5dc7224c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:17 +0000
Subject: [PATCH 25/59] fix: factorization learners rejected integer labels

---
 aideme/active_learning/factorization/linear.py              | 2 +-
 aideme/active_learning/factorization/partitioning/linear.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aideme/active_learning/factorization/linear.py b/aideme/active_learning/factorization/linear.py
index 2508069..c6db437 100644
--- a/aideme/active_learning/factorization/linear.py
+++ b/aideme/active_learning/factorization/linear.py
@@ -159,7 +159,7 @@ class LinearFactorizationLoss:
     def __init__(self, X: np.ndarray, y: np.ndarray, add_bias: bool = True,
                  penalty_term: PenaltyTerm = None, factorization: Optional[List[List[int]]] = None):
         self.X = X
-        self.y = y
+        self.y = np.asarray(y, dtype='float')  # compiled loss function only accepts floats
         self.add_bias = add_bias
         self.penalty_term = penalty_term
         self.factorization = self.__compute_factorization_matrix(factorization)
diff --git a/aideme/active_learning/factorization/partitioning/linear.py b/aideme/active_learning/factorization/partitioning/linear.py
index 7bc7c8d..efa4c10 100644
--- a/aideme/active_learning/factorization/partitioning/linear.py
+++ b/aideme/active_learning/factorization/partitioning/linear.py
@@ -155,7 +155,7 @@ class FactorizedLinearLearner:
 class LinearLoss:
     def __init__(self, X: np.ndarray, y: np.ndarray, fact_clf: FactorizedLinearClassifier):
         self.X = X
-        self.y = y
+        self.y = np.asarray(y, dtype='float')  # compiled loss function only accepts floats
         self.fact_clf = fact_clf
         self.x0 = self.fact_clf.weights.copy()
 
-- 
2.43.0


From c094ba43770d07e292913978ac023906b8e24de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:17 +0000
Subject: [PATCH 26/59] fix: factorization was not reordered as the user's one
 for cyclic permutations of three or more subspaces

---
 aideme/active_learning/factorization/active_learning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/active_learning/factorization/active_learning.py b/aideme/active_learning/factorization/active_learning.py
index de71e14..91d803f 100644
--- a/aideme/active_learning/factorization/active_learning.py
+++ b/aideme/active_learning/factorization/active_learning.py
@@ -253,7 +253,7 @@ class FactorizationManager:
             if i not in mapping:  # subspace is not compatible with any user subspace
                 return False
 
-        self.fact_reindexing = [mapping[i] for i in range(len(mapping))]
+        self.fact_reindexing = [inv_mapping[j] for j in range(len(inv_mapping))]
 
         return True
 
-- 
2.43.0


From f94c17f4a0ba5087505dbb44951d46464bc89987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:17 +0000
Subject: [PATCH 27/59] fix: swap learner failed once its factorization was
 stable when the user factorization is not known

---
 aideme/active_learning/factorization/active_learning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/active_learning/factorization/active_learning.py b/aideme/active_learning/factorization/active_learning.py
index 91d803f..d373acb 100644
--- a/aideme/active_learning/factorization/active_learning.py
+++ b/aideme/active_learning/factorization/active_learning.py
@@ -237,7 +237,7 @@ class FactorizationManager:
         return self.__fact_count >= self._stable_count
 
     def __is_fact_compatible(self, factorization: List[List[int]]) -> bool:
-        if len(factorization) != len(self._user_fact):
+        if self._user_fact is None or len(factorization) != len(self._user_fact):
             return False
 
         mapping, inv_mapping = {}, {}
-- 
2.43.0


From 08d1b4d969505c5a3e4723470df156c515206d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:17 +0000
Subject: [PATCH 28/59] fix: group penalties divided into uninitialized memory
 for rows of zeros

---
 aideme/active_learning/factorization/penalty.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aideme/active_learning/factorization/penalty.py b/aideme/active_learning/factorization/penalty.py
index a2382d0..c7bb1df 100644
--- a/aideme/active_learning/factorization/penalty.py
+++ b/aideme/active_learning/factorization/penalty.py
@@ -89,20 +89,20 @@ class L2SqrtPenalty(PenaltyTerm):
         res = np.zeros_like(x)
         for g in self.groups:
             norm = np.linalg.norm(x[:, g], axis=1)
-            factor = np.true_divide(self._penalty, norm, where=norm > 0)
+            factor = np.true_divide(self._penalty, norm, out=np.zeros_like(norm), where=norm > 0)
             res[:, g] = x[:, g] * factor.reshape(-1, 1)
         return res
 
     def proximal(self, x: np.ndarray, eta: float) -> np.ndarray:
         norm = np.linalg.norm(x, axis=1)
-        factor = np.true_divide(self._penalty * eta, norm, where=norm > 0)  # avoid dividing by zero
+        factor = np.true_divide(self._penalty * eta, norm, out=np.zeros_like(norm), where=norm > 0)  # avoid dividing by zero
         factor = np.maximum(0, 1 - factor)
         return x * factor.reshape(-1, 1)
 
     def is_subgradient(self, v: np.ndarray, x: np.ndarray, tol: float) -> bool:
         norm = np.linalg.norm(x, axis=1).reshape(-1, 1)
         not_zero = (norm > 0)
-        n = np.true_divide(x, norm, where=not_zero)  # avoid dividing by zero
+        n = np.true_divide(x, norm, out=np.zeros_like(x), where=not_zero)  # avoid dividing by zero
         u = np.linalg.norm(v - self._penalty * n, axis=1)
         u[~not_zero.ravel()] -= self._penalty
         return np.all(u <= tol)
@@ -156,7 +156,7 @@ class SparseGroupLassoPenalty(PenaltyTerm):
         lamb1, lamb2 = self.l1_penalty._penalty, self.l2_sqrt_penalty._penalty
         norm = np.linalg.norm(x, axis=1)
         not_zero = (norm > 0)
-        n = v - lamb2 * np.true_divide(x, norm.reshape(-1, 1), where=not_zero.reshape(-1, 1))  # avoid dividing by zero
+        n = v - lamb2 * np.true_divide(x, norm.reshape(-1, 1), out=np.zeros_like(x), where=not_zero.reshape(-1, 1))  # avoid dividing by zero
         if not self.l1_penalty.is_subgradient(n[not_zero], x[not_zero], tol):
             return False
 
-- 
2.43.0


From 911f7996960ea0af09642db18f8073d711f2c3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:17 +0000
Subject: [PATCH 29/59] fix: proximal operator and sub-gradient test of group
 penalties ignored the groups

---
 .../active_learning/factorization/penalty.py  | 28 +++++++++++--------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/aideme/active_learning/factorization/penalty.py b/aideme/active_learning/factorization/penalty.py
index c7bb1df..ea2bb1e 100644
--- a/aideme/active_learning/factorization/penalty.py
+++ b/aideme/active_learning/factorization/penalty.py
@@ -94,18 +94,22 @@ class L2SqrtPenalty(PenaltyTerm):
         return res
 
     def proximal(self, x: np.ndarray, eta: float) -> np.ndarray:
-        norm = np.linalg.norm(x, axis=1)
-        factor = np.true_divide(self._penalty * eta, norm, out=np.zeros_like(norm), where=norm > 0)  # avoid dividing by zero
-        factor = np.maximum(0, 1 - factor)
-        return x * factor.reshape(-1, 1)
+        res = np.array(x, dtype='float')
+        for g in self.groups:
+            norm = np.linalg.norm(x[:, g], axis=1)
+            factor = np.true_divide(self._penalty * eta, norm, out=np.zeros_like(norm), where=norm > 0)  # avoid dividing by zero
+            factor = np.maximum(0, 1 - factor)
+            res[:, g] = x[:, g] * factor.reshape(-1, 1)
+        return res
 
     def is_subgradient(self, v: np.ndarray, x: np.ndarray, tol: float) -> bool:
-        norm = np.linalg.norm(x, axis=1).reshape(-1, 1)
-        not_zero = (norm > 0)
-        n = np.true_divide(x, norm, out=np.zeros_like(x), where=not_zero)  # avoid dividing by zero
-        u = np.linalg.norm(v - self._penalty * n, axis=1)
-        u[~not_zero.ravel()] -= self._penalty
-        return np.all(u <= tol)
+        u = v - self.grad(x)
+        for g in self.groups:
+            norm = np.linalg.norm(u[:, g], axis=1)
+            norm[~np.any(x[:, g], axis=1)] -= self._penalty
+            if np.any(norm > tol):
+                return False
+        return True
 
 
 class SparseGroupLassoPenalty(PenaltyTerm):
@@ -153,7 +157,7 @@ class SparseGroupLassoPenalty(PenaltyTerm):
         return self.l2_sqrt_penalty.proximal(self.l1_penalty.proximal(x, eta), eta)
 
     def is_subgradient(self, v: np.ndarray, x: np.ndarray, tol: float) -> bool:
-        lamb1, lamb2 = self.l1_penalty._penalty, self.l2_sqrt_penalty._penalty
+        lamb2 = self.l2_sqrt_penalty._penalty
         norm = np.linalg.norm(x, axis=1)
         not_zero = (norm > 0)
         n = v - lamb2 * np.true_divide(x, norm.reshape(-1, 1), out=np.zeros_like(x), where=not_zero.reshape(-1, 1))  # avoid dividing by zero
@@ -161,7 +165,7 @@ class SparseGroupLassoPenalty(PenaltyTerm):
             return False
 
         v = v[~not_zero]
-        return np.all(np.linalg.norm(v - np.clip(v, -lamb1, lamb1), axis=1) <= lamb2 + tol)
+        return np.all(np.linalg.norm(self.l1_penalty.proximal(v, 1), axis=1) <= lamb2 + tol)
 
 
 class L2Penalty(PenaltyTerm):
-- 
2.43.0


From 91b5f9d95536e15967cc6fd7f06538dca42d69c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:17 +0000
Subject: [PATCH 30/59] fix: three set metric was NaN once all points were
 known to be negative

---
 aideme/utils/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/utils/metrics.py b/aideme/utils/metrics.py
index 37030e7..a18bcc7 100644
--- a/aideme/utils/metrics.py
+++ b/aideme/utils/metrics.py
@@ -45,7 +45,7 @@ def three_set_metric(dataset: PartitionedDataset, active_learner: ActiveLearner)
 
     pos = (pred == 1).sum()
     unknown = (pred == 0.5).sum()
-    tsm = pos / (pos + unknown)
+    tsm = __true_divide(pos, pos + unknown)
 
     return {'tsm': tsm}
 
-- 
2.43.0


From e06ea92cb5ce04ba481f633f33d43628b736ec33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:41 +0000
Subject: [PATCH 31/59] fix: conjunctive inference used unhashable keys, so
 every update failed

---
 aideme/active_learning/inference/inference.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/aideme/active_learning/inference/inference.py b/aideme/active_learning/inference/inference.py
index fe9ec12..5d0bb02 100644
--- a/aideme/active_learning/inference/inference.py
+++ b/aideme/active_learning/inference/inference.py
@@ -31,7 +31,7 @@ class Inference:
 
     @property
     def is_valid(self) -> bool:
-        return all(s.is_valid for s in self._subspatial_inference)
+        return not any(s._pos_classes & s._neg_classes for s in self._subspatial_inference)
 
     def clear(self) -> None:
         for s in self._subspatial_inference:
@@ -43,10 +43,10 @@ class Inference:
         return self.predict_partial(X).min(axis=1)
 
     def predict_partial(self, X: np.ndarray) -> np.ndarray:
-        return np.hstack([subspace.predict(X[:, p]) for (p, subspace) in zip(self._subspatial_inference, self.partition)]).T
+        return np.array([self._predict_single(x) for x in X]).reshape(len(X), len(self.partition))
 
     def _predict_single(self, x: np.ndarray):
-        return [subspace._predict_single(x[p]) for (p, subspace) in zip(self._subspatial_inference, self.partition)]
+        return [subspace._predict_single(tuple(x[p])) for p, subspace in zip(self.partition, self._subspatial_inference)]
 
     def update(self, X: np.ndarray, y: np.ndarray) -> None:
         X = np.atleast_2d(X)
@@ -61,7 +61,7 @@ class Inference:
         # for positive points, we infer all partial labels as positive (conjunctive property)
         if y == 1:
             for p, subspace in zip(self.partition, self._subspatial_inference):
-                subspace._update_single(x[p], 1)
+                subspace._update_single(tuple(x[p]), 1)
 
             self.__attempt_to_remove_neg_samples()
 
@@ -109,7 +109,7 @@ class Inference:
         idx_unknown, n_unknown = -1, 0
 
         for i, (p, subspace) in enumerate(zip(self.partition, self._subspatial_inference)):
-            y_partial = subspace._predict_single(x[p])
+            y_partial = subspace._predict_single(tuple(x[p]))
 
             if y_partial == 0:
                 return True, True
@@ -120,7 +120,7 @@ class Inference:
 
         if n_unknown == 1:
             # a single unknown partition remains, so its partial label must be negative
-            self._subspatial_inference[idx_unknown]._update_single(x[self.partition[idx_unknown]], 0)
+            self._subspatial_inference[idx_unknown]._update_single(tuple(x[self.partition[idx_unknown]]), 0)
             return True, False
 
         if n_unknown == 0:
-- 
2.43.0


From e84beb11181bec55dd47fadf9a287333071298bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:02 +0000
Subject: [PATCH 32/59] fix: gradient of the factorization loss vanished for
 misclassified points with large margins

---
 aideme/active_learning/factorization/linear.py           | 9 +++++----
 .../active_learning/factorization/partitioning/linear.py | 4 +---
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/aideme/active_learning/factorization/linear.py b/aideme/active_learning/factorization/linear.py
index c6db437..61cdf60 100644
--- a/aideme/active_learning/factorization/linear.py
+++ b/aideme/active_learning/factorization/linear.py
@@ -265,14 +265,15 @@ class LinearFactorizationLoss:
         return grad_b, grad_w
 
     def __compute_grad_weights(self, margins: np.ndarray, y: np.ndarray):
-        probas = expit(margins)
+        log_probas = -np.logaddexp(0, -margins).sum(axis=1)
 
-        weights = probas.prod(axis=1)
-        np.true_divide(weights, 1 - weights, out=weights, where=weights < 1)
+        # avoid computing 1 - probability directly, since it is zero for all probabilities close to one
+        weights = np.exp(log_probas)
+        np.true_divide(weights, -np.expm1(log_probas), out=weights, where=log_probas < 0)
         weights[y > 0] = -1
         weights /= margins.shape[0]
 
-        return (1 - probas) * weights.reshape(-1, 1)
+        return expit(-margins) * weights.reshape(-1, 1)
 
     def get_weights_matrix(self, weights: np.ndarray) -> Tuple[np.ndarray, np.ndarray]:
         if self.factorization is None:
diff --git a/aideme/active_learning/factorization/partitioning/linear.py b/aideme/active_learning/factorization/partitioning/linear.py
index efa4c10..108a084 100644
--- a/aideme/active_learning/factorization/partitioning/linear.py
+++ b/aideme/active_learning/factorization/partitioning/linear.py
@@ -96,10 +96,8 @@ class FactorizedLinearClassifier:
         grads = np.ones((self.dim, len(X)))
 
         for begin, end, X_partial, w_partial in self.__generate_subspace_data(X, include_endpoints=True):
-            partial_proba = self._logistic_proba(X_partial, w_partial)
-
             grads[begin+1:end] = X_partial.T
-            grads[begin:end] *= (1 - partial_proba)
+            grads[begin:end] *= expit(-self._margin(X_partial, w_partial))  # 1 - partial probability
 
         return grads
 
-- 
2.43.0


From 5e57f9c1f81248bd02e2ee74e36e3917a189ac38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:14 +0000
Subject: [PATCH 33/59] fix: a first optimization ending with loss nan
 discarded all other retries

---
 aideme/active_learning/factorization/linear.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aideme/active_learning/factorization/linear.py b/aideme/active_learning/factorization/linear.py
index 61cdf60..bf23c79 100644
--- a/aideme/active_learning/factorization/linear.py
+++ b/aideme/active_learning/factorization/linear.py
@@ -119,10 +119,10 @@ class LinearFactorizationLearner:
 
         for starting_point in x0:
             result = self.optimizer.minimize(starting_point, loss.compute_loss, loss.compute_grad)
-            if result.fun < min_val or min_val == np.inf:
+            if result.fun < min_val or not min_val < np.inf:  # inf or nan
                 opt_result, min_val = result, result.fun
 
-        if min_val == np.inf:
+        if not min_val < np.inf:
             raise RuntimeError("Optimization failed:\n{}".format(opt_result))
 
         return opt_result
-- 
2.43.0


From 77735eb15535fb5036dc576a8b8af13b84145eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:05 +0000
Subject: [PATCH 34/59] fix: bias of a fitted linear factorization learner
 without bias was missing instead of zero

---
 aideme/active_learning/factorization/linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/active_learning/factorization/linear.py b/aideme/active_learning/factorization/linear.py
index bf23c79..8712feb 100644
--- a/aideme/active_learning/factorization/linear.py
+++ b/aideme/active_learning/factorization/linear.py
@@ -58,7 +58,7 @@ class LinearFactorizationLearner:
 
     @property
     def bias(self) -> Optional[np.ndarray]:
-        if self._bias is None:
+        if self._weights is None:
             return None
 
         return self._bias.copy() if self.add_bias else np.zeros(self._weights.shape[0])
-- 
2.43.0


From 87a0485df6533c9627ef6ce0cc11cf234694c70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:29 +0000
Subject: [PATCH 35/59] fix: refine_step_size of a swap learner changed the
 default step size of all later ones

---
 aideme/active_learning/factorization/active_learning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/active_learning/factorization/active_learning.py b/aideme/active_learning/factorization/active_learning.py
index d373acb..524a947 100644
--- a/aideme/active_learning/factorization/active_learning.py
+++ b/aideme/active_learning/factorization/active_learning.py
@@ -298,7 +298,7 @@ class SimplifiedSwapLearner(SwapLearner):
         else:
             params = self.REFINE_CARS if cars else self.REFINE_DEFAULT_PARAMS
         if refine_step_size:
-            params['step_size'] = refine_step_size
+            params = dict(params, step_size=refine_step_size)  # do not change default parameters
 
         refined_model_optimizer = self.get_optimizer(use_fista=use_fista, max_iter=refine_max_iter, **params)
         penalty_term = SparseGroupLassoPenalty(l1_penalty=l1_penalty, l2_sqrt_penalty=l2_sqrt_penalty, groups=one_hot_groups)
-- 
2.43.0


From a662192f5c8d86fb6f8d26c414a312376451f6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:10 +0000
Subject: [PATCH 36/59] fix: BFGS failed for the matrix of weights that
 factorization learners start from

---
 aideme/active_learning/factorization/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/active_learning/factorization/optimization.py b/aideme/active_learning/factorization/optimization.py
index e3eefc7..9070715 100644
--- a/aideme/active_learning/factorization/optimization.py
+++ b/aideme/active_learning/factorization/optimization.py
@@ -98,7 +98,7 @@ class OptimizationAlgorithm:
 class BFGS(OptimizationAlgorithm):
     def minimize(self, x0: np.ndarray, func: Callable, grad: Union[bool, Callable]) -> OptimizeResult:
         jac = lambda x: grad(x).ravel()
-        return minimize(func, x0, jac=jac, callback=self._callback, options={'gtol': self._gtol, 'maxiter': self._max_iter})
+        return minimize(func, x0.ravel(), jac=jac, callback=self._callback, options={'gtol': self._gtol, 'maxiter': self._max_iter})
 
 
 class SearchDirectionOptimizer(OptimizationAlgorithm):
-- 
2.43.0


From 2dc3209a9c2876adbec47330681c69429bd2b3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:36 +0000
Subject: [PATCH 37/59] fix: linear factorization learner could not be created
 with a proximal optimizer

---
 aideme/active_learning/factorization/linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/active_learning/factorization/linear.py b/aideme/active_learning/factorization/linear.py
index 8712feb..1fa9a6e 100644
--- a/aideme/active_learning/factorization/linear.py
+++ b/aideme/active_learning/factorization/linear.py
@@ -27,8 +27,8 @@ if TYPE_CHECKING:
 class LinearFactorizationLearner:
     def __init__(self, optimizer: OptimizationAlgorithm, penalty_term: Optional[PenaltyTerm] = None, add_bias: bool = True):
         self.optimizer = optimizer
-        self.penalty_term = self.__process_proximal_penalty(penalty_term, optimizer)
         self.add_bias = add_bias
+        self.penalty_term = self.__process_proximal_penalty(penalty_term, optimizer)
         self._weights = None
         self._bias = None
 
-- 
2.43.0


From 55313848a600f074c488402728896fe634c5035a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:37 +0000
Subject: [PATCH 38/59] fix: proximal optimizers disabled the gradient of their
 penalty, which their own convergence test needs

---
 aideme/active_learning/factorization/linear.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/aideme/active_learning/factorization/linear.py b/aideme/active_learning/factorization/linear.py
index 1fa9a6e..336b1d6 100644
--- a/aideme/active_learning/factorization/linear.py
+++ b/aideme/active_learning/factorization/linear.py
@@ -34,10 +34,8 @@ class LinearFactorizationLearner:
 
     def __process_proximal_penalty(self, penalty_term: PenaltyTerm, optimizer: OptimizationAlgorithm) -> PenaltyTerm:
         if isinstance(optimizer, ProximalGradientDescent):
-            # In the special case of ProximalGradientDescent algorithm, we must be careful to not mistakenly add
-            # the penalty gradient to the loss function gradient. Additionally, we must be careful to exclude the bias
-            # column from proximal function computations
-            penalty_term.grad = lambda x: 0
+            # In the special case of ProximalGradientDescent algorithm, we must be careful to exclude the bias column
+            # from proximal function computations
             optimizer.remove_bias_column = self.add_bias
             optimizer.penalty_term = penalty_term
 
@@ -128,7 +126,11 @@ class LinearFactorizationLearner:
         return opt_result
 
     def _get_loss(self, X: np.ndarray, y: np.ndarray, factorization: Optional[List[List[int]]] = None) -> LinearFactorizationLoss:
-        return LinearFactorizationLoss(X=X, y=y, add_bias=self.add_bias, penalty_term=self.penalty_term, factorization=factorization)
+        loss = LinearFactorizationLoss(X=X, y=y, add_bias=self.add_bias, penalty_term=self.penalty_term, factorization=factorization)
+        # ProximalGradientDescent takes care of the penalty itself, so its gradient must not be added to the loss function
+        # gradient. The penalty's own gradient function is still needed for its convergence criteria.
+        loss.add_penalty_grad = not isinstance(self.optimizer, ProximalGradientDescent)
+        return loss
 
     def predict(self, X: np.ndarray) -> np.ndarray:
         log_probas = utils.compute_log_probas(self._margin(X))
@@ -162,6 +164,7 @@ class LinearFactorizationLoss:
         self.y = np.asarray(y, dtype='float')  # compiled loss function only accepts floats
         self.add_bias = add_bias
         self.penalty_term = penalty_term
+        self.add_penalty_grad = True
         self.factorization = self.__compute_factorization_matrix(factorization)
         self._batch_size = None
         self._offsets = None
@@ -230,7 +233,7 @@ class LinearFactorizationLoss:
         grad_b, grad_w = self.__compute_grad(X, grad_weights)
 
         # add penalty terms
-        if self.penalty_term is not None:
+        if self.penalty_term is not None and self.add_penalty_grad:
             grad_w += self.penalty_term.grad(weights)
 
         # restrict weights to factorization selection
-- 
2.43.0


From d7eefc9776808d7faa93d30a7b5ae47616571103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:09 +0000
Subject: [PATCH 39/59] fix: factorizations of linear models without bias could
 not be computed

---
 aideme/active_learning/factorization/learn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aideme/active_learning/factorization/learn.py b/aideme/active_learning/factorization/learn.py
index 962b0c7..6e00acd 100644
--- a/aideme/active_learning/factorization/learn.py
+++ b/aideme/active_learning/factorization/learn.py
@@ -66,7 +66,7 @@ def compute_factorization_and_partial_labels(dataset: PartitionedDataset, linear
     # Step 1: refine the current FLM into a sparse model
     optimizer = FISTA(step_size=fista_step_size, **global_opt_params)
     penalty = SparseGroupLassoPenalty(l1_penalty=l1_penalty, l2_sqrt_penalty=l2_sqrt_penalty)
-    refining_model = LinearFactorizationLearner(optimizer, penalty)
+    refining_model = LinearFactorizationLearner(optimizer, penalty, add_bias=linear_model.add_bias)
     refining_model.fit(X, y, linear_model.num_subspaces, x0=linear_model.weight_matrix)
 
     # Step 2: prune irrelevant subspaces and attributes
@@ -76,7 +76,7 @@ def compute_factorization_and_partial_labels(dataset: PartitionedDataset, linear
     # Step 3: train a model with fixed irrelevant attributes removed (set irrelevant weights to zero)
     subspaces = [list(np.where(s)[0]) for s in relevant_attrs]
     optimizer = Adam(step_size=0.1, **global_opt_params)
-    sparse_model = LinearFactorizationLearner(optimizer=optimizer)
+    sparse_model = LinearFactorizationLearner(optimizer=optimizer, add_bias=linear_model.add_bias)
     sparse_model.fit(X, y, subspaces, x0=pruned.weight_matrix)
 
     # Step 4: compute factorization structure and partial labels
-- 
2.43.0


From f954cf6154e0eef1c190e99f32d0973b0b5eea49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:50 +0000
Subject: [PATCH 40/59] fix: factorized kernel features failed before fit and
 with few training points

---
 aideme/active_learning/kernel.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/aideme/active_learning/kernel.py b/aideme/active_learning/kernel.py
index 1905487..793be63 100644
--- a/aideme/active_learning/kernel.py
+++ b/aideme/active_learning/kernel.py
@@ -297,13 +297,7 @@ class FactorizedKernelTransform(KernelTransformer):
             transformer.fit(X[:, subspace])
 
     def transform(self, X: np.ndarray) -> np.ndarray:
-        K = np.empty((X.shape[0], self.n_components, len(self._factorization)))
-        for k, (transformer, subspace) in enumerate(zip(self._transformers, self._factorization)):
-            K[:, :, k] = transformer.transform(X[:, subspace])
-        return K
+        return np.stack([transformer.transform(X[:, subspace]) for transformer, subspace in zip(self._transformers, self._factorization)], axis=-1)
 
     def fit_transform(self, X: np.ndarray) -> np.ndarray:
-        K = np.empty((X.shape[0], self.n_components, len(self._factorization)))
-        for k, (transformer, subspace) in enumerate(zip(self._transformers, self._factorization)):
-            K[:, :, k] = transformer.fit_transform(X[:, subspace])
-        return K
+        return np.stack([transformer.fit_transform(X[:, subspace]) for transformer, subspace in zip(self._transformers, self._factorization)], axis=-1)
-- 
2.43.0


From f501ded54cd13b772575dbfe99f3c98b4babdd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:44 +0000
Subject: [PATCH 41/59] fix: ratio margin could not rank points, it asked an
 unfitted classifier for its classes

---
 aideme/active_learning/margin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aideme/active_learning/margin.py b/aideme/active_learning/margin.py
index a522958..215a4bb 100644
--- a/aideme/active_learning/margin.py
+++ b/aideme/active_learning/margin.py
@@ -74,8 +74,8 @@ class RatioMargin(SimpleMargin):
         return -np.array([self.__compute_margin_ratio(clf, x) for x in X])
 
     def __compute_margin_ratio(self, clf, x):
-        margin0 = self.__compute_margin(clf, x, clf.classes_[0])
-        margin1 = self.__compute_margin(clf, x, clf.classes_[1])
+        margin0 = self.__compute_margin(clf, x, self.clf.classes_[0])
+        margin1 = self.__compute_margin(clf, x, self.clf.classes_[1])
 
         if margin0 <= 0 or margin1 <= 0:
             return float('inf')
-- 
2.43.0


From 4b4e2a6a25007fc76f948a779c8e82c86fd1b0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:44 +0000
Subject: [PATCH 42/59] fix: ratio margin preferred points whose margin
 vanishes for one of the labels, e.g. copies of labeled points

---
 aideme/active_learning/margin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/active_learning/margin.py b/aideme/active_learning/margin.py
index 215a4bb..ca1cd0f 100644
--- a/aideme/active_learning/margin.py
+++ b/aideme/active_learning/margin.py
@@ -78,7 +78,7 @@ class RatioMargin(SimpleMargin):
         margin1 = self.__compute_margin(clf, x, self.clf.classes_[1])
 
         if margin0 <= 0 or margin1 <= 0:
-            return float('inf')
+            return 0.  # no separator for one of the labels: the point does not halve the version space
 
         return min(margin1 / margin0, margin0 / margin1)
 
-- 
2.43.0


From d4c089defe65196ec1169cb0f4e96a6630ad038c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:25 +0000
Subject: [PATCH 43/59] fix: stan sampler failed unless a directory for its
 compiled models already existed

---
 aideme/active_learning/version_space/bayesian/stan.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aideme/active_learning/version_space/bayesian/stan.py b/aideme/active_learning/version_space/bayesian/stan.py
index 10ee34a..15ba2a5 100644
--- a/aideme/active_learning/version_space/bayesian/stan.py
+++ b/aideme/active_learning/version_space/bayesian/stan.py
@@ -82,6 +82,7 @@ class StanLogisticRegressionSampler:
             return pickle.load(open(path_to_saved_model, 'rb'))
 
         model = StanModel(model_code=self.__parse_prior_options(prior))
+        os.makedirs(os.path.dirname(path_to_saved_model), exist_ok=True)
         pickle.dump(model, open(path_to_saved_model, 'wb'))
         return model
 
-- 
2.43.0


From 8a27690a1c08ebeb900d046e9c3b91d12ce42658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:40 +0000
Subject: [PATCH 44/59] fix: a crash while saving a compiled stan model left a
 truncated file, which made all later learners fail

---
 aideme/active_learning/version_space/bayesian/stan.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aideme/active_learning/version_space/bayesian/stan.py b/aideme/active_learning/version_space/bayesian/stan.py
index 15ba2a5..aa0e9c4 100644
--- a/aideme/active_learning/version_space/bayesian/stan.py
+++ b/aideme/active_learning/version_space/bayesian/stan.py
@@ -83,7 +83,10 @@ class StanLogisticRegressionSampler:
 
         model = StanModel(model_code=self.__parse_prior_options(prior))
         os.makedirs(os.path.dirname(path_to_saved_model), exist_ok=True)
-        pickle.dump(model, open(path_to_saved_model, 'wb'))
+        path_to_unfinished_model = '{}.{}'.format(path_to_saved_model, os.getpid())
+        with open(path_to_unfinished_model, 'wb') as file:
+            pickle.dump(model, file)
+        os.replace(path_to_unfinished_model, path_to_saved_model)
         return model
 
     def __parse_prior_options(self, prior: str):
-- 
2.43.0


From 6019916b9b6a7a4533a2a529220fdcdecf7c6611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:01 +0000
Subject: [PATCH 45/59] fix: swap learner could not hand over to a factorized
 DSM, which did not know numerical subspaces

---
 aideme/active_learning/dsm/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/active_learning/dsm/model.py b/aideme/active_learning/dsm/model.py
index 8c73f7b..21a7ffb 100644
--- a/aideme/active_learning/dsm/model.py
+++ b/aideme/active_learning/dsm/model.py
@@ -33,7 +33,7 @@ class PolytopeModelBase(PolytopeBase):
             return Polytope(tol)
         if mode == 'negative':
             return FlippedPolytope(tol)
-        if mode == 'persist':
+        if mode in ('persist', 'numerical'):  # any numerical subspace, e.g. one found by a factorization learner
             return PersistentPolytope(tol)
         if mode == 'categorical':
             return CategoricalPolytope()
-- 
2.43.0


From bdff41099f65747bc85f20b7ebf457d101787738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:25 +0000
Subject: [PATCH 46/59] fix: computing a factorization failed when no subspace
 of the model is relevant

---
 aideme/active_learning/factorization/learn.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aideme/active_learning/factorization/learn.py b/aideme/active_learning/factorization/learn.py
index 6e00acd..2d3840c 100644
--- a/aideme/active_learning/factorization/learn.py
+++ b/aideme/active_learning/factorization/learn.py
@@ -73,6 +73,9 @@ def compute_factorization_and_partial_labels(dataset: PartitionedDataset, linear
     pruned = prune_irrelevant_subspaces(dataset.data, refining_model)
     relevant_attrs = compute_relevant_attributes(pruned)
 
+    if len(relevant_attrs) == 0:  # no subspace is left
+        return [], np.empty((len(X), 0))
+
     # Step 3: train a model with fixed irrelevant attributes removed (set irrelevant weights to zero)
     subspaces = [list(np.where(s)[0]) for s in relevant_attrs]
     optimizer = Adam(step_size=0.1, **global_opt_params)
-- 
2.43.0


From 3e87b82e2acfc864f58d80a06652fe1444314955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:37 +0000
Subject: [PATCH 47/59] fix: swap learner failed once every subspace of its
 model had been pruned

---
 aideme/active_learning/factorization/active_learning.py | 6 +++++-
 aideme/active_learning/factorization/learn.py           | 3 +++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/aideme/active_learning/factorization/active_learning.py b/aideme/active_learning/factorization/active_learning.py
index 524a947..8fa645d 100644
--- a/aideme/active_learning/factorization/active_learning.py
+++ b/aideme/active_learning/factorization/active_learning.py
@@ -154,7 +154,11 @@ class SwapLearner(ActiveLearner):
         X, y = data.training_set()
         if self._max_iter_adapter is not None:
             self._refining_model.optimizer._max_iter = self._max_iter_adapter(self.__it - self._swap_iter - 1)
-        self._refining_model.fit(X, y, self._refining_model.num_subspaces, x0=self._refining_model.weight_matrix)
+
+        if self._refining_model.num_subspaces > 0:
+            self._refining_model.fit(X, y, self._refining_model.num_subspaces, x0=self._refining_model.weight_matrix)
+        else:  # every subspace was pruned, start again
+            self._refining_model.fit(X, y, self._num_subspaces, retries=self._retries)
 
         if self._prune:
             self._refining_model = prune_irrelevant_subspaces(data.data, self._refining_model, threshold=self._prune_threshold)
diff --git a/aideme/active_learning/factorization/learn.py b/aideme/active_learning/factorization/learn.py
index 2d3840c..48884ed 100644
--- a/aideme/active_learning/factorization/learn.py
+++ b/aideme/active_learning/factorization/learn.py
@@ -63,6 +63,9 @@ def compute_factorization_and_partial_labels(dataset: PartitionedDataset, linear
     global_opt_params = {'batch_size': None, 'adapt_step_size': False, 'max_iter': max_iter}
     X, y = dataset.training_set()
 
+    if linear_model.num_subspaces == 0:
+        return [], np.empty((len(X), 0))
+
     # Step 1: refine the current FLM into a sparse model
     optimizer = FISTA(step_size=fista_step_size, **global_opt_params)
     penalty = SparseGroupLassoPenalty(l1_penalty=l1_penalty, l2_sqrt_penalty=l2_sqrt_penalty)
-- 
2.43.0


From 97fd2edb62f3a751c90f0acca24fd0424b8c01ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:58 +0000
Subject: [PATCH 48/59] fix: settings which are not a number (nan) were
 accepted as valid

---
 aideme/utils/noise.py      | 2 +-
 aideme/utils/validation.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/aideme/utils/noise.py b/aideme/utils/noise.py
index 74bf30b..9713d4d 100644
--- a/aideme/utils/noise.py
+++ b/aideme/utils/noise.py
@@ -39,7 +39,7 @@ def random_noise_injector(noise: float, skip_initial: int = 0) -> NoiseInjector:
     :param skip_initial: number of initial iterations to skip the noise injection during exploration phase
     :return: a noise injector
     """
-    if noise < 0 or noise > 1:
+    if not 0 <= noise <= 1:
         raise ValueError("Noise must be between 0 and 1, but got {}".format(noise))
 
     def injector(iteration: int, labeled_set: LabeledSet) -> LabeledSet:
diff --git a/aideme/utils/validation.py b/aideme/utils/validation.py
index 7fa9b93..c99307d 100644
--- a/aideme/utils/validation.py
+++ b/aideme/utils/validation.py
@@ -14,7 +14,7 @@
 import math
 
 def assert_in_range(value, name, low, high):
-    if value < low or value > high:
+    if not low <= value <= high:  # also rejects nan
         raise ValueError("Expected {} < {} < {}, but got {}".format(low, name, high, value))
 
 def assert_positive(value, name, allow_inf=False, allow_none=False):
@@ -45,7 +45,7 @@ def __assert_non_negative(type, value, name, allow_inf=False, allow_none=False):
             raise ValueError("{} cannot be infinity.".format(name))
         return
 
-    if not isinstance(value, type) or value < 0:
+    if not isinstance(value, type) or not value >= 0:  # also rejects nan
         raise ValueError("'{}' must be a positive, got {}".format(name, value))
 
 def process_callback(callback):
-- 
2.43.0


From 0c1ced3b0465d4683c605bb11542a99d5ab0efb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:53 +0000
Subject: [PATCH 49/59] fix: factorized uncertainty sampler failed once every
 subspace of its model had been pruned

---
 aideme/active_learning/factorization/active_learning.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aideme/active_learning/factorization/active_learning.py b/aideme/active_learning/factorization/active_learning.py
index 8fa645d..398e3cd 100644
--- a/aideme/active_learning/factorization/active_learning.py
+++ b/aideme/active_learning/factorization/active_learning.py
@@ -381,6 +381,9 @@ class FLMUncertaintySampler(UncertaintySampler):
         x0 = self.clf.weight_matrix
         fact = self.num_subspaces if x0 is None else self.clf.num_subspaces
 
+        if fact == 0:  # every subspace was pruned, start again
+            x0, fact = None, self.num_subspaces
+
         if self.max_penalty > 0 and self.__it <= self.penalty_iter:
             penalty = self.max_penalty * (self.__it / self.penalty_iter)
             if self.log:
-- 
2.43.0


From de58f04372527167f866d5f67d978f1ffee7d04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:53 +0000
Subject: [PATCH 50/59] fix: interactive exploration reordered the rows of the
 caller's data

---
 aideme/explore/command_line_explore.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/explore/command_line_explore.py b/aideme/explore/command_line_explore.py
index 7717aa2..be2d680 100644
--- a/aideme/explore/command_line_explore.py
+++ b/aideme/explore/command_line_explore.py
@@ -48,7 +48,7 @@ class CommandLineExploration:
         self.convergence_criteria = process_callback(convergence_criteria)
 
     def run(self, X, active_learner: ActiveLearner) -> None:
-        data = PartitionedDataset(X, copy=False)
+        data = PartitionedDataset(X)
 
         manager = ExplorationManager(
             data, active_learner, self.subsampling, self.initial_sampler,
-- 
2.43.0


From 81279758cd7e6bf4d1bfec9e093769aca6c41dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:16 +0000
Subject: [PATCH 51/59] fix: dual space model never returned a point when
 training on the selected point did not change the selection

---
 aideme/active_learning/dsm/base.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/aideme/active_learning/dsm/base.py b/aideme/active_learning/dsm/base.py
index 99516f8..d677ba9 100644
--- a/aideme/active_learning/dsm/base.py
+++ b/aideme/active_learning/dsm/base.py
@@ -13,7 +13,7 @@
 from __future__ import annotations
 
 import warnings
-from typing import Optional, TYPE_CHECKING, Sequence, List, Tuple
+from typing import Optional, TYPE_CHECKING, Sequence, List, Set, Tuple
 
 import numpy as np
 
@@ -116,10 +116,18 @@ class DualSpaceModelBase(ActiveLearner):
         if not self.polytope_model.is_valid:
             return self.active_learner.next_points_to_label(data, subsample)
 
+        already_selected: Set = set()
+        is_repeated = False
+
         while data.unknown_size > 0:
-            sample = data.unknown.sample(subsample) if np.random.rand() < self.sample_unknown_proba else data.unlabeled.sample(subsample)
+            # training again on the same known points may never change the selection
+            sample_unknown = np.random.rand() < self.sample_unknown_proba or is_repeated
+            sample = data.unknown.sample(subsample) if sample_unknown else data.unlabeled.sample(subsample)
             selected = self.active_learner._select_next(sample)
 
+            is_repeated = already_selected.issuperset(selected.index)
+            already_selected.update(selected.index)
+
             pred = self.polytope_model.predict(selected.data)
             is_known = (pred != 0.5)
 
-- 
2.43.0


From 1ee6c943f0fcd57ce78fe21cf08137fd1de03af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:50 +0000
Subject: [PATCH 52/59] fix: interior point of a degenerate version space was
 returned due to rounding errors of the solver

---
 .../version_space/hit_and_run/polyhedral_cone.py             | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aideme/active_learning/version_space/hit_and_run/polyhedral_cone.py b/aideme/active_learning/version_space/hit_and_run/polyhedral_cone.py
index 39f9c2f..52007e1 100644
--- a/aideme/active_learning/version_space/hit_and_run/polyhedral_cone.py
+++ b/aideme/active_learning/version_space/hit_and_run/polyhedral_cone.py
@@ -73,6 +73,11 @@ class BoundedPolyhedralCone:
 
         # return normalized point
         point = res.x[1:]
+
+        # rounding errors of the solver may hide the degeneracy
+        if not self.is_inside_polytope(point):
+            raise RuntimeError("Linear programming failed! Check constrains for degeneracy of Version Space.")
+
         return (0.99 / np.linalg.norm(point)) * point
 
     def get_separating_oracle(self, point: np.ndarray) -> Optional[HyperPlane]:
-- 
2.43.0


From 688aabfcb60fb76ed5819262556ee3922333afe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:54 +0000
Subject: [PATCH 53/59] fix: loss 'SQUARED' of the subspatial version space, as
 documented, was not accepted

---
 aideme/active_learning/version_space/subspace.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aideme/active_learning/version_space/subspace.py b/aideme/active_learning/version_space/subspace.py
index 19fb8c8..62f2f80 100644
--- a/aideme/active_learning/version_space/subspace.py
+++ b/aideme/active_learning/version_space/subspace.py
@@ -266,6 +266,7 @@ class SubspatialVersionSpace(SubspaceLearner):
         return super()._get_function(loss, {
             'GREEDY': lambda ps: np.prod(1 - 2 * ps * (1 - ps), axis=0),
             'SQUARE': lambda ps: np.square(ps - 0.5).sum(axis=0),
+            'SQUARED': lambda ps: np.square(ps - 0.5).sum(axis=0),
             'PRODUCT': lambda ps: np.abs(ps.prod(axis=0) - 0.5),
         })
 
-- 
2.43.0


From 26cd3c47941a6b642e7c81c89bab9fc591ae54b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:31 +0000
Subject: [PATCH 54/59] fix: reject incompatible partial labels before moving
 any point to the labeled partition

---
 aideme/explore/partitioned.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aideme/explore/partitioned.py b/aideme/explore/partitioned.py
index 13378fd..5a66622 100644
--- a/aideme/explore/partitioned.py
+++ b/aideme/explore/partitioned.py
@@ -78,12 +78,13 @@ class PartitionedDataset:  # TODO: how can we add partition information? (factor
         :param labeled_set: LabeledSet instance containing the labels and indexes of points to be moved
         """
         indexes = self.__check_indexes(labeled_set.index, lambda pos: pos < self.__inferred_start, 'labeled')
+        all_labels = self.__labeled_set.concat(labeled_set)  # incompatible labels must be rejected before moving any points
 
         for idx in indexes:
             self.__move_left(self.__index_to_row[idx], to_labeled=True)
 
         self.__last_user_labeled_set = labeled_set
-        self.__labeled_set = self.__labeled_set.concat(labeled_set)
+        self.__labeled_set = all_labels
 
     def move_to_inferred(self, indexes: Iterable) -> None:
         """
-- 
2.43.0


From 69104f0f986353c16111c55db183cea897d24f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:51 +0000
Subject: [PATCH 55/59] fix: ellipsoid cuts in dimension one divided by zero

---
 .../version_space/hit_and_run/ellipsoid.py             | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/aideme/active_learning/version_space/hit_and_run/ellipsoid.py b/aideme/active_learning/version_space/hit_and_run/ellipsoid.py
index 84839e2..1b84147 100644
--- a/aideme/active_learning/version_space/hit_and_run/ellipsoid.py
+++ b/aideme/active_learning/version_space/hit_and_run/ellipsoid.py
@@ -76,6 +76,10 @@ class Ellipsoid:
         tau = (1 + self.dim * alpha) / (self.dim + 1)
         self.center -= tau * Pg
 
+        if self.dim == 1:  # formulas below are not defined for an interval: keep the part satisfying the hyperplane
+            self._scale_by(0.25 * (1 - alpha) * (1 - alpha))
+            return True
+
         # update LDL^T
         sigma = 2 * tau / (alpha + 1)
         delta = (1. - alpha * alpha) * ((self.dim * self.dim) / (self.dim * self.dim - 1.))
@@ -90,6 +94,12 @@ class Ellipsoid:
 
         return True
 
+    def _scale_by(self, factor: float) -> None:
+        self.D *= factor
+
+        if self.scale is not None:
+            self.scale *= factor
+
     def _update_diagonal(self, p: np.ndarray, sigma: float, delta: float) -> np.ndarray:
         t = np.empty(self.dim + 1)
         t[-1] = 1 - sigma * p.dot(p / self.D)
-- 
2.43.0


From b26f202745d99ee79782a16e55fbfc10e751e077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:51 +0000
Subject: [PATCH 56/59] fix: probabilities of scikit-learn classifiers were
 returned with one column per class

---
 aideme/active_learning/active_learner.py        | 12 ++++++++++++
 aideme/active_learning/query_by_disagreement.py |  4 ++--
 aideme/active_learning/random.py                |  4 ++--
 aideme/active_learning/uncertainty.py           |  4 ++--
 4 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/aideme/active_learning/active_learner.py b/aideme/active_learning/active_learner.py
index 8ad1243..c0a89f6 100644
--- a/aideme/active_learning/active_learner.py
+++ b/aideme/active_learning/active_learner.py
@@ -23,6 +23,18 @@ if TYPE_CHECKING:
     from aideme.explore.partitioned import IndexedDataset
 
 
+def positive_class_proba(clf, X: np.ndarray) -> np.ndarray:
+    """
+    :param clf: a trained classifier, either one giving the probability of being positive or a Scikit-learn one
+    :param X: data matrix
+    :return: probability of being positive for each data point x in X
+    """
+    probas = clf.predict_proba(X)
+
+    # scikit-learn classifiers return one column per class
+    return probas if np.ndim(probas) == 1 else probas @ (clf.classes_ == 1)
+
+
 class ActiveLearner:
     """
     Pool-based Active Learning base class. It performs two main tasks:
diff --git a/aideme/active_learning/query_by_disagreement.py b/aideme/active_learning/query_by_disagreement.py
index e088f94..d20ca35 100644
--- a/aideme/active_learning/query_by_disagreement.py
+++ b/aideme/active_learning/query_by_disagreement.py
@@ -13,7 +13,7 @@
 import numpy as np
 import sklearn
 
-from .active_learner import ActiveLearner
+from .active_learner import ActiveLearner, positive_class_proba
 from ..utils import assert_positive, assert_positive_integer
 
 
@@ -51,7 +51,7 @@ class QueryByDisagreement(ActiveLearner):
         return self._learner.predict(X)
 
     def predict_proba(self, X: np.ndarray) -> np.ndarray:
-        return self._learner.predict_proba(X)
+        return positive_class_proba(self._learner, X)
 
     def rank(self, X: np.ndarray) -> np.ndarray:
         """ Pick a random point for which the positively and negatively biased classifiers differ. """
diff --git a/aideme/active_learning/random.py b/aideme/active_learning/random.py
index 617d14f..b70031e 100644
--- a/aideme/active_learning/random.py
+++ b/aideme/active_learning/random.py
@@ -15,7 +15,7 @@ from __future__ import annotations
 from typing import TYPE_CHECKING
 
 from aideme.utils import assert_positive_integer
-from .active_learner import ActiveLearner
+from .active_learner import ActiveLearner, positive_class_proba
 
 if TYPE_CHECKING:
     import numpy as np
@@ -47,7 +47,7 @@ class RandomSampler(ActiveLearner):
         return self._clf.predict(X)
 
     def predict_proba(self, X: np.ndarray) -> np.ndarray:
-        return self._clf.predict_proba(X)
+        return positive_class_proba(self._clf, X)
 
     def _select_next(self, dataset: IndexedDataset) -> IndexedDataset:
         return dataset.sample(self._batch_size)
diff --git a/aideme/active_learning/uncertainty.py b/aideme/active_learning/uncertainty.py
index 633edaa..70ddf09 100644
--- a/aideme/active_learning/uncertainty.py
+++ b/aideme/active_learning/uncertainty.py
@@ -13,7 +13,7 @@
 
 import numpy as np
 
-from .active_learner import ActiveLearner
+from .active_learner import ActiveLearner, positive_class_proba
 
 
 class UncertaintySampler(ActiveLearner):
@@ -40,7 +40,7 @@ class UncertaintySampler(ActiveLearner):
         return self.clf.predict(X)
 
     def predict_proba(self, X):
-        return self.clf.predict_proba(X)
+        return positive_class_proba(self.clf, X)
 
     def rank(self, X):
         return np.abs(self.predict_proba(X) - 0.5)
-- 
2.43.0


From 827c3444f1ae87d0174c104bafe48145f664ea1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:13 +0000
Subject: [PATCH 57/59] fix: kernel version space with linear kernel failed for
 integer and single precision data

---
 aideme/active_learning/kernel.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/aideme/active_learning/kernel.py b/aideme/active_learning/kernel.py
index 793be63..ee2daf1 100644
--- a/aideme/active_learning/kernel.py
+++ b/aideme/active_learning/kernel.py
@@ -187,9 +187,12 @@ class IncrementedDiagonalKernel(Kernel):
         :param Y: a N x D matrix of data points. If None, we set Y = X
         :return: the M x N kernel matrix K_ij = k(X_i, Y_j)
         """
-        K = self._kernel(X, Y)
+        is_same = Y is None or Y is X
 
-        if Y is None or Y is X:
+        # integer and low precision data cannot hold the jitter
+        K = self._kernel(np.asarray(X, dtype=float), None if is_same else np.asarray(Y, dtype=float))
+
+        if is_same:
             K[np.diag_indices_from(K)] += self._jitter
 
         return K
@@ -201,7 +204,7 @@ class IncrementedDiagonalKernel(Kernel):
         :param X: a M x D matrix of data points
         :return: a M-dimensional array K_i = k(X_i, X_i) + jitter
         """
-        diag = self._kernel.diagonal(X)
+        diag = self._kernel.diagonal(np.asarray(X, dtype=float))
         diag += self._jitter
         return diag
 
-- 
2.43.0


From 1408d3fb3f43f565553fd60bc52e4a3aca7d0f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:32 +0000
Subject: [PATCH 58/59] fix: restore the number of iterations of the refining
 model when a SwapLearner is cleared

---
 aideme/active_learning/factorization/active_learning.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aideme/active_learning/factorization/active_learning.py b/aideme/active_learning/factorization/active_learning.py
index 398e3cd..ada63c5 100644
--- a/aideme/active_learning/factorization/active_learning.py
+++ b/aideme/active_learning/factorization/active_learning.py
@@ -65,8 +65,12 @@ class SwapLearner(ActiveLearner):
 
         self.__is_full_fact_phase = False
         self.__it = 0
+        self.__initial_max_iter = None if max_iter_adapter is None else self._refining_model.optimizer._max_iter
 
     def clear(self) -> None:
+        if self._max_iter_adapter is not None:  # this optimizer may also be the one of the swap model
+            self._refining_model.optimizer._max_iter = self.__initial_max_iter
+
         self._active_learner.clear()
         self._swap_model.clear()
         self._refining_model.clear()
-- 
2.43.0


From 9f8b51c0e398b97c4215554e2398747ecfbe9df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:42 +0000
Subject: [PATCH 59/59] fix: proximal optimizers work without a penalty term

---
 aideme/active_learning/factorization/optimization.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/aideme/active_learning/factorization/optimization.py b/aideme/active_learning/factorization/optimization.py
index 9070715..c63e27e 100644
--- a/aideme/active_learning/factorization/optimization.py
+++ b/aideme/active_learning/factorization/optimization.py
@@ -177,11 +177,17 @@ class ProximalGradientDescent(SearchDirectionOptimizer):
 
     def _proximal_step(self, x: np.ndarray, grad: np.ndarray, step: float) -> np.ndarray:
         next_x = x - step * grad
+        if self.penalty_term is None:
+            return next_x
+
         _, next_weights = self.__separate_bias(next_x)
         np.copyto(next_weights, self.penalty_term.proximal(next_weights, step))
         return next_x
 
     def _gradient_converged(self, result: OptimizeResult, tol: float) -> bool:
+        if self.penalty_term is None:
+            return np.linalg.norm(result.grad) <= tol
+
         grad_b, grad_w = self.__separate_bias(result.grad)
         _, w = self.__separate_bias(result.x)
         return np.linalg.norm(grad_b) <= tol and self.penalty_term.is_subgradient(-grad_w, w, tol)
-- 
2.43.0

