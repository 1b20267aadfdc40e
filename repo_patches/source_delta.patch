From d9083a2574de22a50ce2adbc7811eba78fe887d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:56 +0000
Subject: [PATCH 01/73] fix: give every edge direction its own feature in
 edge_list_to_features

With an 8-neighborhood there are four directions, but the two diagonals were
merged into the vertical one, so DirectionalGridCRF and
LatentDirectionalGridCRF with neighborhood=8 could not be used.
---
 pystruct/utils/graph.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pystruct/utils/graph.py b/pystruct/utils/graph.py
index affd1d5..d8e5198 100644
--- a/pystruct/utils/graph.py
+++ b/pystruct/utils/graph.py
@@ -21,7 +21,9 @@ def make_grid_edges(x, neighborhood=4, return_lists=False):
 
 def edge_list_to_features(edge_list):
     edges = np.vstack(edge_list)
-    edge_features = np.zeros((edges.shape[0], 2))
-    edge_features[:len(edge_list[0]), 0] = 1
-    edge_features[len(edge_list[0]):, 1] = 1
+    edge_features = np.zeros((edges.shape[0], len(edge_list)))
+    start = 0
+    for i, direction in enumerate(edge_list):
+        edge_features[start:start + len(direction), i] = 1
+        start += len(direction)
     return edge_features
-- 
2.43.0


From d7ed82b41d442463b66c4aeef586d337f87aa2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:57 +0000
Subject: [PATCH 02/73] fix: do not truncate (anti)symmetrized integer edge
 features in EdgeFeatureLatentNodeCRF

With integer edge features the pairwise accumulator was an integer array, so
halving in the (anti)symmetrization lost the fractional part.
---
 pystruct/models/latent_node_crf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/models/latent_node_crf.py b/pystruct/models/latent_node_crf.py
index 14cbd84..fa49d88 100644
--- a/pystruct/models/latent_node_crf.py
+++ b/pystruct/models/latent_node_crf.py
@@ -609,7 +609,7 @@ class EdgeFeatureLatentNodeCRF(LatentNodeCRF):
             pw = [np.outer(unary_marginals[edge[0]].T,
                            unary_marginals[edge[1]]).ravel()
                   for edge in edges]
-            pw = np.vstack(pw)
+            pw = np.vstack(pw).astype(np.float)
 
         pw = np.dot(edge_features.T, pw)
         for i in self.symmetric_edge_features:
-- 
2.43.0


From 0eedf27b3b28abccb058c20622a896245cb04f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:57 +0000
Subject: [PATCH 03/73] fix: MultiLabelClf.joint_feature with unsigned or
 boolean labels

2 * y - 1 wraps around for unsigned integers and boolean labels select
instead of index the pairwise indicator.
---
 pystruct/models/multilabel_svm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystruct/models/multilabel_svm.py b/pystruct/models/multilabel_svm.py
index ed305a8..d37362e 100644
--- a/pystruct/models/multilabel_svm.py
+++ b/pystruct/models/multilabel_svm.py
@@ -88,7 +88,8 @@ class MultiLabelClf(CRF):
             unary_marginals = np.repeat(x[np.newaxis, :], len(y_signs), axis=0)
             unary_marginals *= y_signs[:, np.newaxis]
         else:
-            # discrete y
+            # discrete y, possibly boolean or unsigned
+            y = np.asarray(y).astype(np.int)
             y_signs = 2 * y - 1
             unary_marginals = np.repeat(x[np.newaxis, :], len(y_signs), axis=0)
             unary_marginals *= y_signs[:, np.newaxis]
-- 
2.43.0


From 7bd5c88fdc691c6b556b759916ac980383b4093d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:14 +0000
Subject: [PATCH 04/73] fix: LatentDirectionalGridCRF ignored its neighborhood
 parameter

GridCRF's constructor reset it to 4, while the parameter count was that of 8.
---
 pystruct/models/latent_grid_crf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystruct/models/latent_grid_crf.py b/pystruct/models/latent_grid_crf.py
index ed312b1..41e8d52 100644
--- a/pystruct/models/latent_grid_crf.py
+++ b/pystruct/models/latent_grid_crf.py
@@ -66,7 +66,8 @@ class LatentDirectionalGridCRF(DirectionalGridCRF, LatentGridCRF):
         self.antisymmetric_edge_features = []
         self.n_edge_features = 2 if neighborhood == 4 else 4
         LatentGridCRF.__init__(self, n_labels, n_features, n_states_per_label,
-                               inference_method=inference_method)
+                               inference_method=inference_method,
+                               neighborhood=neighborhood)
 
     def _set_size_joint_feature(self):
         LatentGridCRF._set_size_joint_feature(self)
-- 
2.43.0


From 710086dd6769dab5dc029506ae65183d6eba7437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:56 +0000
Subject: [PATCH 05/73] fix: EdgeFeatureLatentNodeCRF.joint_feature on graphs
 without edges

---
 pystruct/models/latent_node_crf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystruct/models/latent_node_crf.py b/pystruct/models/latent_node_crf.py
index fa49d88..afbf3b3 100644
--- a/pystruct/models/latent_node_crf.py
+++ b/pystruct/models/latent_node_crf.py
@@ -609,7 +609,8 @@ class EdgeFeatureLatentNodeCRF(LatentNodeCRF):
             pw = [np.outer(unary_marginals[edge[0]].T,
                            unary_marginals[edge[1]]).ravel()
                   for edge in edges]
-            pw = np.vstack(pw).astype(np.float)
+            pw = np.array(pw, dtype=np.float).reshape(len(edges),
+                                                      self.n_states ** 2)
 
         pw = np.dot(edge_features.T, pw)
         for i in self.symmetric_edge_features:
-- 
2.43.0


From 6b71d8dda3c996ff471b96e1af23b404941ea3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:56 +0000
Subject: [PATCH 06/73] fix: EdgeFeatureGraphCRF.joint_feature with many states
 and 8 bit labels

n_states * y overflows for uint8 or int8 labels and more than 11 states.
---
 pystruct/models/edge_feature_graph_crf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystruct/models/edge_feature_graph_crf.py b/pystruct/models/edge_feature_graph_crf.py
index 72cd6d4..3ac245e 100644
--- a/pystruct/models/edge_feature_graph_crf.py
+++ b/pystruct/models/edge_feature_graph_crf.py
@@ -187,8 +187,9 @@ class EdgeFeatureGraphCRF(GraphCRF):
 
             ## pairwise
             pw = np.zeros((edges.shape[0], self.n_states ** 2))
+            # small label types overflow in the product
             class_pair_ind = (y[edges[:, 1]] + self.n_states *
-                              y[edges[:, 0]])
+                              y[edges[:, 0]].astype(np.int))
             pw[np.arange(len(edges)), class_pair_ind] = 1
 
         pw = np.dot(edge_features.T, pw)
-- 
2.43.0


From 1f45f1e1f64a39dde1af9ade2bbefd7d767439b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:12 +0000
Subject: [PATCH 07/73] fix: max-product inference on graphs without edges

is_chain broadcast an empty edge list against a two-node chain, so viterbi
read transition scores that do not exist, and is_forest ignored n_vertices
and failed on an empty edge list.
---
 pystruct/inference/maxprod.py     | 3 ++-
 pystruct/utils/graph_functions.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pystruct/inference/maxprod.py b/pystruct/inference/maxprod.py
index b08900e..ec1ac61 100644
--- a/pystruct/inference/maxprod.py
+++ b/pystruct/inference/maxprod.py
@@ -15,7 +15,8 @@ def edges_to_graph(edges, n_vertices=None):
 
 def is_chain(edges, n_vertices):
     """Check if edges specify a chain and are in order."""
-    return (np.all(edges[:, 0] == np.arange(0, n_vertices - 1))
+    return (len(edges) == n_vertices - 1
+            and np.all(edges[:, 0] == np.arange(0, n_vertices - 1))
             and np.all(edges[:, 1] == np.arange(1, n_vertices)))
 
 
diff --git a/pystruct/utils/graph_functions.py b/pystruct/utils/graph_functions.py
index c7004c2..fba1051 100644
--- a/pystruct/utils/graph_functions.py
+++ b/pystruct/utils/graph_functions.py
@@ -4,7 +4,8 @@ import numpy as np
 def is_forest(edges, n_vertices=None):
     if n_vertices is not None and len(edges) > n_vertices - 1:
         return False
-    n_vertices = np.max(edges) + 1
+    if n_vertices is None:
+        n_vertices = np.max(edges) + 1 if len(edges) else 0
     parents = -np.ones(n_vertices)
     visited = np.zeros(n_vertices, dtype=np.bool)
     neighbors = [[] for i in range(n_vertices)]
-- 
2.43.0


From e173de219b9cf08b36e1651f265eabf72442d5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:12 +0000
Subject: [PATCH 08/73] fix: tree max-product returns an optimal labeling in
 case of ties

Labels were picked independently from the max-marginals of each node, which
combines parts of different optima when several labelings tie.
---
 pystruct/inference/maxprod.py | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/pystruct/inference/maxprod.py b/pystruct/inference/maxprod.py
index ec1ac61..eca80ed 100644
--- a/pystruct/inference/maxprod.py
+++ b/pystruct/inference/maxprod.py
@@ -75,7 +75,6 @@ def tree_max_product(unary_potentials, pairwise_potentials, edges):
         neighbors[edge[1]].append(edge[0])
         pairwise_weights[edge[1]].append(pw.T)
 
-    messages_forward = np.zeros((n_vertices, n_states))
     messages_backward = np.zeros((n_vertices, n_states))
     pw_forward = np.zeros((n_vertices, n_states, n_states))
     # build a breadth first search of the tree
@@ -110,20 +109,16 @@ def tree_max_product(unary_potentials, pairwise_potentials, edges):
                              pw_forward[node], axis=1)
             message -= message.max()
             messages_backward[parent] += message
-    # messages from root back to leaves
+    # decode from the root to the leaves, conditioning on the label of the parent.
+    # maximizing the max-marginals of each node independently would combine
+    # different solutions in case of ties.
+    y = np.zeros(n_vertices, dtype=np.int)
     for node in traversal:
-        parent = parents[node]
-        if parent != -1:
-            message = messages_forward[parent] + unary_potentials[parent] + pw_forward[node].T
-            # leaves to root messages from other children
-            message += messages_backward[parent] - np.max(messages_backward[node]
-                                                          + unary_potentials[node]
-                                                          + pw_forward[node], axis=1)
-            message = message.max(axis=1)
-            message -= message.max()
-            messages_forward[node] += message
-
-    return np.argmax(unary_potentials + messages_forward + messages_backward, axis=1)
+        max_marginal = unary_potentials[node] + messages_backward[node]
+        if parents[node] != -1:
+            max_marginal = max_marginal + pw_forward[node][y[parents[node]]]
+        y[node] = np.argmax(max_marginal)
+    return y
 
 
 def iterative_max_product(unary_potentials, pairwise_potentials, edges,
-- 
2.43.0


From 7e2beaffcfccaccc6691bd9c37d3049572511e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:22 +0000
Subject: [PATCH 09/73] fix: return the energy from max-product, unary and qpbo
 inference if requested

return_energy was ignored, so GridCRF.inference(..., return_energy=True)
failed on unpacking and GraphCRF silently returned only the labeling.
---
 pystruct/inference/inference_methods.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/pystruct/inference/inference_methods.py b/pystruct/inference/inference_methods.py
index 1b85793..9b2c4c5 100644
--- a/pystruct/inference/inference_methods.py
+++ b/pystruct/inference/inference_methods.py
@@ -2,7 +2,7 @@ import numpy as np
 
 from .linear_programming import lp_general_graph
 from .maxprod import inference_max_product
-from .common import _validate_params
+from .common import _validate_params, compute_energy
 
 def get_installed(method_filter=None):
     if method_filter is None:
@@ -97,8 +97,8 @@ def inference_dispatch(unary_potentials, pairwise_potentials, edges,
         kwargs = kwargs.copy()
         kwargs.update(additional_kwargs)
     if inference_method == "qpbo":
-        return inference_qpbo(unary_potentials, pairwise_potentials, edges,
-                              **kwargs)
+        y = inference_qpbo(unary_potentials, pairwise_potentials, edges,
+                           **kwargs)
     elif inference_method == "lp":
         return inference_lp(unary_potentials, pairwise_potentials, edges,
                             return_energy=return_energy, **kwargs)
@@ -112,14 +112,20 @@ def inference_dispatch(unary_potentials, pairwise_potentials, edges,
         return inference_ogm(unary_potentials, pairwise_potentials, edges,
                              return_energy=return_energy, **kwargs)
     elif inference_method == "unary":
-        return inference_unaries(unary_potentials, pairwise_potentials, edges,
-                                 **kwargs)
+        y = inference_unaries(unary_potentials, pairwise_potentials, edges,
+                              **kwargs)
     elif inference_method == "max-product":
-        return inference_max_product(unary_potentials, pairwise_potentials,
-                                     edges, **kwargs)
+        y = inference_max_product(unary_potentials, pairwise_potentials,
+                                  edges, **kwargs)
     else:
         raise ValueError("inference_method must be 'max-product', 'lp', 'ad3',"
                          " 'qpbo' or 'ogm', got %s" % inference_method)
+    # these methods only compute a labeling
+    if return_energy:
+        n_states = unary_potentials.shape[-1]
+        return y, -compute_energy(unary_potentials.reshape(-1, n_states),
+                                  pairwise_potentials, edges, y.ravel())
+    return y
 
 
 def inference_ogm(unary_potentials, pairwise_potentials, edges,
-- 
2.43.0


From 753274f4c7ddaebd02779ac34a7e8a6fae6da555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:13 +0000
Subject: [PATCH 10/73] fix: latent models keep hidden and visible states apart
 for any weights

---
 pystruct/inference/common.py        | 15 +++++++++++++
 pystruct/models/latent_graph_crf.py |  8 +++++--
 pystruct/models/latent_node_crf.py  | 35 ++++++++++++++++++++++-------
 3 files changed, 48 insertions(+), 10 deletions(-)

diff --git a/pystruct/inference/common.py b/pystruct/inference/common.py
index a43c2a4..0c67b77 100644
--- a/pystruct/inference/common.py
+++ b/pystruct/inference/common.py
@@ -49,3 +49,18 @@ def compute_energy(unary_potentials, pairwise_potentials, edges, labels):
     for edge, pw in zip(edges, pairwise_potentials):
         energy += pw[labels[edge[0]], labels[edge[1]]]
     return energy
+
+
+def interaction_range(pairwise_potentials, edges, n_nodes):
+    """Most that changing the label of a single node can change the pairwise
+    energy.
+
+    Unary potentials that differ by more than this decide the label of a node
+    no matter what the interactions are.
+    """
+    if len(edges) == 0:
+        return 0.
+    n_states = pairwise_potentials.shape[-1]
+    ranges = np.ptp(pairwise_potentials.reshape(-1, n_states ** 2), axis=1)
+    ranges = np.repeat(np.ones(len(edges)) * ranges, 2)
+    return np.max(np.bincount(np.ravel(edges), ranges, minlength=n_nodes))
diff --git a/pystruct/models/latent_graph_crf.py b/pystruct/models/latent_graph_crf.py
index c77e5b6..4de9911 100644
--- a/pystruct/models/latent_graph_crf.py
+++ b/pystruct/models/latent_graph_crf.py
@@ -7,6 +7,7 @@ from sklearn.cluster import KMeans
 
 from . import GraphCRF
 from ..inference import inference_dispatch
+from ..inference.common import interaction_range
 
 
 def kmeans_init(X, Y, all_edges, n_labels, n_states_per_label,
@@ -174,10 +175,13 @@ class LatentGraphCRF(GraphCRF):
         # forbid h that is incompoatible with y
         # by modifying unary params
         other_states = self._states_map != y[:, np.newaxis]
-        max_entry = np.maximum(np.max(unary_potentials), 1)
-        unary_potentials[other_states] = -1e2 * max_entry
         pairwise_potentials = self._get_pairwise_potentials(x, w)
         edges = self._get_edges(x)
+        max_entry = np.maximum(np.max(unary_potentials), 1)
+        max_change = interaction_range(pairwise_potentials, edges,
+                                       len(unary_potentials))
+        unary_potentials[other_states] = np.minimum(
+            -1e2 * max_entry, np.min(unary_potentials) - 2 * max_change)
         h = inference_dispatch(unary_potentials, pairwise_potentials, edges,
                                self.inference_method, relaxed=False)
         if (self.label_from_latent(h) != y).any():
diff --git a/pystruct/models/latent_node_crf.py b/pystruct/models/latent_node_crf.py
index afbf3b3..b9feab0 100644
--- a/pystruct/models/latent_node_crf.py
+++ b/pystruct/models/latent_node_crf.py
@@ -15,6 +15,7 @@ from sklearn.cluster import KMeans
 
 from . import GraphCRF
 from ..inference import inference_dispatch
+from ..inference.common import interaction_range
 from ..utils import expand_sym, compress_sym
 
 
@@ -204,10 +205,16 @@ class LatentNodeCRF(GraphCRF):
             # paste observed into large matrix
             unaries[:n_visible, :self.n_labels] = unaries_observed
         # forbid latent states for observable nodes
+        # even if the allowed ones are bad and interactions are strong
         max_entry = np.maximum(np.max(unaries), 1)
-        unaries[:n_visible, self.n_labels:] = -1e2 * max_entry
+        max_change = interaction_range(self._get_pairwise_potentials(x, w),
+                                       self._get_edges(x), len(unaries))
+        max_change += np.max(self.class_weight)
+        forbidden = np.minimum(-1e2 * max_entry,
+                               np.min(unaries) - 2 * max_change)
+        unaries[:n_visible, self.n_labels:] = forbidden
         # forbid observed states for latent nodes
-        unaries[n_visible:, :self.n_labels] = -1e2 * max_entry
+        unaries[n_visible:, :self.n_labels] = forbidden
         return unaries
 
     def loss_augmented_inference(self, x, h, w, relaxed=False,
@@ -232,10 +239,13 @@ class LatentNodeCRF(GraphCRF):
     def latent(self, x, y, w):
         unary_potentials = self._get_unary_potentials(x, w)
         # clamp observed nodes by modifying unary potentials
-        max_entry = np.maximum(np.max(unary_potentials), 1)
-        unary_potentials[np.arange(len(y)), y] = 1e2 * max_entry
         pairwise_potentials = self._get_pairwise_potentials(x, w)
         edges = self._get_edges(x)
+        max_entry = np.maximum(np.max(unary_potentials), 1)
+        max_change = interaction_range(pairwise_potentials, edges,
+                                       len(unary_potentials))
+        unary_potentials[np.arange(len(y)), y] = (1e2 * max_entry
+                                                  + 2 * max_change)
         h = inference_dispatch(unary_potentials, pairwise_potentials, edges,
                                self.inference_method, relaxed=False)
         if (h[:len(y)] != y).any():
@@ -504,10 +514,16 @@ class EdgeFeatureLatentNodeCRF(LatentNodeCRF):
             # paste observed into large matrix
             unaries[:n_visible, :self.n_labels] = unaries_observed
         # forbid latent states for observable nodes
+        # even if the allowed ones are bad and interactions are strong
         max_entry = np.maximum(np.max(unaries), 1)
-        unaries[:n_visible, self.n_labels:] = -1e2 * max_entry
+        max_change = interaction_range(self._get_pairwise_potentials(x, w),
+                                       self._get_edges(x), len(unaries))
+        max_change += np.max(self.class_weight)
+        forbidden = np.minimum(-1e2 * max_entry,
+                               np.min(unaries) - 2 * max_change)
+        unaries[:n_visible, self.n_labels:] = forbidden
         # forbid observed states for latent nodes
-        unaries[n_visible:, :self.n_labels] = -1e2 * max_entry
+        unaries[n_visible:, :self.n_labels] = forbidden
         return unaries
 
     def loss_augmented_inference(self, x, h, w, relaxed=False,
@@ -532,10 +548,13 @@ class EdgeFeatureLatentNodeCRF(LatentNodeCRF):
     def latent(self, x, y, w):
         unary_potentials = self._get_unary_potentials(x, w)
         # clamp observed nodes by modifying unary potentials
-        max_entry = np.maximum(np.max(unary_potentials), 1)
-        unary_potentials[np.arange(len(y)), y] = 1e2 * max_entry
         pairwise_potentials = self._get_pairwise_potentials(x, w)
         edges = self._get_edges(x)
+        max_entry = np.maximum(np.max(unary_potentials), 1)
+        max_change = interaction_range(pairwise_potentials, edges,
+                                       len(unary_potentials))
+        unary_potentials[np.arange(len(y)), y] = (1e2 * max_entry
+                                                  + 2 * max_change)
         h = inference_dispatch(unary_potentials, pairwise_potentials, edges,
                                self.inference_method, relaxed=False)
         if (h[:len(y)] != y).any():
-- 
2.43.0


From 616259beeaa3835e05d41dee3d84cf7c49c0dcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:53 +0000
Subject: [PATCH 11/73] fix: BinaryClf loss-augmented inference returned label
 0 on ties

---
 pystruct/models/unstructured_svm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystruct/models/unstructured_svm.py b/pystruct/models/unstructured_svm.py
index d3c1451..5b44f45 100644
--- a/pystruct/models/unstructured_svm.py
+++ b/pystruct/models/unstructured_svm.py
@@ -121,10 +121,10 @@ class BinaryClf(StructuredModel):
             Label with highest sum of loss and score.
         """
         self.inference_calls += 1
-        return np.sign(np.dot(x, w) - y)
+        return 2 * (np.dot(x, w) >= y) - 1
 
     def batch_loss_augmented_inference(self, X, Y, w, relaxed=None):
-        return np.sign(np.dot(X, w) - Y)
+        return 2 * (np.dot(X, w) >= Y) - 1
 
     def batch_loss(self, Y, Y_hat):
         return Y != Y_hat
-- 
2.43.0


From d8448402a5581eebe00d5ce3c9d5af5e4e0f6d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:53 +0000
Subject: [PATCH 12/73] fix: integer class weights broke loss-augmented
 inference

---
 pystruct/models/base.py      | 2 +-
 pystruct/models/typed_crf.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystruct/models/base.py b/pystruct/models/base.py
index 8e3fa44..7c8ffd4 100644
--- a/pystruct/models/base.py
+++ b/pystruct/models/base.py
@@ -112,7 +112,7 @@ class StructuredModel(object):
             if len(self.class_weight) != n_things:
                 raise ValueError("class_weight must have length n_states or"
                                  " be None")
-            self.class_weight = np.array(self.class_weight)
+            self.class_weight = np.array(self.class_weight, dtype=float)
             self.uniform_class_weight = False
         else:
             self.class_weight = np.ones(n_things)
diff --git a/pystruct/models/typed_crf.py b/pystruct/models/typed_crf.py
index 1c0d940..8c37726 100644
--- a/pystruct/models/typed_crf.py
+++ b/pystruct/models/typed_crf.py
@@ -86,7 +86,7 @@ class TypedCRF(CRF):
                                      " per node type. Wrong for type %d" % i)
 
             # class weights are computed by type and simply concatenated
-            self.l_class_weight = [np.asarray(class_weight)
+            self.l_class_weight = [np.array(class_weight, dtype=float)
                                    for class_weight in l_class_weight]
         else:
             self.l_class_weight = [np.ones(n) for n in self.l_n_states]
-- 
2.43.0


From bcb76a7a0a78397e5d98c647bd3d75a99c74089f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:53 +0000
Subject: [PATCH 13/73] fix: MultiLabelClf with a single label, or n_features
 but no n_labels given

---
 pystruct/models/multilabel_svm.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pystruct/models/multilabel_svm.py b/pystruct/models/multilabel_svm.py
index d37362e..54d561b 100644
--- a/pystruct/models/multilabel_svm.py
+++ b/pystruct/models/multilabel_svm.py
@@ -42,12 +42,17 @@ class MultiLabelClf(CRF):
 
     def _set_size_joint_feature(self):
         # try to set the size of joint_feature if possible
-        if self.n_features is not None and self.n_states is not None:
+        if self.n_features is not None and self.n_labels is not None:
             if self.edges is None:
                 self.edges = np.zeros(shape=(0, 2), dtype=np.int)
             self.size_joint_feature = (self.n_features * self.n_labels + 4 *
                                        self.edges.shape[0])
 
+    def _set_class_weight(self):
+        # each label is either absent or present, both weighted equally
+        self.class_weight = np.ones(self.n_states)
+        self.uniform_class_weight = True
+
     def initialize(self, X, Y):
         n_features = X.shape[1]
         if self.n_features is None:
-- 
2.43.0


From a80039199465981d5cddbed60404c9c161cb4ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:53 +0000
Subject: [PATCH 14/73] fix: LatentGraphCRF.max_loss of latent states

---
 pystruct/models/latent_graph_crf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pystruct/models/latent_graph_crf.py b/pystruct/models/latent_graph_crf.py
index 4de9911..7aec235 100644
--- a/pystruct/models/latent_graph_crf.py
+++ b/pystruct/models/latent_graph_crf.py
@@ -204,6 +204,10 @@ class LatentGraphCRF(GraphCRF):
         y_org = self.label_from_latent(y)
         return GraphCRF.continuous_loss(self, y_org, y_hat_org)
 
+    def max_loss(self, h):
+        # h may be latent states or labels, and all labels weigh the same
+        return h.size
+
     def base_loss(self, y, y_hat):
         if isinstance(y_hat, tuple):
             return GraphCRF.continuous_loss(self, y, y_hat)
-- 
2.43.0


From 4f0ec9b5b253f578d262d92f84fd84d3ac37805b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:54 +0000
Subject: [PATCH 15/73] fix: SubgradientLatentSSVM.score compared labels with
 latent states

---
 pystruct/learners/subgradient_latent_ssvm.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pystruct/learners/subgradient_latent_ssvm.py b/pystruct/learners/subgradient_latent_ssvm.py
index 1522e76..5fb522b 100644
--- a/pystruct/learners/subgradient_latent_ssvm.py
+++ b/pystruct/learners/subgradient_latent_ssvm.py
@@ -262,12 +262,8 @@ class SubgradientLatentSSVM(SubgradientSSVM):
         score : float
             Average of 1 - loss over training examples.
         """
-        if hasattr(self.model, 'batch_loss'):
-            losses = self.model.batch_loss(
-                Y, self.model.batch_inference(X, self.w))
-        else:
-            losses = [self.model.loss(y, self.model.inference(y, self.w))
-                      for y, y_pred in zip(Y, self.predict(X))]
+        losses = [self.model.base_loss(y, y_pred)
+                  for y, y_pred in zip(Y, self.predict(X))]
         max_losses = [self.model.max_loss(y) for y in Y]
         return 1. - np.sum(losses) / float(np.sum(max_losses))
 
-- 
2.43.0


From c0fd7bcbb5b08827c575db1a004f0d0207394c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:54 +0000
Subject: [PATCH 16/73] fix: find_constraint_latent mixed up labels and latent
 states in the loss

---
 pystruct/utils/inference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/utils/inference.py b/pystruct/utils/inference.py
index 9265d99..f30eee5 100644
--- a/pystruct/utils/inference.py
+++ b/pystruct/utils/inference.py
@@ -95,7 +95,7 @@ def find_constraint_latent(model, x, y, w, relaxed=True):
     joint_feature = model.joint_feature
     delta_joint_feature = joint_feature(x, h) - joint_feature(x, h_hat)
 
-    loss = model.loss(y, h_hat)
+    loss = model.loss(h, h_hat)
     slack = max(loss - np.dot(w, delta_joint_feature), 0)
     return h_hat, delta_joint_feature, slack, loss
 
-- 
2.43.0


From 3c1957ea7222622141454c8a8365c4ee569336f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:54 +0000
Subject: [PATCH 17/73] fix: SubgradientLatentSSVM with n_jobs > 1 used a
 misspelled attribute

---
 pystruct/learners/subgradient_latent_ssvm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/learners/subgradient_latent_ssvm.py b/pystruct/learners/subgradient_latent_ssvm.py
index 5fb522b..d8a09f0 100644
--- a/pystruct/learners/subgradient_latent_ssvm.py
+++ b/pystruct/learners/subgradient_latent_ssvm.py
@@ -176,7 +176,7 @@ class SubgradientLatentSSVM(SubgradientSSVM):
                     if self.n_jobs == -1:
                         n_jobs = cpu_count()
                     else:
-                        n_jobs = self.j_jobs
+                        n_jobs = self.n_jobs
 
                     n_batches = int(np.ceil(float(len(X)) / n_jobs))
                     slices = gen_even_slices(n_samples, n_batches)
-- 
2.43.0


From aa8661c6287ebfc8c51a2ada2cc4b897fe164122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:54 +0000
Subject: [PATCH 18/73] fix: setting C of LatentSSVM overwrote the weights

---
 pystruct/learners/latent_structured_svm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/learners/latent_structured_svm.py b/pystruct/learners/latent_structured_svm.py
index a5c4fa3..aef7542 100644
--- a/pystruct/learners/latent_structured_svm.py
+++ b/pystruct/learners/latent_structured_svm.py
@@ -179,7 +179,7 @@ class LatentSSVM(BaseSSVM):
 
     @C.setter
     def C(self, C_):
-        self.base_ssvm.w = C_
+        self.base_ssvm.C = C_
 
     @property
     def n_jobs(self):
-- 
2.43.0


From aacccf43347ca60c2639f1d6fb60de539df87c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:43 +0000
Subject: [PATCH 19/73] fix: labels out of range made the compiled kernels
 access foreign memory

Also accept integer and single precision features, read-only arrays and all
integer label types in these places.
---
 pystruct/models/crf.py                         | 18 ++++++++++++++++--
 .../models/node_type_edge_feature_graph_crf.py |  4 ++--
 pystruct/models/unstructured_svm.py            |  7 +++++++
 3 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/pystruct/models/crf.py b/pystruct/models/crf.py
index ba46682..e4c145e 100644
--- a/pystruct/models/crf.py
+++ b/pystruct/models/crf.py
@@ -5,6 +5,21 @@ from ..inference import inference_dispatch, get_installed
 from .utils import loss_augment_unaries
 
 
+def checked_loss_augment_unaries(unary_potentials, y, class_weight):
+    """Call the compiled loss_augment_unaries, which does not check bounds."""
+    y = np.asarray(y)
+    n_nodes, n_states = unary_potentials.shape
+    if y.shape != (n_nodes,):
+        raise ValueError("Expected one label for each of the %d nodes, got"
+                         " labels of shape %s" % (n_nodes, y.shape))
+    if n_nodes and (y.min() < 0 or y.max() >= n_states):
+        raise ValueError("Labels have to be between 0 and %d, got %s"
+                         % (n_states - 1, np.unique(y)))
+    # other integer types are not supported by the compiled function
+    y = y.astype(np.intp, casting='same_kind')
+    loss_augment_unaries(unary_potentials, y, class_weight)
+
+
 class CRF(StructuredModel):
     """Abstract base class"""
     def __init__(self, n_states=None, n_features=None, inference_method=None,
@@ -56,8 +71,7 @@ class CRF(StructuredModel):
         """
         we define it as a method so that subclasses can specialize it.
         """
-        loss_augment_unaries(unary_potentials, np.asarray(y),
-                             self.class_weight)
+        checked_loss_augment_unaries(unary_potentials, y, self.class_weight)
 
     def loss_augmented_inference(self, x, y, w, relaxed=False,
                                  return_energy=False):
diff --git a/pystruct/models/node_type_edge_feature_graph_crf.py b/pystruct/models/node_type_edge_feature_graph_crf.py
index de1e770..bbf35e9 100644
--- a/pystruct/models/node_type_edge_feature_graph_crf.py
+++ b/pystruct/models/node_type_edge_feature_graph_crf.py
@@ -33,7 +33,7 @@ import numpy as np
 import random
 
 from ..inference import inference_dispatch
-from .utils import loss_augment_unaries
+from .crf import checked_loss_augment_unaries
 
 from .typed_crf import TypedCRF, InconsistentLabel
 
@@ -436,5 +436,5 @@ class NodeTypeEdgeFeatureGraphCRF(TypedCRF):
             n_y = unary_potentials.shape[0]
             # label 0 must correspond to 1st weight
             y_typ = a_y[i_start:i_start+n_y] - self._l_type_startindex[typ]
-            loss_augment_unaries(unary_potentials, y_typ, class_weight)
+            checked_loss_augment_unaries(unary_potentials, y_typ, class_weight)
             i_start += n_y
diff --git a/pystruct/models/unstructured_svm.py b/pystruct/models/unstructured_svm.py
index 5b44f45..f211ec9 100644
--- a/pystruct/models/unstructured_svm.py
+++ b/pystruct/models/unstructured_svm.py
@@ -245,8 +245,15 @@ class MultiClassClf(StructuredModel):
         else:
             # if we don't have class weights, we can use our efficient
             # implementation
+            # (which does not check bounds)
+            X = np.require(X, dtype=np.float64, requirements='W')
+            Y = np.asarray(Y)
             assert(X.shape[0] == Y.shape[0])
             assert(X.shape[1] == self.n_features)
+            if len(Y) and (Y.min() < 0 or Y.max() >= self.n_states):
+                raise ValueError("Labels have to be between 0 and %d, got %s"
+                                 % (self.n_states - 1, np.unique(Y)))
+            Y = Y.astype(np.intp, casting='same_kind')
             crammer_singer_joint_feature(X, Y, result)
         return result.ravel()
 
-- 
2.43.0


From 55764316b75a5215a63640c9dd79092042b7222c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:43 +0000
Subject: [PATCH 20/73] fix: BinaryClf batch methods did not take the arguments
 of the model interface

---
 pystruct/models/unstructured_svm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystruct/models/unstructured_svm.py b/pystruct/models/unstructured_svm.py
index f211ec9..fb9df43 100644
--- a/pystruct/models/unstructured_svm.py
+++ b/pystruct/models/unstructured_svm.py
@@ -64,7 +64,7 @@ class BinaryClf(StructuredModel):
             raise ValueError("y has to be either -1 or +1, got %s" % repr(y))
         return y * x / 2.
 
-    def batch_joint_feature(self, X, Y):
+    def batch_joint_feature(self, X, Y, Y_true=None):
         return np.sum(X * np.array(Y)[:, np.newaxis] / 2., axis=0)
 
     def inference(self, x, w, relaxed=None):
@@ -92,7 +92,7 @@ class BinaryClf(StructuredModel):
         self.inference_calls += 1
         return 2 * (np.dot(x, w) >= 0) - 1
 
-    def batch_inference(self, X, w):
+    def batch_inference(self, X, w, relaxed=None):
         return 2 * (np.dot(X, w) >= 0) - 1
 
     def loss_augmented_inference(self, x, y, w, relaxed=None):
-- 
2.43.0


From f9fbed9b84a5a94e013d639cd42b9b512d858091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:13 +0000
Subject: [PATCH 21/73] fix: NSlackSSVM.fit failed if no constraint was ever
 violated

---
 pystruct/learners/n_slack_ssvm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pystruct/learners/n_slack_ssvm.py b/pystruct/learners/n_slack_ssvm.py
index 675ca70..8914f18 100644
--- a/pystruct/learners/n_slack_ssvm.py
+++ b/pystruct/learners/n_slack_ssvm.py
@@ -270,6 +270,8 @@ class NSlackSSVM(BaseSSVM):
         self.w = np.zeros(self.model.size_joint_feature)
         n_samples = len(X)
         stopping_criterion = False
+        # without any constraint
+        objective = 0.
         if constraints is None:
             # fresh start
             constraints = [[] for i in range(n_samples)]
@@ -390,7 +392,7 @@ class NSlackSSVM(BaseSSVM):
         if self.verbose and self.n_jobs == 1:
             print("calls to inference: %d" % self.model.inference_calls)
 
-        if verbose:
+        if self.verbose:
             print("Computing final objective.")
         self.timestamps_.append(time() - self.timestamps_[0])
         self.primal_objective_curve_.append(self._objective(X, Y))
-- 
2.43.0


From 94c9b6f201be91c7abd77bdcbf2881312f70a696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:13 +0000
Subject: [PATCH 22/73] fix: NSlackSSVM.fit with constraints given by the user
 on a new learner

---
 pystruct/learners/n_slack_ssvm.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/pystruct/learners/n_slack_ssvm.py b/pystruct/learners/n_slack_ssvm.py
index 8914f18..935c07a 100644
--- a/pystruct/learners/n_slack_ssvm.py
+++ b/pystruct/learners/n_slack_ssvm.py
@@ -280,8 +280,16 @@ class NSlackSSVM(BaseSSVM):
             self.primal_objective_curve_ = []
             self.timestamps_ = [time()]
         else:
-            # warm start
-            objective = self._solve_n_slack_qp(constraints, n_samples)
+            # warm start, possibly on a learner that was not fitted before
+            constraints = [list(sample) for sample in constraints]
+            if len(getattr(self, 'last_active', [])) != n_samples:
+                self.last_active = [[] for i in range(n_samples)]
+            if not hasattr(self, 'timestamps_'):
+                self.objective_curve_ = []
+                self.primal_objective_curve_ = []
+                self.timestamps_ = [time()]
+            if any(constraints):
+                objective = self._solve_n_slack_qp(constraints, n_samples)
         try:
             # catch ctrl+c to stop training
             # we have to update at least once after going through the dataset
@@ -414,9 +422,12 @@ class NSlackSSVM(BaseSSVM):
             if not len(sample):
                 continue
             # add self.last_active for any new constraint
-            n_old_constraints_sample = len(self.last_active[i])
-            if n_old_constraints_sample < len(sample):
-                self.last_active[i] = np.hstack([self.last_active[i], [0]])
+            if len(self.last_active[i]) > len(sample):
+                # not the constraints we counted for
+                self.last_active[i] = []
+            n_new_constraints = len(sample) - len(self.last_active[i])
+            self.last_active[i] = np.hstack([self.last_active[i],
+                                             np.zeros(n_new_constraints)])
             # if inactive, count up
             inactive_this = (a[k:k + len(sample)] < self.inactive_threshold
                              * self.C)
-- 
2.43.0


From 6439681c5cd355ef39821e694720d41ddec0c172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:14 +0000
Subject: [PATCH 23/73] fix: OneSlackSSVM.fit failed if there were no new
 constraints

---
 pystruct/learners/one_slack_ssvm.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pystruct/learners/one_slack_ssvm.py b/pystruct/learners/one_slack_ssvm.py
index 4944b28..ab06c3a 100644
--- a/pystruct/learners/one_slack_ssvm.py
+++ b/pystruct/learners/one_slack_ssvm.py
@@ -452,6 +452,11 @@ class OneSlackSSVM(BaseSSVM):
             constraints = self.constraints_
 
         self.last_slack_ = -1
+        # dual objective, in case there are no new constraints
+        if warm_start and warm_start != "soft" and self.objective_curve_:
+            objective = self.objective_curve_[-1]
+        else:
+            objective = 0.
 
         # get the joint_feature of the ground truth
         if getattr(self.model, 'rescale_C', False):
-- 
2.43.0


From becf820e5f53b7e16126860cc9d857f1ec6df7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:46 +0000
Subject: [PATCH 24/73] fix: initialize of typed models did not check the data

In Python 3 map is lazy, so none of the checks was ever performed.
---
 pystruct/models/typed_crf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pystruct/models/typed_crf.py b/pystruct/models/typed_crf.py
index 8c37726..09d6131 100644
--- a/pystruct/models/typed_crf.py
+++ b/pystruct/models/typed_crf.py
@@ -155,9 +155,11 @@ class TypedCRF(CRF):
         It is optional to call it. Does data checking only!
         """
         if isinstance(X, list):
-            map(self._check_size_x, X)
+            for x in X:
+                self._check_size_x(x)
             if not (Y is None):
-                map(self._check_size_xy, X, Y)
+                for x, y in zip(X, Y):
+                    self._check_size_xy(x, y)
         else:
             self._check_size_x(X)
             self._check_size_xy(X, Y)
-- 
2.43.0


From a2c48dc1babb5db03c861421c0b45803e427974c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:02 +0000
Subject: [PATCH 25/73] fix: typed models silently ignored surplus arrays and
 misread invalid inputs

Surplus node types or edge features were dropped, inference did not check its
input and a column vector of labels was broadcast over all nodes.
---
 pystruct/models/node_type_edge_feature_graph_crf.py | 4 ++--
 pystruct/models/typed_crf.py                        | 9 +++++----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/pystruct/models/node_type_edge_feature_graph_crf.py b/pystruct/models/node_type_edge_feature_graph_crf.py
index bbf35e9..5c01134 100644
--- a/pystruct/models/node_type_edge_feature_graph_crf.py
+++ b/pystruct/models/node_type_edge_feature_graph_crf.py
@@ -173,10 +173,10 @@ class NodeTypeEdgeFeatureGraphCRF(TypedCRF):
         if len(l_edges) != self.n_types**2:
             raise ValueError("Expected %d edge arrays "
                              "or None" % (self.n_types**2))
-        l_edge_features = self._get_edge_features(x)
-        if len(l_edge_features) != self.n_types**2:
+        if len(x[2]) != self.n_types**2:
             raise ValueError("Expected %d edge feature arrays "
                              "or None" % (self.n_types**2))
+        l_edge_features = self._get_edge_features(x)
 
         TypedCRF._check_size_x(self, x)
 
diff --git a/pystruct/models/typed_crf.py b/pystruct/models/typed_crf.py
index 09d6131..38a308c 100644
--- a/pystruct/models/typed_crf.py
+++ b/pystruct/models/typed_crf.py
@@ -189,9 +189,9 @@ class TypedCRF(CRF):
 
     def _check_size_x(self, x):
         # node_features are [  i_in_typ -> features ]
-        l_node_features = self._get_node_features(x)
-        if len(l_node_features) != self.n_types:
+        if len(x[0]) != self.n_types:
             raise ValueError("Expected one node feature array per node type.")
+        l_node_features = self._get_node_features(x)
 
         for typ, typ_features in enumerate(l_node_features):
             if typ_features.shape[1] != self.l_n_features[typ]:
@@ -237,9 +237,9 @@ class TypedCRF(CRF):
         l_node_features = self._get_node_features(X)
 
         nb_nodes = sum(nf.shape[0] for nf in l_node_features)
-        if Y.shape[0] != nb_nodes:
+        if Y.shape != (nb_nodes,):
             raise ValueError("Expected 1 label for each of the %d nodes. Got"
-                             " %d labels." % (nb_nodes, Y.shape[0]))
+                             " labels of shape %s." % (nb_nodes, Y.shape))
 
         i_start = 0
         for typ, nf, n_states in zip(range(self.n_types),
@@ -299,6 +299,7 @@ class TypedCRF(CRF):
             Unary weights.
         """
         self._check_size_w(w)
+        self._check_size_x(x)
         l_node_features = self._get_node_features(x)
 
         l_unary_potentials = []
-- 
2.43.0


From 14cd2bf974c374af4c2349e6e19adca441944386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:02 +0000
Subject: [PATCH 26/73] fix: flattenY and unflattenY with types without nodes

---
 pystruct/models/typed_crf.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pystruct/models/typed_crf.py b/pystruct/models/typed_crf.py
index 38a308c..3447ff1 100644
--- a/pystruct/models/typed_crf.py
+++ b/pystruct/models/typed_crf.py
@@ -125,9 +125,15 @@ class TypedCRF(CRF):
         This method does the job. It returns a flat Y array, with unique code
         per class label, which can be passed to 'fit'
         """
+        if len(lY_by_typ) != self.n_types:
+            raise ValueError("Expected one label array per node type.")
         lY = list()
         for n_start_state, Y_typ in zip(self._l_type_startindex, lY_by_typ):
-            lY.append(np.asarray(Y_typ) + n_start_state)
+            Y_typ = np.asarray(Y_typ)
+            if Y_typ.size == 0:
+                # an empty list must not turn all labels into floats
+                Y_typ = Y_typ.astype(int)
+            lY.append(Y_typ + n_start_state)
         return np.hstack(lY)
 
     def unflattenY(self, X, flatY):
@@ -138,7 +144,7 @@ class TypedCRF(CRF):
         """
         lY = list()
         i_start_node = 0
-        (l_node_features, l_edges, l_edge_features) = X
+        l_node_features = self._get_node_features(X)
         for n_start_state, nf in zip(self._l_type_startindex, l_node_features):
             n_nodes = nf.shape[0]
             Y = flatY[i_start_node: i_start_node+n_nodes] - n_start_state
-- 
2.43.0


From 3c0f0f6544fbf85dcda324813287d36c5eb3ef83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:31 +0000
Subject: [PATCH 27/73] fix: typed inference on edge types without features
 raised IndexError

---
 pystruct/models/node_type_edge_feature_graph_crf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pystruct/models/node_type_edge_feature_graph_crf.py b/pystruct/models/node_type_edge_feature_graph_crf.py
index 5c01134..b7af0aa 100644
--- a/pystruct/models/node_type_edge_feature_graph_crf.py
+++ b/pystruct/models/node_type_edge_feature_graph_crf.py
@@ -289,9 +289,9 @@ class NodeTypeEdgeFeatureGraphCRF(TypedCRF):
                                                               n_states1,
                                                               n_states2))
             else:
-                # first reshaping above complains: "ValueError: total size of
-                # new array must be unchanged"
-                l_pairwise_potentials.append(np.array([]))
+                # edges without features are ignored
+                l_pairwise_potentials.append(np.zeros((n_edges, n_states1,
+                                                       n_states2)))
             i_w += n_w
 
         return l_pairwise_potentials
-- 
2.43.0


From 86bca59214a4f5d778ec215b34b0ebe8d11429a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:31 +0000
Subject: [PATCH 28/73] fix: loss-augmented inference of typed models ignored
 surplus labels

---
 pystruct/models/node_type_edge_feature_graph_crf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pystruct/models/node_type_edge_feature_graph_crf.py b/pystruct/models/node_type_edge_feature_graph_crf.py
index b7af0aa..fc4e11b 100644
--- a/pystruct/models/node_type_edge_feature_graph_crf.py
+++ b/pystruct/models/node_type_edge_feature_graph_crf.py
@@ -430,6 +430,10 @@ class NodeTypeEdgeFeatureGraphCRF(TypedCRF):
         """
         i_start = 0
         a_y = np.asarray(y)
+        n_nodes = sum(len(unaries) for unaries in l_unary_potentials)
+        if a_y.shape != (n_nodes,):
+            raise ValueError("Expected 1 label for each of the %d nodes. Got"
+                             " labels of shape %s." % (n_nodes, a_y.shape))
 
         for typ, (unary_potentials, class_weight) in enumerate(
                 zip(l_unary_potentials, self.l_class_weight)):
-- 
2.43.0


From f5cd56749cdd487e98cb124572a7b5ccf435c76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:25 +0000
Subject: [PATCH 29/73] fix: MultiClassClf.batch_joint_feature of lists with
 rescale_C

Learners with n_jobs > 1 pass the predictions as a list.
---
 pystruct/models/unstructured_svm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pystruct/models/unstructured_svm.py b/pystruct/models/unstructured_svm.py
index fb9df43..3bd5232 100644
--- a/pystruct/models/unstructured_svm.py
+++ b/pystruct/models/unstructured_svm.py
@@ -238,6 +238,7 @@ class MultiClassClf(StructuredModel):
             if Y_true is None:
                 raise ValueError("rescale_C is true, but no y_true was passed"
                                  " to joint_feature.")
+            X, Y, Y_true = np.asarray(X), np.asarray(Y), np.asarray(Y_true)
             for l in range(self.n_states):
                 mask = Y == l
                 class_weight = self.class_weight[Y_true[mask]][:, np.newaxis]
-- 
2.43.0


From 8423fcd40578f9f90fd6ed77cb6fa61b2ef443d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:54 +0000
Subject: [PATCH 30/73] fix: OneSlackSSVM pruned constraints that had not been
 inactive for a whole window

A new constraint with a small dual variable was removed right after it had been
added, and found and removed again until max_iter was reached.
---
 pystruct/learners/one_slack_ssvm.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pystruct/learners/one_slack_ssvm.py b/pystruct/learners/one_slack_ssvm.py
index ab06c3a..d8fab14 100644
--- a/pystruct/learners/one_slack_ssvm.py
+++ b/pystruct/learners/one_slack_ssvm.py
@@ -230,8 +230,11 @@ class OneSlackSSVM(BaseSSVM):
                           for constr in self.alphas]
             # find strongest constraint that is not ground truth constraint
             strongest = np.max(max_active[1:])
-            inactive = np.where(max_active
-                                < self.inactive_threshold * strongest)[0]
+            # a constraint has to be inactive for the whole window
+            n_seen = np.array([len(constr) for constr in self.alphas])
+            inactive = np.where((n_seen >= self.inactive_window)
+                                & (max_active < self.inactive_threshold
+                                   * strongest))[0]
 
             for idx in reversed(inactive):
                 # if we don't reverse, we'll mess the indices up
-- 
2.43.0


From a17e2b7b1e303a7e975bbd8a6b6a7e2a1bf82cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:26 +0000
Subject: [PATCH 31/73] fix: OneSlackSSVM.constraint_equal of relaxed labelings
 with equal unary marginals

np.all(pw_m_1, pw_m_2) passed the second marginals as axis.
---
 pystruct/learners/one_slack_ssvm.py | 30 +++++++++--------------------
 1 file changed, 9 insertions(+), 21 deletions(-)

diff --git a/pystruct/learners/one_slack_ssvm.py b/pystruct/learners/one_slack_ssvm.py
index d8fab14..7bfc8e8 100644
--- a/pystruct/learners/one_slack_ssvm.py
+++ b/pystruct/learners/one_slack_ssvm.py
@@ -287,27 +287,15 @@ class OneSlackSSVM(BaseSSVM):
         arrays, pair of list of arrays (multitype)
         We need to compare those!
         """
-        if isinstance(y_1, tuple):
-            # y_1 is relaxed Y
-            # y_1 and y_2 might be lists of ndarray (multitype) instead of
-            #    ndarray (single type)
-            u_m_1, pw_m_1 = y_1
-            if isinstance(y_2, tuple):  # we then compare two relaxed Ys
-                u_m_2, pw_m_2 = y_2
-                # now, do we multitype or single type relaxed marginals??
-                if isinstance(u_m_1, list):
-                    return all(np.all(_um1 == _um2) for _um1, _um2
-                               in zip( u_m_1,  u_m_2)) \
-                        and all(np.all(_pw1 == _pw2) for _pw1, _pw2
-                                in zip(pw_m_1, pw_m_2))
-                else:
-                    return np.all(u_m_1 == u_m_2) and np.all(pw_m_1, pw_m_2)
-            else:
-                # NOTE original code was possibly comparing array and scalar
-                # return np.all(y_1[0] == y_2[0]) and np.all(y_1[1] == y_2[1])
-                return False
-        # might compare array and tuple... :-/  Was like that, I keep
-        return np.all(y_1 == y_2)
+        if isinstance(y_1, tuple) != isinstance(y_2, tuple):
+            # relaxed and integral
+            return False
+        if isinstance(y_1, (tuple, list)):
+            # two relaxed Ys, or the marginals of the single types
+            return (len(y_1) == len(y_2)
+                    and all(cls.constraint_equal(part_1, part_2)
+                            for part_1, part_2 in zip(y_1, y_2)))
+        return np.array_equal(y_1, y_2)
 
     def _update_cache(self, X, Y, Y_hat):
         """Updated cached constraints."""
-- 
2.43.0


From 59ddaba52a693eb537f5271a62b492e468a544ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:43 +0000
Subject: [PATCH 32/73] fix: NSlackSSVM compared relaxed labelings by their
 unary marginals only

This failed with a ValueError for models with several node types, and stopped
training although there were violated constraints.
---
 pystruct/learners/n_slack_ssvm.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pystruct/learners/n_slack_ssvm.py b/pystruct/learners/n_slack_ssvm.py
index 935c07a..178d999 100644
--- a/pystruct/learners/n_slack_ssvm.py
+++ b/pystruct/learners/n_slack_ssvm.py
@@ -15,8 +15,9 @@ import cvxopt.solvers
 from joblib import Parallel, delayed
 from sklearn.utils import gen_even_slices
 
+from .one_slack_ssvm import OneSlackSSVM
 from .ssvm import BaseSSVM
-from ..utils import unwrap_pairwise, find_constraint
+from ..utils import find_constraint
 
 
 class NSlackSSVM(BaseSSVM):
@@ -206,11 +207,9 @@ class NSlackSSVM(BaseSSVM):
     def _check_bad_constraint(self, y_hat, slack, old_constraints):
         if slack < 1e-5:
             return True
-        y_hat_plain = unwrap_pairwise(y_hat)
-
-        already_active = np.any([True for y__, _, _ in old_constraints
-                                 if np.all(y_hat_plain ==
-                                           unwrap_pairwise(y__))])
+        # relaxed labelings can differ in the pairwise marginals only
+        already_active = np.any([OneSlackSSVM.constraint_equal(y_hat, y__)
+                                 for y__, _, _ in old_constraints])
         if already_active:
             return True
 
-- 
2.43.0


From ee92ffb2093166aae8a8bb7b10f6346fb1dd28c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:15 +0000
Subject: [PATCH 33/73] fix: FrankWolfeSSVM failed on models with rescale_C

---
 pystruct/learners/frankwolfe_ssvm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pystruct/learners/frankwolfe_ssvm.py b/pystruct/learners/frankwolfe_ssvm.py
index a74375e..045ef23 100644
--- a/pystruct/learners/frankwolfe_ssvm.py
+++ b/pystruct/learners/frankwolfe_ssvm.py
@@ -132,7 +132,7 @@ class FrankWolfeSSVM(BaseSSVM):
         joint_feature_gt = self.model.batch_joint_feature(X, Y, Y)
         Y_hat = self.model.batch_loss_augmented_inference(X, Y, self.w,
                                                           relaxed=True)
-        djoint_feature = joint_feature_gt - self.model.batch_joint_feature(X, Y_hat)
+        djoint_feature = joint_feature_gt - self.model.batch_joint_feature(X, Y_hat, Y)
         ls = np.sum(self.model.batch_loss(Y, Y_hat))
         ws = djoint_feature * self.C
         l_rescaled = self.l * n_samples * self.C
@@ -158,7 +158,7 @@ class FrankWolfeSSVM(BaseSSVM):
         for iteration in range(self.max_iter):
             Y_hat = self.model.batch_loss_augmented_inference(X, Y, self.w,
                                                               relaxed=True)
-            djoint_feature = joint_feature_gt - self.model.batch_joint_feature(X, Y_hat)
+            djoint_feature = joint_feature_gt - self.model.batch_joint_feature(X, Y_hat, Y)
             ls = np.mean(self.model.batch_loss(Y, Y_hat))
             ws = djoint_feature * self.C
 
-- 
2.43.0


From 0d21040fd45710a49a5e4ce3c46b7fe378a4bfd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:15 +0000
Subject: [PATCH 34/73] fix: fitting a FrankWolfeSSVM again started from
 weights without dual variables

The weights of the previous fit were kept, but the dual variables were
not, so that w was not a combination of them and the reported dual values were
not lower bounds.
---
 pystruct/learners/frankwolfe_ssvm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pystruct/learners/frankwolfe_ssvm.py b/pystruct/learners/frankwolfe_ssvm.py
index 045ef23..a896bf4 100644
--- a/pystruct/learners/frankwolfe_ssvm.py
+++ b/pystruct/learners/frankwolfe_ssvm.py
@@ -290,8 +290,9 @@ class FrankWolfeSSVM(BaseSSVM):
             self.model.initialize(X, Y)
         self.objective_curve_, self.primal_objective_curve_ = [], []
         self.timestamps_ = [time()]
-        self.w = getattr(self, "w", np.zeros(self.model.size_joint_feature))
-        self.l = getattr(self, "l", 0)
+        # the dual variables start at zero, and so has anything built from them
+        self.w = np.zeros(self.model.size_joint_feature)
+        self.l = 0
         try:
             if self.batch_mode:
                 self._frank_wolfe_batch(X, Y)
-- 
2.43.0


From 49160e83b7b2170d993fc08eafa48b0d4ebe27f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:15 +0000
Subject: [PATCH 35/73] fix: FrankWolfeSSVM without a single computed duality
 gap

Without checks of the dual (check_dual_every=0) or if interrupted in the first
iteration, fit raised an error.
---
 pystruct/learners/frankwolfe_ssvm.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pystruct/learners/frankwolfe_ssvm.py b/pystruct/learners/frankwolfe_ssvm.py
index a896bf4..4af69f8 100644
--- a/pystruct/learners/frankwolfe_ssvm.py
+++ b/pystruct/learners/frankwolfe_ssvm.py
@@ -252,7 +252,9 @@ class FrankWolfeSSVM(BaseSSVM):
                     self.l = l
                 k += 1
 
-            if (self.check_dual_every != 0) and (iteration % self.check_dual_every == 0):
+            check_dual = (self.check_dual_every != 0
+                          and iteration % self.check_dual_every == 0)
+            if check_dual:
                 dual_val, dual_gap, primal_val = self._calc_dual_gap(X, Y)
                 self.primal_objective_curve_.append(primal_val)
                 self.objective_curve_.append(dual_val)
@@ -264,7 +266,7 @@ class FrankWolfeSSVM(BaseSSVM):
             if self.logger is not None:
                 self.logger(self, iteration)
 
-            if dual_gap < self.tol:
+            if check_dual and dual_gap < self.tol:
                 return
 
     def fit(self, X, Y, constraints=None, initialize=True):
@@ -304,7 +306,9 @@ class FrankWolfeSSVM(BaseSSVM):
             print("Calculating final objective.")
         self.timestamps_.append(time() - self.timestamps_[0])
         self.primal_objective_curve_.append(self._objective(X, Y))
-        self.objective_curve_.append(self.objective_curve_[-1])
+        # the dual objective is zero at the start
+        self.objective_curve_.append(self.objective_curve_[-1]
+                                     if self.objective_curve_ else 0.)
         if self.logger is not None:
             self.logger(self, 'final')
         return self
-- 
2.43.0


From 8f127ac10b9dc726c1fd1ca87452de9a6efdad61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:58 +0000
Subject: [PATCH 36/73] fix: SubgradientSSVM with mini batches failed on models
 with rescale_C

---
 pystruct/learners/subgradient_ssvm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pystruct/learners/subgradient_ssvm.py b/pystruct/learners/subgradient_ssvm.py
index ed4ce46..81f576c 100644
--- a/pystruct/learners/subgradient_ssvm.py
+++ b/pystruct/learners/subgradient_ssvm.py
@@ -301,8 +301,9 @@ class SubgradientSSVM(BaseSSVM):
                 Y_b = Y[batch]
                 Y_hat = self.model.batch_loss_augmented_inference(
                     X_b, Y_b, w, relaxed=True)
-                delta_joint_feature = (self.model.batch_joint_feature(X_b, Y_b)
-                                       - self.model.batch_joint_feature(X_b, Y_hat))
+                delta_joint_feature = (
+                    self.model.batch_joint_feature(X_b, Y_b, Y_b)
+                    - self.model.batch_joint_feature(X_b, Y_hat, Y_b))
                 loss = np.sum(self.model.batch_loss(Y_b, Y_hat))
 
                 violation = np.maximum(0, loss - np.dot(w, delta_joint_feature))
-- 
2.43.0


From 5161c56f8577c3ab7d36d29d88e6ca2bf94ec618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:58 +0000
Subject: [PATCH 37/73] fix: SubgradientSSVM with mini batches did not stop
 without constraints

break_on_no_constraints had no effect: each batch counted as violated.
---
 pystruct/learners/subgradient_ssvm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystruct/learners/subgradient_ssvm.py b/pystruct/learners/subgradient_ssvm.py
index 81f576c..128b481 100644
--- a/pystruct/learners/subgradient_ssvm.py
+++ b/pystruct/learners/subgradient_ssvm.py
@@ -308,6 +308,7 @@ class SubgradientSSVM(BaseSSVM):
 
                 violation = np.maximum(0, loss - np.dot(w, delta_joint_feature))
                 objective += violation
-                positive_slacks += self.batch_size
+                if violation > 0:
+                    positive_slacks += len(X_b)
                 self._solve_subgradient(delta_joint_feature / len(X_b), n_samples, w)
         return objective, positive_slacks, w
-- 
2.43.0


From 8a015cb3eef5000eadbd7bf362dcf49dd189677a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:58 +0000
Subject: [PATCH 38/73] fix: fitting a subgradient learner again continued
 without warm_start

The weights and the step counter of the previous fit were kept.
---
 pystruct/learners/subgradient_latent_ssvm.py | 4 ++++
 pystruct/learners/subgradient_ssvm.py        | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pystruct/learners/subgradient_latent_ssvm.py b/pystruct/learners/subgradient_latent_ssvm.py
index d8a09f0..8535373 100644
--- a/pystruct/learners/subgradient_latent_ssvm.py
+++ b/pystruct/learners/subgradient_latent_ssvm.py
@@ -134,6 +134,10 @@ class SubgradientLatentSSVM(SubgradientSSVM):
             self.model.initialize(X, Y)
         self.grad_old = np.zeros(self.model.size_joint_feature)
         if not warm_start:
+            if hasattr(self, "objective_curve_"):
+                # fitted before
+                del self.w
+                self.t = 0
             self.w = getattr(self, "w", np.random.normal(
                 0, 1, size=self.model.size_joint_feature))
             self.timestamps_ = [time()]
diff --git a/pystruct/learners/subgradient_ssvm.py b/pystruct/learners/subgradient_ssvm.py
index 128b481..98cf717 100644
--- a/pystruct/learners/subgradient_ssvm.py
+++ b/pystruct/learners/subgradient_ssvm.py
@@ -179,6 +179,10 @@ class SubgradientSSVM(BaseSSVM):
         if self.verbose:
             print("Training primal subgradient structural SVM")
         self.grad_old = np.zeros(self.model.size_joint_feature)
+        if not warm_start and hasattr(self, "objective_curve_"):
+            # fitted before
+            del self.w
+            self.t = 0
         self.w = getattr(self, "w", np.zeros(self.model.size_joint_feature))
         w = self.w.copy()
         if not warm_start:
-- 
2.43.0


From c1b6c2de59fd8c7f8d11cc6996b4c984d37253ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:58 +0000
Subject: [PATCH 39/73] fix: StructuredPerceptron raised TypeError for
 unsupported averaging

---
 pystruct/learners/structured_perceptron.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pystruct/learners/structured_perceptron.py b/pystruct/learners/structured_perceptron.py
index e130fc5..5fcde38 100644
--- a/pystruct/learners/structured_perceptron.py
+++ b/pystruct/learners/structured_perceptron.py
@@ -104,10 +104,11 @@ class StructuredPerceptron(BaseSSVM):
             if self.average is True:
                 self.average = 0
             elif self.average < -1:
-                raise NotImplemented("The only negative value for averaging "
-                                     "implemented at the moment is `-1`. Try "
-                                     "`max_iter - k` but be aware of the "
-                                     "possibility of early stopping.")
+                raise NotImplementedError(
+                    "The only negative value for averaging "
+                    "implemented at the moment is `-1`. Try "
+                    "`max_iter - k` but be aware of the "
+                    "possibility of early stopping.")
             w_bar = np.zeros(size_joint_feature)
             n_obs = 0
         self.loss_curve_ = []
-- 
2.43.0


From 26f8645b2e5877448190aeb5a465730b135a9e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:58 +0000
Subject: [PATCH 40/73] fix: SaveLogger with %d in the file name failed at the
 end of training

The last call passes 'final' as iteration.
---
 pystruct/utils/logging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/utils/logging.py b/pystruct/utils/logging.py
index 2ab5a95..e2f2bd7 100644
--- a/pystruct/utils/logging.py
+++ b/pystruct/utils/logging.py
@@ -47,7 +47,7 @@ class SaveLogger(object):
         if iteration == 'final' or not iteration % self.save_every:
             file_name = self.file_name
             if "%d" in file_name:
-                file_name = file_name % iteration
+                file_name = file_name.replace("%d", str(iteration))
             if self.verbose > 0:
                 print("saving %s to file %s" % (learner, file_name))
             self.save(learner, file_name)
-- 
2.43.0


From bf5c16c55ba65ea0b1702eff1e9d43bcbe05b2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:58 +0000
Subject: [PATCH 41/73] fix: SaveLogger removed the inference cache of the
 learner if saving failed

---
 pystruct/utils/logging.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pystruct/utils/logging.py b/pystruct/utils/logging.py
index e2f2bd7..9a08dce 100644
--- a/pystruct/utils/logging.py
+++ b/pystruct/utils/logging.py
@@ -59,8 +59,10 @@ class SaveLogger(object):
                 # don't store the large inference cache!
                 learner.inference_cache_, tmp = (None,
                                                  learner.inference_cache_)
-                pickle.dump(learner, f, -1)
-                learner.inference_cache_ = tmp
+                try:
+                    pickle.dump(learner, f, -1)
+                finally:
+                    learner.inference_cache_ = tmp
             else:
                 pickle.dump(learner, f, -1)
 
-- 
2.43.0


From 0efcc4e5e2ff051519c5d6739c290dc1d13f2e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:58 +0000
Subject: [PATCH 42/73] fix: LatentSSVM.fit ignored initialize=False and did
 not return the learner

---
 pystruct/learners/latent_structured_svm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pystruct/learners/latent_structured_svm.py b/pystruct/learners/latent_structured_svm.py
index aef7542..74b87dd 100644
--- a/pystruct/learners/latent_structured_svm.py
+++ b/pystruct/learners/latent_structured_svm.py
@@ -78,7 +78,8 @@ class LatentSSVM(BaseSSVM):
             Leave this true except if you really know what you are doing.
         """
 
-        self.model.initialize(X, Y)
+        if initialize:
+            self.model.initialize(X, Y)
         w = np.zeros(self.model.size_joint_feature)
         constraints = None
         ws = []
@@ -125,6 +126,7 @@ class LatentSSVM(BaseSSVM):
             ws.append(w)
             if self.logger is not None:
                 self.logger(self, iteration)
+        return self
 
     def predict(self, X):
         prediction = self.base_ssvm.predict(X)
-- 
2.43.0


From a838598e5ff2a47b70d102dcdc8db3a6634917c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:24 +0000
Subject: [PATCH 43/73] fix: batch Frank-Wolfe changed the weights after their
 duality gap met tol

The step after the last check was still made, so that the gap did not apply to
the weights returned.
---
 pystruct/learners/frankwolfe_ssvm.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pystruct/learners/frankwolfe_ssvm.py b/pystruct/learners/frankwolfe_ssvm.py
index 4af69f8..fb3de75 100644
--- a/pystruct/learners/frankwolfe_ssvm.py
+++ b/pystruct/learners/frankwolfe_ssvm.py
@@ -184,9 +184,10 @@ class FrankWolfeSSVM(BaseSSVM):
                 print("iteration %d, dual: %f, dual_gap: %f, primal: %f, gamma: %f"
                       % (iteration, dual_val, dual_gap_display, primal_val, gamma))
 
-            # update w and l
-            self.w = (1.0 - gamma) * self.w + gamma * ws
-            l = (1.0 - gamma) * l + gamma * ls
+            # update w and l, unless w is known to be good enough
+            if dual_gap >= self.tol:
+                self.w = (1.0 - gamma) * self.w + gamma * ws
+                l = (1.0 - gamma) * l + gamma * ls
 
             if self.logger is not None:
                 self.logger(self, iteration)
-- 
2.43.0


From 59c9a24df5440ac37b2de3810221d3c5779c6079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:36 +0000
Subject: [PATCH 44/73] fix: edge potentials of weights without the symmetry of
 (anti)symmetric edge features

---
 pystruct/models/edge_feature_graph_crf.py | 12 +++++++++++-
 pystruct/models/latent_node_crf.py        | 12 +++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/pystruct/models/edge_feature_graph_crf.py b/pystruct/models/edge_feature_graph_crf.py
index 3ac245e..22d83fa 100644
--- a/pystruct/models/edge_feature_graph_crf.py
+++ b/pystruct/models/edge_feature_graph_crf.py
@@ -138,8 +138,18 @@ class EdgeFeatureGraphCRF(GraphCRF):
         self._check_size_w(w)
         self._check_size_x(x)
         edge_features = self._get_edge_features(x)
-        pairwise = np.asarray(w[self.n_states * self.n_features:])
+        pairwise = np.array(w[self.n_states * self.n_features:],
+                            dtype=float)
         pairwise = pairwise.reshape(self.n_edge_features, -1)
+        # w does not need to have the symmetries of joint_feature
+        for i in self.symmetric_edge_features:
+            pw_ = pairwise[i].reshape(self.n_states, self.n_states)
+            pairwise[i] = (pw_ + pw_.T).ravel() / 2.
+
+        for i in self.antisymmetric_edge_features:
+            pw_ = pairwise[i].reshape(self.n_states, self.n_states)
+            pairwise[i] = (pw_ - pw_.T).ravel() / 2.
+
         return np.dot(edge_features, pairwise).reshape(
             edge_features.shape[0], self.n_states, self.n_states)
 
diff --git a/pystruct/models/latent_node_crf.py b/pystruct/models/latent_node_crf.py
index b9feab0..38a4cf5 100644
--- a/pystruct/models/latent_node_crf.py
+++ b/pystruct/models/latent_node_crf.py
@@ -474,8 +474,18 @@ class EdgeFeatureLatentNodeCRF(LatentNodeCRF):
         self._check_size_w(w)
         self._check_size_x(x)
         edge_features = x[2]
-        pairwise = np.asarray(w[self.n_input_states * self.n_features:])
+        pairwise = np.array(w[self.n_input_states * self.n_features:],
+                            dtype=float)
         pairwise = pairwise.reshape(self.n_edge_features, -1)
+        # w does not need to have the symmetries of joint_feature
+        for i in self.symmetric_edge_features:
+            pw_ = pairwise[i].reshape(self.n_states, self.n_states)
+            pairwise[i] = (pw_ + pw_.T).ravel() / 2.
+
+        for i in self.antisymmetric_edge_features:
+            pw_ = pairwise[i].reshape(self.n_states, self.n_states)
+            pairwise[i] = (pw_ - pw_.T).ravel() / 2.
+
         return np.dot(edge_features, pairwise).reshape(
             edge_features.shape[0], self.n_states, self.n_states)
 
-- 
2.43.0


From c12f8b42c10e40231adbb1aab21536dac545a73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:18 +0000
Subject: [PATCH 45/73] fix: the inference cache held one entry more than
 configured

---
 pystruct/learners/one_slack_ssvm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/learners/one_slack_ssvm.py b/pystruct/learners/one_slack_ssvm.py
index 7bfc8e8..1dc2976 100644
--- a/pystruct/learners/one_slack_ssvm.py
+++ b/pystruct/learners/one_slack_ssvm.py
@@ -310,7 +310,7 @@ class OneSlackSSVM(BaseSSVM):
                              for cache in sample]
             if np.any(already_there):
                 continue
-            if len(sample) > self.inference_cache:
+            if len(sample) >= self.inference_cache:
                 sample.pop(0)
             # we computed both of these before, but summed them up immediately
             # this makes it a little less efficient in the caching case.
-- 
2.43.0


From 125512419edcbbfca292f1d8e040a75d3c7fddeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:18 +0000
Subject: [PATCH 46/73] fix: inference cache with rescale_C

---
 pystruct/learners/one_slack_ssvm.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pystruct/learners/one_slack_ssvm.py b/pystruct/learners/one_slack_ssvm.py
index 1dc2976..a074698 100644
--- a/pystruct/learners/one_slack_ssvm.py
+++ b/pystruct/learners/one_slack_ssvm.py
@@ -316,8 +316,11 @@ class OneSlackSSVM(BaseSSVM):
             # this makes it a little less efficient in the caching case.
             # the idea is that if we cache, inference is way more expensive
             # and this doesn't matter much.
-            sample.append((self.model.joint_feature(x, y_hat),
-                           self.model.loss(y, y_hat), y_hat))
+            if getattr(self.model, 'rescale_C', False):
+                joint_feature = self.model.joint_feature(x, y_hat, y)
+            else:
+                joint_feature = self.model.joint_feature(x, y_hat)
+            sample.append((joint_feature, self.model.loss(y, y_hat), y_hat))
 
     def _constraint_from_cache(self, X, Y, joint_feature_gt, constraints):
         if (not getattr(self, 'inference_cache_', False) or
-- 
2.43.0


From 51391fc325d8f8ee03269ebeae59931fff3bccd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:18 +0000
Subject: [PATCH 47/73] fix: warm start after 1-slack training without any
 iteration

---
 pystruct/learners/one_slack_ssvm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pystruct/learners/one_slack_ssvm.py b/pystruct/learners/one_slack_ssvm.py
index a074698..d957c12 100644
--- a/pystruct/learners/one_slack_ssvm.py
+++ b/pystruct/learners/one_slack_ssvm.py
@@ -445,6 +445,7 @@ class OneSlackSSVM(BaseSSVM):
         else:
             constraints = self.constraints_
 
+        self.constraints_ = constraints
         self.last_slack_ = -1
         # dual objective, in case there are no new constraints
         if warm_start and warm_start != "soft" and self.objective_curve_:
-- 
2.43.0


From 1f031a5799e943be32aca281268c36e178e2cb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:18 +0000
Subject: [PATCH 48/73] fix: warm-started 1-slack training with another C
 stopped at the old solution

---
 pystruct/learners/one_slack_ssvm.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pystruct/learners/one_slack_ssvm.py b/pystruct/learners/one_slack_ssvm.py
index d957c12..4b7ddd9 100644
--- a/pystruct/learners/one_slack_ssvm.py
+++ b/pystruct/learners/one_slack_ssvm.py
@@ -217,7 +217,8 @@ class OneSlackSSVM(BaseSSVM):
 
     def prune_constraints(self, constraints, a):
         # append list for new constraint
-        self.alphas.append([])
+        if len(self.alphas) < len(constraints):
+            self.alphas.append([])
         assert(len(self.alphas) == len(constraints))
         for constraint, alpha in zip(self.alphas, a):
             constraint.append(alpha)
@@ -225,7 +226,7 @@ class OneSlackSSVM(BaseSSVM):
 
         # prune unused constraints:
         # if the max of alpha in last 50 iterations was small, throw away
-        if self.inactive_window != 0:
+        if self.inactive_window != 0 and len(constraints) > 1:
             max_active = [np.max(constr[-self.inactive_window:])
                           for constr in self.alphas]
             # find strongest constraint that is not ground truth constraint
@@ -461,6 +462,10 @@ class OneSlackSSVM(BaseSSVM):
 
         try:
             # catch ctrl+c to stop training
+            if warm_start and warm_start != "soft":
+                # C may have changed since the last fit
+                objective = self._solve_1_slack_qp(constraints,
+                                                   n_samples=len(X))
 
             for iteration in range(self.max_iter):
                 # main loop
-- 
2.43.0


From 823ab07c7e69fa744f2744cbe68e2e5ea6f77eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:24 +0000
Subject: [PATCH 49/73] fix: pruning the ground truth constraint let 1-slack
 training stop too early

---
 pystruct/learners/one_slack_ssvm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pystruct/learners/one_slack_ssvm.py b/pystruct/learners/one_slack_ssvm.py
index 4b7ddd9..04e79a8 100644
--- a/pystruct/learners/one_slack_ssvm.py
+++ b/pystruct/learners/one_slack_ssvm.py
@@ -236,6 +236,9 @@ class OneSlackSSVM(BaseSSVM):
             inactive = np.where((n_seen >= self.inactive_window)
                                 & (max_active < self.inactive_threshold
                                    * strongest))[0]
+            # without the ground truth constraint, the slack is not known to
+            # be non-negative any more
+            inactive = inactive[inactive != 0]
 
             for idx in reversed(inactive):
                 # if we don't reverse, we'll mess the indices up
-- 
2.43.0


From a06d1d18b0e168ddf9a16730bb022baad490ac5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:07 +0000
Subject: [PATCH 50/73] fix: StructuredPerceptron ignored its logger

---
 pystruct/learners/structured_perceptron.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pystruct/learners/structured_perceptron.py b/pystruct/learners/structured_perceptron.py
index 5fcde38..af647b7 100644
--- a/pystruct/learners/structured_perceptron.py
+++ b/pystruct/learners/structured_perceptron.py
@@ -158,6 +158,8 @@ class StructuredPerceptron(BaseSSVM):
                     print("avg loss: %f w: %s" % (self.loss_curve_[-1],
                                                   str(self.w)))
                     print("effective learning rate: %f" % effective_lr)
+                if self.logger is not None:
+                    self.logger(self, iteration)
                 if self.loss_curve_[-1] == 0:
                     if self.verbose:
                         print("Loss zero. Stopping.")
@@ -168,4 +170,6 @@ class StructuredPerceptron(BaseSSVM):
         finally:
             if self.average is not False:
                 self.w = w_bar
+        if self.logger is not None:
+            self.logger(self, 'final')
         return self
-- 
2.43.0


From aa179b4129406b58dc1e732e43935eed5c112a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:07 +0000
Subject: [PATCH 51/73] fix: LatentSSVM did not log the end of training

---
 pystruct/learners/latent_structured_svm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pystruct/learners/latent_structured_svm.py b/pystruct/learners/latent_structured_svm.py
index 74b87dd..6b89eae 100644
--- a/pystruct/learners/latent_structured_svm.py
+++ b/pystruct/learners/latent_structured_svm.py
@@ -126,6 +126,8 @@ class LatentSSVM(BaseSSVM):
             ws.append(w)
             if self.logger is not None:
                 self.logger(self, iteration)
+        if self.logger is not None:
+            self.logger(self, 'final')
         return self
 
     def predict(self, X):
-- 
2.43.0


From a45b69084636e804119834787717044e1f85755f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:35 +0000
Subject: [PATCH 52/73] fix: one-slack warm start after training was
 interrupted while filling the cache

---
 pystruct/learners/one_slack_ssvm.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pystruct/learners/one_slack_ssvm.py b/pystruct/learners/one_slack_ssvm.py
index 04e79a8..8b3ce8b 100644
--- a/pystruct/learners/one_slack_ssvm.py
+++ b/pystruct/learners/one_slack_ssvm.py
@@ -328,7 +328,10 @@ class OneSlackSSVM(BaseSSVM):
 
     def _constraint_from_cache(self, X, Y, joint_feature_gt, constraints):
         if (not getattr(self, 'inference_cache_', False) or
-                self.inference_cache_ is False):
+                not all(self.inference_cache_) or
+                not (self.objective_curve_ and self.primal_objective_curve_)):
+            # nothing cached, or training was interrupted while filling the
+            # cache
             if self.verbose > 10:
                 print("Empty cache.")
             raise NoConstraint
-- 
2.43.0


From 1370ae6fea57a907bb5488687a24656c1796a8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:27 +0000
Subject: [PATCH 53/73] fix: generate_bars failed when a label does not occur
 in the samples

---
 pystruct/datasets/synthetic_grids.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/datasets/synthetic_grids.py b/pystruct/datasets/synthetic_grids.py
index 2bc4008..134d15d 100644
--- a/pystruct/datasets/synthetic_grids.py
+++ b/pystruct/datasets/synthetic_grids.py
@@ -115,7 +115,7 @@ def generate_bars(n_samples=5, noise=5, bars_size=3, total_size=8,
                     Y[i, t, l:l + bars_size] = 1
 
     Y_flips = Y.copy()
-    n_classes = len(np.unique(Y))
+    n_classes = 3 if separate_labels else 2
     for y in Y_flips:
         flips = np.random.randint(total_size, size=[noise, 2])
         y[flips[:, 0], flips[:, 1]] = np.random.randint(n_classes, size=noise)
-- 
2.43.0


From 07a78196624e0b25bac337407444dbe51e9e5b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:46 +0000
Subject: [PATCH 54/73] fix: generate_crosses did not terminate when there is
 no room for another cross

---
 pystruct/datasets/synthetic_grids.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pystruct/datasets/synthetic_grids.py b/pystruct/datasets/synthetic_grids.py
index 134d15d..cc29da0 100644
--- a/pystruct/datasets/synthetic_grids.py
+++ b/pystruct/datasets/synthetic_grids.py
@@ -152,6 +152,10 @@ def generate_crosses(n_samples=5, noise=30, total_size=10, n_crosses=2,
     for i in range(n_samples):
         t_old, l_old = -3, -3
         for j in range(n_crosses):
+            # no room for another cross
+            if j > 0 and max(t_old - 1, total_size - 4 - t_old,
+                             l_old - 1, total_size - 4 - l_old) <= 2:
+                break
             while True:
                 t, l = np.random.randint(1, total_size - 3, size=2)
                 if np.abs(t - t_old) > 2 or np.abs(l - l_old) > 2:
@@ -285,6 +289,10 @@ def generate_crosses_explicit(n_samples=5, noise=30, size=9, n_crosses=2):
     for i in range(n_samples):
         t_old, l_old = -3, -3
         for j in range(n_crosses):
+            # no room for another cross
+            if j > 0 and max(t_old - 1, size - 2 - t_old,
+                             l_old - 1, size - 2 - l_old) <= 2:
+                break
             while True:
                 t, l = np.random.randint(1, size - 1, size=2)
                 if np.abs(t - t_old) > 2 or np.abs(l - l_old) > 2:
-- 
2.43.0


From 2dc735961a7135d72211ff3dcc020787f3c6611a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:15 +0000
Subject: [PATCH 55/73] fix: classifiers computed joint features of inputs with
 the wrong number of features

---
 pystruct/models/multilabel_svm.py   |  6 ++++++
 pystruct/models/unstructured_svm.py | 15 +++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/pystruct/models/multilabel_svm.py b/pystruct/models/multilabel_svm.py
index 54d561b..417f74d 100644
--- a/pystruct/models/multilabel_svm.py
+++ b/pystruct/models/multilabel_svm.py
@@ -85,7 +85,13 @@ class MultiLabelClf(CRF):
             self.edges.shape[0], self.n_states, self.n_states)
         return pairwise_params
 
+    def _check_size_x(self, x):
+        if np.shape(x) != (self.n_features,):
+            raise ValueError("Expected %d features, got input of shape %s"
+                             % (self.n_features, np.shape(x)))
+
     def joint_feature(self, x, y):
+        self._check_size_x(x)
         if isinstance(y, tuple):
             # continuous pairwise marginals
             y_cont, pairwise_marginals = y
diff --git a/pystruct/models/unstructured_svm.py b/pystruct/models/unstructured_svm.py
index 3bd5232..6555109 100644
--- a/pystruct/models/unstructured_svm.py
+++ b/pystruct/models/unstructured_svm.py
@@ -41,6 +41,12 @@ class BinaryClf(StructuredModel):
         return ("%s, n_features: %d"
                 % (type(self).__name__, self.size_joint_feature))
 
+    def _check_size_x(self, x):
+        if (self.size_joint_feature is not None and
+                np.shape(x)[-1] != self.size_joint_feature):
+            raise ValueError("Expected %d features, got %d"
+                             % (self.size_joint_feature, np.shape(x)[-1]))
+
     def joint_feature(self, x, y):
         """Compute joint feature vector of x and y.
 
@@ -62,9 +68,11 @@ class BinaryClf(StructuredModel):
         """
         if y not in [-1, 1]:
             raise ValueError("y has to be either -1 or +1, got %s" % repr(y))
+        self._check_size_x(x)
         return y * x / 2.
 
     def batch_joint_feature(self, X, Y, Y_true=None):
+        self._check_size_x(X)
         return np.sum(X * np.array(Y)[:, np.newaxis] / 2., axis=0)
 
     def inference(self, x, w, relaxed=None):
@@ -198,6 +206,11 @@ class MultiClassClf(StructuredModel):
         return ("%s(n_features=%d, n_classes=%d)"
                 % (type(self).__name__, self.n_features, self.n_states))
 
+    def _check_size_x(self, x):
+        if np.shape(x)[-1] != self.n_features:
+            raise ValueError("Expected %d features, got %d"
+                             % (self.n_features, np.shape(x)[-1]))
+
     def joint_feature(self, x, y, y_true=None):
         """Compute joint feature vector of x and y.
 
@@ -221,6 +234,7 @@ class MultiClassClf(StructuredModel):
         p : ndarray, shape (size_joint_feature,)
             Feature vector associated with state (x, y).
         """
+        self._check_size_x(x)
         # put feature vector in the place of the weights corresponding to y
         result = np.zeros((self.n_states, self.n_features))
         result[y, :] = x
@@ -233,6 +247,7 @@ class MultiClassClf(StructuredModel):
         return result.ravel()
 
     def batch_joint_feature(self, X, Y, Y_true=None):
+        self._check_size_x(X)
         result = np.zeros((self.n_states, self.n_features))
         if self.rescale_C:
             if Y_true is None:
-- 
2.43.0


From 0037a190cc7659691bb31ea144fbde15c1c86be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:10 +0000
Subject: [PATCH 56/73] fix: edges to nodes that do not exist were not rejected
 by inference

---
 pystruct/inference/common.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pystruct/inference/common.py b/pystruct/inference/common.py
index 0c67b77..a90da1b 100644
--- a/pystruct/inference/common.py
+++ b/pystruct/inference/common.py
@@ -3,6 +3,10 @@ import numpy as np
 
 def _validate_params(unary_potentials, pairwise_params, edges):
     n_states = unary_potentials.shape[-1]
+    if len(edges) and (np.min(edges) < 0
+                       or np.max(edges) >= len(unary_potentials)):
+        raise ValueError("Expected edges between the %d nodes, got %s"
+                         % (len(unary_potentials), repr(edges)))
     if pairwise_params.shape == (n_states, n_states):
         # only one matrix given
         pairwise_potentials = np.repeat(pairwise_params[np.newaxis, :, :],
-- 
2.43.0


From 586f722dd212b50cd995949541094fcc5b41b74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:59 +0000
Subject: [PATCH 57/73] fix: timestamps of warm-started SubgradientSSVM were
 not training times

---
 pystruct/learners/subgradient_ssvm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystruct/learners/subgradient_ssvm.py b/pystruct/learners/subgradient_ssvm.py
index 98cf717..e2b541f 100644
--- a/pystruct/learners/subgradient_ssvm.py
+++ b/pystruct/learners/subgradient_ssvm.py
@@ -193,7 +193,8 @@ class SubgradientSSVM(BaseSSVM):
             else:
                 self.learning_rate_ = self.learning_rate
         else:
-            self.timestamps_ = (np.array(self.timestamps_) - time()).tolist()
+            # continue from the time of the last entry
+            self.timestamps_[0] = time() - self.timestamps_[-1]
         try:
             # catch ctrl+c to stop training
             for iteration in range(self.max_iter):
-- 
2.43.0


From 0be0bae5830bf6f6e22dae896f9025390f7fe63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:59 +0000
Subject: [PATCH 58/73] fix: fitting a learner again continued the loss curve
 of the earlier fit

---
 pystruct/learners/n_slack_ssvm.py            | 1 +
 pystruct/learners/one_slack_ssvm.py          | 1 +
 pystruct/learners/ssvm.py                    | 5 +++++
 pystruct/learners/subgradient_latent_ssvm.py | 1 +
 pystruct/learners/subgradient_ssvm.py        | 1 +
 5 files changed, 9 insertions(+)

diff --git a/pystruct/learners/n_slack_ssvm.py b/pystruct/learners/n_slack_ssvm.py
index 178d999..99638b2 100644
--- a/pystruct/learners/n_slack_ssvm.py
+++ b/pystruct/learners/n_slack_ssvm.py
@@ -275,6 +275,7 @@ class NSlackSSVM(BaseSSVM):
             # fresh start
             constraints = [[] for i in range(n_samples)]
             self.last_active = [[] for i in range(n_samples)]
+            self._reset_loss_curve()
             self.objective_curve_ = []
             self.primal_objective_curve_ = []
             self.timestamps_ = [time()]
diff --git a/pystruct/learners/one_slack_ssvm.py b/pystruct/learners/one_slack_ssvm.py
index 8b3ce8b..a3b43c6 100644
--- a/pystruct/learners/one_slack_ssvm.py
+++ b/pystruct/learners/one_slack_ssvm.py
@@ -434,6 +434,7 @@ class OneSlackSSVM(BaseSSVM):
             self.w = np.zeros(self.model.size_joint_feature)
             constraints = []
             self.objective_curve_, self.primal_objective_curve_ = [], []
+            self._reset_loss_curve()
             self.cached_constraint_ = []
             self.alphas = []  # dual solutions
             # append constraint given by ground truth to make our life easier
diff --git a/pystruct/learners/ssvm.py b/pystruct/learners/ssvm.py
index 35a1d56..a50e453 100644
--- a/pystruct/learners/ssvm.py
+++ b/pystruct/learners/ssvm.py
@@ -83,6 +83,11 @@ class BaseSSVM(BaseEstimator):
         max_losses = [self.model.max_loss(y) for y in Y]
         return 1. - np.sum(losses) / float(np.sum(max_losses))
 
+    def _reset_loss_curve(self):
+        # the loss curve of an earlier fit is not continued
+        if hasattr(self, 'loss_curve_'):
+            del self.loss_curve_
+
     def _compute_training_loss(self, X, Y, iteration):
         # optionally compute training loss for output / training curve
         if (self.show_loss_every != 0
diff --git a/pystruct/learners/subgradient_latent_ssvm.py b/pystruct/learners/subgradient_latent_ssvm.py
index 8535373..a961d95 100644
--- a/pystruct/learners/subgradient_latent_ssvm.py
+++ b/pystruct/learners/subgradient_latent_ssvm.py
@@ -142,6 +142,7 @@ class SubgradientLatentSSVM(SubgradientSSVM):
                 0, 1, size=self.model.size_joint_feature))
             self.timestamps_ = [time()]
             self.objective_curve_ = []
+            self._reset_loss_curve()
             if self.learning_rate == "auto":
                 self.learning_rate_ = self.C * len(X)
             else:
diff --git a/pystruct/learners/subgradient_ssvm.py b/pystruct/learners/subgradient_ssvm.py
index e2b541f..737869d 100644
--- a/pystruct/learners/subgradient_ssvm.py
+++ b/pystruct/learners/subgradient_ssvm.py
@@ -187,6 +187,7 @@ class SubgradientSSVM(BaseSSVM):
         w = self.w.copy()
         if not warm_start:
             self.objective_curve_ = []
+            self._reset_loss_curve()
             self.timestamps_ = [time()]
             if self.learning_rate == "auto":
                 self.learning_rate_ = self.C * len(X)
-- 
2.43.0


From b68587574e68365527c122baf8895cc813e6bd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:16 +0000
Subject: [PATCH 59/73] fix: FrankWolfeSSVM ignored show_loss_every

---
 pystruct/learners/frankwolfe_ssvm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pystruct/learners/frankwolfe_ssvm.py b/pystruct/learners/frankwolfe_ssvm.py
index fb3de75..7b1b4f9 100644
--- a/pystruct/learners/frankwolfe_ssvm.py
+++ b/pystruct/learners/frankwolfe_ssvm.py
@@ -189,6 +189,7 @@ class FrankWolfeSSVM(BaseSSVM):
                 self.w = (1.0 - gamma) * self.w + gamma * ws
                 l = (1.0 - gamma) * l + gamma * ls
 
+            self._compute_training_loss(X, Y, iteration)
             if self.logger is not None:
                 self.logger(self, iteration)
 
@@ -264,6 +265,7 @@ class FrankWolfeSSVM(BaseSSVM):
                     print("dual: %f, dual_gap: %f, primal: %f"
                           % (dual_val, dual_gap, primal_val))
 
+            self._compute_training_loss(X, Y, iteration)
             if self.logger is not None:
                 self.logger(self, iteration)
 
@@ -292,6 +294,7 @@ class FrankWolfeSSVM(BaseSSVM):
         if initialize:
             self.model.initialize(X, Y)
         self.objective_curve_, self.primal_objective_curve_ = [], []
+        self._reset_loss_curve()
         self.timestamps_ = [time()]
         # the dual variables start at zero, and so has anything built from them
         self.w = np.zeros(self.model.size_joint_feature)
-- 
2.43.0


From 72911ab78dd9131fe935aae3e17cefaeef5e0776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:29 +0000
Subject: [PATCH 60/73] fix: inference on unary potentials in the shape of a
 grid rejected its edges

---
 pystruct/inference/common.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pystruct/inference/common.py b/pystruct/inference/common.py
index a90da1b..71354eb 100644
--- a/pystruct/inference/common.py
+++ b/pystruct/inference/common.py
@@ -3,10 +3,11 @@ import numpy as np
 
 def _validate_params(unary_potentials, pairwise_params, edges):
     n_states = unary_potentials.shape[-1]
-    if len(edges) and (np.min(edges) < 0
-                       or np.max(edges) >= len(unary_potentials)):
+    # the nodes may come in the shape of a grid
+    n_nodes = int(np.prod(unary_potentials.shape[:-1]))
+    if len(edges) and (np.min(edges) < 0 or np.max(edges) >= n_nodes):
         raise ValueError("Expected edges between the %d nodes, got %s"
-                         % (len(unary_potentials), repr(edges)))
+                         % (n_nodes, repr(edges)))
     if pairwise_params.shape == (n_states, n_states):
         # only one matrix given
         pairwise_potentials = np.repeat(pairwise_params[np.newaxis, :, :],
-- 
2.43.0


From e127a738c997590633650e61e082f553e3b73ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:51 +0000
Subject: [PATCH 61/73] fix: plot_grid without axes used a function that
 matplotlib removed

---
 pystruct/utils/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/utils/plotting.py b/pystruct/utils/plotting.py
index cf3a32c..eb57fa2 100644
--- a/pystruct/utils/plotting.py
+++ b/pystruct/utils/plotting.py
@@ -30,7 +30,7 @@ def plot_grid(x, cmap=None, border_color=None, axes=None, linewidth=1):
     if axes is not None:
         axes.matshow(x, cmap=cmap)
     else:
-        axes = plt.matshow(x, cmap=cmap).get_axes()
+        axes = plt.matshow(x, cmap=cmap).axes
     axes.set_xticks(np.arange(1, x.shape[1]) - .5)
     axes.set_yticks(np.arange(1, x.shape[0]) - .5)
     if border_color is None:
-- 
2.43.0


From a8e7c6895087191d0002bd436a35e0b3351ea423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:51 +0000
Subject: [PATCH 62/73] fix: plot_learning failed if training stopped in the
 first iteration

---
 pystruct/plot_learning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/plot_learning.py b/pystruct/plot_learning.py
index 4f69a0a..350f085 100755
--- a/pystruct/plot_learning.py
+++ b/pystruct/plot_learning.py
@@ -62,7 +62,7 @@ def plot_learning(ssvm, time=True):
         print("loading timestamps")
         inds = np.array(ssvm.timestamps_)
         inds = inds[2:len(ssvm.objective_curve_) + 1] / 60.
-        inds = np.hstack([inds, [inds[-1]]])
+        inds = np.hstack([inds, inds[-1:] if len(inds) else [0.]])
         axes[0].set_xlabel('training time (min)')
     else:
         inds = np.arange(len(ssvm.objective_curve_))
-- 
2.43.0


From 3ab9918f5cc437f9adec22b54b844cecfe7bd773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:13 +0000
Subject: [PATCH 63/73] fix: plot_learning failed for StructuredPerceptron

---
 pystruct/plot_learning.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pystruct/plot_learning.py b/pystruct/plot_learning.py
index 350f085..6514658 100755
--- a/pystruct/plot_learning.py
+++ b/pystruct/plot_learning.py
@@ -43,6 +43,16 @@ def plot_learning(ssvm, time=True):
     print(ssvm)
     if hasattr(ssvm, 'base_ssvm'):
         ssvm = ssvm.base_ssvm
+    if not hasattr(ssvm, 'objective_curve_'):
+        # the perceptron does not optimize an objective
+        print("Iterations: %d" % len(ssvm.loss_curve_))
+        fig, axes = plt.subplots(1, 1)
+        axes.plot(ssvm.loss_curve_)
+        axes.set_xlabel('iterations')
+        axes.set_title("Training Error")
+        axes.set_yscale('log')
+        plt.show()
+        return
     print("Iterations: %d" % len(ssvm.objective_curve_))
     print("Objective: %f" % ssvm.objective_curve_[-1])
     inference_run = None
-- 
2.43.0


From 73fa788542563b49b76a1932cf08920636db1f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:25 +0000
Subject: [PATCH 64/73] fix: score of BinaryClf learners failed for labels that
 are Python integers

---
 pystruct/models/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/models/base.py b/pystruct/models/base.py
index 7c8ffd4..fdcf87c 100644
--- a/pystruct/models/base.py
+++ b/pystruct/models/base.py
@@ -73,7 +73,7 @@ class StructuredModel(object):
         # maximum possible los on y for macro averages
         if hasattr(self, 'class_weight'):
             return np.sum(self.class_weight[y])
-        return y.size
+        return np.size(y)
 
     def continuous_loss(self, y, y_hat):
         # continuous version of the loss
-- 
2.43.0


From 1897b8f181a07d652d3b0b8686611183ff9420a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:43 +0000
Subject: [PATCH 65/73] fix: StructuredPerceptron.fit overwrote its parameter
 average

---
 pystruct/learners/structured_perceptron.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/pystruct/learners/structured_perceptron.py b/pystruct/learners/structured_perceptron.py
index af647b7..a68f325 100644
--- a/pystruct/learners/structured_perceptron.py
+++ b/pystruct/learners/structured_perceptron.py
@@ -100,10 +100,11 @@ class StructuredPerceptron(BaseSSVM):
             self.model.initialize(X, Y)
         size_joint_feature = self.model.size_joint_feature
         self.w = np.zeros(size_joint_feature)
-        if self.average is not False:
-            if self.average is True:
-                self.average = 0
-            elif self.average < -1:
+        average = self.average
+        if average is not False:
+            if average is True:
+                average = 0
+            elif average < -1:
                 raise NotImplementedError(
                     "The only negative value for averaging "
                     "implemented at the moment is `-1`. Try "
@@ -115,7 +116,7 @@ class StructuredPerceptron(BaseSSVM):
         max_losses = np.sum([self.model.max_loss(y) for y in Y])
         try:
             for iteration in range(self.max_iter):
-                if self.average == -1:
+                if average == -1:
                     # By resetting at every iteration we effectively get
                     # averaging over the last one.
                     n_obs = 0
@@ -135,7 +136,7 @@ class StructuredPerceptron(BaseSSVM):
                         if current_loss:
                             self.w += effective_lr * (self.model.joint_feature(x, y) -
                                                       self.model.joint_feature(x, y_hat))
-                    if self.average is not False and iteration >= self.average:
+                    if average is not False and iteration >= average:
                         n_obs += 1
                         w_bar = ((1 - 1. / n_obs) * w_bar +
                                  (1. / n_obs) * self.w)
@@ -148,8 +149,8 @@ class StructuredPerceptron(BaseSSVM):
                         if current_loss:
                             self.w += effective_lr * (self.model.joint_feature(x, y) -
                                                       self.model.joint_feature(x, y_hat))
-                        if (self.average is not False and
-                                iteration >= self.average):
+                        if (average is not False and
+                                iteration >= average):
                             n_obs += 1
                             w_bar = ((1 - 1. / n_obs) * w_bar +
                                      (1. / n_obs) * self.w)
@@ -168,7 +169,7 @@ class StructuredPerceptron(BaseSSVM):
         except KeyboardInterrupt:
             pass
         finally:
-            if self.average is not False:
+            if average is not False:
                 self.w = w_bar
         if self.logger is not None:
             self.logger(self, 'final')
-- 
2.43.0


From d448fe1f1d7422a6683e2a0f57f44580ec1f662a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:11 +0000
Subject: [PATCH 66/73] fix: loopy max-product diverged on graphs with parallel
 edges

Messages towards the first node of an edge were normalised by the maximum of
the old message, so that with several edges between the same nodes they grew
without bound and the labels became arbitrary.
---
 pystruct/inference/maxprod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/inference/maxprod.py b/pystruct/inference/maxprod.py
index eca80ed..f8a7845 100644
--- a/pystruct/inference/maxprod.py
+++ b/pystruct/inference/maxprod.py
@@ -149,7 +149,7 @@ def iterative_max_product(unary_potentials, pairwise_potentials, edges,
                       - messages[e, 0])
             old_message = messages[e, 1].copy()
             new_message = np.max(update, axis=1)
-            new_message -= np.max(messages[e, 1])
+            new_message -= np.max(new_message)
             new_message = damping * old_message + (1 - damping) * new_message
             messages[e, 1] = new_message
             update = new_message - old_message
-- 
2.43.0


From ce38eb1325818e3a779b8daa8883f8eb12934e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:47 +0000
Subject: [PATCH 67/73] fix: setInferenceException of the typed models had no
 effect

The flag was stored but never handed to the inference function, so a rounded
fractional solution was returned instead of the exception asked for.
---
 pystruct/models/crf.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/pystruct/models/crf.py b/pystruct/models/crf.py
index e4c145e..cb216f4 100644
--- a/pystruct/models/crf.py
+++ b/pystruct/models/crf.py
@@ -182,16 +182,11 @@ class CRF(StructuredModel):
         pairwise_potentials = self._get_pairwise_potentials(x, w)
         edges = self._get_edges(x)
 
+        kwargs = {}
         if constraints:
-            return inference_dispatch(unary_potentials, pairwise_potentials,
-                                      edges,
-                                      self.inference_method,
-                                      relaxed=relaxed,
-                                      return_energy=return_energy,
-                                      constraints=constraints)
-        else:
-            return inference_dispatch(unary_potentials, pairwise_potentials,
-                                      edges,
-                                      self.inference_method,
-                                      relaxed=relaxed,
-                                      return_energy=return_energy)
+            kwargs['constraints'] = constraints
+        if getattr(self, 'inference_exception', False):
+            kwargs['inference_exception'] = True
+        return inference_dispatch(unary_potentials, pairwise_potentials, edges,
+                                  self.inference_method, relaxed=relaxed,
+                                  return_energy=return_energy, **kwargs)
-- 
2.43.0


From 823653591738488dd14b081e351cdb778dbec36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:12 +0000
Subject: [PATCH 68/73] fix: MultiLabelClf.joint_feature failed for boolean,
 unsigned or integer features

---
 pystruct/models/multilabel_svm.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pystruct/models/multilabel_svm.py b/pystruct/models/multilabel_svm.py
index 417f74d..c7d77bd 100644
--- a/pystruct/models/multilabel_svm.py
+++ b/pystruct/models/multilabel_svm.py
@@ -92,18 +92,18 @@ class MultiLabelClf(CRF):
 
     def joint_feature(self, x, y):
         self._check_size_x(x)
+        # features may be boolean or (unsigned) integers
+        x = np.asarray(x, dtype=np.float64)
         if isinstance(y, tuple):
             # continuous pairwise marginals
             y_cont, pairwise_marginals = y
             y_signs = 2 * y_cont[:, 1] - 1
-            unary_marginals = np.repeat(x[np.newaxis, :], len(y_signs), axis=0)
-            unary_marginals *= y_signs[:, np.newaxis]
+            unary_marginals = np.outer(y_signs, x)
         else:
             # discrete y, possibly boolean or unsigned
             y = np.asarray(y).astype(np.int)
             y_signs = 2 * y - 1
-            unary_marginals = np.repeat(x[np.newaxis, :], len(y_signs), axis=0)
-            unary_marginals *= y_signs[:, np.newaxis]
+            unary_marginals = np.outer(y_signs, x)
             pairwise_marginals = []
             for edge in self.edges:
                 # indicator of one of four possible states of the edge
-- 
2.43.0


From 4407afb4b4cdda170826bd1b9dc0f489e6c2a990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:34 +0000
Subject: [PATCH 69/73] fix: training a dual learner changed the tolerance of
 later linear programs

---
 pystruct/learners/n_slack_ssvm.py   |  9 +++++----
 pystruct/learners/one_slack_ssvm.py | 11 +++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/pystruct/learners/n_slack_ssvm.py b/pystruct/learners/n_slack_ssvm.py
index 99638b2..0a94470 100644
--- a/pystruct/learners/n_slack_ssvm.py
+++ b/pystruct/learners/n_slack_ssvm.py
@@ -174,16 +174,18 @@ class NSlackSSVM(BaseSSVM):
         h = cvxopt.matrix(np.hstack((tmp1, tmp2, zero_constr)))
 
         # solve QP model
-        cvxopt.solvers.options['feastol'] = 1e-5
+        # the options of other users of the solver stay as they are
+        options = dict(cvxopt.solvers.options, feastol=1e-5,
+                       show_progress=self.verbose > 3)
         try:
-            solution = cvxopt.solvers.qp(P, q, G, h)
+            solution = cvxopt.solvers.qp(P, q, G, h, options=options)
         except ValueError:
             solution = {'status': 'error'}
         if solution['status'] != "optimal":
             print("regularizing QP!")
             P = cvxopt.matrix(np.dot(joint_feature_matrix, joint_feature_matrix.T)
                               + 1e-8 * np.eye(joint_feature_matrix.shape[0]))
-            solution = cvxopt.solvers.qp(P, q, G, h)
+            solution = cvxopt.solvers.qp(P, q, G, h, options=options)
             if solution['status'] != "optimal":
                 raise ValueError("QP solver failed. Try regularizing your QP.")
 
@@ -263,7 +265,6 @@ class NSlackSSVM(BaseSSVM):
         """
         if self.verbose:
             print("Training n-slack dual structural SVM")
-        cvxopt.solvers.options['show_progress'] = self.verbose > 3
         if initialize:
             self.model.initialize(X, Y)
         self.w = np.zeros(self.model.size_joint_feature)
diff --git a/pystruct/learners/one_slack_ssvm.py b/pystruct/learners/one_slack_ssvm.py
index a3b43c6..50efb57 100644
--- a/pystruct/learners/one_slack_ssvm.py
+++ b/pystruct/learners/one_slack_ssvm.py
@@ -187,16 +187,20 @@ class OneSlackSSVM(BaseSSVM):
         b = cvxopt.matrix([C])
 
         # solve QP model
-        cvxopt.solvers.options['feastol'] = 1e-5
+        # the options of other users of the solver stay as they are
+        options = dict(cvxopt.solvers.options, feastol=1e-5,
+                       show_progress=self.verbose > 3)
         try:
-            solution = cvxopt.solvers.qp(P, q, G, h, A, b)
+            solution = cvxopt.solvers.qp(P, q, G, h, A, b,
+                                         options=options)
         except ValueError:
             solution = {'status': 'error'}
         if solution['status'] != "optimal":
             print("regularizing QP!")
             P = cvxopt.matrix(np.dot(joint_feature_matrix, joint_feature_matrix.T)
                               + 1e-8 * np.eye(joint_feature_matrix.shape[0]))
-            solution = cvxopt.solvers.qp(P, q, G, h, A, b)
+            solution = cvxopt.solvers.qp(P, q, G, h, A, b,
+                                         options=options)
             if solution['status'] != "optimal":
                 raise ValueError("QP solver failed. Try regularizing your QP.")
 
@@ -420,7 +424,6 @@ class OneSlackSSVM(BaseSSVM):
         """
         if self.verbose:
             print("Training 1-slack dual structural SVM")
-        cvxopt.solvers.options['show_progress'] = self.verbose > 3
         if initialize:
             self.model.initialize(X, Y)
 
-- 
2.43.0


From dc36a47c461126f2b86c9d959a3ef2f4b1c66375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:31 +0000
Subject: [PATCH 70/73] fix: typed joint features were wrong for labels in
 small integer types

---
 pystruct/models/node_type_edge_feature_graph_crf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pystruct/models/node_type_edge_feature_graph_crf.py b/pystruct/models/node_type_edge_feature_graph_crf.py
index fc4e11b..3fbfc5f 100644
--- a/pystruct/models/node_type_edge_feature_graph_crf.py
+++ b/pystruct/models/node_type_edge_feature_graph_crf.py
@@ -404,7 +404,8 @@ class NodeTypeEdgeFeatureGraphCRF(TypedCRF):
                     assert (0 <= y2).all() and (y2 <=
                                                 self.l_n_states[typ2]).all()
                     # set the 1s where they should
-                    class_pair_ind = (y2 + _n_states_typ2 * y1)
+                    # (small label types overflow in the product)
+                    class_pair_ind = (y2 + _n_states_typ2 * y1.astype(np.int))
                     _pw[np.arange(_n_edges), class_pair_ind] = 1
                 l_pw.append(_pw)
 
-- 
2.43.0


From 6c7329c36a1c89939ef4e3b36d2f1d114a8ff7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:03 +0000
Subject: [PATCH 71/73] fix: the tolerance given to max-product inference was
 ignored

---
 pystruct/inference/maxprod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystruct/inference/maxprod.py b/pystruct/inference/maxprod.py
index f8a7845..97db59a 100644
--- a/pystruct/inference/maxprod.py
+++ b/pystruct/inference/maxprod.py
@@ -59,7 +59,7 @@ def inference_max_product(unary_potentials, pairwise_potentials, edges,
         y = tree_max_product(unary_potentials, pairwise_potentials, edges)
     else:
         y = iterative_max_product(unary_potentials, pairwise_potentials, edges,
-                                  max_iter=max_iter, damping=damping)
+                                  max_iter=max_iter, damping=damping, tol=tol)
     return y
 
 
-- 
2.43.0


From 214328779816415bff9b8857a037d3ee79b62790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:45 +0000
Subject: [PATCH 72/73] fix: MultiLabelClf with edges given as a list

---
 pystruct/models/multilabel_svm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pystruct/models/multilabel_svm.py b/pystruct/models/multilabel_svm.py
index c7d77bd..229d96d 100644
--- a/pystruct/models/multilabel_svm.py
+++ b/pystruct/models/multilabel_svm.py
@@ -43,8 +43,10 @@ class MultiLabelClf(CRF):
     def _set_size_joint_feature(self):
         # try to set the size of joint_feature if possible
         if self.n_features is not None and self.n_labels is not None:
-            if self.edges is None:
+            if self.edges is None or len(self.edges) == 0:
                 self.edges = np.zeros(shape=(0, 2), dtype=np.int)
+            # any array-like
+            self.edges = np.asarray(self.edges)
             self.size_joint_feature = (self.n_features * self.n_labels + 4 *
                                        self.edges.shape[0])
 
-- 
2.43.0


From 1e6db4786f90778137751bf45d0a9baf1c16ac48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:46 +0000
Subject: [PATCH 73/73] fix: LatentDirectionalGridCRF.loss_augmented_inference
 without return_energy

---
 pystruct/models/latent_grid_crf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pystruct/models/latent_grid_crf.py b/pystruct/models/latent_grid_crf.py
index 41e8d52..41dab4b 100644
--- a/pystruct/models/latent_grid_crf.py
+++ b/pystruct/models/latent_grid_crf.py
@@ -86,7 +86,9 @@ class LatentDirectionalGridCRF(DirectionalGridCRF, LatentGridCRF):
                         symmetric=False)
         return np.array(H).reshape(Y.shape)
 
-    def loss_augmented_inference(self, x, h, w, relaxed=False):
+    def loss_augmented_inference(self, x, h, w, relaxed=False,
+                                 return_energy=False):
         h = LatentGridCRF.loss_augmented_inference(self, x, h, w,
-                                                   relaxed=relaxed)
+                                                   relaxed=relaxed,
+                                                   return_energy=return_energy)
         return h
-- 
2.43.0

