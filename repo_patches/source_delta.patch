From 377591d391008861ed8d66674e6fcd37f5897e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:52 +0000
Subject: [PATCH 01/26] fix: orient triangle columns of B2 by the stored edge
 directions

---
 .../simplicial_complex/simplicial_complex.py  | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/pytspl/simplicial_complex/simplicial_complex.py b/pytspl/simplicial_complex/simplicial_complex.py
index 89233e9..48e736d 100644
--- a/pytspl/simplicial_complex/simplicial_complex.py
+++ b/pytspl/simplicial_complex/simplicial_complex.py
@@ -99,21 +99,24 @@ class SimplicialComplex:
         for j, triangle in enumerate(triangles):
             a, b, c = triangle
             try:
-                index_a = edges.index((a, b))
+                index_a, sign_a = edges.index((a, b)), 1
             except ValueError:
-                index_a = edges.index((b, a))
+                index_a, sign_a = edges.index((b, a)), -1
             try:
-                index_b = edges.index((b, c))
+                index_b, sign_b = edges.index((b, c)), 1
             except ValueError:
-                index_b = edges.index((c, b))
+                index_b, sign_b = edges.index((c, b)), -1
             try:
-                index_c = edges.index((a, c))
+                index_c, sign_c = edges.index((a, c)), 1
             except ValueError:
-                index_c = edges.index((c, a))
+                index_c, sign_c = edges.index((c, a)), -1
 
+            # an edge stored against the direction of the triangle enters
+            # with the opposite sign, so that B1 @ B2 = 0 holds; the column
+            # is oriented along the first edge of the triangle
             B2[index_a, j] = 1
-            B2[index_c, j] = -1
-            B2[index_b, j] = 1
+            B2[index_c, j] = -sign_a * sign_c
+            B2[index_b, j] = sign_a * sign_b
 
         return B2
 
-- 
2.43.0


From 4705540a9a9474e106510b4d6346941993107f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:21 +0000
Subject: [PATCH 02/26] fix: keep edge features with their own record in
 read_csv and read_tntp

---
 pytspl/io/network_reader.py | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/pytspl/io/network_reader.py b/pytspl/io/network_reader.py
index da6b74c..15ab5b3 100644
--- a/pytspl/io/network_reader.py
+++ b/pytspl/io/network_reader.py
@@ -64,6 +64,32 @@ def _extract_nodes_edges(
     return nodes, edges
 
 
+def _first_rows(
+    df: pd.DataFrame, src_col: str, dest_col: str, start_index_zero: bool
+) -> dict:
+    """
+    Map each directed record to the position of its first row, since the
+    edges are sorted and deduplicated and no longer follow the row order.
+
+    Args:
+        df (pd.DataFrame): The dataframe containing the edges.
+        src_col (str): The name of the column containing the source nodes.
+        dest_col (str): The name of the column containing the destination
+        start_index_zero (bool): True, if the node ids start from 0. False,
+        if the node ids start from 1.
+
+    Returns:
+        dict: Position of the first row of each (source, destination).
+    """
+    offset = 0 if start_index_zero else 1
+
+    rows = {}
+    for i, (src, dest) in enumerate(zip(df[src_col], df[dest_col])):
+        rows.setdefault((int(src) - offset, int(dest) - offset), i)
+
+    return rows
+
+
 def read_tntp(
     filename: str,
     src_col: str,
@@ -113,7 +139,9 @@ def read_tntp(
     edge_features = {}
     node_features = {}
     if len(feature_cols) > 0:
-        for i, (from_node, to_node) in enumerate(edges):
+        rows = _first_rows(df, src_col, dest_col, start_index_zero)
+        for from_node, to_node in edges:
+            i = rows[(from_node, to_node)]
             edge_features[(from_node, to_node)] = df.iloc[i][
                 feature_cols
             ].to_dict()
@@ -164,7 +192,9 @@ def read_csv(
     node_features = {}
 
     if len(feature_cols) > 0:
-        for i, (from_node, to_node) in enumerate(edges):
+        rows = _first_rows(df, src_col, dest_col, start_index_zero)
+        for from_node, to_node in edges:
+            i = rows[(from_node, to_node)]
             edge_features[(from_node, to_node)] = df.iloc[i][
                 feature_cols
             ].to_dict()
-- 
2.43.0


From df013841475d8315233d8526da33225cfa4f244a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:21 +0000
Subject: [PATCH 03/26] fix: read_csv without feature columns

---
 pytspl/io/network_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytspl/io/network_reader.py b/pytspl/io/network_reader.py
index 15ab5b3..db607dd 100644
--- a/pytspl/io/network_reader.py
+++ b/pytspl/io/network_reader.py
@@ -191,7 +191,7 @@ def read_csv(
     edge_features = {}
     node_features = {}
 
-    if len(feature_cols) > 0:
+    if feature_cols is not None and len(feature_cols) > 0:
         rows = _first_rows(df, src_col, dest_col, start_index_zero)
         for from_node, to_node in edges:
             i = rows[(from_node, to_node)]
-- 
2.43.0


From aa7dd682f37c622f1e1b742b443728d3a2955eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:21 +0000
Subject: [PATCH 04/26] fix: keep the column order of B1 in read_B1_B2, which
 B2 refers to

---
 pytspl/io/network_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytspl/io/network_reader.py b/pytspl/io/network_reader.py
index db607dd..fe4b352 100644
--- a/pytspl/io/network_reader.py
+++ b/pytspl/io/network_reader.py
@@ -265,8 +265,9 @@ def read_B1_B2(B1_filename: str, B2_filename: str) -> tuple:
 
         edges.append((from_node, to_node))
 
+    # the edges keep the column order of B1, which the rows of B2 (and the
+    # flow files) refer to
     nodes = list(range(max(nodes) + 1))
-    edges.sort()
 
     scbuilder = SCBuilder(nodes=nodes, edges=edges)
     triangles = read_B2(B2_filename, np.asarray(edges))
-- 
2.43.0


From ea08f46c58cad8229af0e2ac9b79f1b8f8aa7379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:35 +0000
Subject: [PATCH 05/26] fix: distance condition for reversed edges and zero
 distances

---
 pytspl/simplicial_complex/scbuilder.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/pytspl/simplicial_complex/scbuilder.py b/pytspl/simplicial_complex/scbuilder.py
index e6066a3..6768e57 100644
--- a/pytspl/simplicial_complex/scbuilder.py
+++ b/pytspl/simplicial_complex/scbuilder.py
@@ -63,23 +63,21 @@ class SCBuilder:
         """
         triangle_nodes = self.triangles()
 
+        def distance(u, v):
+            # the edge may be stored in either direction
+            edge = (u, v) if (u, v) in self.edge_features else (v, u)
+            dist = self.edge_features[edge][dist_col_name]
+            # a missing distance never satisfies the condition
+            return float("inf") if dist is None else dist
+
         conditional_tri = []
         for a, b, c in triangle_nodes:
             if (
-                self.edge_features[(a, b)][dist_col_name]
-                and self.edge_features[(b, c)][dist_col_name]
-                and self.edge_features[(a, c)][dist_col_name]
+                distance(a, b) < epsilon
+                and distance(a, c) < epsilon
+                and distance(b, c) < epsilon
             ):
-                dist_ab = self.edge_features[(a, b)][dist_col_name]
-                dist_ac = self.edge_features[(b, c)][dist_col_name]
-                dist_bc = self.edge_features[(a, c)][dist_col_name]
-
-                if (
-                    dist_ab < epsilon
-                    and dist_ac < epsilon
-                    and dist_bc < epsilon
-                ):
-                    conditional_tri.append([a, b, c])
+                conditional_tri.append([a, b, c])
 
         return conditional_tri
 
-- 
2.43.0


From 61baa6814e69eebaffc7746f33f14a65c2050ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:35 +0000
Subject: [PATCH 06/26] fix: generate_random_simplicial_complex reproducible
 from its seed

---
 pytspl/io/sc_generator.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pytspl/io/sc_generator.py b/pytspl/io/sc_generator.py
index bf3ca79..a8aeab6 100644
--- a/pytspl/io/sc_generator.py
+++ b/pytspl/io/sc_generator.py
@@ -21,12 +21,13 @@ def generate_random_simplicial_complex(
         SimplicialComplex: The generated simplicial complex.
         dict: The coordinates of the nodes.
     """
-    G = nx.erdos_renyi_graph(n=num_of_nodes, p=p, seed=seed, directed=False)
-
-    # get random weights
     import random
 
-    weights = [random.random() for i in range(G.number_of_edges())]
+    rng = random.Random(seed)
+    G = nx.erdos_renyi_graph(n=num_of_nodes, p=p, seed=rng, directed=False)
+
+    # get random weights
+    weights = [rng.random() for i in range(G.number_of_edges())]
     # set the weights
     for i, (u, v) in enumerate(G.edges()):
         G[u][v]["distance"] = weights[i]
@@ -45,6 +46,6 @@ def generate_random_simplicial_complex(
     ).to_simplicial_complex(
         condition="distance", dist_threshold=dist_threshold
     )
-    coordinates = nx.spring_layout(G)
+    coordinates = nx.spring_layout(G, seed=seed)
 
     return sc, coordinates
-- 
2.43.0


From 9f4c1821236dbc0665a245e581132ea7dce4f584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:53 +0000
Subject: [PATCH 07/26] fix: do not alter the process-wide warning state in
 get_eigendecomposition

---
 pytspl/decomposition/eigendecomposition.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/pytspl/decomposition/eigendecomposition.py b/pytspl/decomposition/eigendecomposition.py
index fdf7b79..a587cf5 100644
--- a/pytspl/decomposition/eigendecomposition.py
+++ b/pytspl/decomposition/eigendecomposition.py
@@ -6,10 +6,8 @@ into gradient, curl and harmonic eigenvalues and eigenvectors
 (eigenpairs).
 """
 
-import warnings
-
 import numpy as np
-from scipy.sparse.linalg import eigsh
+from scipy.linalg import eigh
 
 
 def get_total_variance(laplacian_matrix: np.ndarray) -> float:
@@ -150,10 +148,10 @@ def get_eigendecomposition(
         lap_mat, np.ndarray
     ), "Laplacian matrix must be a numpy array"
 
-    with warnings.catch_warnings(record=True):
-        # eigenvalues, eigenvectors = np.linalg.eig(lap_mat)
-        eigenvalues, eigenvectors = eigsh(lap_mat, k=lap_mat.shape[0])
-        # set the values below tolerance to zero
-        eigenvalues[np.abs(eigenvalues) < tolerance] = 0
+    # all the eigenpairs are needed, for which eigsh falls back to eigh with
+    # a warning (warnings.catch_warnings is not thread-safe)
+    eigenvalues, eigenvectors = eigh(lap_mat)
+    # set the values below tolerance to zero
+    eigenvalues[np.abs(eigenvalues) < tolerance] = 0
 
     return eigenvectors, eigenvalues
-- 
2.43.0


From f787b9922dd67c5bacd6938943ba0c2f31599490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:17 +0000
Subject: [PATCH 08/26] fix: reset every field of the filter history

---
 pytspl/filters/base_filter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pytspl/filters/base_filter.py b/pytspl/filters/base_filter.py
index 9ec2bd9..e60d2c6 100644
--- a/pytspl/filters/base_filter.py
+++ b/pytspl/filters/base_filter.py
@@ -30,6 +30,7 @@ class BaseFilter:
         self.history = {
             "filter": None,
             "f_estimated": None,
+            "frequency_responses": None,
             "extracted_component_error": None,
             "filter_error": None,
         }
-- 
2.43.0


From cbbf256d48f187c48f17e8563f0e03698632edf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:17 +0000
Subject: [PATCH 09/26] fix: publish a filter's history in one assignment

---
 pytspl/filters/base_filter.py             | 19 ++++++++++++-------
 pytspl/filters/simplicial_trend_filter.py | 17 ++++++++++-------
 2 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/pytspl/filters/base_filter.py b/pytspl/filters/base_filter.py
index e60d2c6..87c7e0b 100644
--- a/pytspl/filters/base_filter.py
+++ b/pytspl/filters/base_filter.py
@@ -44,13 +44,18 @@ class BaseFilter:
         filter_error: np.ndarray = np.array([]),
     ) -> None:
         """Set the history of the filter design."""
-        self.history["filter"] = filter.astype(float)
-        self.history["f_estimated"] = f_estimated.astype(float)
-        self.history["frequency_responses"] = frequency_responses.astype(float)
-        self.history["extracted_component_error"] = (
-            extracted_component_error.astype(float)
-        )
-        self.history["filter_error"] = filter_error.astype(float)
+        # a new dictionary, published in one assignment: an interrupted run
+        # cannot leave a mixture of two runs, and the record of an earlier
+        # run is never written to
+        self.history = {
+            "filter": filter.astype(float),
+            "f_estimated": f_estimated.astype(float),
+            "frequency_responses": frequency_responses.astype(float),
+            "extracted_component_error": extracted_component_error.astype(
+                float
+            ),
+            "filter_error": filter_error.astype(float),
+        }
 
     @staticmethod
     def calculate_error_NRMSE(f_estimated: np.ndarray, f_true) -> float:
diff --git a/pytspl/filters/simplicial_trend_filter.py b/pytspl/filters/simplicial_trend_filter.py
index 15e2e6c..4918161 100644
--- a/pytspl/filters/simplicial_trend_filter.py
+++ b/pytspl/filters/simplicial_trend_filter.py
@@ -57,13 +57,16 @@ class SimplicialTrendFilter(BaseFilter):
             errors (np.ndarray): The errors.
             correlations (np.ndarray): The correlations.
         """
-        self.history["filter"] = (
-            filter.astype(float) if filter is not None else None
-        )
-        self.history["frequency_responses"] = frequency_responses.astype(float)
-        self.history["component_flow"] = component_flow.astype(float)
-        self.history["errors"] = errors.astype(float)
-        self.history["correlations"] = correlations.astype(float)
+        # a new dictionary, published in one assignment: an interrupted run
+        # cannot leave a mixture of two runs, and the record of an earlier
+        # run is never written to
+        self.history = {
+            "filter": filter.astype(float) if filter is not None else None,
+            "frequency_responses": frequency_responses.astype(float),
+            "component_flow": component_flow.astype(float),
+            "errors": errors.astype(float),
+            "correlations": correlations.astype(float),
+        }
 
     @staticmethod
     def _solver(
-- 
2.43.0


From 5975476d6080692986d18939fe6fdd659f87bef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:30 +0000
Subject: [PATCH 10/26] fix: get_total_variance of a simplicial complex always
 failed

---
 pytspl/simplicial_complex/simplicial_complex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytspl/simplicial_complex/simplicial_complex.py b/pytspl/simplicial_complex/simplicial_complex.py
index 48e736d..68f83e9 100644
--- a/pytspl/simplicial_complex/simplicial_complex.py
+++ b/pytspl/simplicial_complex/simplicial_complex.py
@@ -483,7 +483,7 @@ class SimplicialComplex:
         Returns:
             np.ndarray: The total variance of the SC.
         """
-        laplacian_matrix = self.laplacian_matrix()
+        laplacian_matrix = self.laplacian_matrix().toarray()
         return get_total_variance(laplacian_matrix)
 
     def get_divergence(self, flow: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 214b183047a59b9eca8b403380c0d3f32fd0faba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:30 +0000
Subject: [PATCH 11/26] fix: apply every requested shifting step

---
 pytspl/simplicial_complex/simplicial_complex.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/pytspl/simplicial_complex/simplicial_complex.py b/pytspl/simplicial_complex/simplicial_complex.py
index 68f83e9..84b5605 100644
--- a/pytspl/simplicial_complex/simplicial_complex.py
+++ b/pytspl/simplicial_complex/simplicial_complex.py
@@ -358,12 +358,9 @@ class SimplicialComplex:
         """
         L1L = self.lower_laplacian_matrix(rank=1)
 
-        if steps == 1:
-            # L(1, l) @ f
+        for _ in range(steps):
+            # L(1, l)**steps @ f
             flow = L1L @ flow
-        else:
-            # L(1, l)**2 @ f
-            flow = L1L @ (L1L @ flow)
 
         return flow
 
@@ -383,12 +380,9 @@ class SimplicialComplex:
         """
         L1U = self.upper_laplacian_matrix(rank=1)
 
-        if steps == 1:
-            # L(1, u) @ f
+        for _ in range(steps):
+            # L(1, u)**steps @ f
             flow = L1U @ flow
-        else:
-            # L(1, u)**2 @ f
-            flow = L1U @ (L1U @ flow)
 
         return flow
 
-- 
2.43.0


From b247d14a3f274aac6b9bb635240b84149f4df536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:30 +0000
Subject: [PATCH 12/26] fix: the documented rank 2 Hodge Laplacian

---
 pytspl/simplicial_complex/simplicial_complex.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pytspl/simplicial_complex/simplicial_complex.py b/pytspl/simplicial_complex/simplicial_complex.py
index 84b5605..ed8f221 100644
--- a/pytspl/simplicial_complex/simplicial_complex.py
+++ b/pytspl/simplicial_complex/simplicial_complex.py
@@ -339,6 +339,9 @@ class SimplicialComplex:
             return self.lower_laplacian_matrix(
                 rank=rank
             ) + self.upper_laplacian_matrix(rank=rank)
+        elif rank == 2:
+            # there are no 3-simplices
+            return self.lower_laplacian_matrix(rank=rank)
         else:
             raise ValueError("Rank must be between 0 and 2.")
 
-- 
2.43.0


From 8bc9450aa8c753c9089460a57556c2e78598d966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:03 +0000
Subject: [PATCH 13/26] fix: do not share default containers between complexes

---
 pytspl/simplicial_complex/scbuilder.py        |  8 ++---
 .../simplicial_complex/simplicial_complex.py  | 31 ++++++++++---------
 2 files changed, 20 insertions(+), 19 deletions(-)

diff --git a/pytspl/simplicial_complex/scbuilder.py b/pytspl/simplicial_complex/scbuilder.py
index 6768e57..a13486b 100644
--- a/pytspl/simplicial_complex/scbuilder.py
+++ b/pytspl/simplicial_complex/scbuilder.py
@@ -20,8 +20,8 @@ class SCBuilder:
         self,
         nodes: list,
         edges: list,
-        node_features: dict = {},
-        edge_features: dict = {},
+        node_features: dict = None,
+        edge_features: dict = None,
     ):
         """Initialize the SCBuilder object."""
         # 0-simplices - nodes
@@ -30,8 +30,8 @@ class SCBuilder:
         self.edges = edges
 
         # node and edge features
-        self.node_features = node_features
-        self.edge_features = edge_features
+        self.node_features = node_features if node_features is not None else {}
+        self.edge_features = edge_features if edge_features is not None else {}
 
     def triangles(self) -> list:
         """
diff --git a/pytspl/simplicial_complex/simplicial_complex.py b/pytspl/simplicial_complex/simplicial_complex.py
index ed8f221..846bdf2 100644
--- a/pytspl/simplicial_complex/simplicial_complex.py
+++ b/pytspl/simplicial_complex/simplicial_complex.py
@@ -27,33 +27,34 @@ class SimplicialComplex:
 
     def __init__(
         self,
-        nodes: list = [],
-        edges: list = [],
-        triangles: list = [],
-        node_features: dict = {},
-        edge_features: dict = {},
+        nodes: list = None,
+        edges: list = None,
+        triangles: list = None,
+        node_features: dict = None,
+        edge_features: dict = None,
     ):
         """
         Create a simplicial complex from nodes, edges, and triangles.
 
         Args:
-            nodes (list, optional): List of nodes. Defaults to [].
-            edges (list, optional): List of edges. Defaults to [].
-            triangles (list, optional): List of triangles. Defaults to [].
+            nodes (list, optional): List of nodes. Defaults to an empty list.
+            edges (list, optional): List of edges. Defaults to an empty list.
+            triangles (list, optional): List of triangles. Defaults to an
+            empty list.
             node_features (dict, optional): Dict of node features.
             Defaults to {}.
             edge_features (dict, optional): Dict of edge features.
             Defaults to {}.
         """
-        self.nodes = nodes
-        self.edges = edges
-        self.triangles = triangles
+        self.nodes = nodes if nodes is not None else []
+        self.edges = edges if edges is not None else []
+        self.triangles = triangles if triangles is not None else []
 
-        self.node_features = node_features
-        self.edge_features = edge_features
+        self.node_features = node_features if node_features is not None else {}
+        self.edge_features = edge_features if edge_features is not None else {}
 
-        self.B1 = self.edges_to_B1(edges, len(nodes))
-        self.B2 = self.triangles_to_B2(triangles, edges)
+        self.B1 = self.edges_to_B1(self.edges, len(self.nodes))
+        self.B2 = self.triangles_to_B2(self.triangles, self.edges)
 
     def print_summary(self):
         """
-- 
2.43.0


From c832e6efa92dcb495118ae3b1c543ab1a37402ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:03 +0000
Subject: [PATCH 14/26] fix: spring layout includes nodes without edges

---
 pytspl/plot/plot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pytspl/plot/plot.py b/pytspl/plot/plot.py
index 6aa13fb..9479410 100644
--- a/pytspl/plot/plot.py
+++ b/pytspl/plot/plot.py
@@ -47,6 +47,7 @@ class SCPlot:
         if self.pos is None:
             # use spring layout if no coordinates are provided
             G = nx.Graph()
+            G.add_nodes_from(self.sc.nodes)
             G.add_edges_from(self.sc.edges)
             layout = nx.spring_layout(G)
             self.pos = layout
-- 
2.43.0


From 61a75947c1a2ead8b299feb803bf8a3125c7952c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:19 +0000
Subject: [PATCH 15/26] fix: draw node labels on the given axes

---
 pytspl/plot/plot.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pytspl/plot/plot.py b/pytspl/plot/plot.py
index 9479410..d836abd 100644
--- a/pytspl/plot/plot.py
+++ b/pytspl/plot/plot.py
@@ -184,6 +184,7 @@ class SCPlot:
                 font_weight=font_weight,
                 font_color=font_color,
                 alpha=alpha,
+                ax=ax,
             )
 
         node_collection.set_zorder(2)
@@ -194,6 +195,7 @@ class SCPlot:
         font_color: str = "k",
         font_weight: str = "normal",
         alpha=None,
+        ax=None,
     ) -> None:
         """
         Draw the labels of the nodes.
@@ -207,10 +209,15 @@ class SCPlot:
             Defaults to 'normal'.
             alpha (float, optional): The transparency of the node labels.
             Defaults to None.
+            ax (matplotlib.axes.Axes, optional): The axes object.
+            Defaults to None.
         """
+        if ax is None:
+            ax = plt.gca()
+
         for node_id in self.sc.nodes:
             (x, y) = self.pos[node_id]
-            plt.text(
+            ax.text(
                 x,
                 y,
                 node_id,
-- 
2.43.0


From b5a534847e9bab85baa8a486039d5827bb47a188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:19 +0000
Subject: [PATCH 16/26] fix: draw_eigenvectors draws on a figure of its own

---
 pytspl/plot/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytspl/plot/plot.py b/pytspl/plot/plot.py
index d836abd..b86ca66 100644
--- a/pytspl/plot/plot.py
+++ b/pytspl/plot/plot.py
@@ -735,11 +735,11 @@ class SCPlot:
         # adjust the figure size to fit all the plots
         if num_rows > 1:
             new_figsize = (figsize[0], figsize[1] * num_rows)
-            fig = plt.figure(1, figsize=new_figsize)
+            fig = plt.figure(figsize=new_figsize)
         else:
             if num_cols != 1:
                 figsize = ((figsize[0] / viz_per_row) * num_cols, figsize[1])
-            fig = plt.figure(1, figsize=figsize)
+            fig = plt.figure(figsize=figsize)
 
         for i, eig_vec in enumerate(eigenvector_indices):
 
-- 
2.43.0


From 58afceb70329f77743407c0a9613d8b94de93083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:19 +0000
Subject: [PATCH 17/26] fix: node colors use the colormap of their colorbar

---
 pytspl/plot/plot.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pytspl/plot/plot.py b/pytspl/plot/plot.py
index b86ca66..982f57d 100644
--- a/pytspl/plot/plot.py
+++ b/pytspl/plot/plot.py
@@ -158,6 +158,9 @@ class SCPlot:
             color_map.set_clim(vmin=vmin, vmax=vmax)
             fig = ax.get_figure()
             fig.colorbar(mappable=color_map, ax=ax)
+        else:
+            # there are no values to map to colors
+            cmap = None
 
         nodes = self.sc.nodes
 
@@ -167,6 +170,7 @@ class SCPlot:
             s=node_size,
             c=node_color,
             edgecolors=node_edge_colors,
+            cmap=cmap,
             vmin=vmin,
             vmax=vmax,
             alpha=alpha,
-- 
2.43.0


From 6a41e06e0aac640c3880ff0b65a7f1c59c196c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:46 +0000
Subject: [PATCH 18/26] fix: documented error for an untrained model

---
 pytspl/hogde_gp/hodge_gp_trainer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pytspl/hogde_gp/hodge_gp_trainer.py b/pytspl/hogde_gp/hodge_gp_trainer.py
index edabcd7..89c53fa 100644
--- a/pytspl/hogde_gp/hodge_gp_trainer.py
+++ b/pytspl/hogde_gp/hodge_gp_trainer.py
@@ -32,6 +32,9 @@ class HodgeGPTrainer:
 
         self.output_device = torch.device(output_device)
 
+        # the trained model, None before training
+        self.model = None
+
     def get_laplacians(self) -> list:
         """
         Return the Laplacian matrices as a list of tensors.
-- 
2.43.0


From dae840b3a82c105aa0f29360d4dfbf63ff368d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:46 +0000
Subject: [PATCH 19/26] fix: training after a prediction trained in evaluation
 mode

---
 pytspl/hogde_gp/hodge_gp_trainer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pytspl/hogde_gp/hodge_gp_trainer.py b/pytspl/hogde_gp/hodge_gp_trainer.py
index 89c53fa..b408f7f 100644
--- a/pytspl/hogde_gp/hodge_gp_trainer.py
+++ b/pytspl/hogde_gp/hodge_gp_trainer.py
@@ -247,6 +247,10 @@ class HodgeGPTrainer:
             optimizer (_type_, optional): The optimizer. Defaults to
             torch.optim.Adam.
         """
+        # predict leaves the model and the likelihood in evaluation mode
+        model.train()
+        likelihood.train()
+
         # Use the adam optimizer
         optimizer = optimizer(model.parameters(), lr=learning_rate)
         # Includes GaussianLikelihood parameters
-- 
2.43.0


From 01526e3293cf8fbbe354c1ab2199f4dcfd73a3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:46 +0000
Subject: [PATCH 20/26] fix: report a kernel without forex implementation as
 invalid

---
 pytspl/hogde_gp/kernel_serializer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pytspl/hogde_gp/kernel_serializer.py b/pytspl/hogde_gp/kernel_serializer.py
index 3f695da..0755a02 100644
--- a/pytspl/hogde_gp/kernel_serializer.py
+++ b/pytspl/hogde_gp/kernel_serializer.py
@@ -53,6 +53,10 @@ class KernelSerializer:
 
         if data_name == "forex":
             kernels = Kernels.get_forex_kernels()
+            if kernel_type not in kernels:
+                raise ValueError(
+                    f"Invalid kernel type. Choose from {list(kernels)}"
+                )
             kernel = kernels[kernel_type]
             return kernel
         else:
-- 
2.43.0


From 79399789660a2e3222196ffd7d072f25d1f97c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:46 +0000
Subject: [PATCH 21/26] fix: only a missing coordinates or flow file counts as
 missing

---
 pytspl/io/network_reader.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pytspl/io/network_reader.py b/pytspl/io/network_reader.py
index fe4b352..bd56b3d 100644
--- a/pytspl/io/network_reader.py
+++ b/pytspl/io/network_reader.py
@@ -13,8 +13,6 @@ The module also provides functionality to read the coordinates
 and flow data.
 """
 
-import os
-
 import numpy as np
 import pandas as pd
 
@@ -298,10 +296,11 @@ def read_coordinates(
     Returns:
         dict: A dictionary of coordinates (node_id : (x, y)).
     """
-    if not os.path.exists(filename):
+    try:
+        df_coords = pd.read_csv(filename, sep=delimiter)
+    except FileNotFoundError:
         return None
 
-    df_coords = pd.read_csv(filename, sep=delimiter)
     df_coords.columns = [s.strip() for s in df_coords.columns]
 
     if not start_index_zero:
@@ -330,9 +329,9 @@ def read_flow(filename: str, sep: str = "\t", header="infer") -> dict:
         pd.DataFrame: The flow data.
     """
     flow = pd.DataFrame()
-    if os.path.exists(filename):
+    try:
         flow = pd.read_csv(filename, sep=sep, header=header)
-    else:
+    except FileNotFoundError:
         print("WARNING: Flow data file not found.")
 
     return flow
-- 
2.43.0


From 514077d05f5b886c4c6429367969f56cbcf088c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:41 +0000
Subject: [PATCH 22/26] fix: a solver ending without a solution is an error,
 not NaN

---
 pytspl/filters/simplicial_trend_filter.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pytspl/filters/simplicial_trend_filter.py b/pytspl/filters/simplicial_trend_filter.py
index 4918161..ba8191a 100644
--- a/pytspl/filters/simplicial_trend_filter.py
+++ b/pytspl/filters/simplicial_trend_filter.py
@@ -85,8 +85,17 @@ class SimplicialTrendFilter(BaseFilter):
         )
         prob = cp.Problem(objective)
         prob.solve()
+        SimplicialTrendFilter._check_solved(prob, f_opt)
         return f_opt
 
+    @staticmethod
+    def _check_solved(prob, f_opt) -> None:
+        """Raise a ValueError if the solver ended without a solution."""
+        if f_opt.value is None:
+            raise ValueError(
+                f"The solver did not find a solution: {prob.status}."
+            )
+
     @staticmethod
     def _calculate_correlation(A: np.ndarray, B: np.ndarray) -> np.ndarray:
         """Compute the correlation between two arrays."""
@@ -460,6 +469,7 @@ class SimplicialTrendFilter(BaseFilter):
                 ]
                 prob = cp.Problem(objective, constraints)
                 prob.solve()
+                self._check_solved(prob, f_opt)
 
                 # store the frequency response
                 frequency_responses[:, i, j] = f_opt.value
-- 
2.43.0


From dc8cdcf0fe75824579e55fdc93c9a6c4b8b70591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:01 +0000
Subject: [PATCH 23/26] fix: lay out the figure of the drawn eigenvectors, not
 the current one

---
 pytspl/plot/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytspl/plot/plot.py b/pytspl/plot/plot.py
index 982f57d..05a0ce2 100644
--- a/pytspl/plot/plot.py
+++ b/pytspl/plot/plot.py
@@ -762,5 +762,5 @@ class SCPlot:
 
             self.draw_network(edge_flow=flow, ax=ax, with_labels=with_labels)
 
-        plt.tight_layout()
+        fig.tight_layout()
         plt.show()
-- 
2.43.0


From 682017962437140c7dc5f78bfd61697229519568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:01 +0000
Subject: [PATCH 24/26] fix: overlapping predictions altered gpytorch's
 process-wide settings

---
 pytspl/hogde_gp/hodge_gp_trainer.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pytspl/hogde_gp/hodge_gp_trainer.py b/pytspl/hogde_gp/hodge_gp_trainer.py
index b408f7f..8fd2387 100644
--- a/pytspl/hogde_gp/hodge_gp_trainer.py
+++ b/pytspl/hogde_gp/hodge_gp_trainer.py
@@ -1,5 +1,7 @@
 """Module for training the Hodge Gaussian Process model."""
 
+import threading
+
 import gpytorch
 import numpy as np
 import torch
@@ -10,6 +12,8 @@ from pytspl.simplicial_complex import SimplicialComplex
 
 DATA_TYPE = torch.float32
 
+_SETTINGS_LOCK = threading.Lock()
+
 
 class HodgeGPTrainer:
     def __init__(
@@ -299,7 +303,13 @@ class HodgeGPTrainer:
         predictions = None
 
         # Make predictions by feeding model through likelihood
-        with torch.no_grad(), gpytorch.settings.fast_pred_var():
+        # (gpytorch's settings are process-wide: overlapping predictions
+        # would restore each other's values)
+        with (
+            _SETTINGS_LOCK,
+            torch.no_grad(),
+            gpytorch.settings.fast_pred_var(),
+        ):
             # Test points are regularly spaced along [0,1]
             predictions = likelihood(model(x_test))
 
-- 
2.43.0


From 5518b74531a7363728ff62586d797e6671bdfa0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:16 +0000
Subject: [PATCH 25/26] fix: build the covariance of the model that was trained

build_matern_kernel evaluated the Hodge-compositional formula whatever
kernel the model has, so a trained matern_non_hc model got a covariance
it does not use.
---
 pytspl/hogde_gp/hodge_gp_trainer.py | 42 +++--------------------------
 1 file changed, 4 insertions(+), 38 deletions(-)

diff --git a/pytspl/hogde_gp/hodge_gp_trainer.py b/pytspl/hogde_gp/hodge_gp_trainer.py
index 8fd2387..f0c25c2 100644
--- a/pytspl/hogde_gp/hodge_gp_trainer.py
+++ b/pytspl/hogde_gp/hodge_gp_trainer.py
@@ -365,44 +365,10 @@ class HodgeGPTrainer:
         parameters = self.get_model_parameters()
         print(parameters)
 
-        mu = parameters["raw_mu"]
-        mu_down = parameters["raw_mu_down"]
-        mu_up = parameters["raw_mu_up"]
-        kappa = parameters["raw_kappa"]
-        kappa_down = parameters["raw_kappa_down"]
-        kappa_up = parameters["raw_kappa_up"]
-        h = parameters["raw_h"]
-        h_down = parameters["raw_h_down"]
-        h_up = parameters["raw_h_up"]
-        scale = parameters["raw_outputscale"]
-
-        eigenvecs_h, eigenvals_h = self.sc.get_component_eigenpair(
-            component="harmonic"
-        )
-        eigenvecs_g, eigenvals_g = self.sc.get_component_eigenpair(
-            component="gradient"
-        )
-        eigenvecs_c, eigenvals_c = self.sc.get_component_eigenpair(
-            component="curl"
-        )
-
-        # harmonic edge gp
-        k0 = np.power(2 * mu / kappa / kappa + eigenvals_h, -mu)
-        k0[:] = mu
-
-        # gradient edge gp
-        k1 = np.power(
-            2 * mu_down / kappa_down / kappa_down + eigenvals_g, -mu_down
-        )
-
-        # curl edge gp
-        k2 = np.power(2 * mu_up / kappa_up / kappa_up + eigenvals_c, -mu_up)
-
-        K0 = eigenvecs_h * k0 @ eigenvecs_h.T
-        K1 = eigenvecs_g * k1 @ eigenvecs_g.T
-        K2 = eigenvecs_c * k2 @ eigenvecs_c.T
-
-        K = scale * (h * K0 + h_down * K1 + h_up * K2)
+        # covariance the trained model assigns to every pair of edges
+        x = torch.arange(len(self.sc.edges), device=self.output_device)
+        with torch.no_grad():
+            K = self.model.covar_module(x, x).to_dense().cpu().numpy()
 
         # variance
         variance = np.diag(K)
-- 
2.43.0


From cf5425ebd2b5eb17a5b659a8f9c8d3029aa636d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:12 +0000
Subject: [PATCH 26/26] fix: overlapping trainings and covariances altered
 gpytorch's process-wide settings

---
 pytspl/hogde_gp/hodge_gp_trainer.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pytspl/hogde_gp/hodge_gp_trainer.py b/pytspl/hogde_gp/hodge_gp_trainer.py
index f0c25c2..46a46ed 100644
--- a/pytspl/hogde_gp/hodge_gp_trainer.py
+++ b/pytspl/hogde_gp/hodge_gp_trainer.py
@@ -264,11 +264,13 @@ class HodgeGPTrainer:
         for i in range(training_iters):
             # Zero gradients from previous iteration
             optimizer.zero_grad()
-            # Output from model
-            output = model(x_train)
-            # Calculate loss and backpropagation gradients
-            loss = -mll(output, y_train)
-            loss.backward()
+            # (evaluating kernels switches gpytorch's process-wide settings)
+            with _SETTINGS_LOCK:
+                # Output from model
+                output = model(x_train)
+                # Calculate loss and backpropagation gradients
+                loss = -mll(output, y_train)
+                loss.backward()
             print(
                 "Iteration %d/%d - Loss: %.3f "
                 % (i + 1, training_iters, loss.item())
@@ -367,7 +369,7 @@ class HodgeGPTrainer:
 
         # covariance the trained model assigns to every pair of edges
         x = torch.arange(len(self.sc.edges), device=self.output_device)
-        with torch.no_grad():
+        with _SETTINGS_LOCK, torch.no_grad():
             K = self.model.covar_module(x, x).to_dense().cpu().numpy()
 
         # variance
-- 
2.43.0

