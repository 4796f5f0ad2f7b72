From 7598ffa89b9d2145249846c5017560c61ea15c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:11 +0000
Subject: [PATCH 01/23] fix: keep covered edges in the neighborhoods of
 reduction rule 3, and undo it on every path

Rule 3 looked for prisoners and exits among the uncovered edges only, so it
deleted vertices that no clique could be expanded to, and the deletion was
not undone when the reductions alone covered all edges: covers lost edges.
Deletions are now undone last one first, in later cliques only, and are not
shared between the branches of the search.
---
 medil/ecc_algorithms.py |  5 ++--
 medil/graph.py          | 58 +++++++++++++++++++++++------------------
 2 files changed, 35 insertions(+), 28 deletions(-)

diff --git a/medil/ecc_algorithms.py b/medil/ecc_algorithms.py
index 22af0c0..117a288 100644
--- a/medil/ecc_algorithms.py
+++ b/medil/ecc_algorithms.py
@@ -116,9 +116,8 @@ def branch(graph, k_num_cliques, the_cover, iteration, iteration_max):
         return None
 
     if branch_graph.num_edges == 0:  # equiv to len(branch_graph.extant_edges_idx)==0
-        return (
-            branch_graph.the_cover
-        )  # not in paper, but speeds it up slightly; or rather return None?
+        # not in paper, but speeds it up slightly; or rather return None?
+        return branch_graph.reconstruct_cover(branch_graph.the_cover)
 
     chosen_nbrhood = branch_graph.choose_nbrhood()
     # print("num cliques: {}".format(len([x for x in max_cliques(chosen_nbrhood)])))
diff --git a/medil/graph.py b/medil/graph.py
index 42a31e4..02c545e 100644
--- a/medil/graph.py
+++ b/medil/graph.py
@@ -161,8 +161,9 @@ class ReducibleUndDepGraph(UndirectedDependenceGraph):
         self.nbrs = udg.nbrs
         self.get_edge = udg.get_edge
 
-        if hasattr(udg, "reduced_away"):  # then rule_3 wasn't applied
-            self.reduced_away = udg.reduced_away
+        if hasattr(udg, "reduced_away"):  # then rule_3 was applied
+            self.reduced_away = udg.reduced_away.copy()
+            self.reductions = udg.reductions.copy()
 
     def reset(self):
         self.__init__(self.unreduced)
@@ -273,22 +274,30 @@ class ReducibleUndDepGraph(UndirectedDependenceGraph):
         # a solution for the unreduced instance, add v to every clique
         # containing a prisoner of v.
 
-        for vert, nbrhood in enumerate(self.adj_matrix):
-            if nbrhood[vert] == 0:  # then nbrhood is empty
-                continue
-            exits = np.zeros(self.unreduced.max_num_verts, bool)
-            nbrs = np.flatnonzero(nbrhood)
-            for nbr in nbrs:
-                if (nbrhood.astype(int) - self.adj_matrix[nbr].astype(int) == -1).any():
-                    exits[nbr] = True
+        # the neighborhoods of the paper also include covered edges, but
+        # not vertices that were deleted
+        extant = self.adj_matrix.diagonal().astype(bool)
+        extant_adj = self.unreduced.adj_matrix.astype(bool) & np.outer(extant, extant)
+
+        for vert in np.flatnonzero(extant):
+            nbrhood = extant_adj[vert]
             # exits[j] == True iff j is an exit for vert
             # prisoners[j] == True iff j is a prisoner of vert
-            prisoners = np.logical_and(~exits, self.adj_matrix[vert])
+            exits = nbrhood & np.logical_and(extant_adj, ~nbrhood).any(1)
+            prisoners = nbrhood & ~exits
             prisoners[vert] = False  # a vert isn't its own prisoner
 
+            # edges that still have to be covered after vert is deleted; only
+            # these are sure to be in one of the cliques that will get expanded
+            uncovered = self.adj_matrix.astype(bool)
+            np.fill_diagonal(uncovered, False)
+            needs_vert = uncovered[vert].copy()
+            uncovered[:, vert] = False
+
             # check if each exit is adjacent to at least one prisoner
-            prisoners_dominate_exits = self.adj_matrix[prisoners][:, exits].sum(0)
-            if prisoners_dominate_exits.all():  # apply the rule
+            dominated = uncovered[prisoners].any(0)
+            dominated |= prisoners & uncovered.any(1)
+            if needs_vert.any() and dominated[needs_vert].all():  # apply the rule
                 self.reducing = True
                 if self.verbose:
                     print("\t\t\tapplying Rule 3...")
@@ -297,8 +306,7 @@ class ReducibleUndDepGraph(UndirectedDependenceGraph):
                 edges = np.array(
                     [
                         [vert, u]
-                        for u in np.flatnonzero(self.adj_matrix[vert])
-                        if vert != u
+                        for u in np.flatnonzero(needs_vert)
                     ]
                 )
                 edges.sort()  # so they're in triu, so that self.get_idx works
@@ -307,7 +315,10 @@ class ReducibleUndDepGraph(UndirectedDependenceGraph):
                 # keep track of deleted nodes and their prisoners for reconstructing solution
                 if not hasattr(self, "reduced_away"):
                     self.reduced_away = np.zeros_like(self.adj_matrix, bool)
+                    self.reductions = []
                 self.reduced_away[vert] = prisoners
+                num_cliques = 0 if self.the_cover is None else len(self.the_cover)
+                self.reductions.append((vert, num_cliques))
                 break
 
     def choose_nbrhood(self):
@@ -381,17 +392,14 @@ class ReducibleUndDepGraph(UndirectedDependenceGraph):
         if not hasattr(self, "reduced_away"):  # then rule_3 wasn't applied
             return the_cover
 
-        # add the reduced away vert to all covering cliques containing at least one of its prisoners
-        to_expand = np.flatnonzero(self.reduced_away.sum(1))
-        for vert in to_expand:
+        # add the reduced away vert to all covering cliques containing at
+        # least one of its prisoners; start with the last deleted vert, and
+        # leave out the cliques from before it was deleted, because they can
+        # contain verts that weren't in its neighborhood
+        for vert, num_cliques in reversed(self.reductions):
+            new_cliques = the_cover[num_cliques:]
             prisoners = self.reduced_away[vert]
-            tiled_prisoners = np.tile(
-                prisoners, (len(the_cover), 1)
-            )  # instead of another loop
-            cliques_to_update_mask = (
-                np.logical_and(tiled_prisoners, the_cover).sum(1).astype(bool)
-            )
-            the_cover[cliques_to_update_mask, vert] = 1
+            new_cliques[np.logical_and(new_cliques, prisoners).any(1), vert] = 1
 
         return the_cover
 
-- 
2.43.0


From e6cf2d2b76bd67f85de4ce62bb509f75bc190cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:24 +0000
Subject: [PATCH 02/23] fix: let the cliques chosen in the cover search contain
 covered edges

The search only branched into cliques of uncovered edges, so it missed
minimum covers in which cliques overlap in an edge.
---
 medil/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/medil/graph.py b/medil/graph.py
index 02c545e..3dc8411 100644
--- a/medil/graph.py
+++ b/medil/graph.py
@@ -332,7 +332,8 @@ class ReducibleUndDepGraph(UndirectedDependenceGraph):
 
         mask = common_neighbors[chosen_edge_idx].astype(bool)
 
-        chosen_nbrhood = self.adj_matrix.copy()
+        # cliques may also contain covered edges
+        chosen_nbrhood = self.unreduced.adj_matrix.copy()
         chosen_nbrhood[~mask, :] = 0
         chosen_nbrhood[:, ~mask] = 0
         if chosen_nbrhood.sum() <= mask.sum():
-- 
2.43.0


From b1fbc9a64d78b8837ce8fd725d7d2c35ab562768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:14 +0000
Subject: [PATCH 03/23] fix: never return a partial cover from the
 depth-limited search

The search gave up after three levels of branching and returned the cliques
found so far, losing most edges of larger or denser graphs. It is now
exhaustive for up to ten vertices; beyond that, the depth limit stays and
the cover is completed greedily.
---
 medil/ecc_algorithms.py | 38 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/medil/ecc_algorithms.py b/medil/ecc_algorithms.py
index 117a288..b1a53eb 100644
--- a/medil/ecc_algorithms.py
+++ b/medil/ecc_algorithms.py
@@ -42,6 +42,9 @@ def find_clique_min_cover(graph, verbose=False):
         print("The input graph doesn't appear to have any edges!")
         return graph.adj_matrix
 
+    # branching is only feasible at every depth if the graph is small
+    iteration_max = np.inf if graph.max_num_verts <= 10 else 3
+
     num_cliques = 1
     the_cover = None
     if True:  # verbose:
@@ -59,7 +62,7 @@ def find_clique_min_cover(graph, verbose=False):
                     num_cliques, max_intersect_num
                 )
             )
-        the_cover = branch(graph, num_cliques, the_cover, iteration=0, iteration_max=3)
+        the_cover = branch(graph, num_cliques, the_cover, 0, iteration_max)
         num_cliques += 1
 
     return add_isolated_verts(the_cover)
@@ -134,7 +137,9 @@ def branch(graph, k_num_cliques, the_cover, iteration, iteration_max):
 
         # print(iteration)
         if iteration > iteration_max:
-            return branch_graph.the_cover
+            # too deep for exhaustive search, so complete the cover greedily
+            branch_graph.the_cover = union
+            return complete_cover(branch_graph)
 
         the_cover_prime = branch(
             branch_graph,
@@ -148,6 +153,35 @@ def branch(graph, k_num_cliques, the_cover, iteration, iteration_max):
     return None
 
 
+def complete_cover(graph):
+    """Helper function for `branch()`.
+
+    Covers the remaining edges without any branching, so the result is a
+    cover but not necessarily a minimum one.
+
+    Parameters
+    ----------
+    graph : ReducibleUndDepGraph()
+            Graph whose `the_cover` was last extended by a clique that still
+            has to be removed from the uncovered edges.
+
+    Returns
+    -------
+    2d numpy array
+        Biadjacency matrix representing (complete) edge clique cover.
+
+    """
+    graph.cover_edges()
+    while graph.num_edges > 0:
+        graph.reduzieren(graph.num_edges)
+        if graph.num_edges > 0:
+            clique = np.zeros(graph.unreduced.num_vertices, dtype=int)
+            clique[max(max_cliques(graph.choose_nbrhood()), key=len)] = 1
+            graph.the_cover = np.vstack((graph.the_cover, clique))
+            graph.cover_edges()
+    return graph.reconstruct_cover(graph.the_cover)
+
+
 def max_cliques(nbrhood):
     """Adaptation of NetworkX code for finding all maximal cliques.
 
-- 
2.43.0


From f28970299c563880c6315bc5c2a4257dafc2fa91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:14 +0000
Subject: [PATCH 04/23] fix: don't accept covers with one clique more than the
 search allows

A branch that covered all edges was accepted even with its budget of cliques
already exceeded, before the remaining branches with fewer cliques were tried.
---
 medil/ecc_algorithms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/medil/ecc_algorithms.py b/medil/ecc_algorithms.py
index b1a53eb..29519f4 100644
--- a/medil/ecc_algorithms.py
+++ b/medil/ecc_algorithms.py
@@ -96,6 +96,9 @@ def branch(graph, k_num_cliques, the_cover, iteration, iteration_max):
 
     """
 
+    if k_num_cliques < 0:
+        return None
+
     iteration = iteration + 1
     branch_graph = graph.reducible_copy()
     # if the_cover is not None:
-- 
2.43.0


From a94f8b6d6afa246edf650bb2486bcac55b99a0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:40 +0000
Subject: [PATCH 05/23] fix: find clique covers of graphs with a 0 diagonal,
 and of edgeless ones

estimate_UDG() returns graphs with a 0 diagonal, on which
find_clique_min_cover() crashed. For edgeless graphs it returned its
argument: integers instead of a boolean cover, and no latents for a 0 diagonal.
---
 medil/ecc_algorithms.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/medil/ecc_algorithms.py b/medil/ecc_algorithms.py
index 29519f4..cca1b7a 100644
--- a/medil/ecc_algorithms.py
+++ b/medil/ecc_algorithms.py
@@ -35,12 +35,15 @@ def find_clique_min_cover(graph, verbose=False):
     :cite:`Gramm_2009`.
 
     """
+    # the diagonal of an estimated graph is 0, but here it has to be 1
+    graph = np.array(graph, int)
+    np.fill_diagonal(graph, 1)
     graph = UndirectedDependenceGraph(graph, verbose)
     try:
         graph.make_aux()
     except ValueError:
         print("The input graph doesn't appear to have any edges!")
-        return graph.adj_matrix
+        return add_isolated_verts(np.zeros((0, graph.max_num_verts)))
 
     # branching is only feasible at every depth if the graph is small
     iteration_max = np.inf if graph.max_num_verts <= 10 else 3
-- 
2.43.0


From c37e414db84276d742d613b38cc53cfb2453f1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:40 +0000
Subject: [PATCH 06/23] fix: don't put unhashable edges into a set in
 find_heuristic_1pc()

It raised a TypeError for every graph with edges that the neighborhoods of
the independent set don't cover.
---
 medil/ecc_algorithms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/medil/ecc_algorithms.py b/medil/ecc_algorithms.py
index cca1b7a..9e5f7d1 100644
--- a/medil/ecc_algorithms.py
+++ b/medil/ecc_algorithms.py
@@ -284,11 +284,11 @@ def find_heuristic_1pc(graph):
         the_cover[idx, nbrs] = True
 
     uncovered_edges = deque(
-        {
+        [
             edge
             for edge in np.argwhere(np.triu(graph, 1))
             if not np.logical_and(the_cover[:, edge[0]], the_cover[:, edge[1]]).any()
-        }
+        ]
     )
 
     while bool(uncovered_edges):
-- 
2.43.0


From dbf0dd0a02175795b6456eb7876c966f9d461661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:40 +0000
Subject: [PATCH 07/23] fix: use the squared correlation in the BIC score of a
 dependence

The product of covariance and correlation was used instead, so the estimated
graph depended on the units of the variables.
---
 medil/models.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/medil/models.py b/medil/models.py
index 1fdb927..3395c04 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -118,9 +118,8 @@ class GaussianMCM(MedilCausalModel):
     def _estimate_udg(self):
         """Constraint-based structure learning."""
         samp_size = len(self.dataset)
-        cov = np.cov(self.dataset, rowvar=False)
         corr = np.corrcoef(self.dataset, rowvar=False)
-        inner_numerator = 1 - cov * corr  # should never be <= 0?
+        inner_numerator = 1 - corr**2  # should never be < 0?
         inner_numerator = inner_numerator.clip(min=0.00001)
         inner_numerator[np.tril_indices_from(inner_numerator)] = 1
         udg_triu = np.log(inner_numerator) < (-np.log(samp_size) / samp_size)
-- 
2.43.0


From 7fe488ddfac0c9f9799e7be736d1919da2abb2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:40 +0000
Subject: [PATCH 08/23] fix: use the given rng for all of the random MCM

The structure and the samples of the model were drawn from generators shared
by the whole process, so a seed didn't determine them.
---
 medil/sample.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/medil/sample.py b/medil/sample.py
index f3f41f3..6f75964 100644
--- a/medil/sample.py
+++ b/medil/sample.py
@@ -14,9 +14,9 @@ def mcm(
     **kwargs,
 ) -> GaussianMCM:
     if biadj.size == 0:
-        biadj = _biadj(**kwargs)
+        biadj = _biadj(rng=rng, **kwargs)
     if parameterization == "Gaussian":
-        mcm = GaussianMCM(biadj=biadj)
+        mcm = GaussianMCM(biadj=biadj, rng=rng)
         params = mcm.parameters
 
         num_edges = biadj.sum()
-- 
2.43.0


From 2dad9c35851749b0a2a8e6b3b8be35b3945da25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:40 +0000
Subject: [PATCH 09/23] fix: use 0/1 integer biadjacency matrices as masks

They were used as indices of rows, which raised an error or set the wrong
weights.
---
 medil/models.py | 7 ++++---
 medil/sample.py | 1 +
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/medil/models.py b/medil/models.py
index 3395c04..fb430e3 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -84,7 +84,8 @@ class GaussianMCM(MedilCausalModel):
 
         cov = np.cov(self.dataset, rowvar=False)
 
-        num_weights = self.biadj.sum()
+        edges = self.biadj.astype(bool)
+        num_weights = edges.sum()
         num_err_vars = self.biadj.shape[1]
 
         def _objective(weights_and_err_vars):
@@ -92,7 +93,7 @@ class GaussianMCM(MedilCausalModel):
             err_vars = weights_and_err_vars[num_weights:]
 
             biadj_weights = np.zeros_like(self.biadj, float)
-            biadj_weights[self.biadj] = weights
+            biadj_weights[edges] = weights
 
             return (
                 (cov - biadj_weights.T @ biadj_weights - np.diagflat(err_vars)) ** 2
@@ -105,7 +106,7 @@ class GaussianMCM(MedilCausalModel):
         self.parameters.error_variances = result.x[num_weights:]
 
         self.parameters.biadj_weights = np.zeros_like(self.biadj, float)
-        self.parameters.biadj_weights[self.biadj] = result.x[:num_weights]
+        self.parameters.biadj_weights[edges] = result.x[:num_weights]
 
         return self
 
diff --git a/medil/sample.py b/medil/sample.py
index 6f75964..fd05cb2 100644
--- a/medil/sample.py
+++ b/medil/sample.py
@@ -16,6 +16,7 @@ def mcm(
     if biadj.size == 0:
         biadj = _biadj(rng=rng, **kwargs)
     if parameterization == "Gaussian":
+        biadj = biadj.astype(bool)
         mcm = GaussianMCM(biadj=biadj, rng=rng)
         params = mcm.parameters
 
-- 
2.43.0


From d78907242ddca0ba2d0f3833f11c149e60e45110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:40 +0000
Subject: [PATCH 10/23] fix: keep the estimates that DevMedil.sample() looks
 for

sample() always said that the model must be fitted first.
---
 medil/models.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/medil/models.py b/medil/models.py
index fb430e3..8c00344 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -519,6 +519,7 @@ class DevMedil(MedilCausalModel):
         self.result = result
         self.W_hat = result.x[: num_latent * num_meas].reshape(num_latent, num_meas)
         self.D_hat = np.diag(result.x[num_latent * num_meas :])
+        self.W_hat_mle, self.D_hat_mle = self.W_hat, self.D_hat
         self.convergence_success_mle = result.success
         self.convergence_message_mle = result.message
 
@@ -573,6 +574,7 @@ class DevMedil(MedilCausalModel):
         self.result = result
         self.W_hat = result.x[: num_latent * num_meas].reshape(num_latent, num_meas)
         self.D_hat = np.diag(np.abs(result.x[num_latent * num_meas :]))
+        self.W_hat_lse, self.D_hat_lse = self.W_hat, self.D_hat
         self.convergence_success_lse = result.success
         self.convergence_message_lse = result.message
 
-- 
2.43.0


From de9c0ed7ee29b5be4fcd908e4f186ad0fc6fadb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:40 +0000
Subject: [PATCH 11/23] fix: set the VAE back to training mode after each
 validation

It stayed in evaluation mode from the first validation on, so the latent
variables weren't sampled in any later epoch of training.
---
 medil/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/medil/models.py b/medil/models.py
index 8c00344..3fe3542 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -273,12 +273,12 @@ class NeuroCausalFactorAnalysis(MedilCausalModel):
         self.log(f"Number of parameters: {num_params}")
 
         # training loop
-        model.train()
         train_elbo, train_error = [], []
         valid_elbo, valid_error = [], []
 
         for idx in range(self.hyperparams["num_epochs"]):
             self.log(f"Training on epoch {idx}...")
+            model.train()
             train_lb, train_er, nbatch = 0.0, 0.0, 0
 
             for x_batch, _ in train_loader:
-- 
2.43.0


From d303338389e8076b89c830ebccde797509f30301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:40 +0000
Subject: [PATCH 12/23] fix: seed PyTorch when fitting an NCFA model

It draws the initial weights and the latent samples, so the seed of the model
had no influence on them.
---
 medil/models.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/medil/models.py b/medil/models.py
index 3fe3542..a6b7cee 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -203,6 +203,7 @@ class NeuroCausalFactorAnalysis(MedilCausalModel):
         valid_loader = self._data_loader(valid_split)
 
         np.random.seed(self.seed)
+        torch.manual_seed(self.seed)
 
         model_recon, loss_recon, error_recon = self._train_vae(
             train_loader, valid_loader
-- 
2.43.0


From 326ec66e347051b9b26485d35092bc4f31a1748a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:40 +0000
Subject: [PATCH 13/23] fix: write the training log into the directory of the
 model

Without a slash at the end of path it was written beside the directory.
---
 medil/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/medil/models.py b/medil/models.py
index a6b7cee..24ef148 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -180,7 +180,7 @@ class NeuroCausalFactorAnalysis(MedilCausalModel):
 
     def log(self, entry: str) -> None:
         time_stamped_entry = f"{datetime.now().strftime('%Y-%m-%d %H:%M:%S')} {entry}"
-        with open(f"{self.path}training.log", "a") as log_file:
+        with open(os.path.join(self.path, "training.log"), "a") as log_file:
             log_file.write(time_stamped_entry + "\n")
         if self.verbose:
             print(time_stamped_entry)
-- 
2.43.0


From a54a53d2c33be259a379f8d21212143c02e4a1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:40 +0000
Subject: [PATCH 14/23] fix: register the hidden layers of the decoder

In a plain dict they aren't parameters of the model, so they were never trained.
---
 medil/vae.py | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/medil/vae.py b/medil/vae.py
index ba9677d..96a6836 100644
--- a/medil/vae.py
+++ b/medil/vae.py
@@ -94,22 +94,26 @@ class Decoder(Block):
         hidden_blocks = [hidden_block for _ in range(num_meas)]
         hidden_mask = torch.block_diag(*hidden_blocks)
 
-        self.mean_linear_hidden = {
-            layer_idx: SparseLinear(
-                in_features=self.hidden_dim,
-                out_features=self.hidden_dim,
-                mask=hidden_mask,
-            )
-            for layer_idx in range(num_hidden_layers)
-        }
-        self.cov_linear_hidden = {
-            layer_idx: SparseLinear(
-                in_features=self.hidden_dim,
-                out_features=self.hidden_dim,
-                mask=hidden_mask,
-            )
-            for layer_idx in range(num_hidden_layers)
-        }
+        self.mean_linear_hidden = nn.ModuleDict(
+            {
+                str(layer_idx): SparseLinear(
+                    in_features=self.hidden_dim,
+                    out_features=self.hidden_dim,
+                    mask=hidden_mask,
+                )
+                for layer_idx in range(num_hidden_layers)
+            }
+        )
+        self.cov_linear_hidden = nn.ModuleDict(
+            {
+                str(layer_idx): SparseLinear(
+                    in_features=self.hidden_dim,
+                    out_features=self.hidden_dim,
+                    mask=hidden_mask,
+                )
+                for layer_idx in range(num_hidden_layers)
+            }
+        )
 
         output_block = torch.ones(1, width_per_meas)
         output_blocks = [output_block for _ in range(num_meas)]
-- 
2.43.0


From 1259e9cdd78fa437c83ad38538f88b19944c12bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:10 +0000
Subject: [PATCH 15/23] fix: subtract edges between vertices deleted together
 only once in rule 1

Otherwise the counts of edges in common neighborhoods get too small, and rule 2
doesn't recognize some of the edges that are in only one maximal clique.
---
 medil/graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/medil/graph.py b/medil/graph.py
index 3dc8411..56171b0 100644
--- a/medil/graph.py
+++ b/medil/graph.py
@@ -218,8 +218,8 @@ class ReducibleUndDepGraph(UndirectedDependenceGraph):
                 # my own addition:
                 # self.nbrhood[:, vert] = 0
 
-            # remove isolated_verts from common neighborhoods
-            self.common_neighbors[:, isolated_verts] = 0
+                # remove vert from common neighborhoods
+                self.common_neighbors[:, vert] = 0
 
         # max_num_edges = self.n_choose_2(self.unreduced.max_num_verts)
         # mask = lambda edge_idx: np.array(self.common_neighbors[edge_idx], dtype=bool)
-- 
2.43.0


From 2421d7446289ef8233221b92651075ee4de7e7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:10 +0000
Subject: [PATCH 16/23] fix: forget vertices deleted by rule 3 when a graph is
 reset

reconstruct_cover() added them to the cliques of later covers.
---
 medil/graph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/medil/graph.py b/medil/graph.py
index 56171b0..1b52c9e 100644
--- a/medil/graph.py
+++ b/medil/graph.py
@@ -167,6 +167,8 @@ class ReducibleUndDepGraph(UndirectedDependenceGraph):
 
     def reset(self):
         self.__init__(self.unreduced)
+        if hasattr(self, "reduced_away"):
+            del self.reduced_away, self.reductions
 
     def reduzieren(self, k_num_cliques):
         # reduce by first applying rule 1 and then repeatedly applying
-- 
2.43.0


From dda5d83346007b3ed02e9477a8e752bdc604b3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:10 +0000
Subject: [PATCH 17/23] fix: sum over the whole centered matrices in dcov()

Only the upper triangles were summed up, without the diagonal, so distance
covariances were less than half of what they are, and sometimes negative.
---
 medil/independence_testing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/medil/independence_testing.py b/medil/independence_testing.py
index dd9f1ac..c1dde2a 100644
--- a/medil/independence_testing.py
+++ b/medil/independence_testing.py
@@ -27,6 +27,7 @@ def dcov(samples):
     num_samps, num_feats = samples.shape
     num_pairs = num_samps * (num_samps - 1) // 2
     dists = np.zeros((num_feats, num_pairs))
+    diags = np.zeros((num_feats, num_samps))
     d_bars = np.zeros(num_feats)
     # compute doubly centered distance matrix for every feature:
     for feat_idx in range(num_feats):
@@ -37,10 +38,11 @@ def dcov(samples):
         # doubly centered:
         d_bar = d.mean()
         d -= t(d.mean(0), (n, 1)) + t(d.mean(1), (n, 1)).T - t(d_bar, (n, n))
+        diags[feat_idx] = d.diagonal()
         d = squareform(d, checks=False)  # ignore assymmetry due to numerical error
         dists[feat_idx] = d
         d_bars[feat_idx] = d_bar
-    return dists @ dists.T / num_samps**2, d_bars
+    return (2 * dists @ dists.T + diags @ diags.T) / num_samps**2, d_bars
 
 
 def estimate_UDG(sample, method="dcov_fast", significance_level=0.05):
-- 
2.43.0


From eda359a333ecc5a3ea2a37e37104898488679351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:10 +0000
Subject: [PATCH 18/23] fix: don't truncate the true weights to the type of the
 predicted ones

For a predicted matrix of integers or booleans the distance was that to
rounded true weights.
---
 medil/evaluate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/medil/evaluate.py b/medil/evaluate.py
index 7784dcb..ab37ac4 100644
--- a/medil/evaluate.py
+++ b/medil/evaluate.py
@@ -53,7 +53,7 @@ def recover_ug(biadj_mat):
 
 
 def min_perm_squared_l2_dist(predicted_W: npt.NDArray, true_W: npt.NDArray):
-    zeros = np.zeros_like(predicted_W)
+    zeros = np.zeros(predicted_W.shape)
     num_latents = len(true_W)
     zeros[:num_latents] = true_W
     true_W = zeros
@@ -75,7 +75,7 @@ def min_perm_squared_l2_dist(predicted_W: npt.NDArray, true_W: npt.NDArray):
 
 
 def min_perm_squared_l2_dist_abs(predicted_W: npt.NDArray, true_W: npt.NDArray):
-    zeros = np.zeros_like(predicted_W)
+    zeros = np.zeros(predicted_W.shape)
     num_latents = len(true_W)
     zeros[:num_latents] = true_W
     true_W = zeros
-- 
2.43.0


From f416461f3fa7c8cfda566f2754f93f31c28f63b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:10 +0000
Subject: [PATCH 19/23] fix: define the names that visualize.py uses

show_obs_adj_mat() and show_pairwise_plot() raised a NameError.
---
 medil/visualize.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/medil/visualize.py b/medil/visualize.py
index a59f5ce..25a907a 100644
--- a/medil/visualize.py
+++ b/medil/visualize.py
@@ -3,6 +3,15 @@ import numpy as np
 import matplotlib.pyplot as plt
 import seaborn as sns
 import networkx as nx
+import pandas as pd
+
+
+# %%
+def get_adj_from_incidence(incidence_mat):
+    # observed variables are adjacent if they have a latent in common
+    incidence_mat = np.array(incidence_mat, int)
+
+    return (incidence_mat.T @ incidence_mat > 0).astype(int)
 
 
 def show_obs_adj_mat(incidence_mat):
-- 
2.43.0


From 450dda031e11ddebf48fa87ed5430392316ac3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:07 +0000
Subject: [PATCH 20/23] fix: count each dependence once when comparing
 structures with small integer types

---
 medil/evaluate.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/medil/evaluate.py b/medil/evaluate.py
index ab37ac4..df21c04 100644
--- a/medil/evaluate.py
+++ b/medil/evaluate.py
@@ -46,6 +46,7 @@ def recover_ug(biadj_mat):
     """
 
     # get the undirected graph from the directed graph
+    biadj_mat = biadj_mat.astype(bool)  # so that counts can't overflow
     ug = biadj_mat.T @ biadj_mat
     np.fill_diagonal(ug, False)
 
-- 
2.43.0


From ab8e47872d0efdf3b234a9086c579b74d0cdbdf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:03 +0000
Subject: [PATCH 21/23] fix: penalized fits minimise over the nonnegative error
 variances that they return

---
 medil/models.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/medil/models.py b/medil/models.py
index 24ef148..decf0c3 100644
--- a/medil/models.py
+++ b/medil/models.py
@@ -494,7 +494,7 @@ class DevMedil(MedilCausalModel):
 
         def penalized_mle_loss(W_and_D):
             W = W_and_D[: num_latent * num_meas].reshape(num_latent, num_meas)
-            D = np.diag(W_and_D[num_latent * num_meas :])
+            D = np.diag(np.abs(W_and_D[num_latent * num_meas :]))
 
             Sigma = self.compute_sigma(W, D)
             Sigma_inv = np.linalg.inv(Sigma)
@@ -519,7 +519,7 @@ class DevMedil(MedilCausalModel):
         result = minimize(penalized_mle_loss, initial_W_and_D, method="BFGS")
         self.result = result
         self.W_hat = result.x[: num_latent * num_meas].reshape(num_latent, num_meas)
-        self.D_hat = np.diag(result.x[num_latent * num_meas :])
+        self.D_hat = np.diag(np.abs(result.x[num_latent * num_meas :]))
         self.W_hat_mle, self.D_hat_mle = self.W_hat, self.D_hat
         self.convergence_success_mle = result.success
         self.convergence_message_mle = result.message
@@ -557,7 +557,7 @@ class DevMedil(MedilCausalModel):
 
         def penalized_lse_loss(W_and_D):
             W = W_and_D[: num_latent * num_meas].reshape(num_latent, num_meas)
-            D = np.diag(W_and_D[num_latent * num_meas :])
+            D = np.diag(np.abs(W_and_D[num_latent * num_meas :]))
 
             loss = norm(Sigma_hat - W.T @ W - D, "fro") ** 2
             # nuclear norm for the first penalty term
-- 
2.43.0


From ee2f40ddb425577ce7ea7e09fb89b71c48acda30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:03 +0000
Subject: [PATCH 22/23] fix: distance correlation tests of samples of small
 integer types overflowed

---
 medil/independence_testing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/medil/independence_testing.py b/medil/independence_testing.py
index c1dde2a..67d8f34 100644
--- a/medil/independence_testing.py
+++ b/medil/independence_testing.py
@@ -78,7 +78,7 @@ def estimate_UDG(sample, method="dcov_fast", significance_level=0.05):
 
 
 def dcor_test(x_y):
-    x, y = x_y
+    x, y = np.asarray(x_y, float)  # dcor overflows for small integer types
     return distance_correlation_t_test(x, y).pvalue
 
 
-- 
2.43.0


From ec2d91932df56dc698b7799398ef57d5f4333366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:44 +0000
Subject: [PATCH 23/23] fix: distance correlation tests of data with large
 offsets

---
 medil/independence_testing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/medil/independence_testing.py b/medil/independence_testing.py
index 67d8f34..c16c725 100644
--- a/medil/independence_testing.py
+++ b/medil/independence_testing.py
@@ -79,6 +79,7 @@ def estimate_UDG(sample, method="dcov_fast", significance_level=0.05):
 
 def dcor_test(x_y):
     x, y = np.asarray(x_y, float)  # dcor overflows for small integer types
+    x, y = x - x.mean(), y - y.mean()  # and loses large offsets' distances
     return distance_correlation_t_test(x, y).pvalue
 
 
-- 
2.43.0

