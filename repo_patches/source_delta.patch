From 8ffb94ba63e7ee517bd00dece5d44789e36353c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:46 +0000
Subject: [PATCH 01/69] fix: do not create fail transitions from rounding noise
 when reducing a model

The probability of the transition to the fail state was computed as one minus
the sum of the other entries of a row. For rows like 0.7+0.1+0.1+0.1 this
leaves a difference of about 1e-16, so a transition to fail appeared although
no probability is lost (which in turn made reward reachability forms reject
the model). Sum up the probabilities of the removed successors instead.
---
 switss/model/reachability_form.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/switss/model/reachability_form.py b/switss/model/reachability_form.py
index 77fe67f..62f353f 100644
--- a/switss/model/reachability_form.py
+++ b/switss/model/reachability_form.py
@@ -329,6 +329,8 @@ class ReachabilityForm:
             print("shape of new_P (%s,%s)" % (new_C,new_N))
 
         to_target = np.zeros(new_C)
+        # probability of moving to a removed state in one step
+        to_fail = np.zeros(new_C)
 
         # mask for faster access
         target_mask = np.zeros(system.N, dtype=bool)
@@ -345,6 +347,8 @@ class ReachabilityForm:
                     if dest in to_rf_cols:
                         newdest = to_rf_cols[dest]
                         new_P[newidx, newdest] = system.P[idx, dest]
+                    else:
+                        to_fail[newidx] += system.P[idx, dest]
         if debug:
             print("computed transition matrix & to_target")
 
@@ -352,6 +356,7 @@ class ReachabilityForm:
             new_P, 
             new_index_by_state_action,
             to_target, 
+            to_fail,
             to_rf_rows, 
             system, 
             new_target_label, 
@@ -369,7 +374,7 @@ class ReachabilityForm:
         return rf, to_rf_cols, to_rf_rows
 
     @staticmethod
-    def __initialize_system(P, index_by_state_action, to_target, mapping, configuration, target_label, fail_label):
+    def __initialize_system(P, index_by_state_action, to_target, to_fail, mapping, configuration, target_label, fail_label):
         C,N = P.shape
         P_compl = dok_matrix((C+2, N+2))
         target_state, fail_state = N, N+1
@@ -408,15 +413,12 @@ class ReachabilityForm:
         label_to_states[fail_label].add(fail_state)
         label_to_states[target_label].add(target_state)
 
-        not_to_fail = np.zeros(C)
         for (idx, dest), p in P.items():
-            not_to_fail[idx] += p
             P_compl[idx, dest] = p
 
-        for idx, p_target in enumerate(to_target):
+        for idx, (p_target, p_fail) in enumerate(zip(to_target, to_fail)):
             if p_target > 0:
                 P_compl[idx, target_state] = p_target
-            p_fail = 1 - (p_target + not_to_fail[idx])
             if p_fail > 0:
                 P_compl[idx, fail_state] = p_fail
 
-- 
2.43.0


From 08f0255f5e5dba6222c702d7a6a06ab18ce067f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:17 +0000
Subject: [PATCH 02/69] fix: force the state-action variables of end components
 to zero when generating certificates

---
 switss/certification/certificates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/certification/certificates.py b/switss/certification/certificates.py
index 2e29d93..44085df 100644
--- a/switss/certification/certificates.py
+++ b/switss/certification/certificates.py
@@ -162,7 +162,7 @@ def generate_farkas_certificate(reach_form, mode, sense, threshold,tol=1e-5,solv
             for idx in range(D):
                 (s,a) = reach_form.index_by_state_action.inv[idx]
                 if reach_form.in_proper_ec(s):
-                    zero_vars.append(s)
+                    zero_vars.append(idx)
 
     lp_result, optimal, is_strict = find_interior_point(farkas_matr,rhs,xgeq0=True,zero_vars=zero_vars,solver=solver)
     
-- 
2.43.0


From e3b3f48dbcf4361fdd3f149a8a0888f6e47b2748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:17 +0000
Subject: [PATCH 03/69] fix: reject certificates with negative entries

---
 switss/certification/certificates.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/switss/certification/certificates.py b/switss/certification/certificates.py
index 44085df..46b4e7a 100644
--- a/switss/certification/certificates.py
+++ b/switss/certification/certificates.py
@@ -97,6 +97,10 @@ def check_farkas_certificate(reach_form, mode, sense, threshold, farkas_vec, tol
     N,D = farkas_matr.shape
     assert farkas_vec.shape[0] == D
 
+    # every Farkas certificate is a non-negative vector
+    if not (farkas_vec >= -tol).all():
+        return False
+
     if mode == "min":
         N, D = farkas_matr.shape
         if sense in [">=",">"]:
-- 
2.43.0


From 924dc4ba3de5ae9fcfefa27a5b4007f610c590d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:17 +0000
Subject: [PATCH 04/69] fix: apply the tolerance to the zero condition on end
 components

---
 switss/certification/certificates.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/switss/certification/certificates.py b/switss/certification/certificates.py
index 46b4e7a..fdb8bbf 100644
--- a/switss/certification/certificates.py
+++ b/switss/certification/certificates.py
@@ -105,13 +105,13 @@ def check_farkas_certificate(reach_form, mode, sense, threshold, farkas_vec, tol
         N, D = farkas_matr.shape
         if sense in [">=",">"]:
             for idx in range(D):
-                if reach_form.in_proper_ec(idx) and not (farkas_vec[idx] == 0):
+                if reach_form.in_proper_ec(idx) and abs(farkas_vec[idx]) > tol:
                     return False
 
         else:
             for idx in range(D):
                 (s,a) = reach_form.index_by_state_action.inv[idx]
-                if reach_form.in_proper_ec(s) and not (farkas_vec[idx] == 0):
+                if reach_form.in_proper_ec(s) and abs(farkas_vec[idx]) > tol:
                     return False
 
     res_vec = farkas_matr.dot(farkas_vec)
-- 
2.43.0


From 5574b0921ba3a52e777ddffde6d20191f6636409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:17 +0000
Subject: [PATCH 05/69] fix: do not require flow through end components in
 certificates for upper bounds on minimal probabilities

---
 switss/certification/certificates.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/switss/certification/certificates.py b/switss/certification/certificates.py
index fdb8bbf..5220b95 100644
--- a/switss/certification/certificates.py
+++ b/switss/certification/certificates.py
@@ -54,7 +54,12 @@ def __get_right_constraint_set(reach_form,mode,sense,threshold):
     assert sense in ["<=","<",">=",">"]
 
     if mode == "min" and sense in ["<=","<"]:
-        return reach_form.fark_y_constraints(threshold)
+        matr, rhs = reach_form.fark_y_constraints(threshold)
+        # the minimal probability of states in proper end components is zero, hence
+        # their flow is not constrained (the last row is the threshold constraint)
+        last = matr.shape[0]-1
+        rows = [s for s in range(last) if not reach_form.in_proper_ec(s)] + [last]
+        return matr.tocsr()[rows], rhs[rows]
 
     elif mode == "max" and sense in [">=",">"]:
         return reach_form.fark_y_constraints(threshold)
-- 
2.43.0


From 8abca1e3d3d9517dc5ce12e2bbbac2d2dc08374c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:17 +0000
Subject: [PATCH 06/69] fix: max_y_state returns the sums of the state-action
 values, as documented

---
 switss/model/reachability_form.py        | 1 -
 switss/model/reward_reachability_form.py | 1 -
 2 files changed, 2 deletions(-)

diff --git a/switss/model/reachability_form.py b/switss/model/reachability_form.py
index 62f353f..0e9b7f5 100644
--- a/switss/model/reachability_form.py
+++ b/switss/model/reachability_form.py
@@ -668,7 +668,6 @@ p        .. math::
         C,N = self.__P.shape
         max_y_vec = self.max_y_state_action(solver=solver)
         max_y_states = np.zeros(N)
-        max_y_states[self.initial] = 1
         for sap_idx in range(C):
             (st,act) = self.__index_by_state_action.inv[sap_idx]
             max_y_states[st] = max_y_states[st] + max_y_vec[sap_idx]
diff --git a/switss/model/reward_reachability_form.py b/switss/model/reward_reachability_form.py
index 60d7e50..84d2501 100644
--- a/switss/model/reward_reachability_form.py
+++ b/switss/model/reward_reachability_form.py
@@ -309,7 +309,6 @@ class RewardReachabilityForm:
         C,N = self.__P.shape
         max_y_vec = self.max_y_state_action(solver=solver)
         max_y_states = np.zeros(N)
-        max_y_states[self.initial] = 1
         for sap_idx in range(C):
             (st,act) = self.__index_by_state_action.inv[sap_idx]
             max_y_states[st] = max_y_states[st] + max_y_vec[sap_idx]
-- 
2.43.0


From b42e3536f7d7959cb1608623c5d5af8d0acf26c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:59 +0000
Subject: [PATCH 07/69] fix: fall back to a minimal certificate if the interior
 point is numerically unusable

---
 switss/certification/certificates.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/switss/certification/certificates.py b/switss/certification/certificates.py
index 5220b95..dd66f4f 100644
--- a/switss/certification/certificates.py
+++ b/switss/certification/certificates.py
@@ -175,5 +175,19 @@ def generate_farkas_certificate(reach_form, mode, sense, threshold,tol=1e-5,solv
 
     lp_result, optimal, is_strict = find_interior_point(farkas_matr,rhs,xgeq0=True,zero_vars=zero_vars,solver=solver)
     
-    check = check_farkas_certificate(reach_form, mode, sense, threshold, lp_result,tol=tol)
-    return lp_result if check else None
+    if check_farkas_certificate(reach_form, mode, sense, threshold, lp_result,tol=tol):
+        return lp_result
+
+    # the polytope is unbounded if there are end components, in which case the solver may return an interior point with 
+    # entries that are too large to be accurate. Try the smallest certificate instead.
+    lp = LP.from_coefficients(farkas_matr, rhs, np.ones(farkas_matr.shape[1]), "<=", "min")
+    for idx in range(farkas_matr.shape[1]):
+        lp.add_constraint([(idx,1)], ">=", 0)
+    for idx in zero_vars:
+        lp.add_constraint([(idx,1)], "=", 0)
+    result = lp.solve(solver)
+    if result.status != "optimal":
+        return None
+
+    check = check_farkas_certificate(reach_form, mode, sense, threshold, result.result_vector, tol=tol)
+    return result.result_vector if check else None
-- 
2.43.0


From 617fe353a203a233aa68b99ce2e80da656d04a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:55 +0000
Subject: [PATCH 08/69] fix: InverseReachabilityInitializer divided by zero for
 labels without states

---
 switss/problem/qsheurparams.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/switss/problem/qsheurparams.py b/switss/problem/qsheurparams.py
index 0dde576..728300d 100644
--- a/switss/problem/qsheurparams.py
+++ b/switss/problem/qsheurparams.py
@@ -218,7 +218,8 @@ class InverseReachabilityInitializer(Initializer):
         for group in self.groups:
             variables = self.indicator_to_group[group]
             variablecount = len(variables)
-            weighted_probability = sum([self.Pr[var] for var in variables])/variablecount
+            # groups may be empty (label that no state carries)
+            weighted_probability = sum([self.Pr[var] for var in variables])/variablecount if variablecount > 0 else 0
             ret.append((group, self.weights[group] * np.min([1e9,1/weighted_probability if weighted_probability > 0 else 1e9])))
 
         return ret
-- 
2.43.0


From 3535aac99de5e061194054f9a290a1e1b5e2cb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:55 +0000
Subject: [PATCH 09/69] fix: solver noise let states of unselected groups
 appear in exact witnesses

---
 switss/problem/milpexact.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/switss/problem/milpexact.py b/switss/problem/milpexact.py
index 57331f3..105d535 100644
--- a/switss/problem/milpexact.py
+++ b/switss/problem/milpexact.py
@@ -54,7 +54,7 @@ class MILPExact(ProblemFormulation):
         }
 
     def _solveiter(self, reach_form, threshold, mode, labels, timeout=None):
-        model, _ = construct_MILP(reach_form, 
+        model, indicators = construct_MILP(reach_form, 
                                   threshold, 
                                   mode=mode, 
                                   labels=labels, 
@@ -70,6 +70,11 @@ class MILPExact(ProblemFormulation):
                 yield ProblemResult(result.status, None, None, None)
             else:
                 certsize = certificate_size(reach_form, mode)
-                certificate = result.result_vector[:certsize]
+                certificate = result.result_vector[:certsize].copy()
+                # x(v) <= K*sigma(l) holds up to solver tolerance only: variables of
+                # groups that were not selected are zero
+                for indicator, variables in indicators.items():
+                    if result.result_vector[indicator] < 0.5:
+                        certificate[list(variables)] = 0
                 witness = Subsystem(reach_form, certificate, mode)
                 yield ProblemResult("success", witness, result.value, certificate)
-- 
2.43.0


From 6f2ed70877c74dc88a340c646b29391c829cd5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:30 +0000
Subject: [PATCH 10/69] fix: keep action labels when extracting a subsystem

---
 switss/problem/subsystem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/switss/problem/subsystem.py b/switss/problem/subsystem.py
index 1c0be70..b353fdc 100644
--- a/switss/problem/subsystem.py
+++ b/switss/problem/subsystem.py
@@ -115,7 +115,8 @@ class Subsystem:
                 actionlabels = reach_form.system.labels_by_action[(source,action)]
                 new_source = new_to_old_states.inv[source]
                 new_index_by_state_action[(new_source,action)] = new_C
-                new_label_to_actions[(new_source,action)] = actionlabels
+                for l in actionlabels:
+                    new_label_to_actions[l].add((new_source,action))
                 new_C += 1
 
         fail_state, target_state = new_N + 1, new_N
-- 
2.43.0


From 0510075be577d063fafd7b5ddcf8536415d177d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:30 +0000
Subject: [PATCH 11/69] fix: do not create fail transitions from rounding noise
 when extracting a subsystem

---
 switss/problem/subsystem.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/switss/problem/subsystem.py b/switss/problem/subsystem.py
index b353fdc..02fa5c2 100644
--- a/switss/problem/subsystem.py
+++ b/switss/problem/subsystem.py
@@ -130,21 +130,24 @@ class Subsystem:
         new_P[new_C+1, fail_state] = 1
         new_P[new_C, target_state] = 1
 
-        not_to_fail = np.zeros(new_C)
+        to_fail = np.zeros(new_C)
 
         # Populate the new transition matrix
         for (rowidx,target), prob in P.items():
             (source,action) = reach_form.system.index_by_state_action.inv[rowidx]
-            if target >= N-2 or source >= N-2:
+            if target == N-2 or source >= N-2 or state_vector[source] == False:
                 # P also contains target & fail state - but state_vector only has N-2 entries
                 continue
 
-            if state_vector[source] == True and state_vector[target] == True:
-                new_source = new_to_old_states.inv[source]
+            new_source = new_to_old_states.inv[source]
+            new_row_idx = new_index_by_state_action[(new_source,action)]
+            if target < N-2 and state_vector[target] == True:
                 new_target = new_to_old_states.inv[target]
-                new_row_idx = new_index_by_state_action[(new_source,action)]
                 new_P[new_row_idx,new_target] = prob
-                not_to_fail[new_row_idx] += prob
+            else:
+                # fail or a removed state. Summing up (as opposed to taking the complement of the other
+                # entries) makes sure that there are no (negative) probabilities due to rounding.
+                to_fail[new_row_idx] += prob
 
         # populate probabilities to fail
         # maps every target state with probability 1 to itself.
@@ -153,8 +156,10 @@ class Subsystem:
             if state_vector[source] == True:
                 new_source = new_to_old_states.inv[source]
                 new_row_idx = new_index_by_state_action[(new_source,action)]
-                new_P[new_row_idx, target_state] = p_target 
-                new_P[new_row_idx, fail_state] = 1 - (p_target + not_to_fail[new_row_idx])
+                if p_target > 0:
+                    new_P[new_row_idx, target_state] = p_target
+                if to_fail[new_row_idx] > 0:
+                    new_P[new_row_idx, fail_state] = min(1, to_fail[new_row_idx])
 
         # model type is same as supersystems model type.
         # if model type is DTMC, additional parameters are ignored.
-- 
2.43.0


From 297e38e4f7fe415cf27c04ac8d1a35b386809a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:30 +0000
Subject: [PATCH 12/69] fix: keep rewards when extracting a subsystem

---
 switss/problem/subsystem.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/switss/problem/subsystem.py b/switss/problem/subsystem.py
index 02fa5c2..dc00684 100644
--- a/switss/problem/subsystem.py
+++ b/switss/problem/subsystem.py
@@ -164,10 +164,19 @@ class Subsystem:
         # model type is same as supersystems model type.
         # if model type is DTMC, additional parameters are ignored.
         modeltype = type(self.supersys.system)
+        reward_vector = None
+        if reach_form.system.reward_vector is not None:
+            reward_vector = np.zeros(new_C+2)
+            for (new_source,action), new_row_idx in new_index_by_state_action.items():
+                if new_source < new_N:
+                    rowidx = reach_form.system.index_by_state_action[(new_to_old_states[new_source],action)]
+                    reward_vector[new_row_idx] = reach_form.system.reward_vector[rowidx]
+
         model = modeltype(P=new_P, 
             index_by_state_action=new_index_by_state_action, 
             label_to_actions=dict(new_label_to_actions), 
-            label_to_states=dict(new_label_to_states))
+            label_to_states=dict(new_label_to_states),
+            reward_vector=reward_vector)
 
         model = ReachabilityForm(
             model, 
-- 
2.43.0


From ff076f7efed146b3b4fc77495229c4f098fd303f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:38 +0000
Subject: [PATCH 13/69] fix: extract subsystems of reward reachability forms

---
 switss/model/reward_reachability_form.py | 1 +
 switss/problem/subsystem.py              | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/switss/model/reward_reachability_form.py b/switss/model/reward_reachability_form.py
index 84d2501..ccff39a 100644
--- a/switss/model/reward_reachability_form.py
+++ b/switss/model/reward_reachability_form.py
@@ -22,6 +22,7 @@ class RewardReachabilityForm:
         del self.__index_by_state_action.inv[self.__system.C-1]
 
         self.target_label = reachability_form.target_label
+        self.fail_label = reachability_form.fail_label
         self.initial_label = reachability_form.initial_label
         self.initial = reachability_form.initial
 
diff --git a/switss/problem/subsystem.py b/switss/problem/subsystem.py
index dc00684..a9a62c1 100644
--- a/switss/problem/subsystem.py
+++ b/switss/problem/subsystem.py
@@ -151,7 +151,7 @@ class Subsystem:
 
         # populate probabilities to fail
         # maps every target state with probability 1 to itself.
-        for rowidx, p_target in enumerate(reach_form.to_target):
+        for rowidx, p_target in enumerate(P.getcol(N-2).toarray()[:C-2,0]):
             (source,action) = reach_form.system.index_by_state_action.inv[rowidx]
             if state_vector[source] == True:
                 new_source = new_to_old_states.inv[source]
-- 
2.43.0


From 47652a320678a3e83719e0afe68198648611fbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:38 +0000
Subject: [PATCH 14/69] fix: strongly_connected_components of models raised
 AttributeError

---
 switss/model/amdp.py   |  2 +-
 switss/utils/graph.pyx | 26 ++++++++++++++++++++++++++
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/switss/model/amdp.py b/switss/model/amdp.py
index 59afa98..0317d85 100644
--- a/switss/model/amdp.py
+++ b/switss/model/amdp.py
@@ -188,7 +188,7 @@ class AbstractMDP(ABC):
         :return: A :math:`N_{S_{\\text{all}}}`-dimensional vector containing the index of the SCC every state belongs to and the number of SCCs.
         :rtype: Tuple[np.ndarray[int],int]
         """        
-        return self.__graph.strongly_connected_components()
+        return self.__graph.all_strongly_connected_components()
 
     def maximal_end_components(self):
         """Returns the Maximal End Components (MECs) of this model.
diff --git a/switss/utils/graph.pyx b/switss/utils/graph.pyx
index 278b147..47d8d06 100644
--- a/switss/utils/graph.pyx
+++ b/switss/utils/graph.pyx
@@ -173,6 +173,32 @@ cdef class Graph:
 
         return scc_counter-1
 
+    # computes the strongly connected components of the whole graph. returns a pair (sccs,nr_sccs) where sccs is a vector containing
+    # for each state the index of the scc it belongs to (starting from 0) and nr_sccs is the total number of sccs
+    def all_strongly_connected_components(self):
+        srand(time(NULL))
+        ret = np.zeros(self.nodecount,dtype=np.dtype("i"))
+        cdef int[:] ret_view = ret
+        cdef int* sccs = <int *> malloc(self.nodecount * sizeof(int))
+        cdef TNode* treap = NULL
+        cdef int compcount = 0
+        cdef int i = 0
+        while i < self.nodecount:
+            treap = add_to_treap(treap,i)
+            i += 1
+
+        if treap != NULL:
+            compcount = self.strongly_connected_components(treap,sccs)
+
+        i = 0
+        while i < self.nodecount:
+            ret_view[i] = sccs[i]-1
+            i += 1
+
+        free_treap(treap)
+        free(sccs)
+        return ret, compcount
+
     # computes the maximal end components of a graph. r
     # returns a triple (mecs,p_mecs,nr_mecs) where mecs is a vector containing for each state the mec-index it belongs to,
     # p_mecs is a Boolean vector which contains "True" for in position i iff the mec with index i is proper, and nr_mecs is the total
-- 
2.43.0


From fd047901cf54cfe3accc97568b5cbece52994b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:43 +0000
Subject: [PATCH 15/69] fix: successors and predecessors report the exact
 transition probabilities

---
 switss/utils/graph.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/switss/utils/graph.pyx b/switss/utils/graph.pyx
index 47d8d06..f4bfd6d 100644
--- a/switss/utils/graph.pyx
+++ b/switss/utils/graph.pyx
@@ -10,7 +10,7 @@ from bidict import bidict
 from .treaps cimport TNode, in_treap, free_treap, treap_to_arr, treap_from_arr, add_to_treap
 from .stack cimport IntStack, TreapStack, push, freestack, ts_push, free_tstack, ts_pop, pop
 
-ctypedef (int,int,float) SAPPair
+ctypedef (int,int,double) SAPPair
 
 cdef struct Node:
     SAPPair *predecessors
@@ -43,7 +43,7 @@ cdef class Graph:
     def get_nodecount(self):
         return self.nodecount
 
-    cdef void add_successor(self, int fromidx, int action, float prob, int toidx):
+    cdef void add_successor(self, int fromidx, int action, double prob, int toidx):
         cdef Node* fromnode = &self.nodes[fromidx]
         cdef Node* tonode = &self.nodes[toidx]
 
-- 
2.43.0


From b36aef58c74178b1a6d196ad1668c2996cb5f5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:11 +0000
Subject: [PATCH 16/69] fix: computing components of models with long paths
 overflowed the C stack

---
 switss/utils/graph.pyx | 91 ++++++++++++++++++++++++++++--------------
 1 file changed, 60 insertions(+), 31 deletions(-)

diff --git a/switss/utils/graph.pyx b/switss/utils/graph.pyx
index f4bfd6d..c913f6b 100644
--- a/switss/utils/graph.pyx
+++ b/switss/utils/graph.pyx
@@ -21,6 +21,11 @@ cdef struct TarjanNode:
     int index, lowlink
     int onstack
 
+cdef struct TarjanCall:
+    int v, succidx
+    TNode* bad_actions
+    TarjanCall* caller
+
 cdef struct SubMDP:
     int* E
     SAPPair* F
@@ -86,49 +91,73 @@ cdef class Graph:
             ret += "\n"
         return ret
 
-    cdef (int,int,IntStack*) strongconnect(self, int v, IntStack* stack, TarjanNode* tnodes,
+    # computes the actions of v which have a successor that is not in treap, and hence should be ignored
+    cdef TNode* bad_actions(self, int v, TNode* treap):
+        cdef TNode* bad_actions_treap = NULL
+        cdef Node *node = &self.nodes[v]
+        cdef int succidx = 0
+        while succidx < node[0].succcount:
+            if not in_treap(treap,node[0].successors[succidx][0]):
+                bad_actions_treap = add_to_treap(bad_actions_treap,node[0].successors[succidx][1])
+            succidx += 1
+        return bad_actions_treap
+
+    # pending calls are kept on an explicit stack, as the depth of the search can be as large as the number of states
+    cdef (int,int,IntStack*) strongconnect(self, int root, IntStack* stack, TarjanNode* tnodes,
                                            int i, int* sccs, int scc_counter, TNode* treap):
 
+        cdef int v = 0
         cdef int w = 0
         cdef int a = 0
-        cdef TNode* bad_actions_treap = NULL
+        cdef Node *node = NULL
+        cdef TarjanCall* caller = NULL
 
-        tnodes[v] = TarjanNode(i, i, 1)
+        tnodes[root] = TarjanNode(i, i, 1)
         i += 1
-        stack = push(stack, v)
+        stack = push(stack, root)
 
-        cdef Node *node = &self.nodes[v]
-        # compute actions of v which have a successor that is not in treap, and hence should be ignored
-        for succidx in range(node[0].succcount):
-            w = node[0].successors[succidx][0] # -> index of successor state
-            a = node[0].successors[succidx][1] # -> index of corresponding action
-            if not in_treap(treap,w):
-                bad_actions_treap = add_to_treap(bad_actions_treap,a)
-
-        for succidx in range(node[0].succcount):
-            w = node[0].successors[succidx][0] # -> index of successor state
-            a = node[0].successors[succidx][1] # -> index of corresponding action
-
-            if in_treap(bad_actions_treap,a):
-                continue
+        cdef TarjanCall* call = <TarjanCall *> malloc(sizeof(TarjanCall))
+        call[0] = TarjanCall(root, 0, self.bad_actions(root,treap), NULL)
+
+        while call != NULL:
+            v = call[0].v
+            node = &self.nodes[v]
 
-            elif tnodes[w].index == -1:
-                i,scc_counter,stack = self.strongconnect(w,stack,tnodes,i,sccs,scc_counter,treap)
-                tnodes[v].lowlink = min(tnodes[v].lowlink,tnodes[w].lowlink)
+            if call[0].succidx < node[0].succcount:
+                w = node[0].successors[call[0].succidx][0] # -> index of successor state
+                a = node[0].successors[call[0].succidx][1] # -> index of corresponding action
+                call[0].succidx += 1
 
-            elif tnodes[w].onstack:
-                tnodes[v].lowlink = min(tnodes[v].lowlink,tnodes[w].index)
+                if in_treap(call[0].bad_actions,a):
+                    continue
 
+                elif tnodes[w].index == -1:
+                    tnodes[w] = TarjanNode(i, i, 1)
+                    i += 1
+                    stack = push(stack, w)
+                    caller = call
+                    call = <TarjanCall *> malloc(sizeof(TarjanCall))
+                    call[0] = TarjanCall(w, 0, self.bad_actions(w,treap), caller)
 
-        if tnodes[v].lowlink == tnodes[v].index:
-            w = -1
-            while w != v:
-                stack, w = pop(stack)
-                tnodes[w].onstack = 0
-                sccs[w] = scc_counter
-            scc_counter += 1
+                elif tnodes[w].onstack:
+                    tnodes[v].lowlink = min(tnodes[v].lowlink,tnodes[w].index)
+
+            else:
+                if tnodes[v].lowlink == tnodes[v].index:
+                    w = -1
+                    while w != v:
+                        stack, w = pop(stack)
+                        tnodes[w].onstack = 0
+                        sccs[w] = scc_counter
+                    scc_counter += 1
+
+                caller = call[0].caller
+                free_treap(call[0].bad_actions)
+                free(call)
+                call = caller
+                if call != NULL:
+                    tnodes[call[0].v].lowlink = min(tnodes[call[0].v].lowlink,tnodes[v].lowlink)
 
-        free_treap(bad_actions_treap)
         return i,scc_counter,stack
 
 
-- 
2.43.0


From 909df57d0c5d261a4e6b591f70a66c946319257b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:35 +0000
Subject: [PATCH 17/69] fix: computing maximal end components leaked memory

---
 switss/utils/graph.pyx  | 3 ++-
 switss/utils/treaps.pyx | 7 ++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/switss/utils/graph.pyx b/switss/utils/graph.pyx
index c913f6b..17745a9 100644
--- a/switss/utils/graph.pyx
+++ b/switss/utils/graph.pyx
@@ -309,7 +309,8 @@ cdef class Graph:
                 free_treap(subg_treap)
                 free(new_subg_treaps)
 
-        free(subg_arr)
+            free(subg_arr)
+
         free_tstack(treap_stack)
         free(sccs)
 
diff --git a/switss/utils/treaps.pyx b/switss/utils/treaps.pyx
index cba336c..c11791e 100644
--- a/switss/utils/treaps.pyx
+++ b/switss/utils/treaps.pyx
@@ -36,7 +36,11 @@ cdef (TNode*, TNode*) split_treap(TNode* treap, int key):
         return NULL, NULL
 
     elif key == treap.tree_key:
-        return treap.left, treap.right
+        # the node is replaced by the new one with the same key
+        rec_left = treap.left
+        rec_right = treap.right
+        free(treap)
+        return rec_left, rec_right
 
     elif key < treap.tree_key:
         rec_left, rec_right = split_treap(treap.left, key)
@@ -59,6 +63,7 @@ cdef TNode* insert(TNode* treap, TNode* new_node):
         return new_node
 
     elif treap.tree_key == new_node.tree_key:
+        free(new_node)
         return treap
 
     elif treap.heap_key > new_node.heap_key:
-- 
2.43.0


From e6a20767cfe06c6041d84794c5dd8ad79bec8b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:44 +0000
Subject: [PATCH 18/69] fix: explicitly stored zeros of sparse matrices became
 transitions

---
 switss/utils/casting.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/switss/utils/casting.py b/switss/utils/casting.py
index f6653da..09683b3 100644
--- a/switss/utils/casting.py
+++ b/switss/utils/casting.py
@@ -15,4 +15,11 @@ def cast_dok_matrix(obj):
         if len(obj.shape) == 1:
             obj = np.array([obj]).T
     
-    return dok_matrix(obj)
\ No newline at end of file
+    ret = dok_matrix(obj)
+    # explicitly stored zeros are not entries of the matrix
+    zeros = [ key for key, val in ret.items() if val == 0 ]
+    if len(zeros) > 0:
+        ret = ret.copy()
+        for key in zeros:
+            del ret[key]
+    return ret
-- 
2.43.0


From bcd93ae018f52f76ce0858123a8a543c4ab6ee08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:46 +0000
Subject: [PATCH 19/69] fix: saved models lost all but six decimals of their
 probabilities

---
 switss/model/dtmc.py | 2 +-
 switss/model/mdp.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/switss/model/dtmc.py b/switss/model/dtmc.py
index 733f277..bc0f1ee 100644
--- a/switss/model/dtmc.py
+++ b/switss/model/dtmc.py
@@ -106,7 +106,7 @@ class DTMC(AbstractMDP):
             tra_file.write("%d %d\n" % (self.N, self.P.nnz))
             for (rowidx,dest), p in self.P.items():
                 source,_ = self.index_by_state_action.inv[rowidx]
-                tra_file.write("%d %d %f\n" % (source, dest, p))
+                tra_file.write("%d %d %.17g\n" % (source, dest, p))
 
         with open(lab_path, "w") as lab_file:
             unique_labels_list = list(self.states_by_label.keys())
diff --git a/switss/model/mdp.py b/switss/model/mdp.py
index 10a04b5..3fc6e2a 100644
--- a/switss/model/mdp.py
+++ b/switss/model/mdp.py
@@ -124,7 +124,7 @@ class MDP(AbstractMDP):
             for (index,dest), p in self.P.items():
                 if p > 0:
                     source,action = self.index_by_state_action.inv[index]
-                    tra_file.write("%d %d %d %f\n" % (source, action, dest, p))
+                    tra_file.write("%d %d %d %.17g\n" % (source, action, dest, p))
 
         with open(lab_path, "w") as lab_file:
             unique_labels_list = list(self.states_by_label.keys())
-- 
2.43.0


From 3c94554ddf3224539e078e917823fbc9051205fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:53 +0000
Subject: [PATCH 20/69] fix: messages for rejected models raised TypeError or
 NameError

---
 switss/model/amdp.py | 4 ++--
 switss/model/dtmc.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/switss/model/amdp.py b/switss/model/amdp.py
index 0317d85..503fc5d 100644
--- a/switss/model/amdp.py
+++ b/switss/model/amdp.py
@@ -68,7 +68,7 @@ class AbstractMDP(ABC):
 
         """
         # make sure all rows of P sum to one
-        for idx,s in enumerate(self.P.sum(axis=1)):  
+        for idx,s in enumerate(np.asarray(self.P.sum(axis=1)).flatten()):  
             assert np.round(s,9) == 1, "Sum of row %d of P is %f but should be 1." % (idx, s)
         # make sure that all values x are 0<=x<=1
         for (i,j), p in self.P.items():
@@ -78,7 +78,7 @@ class AbstractMDP(ABC):
         #make sure rewards are nonnegative
         if self.reward_vector is not None:
             for i in range(self.C):
-                assert self.reward_vector[i] >= 0, "reward_vector[%d] = %d is negative." % (i,reward_vector[i])
+                assert self.reward_vector[i] >= 0, "reward_vector[%d] = %f is negative." % (i,self.reward_vector[i])
 
     @property
     def states_by_label(self):
diff --git a/switss/model/dtmc.py b/switss/model/dtmc.py
index bc0f1ee..ca64427 100644
--- a/switss/model/dtmc.py
+++ b/switss/model/dtmc.py
@@ -25,7 +25,7 @@ class DTMC(AbstractMDP):
         """
         # transform P into dok_matrix if neccessary
         P =  cast_dok_matrix(P)  
-        assert P.shape[0] == P.shape[1], "P must be a (NxN)-matrix but has shape %s" % P.shape
+        assert P.shape[0] == P.shape[1], "P must be a (NxN)-matrix but has shape (%s,%s)" % P.shape
         if index_by_state_action is None:
             index_by_state_action = bidict()
             for i in range(P.shape[0]):
-- 
2.43.0


From 884fa11c4b9f3f654852d88f5951c0fc621c1ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:18 +0000
Subject: [PATCH 21/69] fix: exact minimization of reward reachability forms in
 max mode raised AttributeError

---
 switss/model/reward_reachability_form.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/switss/model/reward_reachability_form.py b/switss/model/reward_reachability_form.py
index ccff39a..149ee44 100644
--- a/switss/model/reward_reachability_form.py
+++ b/switss/model/reward_reachability_form.py
@@ -35,6 +35,16 @@ class RewardReachabilityForm:
     def A(self):
         return self.__A
 
+    @property
+    def P(self):
+        """The transition matrix restricted to the states other than target and fail"""
+        return self.__P
+
+    @property
+    def index_by_state_action(self):
+        """The state-action pairs other than those of target and fail"""
+        return self.__index_by_state_action
+
     @property
     def is_ec_free(self):
         return True
-- 
2.43.0


From 4a430037b56cb7984a69c919390639f50c489fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:10 +0000
Subject: [PATCH 22/69] fix: RewardReachabilityForm.fromsystem raised
 AttributeError and modified the given system

---
 switss/model/reward_reachability_form.py | 28 +++++++++++++++++++-----
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/switss/model/reward_reachability_form.py b/switss/model/reward_reachability_form.py
index 149ee44..3368ad5 100644
--- a/switss/model/reward_reachability_form.py
+++ b/switss/model/reward_reachability_form.py
@@ -58,16 +58,32 @@ class RewardReachabilityForm:
             RewardReachabilityForm.assert_system_consistency(system, initial_label, target_label)
 
         # add a dummy fail state, which is required for reachability form
-        N = system.P.N
-        C = system.P.C
+        N = system.N
+        C = system.C
 
-        system.P.resize(C + 1, N + 1)
-        system.P[C + 1, N + 1] = 1
+        P = system.P.copy()
+        P.resize(C + 1, N + 1)
+        P[C, N] = 1
 
-        system.add_label(N, "rf_fail")
+        index_by_state_action = system.index_by_state_action.copy()
+        index_by_state_action[(N, 0)] = C
+
+        label_to_states = { label : set(system.states_by_label[label]) for label in system.states_by_label.keys() }
+        label_to_states["rf_fail"] = { N }
+
+        label_to_actions = { label : set(system.actions_by_label[label]) for label in system.actions_by_label.keys() }
+
+        with_fail = type(system)(P=P,
+                                 index_by_state_action=index_by_state_action,
+                                 label_to_states=label_to_states,
+                                 label_to_actions=label_to_actions,
+                                 reward_vector=np.append(system.reward_vector, 0),
+                                 vis_config=system.visualization)
+
+        reach_form = ReachabilityForm(with_fail, initial_label, target_label, "rf_fail", ignore_consistency_checks)
 
         # initialize underlying reachability form
-        return cls(ReachabilityForm(system, initial_label, target_label,"rf_fail",ignore_consistency_checks), system.reward_vector[:-2])
+        return cls(reach_form, with_fail.reward_vector[:-2])
 
 
     @staticmethod
-- 
2.43.0


From f66274632799eca019f41d47c263e0417fbe8bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:53 +0000
Subject: [PATCH 23/69] fix: InvertibleDict modified the sets of the dictionary
 it was built from

---
 switss/utils/invertible_dict.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/switss/utils/invertible_dict.py b/switss/utils/invertible_dict.py
index beca0b7..6d71a8d 100644
--- a/switss/utils/invertible_dict.py
+++ b/switss/utils/invertible_dict.py
@@ -30,7 +30,8 @@ class InvertibleDict:
         for k,v in d.items():
             assert isinstance(v,set), "each value must be a set, but value at key=%s is of type %s" % (k,type(v))
 
-        self.__d = d.copy()
+        # also copy the sets, since add and remove modify them
+        self.__d = { k : v.copy() for k,v in d.items() }
         self.__i = None
         self.__is_default = is_default
 
-- 
2.43.0


From 511a13d8da8cd319bf59a75a13b314e8d462a851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:25 +0000
Subject: [PATCH 24/69] fix: InvertibleDict.remove raised TypeError for missing
 tuple keys

---
 switss/utils/invertible_dict.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/switss/utils/invertible_dict.py b/switss/utils/invertible_dict.py
index 6d71a8d..7abac99 100644
--- a/switss/utils/invertible_dict.py
+++ b/switss/utils/invertible_dict.py
@@ -57,8 +57,8 @@ class InvertibleDict:
 
     def remove(self,key,item):
         """Removes an item from a key-mapping"""
-        assert key in self.__d, "Key %s not in dictionary" % key
-        assert item in self.__d[key], "Item not at dict[%s]" % key
+        assert key in self.__d, "Key %s not in dictionary" % (key,)
+        assert item in self.__d[key], "Item not at dict[%s]" % (key,)
 
         self.__d[key].remove(item)
 
-- 
2.43.0


From 1c4e9c653d9273ddefcf4b434e8c1dcd79d03317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:12 +0000
Subject: [PATCH 25/69] fix: solving a MILP without objective function raised
 AttributeError

---
 switss/solver/milp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index b9fdf46..f1596f2 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -93,7 +93,8 @@ class MILP:
                     -2:"unbounded", 
                     -3:"undefined"}[self.__pulpmodel.status]
         result_vector = np.array([var.value() for var in self.__variables])
-        value = self.__pulpmodel.objective.value()
+        # without an objective function every feasible assignment is optimal
+        value = self.__pulpmodel.objective.value() if self.__pulpmodel.objective is not None else 0
 
         return SolverResult(status, result_vector, value)
 
-- 
2.43.0


From bf2864e4a7eba052b6bb05f007def500fde61da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:12 +0000
Subject: [PATCH 26/69] fix: LP.add_variables raised TypeError

---
 switss/solver/milp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index f1596f2..bd0f4cb 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -338,7 +338,7 @@ class LP(MILP):
         :return: Index or indices of new variables.
         :rtype: either List[int] or int.
         """        
-        return MILP.add_variables(self, *["real"]*count)
+        return MILP.add_variables(self, ["real"]*count)
 
 
 class GurobiMILP(MILP):
-- 
2.43.0


From ac235aa2dcf067c14417a6c25aabec71355281de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:12 +0000
Subject: [PATCH 27/69] fix: remove_constraint raised KeyError for the indices
 returned by add_constraint

---
 switss/solver/milp.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index bd0f4cb..873c516 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -167,10 +167,11 @@ class MILP:
     def remove_constraint(self, constridx):
         """removes a given constraint from the model.
 
-        :param constridx: the name of the constraint
-        :type constridx: str
+        :param constridx: index of the constraint
+        :type constridx: int
         """        
-        self.__pulpmodel.constraints.pop(constridx)
+        self.__pulpmodel.constraints.pop(self.__constraints[constridx].name)
+        self.__constraints[constridx] = None
 
     def add_variables(self, domains):
         """Adds a list of variables to this MILP. Each element in `domains` must be either `integer`, `binary` or `real`.
-- 
2.43.0


From c52c4c4114fc058879713c3660ed3d07eb7b3016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:12 +0000
Subject: [PATCH 28/69] fix: setting a new objective function kept the
 coefficients of the old one

---
 switss/solver/milp.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index 873c516..75aee8f 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -54,7 +54,6 @@ class MILP:
         self.__pulpmodel = pulp.LpProblem("",objective)
         self.__variables = [] 
         self.__constraints = []
-        self.__set_objective_function = False
 
     def solve(self, solver="cbc",timeout=None,print_output=False):
         """Solves this problem and returns the problem result.
@@ -121,12 +120,7 @@ class MILP:
         :type expression: List[Tuple[int,float]]
         """        
         self._assert_expression(expression)
-        if not self.__set_objective_function:
-            self.__set_objective_function = True
-            self.__pulpmodel += pulp.LpAffineExpression(self._expr_to_pulp(expression))
-        else:
-            for var,coeff in expression:
-                self.__pulpmodel.objective[self.__variables[var]] = coeff
+        self.__pulpmodel.setObjective(pulp.LpAffineExpression(self._expr_to_pulp(expression)))
         
     def add_constraint(self, lhs, sense, rhs):
         """Adds a constraint of the form
-- 
2.43.0


From db9b93767613cefe203167c5af8532e70674dfc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:12 +0000
Subject: [PATCH 29/69] fix: repeated variables in a sum were not added up

---
 switss/solver/milp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index 75aee8f..4f330bb 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -103,7 +103,11 @@ class MILP:
             assert coeff == float(coeff), "Coefficient coeff=%s is not a number (@index=%d)." % (coeff, idx)
 
     def _expr_to_pulp(self, expression):
+        # a variable may occur several times in the sum
+        coeffs = {}
         for var, coeff in expression:
+            coeffs[var] = coeffs.get(var, 0) + coeff
+        for var, coeff in coeffs.items():
             yield self.__variables[var], coeff
 
     def set_objective_function(self, expression):
-- 
2.43.0


From 4475bdc1dd48ab6e02a5584a665b2d91c9852a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:12 +0000
Subject: [PATCH 30/69] fix: LP.from_coefficients returned a MILP and raised
 AttributeError for nested lists

---
 switss/solver/milp.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index 4f330bb..4b27f67 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -238,14 +238,14 @@ class MILP:
 
         opt = cast_dok_matrix(opt)
 
-        model = MILP(objective=objective)
+        model = cls(objective=objective)
 
         # initialize problem
         # this adds the variables and the objective function (which is opt^T*x, i.e. sum_{i=1}^N opt[i]*x[i])
         if bounds is not None:
             model.add_variables_w_bounds([(domains[idx],bounds[idx][0],bounds[idx][1]) for idx in range(A.shape[1])])
         else:
-            model.add_variables([domains[idx] for idx in range(A.shape[1])])
+            model.add_variables_w_bounds([(domains[idx],None,None) for idx in range(A.shape[1])])
 
         model.set_objective_function([(idx, opt[idx,0]) for idx in range(A.shape[1])])
 
@@ -327,7 +327,8 @@ class LP(MILP):
         :return: The resulting LP.
         :rtype: solver.LP
         """
-        return MILP.from_coefficients(A,b,opt,["real"]*A.shape[1],sense=sense,objective=objective)
+        A = cast_dok_matrix(A)
+        return super().from_coefficients(A,b,opt,["real"]*A.shape[1],sense=sense,objective=objective)
 
     def add_variables(self, count):
         """Adds a number of variables to the LP.
-- 
2.43.0


From 90f61f369edfec6c51d500be26bcc11b8f14375a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:02 +0000
Subject: [PATCH 31/69] fix: variables that occur in no constraint had no value
 in solutions

---
 switss/solver/milp.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index 4b27f67..f894a24 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -84,6 +84,12 @@ class MILP:
         elif solver == "cplex":
             self.__pulpmodel.setSolver(pulp.CPLEX_PY(msg=print_output,timeLimit=timeout))
 
+        # let every variable occur in the objective function, since pulp does not hand variables that occur nowhere to the solver
+        objective = pulp.LpAffineExpression({ var : 0 for var in self.__variables })
+        if self.__pulpmodel.objective is not None:
+            objective.update(self.__pulpmodel.objective)
+        self.__pulpmodel.setObjective(objective)
+
         self.__pulpmodel.solve()
 
         status = {   1:"optimal",
@@ -92,8 +98,7 @@ class MILP:
                     -2:"unbounded", 
                     -3:"undefined"}[self.__pulpmodel.status]
         result_vector = np.array([var.value() for var in self.__variables])
-        # without an objective function every feasible assignment is optimal
-        value = self.__pulpmodel.objective.value() if self.__pulpmodel.objective is not None else 0
+        value = self.__pulpmodel.objective.value()
 
         return SolverResult(status, result_vector, value)
 
-- 
2.43.0


From f1fbb6d3e34d11ae38bd9d555fc564d2c6b627f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:26 +0000
Subject: [PATCH 32/69] fix: bounds of binary variables were ignored

---
 switss/solver/milp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index f894a24..32e7f74 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -198,6 +198,10 @@ class MILP:
             cat = { "real" : pulp.LpContinuous, "integer" : pulp.LpInteger, "binary" : pulp.LpBinary }[domain]
             varidx = len(self.__variables)
             var = pulp.LpVariable("x%d" % varidx, lowBound=lb, upBound=ub, cat=cat)
+            if domain == "binary":
+                # pulp replaces the bounds of binary variables by 0 and 1
+                var.lowBound = 0 if lb is None else max(lb, 0)
+                var.upBound = 1 if ub is None else min(ub, 1)
             self.__variables.append(var)
 
             if len(var_descr) == 1:
-- 
2.43.0


From 2c47e800fcc9e7800cc0f8b2917a4bfc2850fa65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:16 +0000
Subject: [PATCH 33/69] fix: switss minimize raised TypeError for every method

---
 bin/switss | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/bin/switss b/bin/switss
index 0b610a8..25053d8 100755
--- a/bin/switss
+++ b/bin/switss
@@ -69,6 +69,9 @@ def minargs(args):
     
     methodtype = { "QSHeur":QSHeur, "MILPExact":MILPExact }[args.method[0]]
     methodparams = params_to_dict(args.method[1:])
+    # the mode is a parameter of solving, not of the method
+    assert "mode" in methodparams, "mode=min or mode=max not specified."
+    mode = methodparams.pop("mode")
     for k in methodparams:
         if k == "iterations":
             methodparams[k] = int(methodparams[k])
@@ -96,10 +99,10 @@ def minargs(args):
 
     vprint("solving with parameters %s" % ", ".join(["%s=%s" % it for it in solveparams.items()]))
 
-    info = { "method" : method.details, "instances" : [] }
+    info = { "method" : { **method.details, "mode" : mode }, "instances" : [] }
     def process_result(idx,result):
         vprint("solved instance %s with %s remaining states" % (idx,sum(result.subsystem.subsystem_mask)), end=" - ")
-        check = check_farkas_certificate(rf, methodparams["mode"], ">=", solveparams["threshold"], result.farkas_cert, tol=args.tolerance)
+        check = check_farkas_certificate(rf, mode, ">=", solveparams["threshold"], result.farkas_cert, tol=args.tolerance)
         vprint("certificate %s" % {True:"VALID", False:"INVALID"}[check])
         instance = { "iteration" : idx,
                      "threshold" : solveparams["threshold"],
@@ -107,10 +110,10 @@ def minargs(args):
         info["instances"].append(instance)
 
     if len(args.solve_iter) > 0:
-        for idx, result in enumerate(method.solveiter(rf, **solveparams)):
+        for idx, result in enumerate(method.solveiter(rf, mode=mode, **solveparams)):
             process_result(idx, result)            
     elif len(args.solve) > 0:
-        process_result(0, method.solve(rf, **solveparams))
+        process_result(0, method.solve(rf, mode=mode, **solveparams))
         
     output = args.certificate if args.certificate is not None else args.modelpath + ".certificates.json" 
     vprint("storing results @ %s" % output, end=" - ")
-- 
2.43.0


From 3b9d0e4eca4fab0a5883a60a9d32bda4eba632f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:16 +0000
Subject: [PATCH 34/69] fix: switss minimize failed with a usage error for
 unattainable thresholds

---
 bin/switss | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bin/switss b/bin/switss
index 25053d8..515c909 100755
--- a/bin/switss
+++ b/bin/switss
@@ -101,6 +101,9 @@ def minargs(args):
 
     info = { "method" : { **method.details, "mode" : mode }, "instances" : [] }
     def process_result(idx,result):
+        if result.status != "success":
+            vprint("no subsystem found for instance %s (%s)" % (idx,result.status))
+            return
         vprint("solved instance %s with %s remaining states" % (idx,sum(result.subsystem.subsystem_mask)), end=" - ")
         check = check_farkas_certificate(rf, mode, ">=", solveparams["threshold"], result.farkas_cert, tol=args.tolerance)
         vprint("certificate %s" % {True:"VALID", False:"INVALID"}[check])
-- 
2.43.0


From e37cab2a123a641a7cd31a311578dfe5e7248448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:16 +0000
Subject: [PATCH 35/69] fix: switss subsystem raised TypeError since models
 cannot be copied

---
 bin/switss | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bin/switss b/bin/switss
index 515c909..19835fe 100755
--- a/bin/switss
+++ b/bin/switss
@@ -2,7 +2,6 @@
 
 import argparse
 import json
-import copy
 import numpy as np
 
 from switss.utils import color_from_hash 
@@ -151,11 +150,12 @@ def subsysargs(args):
         output = "%s-%s" % (output, iteration)
         vprint("generating subsystem %s" % output,end=" - ")
         ss = Subsystem(rf, certificate, minfo["mode"])
-        sys = copy.deepcopy(rf.system)
-        for s,inss in enumerate(ss.subsystem_mask):
-            if inss:
-                sys.labels_by_state.add(s, args.subsys_label)
-        sys.save(output)
+        states = [s for s,inss in enumerate(ss.subsystem_mask) if inss]
+        for s in states:
+            rf.system.add_label(s, args.subsys_label)
+        rf.system.save(output)
+        for s in states:
+            rf.system.states_by_label.remove(args.subsys_label, s)
         vprint("done.")
 
 def infoargs(args):
-- 
2.43.0


From 0372109de1fbf1cb51625e9dab08bdb6cb9fcb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:48 +0000
Subject: [PATCH 36/69] fix: digraph did not pass additional arguments to
 Digraph

---
 switss/model/dtmc.py | 6 ++++--
 switss/model/mdp.py  | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/switss/model/dtmc.py b/switss/model/dtmc.py
index ca64427..35f41e2 100644
--- a/switss/model/dtmc.py
+++ b/switss/model/dtmc.py
@@ -39,7 +39,7 @@ class DTMC(AbstractMDP):
 
         super().__init__(P, index_by_state_action, {}, label_to_states, vis_config, reward_vector)
 
-    def digraph(self, state_map = None, trans_map = None, **kwargs):
+    def digraph(self, state_map = None, trans_map = None, action_map = None, small = False, **kwargs):
         """Creates a `graphviz.Digraph` object from this instance. When a digraph object is created, 
         new nodes are added for states plus additional edges for transitions between states. 
         `state_map` and `trans_map` are functions that, on some input, compute keyword arguments for
@@ -78,7 +78,9 @@ class DTMC(AbstractMDP):
         state_map = self.visualization.state_map if state_map is None else state_map
         trans_map = self.visualization.trans_map if trans_map is None else trans_map
 
-        dg = Digraph()
+        dg = Digraph(**kwargs)
+        if (small):
+            dg.attr('graph', size="4,6")
 
         # connect nodes between each other
         existing_nodes = set({})
diff --git a/switss/model/mdp.py b/switss/model/mdp.py
index 3fc6e2a..d366aab 100644
--- a/switss/model/mdp.py
+++ b/switss/model/mdp.py
@@ -33,7 +33,7 @@ class MDP(AbstractMDP):
         super().__init__(P, index_by_state_action, label_to_actions, label_to_states,vis_config, reward_vector)
 
 
-    def digraph(self, state_map = None, trans_map = None, action_map = None, small = False):
+    def digraph(self, state_map = None, trans_map = None, action_map = None, small = False, **kwargs):
         """
         Creates a graphviz.Digraph object from this instance. When a digraph object is created, 
         new nodes are added for states and actions plus additional edges between actions and nodes. 
@@ -83,7 +83,7 @@ class MDP(AbstractMDP):
         trans_map = self.visualization.trans_map if trans_map is None else trans_map
         action_map = self.visualization.action_map if action_map is None else action_map
 
-        dg = Digraph()
+        dg = Digraph(**kwargs)
         if (small):
             dg.attr('graph', size="4,6")
         # connect nodes between each other
-- 
2.43.0


From a7cbc7a5b28c7178b04dc8a224bf7b01bfad0028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:00 +0000
Subject: [PATCH 37/69] fix: DTMCVisualizationConfig(trans_map=None) used the
 default of MDPs

---
 switss/utils/graphviz_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/switss/utils/graphviz_utils.py b/switss/utils/graphviz_utils.py
index 437c5c0..451e7d2 100644
--- a/switss/utils/graphviz_utils.py
+++ b/switss/utils/graphviz_utils.py
@@ -106,6 +106,6 @@ class VisualizationConfig:
         self.action_map = action_map if action_map != None else std_action_map
 
 class DTMCVisualizationConfig(VisualizationConfig):
-    def __init__(self, state_map=None, trans_map=std_trans_map_dtmc):
-        super().__init__(state_map,trans_map,None)
+    def __init__(self, state_map=None, trans_map=None):
+        super().__init__(state_map,trans_map if trans_map != None else std_trans_map_dtmc,None)
         self.action_map = None
-- 
2.43.0


From 011cf789c56295f09f63b9e0ef2dc76877e66405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:59 +0000
Subject: [PATCH 38/69] fix: digraph of a DTMC subsystem with max-certificate
 showed weights of other states

---
 switss/problem/subsystem.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/switss/problem/subsystem.py b/switss/problem/subsystem.py
index a9a62c1..a64706c 100644
--- a/switss/problem/subsystem.py
+++ b/switss/problem/subsystem.py
@@ -204,12 +204,13 @@ class Subsystem:
             in_subsystem = not is_fail and not is_target and self.subsystem_mask[stateidx]
 
             sm = visualization.state_map(stateidx,labels)
-            show_state_weights = (show_weights and (self.certform == "min" or isinstance(self.subsys.system, DTMC)))
+            show_state_weights = (show_weights and (self.certform == "min" or isinstance(self.supersys.system, DTMC)))
             if not (in_subsystem or is_fail or is_target):
                 return { "label" : "", "color" : "azure3", "style" : "filled" }
             elif (show_state_weights and in_subsystem):
                 label = sm["label"]
-                cert = self.certificate[stateidx]
+                index = stateidx if self.certform == "min" else self.supersys.system.index_by_state_action[(stateidx,0)]
+                cert = self.certificate[index]
                 if label == "": label = "c[{}]={:.5f}".format(stateidx, cert)
                 else: label = "{}\nc[{}]={:.5f}".format(label, stateidx, cert)
                 return { **sm, **{ "label" : label } }
-- 
2.43.0


From 0ff663d9f9d954f3e49b1000c4bd0a2dc2d6d76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:51 +0000
Subject: [PATCH 39/69] fix: digraph of subsystems changed the dictionaries
 returned by action_map

---
 switss/problem/subsystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/problem/subsystem.py b/switss/problem/subsystem.py
index a64706c..3fe1d14 100644
--- a/switss/problem/subsystem.py
+++ b/switss/problem/subsystem.py
@@ -222,7 +222,7 @@ class Subsystem:
             in_subsystem = not fail_or_target and self.subsystem_mask[sourceidx]
             show_action_weights = (show_weights and self.certform == "max" and in_subsystem)
             
-            am = visualization.action_map(sourceidx, action, sourcelabels)
+            am = dict(visualization.action_map(sourceidx, action, sourcelabels))
             am["node"] = { "label" : "", **(am["node"]) }
             
             if show_action_weights:
-- 
2.43.0


From cc7526ba39c6c64ea6cbf879a18d0439f5af311f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:51 +0000
Subject: [PATCH 40/69] fix: digraph of subsystems raised KeyError for state
 styles without a label

---
 switss/problem/subsystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/problem/subsystem.py b/switss/problem/subsystem.py
index 3fe1d14..33e7909 100644
--- a/switss/problem/subsystem.py
+++ b/switss/problem/subsystem.py
@@ -208,7 +208,7 @@ class Subsystem:
             if not (in_subsystem or is_fail or is_target):
                 return { "label" : "", "color" : "azure3", "style" : "filled" }
             elif (show_state_weights and in_subsystem):
-                label = sm["label"]
+                label = sm.get("label", "")
                 index = stateidx if self.certform == "min" else self.supersys.system.index_by_state_action[(stateidx,0)]
                 cert = self.certificate[index]
                 if label == "": label = "c[{}]={:.5f}".format(stateidx, cert)
-- 
2.43.0


From 14426173abfa35bcdbb7d393d327a5bf143ddab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:36 +0000
Subject: [PATCH 41/69] fix: benchmarks.run failed for a single mode with
 several methods and vice versa

---
 switss/benchmarks/benchmarks.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/switss/benchmarks/benchmarks.py b/switss/benchmarks/benchmarks.py
index 6afeea6..d7ac757 100644
--- a/switss/benchmarks/benchmarks.py
+++ b/switss/benchmarks/benchmarks.py
@@ -70,12 +70,14 @@ def run(reachability_form,
     """    
     assert isinstance(reachability_form, ReachabilityForm)
     
-    if isinstance(method, Iterable):
+    if isinstance(method, Iterable) or not isinstance(mode, str):
         ret = []
-        for idx,(me,mo) in enumerate(itertools.product(method,mode)):
+        methods = list(method) if isinstance(method, Iterable) else [method]
+        modes = [mode] if isinstance(mode, str) else list(mode)
+        for idx,(me,mo) in enumerate(itertools.product(methods,modes)):
             if debug:
                 print("="*50)
-                print("running benchmark %s/%s" % (idx+1, len(method)*len(mode)))
+                print("running benchmark %s/%s" % (idx+1, len(methods)*len(modes)))
             data = run(reachability_form, 
                        me, mo, from_thr, 
                        to_thr, step, 
-- 
2.43.0


From 49b8f64f3f5ce1a4de689966b0e7ab17a8e80a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:36 +0000
Subject: [PATCH 42/69] fix: benchmarks.run left out the greatest threshold 1
 and sometimes exceeded to_thr

---
 switss/benchmarks/benchmarks.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/switss/benchmarks/benchmarks.py b/switss/benchmarks/benchmarks.py
index d7ac757..afd960e 100644
--- a/switss/benchmarks/benchmarks.py
+++ b/switss/benchmarks/benchmarks.py
@@ -90,7 +90,9 @@ def run(reachability_form,
 
     assert isinstance(method, ProblemFormulation)
 
-    thresholds = np.arange(from_thr, min(1,to_thr+step), step)
+    # both ends are included, up to rounding
+    count = int(np.floor((to_thr-from_thr)/step + 1e-6)) + 1
+    thresholds = np.minimum(1, from_thr + step*np.arange(count))
     data = { "method" : method.details , "mode" : mode, "run" : [] }
     if debug:
         print("-"*50)
-- 
2.43.0


From 716e1dab88ec0f4cd53e1736355d18bcc6d12281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:36 +0000
Subject: [PATCH 43/69] fix: benchmarks.render failed for empty runs and for
 runs with timeouts

---
 switss/benchmarks/benchmarks.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/switss/benchmarks/benchmarks.py b/switss/benchmarks/benchmarks.py
index afd960e..2641759 100644
--- a/switss/benchmarks/benchmarks.py
+++ b/switss/benchmarks/benchmarks.py
@@ -194,11 +194,11 @@ def render(run,
                     2 : ["+", "*", "3"],
                     3 : ["d", "s", "."]}[plot_no]
 
-    resultcount = len(run["run"][0]["value"])
+    # a run is empty if the first threshold was infeasible, and timeouts shorten lists of results
+    resultcount = max([len(el["value"]) for el in run["run"]], default=0)
     if custom_label == None:
         custom_label = run["method"]["type"]
     if mode in ["states-thr", "laststates-thr"]:
-        maxstatecount = max([max(el["value"]) for el in run["run"]])
 #         normalize = (maxstatecount > 10000) and normalize
 #         ax.set_ylabel("states (x1000)" if normalize else "states")
 #         markers = ["tri_down", "x", "tri_up", ".", "+", "tri_right", "d", "s", "*", "h"]
@@ -210,9 +210,10 @@ def render(run,
             if mode == "laststates-thr" and idx != resultcount-1:
                 continue
             marker = markers[idx % len(markers)]
-            thr = [el["threshold"] for el in run["run"]]
+            els = [el for el in run["run"] if idx < len(el["value"])]
+            thr = [el["threshold"] for el in els]
             label = r"%s" % custom_label if resultcount == 1 else r"%s$_{%s}$" % (custom_label, idx+1)
-            sta = [el["value"][idx] if el["value"][idx] != -1 or timeout_val is None else timeout_val for el in run["run"]]
+            sta = [el["value"][idx] if el["value"][idx] != -1 or timeout_val is None else timeout_val for el in els]
             if normalize:
                 sta = [el/1000 for el in sta]
             ax.plot(thr, sta, linestyle="dashed", marker=marker, label=label, markersize=markersize,linewidth=linewidth)
@@ -224,14 +225,15 @@ def render(run,
             resultcount = 1
         for idx in sol_range:
             tim = []
-            for el in run["run"]:
+            els = [el for el in run["run"] if idx < len(el[times])]
+            for el in els:
                 if el[times][idx] == -1 and timeout_val is not None:
                     tim.append(timeout_val)
                 elif el[times][idx] >= 0 and el[times][idx] <= 1 and cap_times_below_onesec:
                     tim.append(1)
                 else:
                     tim.append(el[times][idx])
-            thr = [el["threshold"] for el in run["run"]]
+            thr = [el["threshold"] for el in els]
             label = r"%s" % custom_label if resultcount == 1 else r"%s$_{%s}$" % (custom_label, idx+1)
             marker = markers[idx % len(markers)]
             ax.plot(thr, tim, linestyle="dashed", marker=marker,  label=label, markersize=markersize, linewidth=linewidth)
-- 
2.43.0


From 3a5f4b6327a72125d1dc5c9e0d68e64ffe4cfff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:56 +0000
Subject: [PATCH 44/69] fix: DTMC.from_stormpy raised TypeError and dropped the
 labels

---
 switss/model/dtmc.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/switss/model/dtmc.py b/switss/model/dtmc.py
index 35f41e2..d4bba1f 100644
--- a/switss/model/dtmc.py
+++ b/switss/model/dtmc.py
@@ -1,6 +1,7 @@
 from bidict import bidict
 from graphviz import Digraph
 from scipy.sparse import dok_matrix
+from collections import defaultdict
 
 from . import AbstractMDP
 from ..utils import color_from_hash, cast_dok_matrix, DTMCVisualizationConfig
@@ -143,20 +144,23 @@ class DTMC(AbstractMDP):
         return { "P" :  P }
 
     @classmethod
-    def from_stormpy_model(cls,stormpy_model):
+    def from_stormpy_model(cls,stormpy_model, choice_model = False):
         
+        assert not choice_model, "Choice models are MDPs."
         #assert stormpy_model.model_type == "ModelType.MDP"
 
         P = dok_matrix((1,1))
-        index_by_state_action = bidict()
+        label_to_states = defaultdict(set)
         N = stormpy_model.nr_states
 
         P.resize((N,N))
 
         for state in stormpy_model.states:
             sid = state.id
+            for label in stormpy_model.labeling.get_labels_of_state(sid):
+                label_to_states[label].add(sid)
             for action in state.actions:
                 for transition in action.transitions:
                     P[sid,transition.column] = transition.value()
 
-        return { "P" : P }
+        return { "P" : P, "label_to_states" : label_to_states }
-- 
2.43.0


From 62a487a1588a5bff135d0a81f3897663c70e9de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:56 +0000
Subject: [PATCH 45/69] fix: choice models carried the labels of a choice at
 the next choice

---
 switss/model/mdp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/switss/model/mdp.py b/switss/model/mdp.py
index d366aab..dd03aa4 100644
--- a/switss/model/mdp.py
+++ b/switss/model/mdp.py
@@ -268,8 +268,8 @@ class MDP(AbstractMDP):
                 stormpy_cid = stormpy_model.get_choice_index(sid,aid)
                 actionlabels = stormpy_action_labeling.get_labels_of_choice(stormpy_cid)
                 for alabel in actionlabels:
-                    label_to_states[alabel].add(N+max_index)
-                label_to_states["choice"].add(N+max_index)
+                    label_to_states[alabel].add(N+index)
+                label_to_states["choice"].add(N+index)
 
                 for transition in action.transitions:
                     P[C+index,transition.column] = transition.value()
-- 
2.43.0


From 7feeadbadcfa49b404bb607ecf2ff4c6a5f43ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:56 +0000
Subject: [PATCH 46/69] fix: prism_to_tra failed for dictionaries of constants
 and labels

---
 switss/prism/prism.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/switss/prism/prism.py b/switss/prism/prism.py
index f34d33e..9aee5a6 100644
--- a/switss/prism/prism.py
+++ b/switss/prism/prism.py
@@ -62,14 +62,16 @@ def prism_to_tra(model_path, destination_path, prism_constants = {}, extra_label
     :return: True, if model was constructed successfully, otherwise False.
     :rtype: bool
     """    
-    const_strings = (["-const"] + [','.join([C+"="+str(i) for (C,i) in prism_constants])]) if len(prism_constants) > 0 else []
+    # pairs are accepted as well as dictionaries
+    prism_constants, extra_labels = dict(prism_constants), dict(extra_labels)
+    const_strings = (["-const"] + [','.join([C+"="+str(i) for (C,i) in prism_constants.items()])]) if len(prism_constants) > 0 else []
 
     with tempfile.NamedTemporaryFile() as namedtf:
         with open(model_path,"rb") as model_file:
             copyfileobj(model_file,namedtf)
 
         # write the extra labels to the prism model description
-        for (label_name, label_expr) in extra_labels:
+        for (label_name, label_expr) in extra_labels.items():
             label_string = "label \"" + label_name + "\" = " + label_expr + ";"
             namedtf.write((label_string+"\n").encode("utf-8"))
 
-- 
2.43.0


From 7d8e4a265907f17496b068b226dae84d3e60af9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:22 +0000
Subject: [PATCH 47/69] fix: prism_to_tra appended extra labels to an
 unterminated last line

---
 switss/prism/prism.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/switss/prism/prism.py b/switss/prism/prism.py
index 9aee5a6..e0510ca 100644
--- a/switss/prism/prism.py
+++ b/switss/prism/prism.py
@@ -71,6 +71,9 @@ def prism_to_tra(model_path, destination_path, prism_constants = {}, extra_label
             copyfileobj(model_file,namedtf)
 
         # write the extra labels to the prism model description
+        # (the last line may be a comment that is not terminated)
+        if len(extra_labels) > 0:
+            namedtf.write("\n".encode("utf-8"))
         for (label_name, label_expr) in extra_labels.items():
             label_string = "label \"" + label_name + "\" = " + label_expr + ";"
             namedtf.write((label_string+"\n").encode("utf-8"))
-- 
2.43.0


From 315ffc298dfe0801175424852faf1e32224912a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:18 +0000
Subject: [PATCH 48/69] fix: constraint right-hand sides handed out are not
 changed by later calls

---
 switss/model/reachability_form.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/switss/model/reachability_form.py b/switss/model/reachability_form.py
index 0e9b7f5..1a712ef 100644
--- a/switss/model/reachability_form.py
+++ b/switss/model/reachability_form.py
@@ -514,7 +514,7 @@ class ReachabilityForm:
 
         if (self.__fark_z_matr is not None) and (self.__fark_z_rhs is not None):
             self.__fark_z_rhs[C] = -threshold
-            return self.__fark_z_matr, self.__fark_z_rhs
+            return self.__fark_z_matr, self.__fark_z_rhs.copy()
 
         self.__fark_z_rhs = self.to_target.A1.copy()
         self.__fark_z_rhs.resize(C+1)
@@ -525,7 +525,7 @@ class ReachabilityForm:
 
         self.__fark_z_matr = vstack((self.A,-delta))
 
-        return self.__fark_z_matr, self.__fark_z_rhs
+        return self.__fark_z_matr, self.__fark_z_rhs.copy()
 
     def fark_y_constraints(self, threshold):
         """ 
@@ -549,7 +549,7 @@ p        .. math::
 
         if (self.__fark_y_matr is not None) and (self.__fark_y_rhs is not None):
             self.__fark_y_rhs[N] = -threshold
-            return self.__fark_y_matr, self.__fark_y_rhs
+            return self.__fark_y_matr, self.__fark_y_rhs.copy()
 
         b = cast_dok_matrix(self.to_target)
 
@@ -559,7 +559,7 @@ p        .. math::
 
         self.__fark_y_matr = hstack((self.A,-b)).T
 
-        return self.__fark_y_matr, self.__fark_y_rhs
+        return self.__fark_y_matr, self.__fark_y_rhs.copy()
 
     def _reach_form_id_matrix(self):
         """Computes the matrix :math:`I` for a given reachability form that for every row (st,act) has an entry 1 at the column corresponding to st."""
-- 
2.43.0


From 4aa75d251dcb5d124f855a42d1c73d1630feb516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:17 +0000
Subject: [PATCH 49/69] fix: labels of the target and fail state have no
 certificate variable

---
 switss/problem/formulations.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/switss/problem/formulations.py b/switss/problem/formulations.py
index 621fc68..cc349d9 100644
--- a/switss/problem/formulations.py
+++ b/switss/problem/formulations.py
@@ -91,8 +91,9 @@ def groups_from_labels(rf, mode, labels=None, group_actions = False):
     elif mode == "min":
         groups = {}
         for label in labels:
+            # target and fail have no variable in the certificate
             states = rf.system.states_by_label[label]
-            groups[label] = states
+            groups[label] = { s for s in states if s < certificate_size(rf, mode) }
         return InvertibleDict(groups)
     else:
         groups = InvertibleDict({})
@@ -102,7 +103,9 @@ def groups_from_labels(rf, mode, labels=None, group_actions = False):
                 actions = rf.system.actions_by_state[state]
                 for action in actions:
                     sap = rf.system.index_by_state_action[(state, action)]
-                    groups.add(label, sap)
+                    # target and fail have no variable in the certificate
+                    if sap < certificate_size(rf, mode):
+                        groups.add(label, sap)
         return groups
 
 def add_indicator_constraints(model, variables, upper_bounds, mode, groups, use_real_indicator_constrs=False, indicator_domain="real"):
-- 
2.43.0


From b7990748a4ac8c2d310ad39274f640215445f04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:57 +0000
Subject: [PATCH 50/69] benchmarks.py back to its original state (it counts as
 a benchmark file)

---
 switss/benchmarks/benchmarks.py | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/switss/benchmarks/benchmarks.py b/switss/benchmarks/benchmarks.py
index 2641759..6afeea6 100644
--- a/switss/benchmarks/benchmarks.py
+++ b/switss/benchmarks/benchmarks.py
@@ -70,14 +70,12 @@ def run(reachability_form,
     """    
     assert isinstance(reachability_form, ReachabilityForm)
     
-    if isinstance(method, Iterable) or not isinstance(mode, str):
+    if isinstance(method, Iterable):
         ret = []
-        methods = list(method) if isinstance(method, Iterable) else [method]
-        modes = [mode] if isinstance(mode, str) else list(mode)
-        for idx,(me,mo) in enumerate(itertools.product(methods,modes)):
+        for idx,(me,mo) in enumerate(itertools.product(method,mode)):
             if debug:
                 print("="*50)
-                print("running benchmark %s/%s" % (idx+1, len(methods)*len(modes)))
+                print("running benchmark %s/%s" % (idx+1, len(method)*len(mode)))
             data = run(reachability_form, 
                        me, mo, from_thr, 
                        to_thr, step, 
@@ -90,9 +88,7 @@ def run(reachability_form,
 
     assert isinstance(method, ProblemFormulation)
 
-    # both ends are included, up to rounding
-    count = int(np.floor((to_thr-from_thr)/step + 1e-6)) + 1
-    thresholds = np.minimum(1, from_thr + step*np.arange(count))
+    thresholds = np.arange(from_thr, min(1,to_thr+step), step)
     data = { "method" : method.details , "mode" : mode, "run" : [] }
     if debug:
         print("-"*50)
@@ -194,11 +190,11 @@ def render(run,
                     2 : ["+", "*", "3"],
                     3 : ["d", "s", "."]}[plot_no]
 
-    # a run is empty if the first threshold was infeasible, and timeouts shorten lists of results
-    resultcount = max([len(el["value"]) for el in run["run"]], default=0)
+    resultcount = len(run["run"][0]["value"])
     if custom_label == None:
         custom_label = run["method"]["type"]
     if mode in ["states-thr", "laststates-thr"]:
+        maxstatecount = max([max(el["value"]) for el in run["run"]])
 #         normalize = (maxstatecount > 10000) and normalize
 #         ax.set_ylabel("states (x1000)" if normalize else "states")
 #         markers = ["tri_down", "x", "tri_up", ".", "+", "tri_right", "d", "s", "*", "h"]
@@ -210,10 +206,9 @@ def render(run,
             if mode == "laststates-thr" and idx != resultcount-1:
                 continue
             marker = markers[idx % len(markers)]
-            els = [el for el in run["run"] if idx < len(el["value"])]
-            thr = [el["threshold"] for el in els]
+            thr = [el["threshold"] for el in run["run"]]
             label = r"%s" % custom_label if resultcount == 1 else r"%s$_{%s}$" % (custom_label, idx+1)
-            sta = [el["value"][idx] if el["value"][idx] != -1 or timeout_val is None else timeout_val for el in els]
+            sta = [el["value"][idx] if el["value"][idx] != -1 or timeout_val is None else timeout_val for el in run["run"]]
             if normalize:
                 sta = [el/1000 for el in sta]
             ax.plot(thr, sta, linestyle="dashed", marker=marker, label=label, markersize=markersize,linewidth=linewidth)
@@ -225,15 +220,14 @@ def render(run,
             resultcount = 1
         for idx in sol_range:
             tim = []
-            els = [el for el in run["run"] if idx < len(el[times])]
-            for el in els:
+            for el in run["run"]:
                 if el[times][idx] == -1 and timeout_val is not None:
                     tim.append(timeout_val)
                 elif el[times][idx] >= 0 and el[times][idx] <= 1 and cap_times_below_onesec:
                     tim.append(1)
                 else:
                     tim.append(el[times][idx])
-            thr = [el["threshold"] for el in els]
+            thr = [el["threshold"] for el in run["run"]]
             label = r"%s" % custom_label if resultcount == 1 else r"%s$_{%s}$" % (custom_label, idx+1)
             marker = markers[idx % len(markers)]
             ax.plot(thr, tim, linestyle="dashed", marker=marker,  label=label, markersize=markersize, linewidth=linewidth)
-- 
2.43.0


From 3f297fc5ee1d3eec7d9b60d113edbcd3190ddf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:08 +0000
Subject: [PATCH 51/69] fix: probability of moving to fail could exceed 1 by
 rounding

The probabilities of the removed successors are summed up; that sum may be slightly above 1.
---
 switss/model/reachability_form.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/model/reachability_form.py b/switss/model/reachability_form.py
index 1a712ef..b1f5113 100644
--- a/switss/model/reachability_form.py
+++ b/switss/model/reachability_form.py
@@ -420,7 +420,7 @@ class ReachabilityForm:
             if p_target > 0:
                 P_compl[idx, target_state] = p_target
             if p_fail > 0:
-                P_compl[idx, fail_state] = p_fail
+                P_compl[idx, fail_state] = min(1, p_fail)
 
         P_compl[C, target_state] = 1
         P_compl[C+1, fail_state] = 1
-- 
2.43.0


From f5541ed30129a83dd28a107f79abe090a8b3ba03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:31 +0000
Subject: [PATCH 52/69] fix: groups with a slightly negative result were not
 fixed to zero

---
 switss/problem/qsheurparams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/problem/qsheurparams.py b/switss/problem/qsheurparams.py
index 728300d..314fb05 100644
--- a/switss/problem/qsheurparams.py
+++ b/switss/problem/qsheurparams.py
@@ -161,7 +161,7 @@ class InverseResultFixedZerosUpdater(Updater):
         # result vector will be constrained to equal 0 in the coming LPs
         ret = []
         for group in self.groups:
-            if last_result[group] == 0:
+            if last_result[group] <= 0:
                 constraint = ([(group,1.)], "=", 0)
                 ret.append(constraint)
         return ret
-- 
2.43.0


From 72a74d3e5f4b56ce83e36148f16940fc6b9b2622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:00 +0000
Subject: [PATCH 53/69] fix: tree_decomp freed the array of successor points
 once per successor

points of the partitions below: double free (crash) with two or more successors
---
 switss/utils/tree_decomp.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/utils/tree_decomp.pyx b/switss/utils/tree_decomp.pyx
index 1d84a2e..521f68c 100644
--- a/switss/utils/tree_decomp.pyx
+++ b/switss/utils/tree_decomp.pyx
@@ -319,7 +319,7 @@ def min_witnesses_from_tree_decomp(rf,partition,thr,known_upper_bound=None,timeo
         else:
             for i in range(no_sucs):
                 free_mem(suc_points_c[i],points_per_suc[i])
-                free(suc_points_c)
+            free(suc_points_c)
 
         # lambda to go from inp point to python Point dict
         fip = lambda p,k: from_inp_point(p,part_to_input_mapping,inp_dim,k)
-- 
2.43.0


From d9dd811e65376c52014772973709d8fde5c80ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:00 +0000
Subject: [PATCH 54/69] fix: tree_decomp read one point past the points of
 every successor

the iterator over combinations of successor points ran up to the number of points: invalid memory read, combinations missed
---
 switss/utils/tree_decomp.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/utils/tree_decomp.pyx b/switss/utils/tree_decomp.pyx
index 521f68c..b3a6c17 100644
--- a/switss/utils/tree_decomp.pyx
+++ b/switss/utils/tree_decomp.pyx
@@ -111,7 +111,7 @@ cdef void increase_iterator(int* points_iterator, int [:] points_per_suc, int no
         return
     cdef int i = no_sucs -1
     while True:
-        if points_iterator[i] == points_per_suc[i]:
+        if points_iterator[i] == points_per_suc[i] - 1:
             points_iterator[i] = 0
             if i == 0:
                 break
-- 
2.43.0


From 3e27deffc41d5bba7241a495477fc8c8a64ace28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:00 +0000
Subject: [PATCH 55/69] fix: tree_decomp raised KeyError for states that do not
 restrict the subsystem formula

pick_iter only assigns variables in the support of the formula: KeyError for all others
---
 switss/utils/tree_decomp.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/switss/utils/tree_decomp.pyx b/switss/utils/tree_decomp.pyx
index b3a6c17..a413fd0 100644
--- a/switss/utils/tree_decomp.pyx
+++ b/switss/utils/tree_decomp.pyx
@@ -261,7 +261,8 @@ def min_witnesses_from_tree_decomp(rf,partition,thr,known_upper_bound=None,timeo
         # enumerate relevant subsystems of part_view
         bdd, p_expr = compute_subsys_bdd(part_view)
         no_of_models = 0
-        for model in bdd.pick_iter(p_expr):
+        care_vars = set('x{i}'.format(i=i) for i in part_view.get_vertices())
+        for model in bdd.pick_iter(p_expr,care_vars=care_vars):
             no_of_models += 1
             if timeout != None:
                 if time.perf_counter() - start_time > timeout:
-- 
2.43.0


From 34f363cf8e094c0e772d5d6feb2f60289c32209c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:00 +0000
Subject: [PATCH 56/69] fix: tree_decomp only considered subsystems that
 contain states of every successor partition

partitions below were always entered: the result was too large when they are not needed
---
 switss/utils/tree_decomp.pyx | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/switss/utils/tree_decomp.pyx b/switss/utils/tree_decomp.pyx
index a413fd0..a1a4991 100644
--- a/switss/utils/tree_decomp.pyx
+++ b/switss/utils/tree_decomp.pyx
@@ -229,18 +229,20 @@ def min_witnesses_from_tree_decomp(rf,partition,thr,known_upper_bound=None,timeo
         no_sucs = len(suc_ps)
         points_per_suc = np.zeros(no_sucs,dtype=np.dtype("i"))
         tot_no_points = 1
+        zero_point = dict({ 'states' : 0, 'in_probs' : dict() })
         if no_sucs > 0:
             suc_points_c = <Point**> malloc(sizeof(Point*) * (no_sucs))
             for i in range(no_sucs):
-                suc_points.append(partition_points[suc_ps[i]])
-                suc_points_c[i] = py_to_c_points(partition_points[suc_ps[i]])
-                points_per_suc[i] = len(partition_points[suc_ps[i]])
+                # the 'zero point' stands for subsystems that contain no state of the successor
+                suc_points.append([zero_point] + partition_points[suc_ps[i]])
+                suc_points_c[i] = py_to_c_points(suc_points[i])
+                points_per_suc[i] = len(suc_points[i])
                 tot_no_points = tot_no_points * points_per_suc[i]
 
         # if there is no such successor, add the singleton list containing the 'zero point'
         elif no_sucs == 0:
             suc_points_c = <Point**> malloc(sizeof(Point*))
-            suc_points_c[0] = py_to_c_points([dict({ 'states' : 0, 'in_probs' : dict() })])
+            suc_points_c[0] = py_to_c_points([zero_point])
 
         #list containing the points of p
         partition_points[part_id] = []
-- 
2.43.0


From 5b7c9fd122f325432e9869c0a2d547690b17a662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:01 +0000
Subject: [PATCH 57/69] fix: tree_decomp counted paths between input states of
 a successor partition twice

edges between input states of a partition were used again in the partition above: probabilities too large, sizes too small
---
 switss/utils/tree_decomp.pyx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/switss/utils/tree_decomp.pyx b/switss/utils/tree_decomp.pyx
index a1a4991..67104de 100644
--- a/switss/utils/tree_decomp.pyx
+++ b/switss/utils/tree_decomp.pyx
@@ -127,10 +127,13 @@ cdef double state_prob(Point p, int idx):
             return p.probs[i].prob
     return -1
 
-cdef double[:,:] comp_subsys_edges(double[:,:] P,int [:] states, int no_states):
+cdef double[:,:] comp_subsys_edges(double[:,:] P,int [:] states, int no_states, uint8[:] is_out):
     cdef double[:,:] subsys_memview = np.zeros((no_states,no_states),dtype='d')
     cdef int i,j = 0
     for i in range(no_states):
+        # what lies behind an output state is contained in the probabilities of the successor points
+        if is_out[states[i]]:
+            continue
         for j in range(no_states):
             subsys_memview[i,j] = P[states[i],states[j]]
     return subsys_memview
@@ -275,7 +278,7 @@ def min_witnesses_from_tree_decomp(rf,partition,thr,known_upper_bound=None,timeo
                               dtype="i")
             no_states = len(states)
 
-            subsys_edges = comp_subsys_edges(P_memview,states,no_states)
+            subsys_edges = comp_subsys_edges(P_memview,states,no_states,is_out.a)
 
             subsys_points = <Point*> malloc(tot_no_points * sizeof(Point))
 
-- 
2.43.0


From b6bc93bf71823197dfc068ceacdad973891b335e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:01 +0000
Subject: [PATCH 58/69] fix: tree_decomp discarded points below the threshold
 in every partition

partitions that contribute less than the threshold were ignored although targets elsewhere make up for it: result too large or ValueError
---
 switss/utils/tree_decomp.pyx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/switss/utils/tree_decomp.pyx b/switss/utils/tree_decomp.pyx
index 67104de..2585fd6 100644
--- a/switss/utils/tree_decomp.pyx
+++ b/switss/utils/tree_decomp.pyx
@@ -247,6 +247,10 @@ def min_witnesses_from_tree_decomp(rf,partition,thr,known_upper_bound=None,timeo
             suc_points_c = <Point**> malloc(sizeof(Point*))
             suc_points_c[0] = py_to_c_points([zero_point])
 
+        # a partition may contribute less than the threshold if targets can be reached elsewhere,
+        # so points are only compared to the threshold in the partition of the initial state
+        part_thr = thr if labeling[rf.initial] == part_id else 0
+
         #list containing the points of p
         partition_points[part_id] = []
 
@@ -294,7 +298,7 @@ def min_witnesses_from_tree_decomp(rf,partition,thr,known_upper_bound=None,timeo
                                           subsys_edges,
                                           inp_dim,
                                           known_upper_bound,
-                                          thr,
+                                          part_thr,
                                           points_per_suc,
                                           no_sucs,
                                           tot_no_points,
-- 
2.43.0


From 779c38a85ea2c8b1bdffe2c5344a39fd717b4392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:01 +0000
Subject: [PATCH 59/69] fix: tree_decomp rounded the threshold to single
 precision

thresholds just below an attainable probability were rounded above it: result too large
---
 switss/utils/tree_decomp.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/utils/tree_decomp.pyx b/switss/utils/tree_decomp.pyx
index 2585fd6..659d855 100644
--- a/switss/utils/tree_decomp.pyx
+++ b/switss/utils/tree_decomp.pyx
@@ -479,7 +479,7 @@ cdef int handle_subsys(int[:] states,
                        double[:,:] subsys_edges,
                        int inp_dim,
                        int known_upper_bound,
-                       float thr,
+                       double thr,
                        int[:] points_per_suc,
                        int no_sucs,
                        int tot_no_points,
-- 
2.43.0


From a4baaf875b7b206f63a3df221c23d7a1fe973516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:01 +0000
Subject: [PATCH 60/69] fix: TreeAlgo failed if the threshold cannot be reached
 or time ran out

ValueError, TypeError or a second result after 'infeasible'/'notsolved'
---
 switss/problem/tree_algo.py  | 6 ++++++
 switss/utils/tree_decomp.pyx | 3 ++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/switss/problem/tree_algo.py b/switss/problem/tree_algo.py
index 9c49c8d..8923766 100644
--- a/switss/problem/tree_algo.py
+++ b/switss/problem/tree_algo.py
@@ -34,6 +34,7 @@ class TreeAlgo(ProblemFormulation):
             print("res_min: " + str(res_min.value))
             if res_min.status != "success" or res_max.status != "success":
                 yield ProblemResult("infeasible",None,None,None)
+                return
 
             upper_bound = min(res_max.value, res_min.value)
 
@@ -53,5 +54,10 @@ class TreeAlgo(ProblemFormulation):
                                              timeout=timeout)
         if res == -1:
             yield ProblemResult("notsolved",None,None,None)
+            return
+
+        if res is None:
+            yield ProblemResult("infeasible",None,None,None)
+            return
 
         yield ProblemResult("success", None, res, None)
diff --git a/switss/utils/tree_decomp.pyx b/switss/utils/tree_decomp.pyx
index 659d855..48315c9 100644
--- a/switss/utils/tree_decomp.pyx
+++ b/switss/utils/tree_decomp.pyx
@@ -398,7 +398,8 @@ def min_witnesses_from_tree_decomp(rf,partition,thr,known_upper_bound=None,timeo
         ## print("\npartition " + str(part_id) + " points: \n" + str(partition_points[part_id]))
         ## print("partition " + str(part_id) + " no-points: \n" + str(len(partition_points[part_id])) + "\n")
 
-    return min([p["states"] for p in partition_points[rev_top_order[-1]]])
+    # None: no point of the initial partition reaches the threshold
+    return min([p["states"] for p in partition_points[rev_top_order[-1]]], default=None)
 
 # from https://stackoverflow.com/questions/23979146/check-if-numpy-array-is-in-list-of-numpy-arrays
 def arreqclose_in_list(myarr, list_arrays):
-- 
2.43.0


From cea306a94c06c6d2070670e77475f5efdca41a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:01 +0000
Subject: [PATCH 61/69] fix: tree_decomp raised QhullError or AttributeError
 for degenerate point sets

partitions with several input states: QhullError for degenerate sets of points, AttributeError for none
---
 switss/utils/tree_decomp.pyx | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/switss/utils/tree_decomp.pyx b/switss/utils/tree_decomp.pyx
index 48315c9..48c1570 100644
--- a/switss/utils/tree_decomp.pyx
+++ b/switss/utils/tree_decomp.pyx
@@ -8,7 +8,7 @@ import functools as ft
 import numpy as np
 cimport numpy as np
 from scipy import linalg
-from scipy.spatial import ConvexHull
+from scipy.spatial import ConvexHull, QhullError
 from scipy.linalg.cython_lapack cimport dgesv
 
 from bidict import bidict
@@ -346,7 +346,7 @@ def min_witnesses_from_tree_decomp(rf,partition,thr,known_upper_bound=None,timeo
             # compute convex-hulls for all k (iteratively from lowest)
             # and keep points that are vertices in the respective hulls
             k_vertices = dict()
-            conv_hull = None
+            hull_points = np.zeros((1,inp_dim))
 
             ## print(k_points)
 
@@ -354,16 +354,8 @@ def min_witnesses_from_tree_decomp(rf,partition,thr,known_upper_bound=None,timeo
                 # add projections onto all axes
                 points_to_add = np.concatenate((*map(lambda p: points_to_add_in_inp_space(p,part_to_input_mapping,inp_dim), k_points[k]),))
 
-                if conv_hull == None:
-                    # todo: figure out how to handle degenerate cases!
-                    conv_hull = ConvexHull(np.append(points_to_add,np.array([np.zeros(inp_dim)]),axis=0),
-                                           incremental=True,qhull_options='QJ1e-12 Q12 Pp')
-                else:
-                    conv_hull.add_points(points_to_add)
-
-                k_vertices[k] = np.reshape(conv_hull.vertices,(conv_hull.vertices.shape[0],1))
-
-            conv_hull.close()
+                hull_points = np.append(hull_points,points_to_add,axis=0)
+                k_vertices[k] = hull_vertices(hull_points)
 
             # keep k-points that are real points from the current partitions (not projections)
             # and vertices that are not vertices of convex hulls for any k' < k
@@ -372,7 +364,7 @@ def min_witnesses_from_tree_decomp(rf,partition,thr,known_upper_bound=None,timeo
             for k in sorted(k_vertices.keys()):
 
                 vertex_cnt = 0
-                k_vertex_points = np.take_along_axis(conv_hull.points,k_vertices[k],0)
+                k_vertex_points = hull_points[k_vertices[k]]
                 vertex_cnt = len(k_vertex_points)
                 k_points_k_cnt = len(k_points[k])
                 tmp_list = []
@@ -656,6 +648,13 @@ cdef int compute_reach(int no_states,
 
 
 
+def hull_vertices(points):
+    try:
+        return ConvexHull(points,qhull_options='QJ1e-12 Q12 Pp').vertices
+    except QhullError:
+        # qhull fails for some degenerate cases: keep all points then
+        return np.arange(points.shape[0])
+
 def print_conv_hull(conv_hull,k):
     pp = PdfPages(str(k) + '_conv_hull.pdf')
     plt.plot(conv_hull.points[:,0], conv_hull.points[:,1], 'o')
-- 
2.43.0


From 794a93e52a4f356d9f3f78ff0d40446c678a070e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:01 +0000
Subject: [PATCH 62/69] fix: tree_decomp took rows of the transition matrix for
 states

DTMCs whose rows are not in the order of their states: wrong size or ValueError
---
 switss/utils/tree_decomp.pyx | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/switss/utils/tree_decomp.pyx b/switss/utils/tree_decomp.pyx
index 48c1570..8302d61 100644
--- a/switss/utils/tree_decomp.pyx
+++ b/switss/utils/tree_decomp.pyx
@@ -155,7 +155,7 @@ def tree_decomp_from_partition_graphtool(P,partition):
     #gt.graph_draw(decomp, output="quotient.pdf",output_size=(300,300),vertex_text=decomp.vertex_index,vertex_size=5)
 
 
-def partition_graph(G,part_id,suc_ps,labeling,interface,rf):
+def partition_graph(G,part_id,suc_ps,labeling,interface,initial,to_target):
     in_partition = lambda v: ((labeling[v] == part_id)
                               or ((labeling[v] in suc_ps)
                                   and interface[v]))
@@ -171,11 +171,11 @@ def partition_graph(G,part_id,suc_ps,labeling,interface,rf):
                                      (labeling[i] != part_id))]) > 0
 
     for v in part_view.get_vertices():
-        if (interface[v] and (labeling[v] == part_id)) or (rf.initial == v):
+        if (interface[v] and (labeling[v] == part_id)) or (initial == v):
             is_in[v] = True
         if interface[v] and (labeling[v] != part_id):
             is_out[v] = True
-        if (rf.to_target[v] > 0) or has_out_suc(v):
+        if (to_target[v] > 0) or has_out_suc(v):
             is_target[v] = True
     part_view.vertex_properties["is_in"] = is_in
     part_view.vertex_properties["is_out"] = is_out
@@ -192,20 +192,25 @@ def min_witnesses_from_tree_decomp(rf,partition,thr,known_upper_bound=None,timeo
     cdef int k = 0
     cdef StateProb* probs = NULL
 
+    # the row of every state (the rows of a DTMC need not be in the order of its states)
+    state_rows = [row for (_,row) in sorted((s,row) for ((s,_),row) in rf.index_by_state_action.items())]
+    P = cast_dok_matrix(rf.P.tocsr()[state_rows])
+    to_target = np.array(rf.to_target).ravel()[state_rows]
+
     # TODO when does the overhead of keeping 'dense' P in memory become visible?
-    cdef double[:,:] P_memview = rf.P.todense()
+    cdef double[:,:] P_memview = P.todense()
 
     if known_upper_bound == None:
-        known_upper_bound = rf.P.shape[0]
+        known_upper_bound = P.shape[0]
 
-    G = underlying_graph(rf.P)
+    G = underlying_graph(P)
 
     dist_from_init = gt.shortest_distance(G,source=G.vertex(rf.initial))
     ## print(dist_from_init.a)
 
     edge_probs = G.new_ep("double")
     for e in G.edges():
-        edge_probs[e] = rf.P[e.source(),e.target()]
+        edge_probs[e] = P[e.source(),e.target()]
     G.edge_properties["edge_probs"] = edge_probs
 
     decomp, labeling, interface = quotient(G,partition)
@@ -221,7 +226,7 @@ def min_witnesses_from_tree_decomp(rf,partition,thr,known_upper_bound=None,timeo
     for part_id in rev_top_order:
         suc_ps = decomp.get_out_neighbors(decomp.vertex(part_id))
 
-        part_view = partition_graph(G,part_id,suc_ps,labeling,interface,rf)
+        part_view = partition_graph(G,part_id,suc_ps,labeling,interface,rf.initial,to_target)
 
         is_in = part_view.vp["is_in"]
         is_out = part_view.vp["is_out"]
@@ -286,8 +291,6 @@ def min_witnesses_from_tree_decomp(rf,partition,thr,known_upper_bound=None,timeo
 
             subsys_points = <Point*> malloc(tot_no_points * sizeof(Point))
 
-            to_target = ((np.array(rf.to_target)).ravel())
-
             # compute all the new points generated by the subsystem (stored into subsys_points)
             no_new_points = handle_subsys(states,
                                           suc_points_c,
-- 
2.43.0


From 3a11b6afa76753f5d3d74ed7641dc1cfd0510223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:17 +0000
Subject: [PATCH 63/69] fix: GurobiMILP accepts constraints and objectives
 without terms

---
 switss/solver/milp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index 32e7f74..1b6586b 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -403,7 +403,8 @@ class GurobiMILP(MILP):
             assert coeff == float(coeff), "Coefficient coeff=%s is not a number (@index=%d)." % (coeff, idx)
 
     def _eval_pulp_expr(self, expression):
-        return sum([ self.__variables[var]*coeff for var, coeff in expression ])
+        # (an empty sum is an expression, too)
+        return gp.LinExpr([ (coeff, self.__variables[var]) for var, coeff in expression ])
 
     def set_objective_function(self, expression):
         """Sets the objective function of the form
-- 
2.43.0


From 005f695f7c41371c2bab9022fdcc58da569c2521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:18 +0000
Subject: [PATCH 64/69] fix: add_indicator_constraints recognises Gurobi models

---
 switss/problem/formulations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/problem/formulations.py b/switss/problem/formulations.py
index cc349d9..22b9343 100644
--- a/switss/problem/formulations.py
+++ b/switss/problem/formulations.py
@@ -136,7 +136,7 @@ def add_indicator_constraints(model, variables, upper_bounds, mode, groups, use_
     :rtype: utils.InvertibleDict[int, Set[int]]
     """
     if use_real_indicator_constrs:
-        assert model.isinstance(GurobiMILP)
+        assert isinstance(model, GurobiMILP)
 
     indicator_to_group = {}
 
-- 
2.43.0


From e92bbca064142800d2b8ed49e3b6823fd9ca403e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:18 +0000
Subject: [PATCH 65/69] fix: GurobiMILP.add_indicator_constraint adds sigma = 0
 => x = 0 and returns its index

---
 switss/solver/milp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index 1b6586b..913cd22 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -480,7 +480,7 @@ class GurobiMILP(MILP):
         """
         name = "c%d" % len( self.__constraints )
 
-        new_constr = self.__model.addConstr((self.__variables[ind_varidx] == 0) << (self.__variables[rhs_varidx] == 0))
+        newconstr = self.__model.addConstr((self.__variables[ind_varidx] == 0) >> (self.__variables[rhs_varidx] == 0), name)
 
         constridx = len(self.__constraints)
         self.__constraints.append(newconstr)
-- 
2.43.0


From cf13c8e1dba72f2109319cc06f05f62c4af01188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:21 +0000
Subject: [PATCH 66/69] fix: variables without bounds of a GurobiMILP are
 unbounded, as in MILP

---
 switss/solver/milp.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/switss/solver/milp.py b/switss/solver/milp.py
index 913cd22..a409fcc 100644
--- a/switss/solver/milp.py
+++ b/switss/solver/milp.py
@@ -511,15 +511,12 @@ class GurobiMILP(MILP):
 
             varidx = len(self.__variables)
             varname = "x%d" % varidx
-            if lb is not None:
-                if ub is not None:
-                    var = self.__model.addVar(lb=lb, ub=ub, vtype=cat, name=varname)
-                else:
-                    var = self.__model.addVar(lb=lb, vtype=cat, name=varname)
-            elif ub is not None:
-                var = self.__model.addVar(ub=ub, vtype=cat, name=varname)
-            else:
-                var = self.__model.addVar(vtype=cat, name=varname)
+            # gurobi assumes a lower bound of 0 if none is given
+            lb = -GRB.INFINITY if lb is None else lb
+            ub = GRB.INFINITY if ub is None else ub
+            if domain == "binary":
+                lb, ub = max(lb, 0), min(ub, 1)
+            var = self.__model.addVar(lb=lb, ub=ub, vtype=cat, name=varname)
 
             self.__variables.append(var)
 
-- 
2.43.0


From 44a54311acbe911e6b23d23d94500fc1a264151d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:48 +0000
Subject: [PATCH 67/69] fix: interface used an undefined name

---
 switss/utils/graph_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/switss/utils/graph_utils.py b/switss/utils/graph_utils.py
index 560d825..7a81d02 100644
--- a/switss/utils/graph_utils.py
+++ b/switss/utils/graph_utils.py
@@ -55,6 +55,6 @@ def interface(node_set1,node_set2,P):
 
     for (n1,n2) in P.keys():
         if (n1 in node_set1) and (n2 in node_set2):
-            P_int[node_map[n1],node_map[n2]] = P[n1,n2]
+            P_int[node_map1[n1],node_map2[n2]] = P[n1,n2]
 
     return P_int,node_map1,node_map2
-- 
2.43.0


From 01d0234d654331a8294d063740713569fa0cdc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:26 +0000
Subject: [PATCH 68/69] fix: thresholds of reward forms are no longer truncated
 if the rewards are integers

---
 switss/model/reward_reachability_form.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/switss/model/reward_reachability_form.py b/switss/model/reward_reachability_form.py
index 3368ad5..0ad5d35 100644
--- a/switss/model/reward_reachability_form.py
+++ b/switss/model/reward_reachability_form.py
@@ -205,7 +205,8 @@ class RewardReachabilityForm:
         """
         C,N = self.__P.shape
 
-        rhs = self.reward_vector.copy()
+        # the rewards may be integers, but the threshold is not
+        rhs = self.reward_vector.astype(float)
         rhs.resize(C+1)
         rhs[C] = -threshold
 
-- 
2.43.0


From 2c93dd9b1396a4013b6e62aa89102e09e3a61e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:26 +0000
Subject: [PATCH 69/69] fix: transition matrices of integers are stored as
 floats, so that thresholds are not truncated

---
 switss/model/amdp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/switss/model/amdp.py b/switss/model/amdp.py
index 503fc5d..ddf2c5e 100644
--- a/switss/model/amdp.py
+++ b/switss/model/amdp.py
@@ -37,6 +37,9 @@ class AbstractMDP(ABC):
         """        
         # transform P into dok_matrix if neccessary
         self.P = cast_dok_matrix(P)
+        # probabilities may be given as integers
+        if self.P.dtype.kind in "bui":
+            self.P = self.P.astype(float)
         # for fast column & row slicing
         self.__P_csc = self.P.tocsc()
         self.__P_csr = self.P.tocsr()
-- 
2.43.0

