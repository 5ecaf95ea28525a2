From beffacff99d7568f5a445d1b3bf67566f3f30219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:34 +0000
Subject: [PATCH 01/33] fix: query no longer removes disconnected nodes from
 the queried network

---
 pycid/core/causal_bayesian_network.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index fc623b5..49a3107 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -165,9 +165,11 @@ class CausalBayesianNetwork(BayesianNetwork):
             *[nx.node_connected_component(undirected, var) for var in query]
         )
         context = {k: v for k, v in context.items() if k in connected_nodes}
-        for node in list(cbn.nodes):
-            if node not in connected_nodes:
-                cbn.remove_node(node)
+        disconnected_nodes = [node for node in cbn.nodes if node not in connected_nodes]
+        if disconnected_nodes and cbn is self:
+            cbn = self.copy()  # never remove nodes from the network being queried
+        for node in disconnected_nodes:
+            cbn.remove_node(node)
         if not nx.is_connected(cbn.to_undirected()):
             raise ValueError(f"query {query} contains nodes in disconnected components")
 
-- 
2.43.0


From ee184fa413c0a3b06f19a34dd47920b8134b3de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:34 +0000
Subject: [PATCH 02/33] fix: expected_value returns the values in the order the
 variables were given

---
 pycid/core/causal_bayesian_network.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index 49a3107..ddc60bb 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -213,15 +213,18 @@ class CausalBayesianNetwork(BayesianNetwork):
 
         intervention: Interventions to apply. A dictionary mapping node => value.
         """
+        variables = list(variables)
         factor = self.query(variables, context, intervention=intervention)
         factor.normalize()  # make probs add to one
 
-        ev = np.array([0.0 for _ in factor.variables])
+        # the factor may list the variables in a different order than they were asked for
+        axes = [factor.variables.index(variable) for variable in variables]
+        ev = np.array([0.0 for _ in variables])
         for idx, prob in np.ndenumerate(factor.values):  # type: ignore
             # idx contains the information about the value each variable takes
             # we use state_names to convert index into the actual value of the variable
             ev += prob * np.array(  # type: ignore
-                [factor.state_names[variable][idx[var_idx]] for var_idx, variable in enumerate(factor.variables)]
+                [factor.state_names[variable][idx[var_idx]] for var_idx, variable in zip(axes, variables)]
             )
             if np.isnan(ev).any():
                 raise RuntimeError(
-- 
2.43.0


From a246701e0db8a1f6b3b76e86e2b7bb071a8fd0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:34 +0000
Subject: [PATCH 03/33] fix: expected_value of no variables is empty instead of
 an error

---
 pycid/core/causal_bayesian_network.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index ddc60bb..291a0be 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -214,6 +214,8 @@ class CausalBayesianNetwork(BayesianNetwork):
         intervention: Interventions to apply. A dictionary mapping node => value.
         """
         variables = list(variables)
+        if not variables:
+            return []
         factor = self.query(variables, context, intervention=intervention)
         factor.normalize()  # make probs add to one
 
-- 
2.43.0


From 83107bd91038dcb685cceef9c066c01ab6badb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:34 +0000
Subject: [PATCH 04/33] fix: intervening on a variable keeps the order of its
 domain

---
 pycid/core/causal_bayesian_network.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index 291a0be..523a990 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -78,7 +78,10 @@ class CausalBayesianNetwork(BayesianNetwork):
             elif isinstance(relationship, Callable):  # type: ignore
                 return StochasticFunctionCPD(variable, relationship, self.cbn)  # type: ignore
             elif isinstance(relationship, Mapping):
-                return ConstantCPD(variable, relationship, self.cbn)
+                # keep the order of an already known domain, since the CPDs of the children depend on it
+                domain = self.domain.get(variable, [])
+                same_outcomes = len(domain) == len(relationship) and all(o in relationship for o in domain)
+                return ConstantCPD(variable, relationship, self.cbn, domain=list(domain) if same_outcomes else None)
 
     def __init__(self, edges: Optional[Iterable[Tuple[str, str]]] = None, **kwargs: Any):
         """Initialize a Causal Bayesian Network
-- 
2.43.0


From c98499eb78909589364a6bc1488d2342bb6217d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:34 +0000
Subject: [PATCH 05/33] fix: querying and subgame creation work for variables
 given as plain TabularCPDs

---
 pycid/core/macid.py      | 2 +-
 pycid/core/macid_base.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycid/core/macid.py b/pycid/core/macid.py
index a20a4d9..3765ba2 100644
--- a/pycid/core/macid.py
+++ b/pycid/core/macid.py
@@ -107,7 +107,7 @@ class MACID(MACIDBase):
             cpd.marginalize(macid_copy.get_parents(node))
             marginalised_probs = cpd.get_values()
             unpack_probs = [item for sublist in marginalised_probs for item in sublist]
-            sg_macid.model[node] = dict(zip(cpd.domain, unpack_probs))
+            sg_macid.model[node] = dict(zip(macid_copy.model.domain[node], unpack_probs))
 
         # copy over the cpds for everything else
         for node in set(sg_macid.nodes) - parents_for_marginalisation_of_original_cpd:
diff --git a/pycid/core/macid_base.py b/pycid/core/macid_base.py
index 94c97b1..eb4d563 100644
--- a/pycid/core/macid_base.py
+++ b/pycid/core/macid_base.py
@@ -158,7 +158,7 @@ class MACIDBase(CausalBayesianNetwork):
         intervention: Interventions to apply. A dictionary mapping node => outcome.
         """
         for variable, outcome in context.items():
-            if outcome not in self.get_cpds(variable).domain:
+            if outcome not in self.model.domain[variable]:
                 raise ValueError(f"The outcome {outcome} is not in the domain of {variable}")
 
         intervention = intervention or {}
-- 
2.43.0


From 9573f60c263cd20ff528aff659984df47d3d5868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:34 +0000
Subject: [PATCH 06/33] fix: diagrams do not share the role lists they are
 constructed from

---
 pycid/core/macid_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycid/core/macid_base.py b/pycid/core/macid_base.py
index eb4d563..90af97c 100644
--- a/pycid/core/macid_base.py
+++ b/pycid/core/macid_base.py
@@ -86,8 +86,8 @@ class MACIDBase(CausalBayesianNetwork):
         """
         super().__init__(edges=edges, **kwargs)
 
-        self.agent_decisions = dict(agent_decisions) if agent_decisions else {}
-        self.agent_utilities = dict(agent_utilities) if agent_utilities else {}
+        self.agent_decisions = {agent: list(nodes) for agent, nodes in (agent_decisions or {}).items()}
+        self.agent_utilities = {agent: list(nodes) for agent, nodes in (agent_utilities or {}).items()}
 
         self.decision_agent = {node: agent for agent, nodes in self.agent_decisions.items() for node in nodes}
         self.utility_agent = {node: agent for agent, nodes in self.agent_utilities.items() for node in nodes}
-- 
2.43.0


From db1832812cf47a2b06520a0cd106f6926d17c294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:34 +0000
Subject: [PATCH 07/33] fix: copies keep the decisions of agents without
 utilities, and agents may lack decisions

---
 pycid/core/cid.py        |  6 +-----
 pycid/core/macid.py      |  6 +-----
 pycid/core/macid_base.py | 15 +++++++++------
 3 files changed, 11 insertions(+), 16 deletions(-)

diff --git a/pycid/core/cid.py b/pycid/core/cid.py
index a909828..cb13aaf 100644
--- a/pycid/core/cid.py
+++ b/pycid/core/cid.py
@@ -74,11 +74,7 @@ class CID(MACIDBase):
         new = CID()
         new.add_nodes_from(self.nodes)
         new.add_edges_from(self.edges)
-        for agent in self.agents:
-            for decision in self.agent_decisions[agent]:
-                new.make_decision(decision, agent)
-            for utility in self.agent_utilities[agent]:
-                new.make_utility(utility, agent)
+        self._copy_roles_to(new)
         return new
 
     def _get_color(self, node: str) -> str:
diff --git a/pycid/core/macid.py b/pycid/core/macid.py
index 3765ba2..0e9962a 100644
--- a/pycid/core/macid.py
+++ b/pycid/core/macid.py
@@ -214,9 +214,5 @@ class MACID(MACIDBase):
         new = MACID()
         new.add_nodes_from(self.nodes)
         new.add_edges_from(self.edges)
-        for agent in self.agents:
-            for decision in self.agent_decisions[agent]:
-                new.make_decision(decision, agent)
-            for utility in self.agent_utilities[agent]:
-                new.make_utility(utility, agent)
+        self._copy_roles_to(new)
         return new
diff --git a/pycid/core/macid_base.py b/pycid/core/macid_base.py
index 90af97c..704e261 100644
--- a/pycid/core/macid_base.py
+++ b/pycid/core/macid_base.py
@@ -274,7 +274,7 @@ class MACIDBase(CausalBayesianNetwork):
             agents = [agent]
 
         for a in agents:
-            rg = RelevanceGraph(self, self.agent_decisions[a])
+            rg = RelevanceGraph(self, self.agent_decisions.get(a, []))
             if not rg.is_acyclic():
                 return False
         return True
@@ -426,13 +426,16 @@ class MACIDBase(CausalBayesianNetwork):
         new = MACIDBase()
         new.add_nodes_from(self.nodes)
         new.add_edges_from(self.edges)
-        for agent in self.agents:
-            for decision in self.agent_decisions[agent]:
-                new.make_decision(decision, agent)
-            for utility in self.agent_utilities[agent]:
-                new.make_utility(utility, agent)
+        self._copy_roles_to(new)
         return new
 
+    def _copy_roles_to(self, new: MACIDBase) -> None:
+        """Give new the same agents, decisions and utilities as self"""
+        new.agent_decisions = {agent: list(nodes) for agent, nodes in self.agent_decisions.items()}
+        new.agent_utilities = {agent: list(nodes) for agent, nodes in self.agent_utilities.items()}
+        new.decision_agent = dict(self.decision_agent)
+        new.utility_agent = dict(self.utility_agent)
+
     def _get_color(self, node: str) -> Union[np.ndarray, str]:
         """
         Assign a unique colour to each new agent's decision and utility nodes
-- 
2.43.0


From 5ef8656c50a8d3f7f843aba93334e52a6acd7947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:34 +0000
Subject: [PATCH 08/33] fix: quantitative_voc no longer modifies the CID it is
 given

---
 pycid/analyze/value_of_control.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pycid/analyze/value_of_control.py b/pycid/analyze/value_of_control.py
index 1658630..f0af6d5 100644
--- a/pycid/analyze/value_of_control.py
+++ b/pycid/analyze/value_of_control.py
@@ -60,6 +60,7 @@ def quantitative_voc(cid: CID, node: str) -> float:
     if node not in cid.nodes:
         raise KeyError(f"{node} is not present in the cid")
 
+    cid = cid.copy()  # leave the given CID as it is
     # optimal policy in the original CID.
     cid.impute_optimal_policy()
     ev1: float = cid.expected_utility({})
-- 
2.43.0


From 3a99e485708a6b6726b7b52b23fe0bc28347fa26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:34 +0000
Subject: [PATCH 09/33] fix: mechanism graph rejects nodes that end with the
 reserved suffix

---
 pycid/core/macid_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycid/core/macid_base.py b/pycid/core/macid_base.py
index 704e261..e4a97b2 100644
--- a/pycid/core/macid_base.py
+++ b/pycid/core/macid_base.py
@@ -475,8 +475,8 @@ class MechanismGraph(MACIDBase):
         )
 
         for node in cid.nodes:
-            if node[:-3] == "mec":
-                raise ValueError("can't create a mechanism graph when node {node} already ends with mec")
+            if node[-3:] == "mec":
+                raise ValueError(f"can't create a mechanism graph when node {node} already ends with mec")
             self.add_node(node + "mec")
             self.add_edge(node + "mec", node)
         # TODO: adapt the parameterization from cid as well
-- 
2.43.0


From 47eca1c5ff8ceb00ee3afdbf8d6fffa2899c29ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:34 +0000
Subject: [PATCH 10/33] fix: RandomCPD respects seed 0 and always derives a
 valid seed

---
 pycid/random/random_cpd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycid/random/random_cpd.py b/pycid/random/random_cpd.py
index c270836..cf80832 100644
--- a/pycid/random/random_cpd.py
+++ b/pycid/random/random_cpd.py
@@ -39,12 +39,12 @@ class RandomCPD:
 
         seed: Set the random seed
         """
-        self.seed = seed or np.random.randint(0, 10000)
+        self.seed = seed if seed is not None else np.random.randint(0, 10000)
         self.smoothness = smoothness
         self.domain = domain or [0, 1]
 
     def __call__(self, **parent_values: Outcome) -> Mapping[Outcome, float]:
-        with temp_seed(self.seed + hash(frozenset(parent_values.items())) % 2**31 - 1):
+        with temp_seed((self.seed + hash(frozenset(parent_values.items()))) % (2**31 - 1)):
             prob_vec = np.random.dirichlet(np.ones(len(self.domain)) * self.smoothness, size=1).flat  # type: ignore
         return {self.domain[i]: prob for i, prob in enumerate(prob_vec)}  # type: ignore
 
-- 
2.43.0


From f924f88a6c9171d3864533fe8ac7172899e4fc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:34 +0000
Subject: [PATCH 11/33] fix: random_dag respects max_in_degree when adding
 edges

---
 pycid/random/random_dag.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pycid/random/random_dag.py b/pycid/random/random_dag.py
index 9f41596..11cc515 100644
--- a/pycid/random/random_dag.py
+++ b/pycid/random/random_dag.py
@@ -45,7 +45,8 @@ def random_dag(number_of_nodes: int = 5, edge_density: float = 0.4, max_in_degre
 
     # Then add edges until desired density is reached
     maximum_number_of_edges = number_of_nodes * (number_of_nodes - 1) / 2
-    while dag.number_of_edges() < int(edge_density * maximum_number_of_edges):
-        add_random_edge(dag, node_names)
+    possible_number_of_edges = sum(min(i, max_in_degree) for i in range(number_of_nodes))
+    while dag.number_of_edges() < min(int(edge_density * maximum_number_of_edges), possible_number_of_edges):
+        add_random_edge(dag, node_names, max_in_degree)
 
     return dag
-- 
2.43.0


From ab5577f0f0dd6cc6e145c48275d6c5161df723e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:34 +0000
Subject: [PATCH 12/33] fix: random diagrams requested with sufficient recall
 always have it

---
 pycid/random/random_macidbase.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pycid/random/random_macidbase.py b/pycid/random/random_macidbase.py
index 113b29e..4fa196f 100644
--- a/pycid/random/random_macidbase.py
+++ b/pycid/random/random_macidbase.py
@@ -95,6 +95,9 @@ def random_macidbase(
 
             if sufficient_recall:
                 _add_sufficient_recalls(mb)
+                if not mb.sufficient_recall():
+                    # edges added for one pair of decisions can undo the recall of another: resample
+                    continue
                 if not _check_max_in_degree(mb, max_in_degree):
                     # adding edges for sufficient recall requirement violates max_in_degree: resample a new random DAG
                     continue
-- 
2.43.0


From 640fca3da088bdf453686fd5caa3f3a5a7212d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:34 +0000
Subject: [PATCH 13/33] fix: subgames keep agents that have no relevant utility

---
 pycid/core/macid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycid/core/macid.py b/pycid/core/macid.py
index 0e9962a..3511086 100644
--- a/pycid/core/macid.py
+++ b/pycid/core/macid.py
@@ -80,7 +80,7 @@ class MACID(MACIDBase):
             else:
                 sg_agents_decs[agent] = [node]
         # finds the utilities_agents mapping in this subgame
-        sg_agents_utils: Dict[AgentLabel, List[str]] = {}
+        sg_agents_utils: Dict[AgentLabel, List[str]] = {agent: [] for agent in sg_agents_decs}
         for node in set(r_nodes).intersection(set(self.utilities)):
             agent = self.utility_agent[node]
             if agent in sg_agents_utils:
-- 
2.43.0


From d127ed8486cd8930505a7949a6d502e1a6c49f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:16 +0000
Subject: [PATCH 14/33] fix: signaling considers every effective backdoor path,
 not only the first one found

---
 pycid/analyze/reasoning_patterns.py | 33 ++++++++++++-----------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/pycid/analyze/reasoning_patterns.py b/pycid/analyze/reasoning_patterns.py
index d28cdfe..88f0326 100644
--- a/pycid/analyze/reasoning_patterns.py
+++ b/pycid/analyze/reasoning_patterns.py
@@ -1,4 +1,4 @@
-from typing import Any, Dict, List, Optional, Set, Union
+from typing import Any, Dict, Iterator, List, Optional, Set, Union
 
 import networkx as nx
 
@@ -52,19 +52,17 @@ def _directed_effective_path_not_through_set_y(
     )
 
 
-def _effective_backdoor_path_not_blocked_by_set_w(
+def _effective_backdoor_paths_not_blocked_by_set_w(
     mb: MACIDBase, start: str, finish: str, effective_set: Set[str], w: Optional[Set[str]] = None
-) -> Optional[List[str]]:
+) -> Iterator[List[str]]:
     """
-    Returns the effective backdoor path not blocked if we condition on nodes in set w.
-    If no such path exists, this returns None.
+    Iterates over the effective backdoor paths not blocked if we condition on nodes in set w.
     """
     for path in find_all_undir_paths(mb, start, finish):
         is_backdoor_path = path[1] in mb.get_parents(path[0])
         not_blocked_by_w = is_active_path(mb, path, w)
         if is_backdoor_path and not_blocked_by_w and _path_is_effective(mb, path, effective_set):
-            return path
-    return None
+            yield path
 
 
 def _effective_undir_path_not_blocked_by_set_w(
@@ -167,21 +165,16 @@ def signaling(macid: MACID, decision: str, effective_set: Set[str]) -> bool:
                 cond_nodes = {decision_b}
                 cond_nodes.update(node for node in macid.get_parents(decision_b) if node not in decision_descendants)
 
-                path = _effective_backdoor_path_not_blocked_by_set_w(macid, decision, u_b, effective_set, cond_nodes)
-                if not path:
-                    continue
-
-                if _get_key_node(macid, path):
+                for path in _effective_backdoor_paths_not_blocked_by_set_w(
+                    macid, decision, u_b, effective_set, cond_nodes
+                ):
                     key_node = _get_key_node(macid, path)
-                else:
-                    return False
+                    key_node_descendants = set(nx.descendants(macid, key_node))
+                    cond_nodes2 = {decision}
+                    cond_nodes2.update(node for node in macid.get_parents(decision) if node not in key_node_descendants)
 
-                key_node_descendants = set(nx.descendants(macid, key_node))
-                cond_nodes2 = {decision}
-                cond_nodes2.update(node for node in macid.get_parents(decision) if node not in key_node_descendants)
-
-                if _effective_undir_path_not_blocked_by_set_w(macid, key_node, u, effective_set, cond_nodes2):
-                    return True
+                    if _effective_undir_path_not_blocked_by_set_w(macid, key_node, u, effective_set, cond_nodes2):
+                        return True
     else:
         return False
 
-- 
2.43.0


From 93b4eae17eb01d971efa6daee085b184ae19939c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:16 +0000
Subject: [PATCH 15/33] fix: fork nodes do not make a path ineffective, as the
 reasoning pattern criteria say

---
 pycid/analyze/reasoning_patterns.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pycid/analyze/reasoning_patterns.py b/pycid/analyze/reasoning_patterns.py
index 88f0326..38a9705 100644
--- a/pycid/analyze/reasoning_patterns.py
+++ b/pycid/analyze/reasoning_patterns.py
@@ -34,10 +34,16 @@ def _effective_undir_path_exists(mb: MACIDBase, start: str, finish: str, effecti
 
 
 def _path_is_effective(mb: MACIDBase, path: List[str], effective_set: Set[str]) -> bool:
-    """Check whether a path is effective."""
-    dec_nodes_in_path = set(mb.decisions).intersection(set(path[1:]))  # exclude first node of the path
+    """Check whether a path is effective.
+
+    A path is effective if all decision nodes on it are effective, except possibly the initial node and fork nodes.
+    """
     # all([]) evaluates to true => this covers case where path has no decision nodes
-    return all(dec_node in effective_set for dec_node in dec_nodes_in_path)
+    return all(
+        path[idx] in effective_set or get_motif(mb, path, idx) == "fork"
+        for idx in range(1, len(path))  # exclude first node of the path
+        if path[idx] in mb.decisions
+    )
 
 
 def _directed_effective_path_not_through_set_y(
-- 
2.43.0


From 52b61759141f631beec612760d458c57ab3bbe46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:16 +0000
Subject: [PATCH 16/33] fix: revealing or denying requires the frontdoor path
 to be effective

---
 pycid/analyze/reasoning_patterns.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/pycid/analyze/reasoning_patterns.py b/pycid/analyze/reasoning_patterns.py
index 38a9705..748ee5e 100644
--- a/pycid/analyze/reasoning_patterns.py
+++ b/pycid/analyze/reasoning_patterns.py
@@ -7,7 +7,7 @@ from pycid.core.get_paths import (
     find_all_dir_paths,
     find_all_undir_paths,
     get_motif,
-    is_active_indirect_frontdoor_trail,
+    get_motifs,
     is_active_path,
 )
 from pycid.core.macid import MACID
@@ -86,6 +86,19 @@ def _effective_undir_path_not_blocked_by_set_w(
         return None
 
 
+def _effective_indirect_frontdoor_path_exists(
+    mb: MACIDBase, start: str, finish: str, effective_set: Set[str], w: Set[str]
+) -> bool:
+    """Check whether an effective indirect frontdoor path exists that isn't blocked if we condition on nodes in w."""
+    return any(
+        path[0] in mb.get_parents(path[1])
+        and "collider" in get_motifs(mb, path)
+        and is_active_path(mb, path, w)
+        and _path_is_effective(mb, path, effective_set)
+        for path in find_all_undir_paths(mb, start, finish)
+    )
+
+
 def direct_effect(macid: MACID, decision: str) -> bool:
     """Check whether a decision in motivated by a direct effect reasoning pattern.
 
@@ -218,7 +231,7 @@ def revealing_or_denying(macid: MACID, decision: str, effective_set: Set[str]) -
             for u_b in agent_b_utils:
                 cond_nodes = {decision_b}
                 cond_nodes.update(node for node in macid.get_parents(decision_b) if node not in decision_descendants)
-                if is_active_indirect_frontdoor_trail(macid, decision, u_b, cond_nodes):
+                if _effective_indirect_frontdoor_path_exists(macid, decision, u_b, effective_set, cond_nodes):
                     return True
     else:
         return False
-- 
2.43.0


From b788ba4a4800c79c306f8163ad1fa4803123eae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:17 +0000
Subject: [PATCH 17/33] fix: decisions of one agent with the same parents get
 separate information sets

---
 pycid/export/gambit.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pycid/export/gambit.py b/pycid/export/gambit.py
index ed81d65..bcdc536 100644
--- a/pycid/export/gambit.py
+++ b/pycid/export/gambit.py
@@ -32,7 +32,7 @@ def macid_to_efg(
     - agents_in_sg: The agents to include in the EFG. If None, all agents are included.
     Returns:
     - game: The pygambit game object. This can be used for further manipulation of the game within pygambit.
-    - parents_to_infoset: A mapping from (agent, (parent, instantiation), ...) to pygambit infoset.
+    - parents_to_infoset: A mapping from (decision, (parent, instantiation), ...) to pygambit infoset.
     """
 
     # can use on a subgame if copying, else do the whole game
@@ -76,7 +76,7 @@ def macid_to_efg(
                 agent = macid.decision_agent[node]
                 player = agent_to_player[agent]
                 actions = macid.model.domain[node]
-                parents_actions_tuple = (agent, tuple(parents_actions.items()))  # hashable
+                parents_actions_tuple = (node, tuple(parents_actions.items()))  # hashable
                 # check if this matches an existing infoset
                 if parents_actions_tuple in parents_to_infoset:
                     cur_infoset = parents_to_infoset[parents_actions_tuple]
@@ -182,7 +182,7 @@ def behavior_to_cpd(
     """Convert a pygambit behavior strategy to list of CPDs for each decision node.
     Args:
     - macid: The MACID object relating to the behavior strategy.
-    - parents_to_infoset: A mapping from (agent, (parent, instantiation), ...) to pygambit infoset.
+    - parents_to_infoset: A mapping from (decision, (parent, instantiation), ...) to pygambit infoset.
     - behavior: The pygambit behavior strategy.
     - decisions_in_sg: The decisions in the subgame. If None, use all decisions in the MACID.
     Returns:
@@ -191,7 +191,7 @@ def behavior_to_cpd(
 
     def _action_prob_given_parents(node: Any, **pv: Outcome) -> Mapping[str, float]:
         """Takes the parent instantiation and outputs the prob from the infoset"""
-        pv_tuple = (macid.decision_agent[node], tuple(pv.items()))
+        pv_tuple = (node, tuple(pv.items()))
         # get the infoset for the node
         infoset = parents_to_infoset[pv_tuple]
         # if the infoset does not exist, this is not a valid parent instantiation
-- 
2.43.0


From 4682b23a3442ab3541344cd8a5d1b8cb6e407e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:17 +0000
Subject: [PATCH 18/33] fix: macid_to_efg supports chance nodes with parents
 outside of the game tree

---
 pycid/export/gambit.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pycid/export/gambit.py b/pycid/export/gambit.py
index bcdc536..1c7a9f4 100644
--- a/pycid/export/gambit.py
+++ b/pycid/export/gambit.py
@@ -68,7 +68,9 @@ def macid_to_efg(
             # get current node
             cur_node = _get_cur_node(game, node_idx)
             parents = macid.get_parents(node)
-            parents_actions = {parent: node_idx_to_state[node_idx][parent] for parent in parents}
+            state = node_idx_to_state[node_idx]
+            # if a chance node has parents outside of the game tree, then all that is known in the tree is relevant
+            parents_actions = {p: state[p] for p in parents} if all(p in state for p in parents) else dict(state)
 
             # if the node is a decision, consider infosets
             if node in decisions_in_sg:
-- 
2.43.0


From 47792863a56583083c8df853cb7eba67a85dc934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:17 +0000
Subject: [PATCH 19/33] fix: behavior_to_cpd supports strategies that leave an
 information set unreached

---
 pycid/export/gambit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pycid/export/gambit.py b/pycid/export/gambit.py
index 1c7a9f4..b82cbe0 100644
--- a/pycid/export/gambit.py
+++ b/pycid/export/gambit.py
@@ -202,6 +202,9 @@ def behavior_to_cpd(
             return {}
         # get the action probs for the infoset
         action_probs = {macid.model.domain[node][i]: float(prob) for i, prob in enumerate(behavior[infoset])}
+        # an infoset that the strategy never reaches has no probabilities, so any action is fine there
+        if not any(action_probs.values()):
+            return {}
         return action_probs
 
     def _wrapped_partial(func: Callable, *args: str) -> Callable:
-- 
2.43.0


From b450d790c84457faf4ee2883653f67bf48e7476e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:17 +0000
Subject: [PATCH 20/33] fix: copied CPDs belong to the copied network

---
 pycid/core/causal_bayesian_network.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index 523a990..80fd42b 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -259,6 +259,8 @@ class CausalBayesianNetwork(BayesianNetwork):
         model_copy = self.copy_without_cpds()
         for v in self.model:
             model_copy.model[v] = self.model[v].copy() if hasattr(self.model[v], "copy") else self.model[v]
+            if isinstance(model_copy.model[v], StochasticFunctionCPD):
+                model_copy.model[v].cbn = model_copy  # so that the copy doesn't depend on this network
         return model_copy
 
     def _get_color(self, node: str) -> Union[np.ndarray, str]:
-- 
2.43.0


From 5189544f653b54d55fb69722ad801602f433914a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:04 +0000
Subject: [PATCH 21/33] fix: requisite_graph leaves no nonrequisite link when
 there are several agents

---
 pycid/analyze/requisite_graph.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pycid/analyze/requisite_graph.py b/pycid/analyze/requisite_graph.py
index 2e70d90..4995200 100644
--- a/pycid/analyze/requisite_graph.py
+++ b/pycid/analyze/requisite_graph.py
@@ -43,8 +43,13 @@ def requisite_graph(cid: MACIDBase) -> MACIDBase:
     requisite_graph = cid.copy()
     decisions = cid.get_valid_order()
 
-    for decision in reversed(decisions):
-        non_requisite_nodes = set(cid.get_parents(decision)) - set(requisite_list(requisite_graph, decision))
-        for nr in non_requisite_nodes:
-            requisite_graph.remove_edge(nr, decision)
+    links_removed = True
+    while links_removed:  # removing a link can make the links to a later decision of another agent nonrequisite
+        links_removed = False
+        for decision in reversed(decisions):
+            parents = requisite_graph.get_parents(decision)
+            non_requisite_nodes = set(parents) - set(requisite_list(requisite_graph, decision))
+            for nr in non_requisite_nodes:
+                requisite_graph.remove_edge(nr, decision)
+                links_removed = True
     return requisite_graph
-- 
2.43.0


From a4149bf4f9a9d7805901a129f2ff63b9cf473d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:31 +0000
Subject: [PATCH 22/33] fix: a copied decision domain keeps the outcomes of the
 parents, so queries conditioning on the decision work

---
 pycid/core/cpd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pycid/core/cpd.py b/pycid/core/cpd.py
index 7c04a98..806981a 100644
--- a/pycid/core/cpd.py
+++ b/pycid/core/cpd.py
@@ -250,7 +250,9 @@ class DecisionDomain(ConstantCPD):
         super().__init__(variable, {}, cbn, domain, label=f"Dec({domain})")
 
     def copy(self) -> DecisionDomain:
-        return DecisionDomain(str(self.variable), self.cbn, domain=list(self.domain))
+        new = DecisionDomain(str(self.variable), self.cbn, domain=list(self.domain))
+        new.store_state_names(None, None, self.state_names)
+        return new
 
     def __repr__(self) -> str:
         return f"<DecisionDomain {self.variable}:{self.domain}>"
-- 
2.43.0


From 1e2e5dcb83903c0088eccf461abf3daa52cab4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:29 +0000
Subject: [PATCH 23/33] fix: reject a function whose arguments do not match the
 parents

---
 pycid/core/cpd.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pycid/core/cpd.py b/pycid/core/cpd.py
index 806981a..b7d5512 100644
--- a/pycid/core/cpd.py
+++ b/pycid/core/cpd.py
@@ -158,10 +158,12 @@ class StochasticFunctionCPD(TabularCPD):
 
     def check_function_arguments_match_parent_names(self) -> None:
         """Raises a ValueError if the parents in the CID don't match the argument to the specified function"""
-        sig = inspect.signature(self.stochastic_function).parameters
+        sig = inspect.signature(self.func).parameters
         arg_kinds = [arg_kind.kind.name for arg_kind in sig.values()]
         args = set(sig)
-        if "VAR_KEYWORD" not in arg_kinds and args != set(self.cbn.get_parents(self.variable)):
+        optional_args = {name for name, arg in sig.items() if arg.default is not inspect.Parameter.empty}
+        parents = set(self.cbn.get_parents(self.variable))
+        if "VAR_KEYWORD" not in arg_kinds and not args - optional_args <= parents <= args:
             raise ValueError(
                 f"function for {self.variable} mismatch parents on"
                 f" {args.symmetric_difference(set(self.cbn.get_parents(self.variable)))}, "
-- 
2.43.0


From 1b20566bb390c1f3c0571cf3a06b7c91db00436c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:42 +0000
Subject: [PATCH 24/33] fix: a variable can be specified while a parent with a
 known domain is unspecified

---
 pycid/core/cpd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycid/core/cpd.py b/pycid/core/cpd.py
index b7d5512..03fe770 100644
--- a/pycid/core/cpd.py
+++ b/pycid/core/cpd.py
@@ -103,7 +103,7 @@ class StochasticFunctionCPD(TabularCPD):
 
         card = len(self.domain)
         evidence = cbn.get_parents(self.variable)
-        evidence_card = [cbn.get_cardinality(p) for p in evidence]
+        evidence_card = [len(cbn.model.domain[p]) for p in evidence]
         probability_list = []
         for pv in self.parent_values():
             probabilities = complete_prob_dictionary(self.stochastic_function(**pv))
-- 
2.43.0


From 9057272001b2d7395e612f160225a84d196e1c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:39 +0000
Subject: [PATCH 25/33] fix: RandomCPD gives a valid distribution when
 smoothness is very small

---
 pycid/random/random_cpd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pycid/random/random_cpd.py b/pycid/random/random_cpd.py
index cf80832..924b71e 100644
--- a/pycid/random/random_cpd.py
+++ b/pycid/random/random_cpd.py
@@ -45,7 +45,9 @@ class RandomCPD:
 
     def __call__(self, **parent_values: Outcome) -> Mapping[Outcome, float]:
         with temp_seed((self.seed + hash(frozenset(parent_values.items()))) % (2**31 - 1)):
-            prob_vec = np.random.dirichlet(np.ones(len(self.domain)) * self.smoothness, size=1).flat  # type: ignore
+            prob_vec = np.random.dirichlet(np.ones(len(self.domain)) * self.smoothness, size=1).flatten()
+            if not np.isfinite(prob_vec).all():  # all weights underflow when smoothness is small
+                prob_vec = np.eye(len(self.domain))[np.random.randint(len(self.domain))]
         return {self.domain[i]: prob for i, prob in enumerate(prob_vec)}  # type: ignore
 
     def __name__(self) -> str:
-- 
2.43.0


From 6505a0d1c78a00a0185762555613a25b96a90072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:39 +0000
Subject: [PATCH 26/33] fix: a subgame keeps decisions and relevant nodes that
 have no edges

---
 pycid/core/macid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pycid/core/macid.py b/pycid/core/macid.py
index 3511086..312090e 100644
--- a/pycid/core/macid.py
+++ b/pycid/core/macid.py
@@ -89,6 +89,8 @@ class MACID(MACIDBase):
                 sg_agents_utils[agent] = [node]
         # instantiate the skeleton of this MAID
         sg_macid = MACID(edges=edges_sg, agent_decisions=sg_agents_decs, agent_utilities=sg_agents_utils)
+        # active decisions and r-relevant nodes without any edges are also part of the subgame
+        sg_macid.add_nodes_from(r_nodes_plus_decs)
 
         # random initialise decisions not already instantiated that aren't active in this subgame.
         # (this is to ensure that they are all "fully mixed - i.e., every action is chosen with positive probability")
-- 
2.43.0


From 0444d3cfe7bdc67496d6197eaaf309e5b7058fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:39 +0000
Subject: [PATCH 27/33] fix: the expected value of an observed variable is its
 observed value

---
 pycid/core/causal_bayesian_network.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index 80fd42b..b4c172c 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -219,6 +219,11 @@ class CausalBayesianNetwork(BayesianNetwork):
         variables = list(variables)
         if not variables:
             return []
+        if any(variable in context for variable in variables):
+            # observed variables cannot be queried, but their values are already known
+            unobserved = [variable for variable in variables if variable not in context]
+            values = dict(zip(unobserved, self.expected_value(unobserved, context, intervention=intervention)))
+            return [values[variable] if variable in values else float(context[variable]) for variable in variables]
         factor = self.query(variables, context, intervention=intervention)
         factor.normalize()  # make probs add to one
 
-- 
2.43.0


From 0d1ddb74c5bab0f0abad4ad63ab74bc62a94c17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:35 +0000
Subject: [PATCH 28/33] fix: get_spe solves each subgame with irrelevant
 decisions fully mixed, so that every context is optimised

---
 pycid/core/macid.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pycid/core/macid.py b/pycid/core/macid.py
index 312090e..6a4d0b8 100644
--- a/pycid/core/macid.py
+++ b/pycid/core/macid.py
@@ -169,6 +169,10 @@ class MACID(MACIDBase):
             extended_spes = []
             for partial_profile in spes:
                 macid.add_cpds(*partial_profile)
+                # the decisions that the subgame does not rely on are fully mixed, so every context can occur
+                for d in macid.decisions:
+                    if d not in scc and not macid.is_s_reachable(scc, d):
+                        macid.impute_random_decision(d)
                 ne_in_sg = macid.get_ne_in_sg(decisions_in_sg=scc, solver=solver)
                 for ne in ne_in_sg:
                     extended_spes.append(partial_profile + list(ne))
-- 
2.43.0


From 476531910ece196168e1e65a0867bd5fbaef8c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:35 +0000
Subject: [PATCH 29/33] fix: a history of probability zero no longer stops the
 conversion to a game

---
 pycid/export/gambit.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pycid/export/gambit.py b/pycid/export/gambit.py
index b82cbe0..a3dfd6b 100644
--- a/pycid/export/gambit.py
+++ b/pycid/export/gambit.py
@@ -6,6 +6,7 @@ from functools import partial, update_wrapper
 from typing import Any, Callable, Dict, Hashable, Iterable, KeysView, List, Mapping, Optional, Set, Tuple, Union
 from warnings import warn
 
+import numpy as np
 import pygambit
 
 from pycid.core.cpd import StochasticFunctionCPD
@@ -102,7 +103,10 @@ def macid_to_efg(
                 move = cur_node.append_move(game.players.chance, factor.cardinality)
                 # add state info
                 actions = macid.model.domain[node]
-                for action_idx, prob in enumerate(factor.values):
+                probs = factor.values
+                if np.isnan(probs).any():  # the history has probability zero, so any distribution will do
+                    probs = [1 / len(actions) for _ in actions]
+                for action_idx, prob in enumerate(probs):
                     move.actions[action_idx].label = str(actions[action_idx])
                     move.actions[action_idx].prob = pygambit.Decimal(prob)
                     state_info = node_idx_to_state[node_idx].copy()
@@ -253,7 +257,10 @@ def _add_payoffs(
         # name outcome as a string of the node_idx
         payoff_tuple = game.outcomes.add(str(node_idx))
         for i, agent in enumerate(agents_in_sg):
-            payoff = macid.expected_utility(context=context, agent=agent)
+            try:
+                payoff = macid.expected_utility(context=context, agent=agent)
+            except RuntimeError:  # the history has probability zero, so any payoff will do
+                payoff = 0
             payoff_tuple[i] = pygambit.Decimal(payoff)
         cur_node.outcome = payoff_tuple
 
-- 
2.43.0


From 750b8df110ca464fba90b760ced58c080e7107d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:58 +0000
Subject: [PATCH 30/33] fix: query keeps the outcomes of every variable and
 never merges equal factors

---
 pycid/core/causal_bayesian_network.py | 47 +++++++++++++++++++++++----
 1 file changed, 41 insertions(+), 6 deletions(-)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index b4c172c..65fb79d 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -6,8 +6,8 @@ from typing import Any, Callable, Dict, Iterable, List, Mapping, Optional, Set,
 import matplotlib.pyplot as plt
 import networkx as nx
 import numpy as np
-from pgmpy.factors.discrete import TabularCPD
-from pgmpy.inference.ExactInference import BeliefPropagation
+from pgmpy.factors.base import factor_product
+from pgmpy.factors.discrete import DiscreteFactor, TabularCPD
 from pgmpy.models import BayesianNetwork
 from pgmpy.sampling import BayesianModelSampling
 
@@ -137,7 +137,7 @@ class CausalBayesianNetwork(BayesianNetwork):
 
     def query(
         self, query: Iterable[str], context: Dict[str, Outcome], intervention: Optional[Dict[str, Outcome]] = None
-    ) -> BeliefPropagation:
+    ) -> DiscreteFactor:
         """Return P(query|context, do(intervention))*P(context | do(intervention)).
 
         Use factor.normalize to get p(query|context, do(intervention)).
@@ -176,11 +176,46 @@ class CausalBayesianNetwork(BayesianNetwork):
         if not nx.is_connected(cbn.to_undirected()):
             raise ValueError(f"query {query} contains nodes in disconnected components")
 
-        bp = BeliefPropagation(cbn)
+        cbn.check_model()
+        return cbn._eliminate(list(query), context)
+
+    def _eliminate(self, query: List[str], context: Dict[str, Outcome]) -> DiscreteFactor:
+        """Return P(query|context), by variable elimination
+
+        pgmpy's own inference can't be used here. It merges factors that happen to become equal when the context is
+        applied to them, and it forgets the outcomes of variables whose CPD shares a clique with another CPD.
+        """
+        overlap = set(query).intersection(context)
+        if overlap:
+            raise ValueError(f"Can't have the same variables in both the query and the context. Found in both: {overlap}")
+
+        # Only the CPDs that matter for the query are used, so that the answer is defined whenever it can be
+        connected: Set[str] = set().union(  # type: ignore
+            *self.active_trail_nodes(query, observed=list(context)).values()
+        )
+        ancestors = self._get_ancestors_of(query + list(context))
+        factors = []
+        for node in self.nodes:
+            requisite = connected.intersection(self.get_parents(node)) if node in context else node in connected
+            if requisite and node in ancestors:
+                factor = self.get_cpds(node).to_factor()
+                factor.reduce([(v, context[v]) for v in factor.variables if v in context])
+                factors.append(factor)
+
+        hidden = {variable for factor in factors for variable in factor.variables}.difference(query)
+        while hidden:
+            # eliminate the variable that yields the smallest table first
+            scopes = {
+                var: set().union(*[f.variables for f in factors if var in f.variables]) for var in hidden  # type: ignore
+            }
+            variable = min(hidden, key=lambda var: (len(scopes[var]), var))
+            product = factor_product(*[f for f in factors if variable in f.variables])
+            factors = [f for f in factors if variable not in f.variables]
+            factors.append(product.marginalize([variable], inplace=False))
+            hidden.remove(variable)
 
         with np.errstate(invalid="ignore"):  # Suppress numpy warnings for 0/0
-            factor = bp.query(query, context, show_progress=False)
-        return factor
+            return factor_product(*factors).normalize(inplace=False)
 
     def intervene(self, intervention: Dict[str, Outcome]) -> None:
         """Given a dictionary of interventions, replace the CPDs for the relevant nodes.
-- 
2.43.0


From bd6772c7ef44deb572431cb21516e128a375f252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:37 +0000
Subject: [PATCH 31/33] fix: create_subgame keeps the domain order of
 marginalised nodes

---
 pycid/core/macid.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pycid/core/macid.py b/pycid/core/macid.py
index 6a4d0b8..24bd733 100644
--- a/pycid/core/macid.py
+++ b/pycid/core/macid.py
@@ -7,7 +7,7 @@ from typing import Any, Dict, Iterable, List, Optional, Tuple
 import networkx as nx
 from pgmpy.factors.discrete import TabularCPD
 
-from pycid.core.cpd import DecisionDomain, StochasticFunctionCPD
+from pycid.core.cpd import ConstantCPD, DecisionDomain, StochasticFunctionCPD
 from pycid.core.macid_base import AgentLabel, MACIDBase
 from pycid.core.relevance_graph import CondensedRelevanceGraph
 from pycid.export.gambit import behavior_to_cpd, macid_to_efg, pygambit_ne_solver
@@ -109,7 +109,8 @@ class MACID(MACIDBase):
             cpd.marginalize(macid_copy.get_parents(node))
             marginalised_probs = cpd.get_values()
             unpack_probs = [item for sublist in marginalised_probs for item in sublist]
-            sg_macid.model[node] = dict(zip(macid_copy.model.domain[node], unpack_probs))
+            domain = macid_copy.model.domain[node]  # the tables of the children depend on its order
+            sg_macid.model[node] = ConstantCPD(node, dict(zip(domain, unpack_probs)), sg_macid, domain=list(domain))
 
         # copy over the cpds for everything else
         for node in set(sg_macid.nodes) - parents_for_marginalisation_of_original_cpd:
-- 
2.43.0


From 9ff009e0ccee544be4ed2880edac1c68423029bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:37 +0000
Subject: [PATCH 32/33] fix: recompute tables of CPD objects when the parents
 or their domains have changed

---
 pycid/core/causal_bayesian_network.py |  4 +++-
 pycid/core/cpd.py                     | 22 ++++++++++++++++++++++
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index 65fb79d..40391f9 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -73,7 +73,9 @@ class CausalBayesianNetwork(BayesianNetwork):
                 cpd.store_state_names(None, None, dict(self.domain))
 
         def to_tabular_cpd(self, variable: str, relationship: Relationship) -> TabularCPD:
-            if isinstance(relationship, TabularCPD):
+            if isinstance(relationship, StochasticFunctionCPD) and not relationship.fits(self.cbn):
+                return relationship.rebuild(self.cbn)
+            elif isinstance(relationship, TabularCPD):
                 return relationship
             elif isinstance(relationship, Callable):  # type: ignore
                 return StochasticFunctionCPD(variable, relationship, self.cbn)  # type: ignore
diff --git a/pycid/core/cpd.py b/pycid/core/cpd.py
index 03fe770..bde4ad9 100644
--- a/pycid/core/cpd.py
+++ b/pycid/core/cpd.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 import inspect
 import itertools
+from copy import copy
 from inspect import getsourcelines
 from typing import TYPE_CHECKING, Any, Callable, Dict, Iterator, List, Mapping, Optional, Sequence, Union
 
@@ -104,6 +105,7 @@ class StochasticFunctionCPD(TabularCPD):
         card = len(self.domain)
         evidence = cbn.get_parents(self.variable)
         evidence_card = [len(cbn.model.domain[p]) for p in evidence]
+        self.parent_domains = {p: list(cbn.model.domain[p]) for p in evidence}
         probability_list = []
         for pv in self.parent_values():
             probabilities = complete_prob_dictionary(self.stochastic_function(**pv))
@@ -195,6 +197,26 @@ class StochasticFunctionCPD(TabularCPD):
             state_names=self.state_names,
         )
 
+    def fits(self, cbn: CausalBayesianNetwork) -> bool:
+        """Whether the table was computed for the parents in cbn and (so far as they are known) their domains"""
+        parents = cbn.get_parents(self.variable)
+        return set(self.parent_domains) == set(parents) and all(
+            self.parent_domains[p] == list(cbn.model.domain[p]) for p in parents if p in cbn.model.domain
+        )
+
+    def rebuild(self, cbn: CausalBayesianNetwork) -> StochasticFunctionCPD:
+        """The same relationship, with a table for the parents in cbn and their domains"""
+        new = copy(self)
+        StochasticFunctionCPD.__init__(
+            new,
+            self.variable,
+            self.func,
+            cbn,
+            domain=list(self.force_domain) if self.force_domain else None,
+            label=self.label,
+        )
+        return new
+
     def __repr__(self) -> str:
         dictionary: Dict[str, Union[Dict, Outcome]] = {}
         try:
-- 
2.43.0


From 2b0e78404ac0aa6684f06eb7998d14d0e7876151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:30 +0000
Subject: [PATCH 33/33] fix: equilibrium policies do not depend on the order of
 the parents

---
 pycid/export/gambit.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pycid/export/gambit.py b/pycid/export/gambit.py
index a3dfd6b..e22b28d 100644
--- a/pycid/export/gambit.py
+++ b/pycid/export/gambit.py
@@ -195,11 +195,12 @@ def behavior_to_cpd(
     - cpds: A list of CPDs for each decision node.
     """
 
+    infosets = {(node, frozenset(parents)): infoset for (node, parents), infoset in parents_to_infoset.items()}
+
     def _action_prob_given_parents(node: Any, **pv: Outcome) -> Mapping[str, float]:
-        """Takes the parent instantiation and outputs the prob from the infoset"""
-        pv_tuple = (node, tuple(pv.items()))
+        """Takes the parent instantiation (in any order) and outputs the prob from the infoset"""
         # get the infoset for the node
-        infoset = parents_to_infoset[pv_tuple]
+        infoset = infosets.get((node, frozenset(pv.items())))
         # if the infoset does not exist, this is not a valid parent instantiation
         # TODO this was needed previously, but probably not needed anymore
         if not infoset:
-- 
2.43.0

