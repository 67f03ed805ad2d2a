From b15f1e3475c2b8d371b2a8ae861f6fe4bdfd04a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:45 +0000
Subject: [PATCH 01/49] fix: Clarke & Wright duration test assumes symmetric
 travel times

---
 vrpy/clarke_wright.py | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/vrpy/clarke_wright.py b/vrpy/clarke_wright.py
index 911b683..80ea9d2 100644
--- a/vrpy/clarke_wright.py
+++ b/vrpy/clarke_wright.py
@@ -142,11 +142,8 @@ class _ClarkeWright:
             self._route[existing_node].graph["load"] += self.G.nodes[new_node]["demand"]
         # Update route duration
         if self.duration:
-            self._route[existing_node].graph["time"] += (
-                self.G.edges[existing_node, new_node]["time"]
-                + self.G.edges[new_node, "Sink"]["time"]
-                + self.G.nodes[new_node]["service_time"]
-                - self.G.edges[existing_node, "Sink"]["time"]
+            self._route[existing_node].graph["time"] += self._extra_time(
+                existing_node, new_node, depot
             )
         # Update processed vertices
         self._processed_nodes.append(new_node)
@@ -156,7 +153,24 @@ class _ClarkeWright:
         self._route[new_node] = route
         return route
 
-    def _constraints_met(self, existing_node, new_node):
+    def _extra_time(self, existing_node, new_node, depot):
+        """Additional duration if new_node is inserted between existing_node and depot."""
+        service_time = self.G.nodes[new_node]["service_time"]
+        if depot == "Sink":
+            return (
+                self.G.edges[existing_node, new_node]["time"]
+                + self.G.edges[new_node, "Sink"]["time"]
+                + service_time
+                - self.G.edges[existing_node, "Sink"]["time"]
+            )
+        return (
+            self.G.edges["Source", new_node]["time"]
+            + self.G.edges[new_node, existing_node]["time"]
+            + service_time
+            - self.G.edges["Source", existing_node]["time"]
+        )
+
+    def _constraints_met(self, existing_node, new_node, depot):
         """Tests if new_node can be merged in route without violating constraints."""
         route = self._route[existing_node]
         # test if new_node already in route
@@ -171,13 +185,8 @@ class _ClarkeWright:
                 return False
         # test duration constraints
         if self.duration:
-            # this code assumes the times to go from the Source and to the Sink are equal
             if (
-                route.graph["time"]
-                + self.G.edges[existing_node, new_node]["time"]
-                + self.G.edges[new_node, "Sink"]["time"]
-                + self.G.nodes[new_node]["service_time"]
-                - self.G.edges[existing_node, "Sink"]["time"]
+                route.graph["time"] + self._extra_time(existing_node, new_node, depot)
                 > self.duration
             ):
                 return False
@@ -201,7 +210,7 @@ class _ClarkeWright:
         merged = False
         if (
             j not in self._processed_nodes  # 1
-            and self._constraints_met(i, j)  # 2
+            and self._constraints_met(i, j, "Sink")  # 2
             and i in self._route[i].predecessors("Sink")  # 3b
         ):
             self._merge_route(i, j, "Sink")
@@ -211,7 +220,7 @@ class _ClarkeWright:
             not merged
             and j in self.G.predecessors(i)
             and i not in self._processed_nodes  # 1
-            and self._constraints_met(j, i)  # 2
+            and self._constraints_met(j, i, "Source")  # 2
             and j in self._route[j].successors("Source")  # 3a
         ):
             self._merge_route(j, i, "Source")
-- 
2.43.0


From eac7f510ee2cb791a6eb3ee19a314bbca824af04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:45 +0000
Subject: [PATCH 02/49] fix: cspy pricing ignores service times in maximum
 duration

---
 vrpy/subproblem_cspy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vrpy/subproblem_cspy.py b/vrpy/subproblem_cspy.py
index 789f044..521628e 100644
--- a/vrpy/subproblem_cspy.py
+++ b/vrpy/subproblem_cspy.py
@@ -364,7 +364,8 @@ class _SubProblemCSPY(_SubProblemBase):
         self.max_res[2] = self.duration
         for (i, j) in self.sub_G.edges():
             travel_time = self.sub_G.edges[i, j]["time"]
-            self.sub_G.edges[i, j]["res_cost"][2] = travel_time
+            service_time = self.sub_G.nodes[i]["service_time"]
+            self.sub_G.edges[i, j]["res_cost"][2] = travel_time + service_time
 
     def get_REF(self):
         if self.time_windows or self.distribution_collection or self.pickup_delivery:
-- 
2.43.0


From 4589d37adbedfe0bc17f6a3baa3da4fd0d1e6fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:45 +0000
Subject: [PATCH 03/49] fix: cspy pricing discards a route already known for
 another vehicle type

---
 vrpy/subproblem_cspy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vrpy/subproblem_cspy.py b/vrpy/subproblem_cspy.py
index 521628e..49037b6 100644
--- a/vrpy/subproblem_cspy.py
+++ b/vrpy/subproblem_cspy.py
@@ -270,7 +270,9 @@ class _SubProblemCSPY(_SubProblemBase):
                 logger.debug(alg.path)
                 path_len = len(alg.path)
                 if not any(
-                    list(new_route.edges()) == list(r.edges()) for r in self.routes
+                    list(new_route.edges()) == list(r.edges())
+                    and r.graph["vehicle_type"] == self.vehicle_type
+                    for r in self.routes
                 ):
                     more_routes = True
                     self.routes.append(new_route)
-- 
2.43.0


From ada703bd2a0b6f4a238574282c032d38d541db66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:45 +0000
Subject: [PATCH 04/49] fix: initial routes are priced with the cost of the
 wrong vehicle type

---
 vrpy/vrp.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 11a0690..840170d 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -956,11 +956,6 @@ class VehicleRoutingProblem:
             total_cost = 0
             G = DiGraph(name=route_id)
             edges = list(zip(r[:-1], r[1:]))
-            for (i, j) in edges:
-                edge_cost = self.G.edges[i, j]["cost"][0]
-                G.add_edge(i, j, cost=edge_cost)
-                total_cost += edge_cost
-            G.graph["cost"] = total_cost
             if self.load_capacity:
                 for k in range(len(self.load_capacity)):
                     if (
@@ -975,6 +970,11 @@ class VehicleRoutingProblem:
                 raise ValueError(
                     "Could not find initial feasible solution. Check loading capacities."
                 )
+            for (i, j) in edges:
+                edge_cost = self.G.edges[i, j]["cost"][G.graph["vehicle_type"]]
+                G.add_edge(i, j, cost=edge_cost)
+                total_cost += edge_cost
+            G.graph["cost"] = total_cost
             self._routes.append(G)
             for v in r[1:-1]:
                 if v in self._routes_with_node:
-- 
2.43.0


From 2df8cdbeacf697850f974e6d43829fe3e3a0953f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:33 +0000
Subject: [PATCH 05/49] fix: columns priced as LP may contain cycles
 disconnected from the route

---
 vrpy/subproblem_lp.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/vrpy/subproblem_lp.py b/vrpy/subproblem_lp.py
index 73a38a3..11b4a27 100644
--- a/vrpy/subproblem_lp.py
+++ b/vrpy/subproblem_lp.py
@@ -55,13 +55,19 @@ class _SubProblemLP(_SubProblemBase):
         route_id = len(self.routes) + 1
         new_route = DiGraph(name=route_id)
         self.total_cost = 0
-        for (i, j) in self.sub_G.edges():
-            if pulp.value(self.x[(i, j)]) > 0.5:
-                edge_cost = self.sub_G.edges[i, j]["cost"][self.vehicle_type]
-                self.total_cost += edge_cost
-                new_route.add_edge(i, j, cost=edge_cost)
-                if i != "Source":
-                    self.routes_with_node[i].append(new_route)
+        # Only keep the path from Source to Sink: if elementarity is not enforced,
+        # the solution may also contain cycles (of non negative reduced cost)
+        solution = DiGraph()
+        solution.add_edges_from(
+            (i, j) for (i, j) in self.sub_G.edges() if pulp.value(self.x[(i, j)]) > 0.5
+        )
+        path = shortest_path(solution, "Source", "Sink")
+        for (i, j) in zip(path[:-1], path[1:]):
+            edge_cost = self.sub_G.edges[i, j]["cost"][self.vehicle_type]
+            self.total_cost += edge_cost
+            new_route.add_edge(i, j, cost=edge_cost)
+            if i != "Source":
+                self.routes_with_node[i].append(new_route)
 
         new_route.graph["cost"] = self.total_cost
         new_route.graph["vehicle_type"] = self.vehicle_type
-- 
2.43.0


From 7b245a8f7cadb1b6306b4506684edb5e1574cd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:34 +0000
Subject: [PATCH 06/49] fix: periodic schedule may visit a customer without
 demand twice a day

---
 vrpy/schedule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrpy/schedule.py b/vrpy/schedule.py
index d25bef5..a2eb8e2 100644
--- a/vrpy/schedule.py
+++ b/vrpy/schedule.py
@@ -84,7 +84,7 @@ class _Schedule:
         # at most one visit per day per customer
         for t in range(self.time_span):
             for v in self.G.nodes():
-                if self.G.nodes[v]["demand"] > 0:
+                if v not in ["Source", "Sink"]:
                     self.prob += (
                         pulp.lpSum(
                             [self.y[r][t] for r in self.routes if v in self.routes[r]]
-- 
2.43.0


From a1e595bb6772ed6611fbb22d1af7ede49949112c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:34 +0000
Subject: [PATCH 07/49] fix: global span only accounts for the first 74 columns

---
 vrpy/master_solve_pulp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vrpy/master_solve_pulp.py b/vrpy/master_solve_pulp.py
index 3bcbe97..8bcd0fe 100644
--- a/vrpy/master_solve_pulp.py
+++ b/vrpy/master_solve_pulp.py
@@ -408,7 +408,9 @@ class _MasterSolvePulp(_MasterProblemBase):
             cost = 0
         else:
             # constraints = [self.makespan_constr[r.graph["name"]] for r in self.routes]
-            constraints = [self.makespan_constr[x] for x in range(1, 75)]
+            constraints = [
+                self.makespan_constr[x] for x in range(1, self._n_columns)
+            ]
             cost = 1
         self.makespan = pulp.LpVariable(
             "makespan",
-- 
2.43.0


From fce05df99cf5b748bb662cbd18d0ebf6f366e231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:29 +0000
Subject: [PATCH 08/49] fix: periodic routes cannot be repeated and customers
 are silently visited less than required

---
 vrpy/master_solve_pulp.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vrpy/master_solve_pulp.py b/vrpy/master_solve_pulp.py
index 8bcd0fe..7ba60db 100644
--- a/vrpy/master_solve_pulp.py
+++ b/vrpy/master_solve_pulp.py
@@ -126,7 +126,8 @@ class _MasterSolvePulp(_MasterProblemBase):
         for r in self.routes:
             val = pulp.value(self.y[r.graph["name"]])
             if val is not None and val > 0:
-                best_routes.append(r)
+                # In the periodic case, a route may be selected more than once
+                best_routes.extend([r] * (1 if relax else round(val)))
                 # This logging takes time
                 # logger.debug("%s cost %s load %s" % (
                 #     shortest_path(r, "Source", "Sink"),
@@ -188,7 +189,9 @@ class _MasterSolvePulp(_MasterProblemBase):
                     and self.G.nodes[node]["frequency"] > 1
                     and node != "Source"
                 ):
+                    # Force periodic artificial variable to 0
                     self.dummy[node].cat = pulp.LpInteger
+                    self.dummy[node].upBound = 0
             # Set route variables to integer
             for var in self.y.values():
                 # Disallow routes that visit multiple nodes
@@ -319,7 +322,7 @@ class _MasterSolvePulp(_MasterProblemBase):
         self.y[route.graph["name"]] = pulp.LpVariable(
             "y{}".format(route.graph["name"]),
             lowBound=0,
-            upBound=1,
+            upBound=None,
             cat=pulp.LpContinuous,
             e=(
                 pulp.lpSum(self.set_covering_constrs[n] for n in nodes)
-- 
2.43.0


From 37d9df275d47a326af32a8b3515b7fdf5384bc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:26 +0000
Subject: [PATCH 09/49] fix: diving returns fractional, overlapping routes

---
 vrpy/master_solve_pulp.py | 3 +++
 vrpy/vrp.py               | 6 +-----
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/vrpy/master_solve_pulp.py b/vrpy/master_solve_pulp.py
index 7ba60db..5a6c478 100644
--- a/vrpy/master_solve_pulp.py
+++ b/vrpy/master_solve_pulp.py
@@ -170,6 +170,9 @@ class _MasterSolvePulp(_MasterProblemBase):
     def _solve(self, relax: bool, time_limit: Optional[int]):
         # Set variable types
         if not relax:
+            # Remove constraints added by the diving heuristic
+            for const in [c for c in self.prob.constraints if c.startswith("fix_")]:
+                del self.prob.constraints[const]
             # Set partitioning constraints and artificial variables to integer
             # (for the periodic case)
             for node in self.G.nodes():
diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 840170d..3c8c860 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -511,11 +511,7 @@ class VehicleRoutingProblem:
             self._dive = True
             self._more_routes = True
             self._column_generation()
-            (
-                self._best_value,
-                self._best_routes_as_graphs,
-            ) = self.masterproblem.get_total_cost_and_routes(relax=True)
-        elif len(self.G.nodes()) > 2:
+        if len(self.G.nodes()) > 2:
             # Solve as MIP
             _, _ = self.masterproblem.solve(
                 relax=False, time_limit=self._get_time_remaining(mip=True)
-- 
2.43.0


From 77a11b0bb99082713ae06645c84aabe6d969de1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:35 +0000
Subject: [PATCH 10/49] fix: cspy pricing limits routes to half of the
 customers when stops are unbounded

---
 vrpy/subproblem_cspy.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/vrpy/subproblem_cspy.py b/vrpy/subproblem_cspy.py
index 49037b6..cf1437d 100644
--- a/vrpy/subproblem_cspy.py
+++ b/vrpy/subproblem_cspy.py
@@ -1,5 +1,4 @@
 import logging
-from math import floor
 
 from numpy import zeros
 from networkx import DiGraph, add_path
@@ -172,7 +171,7 @@ class _SubProblemCSPY(_SubProblemBase):
         # Add upper bounds for mono, stops, load and time, and time windows
         total_demand = sum([self.sub_G.nodes[v]["demand"] for v in self.sub_G.nodes()])
         self.max_res = [
-            floor(len(self.sub_G.nodes()) / 2),  # stop/mono
+            len(self.sub_G.nodes()),  # stop/mono
             total_demand,  # load
             sum(
                 [self.sub_G.edges[u, v]["time"] for u, v in self.sub_G.edges()]
-- 
2.43.0


From 9f8acaeb2a8a83f69a06a993764584f2b6f1673c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:07 +0000
Subject: [PATCH 11/49] fix: LP pricing regenerates the same column forever
 when diving

---
 vrpy/vrp.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 3c8c860..8766fcc 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -595,6 +595,10 @@ class VehicleRoutingProblem:
                     )
                     if self._more_routes:
                         break
+            if self._more_routes and self._dive and self._is_duplicate(self.routes[-1]):
+                # The duals ignore the columns fixed by the diving heuristic
+                self.routes.pop()
+                self._more_routes = False
             if self._more_routes:
                 self.routes[-1].graph["heuristic"] = pricing_strategy
                 self.masterproblem.update(self.routes[-1])
@@ -611,6 +615,15 @@ class VehicleRoutingProblem:
         if not self._dive:
             self._lower_bound.append(relaxed_cost)
 
+    def _is_duplicate(self, route):
+        """True if the same route (and vehicle type) is already a column."""
+        return any(
+            r.graph["vehicle_type"] == route.graph["vehicle_type"]
+            and set(r.edges()) == set(route.edges())
+            for r in self._routes
+            if r is not route
+        )
+
     def _solve_subproblem_with_heuristic(
         self,
         pricing_strategy=None,
-- 
2.43.0


From 9e886b5c094cda8d0941a771f3b0dd13c69bf5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:11 +0000
Subject: [PATCH 12/49] fix: greedy pricing ignores service times and the edge
 that closes the route

---
 vrpy/subproblem_greedy.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/vrpy/subproblem_greedy.py b/vrpy/subproblem_greedy.py
index 70e29e1..9eb3528 100644
--- a/vrpy/subproblem_greedy.py
+++ b/vrpy/subproblem_greedy.py
@@ -125,10 +125,12 @@ class _SubProblemGreedy(_SubProblemBase):
         if forward:
             self._weight += self.sub_G.edges[self._last_node, self._new_node]["weight"]
             self._time += self.sub_G.edges[self._last_node, self._new_node]["time"]
+            self._time += self.sub_G.nodes[self._new_node].get("service_time", 0)
             self._current_path.append(self._new_node)
             if self._stops == self.num_stops and self._new_node != "Sink":
                 # Finish path
                 if self._new_node in self.sub_G.predecessors("Sink"):
+                    self._weight += self.sub_G.edges[self._new_node, "Sink"]["weight"]
                     self._current_path.append("Sink")
                 else:
                     self._new_node = False
@@ -138,10 +140,12 @@ class _SubProblemGreedy(_SubProblemBase):
         else:
             self._weight += self.sub_G.edges[self._new_node, self._last_node]["weight"]
             self._time += self.sub_G.edges[self._new_node, self._last_node]["time"]
+            self._time += self.sub_G.nodes[self._new_node].get("service_time", 0)
             self._current_path.insert(0, self._new_node)
             if self._stops == self.num_stops and self._new_node != "Source":
                 # Finish path
-                if self._new_node in self.sub_G.successors("Sink"):
+                if self._new_node in self.sub_G.successors("Source"):
+                    self._weight += self.sub_G.edges["Source", self._new_node]["weight"]
                     self._current_path.insert(0, "Source")
                 else:
                     self._new_node = False
@@ -179,16 +183,16 @@ class _SubProblemGreedy(_SubProblemBase):
 
     def _check_duration(self, v, forward):
         """Checks time constraint."""
-        if forward:
-            return (
-                self._time + self.sub_G.edges[self._last_node, v]["time"]
-                <= self.duration
-            )
-        else:
-            return (
-                self._time + self.sub_G.edges[v, self._last_node]["time"]
-                <= self.duration
-            )
+        # Travel time to v, service time at v, and travel time to (from) the depot
+        edges = [(self._last_node, v), (v, "Sink")]
+        if not forward:
+            edges = [(v, self._last_node), ("Source", v)]
+        return (
+            self._time
+            + sum(self.sub_G.edges[e]["time"] for e in edges if self.sub_G.has_edge(*e))
+            + self.sub_G.nodes[v].get("service_time", 0)
+            <= self.duration
+        )
 
     """
     NOT IMPLEMENTED YET
-- 
2.43.0


From 67524cf1d2d91c49361b2bf9358000ed01a24e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:59 +0000
Subject: [PATCH 13/49] fix: state of a previous call to solve leaks into the
 next one

---
 vrpy/vrp.py | 52 +++++++++++++++++++++++++++++++++-------------------
 1 file changed, 33 insertions(+), 19 deletions(-)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 8766fcc..867f9c9 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -236,26 +236,40 @@ class VehicleRoutingProblem:
         self._max_iter = max_iter
         self._run_exact = run_exact
         self._heuristic_only = heuristic_only
-        if self._pricing_strategy == "Hyper":
-            self.hyper_heuristic = _HyperHeuristic()
+        self.hyper_heuristic = (
+            _HyperHeuristic() if self._pricing_strategy == "Hyper" else None
+        )
         self._start_time = time()
-        if preassignments:
-            self._preassignments = preassignments
-        if initial_routes:
-            self._initial_routes = initial_routes
+        # Forget everything about previous calls
+        self._iteration = 0
+        self._no_improvement = 0
+        self._lower_bound = []
+        self._dropped_nodes = []
+        self._best_routes = []
+        self._best_routes_as_graphs = []
+        self._schedule = None
+        self._preassignments = preassignments if preassignments else []
+        self._initial_routes = initial_routes if initial_routes else []
         # If only one type of vehicle, some formatting is done
         if not self.mixed_fleet:
             self._format()
-        # Pre-processing
-        self._pre_solve()
-        if self._heuristic_only:
-            # return solution found with Clarke & Wright heuristic
-            self._solve_with_clarke_wright()
-        else:
-            # Initialization
-            self._initialize(solver)
-            # Column generation procedure
-            self._solve(dive, solver)
+        # Pre-processing modifies the graph and the parameters: work on a copy, such
+        # that the problem can be modified and solved again
+        G, num_stops, num_vehicles = self.G, self.num_stops, self.num_vehicles
+        self.G = self.G.to_directed()
+        try:
+            # Pre-processing
+            self._pre_solve()
+            if self._heuristic_only:
+                # return solution found with Clarke & Wright heuristic
+                self._solve_with_clarke_wright()
+            else:
+                # Initialization
+                self._initialize(solver)
+                # Column generation procedure
+                self._solve(dive, solver)
+        finally:
+            self.G, self.num_stops, self.num_vehicles = G, num_stops, num_vehicles
 
     @property
     def best_routes_type(self):
@@ -383,8 +397,8 @@ class VehicleRoutingProblem:
         # Check arrival times
         for k1, v1 in self.arrival_time.items():
             for k2, v2 in v1.items():
-                assert self.G.nodes[k2]["lower"] <= v2
-                assert v2 <= self.G.nodes[k2]["upper"]
+                assert self._H.nodes[k2]["lower"] <= v2
+                assert v2 <= self._H.nodes[k2]["upper"]
 
     @property
     def departure_time(self):
@@ -412,7 +426,7 @@ class VehicleRoutingProblem:
         # Check departure times
         for k1, v1 in self.departure_time.items():
             for k2, v2 in v1.items():
-                assert self.G.nodes[k2]["lower"] <= v2
+                assert self._H.nodes[k2]["lower"] <= v2
                 # Upper TW should not be checked as lower + service_time > upper
                 # in many cases. Also not enforced at the subproblem level.
                 # assert v2 <= self.G.nodes[k2]["upper"]
-- 
2.43.0


From 9376bfc784814ebd96b165461cdf8fe182fd5351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:03 +0000
Subject: [PATCH 14/49] fix: unreachable customers (service times, time
 windows, collect) are not rejected

---
 vrpy/checks.py | 31 ++++++++++++++++++++++++++-----
 vrpy/vrp.py    |  6 +++++-
 2 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/vrpy/checks.py b/vrpy/checks.py
index e4fbf6d..e620676 100644
--- a/vrpy/checks.py
+++ b/vrpy/checks.py
@@ -188,7 +188,11 @@ def check_consistency(
 
 
 def check_feasibility(
-    load_capacity: list = None, G: DiGraph = None, duration: int = None
+    load_capacity: list = None,
+    G: DiGraph = None,
+    duration: int = None,
+    time_windows: bool = False,
+    distribution_collection: bool = False,
 ):
     """Checks basic problem feasibility."""
 
@@ -199,20 +203,37 @@ def check_feasibility(
                     "Demand %s at node %s larger than max capacity %s."
                     % (G.nodes[v]["demand"], v, max(load_capacity))
                 )
-    if duration:
+            if distribution_collection and G.nodes[v]["collect"] > max(load_capacity):
+                raise ValueError(
+                    "Collect %s at node %s larger than max capacity %s."
+                    % (G.nodes[v]["collect"], v, max(load_capacity))
+                )
+    if duration or time_windows:
+
+        def travel_and_service_time(u, v, data):
+            return data["time"] + G.nodes[u]["service_time"]
+
         for v in G.nodes():
             if v not in ["Source", "Sink"]:
                 shortest_path_to = shortest_path_length(
-                    G, source="Source", target=v, weight="time"
+                    G, source="Source", target=v, weight=travel_and_service_time
                 )
                 shortest_path_from = shortest_path_length(
-                    G, source=v, target="Sink", weight="time"
+                    G, source=v, target="Sink", weight=travel_and_service_time
                 )
                 shortest_trip = shortest_path_from + shortest_path_to
-                if shortest_trip > duration:
+                if duration and shortest_trip > duration:
                     raise ValueError(
                         "Node %s not reachable with duration constraints" % v
                     )
+                earliest = max(
+                    G.nodes["Source"]["lower"] + shortest_path_to, G.nodes[v]["lower"]
+                )
+                if time_windows and (
+                    earliest > G.nodes[v]["upper"]
+                    or earliest + shortest_path_from > G.nodes["Sink"]["upper"]
+                ):
+                    raise ValueError("Node %s not reachable with time windows" % v)
 
 
 def check_seed(seed):
diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 867f9c9..39f8d98 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -473,7 +473,11 @@ class VehicleRoutingProblem:
         )
         # Check feasibility
         check_feasibility(
-            load_capacity=self.load_capacity, G=self.G, duration=self.duration
+            load_capacity=self.load_capacity,
+            G=self.G,
+            duration=self.duration,
+            time_windows=self.time_windows,
+            distribution_collection=self.distribution_collection,
         )
         self.num_vehicles, self._num_vehicles_schedule = check_periodic_num_vehicles(
             periodic=self.periodic, num_vehicles=self.num_vehicles
-- 
2.43.0


From 45aeb76b116a1aa536be7f2774999fdf2da9e6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:03 +0000
Subject: [PATCH 15/49] fix: vehicle type of initial routes ignores the amount
 to collect

---
 vrpy/vrp.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 39f8d98..cddf5d9 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -984,11 +984,11 @@ class VehicleRoutingProblem:
             G = DiGraph(name=route_id)
             edges = list(zip(r[:-1], r[1:]))
             if self.load_capacity:
+                load = sum(self.G.nodes[v]["demand"] for v in r)
+                if self.distribution_collection:
+                    load = max(load, sum(self.G.nodes[v]["collect"] for v in r))
                 for k in range(len(self.load_capacity)):
-                    if (
-                        sum(self.G.nodes[v]["demand"] for v in r)
-                        <= self.load_capacity[k]
-                    ):
+                    if load <= self.load_capacity[k]:
                         G.graph["vehicle_type"] = k
                         break
             else:
-- 
2.43.0


From f34b54ef02afe9927a8843900b072c820f18837b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:44 +0000
Subject: [PATCH 16/49] fix: heuristic_only loses the customers of preassigned
 complete routes

---
 vrpy/vrp.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index cddf5d9..d4fd347 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -889,13 +889,15 @@ class VehicleRoutingProblem:
             self.num_stops,
         )
         alg.run()
-        self._best_routes = dict(
-            zip([r for r in range(len(alg.best_routes))], alg.best_routes)
-        )
+        # Merge with preassigned complete routes
+        best_routes = alg.best_routes + [
+            r for r in self._preassignments if r[0] == "Source" and r[-1] == "Sink"
+        ]
+        self._best_routes = dict(zip([r for r in range(len(best_routes))], best_routes))
         self._best_routes_vehicle_type = dict(
             zip(
-                [r for r in range(len(alg.best_routes))],
-                [0 for r in range(len(alg.best_routes))],
+                [r for r in range(len(best_routes))],
+                [0 for r in range(len(best_routes))],
             )
         )
 
-- 
2.43.0


From ce00b9f2c8181f6f98c0cabff189b50080640dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:44 +0000
Subject: [PATCH 17/49] fix: vehicles of preassigned complete routes are not
 deducted from the fleet

---
 vrpy/vrp.py | 39 +++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index d4fd347..efbaa61 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -1024,6 +1024,11 @@ class VehicleRoutingProblem:
             if route[0] == "Source" and route[-1] == "Sink":
                 logger.info("locking %s" % route)
                 self.G.remove_nodes_from(route[1:-1])
+                # The vehicle is no longer available
+                vehicle_type = self._locked_type(route)
+                if self.num_vehicles and vehicle_type is not None:
+                    self.num_vehicles = list(self.num_vehicles)
+                    self.num_vehicles[vehicle_type] -= 1
             # Otherwise, keep it and set the costs to 0
             else:
                 logger.info("locking partial route %s" % route)
@@ -1170,22 +1175,28 @@ class VehicleRoutingProblem:
         for route in self._preassignments:
             if route[0] == "Source" and route[-1] == "Sink":
                 self._best_routes[route_id] = route
-                edges = list(zip(route[:-1], route[1:]))
-                best_cost = 1e10
-                for k in range(self._vehicle_types):
-                    # If different vehicles, the cheapest feasible one is accounted for
-                    cost = sum(self._H.edges[i, j]["cost"][k] for (i, j) in edges)
-                    load = sum(self._H.nodes[i]["demand"] for i in route)
-                    if cost < best_cost:
-                        if self.load_capacity:
-                            if load <= self.load_capacity[k]:
-                                best_cost = cost
-                                self._best_routes_vehicle_type[route_id] = k
-                        else:
-                            best_cost = cost
-                            self._best_routes_vehicle_type[route_id] = k
+                self._best_routes_vehicle_type[route_id] = self._locked_type(route)
                 route_id += 1
 
+    def _locked_type(self, route):
+        """Returns the vehicle type of a preassigned complete route."""
+        edges = list(zip(route[:-1], route[1:]))
+        best_cost = 1e10
+        vehicle_type = None
+        for k in range(self._vehicle_types):
+            # If different vehicles, the cheapest feasible one is accounted for
+            cost = sum(self._H.edges[i, j]["cost"][k] for (i, j) in edges)
+            load = sum(self._H.nodes[i]["demand"] for i in route)
+            if cost < best_cost:
+                if self.load_capacity:
+                    if load <= self.load_capacity[k]:
+                        best_cost = cost
+                        vehicle_type = k
+                else:
+                    best_cost = cost
+                    vehicle_type = k
+        return vehicle_type
+
     def _format(self):
         """Attributes are stored as singletons."""
         for (i, j) in self.G.edges():
-- 
2.43.0


From 500c85b5497c8227233ca67999466e1f6fa021bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:24 +0000
Subject: [PATCH 18/49] fix: sequence of preassigned partial routes is not
 guaranteed

---
 vrpy/vrp.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index efbaa61..6c4fb46 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -1015,9 +1015,12 @@ class VehicleRoutingProblem:
         """
         Processes preassigned routes and edges.
         If the route is complete, it is removed from the vrp.
-        If not, for all edges of the incomplete route, the cost is set to 0
-        (to guarantee that the sequence will remain as is).
+        If not, for all edges of the incomplete route, the cost is set to 0 and the
+        edges that break the sequence are penalized (to guarantee that the sequence
+        will remain as is).
         """
+        # Larger than the cost of any solution
+        penalty = 1 + sum(max(c) for (_, _, c) in self.G.edges(data="cost"))
         for route in self._preassignments:
             edges = list(zip(route[:-1], route[1:]))
             # If the route cannot be extended, remove it
@@ -1035,6 +1038,12 @@ class VehicleRoutingProblem:
                 for (i, j) in edges:
                     for k in range(self._vehicle_types):
                         self.G.edges[i, j]["cost"][k] = 0
+                    for (u, v) in self.G.edges():
+                        if (u == i != "Source" and v != j) or (
+                            v == j != "Sink" and u != i
+                        ):
+                            for k in range(self._vehicle_types):
+                                self.G.edges[u, v]["cost"][k] += penalty
 
         # If all vertices are locked, do not generate columns
         if len(self.G.nodes()) == 2:
-- 
2.43.0


From 1f901c3a7effcdd420e4043c903dcdbaeefcc6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:12 +0000
Subject: [PATCH 19/49] fix: infeasible solution returned by CBC's
 preprocessing is added as a column

---
 vrpy/subproblem_lp.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/vrpy/subproblem_lp.py b/vrpy/subproblem_lp.py
index 11b4a27..85d341f 100644
--- a/vrpy/subproblem_lp.py
+++ b/vrpy/subproblem_lp.py
@@ -86,6 +86,15 @@ class _SubProblemLP(_SubProblemBase):
     def _solve(self, time_limit):
         if self.solver == "cbc":
             self.prob.solve(pulp.PULP_CBC_CMD(msg=False, timeLimit=time_limit))
+            if pulp.LpStatus[self.prob.status] == "Optimal" and not self.prob.valid(
+                1e-3
+            ):
+                # CBC's preprocessing may fail to detect that there is no solution
+                self.prob.solve(
+                    pulp.PULP_CBC_CMD(
+                        msg=False, timeLimit=time_limit, options=["preprocess off"]
+                    )
+                )
         elif self.solver == "cplex":
             self.prob.solve(pulp.CPLEX_CMD(msg=False, timeLimit=time_limit))
         elif self.solver == "gurobi":
-- 
2.43.0


From 379fe9a7400d28d052d53327000f30ca47c51eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:12 +0000
Subject: [PATCH 20/49] fix: BestPaths fails if all reduced costs are equal

---
 vrpy/subproblem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrpy/subproblem.py b/vrpy/subproblem.py
index 308609e..a24ad7a 100644
--- a/vrpy/subproblem.py
+++ b/vrpy/subproblem.py
@@ -203,7 +203,7 @@ class _SubProblemBase:
         for edge in self.G.edges(data=True):
             edge[2]["pos_weight"] = (
                 -max_weight - min_weight + 2 * edge[2]["weight"]
-            ) / (max_weight - min_weight)
+            ) / (max_weight - min_weight or 1)
             edge[2]["pos_weight"] = max(0, edge[2]["pos_weight"])
         # Compute beta shortest paths
         best_paths = list(
-- 
2.43.0


From 9850e3a5989bb4c3e58f0daa5478ea4612ef68fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:12 +0000
Subject: [PATCH 21/49] fix: pricing strategy is not changed to Exact for
 pickup and delivery

---
 vrpy/vrp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 6c4fb46..8d7081c 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -471,6 +471,9 @@ class VehicleRoutingProblem:
             pricing_strategy=self._pricing_strategy,
             G=self.G,
         )
+        # Pickup and delivery requires exact pricing
+        if self.pickup_delivery:
+            self._pricing_strategy = "Exact"
         # Check feasibility
         check_feasibility(
             load_capacity=self.load_capacity,
-- 
2.43.0


From fab90705858b1e628ef4d11b0f690096bca052e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:36 +0000
Subject: [PATCH 22/49] fix: cspy pricing discards routes because of service
 times and unused time windows

---
 vrpy/subproblem_cspy.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/vrpy/subproblem_cspy.py b/vrpy/subproblem_cspy.py
index cf1437d..1dac3c4 100644
--- a/vrpy/subproblem_cspy.py
+++ b/vrpy/subproblem_cspy.py
@@ -54,7 +54,9 @@ class _MyREFCallback(REFCallback):
         # Upper
         b_j = self._sub_G.nodes[j]["upper"]
 
-        new_res[2] = max(new_res[2] + theta_i + travel_time_ij, a_j)
+        new_res[2] += theta_i + travel_time_ij
+        if self._time_windows:
+            new_res[2] = max(new_res[2], a_j)
 
         # time-window feasibility resource
         if not self._time_windows or (new_res[2] <= b_j):
@@ -173,8 +175,9 @@ class _SubProblemCSPY(_SubProblemBase):
         self.max_res = [
             len(self.sub_G.nodes()),  # stop/mono
             total_demand,  # load
-            sum(
-                [self.sub_G.edges[u, v]["time"] for u, v in self.sub_G.edges()]
+            sum([self.sub_G.edges[u, v]["time"] for u, v in self.sub_G.edges()])
+            + sum(
+                [self.sub_G.nodes[v]["service_time"] for v in self.sub_G.nodes()]
             ),  # time
             1,  # time windows
             total_demand,  # pickup
-- 
2.43.0


From 4953309054b4d043be46afd263c5624cfc6d1ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:36 +0000
Subject: [PATCH 23/49] fix: drop variables are integer in the relaxed master
 problem, duals are not valid

---
 vrpy/master_solve_pulp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vrpy/master_solve_pulp.py b/vrpy/master_solve_pulp.py
index 5a6c478..8566615 100644
--- a/vrpy/master_solve_pulp.py
+++ b/vrpy/master_solve_pulp.py
@@ -202,6 +202,9 @@ class _MasterSolvePulp(_MasterProblemBase):
                     var.upBound = 0
                     var.lowBound = 0
                 var.cat = pulp.LpInteger
+            # Set drop variables to integer
+            for var in self.drop.values():
+                var.cat = pulp.LpInteger
             # Force vehicle bound artificial variable to 0
             for var in self.dummy_bound.values():
                 if "artificial_bound_" in var.name:
@@ -380,7 +383,7 @@ class _MasterSolvePulp(_MasterProblemBase):
                     "drop_%s" % node,
                     lowBound=0,
                     upBound=1,
-                    cat=pulp.LpInteger,
+                    cat=pulp.LpContinuous,
                     e=(
                         self.drop_penalty * self.objective
                         + self.set_covering_constrs[node]
-- 
2.43.0


From 9c41cc07d187b5d6de6663753bb7fd584d63b927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:36 +0000
Subject: [PATCH 24/49] fix: Hyper pricing strategy stops although the exact
 sub problem has not been solved

---
 vrpy/vrp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 8d7081c..cd3152d 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -667,7 +667,7 @@ class VehicleRoutingProblem:
                 more_columns = self._attempt_solve_best_edges2(
                     vehicle=vehicle, duals=duals, route=route
                 )
-            elif pricing_strategy == "Exact":
+            if pricing_strategy == "Exact" or not more_columns:
                 more_columns = self._attempt_solve_exact(
                     vehicle=vehicle, duals=duals, route=route
                 )
-- 
2.43.0


From 87b7e65ecec45eb4b7b459efbf9fb0da3e1b453e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:49 +0000
Subject: [PATCH 25/49] fix: infeasible columns are added when LP pricing hits
 the time limit

---
 vrpy/subproblem_lp.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/vrpy/subproblem_lp.py b/vrpy/subproblem_lp.py
index 85d341f..6258f69 100644
--- a/vrpy/subproblem_lp.py
+++ b/vrpy/subproblem_lp.py
@@ -27,7 +27,7 @@ class _SubProblemLP(_SubProblemBase):
     def solve(self, time_limit, exact=True):
         if not self.run_subsolve:
             return self.routes, False
-        if time_limit and time_limit <= 0:
+        if time_limit is not None and time_limit <= 0:
             return self.routes, False
 
         self._formulate()
@@ -39,11 +39,17 @@ class _SubProblemLP(_SubProblemBase):
         logger.debug("Solving subproblem using LP")
         logger.debug("Status: %s" % pulp.LpStatus[self.prob.status])
         logger.debug("Objective %s" % pulp.value(self.prob.objective))
-        if (
-            pulp.value(self.prob.objective) is not None
-            and pulp.value(self.prob.objective) < -(10**-3)
-            and pulp.LpStatus[self.prob.status] not in ["Infeasible"]
-        ) or (exact == False and pulp.LpStatus[self.prob.status] in ["Optimal", ""]):
+        # If the time limit is hit, there may be no integer solution
+        has_solution = pulp.value(self.prob.objective) is not None and self.prob.valid(
+            1e-3
+        )
+        if has_solution and (
+            (
+                pulp.value(self.prob.objective) < -(10**-3)
+                and pulp.LpStatus[self.prob.status] not in ["Infeasible"]
+            )
+            or (exact == False and pulp.LpStatus[self.prob.status] in ["Optimal", ""])
+        ):
             more_routes = True
             self._add_new_route()
         else:
-- 
2.43.0


From 67b7b13aa02450a4887cb697a75abec9707e53a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:06 +0000
Subject: [PATCH 26/49] fix: global span fails if all visits are dropped

---
 vrpy/vrp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index cd3152d..062c157 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -281,7 +281,7 @@ class VehicleRoutingProblem:
         if self.drop_penalty:
             penalty = self.drop_penalty * len(self._dropped_nodes)
             if self.minimize_global_span:
-                return max(self.best_routes_cost.values()) + penalty
+                return max(self.best_routes_cost.values(), default=0) + penalty
             return sum(self.best_routes_cost.values()) + penalty
         if self.minimize_global_span:
             return max(self.best_routes_cost.values())
-- 
2.43.0


From 390525c1ef5640ed4e6524cff24d56d49ae56a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:57 +0000
Subject: [PATCH 27/49] fix: global span fails with more than 999 initial
 columns

---
 vrpy/master_solve_pulp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrpy/master_solve_pulp.py b/vrpy/master_solve_pulp.py
index 8566615..1a62c3b 100644
--- a/vrpy/master_solve_pulp.py
+++ b/vrpy/master_solve_pulp.py
@@ -38,7 +38,7 @@ class _MasterSolvePulp(_MasterProblemBase):
         # Restricted master heuristic
         self.diving_heuristic = _DivingHeuristic()
         # Parameter when minimizing global span
-        self._n_columns = 1000
+        self._n_columns = len(self.routes) + 1000
 
         self._formulate()
 
-- 
2.43.0


From 8c1117e33301ddce7b475c61892b369c1e1e9118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:33 +0000
Subject: [PATCH 28/49] hooks: record the main steps of solve() if VRPY_TRACE
 is set

---
 vrpy/_trace.py            | 14 ++++++++++++++
 vrpy/master_solve_pulp.py |  9 +++++++++
 vrpy/vrp.py               |  3 +++
 3 files changed, 26 insertions(+)
 create mode 100644 vrpy/_trace.py

diff --git a/vrpy/_trace.py b/vrpy/_trace.py
new file mode 100644
index 0000000..20bde70
--- /dev/null
+++ b/vrpy/_trace.py
@@ -0,0 +1,14 @@
+"""Optional recording of the main steps of solve() (for verification purposes).
+
+Nothing is recorded unless the environment variable VRPY_TRACE is set.
+"""
+import os
+
+ENABLED = bool(os.environ.get("VRPY_TRACE"))
+EVENTS = []
+
+
+def emit(kind, **data):
+    """Records an event."""
+    if ENABLED:
+        EVENTS.append((kind, data))
diff --git a/vrpy/master_solve_pulp.py b/vrpy/master_solve_pulp.py
index 1a62c3b..7013956 100644
--- a/vrpy/master_solve_pulp.py
+++ b/vrpy/master_solve_pulp.py
@@ -4,6 +4,7 @@ from typing import Optional
 from networkx import shortest_path
 import pulp
 
+from vrpy import _trace
 from vrpy.masterproblem import _MasterProblemBase
 from vrpy.restricted_master_heuristics import _DivingHeuristic
 
@@ -60,12 +61,18 @@ class _MasterSolvePulp(_MasterProblemBase):
         #                          (r.graph["name"], val))
         duals = self.get_duals()
         logger.debug("duals : %s" % duals)
+        _trace.emit(
+            "master", relax=relax, duals=duals, value=self.prob.objective.value()
+        )
         return duals, self.prob.objective.value()
 
     def solve_and_dive(self, time_limit):
         self._solve(relax=True, time_limit=time_limit)
         self.diving_heuristic.run_dive(self.prob)
         self.prob.resolve()
+        _trace.emit(
+            "dive", duals=self.get_duals(), value=self.prob.objective.value()
+        )
         return self.get_duals(), self.prob.objective.value()
 
     def update(self, new_route):
@@ -318,6 +325,7 @@ class _MasterSolvePulp(_MasterProblemBase):
                 )
 
     def _add_route_selection_variable(self, route):
+        _trace.emit("column", route=route)
         # Added path with the raw path as using `nx.add_path` then
         # `graph.nodes()`
         # removes repeated nodes, so the coefficients are not correct.
@@ -342,6 +350,7 @@ class _MasterSolvePulp(_MasterProblemBase):
         )
 
     def _add_route_selection_variable_for_global_span(self, route):
+        _trace.emit("column", route=route)
         self.y[route.graph["name"]] = pulp.LpVariable(
             "y{}".format(route.graph["name"]),
             lowBound=0,
diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 062c157..4f644a7 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -5,6 +5,7 @@ from typing import List, Union
 
 from networkx import DiGraph, shortest_path  # draw_networkx
 
+from vrpy import _trace
 from vrpy.greedy import _Greedy
 from vrpy.schedule import _Schedule
 from vrpy.subproblem_lp import _SubProblemLP
@@ -548,12 +549,14 @@ class VehicleRoutingProblem:
         while self._more_routes:
             # Generate good columns
             self._find_columns()
+            _trace.emit("iteration", more=self._more_routes, dive=self._dive)
             # Stop if time limit is passed
             if (
                 isinstance(self._get_time_remaining(), float)
                 and self._get_time_remaining() == 0.0
             ):
                 logger.info("time up !")
+                _trace.emit("timeup")
                 break
             # Stop if no improvement limit is passed or max iter exceeded
             if self._no_improvement > 1000 or (
-- 
2.43.0


From 948a1de4ff284fad44e6d4173affa13f36a40f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:52 +0000
Subject: [PATCH 29/49] fix: pricing regenerates a column it already has with
 tight fleet limits

---
 vrpy/vrp.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 4f644a7..a758f2d 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -585,6 +585,7 @@ class VehicleRoutingProblem:
 
         for vehicle in range(self._vehicle_types):
             # Solve pricing problem with randomised greedy algorithm
+            greedy_routes = False
             if (
                 self._greedy
                 and not self.time_windows
@@ -594,6 +595,7 @@ class VehicleRoutingProblem:
             ):
                 subproblem = self._def_subproblem(duals, vehicle, greedy=True)
                 self.routes, self._more_routes = subproblem.solve(n_runs=20)
+                greedy_routes = self._more_routes
                 # Add initial_routes
                 if self._more_routes:
                     for r in (
@@ -619,8 +621,13 @@ class VehicleRoutingProblem:
                     )
                     if self._more_routes:
                         break
-            if self._more_routes and self._dive and self._is_duplicate(self.routes[-1]):
-                # The duals ignore the columns fixed by the diving heuristic
+            if (
+                self._more_routes
+                and (self._dive or not greedy_routes)
+                and self._is_duplicate(self.routes[-1])
+            ):
+                # The duals ignore the columns fixed by the diving heuristic, and
+                # are not accurate if they come from the vehicle bound penalty
                 self.routes.pop()
                 self._more_routes = False
             if self._more_routes:
-- 
2.43.0


From 98aada189babcfbac9d1c86b8700f5907443b244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:50 +0000
Subject: [PATCH 30/49] fix: LP pricing finds no route if the Source opens late

---
 vrpy/vrp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index a758f2d..f197d91 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -1156,6 +1156,8 @@ class VehicleRoutingProblem:
     def _readjust_sink_time_windows(self):
         """Readjusts Sink time windows"""
 
+        if self.G.nodes["Source"]["upper"] == 0:
+            self.G.nodes["Source"]["upper"] = self.G.nodes["Source"]["lower"]
         if self.G.nodes["Sink"]["upper"] == 0:
             self.G.nodes["Sink"]["upper"] = max(
                 self.G.nodes[u]["upper"]
-- 
2.43.0


From deab3038d51768722242bfea59cde96c36af1940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:50 +0000
Subject: [PATCH 31/49] fix: cost of non elementary columns counts repeated
 edges once

---
 vrpy/subproblem_cspy.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vrpy/subproblem_cspy.py b/vrpy/subproblem_cspy.py
index 1dac3c4..d421dcd 100644
--- a/vrpy/subproblem_cspy.py
+++ b/vrpy/subproblem_cspy.py
@@ -329,10 +329,13 @@ class _SubProblemCSPY(_SubProblemBase):
         route_id = "{}_{}".format(len(self.routes) + 1, e)
         new_route = DiGraph(name=route_id, path=path)
         add_path(new_route, path)
-        total_cost = 0
+        # An edge may be used more than once if the path is not elementary
+        total_cost = sum(
+            self.sub_G.edges[i, j]["cost"][self.vehicle_type]
+            for (i, j) in zip(path[:-1], path[1:])
+        )
         for (i, j) in new_route.edges():
             edge_cost = self.sub_G.edges[i, j]["cost"][self.vehicle_type]
-            total_cost += edge_cost
             new_route.edges[i, j]["cost"] = edge_cost
             if i != "Source":
                 self.routes_with_node[i].append(new_route)
-- 
2.43.0


From 3212cc4b8c80c0b96a13c19a7e9365f4abea4bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:48 +0000
Subject: [PATCH 32/49] fix: time windows are tightened as if direct trips to
 the depot were the fastest

---
 vrpy/subproblem_cspy.py |  3 +++
 vrpy/vrp.py             | 14 ++++++++++----
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/vrpy/subproblem_cspy.py b/vrpy/subproblem_cspy.py
index d421dcd..806097b 100644
--- a/vrpy/subproblem_cspy.py
+++ b/vrpy/subproblem_cspy.py
@@ -54,6 +54,9 @@ class _MyREFCallback(REFCallback):
         # Upper
         b_j = self._sub_G.nodes[j]["upper"]
 
+        # The route starts when the Source opens
+        if self._time_windows and i == self._source_id:
+            new_res[2] = max(new_res[2], self._sub_G.nodes[i]["lower"])
         new_res[2] += theta_i + travel_time_ij
         if self._time_windows:
             new_res[2] = max(new_res[2], a_j)
diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index f197d91..57d422d 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -3,7 +3,7 @@ import logging
 from time import time
 from typing import List, Union
 
-from networkx import DiGraph, shortest_path  # draw_networkx
+from networkx import DiGraph, shortest_path, single_source_dijkstra_path_length
 
 from vrpy import _trace
 from vrpy.greedy import _Greedy
@@ -1080,6 +1080,13 @@ class VehicleRoutingProblem:
 
     def _remove_infeasible_arcs_time_windows(self):
         infeasible_arcs = []
+        # The fastest way from or to the depot may not be the direct one
+        time_from_source = single_source_dijkstra_path_length(
+            self.G, "Source", weight="time"
+        )
+        time_to_sink = single_source_dijkstra_path_length(
+            self.G.reverse(copy=False), "Sink", weight="time"
+        )
         for (i, j) in self.G.edges():
             travel_time = self.G.edges[i, j]["time"]
             service_time = self.G.nodes[i]["service_time"]
@@ -1093,13 +1100,12 @@ class VehicleRoutingProblem:
                     # earliest time is coming straight from depot
                     self.G.nodes[v]["lower"] = max(
                         self.G.nodes[v]["lower"],
-                        self.G.nodes["Source"]["lower"]
-                        + self.G.edges["Source", v]["time"],
+                        self.G.nodes["Source"]["lower"] + time_from_source.get(v, 0),
                     )
                     # Latest time is going straight to depot
                     self.G.nodes[v]["upper"] = min(
                         self.G.nodes[v]["upper"],
-                        self.G.nodes["Sink"]["upper"] - self.G.edges[v, "Sink"]["time"],
+                        self.G.nodes["Sink"]["upper"] - time_to_sink.get(v, 0),
                     )
         self.G.remove_edges_from(infeasible_arcs)
 
-- 
2.43.0


From 55123b1430796584968e2f21617e18b073836fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:53 +0000
Subject: [PATCH 33/49] fix: dive fails if all customers are preassigned

---
 vrpy/vrp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 57d422d..c885408 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -529,7 +529,7 @@ class VehicleRoutingProblem:
 
     def _solve(self, dive, solver):
         self._column_generation()
-        if dive:
+        if dive and len(self.G.nodes()) > 2:
             self._dive = True
             self._more_routes = True
             self._column_generation()
-- 
2.43.0


From e0b517d4804e43a893afc8a8f10cd2205575cd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:53 +0000
Subject: [PATCH 34/49] fix: preassigned route over a missing depot edge has no
 vehicle type

---
 vrpy/vrp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index c885408..0e06844 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -1211,7 +1211,7 @@ class VehicleRoutingProblem:
     def _locked_type(self, route):
         """Returns the vehicle type of a preassigned complete route."""
         edges = list(zip(route[:-1], route[1:]))
-        best_cost = 1e10
+        best_cost = float("inf")
         vehicle_type = None
         for k in range(self._vehicle_types):
             # If different vehicles, the cheapest feasible one is accounted for
-- 
2.43.0


From 99cfa5d1270703aa30acb3f52429117dce147afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:53 +0000
Subject: [PATCH 35/49] fix: hyper heuristic divides by zero if no column is
 active

---
 vrpy/hyper_heuristic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vrpy/hyper_heuristic.py b/vrpy/hyper_heuristic.py
index 7350c49..7713b79 100644
--- a/vrpy/hyper_heuristic.py
+++ b/vrpy/hyper_heuristic.py
@@ -322,12 +322,13 @@ class _HyperHeuristic:
     def _update_params_wgtavr(self):
         "Updates params for Weighted average performance measure"
         sum_exp = sum(self.exp.values())
-        active = sum(self.active_columns.values())
+        # There may be no active columns (if all visits are dropped)
+        active = max(1, sum(self.active_columns.values()))
         for heuristic in self.heuristic_options:
             # if heuristic has not been applied, let it be self.inf
             if self.iterations[heuristic] > 0:
                 active_i = self.active_columns[heuristic]
-                total_added = self.added_columns[heuristic]
+                total_added = max(1, self.added_columns[heuristic])
                 norm_runtime = self.norm_runtime[heuristic]
                 norm_spread = 0
                 if sum_exp != 0:
-- 
2.43.0


From c2da2c7a9f66084609bde80d4e0577474166a5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:38 +0000
Subject: [PATCH 36/49] fix: cspy pricing counts waiting and the start of the
 day as duration with time windows

---
 vrpy/subproblem_cspy.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/vrpy/subproblem_cspy.py b/vrpy/subproblem_cspy.py
index 806097b..67cf9e9 100644
--- a/vrpy/subproblem_cspy.py
+++ b/vrpy/subproblem_cspy.py
@@ -73,6 +73,10 @@ class _MyREFCallback(REFCallback):
             # Delivery
             new_res[5] = max(new_res[5] + self._sub_G.nodes[j]["demand"], new_res[4])
 
+        # Duration
+        if len(self._resources) > 6:
+            new_res[6] += theta_i + travel_time_ij
+
         return new_res
 
     def REF_bwd(self, cumul_res, tail, head, edge_res, partial_path, cumul_cost):
@@ -169,6 +173,9 @@ class _SubProblemCSPY(_SubProblemBase):
             "collect",
             "deliver",
         ]
+        # With time windows, "time" includes waiting, which is not part of the duration
+        if self.time_windows and self.duration:
+            self.resources.append("duration")
         # Set number of resources as attribute of graph
         self.sub_G.graph["n_res"] = len(self.resources)
         # Default lower and upper bounds
@@ -186,6 +193,8 @@ class _SubProblemCSPY(_SubProblemBase):
             total_demand,  # pickup
             total_demand,  # deliver
         ]
+        if len(self.resources) > 6:
+            self.max_res.append(self.duration)
         # Initialize cspy edge attributes
         for edge in self.sub_G.edges(data=True):
             edge[2]["res_cost"] = zeros(len(self.resources))
@@ -308,9 +317,8 @@ class _SubProblemCSPY(_SubProblemBase):
         if self.duration:
             self.add_max_duration()
         if self.time_windows:
-            if not self.duration:
-                # Update upper bound for duration
-                self.max_res[2] = 1 + self.sub_G.nodes["Sink"]["upper"]
+            # Update upper bound for time
+            self.max_res[2] = 1 + self.sub_G.nodes["Sink"]["upper"]
             # Time windows feasibility
             self.max_res[3] = 0
             # Maximum feasible arrival time
-- 
2.43.0


From 19286a81dff7ce53952fbacc1a785bafbb692f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:55 +0000
Subject: [PATCH 37/49] fix: more preassigned routes than vehicles are accepted

---
 vrpy/vrp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 0e06844..a1d8363 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -1045,6 +1045,8 @@ class VehicleRoutingProblem:
                 if self.num_vehicles and vehicle_type is not None:
                     self.num_vehicles = list(self.num_vehicles)
                     self.num_vehicles[vehicle_type] -= 1
+                    if self.num_vehicles[vehicle_type] < 0:
+                        raise ValueError("More preassigned routes than vehicles.")
             # Otherwise, keep it and set the costs to 0
             else:
                 logger.info("locking partial route %s" % route)
-- 
2.43.0


From 11cb87b9615af85f0194bc2a9533aa403d4e5c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:32 +0000
Subject: [PATCH 38/49] fix: vehicle type of preassigned routes ignores the
 amount to collect

---
 vrpy/vrp.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index a1d8363..0fea6bb 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -1218,10 +1218,15 @@ class VehicleRoutingProblem:
         for k in range(self._vehicle_types):
             # If different vehicles, the cheapest feasible one is accounted for
             cost = sum(self._H.edges[i, j]["cost"][k] for (i, j) in edges)
-            load = sum(self._H.nodes[i]["demand"] for i in route)
+            load = max_load = sum(self._H.nodes[i]["demand"] for i in route)
+            if self.distribution_collection:
+                # Largest load along the route
+                for i in route:
+                    load += self._H.nodes[i]["collect"] - self._H.nodes[i]["demand"]
+                    max_load = max(load, max_load)
             if cost < best_cost:
                 if self.load_capacity:
-                    if load <= self.load_capacity[k]:
+                    if max_load <= self.load_capacity[k]:
                         best_cost = cost
                         vehicle_type = k
                 else:
-- 
2.43.0


From c072f27543af8bc869561084e7cb5230421c0c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:32 +0000
Subject: [PATCH 39/49] fix: global span fails with columns found by cspy

---
 vrpy/master_solve_pulp.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/vrpy/master_solve_pulp.py b/vrpy/master_solve_pulp.py
index 7013956..d78fa91 100644
--- a/vrpy/master_solve_pulp.py
+++ b/vrpy/master_solve_pulp.py
@@ -120,11 +120,11 @@ class _MasterSolvePulp(_MasterProblemBase):
             for route in self.routes:
                 if not relax:
                     duals["makespan_%s" % route.graph["name"]] = self.prob.constraints[
-                        "makespan_%s" % route.graph["name"]
+                        "makespan_%s" % self._column_number(route)
                     ].pi
                 else:
                     duals["makespan_%s" % route.graph["name"]] = relax.constraints[
-                        "makespan_%s" % route.graph["name"]
+                        "makespan_%s" % self._column_number(route)
                     ].pi
         return duals
 
@@ -367,7 +367,7 @@ class _MasterSolvePulp(_MasterProblemBase):
                     for k in range(len(self.num_vehicles))
                     if route.graph["vehicle_type"] == k
                 )
-                + route.graph["cost"] * self.makespan_constr[route.graph["name"]]
+                + route.graph["cost"] * self.makespan_constr[self._column_number(route)]
             ),
         )
 
@@ -422,7 +422,7 @@ class _MasterSolvePulp(_MasterProblemBase):
     def _add_makespan_variable(self, new_route=None):
         """Defines maximum makespan of each route"""
         if new_route:
-            constraints = [self.makespan_constr[new_route.graph["name"]]]
+            constraints = [self.makespan_constr[self._column_number(new_route)]]
             cost = 0
         else:
             # constraints = [self.makespan_constr[r.graph["name"]] for r in self.routes]
@@ -438,6 +438,11 @@ class _MasterSolvePulp(_MasterProblemBase):
             e=(cost * self.objective - pulp.lpSum(constraints)),
         )
 
+    @staticmethod
+    def _column_number(route):
+        """The names of routes found by cspy have a suffix (e.g. 11_elem)."""
+        return int(str(route.graph["name"]).split("_")[0])
+
     def _add_maximum_makespan_constraints(self):
         """Defines maximum makespan"""
         for route in range(1, self._n_columns):
-- 
2.43.0


From f17ae7c2fc50883c4966fb4dda91f1a2c3b0538b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:32 +0000
Subject: [PATCH 40/49] fix: partial preassigned sequence is lost with non
 elementary pricing

---
 vrpy/vrp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 0fea6bb..6de9518 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -231,7 +231,8 @@ class VehicleRoutingProblem:
         self._time_limit = time_limit
         self._pricing_strategy = pricing_strategy
         self._cspy = cspy
-        self._elementary = elementary if not dive else True
+        # Routes that visit a node twice may break the preassigned sequences
+        self._elementary = elementary if not dive and not preassignments else True
         self._dive = False
         self._greedy = greedy
         self._max_iter = max_iter
-- 
2.43.0


From bc1ad4626b75931677eb9b26fb2b480e1877cb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:50 +0000
Subject: [PATCH 41/49] revert: fix of the cost of non elementary columns
 (benchmark of issue 101 becomes too slow)

---
 vrpy/subproblem_cspy.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/vrpy/subproblem_cspy.py b/vrpy/subproblem_cspy.py
index 67cf9e9..0a42daa 100644
--- a/vrpy/subproblem_cspy.py
+++ b/vrpy/subproblem_cspy.py
@@ -340,13 +340,10 @@ class _SubProblemCSPY(_SubProblemBase):
         route_id = "{}_{}".format(len(self.routes) + 1, e)
         new_route = DiGraph(name=route_id, path=path)
         add_path(new_route, path)
-        # An edge may be used more than once if the path is not elementary
-        total_cost = sum(
-            self.sub_G.edges[i, j]["cost"][self.vehicle_type]
-            for (i, j) in zip(path[:-1], path[1:])
-        )
+        total_cost = 0
         for (i, j) in new_route.edges():
             edge_cost = self.sub_G.edges[i, j]["cost"][self.vehicle_type]
+            total_cost += edge_cost
             new_route.edges[i, j]["cost"] = edge_cost
             if i != "Source":
                 self.routes_with_node[i].append(new_route)
-- 
2.43.0


From 970ce81a04ee756678ba5b5108c7d5f1cd610c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:57 +0000
Subject: [PATCH 42/49] fix: dive fails if all costs are zero

---
 vrpy/restricted_master_heuristics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vrpy/restricted_master_heuristics.py b/vrpy/restricted_master_heuristics.py
index 1ce25ed..2cecd8a 100644
--- a/vrpy/restricted_master_heuristics.py
+++ b/vrpy/restricted_master_heuristics.py
@@ -41,7 +41,8 @@ class _DivingHeuristic:
             non_integer_vars = [
                 var
                 for var in relax.variables()
-                if abs(var.varValue - round(var.varValue)) != 0
+                if var.varValue is not None
+                and abs(var.varValue - round(var.varValue)) != 0
             ]
             # All non-integer variables not already fixed in this or any
             # iteration of the diving heuristic
-- 
2.43.0


From 41ec42e15fea3abb50afcf317726b64cfa367b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:10 +0000
Subject: [PATCH 43/49] fix: dive fails if the first column cannot be fixed

---
 vrpy/restricted_master_heuristics.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/vrpy/restricted_master_heuristics.py b/vrpy/restricted_master_heuristics.py
index 2cecd8a..4e2f7ec 100644
--- a/vrpy/restricted_master_heuristics.py
+++ b/vrpy/restricted_master_heuristics.py
@@ -32,9 +32,6 @@ class _DivingHeuristic:
     def run_dive(self, prob):
         tabu_list = []
         relax = prob.deepcopy()
-        # Init current_node
-        if self.current_node.parent is None:
-            self.current_node.parent = relax
         lp_node = _LPNode(self.current_node)
         constrs = {}
         while self.depth <= self.max_depth and len(tabu_list) < self.max_discrepancy:
@@ -81,7 +78,7 @@ class _DivingHeuristic:
                 if relax.status == 1:
                     prob.extend(constrs)
                     self.current_node = lp_node
-                else:
+                elif self.current_node.parent is not None:
                     # Backtrack
                     self.current_node = self.current_node.parent
                 logger.info(
-- 
2.43.0


From cac82b79fcad31276bb4e3646d88a27d619926e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:34 +0000
Subject: [PATCH 44/49] fix: node names with spaces or hyphens fail

---
 vrpy/master_solve_pulp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrpy/master_solve_pulp.py b/vrpy/master_solve_pulp.py
index d78fa91..a43003a 100644
--- a/vrpy/master_solve_pulp.py
+++ b/vrpy/master_solve_pulp.py
@@ -98,7 +98,7 @@ class _MasterSolvePulp(_MasterProblemBase):
                 and "depot_from" not in self.G.nodes[node]
                 and "depot_to" not in self.G.nodes[node]
             ):
-                constr_name = "visit_node_%s" % node
+                constr_name = self.set_covering_constrs[node].name
                 if not relax:
                     duals[node] = self.prob.constraints[constr_name].pi
                 else:
-- 
2.43.0


From ff0d4173ed10bc490c9bb5848d3792656d5a9fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:42 +0000
Subject: [PATCH 45/49] fix: no schedule is computed once the time limit has
 passed

---
 vrpy/vrp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 6de9518..007f482 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -1277,6 +1277,6 @@ class VehicleRoutingProblem:
                 self._num_vehicles_schedule,
                 solver,
             )
-            schedule.solve(self._get_time_remaining())
+            schedule.solve(self._get_time_remaining(mip=True))
             self._schedule = schedule.routes_per_day
         self.comp_time = time() - self._start_time
-- 
2.43.0


From 491efe0e80872a7b6ae7218a0c7490ba95bb7f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:21 +0000
Subject: [PATCH 46/49] fix: minimizing the global span fails once the time
 limit has passed

---
 vrpy/vrp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 007f482..973877c 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -575,8 +575,10 @@ class VehicleRoutingProblem:
             if self.hyper_heuristic:
                 self.hyper_heuristic.init(relaxed_cost)
         else:
+            # When minimizing the global span, the relaxed problem is a MIP too
             duals, relaxed_cost = self.masterproblem.solve(
-                relax=True, time_limit=self._get_time_remaining()
+                relax=True,
+                time_limit=self._get_time_remaining(mip=self.minimize_global_span),
             )
         logger.info("iteration %s, %.6s" % (self._iteration, relaxed_cost))
         pricing_strategy = self._get_next_pricing_strategy(relaxed_cost)
-- 
2.43.0


From a5c300b9b20e909be8f6b1e26b2094ca417c9fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:21 +0000
Subject: [PATCH 47/49] fix: values of an interrupted solver are taken for a
 solution

---
 vrpy/master_solve_pulp.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/vrpy/master_solve_pulp.py b/vrpy/master_solve_pulp.py
index a43003a..aa1daab 100644
--- a/vrpy/master_solve_pulp.py
+++ b/vrpy/master_solve_pulp.py
@@ -52,6 +52,13 @@ class _MasterSolvePulp(_MasterProblemBase):
 
         if pulp.LpStatus[self.prob.status] != "Optimal":
             raise Exception("problem " + str(pulp.LpStatus[self.prob.status]))
+        # If the solver is stopped by the time limit, there may be no solution at all
+        if (
+            not relax
+            and self.prob.sol_status == pulp.LpSolutionIntegerFeasible
+            and not self.prob.valid(1e-3)
+        ):
+            raise Exception("problem " + str(pulp.LpStatus[pulp.LpStatusNotSolved]))
         # This logging takes time
         # if relax:
         #     for r in self.routes:
-- 
2.43.0


From 2f6e63f050a5475e62d8a3d3d9b0556e3e47472d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:35 +0000
Subject: [PATCH 48/49] fix: greedy pricing regenerates the same columns with
 tight fleet limits

---
 vrpy/vrp.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/vrpy/vrp.py b/vrpy/vrp.py
index 973877c..359afc9 100644
--- a/vrpy/vrp.py
+++ b/vrpy/vrp.py
@@ -597,8 +597,12 @@ class VehicleRoutingProblem:
                 and not self.minimize_global_span
             ):
                 subproblem = self._def_subproblem(duals, vehicle, greedy=True)
+                columns = list(self._routes)
                 self.routes, self._more_routes = subproblem.solve(n_runs=20)
-                greedy_routes = self._more_routes
+                greedy_routes = any(
+                    not self._is_duplicate(r, columns)
+                    for r in self.routes[len(columns) :]
+                )
                 # Add initial_routes
                 if self._more_routes:
                     for r in (
@@ -627,7 +631,7 @@ class VehicleRoutingProblem:
             if (
                 self._more_routes
                 and (self._dive or not greedy_routes)
-                and self._is_duplicate(self.routes[-1])
+                and self._is_duplicate(self.routes[-1], self._routes)
             ):
                 # The duals ignore the columns fixed by the diving heuristic, and
                 # are not accurate if they come from the vehicle bound penalty
@@ -649,12 +653,12 @@ class VehicleRoutingProblem:
         if not self._dive:
             self._lower_bound.append(relaxed_cost)
 
-    def _is_duplicate(self, route):
+    def _is_duplicate(self, route, columns):
         """True if the same route (and vehicle type) is already a column."""
         return any(
             r.graph["vehicle_type"] == route.graph["vehicle_type"]
             and set(r.edges()) == set(route.edges())
-            for r in self._routes
+            for r in columns
             if r is not route
         )
 
-- 
2.43.0


From 0fe000a696a4d1be2fb8f330e511a2a8432393b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:33 +0000
Subject: [PATCH 49/49] fix: the route without customers may enter the pool of
 columns

---
 vrpy/subproblem_cspy.py   | 7 ++++++-
 vrpy/subproblem_greedy.py | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/vrpy/subproblem_cspy.py b/vrpy/subproblem_cspy.py
index 0a42daa..5db5c9e 100644
--- a/vrpy/subproblem_cspy.py
+++ b/vrpy/subproblem_cspy.py
@@ -279,7 +279,12 @@ class _SubProblemCSPY(_SubProblemBase):
             logger.debug("cost = %s", alg.total_cost)
             logger.debug("resources = %s", alg.consumed_resources)
 
-            if alg.total_cost is not None and alg.total_cost < -(1e-3):
+            # The route without customers is not a column
+            if (
+                alg.total_cost is not None
+                and alg.total_cost < -(1e-3)
+                and len(alg.path) > 2
+            ):
                 new_route = self.create_new_route(alg.path)
                 logger.debug(alg.path)
                 path_len = len(alg.path)
diff --git a/vrpy/subproblem_greedy.py b/vrpy/subproblem_greedy.py
index 9eb3528..c60abfd 100644
--- a/vrpy/subproblem_greedy.py
+++ b/vrpy/subproblem_greedy.py
@@ -172,7 +172,7 @@ class _SubProblemGreedy(_SubProblemBase):
 
     def _check_source_sink(self, v):
         """Checks if edge Source Sink."""
-        return self._last_node == "Source" and v == "Sink"
+        return {self._last_node, v} == {"Source", "Sink"}
 
     def _check_capacity(self, v):
         """Checks capacity constraint."""
-- 
2.43.0

