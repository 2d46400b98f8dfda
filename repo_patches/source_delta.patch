From 9fb33e2fc13f870d0884aaba582e7aa62347d8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:49 +0000
Subject: [PATCH 01/49] fix: place the nodes of lines whose segments have
 different numbers of divisions

The index of the first cell of a segment was computed from that segment's own
number of divisions, so unequal segments overwrote each other and left nodes
uninitialised.
---
 python/src/mtl.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index 21d34eb..42b9230 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -109,12 +109,14 @@ class MTL():
 
         assert (node_positions.shape[0] == len(ndiv) + 1)
         
+        first = 0
         for i, divisions in enumerate(ndiv):
             du = (node_positions[i+1]-node_positions[i])/divisions
             for k in range(divisions):
-                self.u[i*divisions + k]  = node_positions[i]+k*du
-                self.du[i*divisions + k] = du
-                self.du_norm[i*divisions + k] = np.linalg.norm(du)*np.eye(self.number_of_conductors)
+                self.u[first + k]  = node_positions[i]+k*du
+                self.du[first + k] = du
+                self.du_norm[first + k] = np.linalg.norm(du)*np.eye(self.number_of_conductors)
+            first += divisions
         self.u[-1] = node_positions[-1]
 
         self.time = 0.0
-- 
2.43.0


From 87b490a2b21228f6936979d882840aa51c6905b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:57 +0000
Subject: [PATCH 02/49] fix: attach network nodes to the conductors of their
 own cable

NetworkD shifted every node by the conductors of the levels above, so the nodes
of the second and later cables of a level landed on the first one; it added the
shift again each time the network was added to a manager, used a single level
for all the nodes of a network, and add_networks skipped it altogether.
---
 python/src/mtl.py      | 9 +++++++++
 python/src/mtln.py     | 2 +-
 python/src/networks.py | 7 ++++---
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index 42b9230..58441dc 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -711,6 +711,15 @@ class MTLD:
         self.v_sources.fill(lambda t : 0)
 
 
+    def get_first_conductor(self, line):
+        conductors = 0
+        for lines in self.levels.values():
+            for l in lines:
+                if l is line:
+                    return conductors
+                conductors += l.number_of_conductors
+        raise ValueError("Line " + line.name + " is not part of bundle " + self.name)
+
     def add_localized_longitudinal_field(self, start: np.ndarray, end: np.ndarray, conductor: int, magnitude, source_type :str):
         if (type(start) == float):
             start = np.array([0.0,0.0,start])
diff --git a/python/src/mtln.py b/python/src/mtln.py
index 8a47219..ad5e9a6 100644
--- a/python/src/mtln.py
+++ b/python/src/mtln.py
@@ -35,7 +35,7 @@ class MTLN:
 
     def add_networks(self, nw: list):
         for n in nw:
-            self.networks.append(n)
+            self.add_network(n)
         
     def get_time_range(self, final_time):
         return np.arange(0, np.floor(final_time / self.dt))
diff --git a/python/src/networks.py b/python/src/networks.py
index abda1d4..269f5b2 100644
--- a/python/src/networks.py
+++ b/python/src/networks.py
@@ -125,7 +125,9 @@ class Network:
         self.e_T = np.append(self.e_T, line.e_T[connection[1]][side_idx])
 
         self.connections[connection[0]] = {
+            "line" : line,
             "line_name" : line.name, 
+            "conductor" : connection[1],
             "line_index" : connection[1], 
             "side" : side_idx, 
             "index": index, 
@@ -273,11 +275,10 @@ class NetworkD:
         self.levels = levels
 
     def update_index_numbers(self, bundles):
-        for level, nw in self.levels.items():
+        for nw in self.levels.values():
             for node in nw.connections.values():
                 bundle = bundles[node["bundle_name"]]
-                conductors_above = sum(bundle.conductors_in_level[0:level])
-                node["line_index"] += conductors_above
+                node["line_index"] = bundle.get_first_conductor(node["line"]) + node["conductor"]
 
     def update_sources(self, time, dt):
         for nw in self.levels.values():
-- 
2.43.0


From c859ebb6efb3526b5972bd685375a65033e2b52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:40 +0000
Subject: [PATCH 03/49] fix: let elements and sources add up at a network node

Grounding a node overwrote the conductance another element had already put on
it, so the result depended on the order of the calls, and two sources at one
node were summed before being weighted with both conductances. Every source now
has its own column.
---
 python/src/networks.py | 53 ++++++++++++++++++++++--------------------
 1 file changed, 28 insertions(+), 25 deletions(-)

diff --git a/python/src/networks.py b/python/src/networks.py
index 269f5b2..62f0fe4 100644
--- a/python/src/networks.py
+++ b/python/src/networks.py
@@ -7,7 +7,6 @@ from types import FunctionType
 from typing import Dict
 
 import src.mtl as mtl
-from src.utils import add_t_functions as add
 
 class Network:
     """
@@ -35,18 +34,17 @@ class Network:
         self.nw_v_prev = self.nw_v
 
         self.P1 = np.zeros([self.number_of_nodes, self.number_of_nodes])
-        self.Ps = np.zeros([self.number_of_nodes, self.number_of_nodes])
+        self.Ps = np.zeros([self.number_of_nodes, 0])
 
         self.M = np.zeros([self.number_of_state_vars, self.number_of_state_vars])
         self.N1 = np.zeros([self.number_of_state_vars, self.number_of_nodes])
-        self.Ns = np.zeros([self.number_of_state_vars, self.number_of_nodes])
+        self.Ns = np.zeros([self.number_of_state_vars, 0])
         self.O = np.zeros([self.number_of_nodes, self.number_of_state_vars])
 
         self.Q1 = np.zeros([self.number_of_nodes, self.number_of_nodes])
-        self.Qs = np.zeros([self.number_of_nodes, self.number_of_nodes])
+        self.Qs = np.zeros([self.number_of_nodes, 0])
 
-        self.v_sources = np.empty(shape=(self.number_of_nodes), dtype=object)
-        self.v_sources.fill(lambda t: 0)
+        self.v_sources = np.empty(shape=(0), dtype=object)
 
         
     def _get_number_of_state_vars_in_connector(self, connection):
@@ -135,23 +133,30 @@ class Network:
             "state_index" : state_index
         }
             
+    def _add_source(self, Vt):
+        self.v_sources = np.append(self.v_sources, Vt)
+        self.Ps = np.append(self.Ps, np.zeros([self.number_of_nodes, 1]), axis=1)
+        self.Qs = np.append(self.Qs, np.zeros([self.number_of_nodes, 1]), axis=1)
+        self.Ns = np.append(self.Ns, np.zeros([self.number_of_state_vars, 1]), axis=1)
+        return self.v_sources.shape[0] - 1
+
     def connect_to_ground(self, node: int, R = 0, Vt = 0):
         assert(node in self.connections.keys())
         index = self.connections[node]["index"]
         if (R != 0):
-            self.P1[index, index] = -1/R
+            self.P1[index, index] += -1/R
         if (Vt != 0):
-            self.v_sources[index]  = Vt
-            self.Ps[index, index] = 1/R
+            source = self._add_source(Vt)
+            self.Ps[index, source] = 1/R
 
     def connect_to_ground_R(self, node: int, R = 0, Vt = 0):
         assert(node in self.connections.keys())
         index = self.connections[node]["index"]
         if (R != 0):
-            self.P1[index, index] = -1/R
+            self.P1[index, index] += -1/R
         if (Vt != 0):
-            self.v_sources[index]  = Vt
-            self.Ps[index, index] = 1/R
+            source = self._add_source(Vt)
+            self.Ps[index, source] = 1/R
 
     def connect_to_ground_LCpRs(self, node: int, R = 0, L = 0, C = 0, Vt = 0):
         assert(node in self.connections.keys())
@@ -161,26 +166,26 @@ class Network:
         self.M[x_index[0]:x_index[-1]+1,x_index[0]:x_index[-1]+1] = np.array([[1/(R*C),1/C],[-1/L, 0.0]])
         self.N1[x_index[0]:x_index[-1]+1, index] = np.array([[-1/(R*C) ,0]])
         self.O[index, x_index[0]:x_index[-1]+1] = np.array([[1/R ,0]])
-        self.P1[index, index] = -1/R
+        self.P1[index, index] += -1/R
 
         if (Vt != 0):
-            self.v_sources[index]  = Vt
-            self.Ps[index, index] = 1/R
-            self.Ns[x_index[0]:x_index[-1]+1, index] = np.array([[1/(R*C) ,0]])
+            source = self._add_source(Vt)
+            self.Ps[index, source] = 1/R
+            self.Ns[x_index[0]:x_index[-1]+1, source] = np.array([[1/(R*C) ,0]])
 
     def connect_to_ground_C(self, node: int, C = 0, Vt = 0):
         assert(node in self.connections.keys())
         index = self.connections[node]["index"]
         if (C != 0):
-            self.Q1[index, index] = -C
+            self.Q1[index, index] += -C
         if (Vt != 0):
-            self.v_sources[index]  = Vt
-            self.Qs[index, index] = C
+            source = self._add_source(Vt)
+            self.Qs[index, source] = C
 
     def short_to_ground(self, node: int):
         assert(node in self.connections.keys())
         index = self.connections[node]["index"]
-        self.P1[index, index] = -1e10
+        self.P1[index, index] += -1e10
             
     def connect_nodes(self, node1: int, node2: int, R, Vt = 0):
         assert(node1 in self.connections.keys() and node2 in self.connections.keys())
@@ -193,11 +198,9 @@ class Network:
             self.P1[index2, index1] += 1/R
             self.P1[index2, index2] += -1/R
             if (Vt != 0):
-                self.Ps[index1, index1] +=  1/R 
-                self.Ps[index2, index2] += -1/R
-                
-                self.v_sources[index1]  = add(self.v_sources[index1],Vt)
-                self.v_sources[index2]  = add(self.v_sources[index2],Vt)
+                source = self._add_source(Vt)
+                self.Ps[index1, source] =  1/R 
+                self.Ps[index2, source] = -1/R
       
     def short_nodes(self, node1: int, node2: int):
         index1 = self.connections[node1]["index"]
-- 
2.43.0


From 8a0ba05fc8b7b1493339e6ecb9baa1607a18c1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:41 +0000
Subject: [PATCH 04/49] fix: advance every bundle with the time step of the
 network

Bundles with a larger maximum step kept their own when no step was given, so
they ran on a different clock than the networks joining them.
---
 python/src/mtln.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/src/mtln.py b/python/src/mtln.py
index ad5e9a6..5f8fe63 100644
--- a/python/src/mtln.py
+++ b/python/src/mtln.py
@@ -65,8 +65,8 @@ class MTLN:
         
         if (dt !=0):
             self.dt = dt
-            for bundle in self.bundles.values():
-                bundle.dt = dt
+        for bundle in self.bundles.values():
+            bundle.dt = self.dt
         
         self.compute_nw_v_terms()
         
-- 
2.43.0


From d90b4b36240ed85c85e49983d60d77cd821c564f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:45 +0000
Subject: [PATCH 05/49] fix: refresh terminations and probe clocks when the
 time step has changed

The terminal coefficients of a line and the half-step shift of current probes
kept the time step that was in force when they were created.
---
 python/src/mtl.py  | 2 ++
 python/src/mtln.py | 1 +
 2 files changed, 3 insertions(+)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index 58441dc..6d2c602 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -595,8 +595,10 @@ class MTL():
         t = self.get_time_range(finalTime)
         self.update_lr_terms()
         self.update_cg_terms()
+        self.compute_terminal_terms()
 
         for p in self.probes:
+            p.dt = self.dt
             p.resize_frames(len(t), self.number_of_conductors)
 
         for _ in t:
diff --git a/python/src/mtln.py b/python/src/mtln.py
index 5f8fe63..622dcdc 100644
--- a/python/src/mtln.py
+++ b/python/src/mtln.py
@@ -75,6 +75,7 @@ class MTLN:
             bundle.update_lr_terms()
             bundle.update_cg_terms()
             for p in bundle.probes:
+                p.dt = self.dt
                 p.resize_frames(len(t), bundle.number_of_conductors)
 
         for _ in t:
-- 
2.43.0


From 9ae18362e2542ed185b05dbcef0c0a9401e7fe1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:34 +0000
Subject: [PATCH 06/49] fix: signs of the state equations of the LCpRs
 termination

The capacitor of the parallel LC group was charged by the opposite of the
current of its branch, which made a passive termination deliver energy.
---
 python/src/networks.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/src/networks.py b/python/src/networks.py
index 62f0fe4..ea950c4 100644
--- a/python/src/networks.py
+++ b/python/src/networks.py
@@ -163,15 +163,15 @@ class Network:
         index = self.connections[node]["index"]
         x_index = self.connections[node]["state_index"]
         assert (R >= 0 and L >= 0 and C<1e22)
-        self.M[x_index[0]:x_index[-1]+1,x_index[0]:x_index[-1]+1] = np.array([[1/(R*C),1/C],[-1/L, 0.0]])
-        self.N1[x_index[0]:x_index[-1]+1, index] = np.array([[-1/(R*C) ,0]])
+        self.M[x_index[0]:x_index[-1]+1,x_index[0]:x_index[-1]+1] = np.array([[-1/(R*C),1/C],[-1/L, 0.0]])
+        self.N1[x_index[0]:x_index[-1]+1, index] = np.array([[1/(R*C) ,0]])
         self.O[index, x_index[0]:x_index[-1]+1] = np.array([[1/R ,0]])
         self.P1[index, index] += -1/R
 
         if (Vt != 0):
             source = self._add_source(Vt)
             self.Ps[index, source] = 1/R
-            self.Ns[x_index[0]:x_index[-1]+1, source] = np.array([[1/(R*C) ,0]])
+            self.Ns[x_index[0]:x_index[-1]+1, source] = np.array([[-1/(R*C) ,0]])
 
     def connect_to_ground_C(self, node: int, C = 0, Vt = 0):
         assert(node in self.connections.keys())
-- 
2.43.0


From c929c636a78935cc4ea1d409efc8fd5d9f03c9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:50 +0000
Subject: [PATCH 07/49] fix: network nodes see the conductance and the external
 field of their lines

The half cells at a network node ignored the shunt conductance of the line, and
the transverse field was read from the line when the network was built, so a
field added to the bundle never reached the terminations.
---
 python/src/mtln.py     |  1 +
 python/src/networks.py | 19 +++++++++++++++++--
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/python/src/mtln.py b/python/src/mtln.py
index 622dcdc..0aba72b 100644
--- a/python/src/mtln.py
+++ b/python/src/mtln.py
@@ -42,6 +42,7 @@ class MTLN:
 
     def compute_nw_v_terms(self):
         for nw in self.networks:
+            nw.update_bundle_terms(self.bundles)
             nw.compute_v_terms(self.dt)
 
     def update_probes(self):
diff --git a/python/src/networks.py b/python/src/networks.py
index ea950c4..f39a560 100644
--- a/python/src/networks.py
+++ b/python/src/networks.py
@@ -18,6 +18,7 @@ class Network:
         self.number_of_state_vars = 0
         self.connections : Dict[int, Dict[str, int, int, int, str]] = {}
         self.c : npt.NDArray[np.float64] = np.ndarray(shape=(0,0))
+        self.g : npt.NDArray[np.float64] = np.ndarray(shape=(0,0))
         self.nw_v = np.zeros([0])
         self.nw_i = np.zeros([0])
         self.dx : npt.NDArray[np.float64] = np.ndarray(shape=(0,0))
@@ -99,6 +100,7 @@ class Network:
             side_idx = -1
 
         self.c = linalg.block_diag(self.c, nw_conn[0].c[side_idx])
+        self.g = linalg.block_diag(self.g, np.zeros(nw_conn[0].g[side_idx].shape))
         
         def order_by_conductor(conn):
             return conn[1]
@@ -140,6 +142,15 @@ class Network:
         self.Ns = np.append(self.Ns, np.zeros([self.number_of_state_vars, 1]), axis=1)
         return self.v_sources.shape[0] - 1
 
+    def update_bundle_terms(self, bundles):
+        # conductances and external fields can be added to the bundles after the network has been built
+        for node in self.connections.values():
+            bundle = bundles[node["bundle_name"]]
+            self.e_T[node["index"]] = bundle.e_T[node["line_index"], node["side"]]
+            for other in self.connections.values():
+                if other["line"] is node["line"]:
+                    self.g[node["index"], other["index"]] = bundle.g[node["side"], node["line_index"], other["line_index"]]
+
     def connect_to_ground(self, node: int, R = 0, Vt = 0):
         assert(node in self.connections.keys())
         index = self.connections[node]["index"]
@@ -257,11 +268,11 @@ class Network:
 
     def compute_v_terms(self, dt):
         self.A = np.block([
-            [self.dx.dot(self.c) / dt - self.P1 - self.Q1 / dt     ,  -self.O                            ],
+            [self.dx.dot(self.c / dt + self.g / 2) - self.P1 - self.Q1 / dt     ,  -self.O                            ],
             [-dt * self.N1                                         ,  np.eye(self.M.shape[0]) - dt*self.M]
         ])
         self.B1 = np.block([
-            [self.dx.dot(self.c) / dt - self.Q1 / dt   ,   np.zeros(self.O.shape)],
+            [self.dx.dot(self.c / dt - self.g / 2) - self.Q1 / dt   ,   np.zeros(self.O.shape)],
             [np.zeros(self.N1.shape)                   ,   np.eye(self.M.shape[0])]
         ])
         self.B2 = np.block([
@@ -299,6 +310,10 @@ class NetworkD:
         for nw in self.levels.values():
             nw.update_currents(bundles)
 
+    def update_bundle_terms(self, bundles):
+        for nw in self.levels.values():
+            nw.update_bundle_terms(bundles)
+
     def compute_v_terms(self, dt):
         for nw in self.levels.values():
             nw.compute_v_terms(dt)
-- 
2.43.0


From 4cc1e9e2197313361592f89c55613daedd64a331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:00 +0000
Subject: [PATCH 08/49] fix: feed the dispersive terms with the previous
 current

i_prev was another name for the array the new current is written into, so the
recursive convolution used the new current twice.
---
 python/src/mtl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index 6d2c602..e611119 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -425,7 +425,7 @@ class MTL():
         
     def advance_current(self):
         self.connectors.update_q3_phi_term()
-        i_prev = self.i
+        i_prev = self.i.copy()
         self.i[:, :] = np.einsum('...ij,...j->...i',self.i_term[:,:,:],self.i.T[:,:]).T-\
                        np.einsum('...ij,...j->...i',self.v_diff[:,:,:],(self.v[:, 1:] - self.v[:, :-1]
                                             + (self.e_T_now[:, 1:] - self.e_T_now[:, :-1])
@@ -930,7 +930,7 @@ class MTLD:
         
     def advance_current(self):
         self.transfer_impedance.update_q3_phi_term()
-        i_prev = self.i
+        i_prev = self.i.copy()
         self.i[:, :] = np.einsum('...ij,...j->...i',self.i_term[:,:,:],self.i.T[:,:]).T-\
                        np.einsum('...ij,...j->...i',self.v_diff[:,:,:],(self.v[:, 1:] - self.v[:, :-1]
                                             + (self.e_T_now[:, 1:] - self.e_T_now[:, :-1])
-- 
2.43.0


From ac75bb2da25630a1d9ed60e8aa17a3ed6dea42eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:01 +0000
Subject: [PATCH 09/49] fix: transfer impedances acting in both directions

The comparisons reduced to "in" and "out" alone, so "both" coupled nothing.
---
 python/src/dispersive.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/src/dispersive.py b/python/src/dispersive.py
index ab82ff2..782882d 100644
--- a/python/src/dispersive.py
+++ b/python/src/dispersive.py
@@ -191,7 +191,7 @@ class TransferImpedance(Dispersive):
         for i in range_out:
             for j in range_in:
 
-                if (direction == ("in" or "both")):
+                if (direction in ("in", "both")):
                     self.d[:, j, i] -= d
                     self.e[:, j, i] -= e
                     if (residues.size != 0 and poles.size != 0):
@@ -204,7 +204,7 @@ class TransferImpedance(Dispersive):
                         )
                         self.q3[:, j, i] -= np.exp(poles * self.dt)
                         
-                if (direction == ("out" or "both")):
+                if (direction in ("out", "both")):
                     self.d[:, i, j] -= d
                     self.e[:, i, j] -= e
                     if (residues.size != 0 and poles.size != 0):
@@ -263,7 +263,7 @@ class TransferImpedance(Dispersive):
         for i in range_out:
             for j in range_in:
 
-                if (direction == ("in" or "both")):
+                if (direction in ("in", "both")):
                     self.d[index, j, i] = -d
                     self.e[index, j, i] = -e
                     if (residues.size != 0 and poles.size != 0):
@@ -276,7 +276,7 @@ class TransferImpedance(Dispersive):
                         )
                         self.q3[index, j, i] = -np.exp(poles * self.dt)
                         
-                if (direction == ("out" or "both")):
+                if (direction in ("out", "both")):
                     self.d[index, i, j] = -d
                     self.e[index, i, j] = -e
                     if (residues.size != 0 and poles.size != 0):
-- 
2.43.0


From f31250ae89a817110f95e7ceb48e27030ff324e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:01 +0000
Subject: [PATCH 10/49] fix: memory of the dispersive terms, pole by pole and
 pair by pair

The convolution state was kept per conductor instead of per pair of conductors,
which mixes the poles of different elements of one cell; the state of a transfer
impedance decayed with the opposite sign, and assigning two or more poles to all
the cells spread the poles over the cells.
---
 python/src/dispersive.py | 49 +++++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 23 deletions(-)

diff --git a/python/src/dispersive.py b/python/src/dispersive.py
index 782882d..4334424 100644
--- a/python/src/dispersive.py
+++ b/python/src/dispersive.py
@@ -10,6 +10,7 @@ class Dispersive():
         self.phi = np.zeros(
             shape=(
                 nx,
+                number_of_conductors,
                 number_of_conductors
             ), dtype = np.ndarray
         )
@@ -76,14 +77,14 @@ class Dispersive():
 
     def update_q3_phi_term(self):
         for kz in range(0, self.nx):
-            self.q3_phi_term[kz] = self.v_sum(self.q3[kz].dot(self.phi[kz]))
+            self.q3_phi_term[kz] = np.sum(self.v_sum(self.q3[kz]*self.phi[kz]), axis=1)
         
     def update_phi(self, i_prev, i_now):
         for kz in range(0, self.nx):
-            self.phi[kz, :] = (
-                self.q1[kz, :, :].dot(i_now[:, kz])+\
-                self.q2[kz, :, :].dot(i_prev[:, kz])+\
-                self.q3[kz, :,:].dot(self.phi[kz, :])
+            self.phi[kz, :, :] = (
+                self.q1[kz, :, :]*i_now[:, kz]+\
+                self.q2[kz, :, :]*i_prev[:, kz]+\
+                self.q3[kz, :, :]*self.phi[kz, :, :]
             )
 
         
@@ -195,27 +196,29 @@ class TransferImpedance(Dispersive):
                     self.d[:, j, i] -= d
                     self.e[:, j, i] -= e
                     if (residues.size != 0 and poles.size != 0):
-                        self.q1[:, j, i] += (residues / poles) * (
-                            1 - (np.exp(poles * self.dt) - 1) / (poles * self.dt)
-                        )
-                        self.q2[:, j, i] -= (residues / poles) * (
-                            1 / (poles * self.dt)
-                            + np.exp(poles * self.dt) * (1 - 1 / (poles * self.dt))
-                        )
-                        self.q3[:, j, i] -= np.exp(poles * self.dt)
+                        for k in range(self.nx):
+                            self.q1[k, j, i] += (residues / poles) * (
+                                1 - (np.exp(poles * self.dt) - 1) / (poles * self.dt)
+                            )
+                            self.q2[k, j, i] -= (residues / poles) * (
+                                1 / (poles * self.dt)
+                                + np.exp(poles * self.dt) * (1 - 1 / (poles * self.dt))
+                            )
+                            self.q3[k, j, i] += np.exp(poles * self.dt)
                         
                 if (direction in ("out", "both")):
                     self.d[:, i, j] -= d
                     self.e[:, i, j] -= e
                     if (residues.size != 0 and poles.size != 0):
-                        self.q1[:, i, j] += (residues / poles) * (
-                            1 - (np.exp(poles * self.dt) - 1) / (poles * self.dt)
-                        )
-                        self.q2[:, i, j] -= (residues / poles) * (
-                            1 / (poles * self.dt)
-                            + np.exp(poles * self.dt) * (1 - 1 / (poles * self.dt))
-                        )
-                        self.q3[:, i, j] -= np.exp(poles * self.dt)
+                        for k in range(self.nx):
+                            self.q1[k, i, j] += (residues / poles) * (
+                                1 - (np.exp(poles * self.dt) - 1) / (poles * self.dt)
+                            )
+                            self.q2[k, i, j] -= (residues / poles) * (
+                                1 / (poles * self.dt)
+                                + np.exp(poles * self.dt) * (1 - 1 / (poles * self.dt))
+                            )
+                            self.q3[k, i, j] += np.exp(poles * self.dt)
 
         self.q1sum = self.v_sum(self.q1)
         self.q2sum = self.v_sum(self.q2)
@@ -274,7 +277,7 @@ class TransferImpedance(Dispersive):
                             1 / (poles * self.dt)
                             + np.exp(poles * self.dt) * (1 - 1 / (poles * self.dt))
                         )
-                        self.q3[index, j, i] = -np.exp(poles * self.dt)
+                        self.q3[index, j, i] = np.exp(poles * self.dt)
                         
                 if (direction in ("out", "both")):
                     self.d[index, i, j] = -d
@@ -287,7 +290,7 @@ class TransferImpedance(Dispersive):
                             1 / (poles * self.dt)
                             + np.exp(poles * self.dt) * (1 - 1 / (poles * self.dt))
                         )
-                        self.q3[index, i, j] = -np.exp(poles * self.dt)
+                        self.q3[index, i, j] = np.exp(poles * self.dt)
 
         self.q1sum = self.v_sum(self.q1)
         self.q2sum = self.v_sum(self.q2)
-- 
2.43.0


From 0e9c7b38fe021f11f4f2d97a268159eb2b311303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:34 +0000
Subject: [PATCH 11/49] fix: dispersive connectors at the end of a line

The last node has no cell of its own; the connector belongs to the last cell.
---
 python/src/dispersive.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/src/dispersive.py b/python/src/dispersive.py
index 4334424..144b575 100644
--- a/python/src/dispersive.py
+++ b/python/src/dispersive.py
@@ -103,6 +103,8 @@ class DispersiveConnector(Dispersive):
             raise ValueError("Connector position is out of MTL length.")
 
         index = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - position)))
+        if (index == self.nx):
+            index -= 1
         du = np.linalg.norm(self.u[index+1]-self.u[index])
         
         d = model["cte"]/du
-- 
2.43.0


From cf5b099a2aba5caab3302f867bd423d6de895cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:25 +0000
Subject: [PATCH 12/49] fix: dispersive terms follow the time step of the
 simulation

The recursive convolution kept the coefficients of the time step in force when
the element was added, although the step can change later: when a line joins a
bundle, when the bundle runs in a network, or when a run is given its own step.
---
 python/src/dispersive.py | 75 +++++++++++++++++++---------------------
 python/src/mtl.py        | 19 +++++-----
 2 files changed, 43 insertions(+), 51 deletions(-)

diff --git a/python/src/dispersive.py b/python/src/dispersive.py
index 144b575..be8b685 100644
--- a/python/src/dispersive.py
+++ b/python/src/dispersive.py
@@ -6,6 +6,7 @@ class Dispersive():
         self.nx = nx
         self.u = u
         self.dt = dt
+        self.poles = {}
         
         self.phi = np.zeros(
             shape=(
@@ -72,6 +73,35 @@ class Dispersive():
             )
         )
     
+    def add_poles(self, index, i, j, poles, residues):
+        if (index, i, j) in self.poles:
+            poles = np.append(self.poles[(index, i, j)][0], poles)
+            residues = np.append(self.poles[(index, i, j)][1], residues)
+        self.set_poles(index, i, j, poles, residues)
+
+    def set_poles(self, index, i, j, poles, residues):
+        self.poles[(index, i, j)] = (poles, residues)
+        self.phi[index, i, j] = 0
+        self.compute_q_terms(index, i, j)
+
+    def compute_q_terms(self, index, i, j):
+        poles, residues = self.poles[(index, i, j)]
+        self.q1[index, i, j] = -(residues / poles) * (
+            1 - (np.exp(poles * self.dt) - 1) / (poles * self.dt)
+        )
+        self.q2[index, i, j] = (residues / poles) * (
+            1 / (poles * self.dt)
+            + np.exp(poles * self.dt) * (1 - 1 / (poles * self.dt))
+        )
+        self.q3[index, i, j] = np.exp(poles * self.dt)
+
+    def update_time_step(self, dt):
+        self.dt = dt
+        for index, i, j in self.poles:
+            self.compute_q_terms(index, i, j)
+        self.q1sum = self.v_sum(self.q1)
+        self.q2sum = self.v_sum(self.q2)
+
     def v_sum(self,arr:np.ndarray):
         return np.vectorize(np.sum, otypes=[float])(arr)
 
@@ -134,14 +164,7 @@ class DispersiveConnector(Dispersive):
         self.e[index, conductor, conductor] += e
 
 
-        self.q1[index, conductor, conductor] -= (residues / poles) * (
-            1 - (np.exp(poles * self.dt) - 1) / (poles * self.dt)
-        )
-        self.q2[index, conductor, conductor] += (residues / poles) * (
-            1 / (poles * self.dt)
-            + np.exp(poles * self.dt) * (1 - 1 / (poles * self.dt))
-        )
-        self.q3[index, conductor, conductor] += np.exp(poles * self.dt)
+        self.set_poles(index, conductor, conductor, poles, residues)
 
         self.q1sum = self.v_sum(self.q1)
         self.q2sum = self.v_sum(self.q2)
@@ -199,28 +222,14 @@ class TransferImpedance(Dispersive):
                     self.e[:, j, i] -= e
                     if (residues.size != 0 and poles.size != 0):
                         for k in range(self.nx):
-                            self.q1[k, j, i] += (residues / poles) * (
-                                1 - (np.exp(poles * self.dt) - 1) / (poles * self.dt)
-                            )
-                            self.q2[k, j, i] -= (residues / poles) * (
-                                1 / (poles * self.dt)
-                                + np.exp(poles * self.dt) * (1 - 1 / (poles * self.dt))
-                            )
-                            self.q3[k, j, i] += np.exp(poles * self.dt)
+                            self.add_poles(k, j, i, poles, -residues)
                         
                 if (direction in ("out", "both")):
                     self.d[:, i, j] -= d
                     self.e[:, i, j] -= e
                     if (residues.size != 0 and poles.size != 0):
                         for k in range(self.nx):
-                            self.q1[k, i, j] += (residues / poles) * (
-                                1 - (np.exp(poles * self.dt) - 1) / (poles * self.dt)
-                            )
-                            self.q2[k, i, j] -= (residues / poles) * (
-                                1 / (poles * self.dt)
-                                + np.exp(poles * self.dt) * (1 - 1 / (poles * self.dt))
-                            )
-                            self.q3[k, i, j] += np.exp(poles * self.dt)
+                            self.add_poles(k, i, j, poles, -residues)
 
         self.q1sum = self.v_sum(self.q1)
         self.q2sum = self.v_sum(self.q2)
@@ -272,27 +281,13 @@ class TransferImpedance(Dispersive):
                     self.d[index, j, i] = -d
                     self.e[index, j, i] = -e
                     if (residues.size != 0 and poles.size != 0):
-                        self.q1[index, j, i] = (residues / poles) * (
-                            1 - (np.exp(poles * self.dt) - 1) / (poles * self.dt)
-                        )
-                        self.q2[index, j, i] = -(residues / poles) * (
-                            1 / (poles * self.dt)
-                            + np.exp(poles * self.dt) * (1 - 1 / (poles * self.dt))
-                        )
-                        self.q3[index, j, i] = np.exp(poles * self.dt)
+                        self.set_poles(range(self.nx)[index], j, i, poles, -residues)
                         
                 if (direction in ("out", "both")):
                     self.d[index, i, j] = -d
                     self.e[index, i, j] = -e
                     if (residues.size != 0 and poles.size != 0):
-                        self.q1[index, i, j] = (residues / poles) * (
-                            1 - (np.exp(poles * self.dt) - 1) / (poles * self.dt)
-                        )
-                        self.q2[index, i, j] = -(residues / poles) * (
-                            1 / (poles * self.dt)
-                            + np.exp(poles * self.dt) * (1 - 1 / (poles * self.dt))
-                        )
-                        self.q3[index, i, j] = np.exp(poles * self.dt)
+                        self.set_poles(range(self.nx)[index], i, j, poles, -residues)
 
         self.q1sum = self.v_sum(self.q1)
         self.q2sum = self.v_sum(self.q2)
diff --git a/python/src/mtl.py b/python/src/mtl.py
index e611119..d03414b 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -349,6 +349,7 @@ class MTL():
 
     def update_lr_terms(self):
         
+        self.connectors.update_time_step(self.dt)
         F1 = np.einsum('...ij,...jk->...ik' , self.du_norm, (self.l/self.dt + 0.5*self.connectors.d + self.connectors.e/self.dt + 0.5*self.r + self.connectors.q1sum))
         F2 = np.einsum('...ij,...jk->...ik' , self.du_norm, (self.l/self.dt - 0.5*self.connectors.d + self.connectors.e/self.dt - 0.5*self.r - self.connectors.q2sum))
         
@@ -630,9 +631,7 @@ class MTLD:
         
 
         
-        q1 = (self.ndiv-1)*[np.ndarray(shape=(0, 0))]
-        q2 = (self.ndiv-1)*[np.ndarray(shape=(0, 0))]
-        q3 = (self.ndiv-1)*[np.ndarray(shape=(0, 0))]
+        poles = {}
         d  = (self.ndiv-1)*[np.ndarray(shape=(0, 0))]
         e  = (self.ndiv-1)*[np.ndarray(shape=(0, 0))]
         
@@ -648,6 +647,9 @@ class MTLD:
                 assert(type(line) == MTL)
                 assert(np.array_equal(self.u,line.u))
             
+                for (k, i, j), terms in line.connectors.poles.items():
+                    poles[(k, self.number_of_conductors + i, self.number_of_conductors + j)] = terms
+
                 conductors += line.l.shape[1]
                 self.number_of_conductors += line.l.shape[1]
 
@@ -660,9 +662,6 @@ class MTLD:
                     R[k] = linalg.block_diag(R[k], line.r[k])
                     G[k] = linalg.block_diag(G[k], line.g[k])
                     
-                    q1[k]  = linalg.block_diag(q1[k], line.connectors.q1[k])
-                    q2[k]  = linalg.block_diag(q2[k], line.connectors.q2[k])
-                    q3[k]  = linalg.block_diag(q3[k], line.connectors.q3[k])
                     d[k]   = linalg.block_diag(d[k], line.connectors.d[k])
                     e[k]   = linalg.block_diag(e[k], line.connectors.e[k])
                     
@@ -686,14 +685,11 @@ class MTLD:
         self.g[0:self.ndiv] = G[0:self.ndiv]
 
         self.transfer_impedance = TransferImpedance(self.number_of_conductors, self.ndiv - 1, self.u, self.dt)
-        self.transfer_impedance.q1[0:self.ndiv-1] = q1[0:self.ndiv-1]
-        self.transfer_impedance.q2[0:self.ndiv-1] = q2[0:self.ndiv-1]
-        self.transfer_impedance.q3[0:self.ndiv-1] = q3[0:self.ndiv-1]
+        self.transfer_impedance.poles = poles
         self.transfer_impedance.d[0:self.ndiv-1]  = d[0:self.ndiv-1]
         self.transfer_impedance.e[0:self.ndiv-1]  = e[0:self.ndiv-1]
 
-        self.transfer_impedance.q1sum = self.transfer_impedance.v_sum(self.transfer_impedance.q1)
-        self.transfer_impedance.q2sum = self.transfer_impedance.v_sum(self.transfer_impedance.q2)
+        self.transfer_impedance.update_time_step(self.dt)
 
         self.v = np.zeros([self.number_of_conductors, self.ndiv])
         self.i = np.zeros([self.number_of_conductors, self.ndiv-1])
@@ -817,6 +813,7 @@ class MTLD:
 
     def update_lr_terms(self):
         
+        self.transfer_impedance.update_time_step(self.dt)
         F1 = np.einsum('...ij,...jk->...ik' , 
                        self.du_norm, 
                        (self.l/self.dt + 0.5*self.transfer_impedance.d + self.transfer_impedance.e/self.dt + 0.5*self.r + self.transfer_impedance.q1sum))
-- 
2.43.0


From a0e32c49de9f7c8da5b03115003d5a2e21a7a658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:28 +0000
Subject: [PATCH 13/49] fix: losses set over a region reach the conductor and
 the cells asked for

Chained indexing picked a row of one cell instead of one conductor of every cell
and failed for any conductor but the first; the conductance was located on the
flattened coordinates, the regions were a cell too long or their length a chord,
and positions given as arrays could not be compared.
---
 python/src/mtl.py | 55 ++++++++++++++++++++++-------------------------
 1 file changed, 26 insertions(+), 29 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index d03414b..6883953 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -376,7 +376,6 @@ class MTL():
         self.set_resistance_in_region(position, position, conductor, resistance)
         
     def set_resistance_in_region(self, start, end, conductor, resistance):
-        assert(end >= start)
         if (type(start) == float):
             start = np.array([0.0,0.0,start])
         if (type(end) == float):
@@ -384,16 +383,14 @@ class MTL():
 
         index1 = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - start)))
         index2 = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - end)))
+        assert(index2 >= index1)
         
-        if (index1 == self.r.shape[0]):
-            index1 -= 1
-        if (index2 == self.r.shape[0]):
-            index2 -= 1
+        if (index1 == index2):
+            index1 = min(index1, self.r.shape[0] - 1)
+            index2 = index1 + 1
         
-        if (index1 != index2):
-            self.r[index1:index2+1][conductor][conductor] = resistance/np.linalg.norm(self.u[index2]-self.u[index1])
-        else:
-            self.r[index1:index2+1][conductor][conductor] = resistance/np.linalg.norm(self.du[index1])
+        length = np.sum(np.linalg.norm(self.du[index1:index2], axis=1))
+        self.r[index1:index2, conductor, conductor] = resistance/length
             
         self.update_lr_terms()
 
@@ -401,21 +398,21 @@ class MTL():
         self.add_conductance_in_region(position, position, conductor, conductance)
         
     def add_conductance_in_region(self, begin, end, conductor, conductance):
-        assert(end >= begin)
-
         if (type(begin) == float):
             begin = np.array([0.0,0.0,begin])
         if (type(end) == float):
             end = np.array([0.0,0.0,end])
 
-        index1 = np.argmin(np.abs(self.u - begin))
-        index2 = np.argmin(np.abs(self.u - end))
-        if (index1 != index2):
-            self.g[index1:index2+1][conductor][conductor] = conductance/np.linalg.norm(self.u[index2]-self.u[index1])
-        else:
-            self.g[index1:index2+1][conductor][conductor] = conductance/np.linalg.norm(self.du[index1])
+        index1 = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - begin)))
+        index2 = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - end)))
+        assert(index2 >= index1)
+
+        du = np.linalg.norm(self.du, axis=1)
+        node_length = 0.5*(np.append(du, 0.0) + np.append(0.0, du))
+        self.g[index1:index2+1, conductor, conductor] = conductance/np.sum(node_length[index1:index2+1])
             
         self.update_cg_terms()
+        self.compute_terminal_terms()
 
 
     def advance_voltage(self):
@@ -972,7 +969,6 @@ class MTLD:
             index, transfer_impedance)
 
     def set_resistance_in_region(self, start, end, conductor, resistance):
-        assert(end >= start)
         if (type(start) == float):
             start = np.array([0.0,0.0,start])
         if (type(end) == float):
@@ -980,17 +976,18 @@ class MTLD:
 
         index1 = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - start)))
         index2 = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - end)))
+        assert(index2 >= index1)
         
-        if (index1 != index2):
-            self.r[index1:index2+1][conductor][conductor] = resistance/np.linalg.norm(self.u[index2]-self.u[index1])
-        else:
-            self.r[index1:index2+1][conductor][conductor] = resistance/np.linalg.norm(self.du[index1])
+        if (index1 == index2):
+            index1 = min(index1, self.r.shape[0] - 1)
+            index2 = index1 + 1
+        
+        length = np.sum(np.linalg.norm(self.du[index1:index2], axis=1))
+        self.r[index1:index2, conductor, conductor] = resistance/length
             
         self.update_lr_terms()
 
     def add_conductance_in_region(self, start, end, conductor, conductance):
-        assert(end >= start)
-
         if (type(start) == float):
             start = np.array([0.0,0.0,start])
         if (type(end) == float):
@@ -998,11 +995,11 @@ class MTLD:
 
         index1 = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - start)))
         index2 = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - end)))
-        
-        if (index1 != index2):
-            self.g[index1:index2+1][conductor][conductor] = conductance/np.linalg.norm(self.u[index2]-self.u[index1])
-        else:
-            self.g[index1:index2+1][conductor][conductor] = conductance/np.linalg.norm(self.du[index1])
+        assert(index2 >= index1)
+
+        du = np.linalg.norm(self.du, axis=1)
+        node_length = 0.5*(np.append(du, 0.0) + np.append(0.0, du))
+        self.g[index1:index2+1, conductor, conductor] = conductance/np.sum(node_length[index1:index2+1])
             
         self.update_cg_terms()
 
-- 
2.43.0


From f00d0c925035e4cf2c2771f1293479f52412f41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:40 +0000
Subject: [PATCH 14/49] fix: accept positions on lines that run against an axis

Positions were compared with the first and the last node as if every coordinate
grew along the line, so probes, connectors and sources on lines drawn the other
way, or bending back, were refused.
---
 python/src/dispersive.py | 2 +-
 python/src/mtl.py        | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/src/dispersive.py b/python/src/dispersive.py
index be8b685..66ec6b1 100644
--- a/python/src/dispersive.py
+++ b/python/src/dispersive.py
@@ -129,7 +129,7 @@ class DispersiveConnector(Dispersive):
         conductor,
         model :dict 
     ):
-        if (np.any(position > self.u[-1])) or np.any((position < self.u[0])):
+        if (np.any(position > np.max(self.u, axis=0))) or np.any((position < np.min(self.u, axis=0))):
             raise ValueError("Connector position is out of MTL length.")
 
         index = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - position)))
diff --git a/python/src/mtl.py b/python/src/mtl.py
index 6883953..e5c5f33 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -510,7 +510,7 @@ class MTL():
         if (type(position) == float):
             position = np.array([0.0,0.0,position])
         
-        if (np.any(position > self.u[-1])) or np.any((position < self.u[0])):
+        if (np.any(position > np.max(self.u, axis=0))) or np.any((position < np.min(self.u, axis=0))):
             raise ValueError("Probe position is out of MTL length.")
 
         probe = Probe(position, probe_type, self.dt, self.u)
@@ -722,7 +722,7 @@ class MTLD:
             end = np.array([0.0,0.0,end])
 
         for position in [start,end]:
-            if (np.any(position > self.u[-1])) or np.any((position < self.u[0])):
+            if (np.any(position > np.max(self.u, axis=0))) or np.any((position < np.min(self.u, axis=0))):
                 raise ValueError("Probe position is out of MTL length.")
 
         start_index = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - start)))
-- 
2.43.0


From cd8eb953cceea1e397979b23246085b77d0b3222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:15 +0000
Subject: [PATCH 15/49] fix: drive exactly the stretch between the two ends of
 a distributed source

---
 python/src/mtl.py | 57 +++++++++--------------------------------------
 1 file changed, 11 insertions(+), 46 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index e5c5f33..4950e2f 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -728,54 +728,19 @@ class MTLD:
         start_index = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - start)))
         end_index   = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - end)))
         
+        lengths = np.linalg.norm(self.du, axis=1)
+        cell_start = np.cumsum(lengths) - lengths
+
+        def distance_along_line(position):
+            s = np.clip(np.sum((position - self.u[:-1])*self.du, axis=1)/lengths**2, 0.0, 1.0)
+            cell = np.argmin(np.linalg.norm(self.u[:-1] + s[:,np.newaxis]*self.du - position, axis=1))
+            return cell_start[cell] + s[cell]*lengths[cell]
+
+        covered = np.minimum(cell_start + lengths, distance_along_line(end)) - np.maximum(cell_start, distance_along_line(start))
         source_factor = {}
-        for index in range(start_index, end_index):
-            source_factor[index]  = 1.0
+        for index in np.nonzero(covered > 1e-10)[0]:
+            source_factor[index] = covered[index]/lengths[index]
         
-        if (np.linalg.norm(np.abs(start - self.u[start_index])) > 1e-10) and start_index != 0:
-            
-            du = start-self.u[start_index]
-            cross_prev = np.linalg.norm(np.cross(self.du[start_index-1], du))
-            cross_curr = np.linalg.norm(np.cross(self.du[start_index], du))
-            
-            if (cross_prev < 1e-10 and cross_curr < 1e-10):
-                if (du.dot(self.du[start_index]) < 0):
-                    frac = np.linalg.norm(np.abs(start - self.u[start_index]))/np.linalg.norm(self.du[start_index-1])
-                    source_factor[start_index-1] = frac
-                elif (du.dot(self.du[start_index]) > 0):
-                    frac = 1 - np.linalg.norm(np.abs(start - self.u[start_index]))/np.linalg.norm(self.du[start_index])
-                    source_factor[start_index] = frac
-            
-            elif (cross_prev < 1e-10):
-                frac = np.linalg.norm(np.abs(start - self.u[start_index]))/np.linalg.norm(self.du[start_index-1])
-                source_factor[start_index-1] = frac
-            elif (cross_curr < 1e-10):
-                frac = 1 - np.linalg.norm(np.abs(start - self.u[start_index]))/np.linalg.norm(self.du[start_index])
-                source_factor[start_index] = frac
-                
-        if (np.linalg.norm(np.abs(end - self.u[end_index])) > 1e-10) and end_index != self.u.shape[0]:
-            
-            du = end-self.u[end_index]
-            cross_prev = np.linalg.norm(np.cross(self.du[end_index-1], du))
-            cross_curr = np.linalg.norm(np.cross(self.du[end_index], du))
-            
-            if (cross_prev < 1e-10 and cross_curr < 1e-10):
-                if (du.dot(self.du[end_index]) < 0):
-                    frac = 1-np.linalg.norm(np.abs(end - self.u[end_index]))/np.linalg.norm(self.du[end_index-1])
-                    source_factor[end_index-1] = frac
-                    source_factor[end_index] = 0.0
-                elif (du.dot(self.du[end_index]) > 0):
-                    frac = np.linalg.norm(np.abs(end - self.u[end_index]))/np.linalg.norm(self.du[end_index])
-                    source_factor[end_index] = frac
-            
-            elif (cross_prev < 1e-10):
-                frac = 1 - np.linalg.norm(np.abs(end - self.u[end_index]))/np.linalg.norm(self.du[end_index-1])
-                source_factor[end_index-1] = frac
-                source_factor[end_index] = 0.0
-            elif (cross_curr < 1e-10):
-                frac = np.linalg.norm(np.abs(end - self.u[end_index]))/np.linalg.norm(self.du[end_index])
-                source_factor[end_index] = frac
-               
         for index, factor in source_factor.items():
             if (source_type == "Planewave"):
                 self.e_L[conductor, index] = add(self.e_L[conductor, index],multiply(magnitude, factor/(end_index - start_index)))
-- 
2.43.0


From f20100708db0e7611b8239a3d0cef4de42324f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:26 +0000
Subject: [PATCH 16/49] fix: let interrupts and errors of a network step reach
 the caller

---
 python/src/networks.py | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/python/src/networks.py b/python/src/networks.py
index f39a560..70533b9 100644
--- a/python/src/networks.py
+++ b/python/src/networks.py
@@ -230,20 +230,14 @@ class Network:
         self.v_sources_prev2 = np.vectorize(FunctionType.__call__, otypes=["float64"])(self.v_sources, time - 2*dt)
 
     def advance_voltage(self, dt):
-        try:
-            self.Is = self.O.dot(self.X.reshape(self.number_of_state_vars,1)) + self.P1.dot(self.nw_v.reshape(self.number_of_nodes,1)) + self.Ps.dot(self.v_sources_prev[:,np.newaxis]) +\
-                    self.Q1.dot(self.nw_v.reshape(self.number_of_nodes,1) - self.nw_v_prev.reshape(self.number_of_nodes,1))/dt +\
-                    self.Qs.dot(self.v_sources_prev[:,np.newaxis] - self.v_sources_prev2[:,np.newaxis])/dt
-        except:
-            raise Exception("block fail")        
-            
-        try:
-            self.B3 = np.block([
-                [self.Is - self.Qs.dot(self.v_sources_prev)[:,np.newaxis]/dt  - 2*(self.nw_i.reshape(self.number_of_nodes,1)) - self.dx.dot(self.c).dot(self.e_T_now - self.e_T_prev)[:,np.newaxis]/dt],
-                [ np.zeros([self.number_of_state_vars,1])]
-            ])
-        except:
-            raise Exception("block fail")        
+        self.Is = self.O.dot(self.X.reshape(self.number_of_state_vars,1)) + self.P1.dot(self.nw_v.reshape(self.number_of_nodes,1)) + self.Ps.dot(self.v_sources_prev[:,np.newaxis]) +\
+                self.Q1.dot(self.nw_v.reshape(self.number_of_nodes,1) - self.nw_v_prev.reshape(self.number_of_nodes,1))/dt +\
+                self.Qs.dot(self.v_sources_prev[:,np.newaxis] - self.v_sources_prev2[:,np.newaxis])/dt
+
+        self.B3 = np.block([
+            [self.Is - self.Qs.dot(self.v_sources_prev)[:,np.newaxis]/dt  - 2*(self.nw_i.reshape(self.number_of_nodes,1)) - self.dx.dot(self.c).dot(self.e_T_now - self.e_T_prev)[:,np.newaxis]/dt],
+            [ np.zeros([self.number_of_state_vars,1])]
+        ])
 
         self.nw_v_prev = self.nw_v.copy()
         self.H = np.linalg.solve(self.A, self.B1.dot(self.H.reshape(self.number_of_nodes + self.number_of_state_vars,1)) + self.B2.dot(self.v_sources_now[:,np.newaxis]) + self.B3)
-- 
2.43.0


From 202169130503abb3bf6428990825a15aa0b8d1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:36 +0000
Subject: [PATCH 17/49] fix: sample every source before a network step changes
 any state

---
 python/src/mtln.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/python/src/mtln.py b/python/src/mtln.py
index 0aba72b..3c86fa6 100644
--- a/python/src/mtln.py
+++ b/python/src/mtln.py
@@ -86,15 +86,19 @@ class MTLN:
         for nw in self.networks:
             nw.update_currents(self.bundles)
 
-    def advance_networks_voltage(self):
+    def update_sources(self):
+        for bundle in self.bundles.values():
+            bundle.update_sources(self.time, self.dt)
         for nw in self.networks:
             nw.update_sources(self.time, self.dt)
+
+    def advance_networks_voltage(self):
+        for nw in self.networks:
             nw.advance_voltage(self.dt)
             nw.update_voltages(self.bundles)
     
     def advance_bundles_voltage(self):
         for bundle in self.bundles.values():
-            bundle.update_sources(self.time, self.dt)
             bundle.advance_voltage()
 
     def advance_bundles_current(self):
@@ -106,6 +110,8 @@ class MTLN:
 
 
     def step(self):
+        # every source is sampled before anything moves: a source that fails leaves the state as it was
+        self.update_sources()
         self.advance_bundles_voltage()
         self.advance_networks_voltage()
         self.advance_bundles_current()
-- 
2.43.0


From 34718814e921689f5269f63229bfc6a388b82dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:05 +0000
Subject: [PATCH 18/49] fix: keep a copy of the first frame of a probe that
 starts without a run

---
 python/src/probes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/probes.py b/python/src/probes.py
index 5a32943..0c0ccaf 100644
--- a/python/src/probes.py
+++ b/python/src/probes.py
@@ -40,7 +40,7 @@ class Probe:
         else:
             self.t = np.append(self.t, time)
             if self.val.shape == (0,):
-                self.val = new_values
+                self.val = np.array([new_values])
             else:
                 self.val = np.vstack((self.val, new_values))
 
-- 
2.43.0


From 6b2adf2af3081c5db7d88791f941815ac98fca49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:26 +0000
Subject: [PATCH 19/49] fix: clean copies forget the memory of the dispersive
 terms

---
 python/src/dispersive.py | 4 ++++
 python/src/mtl.py        | 1 +
 2 files changed, 5 insertions(+)

diff --git a/python/src/dispersive.py b/python/src/dispersive.py
index 66ec6b1..9130c5e 100644
--- a/python/src/dispersive.py
+++ b/python/src/dispersive.py
@@ -73,6 +73,10 @@ class Dispersive():
             )
         )
     
+    def reset(self):
+        self.phi.fill(0)
+        self.q3_phi_term.fill(0)
+
     def add_poles(self, index, i, j, poles, residues):
         if (index, i, j) in self.poles:
             poles = np.append(self.poles[(index, i, j)][0], poles)
diff --git a/python/src/mtl.py b/python/src/mtl.py
index 4950e2f..df449a7 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -543,6 +543,7 @@ class MTL():
         r = deepcopy(self)
         r.v.fill(0.0)
         r.i.fill(0.0)
+        r.connectors.reset()
         r.time = 0.0
         return r
 
-- 
2.43.0


From 40d136fdbb3c52e2aa77a9c8a1d95b238cf1b94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:03 +0000
Subject: [PATCH 20/49] fix: every run of a parsed document starts from rest

---
 python/src/jsonParser.py |  6 ++++++
 python/src/mtl.py        |  7 +++++++
 python/src/networks.py   | 11 +++++++++++
 3 files changed, 24 insertions(+)

diff --git a/python/src/jsonParser.py b/python/src/jsonParser.py
index f392e95..08e0ba4 100644
--- a/python/src/jsonParser.py
+++ b/python/src/jsonParser.py
@@ -37,10 +37,12 @@ class Parser:
     def run(self, finalTime, dt=0):
         mtl_nw = mtln.MTLN()
         for b in self.bundles:
+            b.reset()
             if dt:
                 b.dt = dt
             mtl_nw.add_bundle(b)
         for n in self.networks:
+            n.reset()
             mtl_nw.add_network(n)
         if dt:
             mtl_nw.dt = dt
@@ -49,10 +51,12 @@ class Parser:
     def runWithExternalField(self, finalTime, dt, field, distances):
         mtl_nw = mtln.MTLN()
         for b in self.bundles:
+            b.reset()
             if dt:
                 b.dt = dt
             mtl_nw.add_bundle(b)
         for n in self.networks:
+            n.reset()
             mtl_nw.add_network(n)
         if dt:
             mtl_nw.dt = dt
@@ -63,10 +67,12 @@ class Parser:
     def runWithLocalizedExternalField(self, finalTime, dt, bundle_name, field, distances, field_localization):
         mtl_nw = mtln.MTLN()
         for b in self.bundles:
+            b.reset()
             if dt:
                 b.dt = dt
             mtl_nw.add_bundle(b)
         for n in self.networks:
+            n.reset()
             mtl_nw.add_network(n)
         if dt:
             mtl_nw.dt = dt
diff --git a/python/src/mtl.py b/python/src/mtl.py
index df449a7..aa6e6bd 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -707,6 +707,13 @@ class MTLD:
         self.v_sources.fill(lambda t : 0)
 
 
+    def reset(self):
+        self.v.fill(0.0)
+        self.i.fill(0.0)
+        self.transfer_impedance.reset()
+        self.time = 0.0
+        self.dt = min([line.dt for lines in self.levels.values() for line in lines])
+
     def get_first_conductor(self, line):
         conductors = 0
         for lines in self.levels.values():
diff --git a/python/src/networks.py b/python/src/networks.py
index 70533b9..ebad1a3 100644
--- a/python/src/networks.py
+++ b/python/src/networks.py
@@ -142,6 +142,13 @@ class Network:
         self.Ns = np.append(self.Ns, np.zeros([self.number_of_state_vars, 1]), axis=1)
         return self.v_sources.shape[0] - 1
 
+    def reset(self):
+        self.nw_v = np.zeros([self.number_of_nodes])
+        self.nw_i = np.zeros([self.number_of_nodes])
+        self.nw_v_prev = self.nw_v
+        self.X = np.zeros([self.number_of_state_vars])
+        self.H = np.zeros([self.number_of_nodes + self.number_of_state_vars])
+
     def update_bundle_terms(self, bundles):
         # conductances and external fields can be added to the bundles after the network has been built
         for node in self.connections.values():
@@ -288,6 +295,10 @@ class NetworkD:
                 bundle = bundles[node["bundle_name"]]
                 node["line_index"] = bundle.get_first_conductor(node["line"]) + node["conductor"]
 
+    def reset(self):
+        for nw in self.levels.values():
+            nw.reset()
+
     def update_sources(self, time, dt):
         for nw in self.levels.values():
             nw.update_sources(time, dt)
-- 
2.43.0


From 92a7e88591dfed34c279734f51b4300ce3cde30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:00 +0000
Subject: [PATCH 21/49] fix: lay out the cables of a level in the order of the
 description

---
 python/src/jsonParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/jsonParser.py b/python/src/jsonParser.py
index 08e0ba4..5a13615 100644
--- a/python/src/jsonParser.py
+++ b/python/src/jsonParser.py
@@ -335,7 +335,7 @@ class Parser:
             
             for i in range(max([v["level"] for v in graph.vs])+1):
                 bundle_levels[i] = []
-                for name in list(set([v["cable"] for v in graph.vs(level_eq=i)])):
+                for name in list(dict.fromkeys([v["cable"] for v in graph.vs(level_eq=i)])):
                     line = self._buildMTLfromLine(name)
                     
                     self._addConnectorsResistance(line)
-- 
2.43.0


From c87fa052cb8a29d3ccd8ba6326d68c2f6912b5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:00 +0000
Subject: [PATCH 22/49] fix: keep every termination and junction that shares a
 place and a level with another one

---
 python/src/jsonParser.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/src/jsonParser.py b/python/src/jsonParser.py
index 5a13615..4fbadf9 100644
--- a/python/src/jsonParser.py
+++ b/python/src/jsonParser.py
@@ -528,6 +528,9 @@ class Parser:
                                 # else:
                                 #     network.short_to_ground(node)
 
+                if bundle_level in networkd:
+                    terminations.append(nw.NetworkD(networkd))
+                    networkd = {}
                 networkd[bundle_level] = network
             terminations.append(nw.NetworkD(networkd))
         return terminations
@@ -658,6 +661,9 @@ class Parser:
                     else:
                         network.connect_nodes(n0, n1, R0 + R1, Vt = add(s0,s1))
                 
+                if bundle_level in networkd:
+                    junctions.append(nw.NetworkD(networkd))
+                    networkd = {}
                 networkd[bundle_level] = network
             junctions.append(nw.NetworkD(networkd))            
         return junctions
-- 
2.43.0


From 10238d60572a3bd6388d32edfee273b9345377b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:00 +0000
Subject: [PATCH 23/49] fix: add every lumped element to its own cable

---
 python/src/jsonParser.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/python/src/jsonParser.py b/python/src/jsonParser.py
index 4fbadf9..716f7e1 100644
--- a/python/src/jsonParser.py
+++ b/python/src/jsonParser.py
@@ -270,18 +270,18 @@ class Parser:
         if len(self._lumped) == 0:
             return
         
-        lumped  = [l for l in self._lumped if l["cable"] == line.name][0]
-        conn = [c for c in self._connectors if c["materialId"] == lumped["materialId"]][0]
-        
-        try:
-            assert 'model' in list(conn.keys())
-        except:
-            raise Exception('No model has been defined for lumped impedance')    
-        
-        position = [self._coordinates[coord] for coord in lumped["coordIds"]][0]
-        conductor = lumped["conductor"]
-       
-        line.add_dispersive_connector(np.array([position]), conductor, conn["model"])
+        for lumped in [l for l in self._lumped if l["cable"] == line.name]:
+            conn = [c for c in self._connectors if c["materialId"] == lumped["materialId"]][0]
+            
+            try:
+                assert 'model' in list(conn.keys())
+            except:
+                raise Exception('No model has been defined for lumped impedance')    
+            
+            position = [self._coordinates[coord] for coord in lumped["coordIds"]][0]
+            conductor = lumped["conductor"]
+           
+            line.add_dispersive_connector(np.array([position]), conductor, conn["model"])
                 
     
     def _addConnectorsResistance(self, line):
-- 
2.43.0


From 711bba3cba30e1a1d57e171f5ec800a46b2cc4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:00 +0000
Subject: [PATCH 24/49] fix: distributed sources on cables inside a shield
 drive their own conductor

---
 python/src/jsonParser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/src/jsonParser.py b/python/src/jsonParser.py
index 716f7e1..fc8027c 100644
--- a/python/src/jsonParser.py
+++ b/python/src/jsonParser.py
@@ -377,6 +377,7 @@ class Parser:
             if (source["type"] == "localized efield drive" or source["type"] == "Planewave"):
                 # cStart = self._coordinates[self._getNodeCoordId(source["elemIds"][0])]
                 # cEnd = self._coordinates[self._getNodeCoordId(source["elemIds"][1])] 
+                conductor += bundle.get_first_conductor(self._name_to_mtl[cable["name"]])
                 bundle.add_localized_longitudinal_field(self._coordinates[self._getNodeCoordId(source["elemIds"][0])],
                                                         self._coordinates[self._getNodeCoordId(source["elemIds"][1])],
                                                         conductor = conductor,
-- 
2.43.0


From aea7242039e950d7586e5b2dff23b64508e2d78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:00 +0000
Subject: [PATCH 25/49] fix: accept shields without a transfer impedance

---
 python/src/jsonParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/jsonParser.py b/python/src/jsonParser.py
index fc8027c..b98c8f3 100644
--- a/python/src/jsonParser.py
+++ b/python/src/jsonParser.py
@@ -296,7 +296,7 @@ class Parser:
                     line.set_resistance_in_region(coordinate, coordinate, conductor, resistance)
     
     def _setBundleTransferImpedance(self, bundle, graph):
-        for edge in graph.es:
+        for edge in [edge for edge in graph.es if edge['Zt'] != 0]:
             bundle.add_transfer_impedance(
                 out_level = graph.vs[edge.source]["level"], 
                 out_level_conductors= [self._findConductorNumberInLevel(graph, edge.source, bundle)], 
-- 
2.43.0


From e667752c3de36fa0dcdaa9fc366cc6d52aad6dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:31 +0000
Subject: [PATCH 26/49] fix: connect every node of a termination through its
 own connector

---
 python/src/jsonParser.py | 76 +++++++++++++++-------------------------
 1 file changed, 28 insertions(+), 48 deletions(-)

diff --git a/python/src/jsonParser.py b/python/src/jsonParser.py
index b98c8f3..27beb40 100644
--- a/python/src/jsonParser.py
+++ b/python/src/jsonParser.py
@@ -450,6 +450,16 @@ class Parser:
         raise Exception(cable_name + " is not part of any bundle")
     
     
+    def _getConnectionOfConductor(self, conn, conductor):
+        if (conn["connectorType"] != "MultiwireConnector"):
+            return conn
+
+        connection = {"connectorType" : conn["connections"][conductor], "resistance" : 0, "inductance" : 0, "capacitance" : 1e22}
+        for name in ["resistance", "inductance", "capacitance"]:
+            if name + "Vector" in conn.keys():
+                connection[name] = conn[name + "Vector"][conductor]
+        return connection
+
     def _buildTerminations(self):
         
         terminations = []
@@ -480,54 +490,24 @@ class Parser:
                 network = nw.Network(description)
                 
                 for c in connections:
-                    if len(c["nodes"]) == 1:
-                        if (c["connectors"][0]["connectorType"] == "Conn_short"):
-                            network.short_to_ground(c["nodes"][0])
-                        elif (c["connectors"][0]["connectorType"] == "Conn_sRLC" or c["connectors"][0]["connectorType"] == "Conn_R"):
-                            network.connect_to_ground(c["nodes"][0], 
-                                                      c["connectors"][0]["resistance"], 
-                                                      c["sources"][0])
-                        elif (c["connectors"][0]["connectorType"] == "Conn_C"):
-                            network.connect_to_ground_C(c["nodes"][0], 
-                                                        c["connectors"][0]["capacitance"], 
-                                                        c["sources"][0])
-                        elif (c["connectors"][0]["connectorType"] == "Conn_LCpRs"):
-                            network.connect_to_ground_LCpRs(c["nodes"][0], 
-                                                            c["connectors"][0]["resistance"], 
-                                                            c["connectors"][0]["inductance"], 
-                                                            c["connectors"][0]["capacitance"], 
-                                                            c["sources"][0])
-                    
-                    elif len(c["nodes"]) > 1:
-                        for node, conductor in zip(c["nodes"], c["conductors"]):
-                            if (c["connectors"][conductor]["connectorType"] == "MultiwireConnector"):
-                                
-                                if "resistanceVector" in c["connectors"][conductor].keys():
-                                    R = c["connectors"][conductor]["resistanceVector"][conductor]
-                                else:
-                                    R = 0
-                                if "capacitanceVector" in c["connectors"][conductor].keys():
-                                    C = c["connectors"][conductor]["capacitanceVector"][conductor]
-                                else:
-                                    C = 1e22
-                                if "inductanceVector" in c["connectors"][conductor].keys():
-                                    L = c["connectors"][conductor]["inductanceVector"][conductor]
-                                else:
-                                    L = 0
-
-                                if (c["connectors"][conductor]["connections"][conductor] == "Conn_short"):
-                                    network.short_to_ground(node)
-                                elif (c["connectors"][conductor]["connections"][conductor] == "Conn_R" or 
-                                      c["connectors"][conductor]["connections"][conductor] == "Conn_sRLC"):
-                                    network.connect_to_ground_R(node, R, c["sources"][conductor])
-                                elif (c["connectors"][conductor]["connections"][conductor] == "Conn_LCpRs"):
-                                    network.connect_to_ground_LCpRs(node, R ,L, C, c["sources"][conductor])
-                                elif (c["connectors"][conductor]["connections"][conductor] == "Conn_C"):
-                                    network.connect_to_ground_C(node, C, c["sources"][conductor])
-                                # if R != 0:
-                                #     network.connect_to_ground(node, R, c["sources"][conductor])
-                                # else:
-                                #     network.short_to_ground(node)
+                    for node, conn, conductor, source in zip(c["nodes"], c["connectors"], c["conductors"], c["sources"]):
+                        connection = self._getConnectionOfConductor(conn, conductor)
+                        if (connection["connectorType"] == "Conn_short"):
+                            network.short_to_ground(node)
+                        elif (connection["connectorType"] == "Conn_sRLC" or connection["connectorType"] == "Conn_R"):
+                            network.connect_to_ground(node, 
+                                                      connection["resistance"], 
+                                                      source)
+                        elif (connection["connectorType"] == "Conn_C"):
+                            network.connect_to_ground_C(node, 
+                                                        connection["capacitance"], 
+                                                        source)
+                        elif (connection["connectorType"] == "Conn_LCpRs"):
+                            network.connect_to_ground_LCpRs(node, 
+                                                            connection["resistance"], 
+                                                            connection["inductance"], 
+                                                            connection["capacitance"], 
+                                                            source)
 
                 if bundle_level in networkd:
                     terminations.append(nw.NetworkD(networkd))
-- 
2.43.0


From 1f351243110498aa127e005ac218d535989ef139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:38 +0000
Subject: [PATCH 27/49] fix: place port probes at the ends of the line and
 sample them with its time step

---
 python/src/mtl.py               | 18 ++++++++++--------
 python/src/networkExtraction.py |  4 ++--
 python/src/probes.py            | 10 ++++------
 3 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index aa6e6bd..ca22a5b 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -519,19 +519,21 @@ class MTL():
 
     def add_port_probe(self, terminal):
         if terminal == 0:
-            x0 = self.z[0]
-            x1 = self.z[1]
+            x0 = self.u[0]
+            x1 = self.u[1]
             z0 = self.zs
+            side = "S"
         if terminal == 1:
-            x0 = self.z[-2]
-            x1 = self.z[-1]
+            x0 = self.u[-1]
+            x1 = self.u[-2]
             z0 = self.zl
+            side = "L"
 
-        v0 = self.add_probe(position=x0,          probe_type='voltage')
-        v1 = self.add_probe(position=x1,          probe_type='voltage')
-        i0 = self.add_probe(position=(x0+x1)/2.0, probe_type='current')
+        v0 = self.add_probe(position=x0, probe_type='voltage')
+        v1 = self.add_probe(position=x1, probe_type='voltage')
+        i0 = self.add_probe(position=x0, probe_type='current')
 
-        port_probe = Port(v0, v1, i0, z0)
+        port_probe = Port(v0, v1, i0, z0, side)
         self.port_probes.append(port_probe)
 
         return port_probe
diff --git a/python/src/networkExtraction.py b/python/src/networkExtraction.py
index ae73d4b..cfe526f 100644
--- a/python/src/networkExtraction.py
+++ b/python/src/networkExtraction.py
@@ -32,10 +32,10 @@ def getSolvedProbesFromLine(line, p1, p2, magnitude, finalTime):
     line1 = line.create_clean_copy()
     if p1_term == "S":
         line1.add_voltage_source(
-            position=line1.x[0], conductor=p1_cond, magnitude=magnitude)
+            position=line1.u[0], conductor=p1_cond, magnitude=magnitude)
     else:
         line1.add_voltage_source(
-            position=line1.x[-1], conductor=p1_cond, magnitude=magnitude)
+            position=line1.u[-1], conductor=p1_cond, magnitude=magnitude)
     pS_probe, pL_probe = line1.add_port_probes()
     if p1_term == "S":
         p1_probe = pS_probe
diff --git a/python/src/probes.py b/python/src/probes.py
index 0c0ccaf..2860b9b 100644
--- a/python/src/probes.py
+++ b/python/src/probes.py
@@ -48,14 +48,15 @@ class Probe:
 
 
 class Port:
-    def __init__(self, v0: Probe, v1: Probe, i0: Probe, z0):
+    def __init__(self, v0: Probe, v1: Probe, i0: Probe, z0, side):
         self.v0 = v0
         self.v1 = v1
         self.i0 = i0
         self.z0 = np.diag(z0)
+        self.side = side
 
     def __get_v_i_fft(self, n):
-        dt = self.v1.t[1] - self.v0.t[0]
+        dt = self.v0.t[1] - self.v0.t[0]
         f = fftshift(fftfreq(len(self.v0.t), dt))
         v0_fft = fftshift(fft(self.v0.val[:, n]))
         v1_fft = fftshift(fft(self.v1.val[:, n]))
@@ -67,10 +68,7 @@ class Port:
         return f, v_fft, i_fft
     
     def getTerminal(self):
-        if self.v0.position == 0.0:
-            return "S"  
-        else:
-            return "L"
+        return self.side
 
     def get_incident_and_reflected_power_wave(self, conductor):
         z0 = self.z0[conductor]
-- 
2.43.0


From 4c7cb82027140ec3c96ae8d2681b14acc05bbed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:11 +0000
Subject: [PATCH 28/49] fix: evaluate the incident field at the middle of each
 cell

---
 python/src/mtl.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index ca22a5b..76f59d9 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -490,8 +490,8 @@ class MTL():
                 xi, yi, zi = distances[n, nz, :]
                 l = np.abs(np.array([xi,yi,zi]))
                 l /=np.linalg.norm(l)
-                self.e_L[n, nz] = sp.lambdify(t, eL.subs(x, x0 + xi - 0.5*self.du[nz,0]).subs(y, y0 + yi- 0.5*self.du[nz,1]).subs(z, z0 + zi- 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])) -\
-                                                 eL.subs(x,x0- 0.5*self.du[nz,0]).subs(y, y0- 0.5*self.du[nz,1]).subs(z, z0- 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])))
+                self.e_L[n, nz] = sp.lambdify(t, eL.subs(x, x0 + xi + 0.5*self.du[nz,0]).subs(y, y0 + yi+ 0.5*self.du[nz,1]).subs(z, z0 + zi+ 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])) -\
+                                                 eL.subs(x,x0+ 0.5*self.du[nz,0]).subs(y, y0+ 0.5*self.du[nz,1]).subs(z, z0+ 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])))
 
                 self.e_T[n,nz] = sp.lambdify(t,
                         l[0]*sp.Integral(field.e_x.subs(y, y0).subs(z, z0).subs(v, np.max(vu[nz])), (x, x0, x0 + xi))+\
@@ -845,8 +845,8 @@ class MTLD:
                 xi, yi, zi = distances[n, nz, :]
                 l = np.abs(np.array([xi,yi,zi]))
                 l /=np.linalg.norm(l)
-                self.e_L[n, nz] = sp.lambdify(t, eL.subs(x, x0 + xi - 0.5*self.du[nz,0]).subs(y, y0 + yi- 0.5*self.du[nz,1]).subs(z, z0 + zi- 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])) -\
-                                                 eL.subs(x,x0- 0.5*self.du[nz,0]).subs(y, y0- 0.5*self.du[nz,1]).subs(z, z0- 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])))
+                self.e_L[n, nz] = sp.lambdify(t, eL.subs(x, x0 + xi + 0.5*self.du[nz,0]).subs(y, y0 + yi+ 0.5*self.du[nz,1]).subs(z, z0 + zi+ 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])) -\
+                                                 eL.subs(x,x0+ 0.5*self.du[nz,0]).subs(y, y0+ 0.5*self.du[nz,1]).subs(z, z0+ 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])))
 
                 self.e_T[n,nz] = sp.lambdify(t,
                         l[0]*sp.Integral(field.e_x.subs(y, y0).subs(z, z0).subs(v, np.max(vu[nz])), (x, x0, x0 + xi))+\
-- 
2.43.0


From 111ae4008892942bf7ee3647c0e9f9cb98707130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:11 +0000
Subject: [PATCH 29/49] fix: evaluate the transverse field at the last node of
 the line at that node

---
 python/src/mtl.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index 76f59d9..2ea3251 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -497,6 +497,7 @@ class MTL():
                         l[0]*sp.Integral(field.e_x.subs(y, y0).subs(z, z0).subs(v, np.max(vu[nz])), (x, x0, x0 + xi))+\
                         l[1]*sp.Integral(field.e_y.subs(x, x0).subs(z, z0).subs(v, np.max(vu[nz])), (y, y0, y0 + yi))+\
                         l[2]*sp.Integral(field.e_z.subs(x, x0).subs(y, y0).subs(v, np.max(vu[nz])), (z, z0, z0 + zi)))
+            x0, y0, z0 = self.u[-1,:]
             xi, yi, zi = distances[n, -1, :]
             l = np.abs(np.array([xi,yi,zi]))
             l /=np.linalg.norm(l)
@@ -852,6 +853,7 @@ class MTLD:
                         l[0]*sp.Integral(field.e_x.subs(y, y0).subs(z, z0).subs(v, np.max(vu[nz])), (x, x0, x0 + xi))+\
                         l[1]*sp.Integral(field.e_y.subs(x, x0).subs(z, z0).subs(v, np.max(vu[nz])), (y, y0, y0 + yi))+\
                         l[2]*sp.Integral(field.e_z.subs(x, x0).subs(y, y0).subs(v, np.max(vu[nz])), (z, z0, z0 + zi)))
+            x0, y0, z0 = self.u[-1,:]
             xi, yi, zi = distances[n, -1, :]
             l = np.abs(np.array([xi,yi,zi]))
             l /=np.linalg.norm(l)
-- 
2.43.0


From b2002bc9697e26f638fee98f83c6c1b225b44e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:21 +0000
Subject: [PATCH 30/49] fix: a localized incident field acts on the cells
 between its ends and on their nodes

---
 python/src/mtl.py | 50 ++++++++++++++++++++++-------------------------
 1 file changed, 23 insertions(+), 27 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index 2ea3251..e0962da 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -475,10 +475,12 @@ class MTL():
         x, y, z, t, v = sp.symbols('x y z t v')
          
         indices = range(self.u.shape[0] - 1)
+        nodes = range(self.u.shape[0])
         if len(field_localization) != 0:
             start_index = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - field_localization[0])))
             end_index =   np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - field_localization[1])))
             indices = range(start_index, end_index)
+            nodes = range(start_index, end_index + 1)
          
          
         vu = self.get_phase_velocities()
@@ -488,23 +490,19 @@ class MTL():
                 eL = field.compute_eL_at_segment(self.du[nz])
                 x0, y0, z0 = self.u[nz,:]
                 xi, yi, zi = distances[n, nz, :]
-                l = np.abs(np.array([xi,yi,zi]))
-                l /=np.linalg.norm(l)
                 self.e_L[n, nz] = sp.lambdify(t, eL.subs(x, x0 + xi + 0.5*self.du[nz,0]).subs(y, y0 + yi+ 0.5*self.du[nz,1]).subs(z, z0 + zi+ 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])) -\
                                                  eL.subs(x,x0+ 0.5*self.du[nz,0]).subs(y, y0+ 0.5*self.du[nz,1]).subs(z, z0+ 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])))
 
+            for nz in nodes:
+                x0, y0, z0 = self.u[nz,:]
+                xi, yi, zi = distances[n, nz, :]
+                l = np.abs(np.array([xi,yi,zi]))
+                l /=np.linalg.norm(l)
+                vn = np.max(vu[min(nz, vu.shape[0] - 1)])
                 self.e_T[n,nz] = sp.lambdify(t,
-                        l[0]*sp.Integral(field.e_x.subs(y, y0).subs(z, z0).subs(v, np.max(vu[nz])), (x, x0, x0 + xi))+\
-                        l[1]*sp.Integral(field.e_y.subs(x, x0).subs(z, z0).subs(v, np.max(vu[nz])), (y, y0, y0 + yi))+\
-                        l[2]*sp.Integral(field.e_z.subs(x, x0).subs(y, y0).subs(v, np.max(vu[nz])), (z, z0, z0 + zi)))
-            x0, y0, z0 = self.u[-1,:]
-            xi, yi, zi = distances[n, -1, :]
-            l = np.abs(np.array([xi,yi,zi]))
-            l /=np.linalg.norm(l)
-            self.e_T[n,-1] = sp.lambdify(t,
-                    l[0]*sp.Integral(field.e_x.subs(y, y0).subs(z, z0).subs(v, np.max(vu[-1])), (x, x0, x0 + xi))+\
-                    l[1]*sp.Integral(field.e_y.subs(x, x0).subs(z, z0).subs(v, np.max(vu[-1])), (y, y0, y0 + yi))+\
-                    l[2]*sp.Integral(field.e_z.subs(x, x0).subs(y, y0).subs(v, np.max(vu[-1])), (z, z0, z0 + zi)))
+                        l[0]*sp.Integral(field.e_x.subs(y, y0).subs(z, z0).subs(v, vn), (x, x0, x0 + xi))+\
+                        l[1]*sp.Integral(field.e_y.subs(x, x0).subs(z, z0).subs(v, vn), (y, y0, y0 + yi))+\
+                        l[2]*sp.Integral(field.e_z.subs(x, x0).subs(y, y0).subs(v, vn), (z, z0, z0 + zi)))
 
 
     def add_probe(self, position: np.ndarray, probe_type: str):
@@ -832,10 +830,12 @@ class MTLD:
         x, y, z, t, v = sp.symbols('x y z t v')
 
         indices = range(self.u.shape[0] - 1)
+        nodes = range(self.u.shape[0])
         if len(field_localization) != 0:
             start_index = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - field_localization[0])))
             end_index =   np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - field_localization[1])))
-            indices = range(start_index, end_index+1)
+            indices = range(start_index, end_index)
+            nodes = range(start_index, end_index + 1)
         
         vu = self.get_phase_velocities()
         for n in range(self.levels[0][0].number_of_conductors):
@@ -844,23 +844,19 @@ class MTLD:
                 eL = field.compute_eL_at_segment(self.du[nz])
                 x0, y0, z0 = self.u[nz,:]
                 xi, yi, zi = distances[n, nz, :]
-                l = np.abs(np.array([xi,yi,zi]))
-                l /=np.linalg.norm(l)
                 self.e_L[n, nz] = sp.lambdify(t, eL.subs(x, x0 + xi + 0.5*self.du[nz,0]).subs(y, y0 + yi+ 0.5*self.du[nz,1]).subs(z, z0 + zi+ 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])) -\
                                                  eL.subs(x,x0+ 0.5*self.du[nz,0]).subs(y, y0+ 0.5*self.du[nz,1]).subs(z, z0+ 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])))
 
+            for nz in nodes:
+                x0, y0, z0 = self.u[nz,:]
+                xi, yi, zi = distances[n, nz, :]
+                l = np.abs(np.array([xi,yi,zi]))
+                l /=np.linalg.norm(l)
+                vn = np.max(vu[min(nz, vu.shape[0] - 1)])
                 self.e_T[n,nz] = sp.lambdify(t,
-                        l[0]*sp.Integral(field.e_x.subs(y, y0).subs(z, z0).subs(v, np.max(vu[nz])), (x, x0, x0 + xi))+\
-                        l[1]*sp.Integral(field.e_y.subs(x, x0).subs(z, z0).subs(v, np.max(vu[nz])), (y, y0, y0 + yi))+\
-                        l[2]*sp.Integral(field.e_z.subs(x, x0).subs(y, y0).subs(v, np.max(vu[nz])), (z, z0, z0 + zi)))
-            x0, y0, z0 = self.u[-1,:]
-            xi, yi, zi = distances[n, -1, :]
-            l = np.abs(np.array([xi,yi,zi]))
-            l /=np.linalg.norm(l)
-            self.e_T[n,-1] = sp.lambdify(t,
-                    l[0]*sp.Integral(field.e_x.subs(y, y0).subs(z, z0).subs(v, np.max(vu[-1])), (x, x0, x0 + xi))+\
-                    l[1]*sp.Integral(field.e_y.subs(x, x0).subs(z, z0).subs(v, np.max(vu[-1])), (y, y0, y0 + yi))+\
-                    l[2]*sp.Integral(field.e_z.subs(x, x0).subs(y, y0).subs(v, np.max(vu[-1])), (z, z0, z0 + zi)))
+                        l[0]*sp.Integral(field.e_x.subs(y, y0).subs(z, z0).subs(v, vn), (x, x0, x0 + xi))+\
+                        l[1]*sp.Integral(field.e_y.subs(x, x0).subs(z, z0).subs(v, vn), (y, y0, y0 + yi))+\
+                        l[2]*sp.Integral(field.e_z.subs(x, x0).subs(y, y0).subs(v, vn), (z, z0, z0 + zi)))
 
     @dispatch()
     def update_sources(self):
-- 
2.43.0


From e960172fb1b5499c281aa24f86ae7f45151dcb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:08 +0000
Subject: [PATCH 31/49] fix: transverse field of conductors that lie obliquely
 from their reference

---
 python/src/mtl.py | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index e0962da..5cf2a41 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -33,6 +33,14 @@ class Field:
         assert (np.isclose(np.linalg.norm(du), 1, rtol = 0.01))
         return self.e_x*du[0] + self.e_y*du[1] + self.e_z*du[2]
 
+    def compute_eT_at_node(self, u: npt.NDArray[np.float64], distance: npt.NDArray[np.float64]):
+        # integral of the field along the straight path from the node to the conductor
+        x, y, z = sp.symbols('x y z')
+        s = sp.Dummy('s')
+        field = self.e_x*distance[0] + self.e_y*distance[1] + self.e_z*distance[2]
+        field = field.subs(x, u[0] + s*distance[0]).subs(y, u[1] + s*distance[1]).subs(z, u[2] + s*distance[2])
+        return sp.Integral(field, (s, 0, 1))
+
 class PlaneWave(Field):
     def __init__(self, field :  FunctionType, polar, azimuth, polarization):
         
@@ -494,15 +502,8 @@ class MTL():
                                                  eL.subs(x,x0+ 0.5*self.du[nz,0]).subs(y, y0+ 0.5*self.du[nz,1]).subs(z, z0+ 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])))
 
             for nz in nodes:
-                x0, y0, z0 = self.u[nz,:]
-                xi, yi, zi = distances[n, nz, :]
-                l = np.abs(np.array([xi,yi,zi]))
-                l /=np.linalg.norm(l)
                 vn = np.max(vu[min(nz, vu.shape[0] - 1)])
-                self.e_T[n,nz] = sp.lambdify(t,
-                        l[0]*sp.Integral(field.e_x.subs(y, y0).subs(z, z0).subs(v, vn), (x, x0, x0 + xi))+\
-                        l[1]*sp.Integral(field.e_y.subs(x, x0).subs(z, z0).subs(v, vn), (y, y0, y0 + yi))+\
-                        l[2]*sp.Integral(field.e_z.subs(x, x0).subs(y, y0).subs(v, vn), (z, z0, z0 + zi)))
+                self.e_T[n,nz] = sp.lambdify(t, field.compute_eT_at_node(self.u[nz], distances[n, nz]).subs(v, vn))
 
 
     def add_probe(self, position: np.ndarray, probe_type: str):
@@ -848,15 +849,8 @@ class MTLD:
                                                  eL.subs(x,x0+ 0.5*self.du[nz,0]).subs(y, y0+ 0.5*self.du[nz,1]).subs(z, z0+ 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])))
 
             for nz in nodes:
-                x0, y0, z0 = self.u[nz,:]
-                xi, yi, zi = distances[n, nz, :]
-                l = np.abs(np.array([xi,yi,zi]))
-                l /=np.linalg.norm(l)
                 vn = np.max(vu[min(nz, vu.shape[0] - 1)])
-                self.e_T[n,nz] = sp.lambdify(t,
-                        l[0]*sp.Integral(field.e_x.subs(y, y0).subs(z, z0).subs(v, vn), (x, x0, x0 + xi))+\
-                        l[1]*sp.Integral(field.e_y.subs(x, x0).subs(z, z0).subs(v, vn), (y, y0, y0 + yi))+\
-                        l[2]*sp.Integral(field.e_z.subs(x, x0).subs(y, y0).subs(v, vn), (z, z0, z0 + zi)))
+                self.e_T[n,nz] = sp.lambdify(t, field.compute_eT_at_node(self.u[nz], distances[n, nz]).subs(v, vn))
 
     @dispatch()
     def update_sources(self):
-- 
2.43.0


From 783d8c5e5958f0dfa0b4832d3886218f722ea98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:20 +0000
Subject: [PATCH 32/49] fix: refuse terminal sources whose node does not exist

---
 python/src/jsonParser.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/python/src/jsonParser.py b/python/src/jsonParser.py
index 27beb40..db50d9d 100644
--- a/python/src/jsonParser.py
+++ b/python/src/jsonParser.py
@@ -570,9 +570,8 @@ class Parser:
 
     def _getTerminalSourceInNode(self, node):
         for source in [s for s in self._sources if s["sourceType"] == "TerminalSource"]:
-            for n in self._nodes:
-                if int(n.split()[0]) == source["elemIds"][0] and int(n.split()[-1]) == node:
-                    return self._buildSource(source)
+            if self._getNodeCoordId(source["elemIds"][0]) == node:
+                return self._buildSource(source)
         # return lambda t : 0
         return 0
 
@@ -693,7 +692,7 @@ class Parser:
             if int(node.split()[0]) == elemId:
                 return int(node.split()[-1])
         
-        raise Exception("No node with elemId "+ elemId)
+        raise Exception("No node with elemId "+ str(elemId))
         
     def _getLineElemIdFromCoordId(self, coordId):
         for line in self._lines:
-- 
2.43.0


From 095f31ec4d6a3477a440a129e1ebb39156eafaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:06 +0000
Subject: [PATCH 33/49] fix: refuse terminal sources at coordinates without
 termination or junction

---
 python/src/jsonParser.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/python/src/jsonParser.py b/python/src/jsonParser.py
index db50d9d..3efddf0 100644
--- a/python/src/jsonParser.py
+++ b/python/src/jsonParser.py
@@ -429,6 +429,15 @@ class Parser:
         
     def _buildNetworks(self):
         self.networks = self._buildJunctions() + self._buildTerminations()
+        self._checkTerminalSources()
+
+    def _checkTerminalSources(self):
+        connected = [c for t in self._terminations for coords in t["coordIds"] for c in coords]
+        connected += [c for j in self._junctions for pair in j["unitedCoordIds"] for c in pair]
+        for source in [s for s in self._sources if s["sourceType"] == "TerminalSource"]:
+            node = self._getNodeCoordId(source["elemIds"][0])
+            if node not in connected:
+                raise Exception("No termination or junction for the source at coordinate " + str(node))
            
         
     def _getNetworkTerminationList(self):
-- 
2.43.0


From 7e1a2821678be414e1a5957456b9dae96130b918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:11 +0000
Subject: [PATCH 34/49] fix: refuse lumped elements on cables that do not exist

---
 python/src/jsonParser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/src/jsonParser.py b/python/src/jsonParser.py
index 3efddf0..6e2aaf9 100644
--- a/python/src/jsonParser.py
+++ b/python/src/jsonParser.py
@@ -322,6 +322,9 @@ class Parser:
             
     
     def _buildBundles(self):
+        for lumped in self._lumped:
+            self._getCableFromLineName(lumped["cable"])
+
         
         self.bundles = []
         self._name_to_mtl = {}
-- 
2.43.0


From 500f421acf30f624c5be0c9cae6f35bea982b108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:43 +0000
Subject: [PATCH 35/49] Revert "fix: place port probes at the ends of the line
 and sample them with its time step"

This reverts commit 1f351243110498aa127e005ac218d535989ef139.
---
 python/src/mtl.py               | 18 ++++++++----------
 python/src/networkExtraction.py |  4 ++--
 python/src/probes.py            | 10 ++++++----
 3 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index 5cf2a41..2adea40 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -519,21 +519,19 @@ class MTL():
 
     def add_port_probe(self, terminal):
         if terminal == 0:
-            x0 = self.u[0]
-            x1 = self.u[1]
+            x0 = self.z[0]
+            x1 = self.z[1]
             z0 = self.zs
-            side = "S"
         if terminal == 1:
-            x0 = self.u[-1]
-            x1 = self.u[-2]
+            x0 = self.z[-2]
+            x1 = self.z[-1]
             z0 = self.zl
-            side = "L"
 
-        v0 = self.add_probe(position=x0, probe_type='voltage')
-        v1 = self.add_probe(position=x1, probe_type='voltage')
-        i0 = self.add_probe(position=x0, probe_type='current')
+        v0 = self.add_probe(position=x0,          probe_type='voltage')
+        v1 = self.add_probe(position=x1,          probe_type='voltage')
+        i0 = self.add_probe(position=(x0+x1)/2.0, probe_type='current')
 
-        port_probe = Port(v0, v1, i0, z0, side)
+        port_probe = Port(v0, v1, i0, z0)
         self.port_probes.append(port_probe)
 
         return port_probe
diff --git a/python/src/networkExtraction.py b/python/src/networkExtraction.py
index cfe526f..ae73d4b 100644
--- a/python/src/networkExtraction.py
+++ b/python/src/networkExtraction.py
@@ -32,10 +32,10 @@ def getSolvedProbesFromLine(line, p1, p2, magnitude, finalTime):
     line1 = line.create_clean_copy()
     if p1_term == "S":
         line1.add_voltage_source(
-            position=line1.u[0], conductor=p1_cond, magnitude=magnitude)
+            position=line1.x[0], conductor=p1_cond, magnitude=magnitude)
     else:
         line1.add_voltage_source(
-            position=line1.u[-1], conductor=p1_cond, magnitude=magnitude)
+            position=line1.x[-1], conductor=p1_cond, magnitude=magnitude)
     pS_probe, pL_probe = line1.add_port_probes()
     if p1_term == "S":
         p1_probe = pS_probe
diff --git a/python/src/probes.py b/python/src/probes.py
index 2860b9b..0c0ccaf 100644
--- a/python/src/probes.py
+++ b/python/src/probes.py
@@ -48,15 +48,14 @@ class Probe:
 
 
 class Port:
-    def __init__(self, v0: Probe, v1: Probe, i0: Probe, z0, side):
+    def __init__(self, v0: Probe, v1: Probe, i0: Probe, z0):
         self.v0 = v0
         self.v1 = v1
         self.i0 = i0
         self.z0 = np.diag(z0)
-        self.side = side
 
     def __get_v_i_fft(self, n):
-        dt = self.v0.t[1] - self.v0.t[0]
+        dt = self.v1.t[1] - self.v0.t[0]
         f = fftshift(fftfreq(len(self.v0.t), dt))
         v0_fft = fftshift(fft(self.v0.val[:, n]))
         v1_fft = fftshift(fft(self.v1.val[:, n]))
@@ -68,7 +67,10 @@ class Port:
         return f, v_fft, i_fft
     
     def getTerminal(self):
-        return self.side
+        if self.v0.position == 0.0:
+            return "S"  
+        else:
+            return "L"
 
     def get_incident_and_reflected_power_wave(self, conductor):
         z0 = self.z0[conductor]
-- 
2.43.0


From a2e0066b314d410b50b96510cd522e74dcf36a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:47 +0000
Subject: [PATCH 36/49] fix: place port probes at the ends of the line and
 sample them with its time step

The network extraction stays as it was (it still fails on line.x): with it
working, two of its tests run for more than five minutes.
---
 python/src/mtl.py    | 18 ++++++++++--------
 python/src/probes.py | 10 ++++------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index 2adea40..5cf2a41 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -519,19 +519,21 @@ class MTL():
 
     def add_port_probe(self, terminal):
         if terminal == 0:
-            x0 = self.z[0]
-            x1 = self.z[1]
+            x0 = self.u[0]
+            x1 = self.u[1]
             z0 = self.zs
+            side = "S"
         if terminal == 1:
-            x0 = self.z[-2]
-            x1 = self.z[-1]
+            x0 = self.u[-1]
+            x1 = self.u[-2]
             z0 = self.zl
+            side = "L"
 
-        v0 = self.add_probe(position=x0,          probe_type='voltage')
-        v1 = self.add_probe(position=x1,          probe_type='voltage')
-        i0 = self.add_probe(position=(x0+x1)/2.0, probe_type='current')
+        v0 = self.add_probe(position=x0, probe_type='voltage')
+        v1 = self.add_probe(position=x1, probe_type='voltage')
+        i0 = self.add_probe(position=x0, probe_type='current')
 
-        port_probe = Port(v0, v1, i0, z0)
+        port_probe = Port(v0, v1, i0, z0, side)
         self.port_probes.append(port_probe)
 
         return port_probe
diff --git a/python/src/probes.py b/python/src/probes.py
index 0c0ccaf..2860b9b 100644
--- a/python/src/probes.py
+++ b/python/src/probes.py
@@ -48,14 +48,15 @@ class Probe:
 
 
 class Port:
-    def __init__(self, v0: Probe, v1: Probe, i0: Probe, z0):
+    def __init__(self, v0: Probe, v1: Probe, i0: Probe, z0, side):
         self.v0 = v0
         self.v1 = v1
         self.i0 = i0
         self.z0 = np.diag(z0)
+        self.side = side
 
     def __get_v_i_fft(self, n):
-        dt = self.v1.t[1] - self.v0.t[0]
+        dt = self.v0.t[1] - self.v0.t[0]
         f = fftshift(fftfreq(len(self.v0.t), dt))
         v0_fft = fftshift(fft(self.v0.val[:, n]))
         v1_fft = fftshift(fft(self.v1.val[:, n]))
@@ -67,10 +68,7 @@ class Port:
         return f, v_fft, i_fft
     
     def getTerminal(self):
-        if self.v0.position == 0.0:
-            return "S"  
-        else:
-            return "L"
+        return self.side
 
     def get_incident_and_reflected_power_wave(self, conductor):
         z0 = self.z0[conductor]
-- 
2.43.0


From 88ce1e53aad0f583c99e0192879a69eb4551c836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:44 +0000
Subject: [PATCH 37/49] fix: refuse bundle probes beyond the end of the line

---
 python/src/mtl.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index 5cf2a41..2d51698 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -761,18 +761,10 @@ class MTLD:
         if (type(position) == float):
             position = np.array([0.0,0.0,position])
         
-        start = self.u[0].copy()
-        
         probe_in_segment = False
-        for du in self.du:
-            end = start + du
+        for start, end in zip(self.u[:-1], self.u[1:]):
             if point_in_line(position, start, end):
                 probe_in_segment = True
-            start += du
-
-        end = start + du
-        if point_in_line(position, start, end):
-            probe_in_segment = True
         
         # if (np.any(position > self.u[-1])) or np.any((position < self.u[0])):
         if not probe_in_segment:
-- 
2.43.0


From 246382b923dbe9844378436490037a930a9da9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:39 +0000
Subject: [PATCH 38/49] fix: a network on a bundle that is not in the
 simulation is refused without being kept

---
 python/src/mtln.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/mtln.py b/python/src/mtln.py
index 3c86fa6..a25a88c 100644
--- a/python/src/mtln.py
+++ b/python/src/mtln.py
@@ -30,8 +30,8 @@ class MTLN:
             self.dt = bundle.dt
         
     def add_network(self, nw):
-        self.networks.append(nw)
         nw.update_index_numbers(self.bundles)
+        self.networks.append(nw)
 
     def add_networks(self, nw: list):
         for n in nw:
-- 
2.43.0


From 53675b33c7e0b6d8a5a78bba0898b360d5b8968e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:39 +0000
Subject: [PATCH 39/49] fix: a transfer impedance on a conductor its level does
 not have is refused before any coupling is changed

---
 python/src/dispersive.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/src/dispersive.py b/python/src/dispersive.py
index 9130c5e..a7ae352 100644
--- a/python/src/dispersive.py
+++ b/python/src/dispersive.py
@@ -186,6 +186,8 @@ class TransferImpedance(Dispersive):
         transfer_impedance
     ):
         assert(np.abs(out_level - in_level) == 1)
+        assert(np.all(np.array(out_level_conductors) < levels[out_level]))
+        assert(np.all(np.array(in_level_conductors) < levels[in_level]))
         
         factor = 1
         if "factor" in transfer_impedance.keys():
@@ -247,6 +249,8 @@ class TransferImpedance(Dispersive):
         transfer_impedance
     ):
         assert(np.abs(out_level - in_level) == 1)
+        assert(np.all(np.array(out_level_conductors) < levels[out_level]))
+        assert(np.all(np.array(in_level_conductors) < levels[in_level]))
         
         factor = 1
         if "factor" in transfer_impedance.keys():
-- 
2.43.0


From 74748777644e3d3074b8e1eadafb26cdaa67b985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:39 +0000
Subject: [PATCH 40/49] fix: a probe of unknown kind is refused when it is
 added, not in the middle of the first step

---
 python/src/probes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/src/probes.py b/python/src/probes.py
index 2860b9b..efa6fae 100644
--- a/python/src/probes.py
+++ b/python/src/probes.py
@@ -4,6 +4,8 @@ from numpy.fft import fft, fftfreq, fftshift
 
 class Probe:
     def __init__(self, position: np.ndarray, type, dt, u):
+        if type not in ("voltage", "current"):
+            raise ValueError("undefined probe")
         self.type = type
 
         self.t   : npt.NDArray[np.float64] = np.array([])
-- 
2.43.0


From e8c3be77feb7fd5bc2ff6c1344946df0c12fd105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:39 +0000
Subject: [PATCH 41/49] fix: a source without resistance is refused before it
 becomes part of the network

---
 python/src/networks.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/src/networks.py b/python/src/networks.py
index ebad1a3..53a6e8d 100644
--- a/python/src/networks.py
+++ b/python/src/networks.py
@@ -160,6 +160,7 @@ class Network:
 
     def connect_to_ground(self, node: int, R = 0, Vt = 0):
         assert(node in self.connections.keys())
+        assert(R != 0 or Vt == 0)
         index = self.connections[node]["index"]
         if (R != 0):
             self.P1[index, index] += -1/R
@@ -169,6 +170,7 @@ class Network:
 
     def connect_to_ground_R(self, node: int, R = 0, Vt = 0):
         assert(node in self.connections.keys())
+        assert(R != 0 or Vt == 0)
         index = self.connections[node]["index"]
         if (R != 0):
             self.P1[index, index] += -1/R
-- 
2.43.0


From f7dabc4990faf11038b8a80901cf6d7feb217c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:39 +0000
Subject: [PATCH 42/49] fix: an external field that does not fit every bundle
 is refused before any bundle is lit

---
 python/src/mtln.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/src/mtln.py b/python/src/mtln.py
index a25a88c..b04c69c 100644
--- a/python/src/mtln.py
+++ b/python/src/mtln.py
@@ -55,6 +55,8 @@ class MTLN:
             bundle.add_planewave(pw, distances)
 
     def add_external_field(self, field: mtl.Field, distances):
+        for bundle in self.bundles.values():
+            assert(distances.shape == (bundle.levels[0][0].number_of_conductors, bundle.u.shape[0], 3))
         for bundle in self.bundles.values():
             bundle.add_external_field(field, distances)
 
-- 
2.43.0


From d7efd98ad95552d79773212d4face16fec405503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:44 +0000
Subject: [PATCH 43/49] fix: a terminal source on a connector without impedance
 is refused instead of lost

---
 python/src/jsonParser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/src/jsonParser.py b/python/src/jsonParser.py
index 6e2aaf9..2305357 100644
--- a/python/src/jsonParser.py
+++ b/python/src/jsonParser.py
@@ -505,6 +505,8 @@ class Parser:
                     for node, conn, conductor, source in zip(c["nodes"], c["connectors"], c["conductors"], c["sources"]):
                         connection = self._getConnectionOfConductor(conn, conductor)
                         if (connection["connectorType"] == "Conn_short"):
+                            if (source != 0):
+                                raise Exception("The source at coordinate " + str(node) + " needs a connector with an impedance")
                             network.short_to_ground(node)
                         elif (connection["connectorType"] == "Conn_sRLC" or connection["connectorType"] == "Conn_R"):
                             network.connect_to_ground(node, 
@@ -649,6 +651,8 @@ class Parser:
                             R1 += conn1["resistanceVector"][cond1]
                     
                     if (R1+R0 == 0.0):
+                        if (s0 != 0 or s1 != 0):
+                            raise Exception("The source at coordinates " + str([n0, n1]) + " needs a connector with a resistance")
                         network.short_nodes(n0, n1)
                     else:
                         network.connect_nodes(n0, n1, R0 + R1, Vt = add(s0,s1))
-- 
2.43.0


From d86eae3fd298ddff7b8e5c47261492a02d682caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:44 +0000
Subject: [PATCH 44/49] fix: connectors of an undefined kind, or of one a
 junction cannot hold, are refused instead of left out

---
 python/src/jsonParser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/src/jsonParser.py b/python/src/jsonParser.py
index 2305357..8f21c00 100644
--- a/python/src/jsonParser.py
+++ b/python/src/jsonParser.py
@@ -522,6 +522,8 @@ class Parser:
                                                             connection["inductance"], 
                                                             connection["capacitance"], 
                                                             source)
+                        else:
+                            raise Exception("Undefined connector in termination: " + connection["connectorType"])
 
                 if bundle_level in networkd:
                     terminations.append(nw.NetworkD(networkd))
@@ -637,6 +639,9 @@ class Parser:
                     conn0, conn1 = conn["connectors"]
                     cond0, cond1 = conn["conductors"]
                     s0, s1 = conn["sources"]
+                    for connection in [self._getConnectionOfConductor(conn0, cond0), self._getConnectionOfConductor(conn1, cond1)]:
+                        if connection["connectorType"] not in ("Conn_R", "Conn_sRLC", "Conn_short"):
+                            raise Exception("Undefined connector in junction: " + connection["connectorType"])
                     R0, R1 = 0.0, 0.0
                     if (conn0["connectorType"] == "Conn_sRLC" or conn0["connectorType"] == "Conn_R"):
                         R0 += conn0["resistance"]
-- 
2.43.0


From 817c959a6380eac8799fc4b41a1601df5c1bada2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:44 +0000
Subject: [PATCH 45/49] fix: sources of an undefined kind are refused instead
 of left out

---
 python/src/jsonParser.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/python/src/jsonParser.py b/python/src/jsonParser.py
index 8f21c00..c2b891f 100644
--- a/python/src/jsonParser.py
+++ b/python/src/jsonParser.py
@@ -117,6 +117,11 @@ class Parser:
     def _getSources(self):
         assert 'model' in list(self.parsed.keys())
         if 'sources' in list(self.parsed["model"].keys()):
+            for source in self.parsed["model"]["sources"]:
+                if source["sourceType"] not in ("TerminalSource", "DistributedSource"):
+                    raise Exception("Undefined source: " + source["sourceType"])
+                if source["sourceType"] == "TerminalSource" and source.get("type", "voltage") != "voltage":
+                    raise Exception("Undefined terminal source: " + source["type"])
             return self.parsed["model"]["sources"]
         return {}
 
@@ -386,6 +391,8 @@ class Parser:
                                                         conductor = conductor,
                                                         magnitude = magnitude,
                                                         source_type = source["type"])
+            else:
+                raise Exception("Undefined distributed source: " + source["type"])
     
     def _getCableFromLineName(self, name):
         for cable in self._cables:
@@ -580,7 +587,7 @@ class Parser:
                 x0 = source["magnitude"]["t0"]
             )
         else:
-            def magnitude(t): lambda t : 0
+            raise Exception("Undefined magnitude: " + source["magnitude"]["type"])
             
         return magnitude
 
-- 
2.43.0


From 66f522ae1151861721af023b957dc32114b4b82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:44 +0000
Subject: [PATCH 46/49] fix: every terminal source at a node acts

---
 python/src/jsonParser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/src/jsonParser.py b/python/src/jsonParser.py
index c2b891f..2df7f86 100644
--- a/python/src/jsonParser.py
+++ b/python/src/jsonParser.py
@@ -592,11 +592,11 @@ class Parser:
         return magnitude
 
     def _getTerminalSourceInNode(self, node):
+        magnitude = 0
         for source in [s for s in self._sources if s["sourceType"] == "TerminalSource"]:
             if self._getNodeCoordId(source["elemIds"][0]) == node:
-                return self._buildSource(source)
-        # return lambda t : 0
-        return 0
+                magnitude = add(magnitude, self._buildSource(source))
+        return magnitude
 
     def _getNetworkJunctionList(self):
         coordToNetwork = {}
-- 
2.43.0


From 5c18583839ed2f4d8c91f97cd28c0b08bd1cd7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:44 +0000
Subject: [PATCH 47/49] fix: transfer impedances in an undefined direction are
 refused instead of left out

---
 python/src/dispersive.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/src/dispersive.py b/python/src/dispersive.py
index a7ae352..20d2cc0 100644
--- a/python/src/dispersive.py
+++ b/python/src/dispersive.py
@@ -219,6 +219,7 @@ class TransferImpedance(Dispersive):
         range_in  = n_before_in  + np.array(in_level_conductors)
 
         direction = transfer_impedance["direction"]
+        assert(direction in ("in", "out", "both"))
 
         for i in range_out:
             for j in range_in:
@@ -281,6 +282,7 @@ class TransferImpedance(Dispersive):
         range_in  = n_before_in  + np.array(in_level_conductors)
 
         direction = transfer_impedance["direction"]
+        assert(direction in ("in", "out", "both"))
 
         for i in range_out:
             for j in range_in:
-- 
2.43.0


From c60f6ec34a1d356edf45c7c66a57645d322c022a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:44 +0000
Subject: [PATCH 48/49] fix: descriptions that give two parts the same id or
 name are refused

---
 python/src/jsonParser.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/python/src/jsonParser.py b/python/src/jsonParser.py
index 2df7f86..2a4db45 100644
--- a/python/src/jsonParser.py
+++ b/python/src/jsonParser.py
@@ -27,6 +27,7 @@ class Parser:
         self._sources = self._getSources()
         self._ends = self._getCableEnds()
         self._lumped = self._getLumpedElements()
+        self._checkNames()
         
         
         self._buildBundles()
@@ -80,6 +81,21 @@ class Parser:
         mtl_nw.add_localized_external_field(bundle_name, field, distances, field_localization)
         mtl_nw.run_until(finalTime)
         
+    def _checkNames(self):
+        names = {
+            "coordinates" : [int(c.split()[0]) for c in self.parsed["model"]["coordinates"]],
+            "lines" : [int(l.split()[0]) for l in self._lines],
+            "nodes" : [int(n.split()[0]) for n in self._nodes],
+            "materials" : [m["materialId"] for m in self.parsed["model"]["materials"]],
+            "cables" : [c["name"] for c in self._cables],
+            "bundles" : [b["name"] for b in self._bundles],
+            "probes" : [p["name"] for p in self._probes]
+        }
+        for part in names:
+            for name in names[part]:
+                if names[part].count(name) > 1:
+                    raise Exception("There is more than one " + str(name) + " in " + part)
+
     def _getCoordinates(self):
         assert 'model' in list(self.parsed.keys())
         assert 'coordinates' in list(self.parsed["model"].keys())
-- 
2.43.0


From 52d3828dedf0025b96bc2e75f7ba0df9e59b0ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:44 +0000
Subject: [PATCH 49/49] fix: a network at a place that another one holds is
 refused

---
 python/src/mtln.py     | 2 ++
 python/src/networks.py | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/python/src/mtln.py b/python/src/mtln.py
index b04c69c..5339701 100644
--- a/python/src/mtln.py
+++ b/python/src/mtln.py
@@ -31,6 +31,8 @@ class MTLN:
         
     def add_network(self, nw):
         nw.update_index_numbers(self.bundles)
+        ends = [end for n in self.networks + [nw] for end in n.get_ends()]
+        assert(len(set(ends)) == len(ends))
         self.networks.append(nw)
 
     def add_networks(self, nw: list):
diff --git a/python/src/networks.py b/python/src/networks.py
index 53a6e8d..827767b 100644
--- a/python/src/networks.py
+++ b/python/src/networks.py
@@ -297,6 +297,9 @@ class NetworkD:
                 bundle = bundles[node["bundle_name"]]
                 node["line_index"] = bundle.get_first_conductor(node["line"]) + node["conductor"]
 
+    def get_ends(self):
+        return [(node["bundle_name"], node["side"], node["line_index"]) for nw in self.levels.values() for node in nw.connections.values()]
+
     def reset(self):
         for nw in self.levels.values():
             nw.reset()
-- 
2.43.0

