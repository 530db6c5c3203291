From 298728627d739662aeb2bc92e18c49dcecf521ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:30 +0000
Subject: [PATCH 01/11] fix: validate the return direction of a route against
 the city streets

add_route joined the two validations with 'or'; the validator raises or
returns True, so the return direction was never looked at.
---
 sidermit/publictransportsystem/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidermit/publictransportsystem/network.py b/sidermit/publictransportsystem/network.py
index 6b3d494..83885ff 100644
--- a/sidermit/publictransportsystem/network.py
+++ b/sidermit/publictransportsystem/network.py
@@ -297,7 +297,7 @@ class TransportNetwork:
         nodes_sequence_i = route_obj.nodes_sequence_i
         nodes_sequence_r = route_obj.nodes_sequence_r
 
-        if self.__edges_validator(nodes_sequence_i) or self.__edges_validator(nodes_sequence_r):
+        if self.__edges_validator(nodes_sequence_i) and self.__edges_validator(nodes_sequence_r):
             if route_id not in self.__routes_id:
                 self.add_transport_mode(route_obj.mode)
                 self.__routes.append(route_obj)
-- 
2.43.0


From 891b301a17a0496e36cafc360dc8fd7694070cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:30 +0000
Subject: [PATCH 02/11] fix: removing a transport mode removes all of its
 routes

The loop removed routes from the list it was iterating over, which left
every second route of the mode in the network.
---
 sidermit/publictransportsystem/network.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sidermit/publictransportsystem/network.py b/sidermit/publictransportsystem/network.py
index 83885ff..46d2dcb 100644
--- a/sidermit/publictransportsystem/network.py
+++ b/sidermit/publictransportsystem/network.py
@@ -280,7 +280,8 @@ class TransportNetwork:
 
         self.__modes = list_mode
 
-        for route in self.__routes:
+        # iterate over a copy, remove_route changes the list of routes
+        for route in list(self.__routes):
             if route.mode == mode:
                 self.remove_route(route.id)
 
-- 
2.43.0


From ea89119441e95af8a19fb1b2d6ac71754d7a0845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:37 +0000
Subject: [PATCH 03/11] fix: reject a city file with fewer node lines than it
 declares

---
 sidermit/city/graph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sidermit/city/graph.py b/sidermit/city/graph.py
index a03d128..de1eb5d 100644
--- a/sidermit/city/graph.py
+++ b/sidermit/city/graph.py
@@ -443,6 +443,9 @@ class Graph:
                     raise PajekFormatIsNotValidException("each node line must provide information about [id] ["
                                                          "name] [x] [y] [type] [zone] [width]")
 
+        if n_nodes > 0:
+            raise LineNumberInFileIsNotValidException("The file has fewer node lines than declared in *vertices")
+
         df_file["node_id"] = col_id
         df_file["name"] = col_name
         df_file["x"] = col_x
-- 
2.43.0


From 83f8fbf4ef21e145001875299298f0f7f80a2698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:38 +0000
Subject: [PATCH 04/11] fix: write city files in the encoding they are read
 with

---
 sidermit/city/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidermit/city/graph.py b/sidermit/city/graph.py
index de1eb5d..993d9ad 100644
--- a/sidermit/city/graph.py
+++ b/sidermit/city/graph.py
@@ -247,7 +247,7 @@ class Graph:
         :return: None
         """
 
-        file = open(file_path, 'w')
+        file = open(file_path, 'w', encoding='utf-8')
         string_file = self.export_graph(format)
         file.write(string_file)
 
-- 
2.43.0


From b84d272b8432afb187b7952cd272934f64befe4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:40 +0000
Subject: [PATCH 05/11] fix: load a saved city whose CBD lies beyond or beside
 a subcenter

---
 sidermit/city/graph.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sidermit/city/graph.py b/sidermit/city/graph.py
index 993d9ad..66863e7 100644
--- a/sidermit/city/graph.py
+++ b/sidermit/city/graph.py
@@ -612,8 +612,10 @@ class Graph:
 
                 # Update etha and etha_zone
                 if ang_cbd - 0.001 <= angle_sc <= ang_cbd + 0.001:
-                    etha_zone = zone_id
-                    etha = r_cbd / radius_sc
+                    # the CBD can only be eccentric towards a subcenter located at least as far as it (up to rounding)
+                    if radius_sc > 0 and r_cbd <= radius_sc * (1 + 1e-9):
+                        etha_zone = zone_id
+                        etha = min(r_cbd / radius_sc, 1)
 
             L = 0
             g = 0
-- 
2.43.0


From e4cbae3c8623b782fbde5d5689808dc1ea3e5727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:43 +0000
Subject: [PATCH 06/11] fix: load a saved city whose peripheries are closer
 than its subcenters on average

---
 sidermit/city/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sidermit/city/graph.py b/sidermit/city/graph.py
index 66863e7..f7e3fd8 100644
--- a/sidermit/city/graph.py
+++ b/sidermit/city/graph.py
@@ -621,7 +621,8 @@ class Graph:
             g = 0
             if len(r_sc) != 0 and len(r_p) != 0:
                 L = sum(r_sc) / len(r_sc)
-                g = (sum(r_p) / len(r_p) - L) / L
+                # g is a ratio >= 0: peripheries closer than subcenters are represented by Hi
+                g = max((sum(r_p) / len(r_p) - L) / L, 0)
 
             Gi = []
             Hi = []
-- 
2.43.0


From 31b10507da21322d744930912aa5b31795df50c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:00 +0000
Subject: [PATCH 07/11] fix: assign passengers when the indifference walk ends
 exactly at a stop

---
 sidermit/optimization/preoptimization/assignment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidermit/optimization/preoptimization/assignment.py b/sidermit/optimization/preoptimization/assignment.py
index 318a71f..885ca66 100644
--- a/sidermit/optimization/preoptimization/assignment.py
+++ b/sidermit/optimization/preoptimization/assignment.py
@@ -106,7 +106,7 @@ class Assignment:
                                         stop1]
                                     break
                             # si no se encontro paradero mas lejos a la distancia de indiferencia asignar to do a stop1
-                            if position < d:
+                            if position <= d:
                                 assignment[origin][destination][stop1] = 100
                     else:
                         # si parametro d de stop2 es impar
-- 
2.43.0


From b3e26141047ba60ac208c504768e392ed38131fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:27 +0000
Subject: [PATCH 08/11] fix: report networks with unused or partly loaded
 routes, and count circular boardings once

---
 sidermit/optimization/optimizer.py | 177 +++++++----------------------
 1 file changed, 42 insertions(+), 135 deletions(-)

diff --git a/sidermit/optimization/optimizer.py b/sidermit/optimization/optimizer.py
index 7c6a31c..90fc8c1 100644
--- a/sidermit/optimization/optimizer.py
+++ b/sidermit/optimization/optimizer.py
@@ -13,7 +13,7 @@ from sidermit.optimization import Constrains
 from sidermit.optimization import InfrastructureCost, UsersCost, OperatorsCost
 from sidermit.optimization.preoptimization import Assignment, Hyperpath, ExtendedGraph, ExtendedNode, ExtendedEdge
 from sidermit.publictransportsystem import Passenger
-from sidermit.publictransportsystem import TransportNetwork, RouteType
+from sidermit.publictransportsystem import TransportNetwork
 
 logging.basicConfig(level=logging.INFO)
 logger = logging.getLogger(__name__)
@@ -506,6 +506,30 @@ class Optimizer:
         k = self.get_k(loaded_section_route)
         return final_optimizer, z, v, k, loaded_section_route
 
+    @staticmethod
+    def get_sections_charge(nodes_sequence: List[int], stops_sequence: List[int], loaded_section: defaultdict_float,
+                            k: float) -> List[Tuple]:
+        """
+        to get the load of each section of a route direction with respect to the vehicle capacity
+        :param nodes_sequence: node id sequence of the direction
+        :param stops_sequence: stop id sequence of the direction
+        :param loaded_section: dic[stop: StopNode] = pax [pax/veh] on the section that leaves the stop
+        :param k: vehicle capacity [pax/veh]
+        :return: List[(node_i, node_j, lambda)]
+        """
+        load_stop = defaultdict(float)
+        for stop_node in loaded_section:
+            load_stop[stop_node.city_node.graph_node.id] = loaded_section[stop_node]
+
+        sub_table = []
+        charge = 0
+        for i in range(len(nodes_sequence) - 1):
+            # la carga solo cambia en las paradas
+            if nodes_sequence[i] in stops_sequence and k > 0:
+                charge = load_stop[nodes_sequence[i]] / k
+            sub_table.append((nodes_sequence[i], nodes_sequence[i + 1], charge))
+        return sub_table
+
     def get_network_results(self) -> List[Tuple]:
         """
         to get transport network results per line-direction
@@ -538,147 +562,30 @@ class Optimizer:
                 b = cycle_time_line[route.id] * f[route.id]
                 nodes_sequence_i = route.nodes_sequence_i
                 nodes_sequence_r = route.nodes_sequence_r
-                # carga que hay en los tramos
-                total_pax = 0
-                charge_i = []
-                charge_r = []
                 # total de subidas a la ruta
                 total_b = 0
+                for direction in z[route.id]:
+                    for stop_node in z[route.id][direction]:
+                        total_b += z[route.id][direction][stop_node]
 
-                # caso circular
-                if route._type == RouteType.CIRCULAR:
-
-                    # circular con sentido de ida
-                    if len(nodes_sequence_i) > 0:
-                        node_sequence = nodes_sequence_i
-                        direction = "I"
-                    # circular con sentido de vuelta
-                    else:
-                        node_sequence = nodes_sequence_r
-                        direction = "R"
-                    load_i = []
-                    for i in node_sequence:
-                        for stop_node in z[route.id][direction]:
-                            if stop_node.city_node.graph_node.id == i:
-                                total_b += z[route.id][direction][stop_node]
-                                break
-                        for stop_node in loaded_section_route[route.id][direction]:
-                            if stop_node.city_node.graph_node.id == i:
-                                load_i.append(loaded_section_route[route.id][direction][stop_node])
-                                break
-
-                    if total_b == 0:
-                        co = 0
-                    else:
-                        co = (route.mode.co + route.mode.c1 * k[route.id]) * f[route.id] * cycle_time_line[route.id] / (
-                                total_b * f[route.id])
-
-                    if len(load_i) >= 1:
-                        charge_min = min(load_i) / max(load_i)
-                    else:
-                        load_i = [1] * len(node_sequence)
-                        charge_min = 0
-
-                    sub_table = []
-                    sub_table_i = []
-                    sub_table_r = []
-
-                    node_i = None
-                    charge_ij = None
-                    for i in range(len(node_sequence)):
-                        if i == 0:
-                            node_i = node_sequence[i]
-                            charge_ij = load_i[i] / max(load_i)
-                            continue
-                        else:
-                            node_j = node_sequence[i]
-                            sub_table.append((node_i, node_j, abs(charge_ij)))
-                            node_i = node_j
-                            charge_ij = load_i[i] / max(load_i)
-
-                    # circular con sentido de ida
-                    if len(nodes_sequence_i) > 0:
-                        sub_table_i = sub_table
-                    # circular con sentido de vuelta
-                    else:
-                        sub_table_r = sub_table
-
-                    output.append((
-                        route.id, f[route.id], f[route.id] / route.mode.d, k[route.id], b,
-                        cycle_time_line[route.id] * 60,
-                        co, abs(charge_min), sub_table_i, sub_table_r))
+                # rutas con frecuencia que nadie utiliza no tienen costo por pasajero
+                if total_b == 0:
+                    co = 0
                 else:
-                    # z and v: dic[route_id][direction][stop: StopNode] = pax [pax/veh]
-                    total_pax = 0
-                    for node_id in nodes_sequence_i:
-                        bool_add = False
-                        for stopnode in z[route.id]["I"]:
-                            if stopnode.city_node.graph_node.id == node_id:
-                                pax_b = z[route.id]["I"][stopnode]
-                                pax_a = v[route.id]["I"][stopnode]
-                                total_pax += pax_b - pax_a
-                                total_b += pax_b
-
-                                charge_i.append((node_id, total_pax / k[route.id]))
-                                bool_add = True
-                                break
-                        if bool_add is False:
-                            charge_i.append((node_id, total_pax / k[route.id]))
-
-                    total_pax = 0
-                    for node_id in nodes_sequence_r:
-                        bool_add = False
-                        for stopnode in z[route.id]["R"]:
-                            if stopnode.city_node.graph_node.id == node_id:
-                                pax_b = z[route.id]["R"][stopnode]
-                                pax_a = v[route.id]["R"][stopnode]
-                                total_pax += pax_b - pax_a
-                                total_b += pax_b
-
-                                charge_r.append((node_id, total_pax / k[route.id]))
-                                bool_add = True
-                                break
-                        if bool_add is False:
-                            charge_r.append((node_id, total_pax / k[route.id]))
-
                     co = (route.mode.co + route.mode.c1 * k[route.id]) * f[route.id] * cycle_time_line[route.id] / (
                             total_b * f[route.id])
 
-                    charge_min = float("inf")
-                    sub_table_i = []
-                    node_i = None
-                    charge_ij = None
-                    for node_j, charge in charge_i:
-                        if node_i is None:
-                            node_i = node_j
-                            charge_ij = charge
-                            continue
-                        else:
-                            sub_table_i.append((node_i, node_j, abs(charge_ij)))
-                            if charge_min > charge_ij:
-                                charge_min = charge_ij
-                            node_i = node_j
-                            charge_ij = charge
-
-                    sub_table_r = []
-                    node_i = None
-                    charge_ij = None
-                    for node_j, charge in charge_r:
-                        if node_i is None:
-                            node_i = node_j
-                            charge_ij = charge
-                            continue
-                        else:
-                            sub_table_r.append((node_i, node_j, abs(charge_ij)))
-                            if charge_min > charge_ij:
-                                charge_min = charge_ij
-                            node_i = node_j
-                            charge_ij = charge
-
-                    output.append((
-                        route.id, f[route.id], f[route.id] / route.mode.d, k[route.id], b,
-                        cycle_time_line[route.id] * 60,
-                        co, abs(charge_min), sub_table_i, sub_table_r))
+                # carga que hay en los tramos
+                sub_table_i = self.get_sections_charge(nodes_sequence_i, route.stops_sequence_i,
+                                                       loaded_section_route[route.id]["I"], k[route.id])
+                sub_table_r = self.get_sections_charge(nodes_sequence_r, route.stops_sequence_r,
+                                                       loaded_section_route[route.id]["R"], k[route.id])
+                charge_min = min([charge for _, _, charge in sub_table_i + sub_table_r], default=0)
+
+                output.append((
+                    route.id, f[route.id], f[route.id] / route.mode.d, k[route.id], b,
+                    cycle_time_line[route.id] * 60,
+                    co, charge_min, sub_table_i, sub_table_r))
             else:
                 nodes_sequence_i = route.nodes_sequence_i
                 nodes_sequence_r = route.nodes_sequence_r
-- 
2.43.0


From 1b3c380154a54b1c8da0913f85865bbaae19eddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:39 +0000
Subject: [PATCH 09/11] fix: do not draw a city or network over previously
 plotted ones

---
 sidermit/city/graph.py                    | 3 +++
 sidermit/publictransportsystem/network.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/sidermit/city/graph.py b/sidermit/city/graph.py
index f7e3fd8..367b8e5 100644
--- a/sidermit/city/graph.py
+++ b/sidermit/city/graph.py
@@ -1039,6 +1039,9 @@ class Graph:
         G = nx.DiGraph()
         G.add_edges_from(edges)
 
+        # start from an empty figure, do not draw over previous plots
+        plt.clf()
+
         # separate calls to draw labels, nodes and edges
         nx.draw_networkx_nodes(G, position, cmap=plt.get_cmap('Set2'), nodelist=id_p, node_color='red', node_size=300)
         nx.draw_networkx_nodes(G, position, cmap=plt.get_cmap('Set2'), nodelist=id_sc, node_color='blue', node_size=300)
diff --git a/sidermit/publictransportsystem/network.py b/sidermit/publictransportsystem/network.py
index 46d2dcb..d2798bd 100644
--- a/sidermit/publictransportsystem/network.py
+++ b/sidermit/publictransportsystem/network.py
@@ -785,6 +785,9 @@ class TransportNetwork:
         G.add_edges_from(edges_i)
         G.add_edges_from(edges_r)
 
+        # start from an empty figure, do not draw over previous plots
+        plt.clf()
+
         # separate calls to draw labels, nodes and edges
         # plot p, Sc and CBD
         nx.draw_networkx_nodes(G, position, cmap=plt.get_cmap('Set2'), nodelist=id_p, node_color='red', node_size=300)
-- 
2.43.0


From 0ccbbe440b244ab5d86741deb23464ab0567d552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:52 +0000
Subject: [PATCH 10/11] fix: total trips equal the sum of the matrix after any
 edits

---
 sidermit/city/demand.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sidermit/city/demand.py b/sidermit/city/demand.py
index b9f8935..010943d 100644
--- a/sidermit/city/demand.py
+++ b/sidermit/city/demand.py
@@ -35,6 +35,8 @@ class Demand:
         to get total trips in all OD pair
         :return:
         """
+        # summed from the matrix: a total carried along edits keeps their rounding errors
+        self.total_trips = sum(sum(row.values()) for row in self.__matrix.values())
         return self.total_trips
 
     def matrix_to_file(self, file_path):
-- 
2.43.0


From 437ab1f89c68db173d0c31bb4c61376af1283ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:27:12 +0000
Subject: [PATCH 11/11] fix: asking for a pair without stops leaves the
 extended graph unchanged

network_validator indexed the nodes of the extended graph with the origin
even when no node was found for it; as these are a defaultdict, that added a
None node, and every later question to the same extended graph failed with an
AttributeError.
---
 sidermit/optimization/preoptimization/hyper_path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidermit/optimization/preoptimization/hyper_path.py b/sidermit/optimization/preoptimization/hyper_path.py
index 0a8d484..d393e49 100644
--- a/sidermit/optimization/preoptimization/hyper_path.py
+++ b/sidermit/optimization/preoptimization/hyper_path.py
@@ -59,7 +59,7 @@ class Hyperpath:
 
                     # if there is a stop with a label != infinity, you can get from the origin to the destination
                     conection = False
-                    for stop in nodes[origin]:
+                    for stop in nodes.get(origin, ()):
                         if label[stop] != float('inf'):
                             conection = True
                             break
-- 
2.43.0

