From 34aae19784dfdf91c591a0b663cc2b00ebdc8ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:09 +0000
Subject: [PATCH 01/19] fix: write the city graph file in UTF-8, the encoding
 it is read with

---
 sidermit/city/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidermit/city/graph.py b/sidermit/city/graph.py
index a03d128..9d4d467 100644
--- a/sidermit/city/graph.py
+++ b/sidermit/city/graph.py
@@ -247,7 +247,7 @@ class Graph:
         :return: None
         """
 
-        file = open(file_path, 'w')
+        file = open(file_path, 'w', encoding='utf-8')
         string_file = self.export_graph(format)
         file.write(string_file)
 
-- 
2.43.0


From 86708d556e4a7cc03f15e24c445560b4956814cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:09 +0000
Subject: [PATCH 02/19] fix: reject a city whose periphery and subcenter share
 an id

---
 sidermit/city/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sidermit/city/graph.py b/sidermit/city/graph.py
index 9d4d467..a02cd1f 100644
--- a/sidermit/city/graph.py
+++ b/sidermit/city/graph.py
@@ -721,7 +721,8 @@ class Graph:
         """
 
         # to verified if id is not duplicated
-        if node_periphery.id in self.__nodes_id or node_subcenter.id in self.__nodes_id:
+        if node_periphery.id in self.__nodes_id or node_subcenter.id in self.__nodes_id or \
+                node_periphery.id == node_subcenter.id:
             raise NodeIdDuplicatedException('id_node is duplicated')
 
         self.__nodes.append(node_periphery)
-- 
2.43.0


From 688e2f57431071e0148ce976b260e6b0cea6428b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:09 +0000
Subject: [PATCH 03/19] fix: reject a city file with fewer nodes than announced

---
 sidermit/city/graph.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sidermit/city/graph.py b/sidermit/city/graph.py
index a02cd1f..0353885 100644
--- a/sidermit/city/graph.py
+++ b/sidermit/city/graph.py
@@ -443,6 +443,10 @@ class Graph:
                     raise PajekFormatIsNotValidException("each node line must provide information about [id] ["
                                                          "name] [x] [y] [type] [zone] [width]")
 
+        # file ends before all the announced nodes
+        if n_nodes > 0:
+            raise PajekFormatIsNotValidException("file must provide as many node lines as announced in *vertices")
+
         df_file["node_id"] = col_id
         df_file["name"] = col_name
         df_file["x"] = col_x
-- 
2.43.0


From 740e8a2304da37a95011a08000b729c27bd57693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:46 +0000
Subject: [PATCH 04/19] fix: reject a city file without a CBD when it announces
 no zone

---
 sidermit/city/graph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sidermit/city/graph.py b/sidermit/city/graph.py
index 0353885..ca8eb12 100644
--- a/sidermit/city/graph.py
+++ b/sidermit/city/graph.py
@@ -616,6 +616,9 @@ class Graph:
                     etha_zone = zone_id
                     etha = r_cbd / radius_sc
 
+            if len(cbd) == 0:
+                raise CBDDoesNotExistException("file must provide a CBD node")
+
             L = 0
             g = 0
             if len(r_sc) != 0 and len(r_p) != 0:
-- 
2.43.0


From 8ec1b6219e1c64a31ed57df4d3c0bbc48bf0e38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:44 +0000
Subject: [PATCH 05/19] fix: accept alpha + beta = 1 when 1 - alpha - beta
 rounds below zero

---
 sidermit/city/demand.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sidermit/city/demand.py b/sidermit/city/demand.py
index b9f8935..f1117fd 100644
--- a/sidermit/city/demand.py
+++ b/sidermit/city/demand.py
@@ -150,7 +150,8 @@ class Demand:
             n = demand_obj.__n
 
             if n > 1:
-                gamma = 1 - alpha - beta
+                # alpha + beta <= 1, but 1 - alpha - beta can be slightly negative by rounding
+                gamma = max(1 - alpha - beta, 0)
                 alpha_g = alpha / (1 - beta)
                 gamma_g = gamma / (1 - beta)
             else:
-- 
2.43.0


From 53e89fad76f1a756e01efabf38256fd37385b210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:35 +0000
Subject: [PATCH 06/19] fix: check the streets of the return direction of a
 route too

---
 sidermit/publictransportsystem/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidermit/publictransportsystem/network.py b/sidermit/publictransportsystem/network.py
index 6b3d494..83885ff 100644
--- a/sidermit/publictransportsystem/network.py
+++ b/sidermit/publictransportsystem/network.py
@@ -297,7 +297,7 @@ class TransportNetwork:
         nodes_sequence_i = route_obj.nodes_sequence_i
         nodes_sequence_r = route_obj.nodes_sequence_r
 
-        if self.__edges_validator(nodes_sequence_i) or self.__edges_validator(nodes_sequence_r):
+        if self.__edges_validator(nodes_sequence_i) and self.__edges_validator(nodes_sequence_r):
             if route_id not in self.__routes_id:
                 self.add_transport_mode(route_obj.mode)
                 self.__routes.append(route_obj)
-- 
2.43.0


From ba02047111db8bede1e37ea57da90d099628e8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:52 +0000
Subject: [PATCH 07/19] fix: removing a transport mode removes all its routes

---
 sidermit/publictransportsystem/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidermit/publictransportsystem/network.py b/sidermit/publictransportsystem/network.py
index 83885ff..9614d3a 100644
--- a/sidermit/publictransportsystem/network.py
+++ b/sidermit/publictransportsystem/network.py
@@ -280,7 +280,7 @@ class TransportNetwork:
 
         self.__modes = list_mode
 
-        for route in self.__routes:
+        for route in list(self.__routes):
             if route.mode == mode:
                 self.remove_route(route.id)
 
-- 
2.43.0


From fbac57d692b0e49c744d5c70ee02ce44ae0dc8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:37 +0000
Subject: [PATCH 08/19] fix: measure route edges along nodes where no route
 stops

---
 .../optimization/preoptimization/extended_graph.py    | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sidermit/optimization/preoptimization/extended_graph.py b/sidermit/optimization/preoptimization/extended_graph.py
index a0108dd..4e7212f 100644
--- a/sidermit/optimization/preoptimization/extended_graph.py
+++ b/sidermit/optimization/preoptimization/extended_graph.py
@@ -154,7 +154,7 @@ class ExtendedGraph:
         # list with all alighting edges, edges between route_node->stop_node
         alighting_edges = self.build_alighting_edges(self.__extended_graph_nodes, TP)
         # list with all routes edges, edges between route_node(i-1)->route_node(i)
-        routes_edges = self.build_route_edges(self.__extended_graph_nodes)
+        routes_edges = self.build_route_edges(self.__extended_graph_nodes, graph_obj)
 
         self.__extended_graph_edges = []
 
@@ -479,10 +479,13 @@ class ExtendedGraph:
         return alighting_edges
 
     @staticmethod
-    def build_route_edges(extended_graph_nodes: defaultdict2_route_node) -> List[ExtendedEdge]:
+    def build_route_edges(extended_graph_nodes: defaultdict2_route_node, graph_obj: Graph = None) -> \
+            List[ExtendedEdge]:
         """
         to build extended routes edges
         :param extended_graph_nodes: dic[CityNode][StopNode] = List[RouteNode]
+        :param graph_obj: Graph object, where the nodes without stops crossed by a route are. Default value considers
+        only the nodes with stops
         :return: List[ExtendedEdge]
         """
 
@@ -495,6 +498,10 @@ class ExtendedGraph:
                 for route_node in extended_graph_nodes[city_node][stop_node]:
                     route_nodes.append(route_node)
 
+        # a route can cross nodes where no route stops
+        if graph_obj is not None:
+            nodes = graph_obj.get_nodes()
+
         route_edges = []
         for route_node in route_nodes:
             # only if route node has previous route node
-- 
2.43.0


From 702a658404ea54e50afbf4e855ec8658092534a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:34 +0000
Subject: [PATCH 09/19] fix: refuse trips of places without stops without
 altering the extended graph

---
 sidermit/optimization/preoptimization/hyper_path.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sidermit/optimization/preoptimization/hyper_path.py b/sidermit/optimization/preoptimization/hyper_path.py
index 0a8d484..2f6791e 100644
--- a/sidermit/optimization/preoptimization/hyper_path.py
+++ b/sidermit/optimization/preoptimization/hyper_path.py
@@ -55,6 +55,11 @@ class Hyperpath:
                         if str(destination_id) == str(city_node.graph_node.id):
                             destination = city_node
 
+                    # there are no stops in the origin or in the destination
+                    if origin is None or destination is None:
+                        raise TransportNetworkException(
+                            "par OD {}-{} without connection".format(origin_id, destination_id))
+
                     _, label, _ = self.build_hyperpath_graph(origin, destination)
 
                     # if there is a stop with a label != infinity, you can get from the origin to the destination
-- 
2.43.0


From 85ac9065e117a8c693132b7ac48e7b33ae814110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:01 +0000
Subject: [PATCH 10/19] fix: position of the parallel lines of a mode with odd
 d in the assignment

---
 sidermit/optimization/preoptimization/assignment.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sidermit/optimization/preoptimization/assignment.py b/sidermit/optimization/preoptimization/assignment.py
index 318a71f..7daf34d 100644
--- a/sidermit/optimization/preoptimization/assignment.py
+++ b/sidermit/optimization/preoptimization/assignment.py
@@ -95,7 +95,8 @@ class Assignment:
                             # reconoceremos posición de todos los paraderos ubicado a la derecha de stop1
                             for i in range(int(stop2.mode.d / 2)):
                                 if i == 0:
-                                    position = zona_stop_2 / 2
+                                    # si d es impar hay una linea en el centro
+                                    position = zona_stop_2 / 2 if stop2.mode.d % 2 == 0 else zona_stop_2
                                 else:
                                     position = position + zona_stop_2
                                 # encontramos un paradero de stop2 que esta ubicado mas lejos que la distancia de
-- 
2.43.0


From 09191cc6ceda633afb84190305773a008f0cec8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:19 +0000
Subject: [PATCH 11/19] fix: assign everybody when the indifference walk ends
 at the last stop

---
 sidermit/optimization/preoptimization/assignment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidermit/optimization/preoptimization/assignment.py b/sidermit/optimization/preoptimization/assignment.py
index 7daf34d..fbdbef0 100644
--- a/sidermit/optimization/preoptimization/assignment.py
+++ b/sidermit/optimization/preoptimization/assignment.py
@@ -107,7 +107,7 @@ class Assignment:
                                         stop1]
                                     break
                             # si no se encontro paradero mas lejos a la distancia de indiferencia asignar to do a stop1
-                            if position < d:
+                            if position <= d:
                                 assignment[origin][destination][stop1] = 100
                     else:
                         # si parametro d de stop2 es impar
-- 
2.43.0


From 273904a44a54a5783f4a0f120bcb6037251039ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:22 +0000
Subject: [PATCH 12/19] fix: access time of a transfer between modes counts
 every passenger that transfers

---
 sidermit/optimization/users_cost.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidermit/optimization/users_cost.py b/sidermit/optimization/users_cost.py
index ec63a73..e43b4dd 100644
--- a/sidermit/optimization/users_cost.py
+++ b/sidermit/optimization/users_cost.py
@@ -141,10 +141,10 @@ class UsersCost:
                         # reportar ta
                         if isinstance(nodei, StopNode):
                             if isinstance(nodej, CityNode):
-                                ta += nodei.mode.tat / 60
+                                ta += dis_pax * nodei.mode.tat / 60
                         if isinstance(nodej, StopNode):
                             if isinstance(nodei, CityNode):
-                                ta += nodej.mode.tat / 60
+                                ta += dis_pax * nodej.mode.tat / 60
 
                         # agregamos elementos faltantes a las rutas
                         # si nodo i, nodo j y nodo k (new suc ) son de rutas entonces
-- 
2.43.0


From 4b85171e76b471387d455c493c9a3f5c1ba919a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:59 +0000
Subject: [PATCH 13/19] fix: waiting on board is charged in the direction the
 passenger travels

---
 sidermit/optimization/users_cost.py | 76 ++++-------------------------
 1 file changed, 10 insertions(+), 66 deletions(-)

diff --git a/sidermit/optimization/users_cost.py b/sidermit/optimization/users_cost.py
index e43b4dd..fb5cac8 100644
--- a/sidermit/optimization/users_cost.py
+++ b/sidermit/optimization/users_cost.py
@@ -111,32 +111,9 @@ class UsersCost:
                                     t += dis_pax
 
                                 # para tiempo de viaje adicional por esperar la bajada del vehiculo
-                                nodei_id = nodei.prev_route_node.stop_node.city_node.graph_node.id
-                                nodej_id = nodei.stop_node.city_node.graph_node.id
-
-                                stop_sequence_i = nodei.route.stops_sequence_i
-
-                                index = 0
-                                index_i = 0
-                                index_j = 0
-
-                                for node_id in stop_sequence_i:
-                                    if str(node_id) == str(nodei_id):
-                                        index_i = index
-                                    if str(node_id) == str(nodej_id):
-                                        index_j = index
-                                    index = index + 1
-
                                 tb = nodei.route.mode.t / 3600
-                                # verificamos si es del sentido de ida
-                                if index_i < index_j:
-                                    pax_b = v[nodei.route.id]["I"][nodej]
-                                    tv += (pax_b * 0.5 * tb) * dis_pax
-
-                                # sentido de vuelta
-                                else:
-                                    pax_b = v[nodei.route.id]["R"][nodej]
-                                    tv += (pax_b * 0.5 * tb) * dis_pax
+                                pax_b = v[nodei.route.id][nodei.direction][nodej]
+                                tv += (pax_b * 0.5 * tb) * dis_pax
 
                         # reportar ta
                         if isinstance(nodei, StopNode):
@@ -159,47 +136,14 @@ class UsersCost:
                                                                                                             RouteNode):
                                 bya = nodei.route.mode.bya
                                 tb = nodei.route.mode.t / 3600
-                                # determinamos dirección
-                                nodei_id = nodei.stop_node.city_node.graph_node.id
-                                nodej_id = nodej.stop_node.city_node.graph_node.id
-
-                                stop_sequence_i = nodei.route.stops_sequence_i
-
-                                index = 0
-                                index_i = 0
-                                index_j = 0
-
-                                for node_id in stop_sequence_i:
-                                    if str(node_id) == str(nodei_id):
-                                        index_i = index
-                                    if str(node_id) == str(nodej_id):
-                                        index_j = index
-                                    index = index + 1
-
-                                # verificamos si es del sentido de ida
-                                if index_i < index_j:
-                                    # simultaneo
-                                    if bya == 1:
-                                        pasajeros = max(z[nodei.route.id]["I"][nodej.stop_node],
-                                                        v[nodei.route.id]["I"][nodej.stop_node])
-                                        tv += pasajeros * tb * dis_pax
-                                    # secuencial
-                                    if bya == 0:
-                                        pasajeros = z[nodei.route.id]["I"][nodej.stop_node] + v[nodei.route.id]["I"][
-                                            nodej.stop_node]
-                                        tv += pasajeros * tb * dis_pax
-                                # sentido de vuelta
-                                else:
-                                    # simultaneo
-                                    if bya == 1:
-                                        pasajeros = max(z[nodei.route.id]["R"][nodej.stop_node],
-                                                        v[nodei.route.id]["R"][nodej.stop_node])
-                                        tv += pasajeros * tb * dis_pax
-                                    # secuencial
-                                    if bya == 0:
-                                        pasajeros = z[nodei.route.id]["R"][nodej.stop_node] + v[nodei.route.id]["R"][
-                                            nodej.stop_node]
-                                        tv += pasajeros * tb * dis_pax
+                                pax_z = z[nodei.route.id][nodei.direction][nodej.stop_node]
+                                pax_v = v[nodei.route.id][nodei.direction][nodej.stop_node]
+                                # simultaneo
+                                if bya == 1:
+                                    tv += max(pax_z, pax_v) * tb * dis_pax
+                                # secuencial
+                                if bya == 0:
+                                    tv += (pax_z + pax_v) * tb * dis_pax
 
         return ta, te, tv, t
 
-- 
2.43.0


From 0d7cf461357061d306914ef352b10fe0f13cbf07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:20 +0000
Subject: [PATCH 14/19] fix: report the results of a line that carries nobody

---
 sidermit/optimization/optimizer.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/sidermit/optimization/optimizer.py b/sidermit/optimization/optimizer.py
index 7c6a31c..3cb4a84 100644
--- a/sidermit/optimization/optimizer.py
+++ b/sidermit/optimization/optimizer.py
@@ -608,6 +608,9 @@ class Optimizer:
                         cycle_time_line[route.id] * 60,
                         co, abs(charge_min), sub_table_i, sub_table_r))
                 else:
+                    # una linea sin pasajeros circula vacia en todos sus tramos
+                    capacity = k[route.id] if k[route.id] > 0 else 1
+
                     # z and v: dic[route_id][direction][stop: StopNode] = pax [pax/veh]
                     total_pax = 0
                     for node_id in nodes_sequence_i:
@@ -619,11 +622,11 @@ class Optimizer:
                                 total_pax += pax_b - pax_a
                                 total_b += pax_b
 
-                                charge_i.append((node_id, total_pax / k[route.id]))
+                                charge_i.append((node_id, total_pax / capacity))
                                 bool_add = True
                                 break
                         if bool_add is False:
-                            charge_i.append((node_id, total_pax / k[route.id]))
+                            charge_i.append((node_id, total_pax / capacity))
 
                     total_pax = 0
                     for node_id in nodes_sequence_r:
@@ -635,14 +638,17 @@ class Optimizer:
                                 total_pax += pax_b - pax_a
                                 total_b += pax_b
 
-                                charge_r.append((node_id, total_pax / k[route.id]))
+                                charge_r.append((node_id, total_pax / capacity))
                                 bool_add = True
                                 break
                         if bool_add is False:
-                            charge_r.append((node_id, total_pax / k[route.id]))
+                            charge_r.append((node_id, total_pax / capacity))
 
-                    co = (route.mode.co + route.mode.c1 * k[route.id]) * f[route.id] * cycle_time_line[route.id] / (
-                            total_b * f[route.id])
+                    if total_b == 0:
+                        co = 0
+                    else:
+                        co = (route.mode.co + route.mode.c1 * k[route.id]) * f[route.id] * cycle_time_line[route.id] / (
+                                total_b * f[route.id])
 
                     charge_min = float("inf")
                     sub_table_i = []
-- 
2.43.0


From 7988ce5de55997c5e30f486527b5f5c379bfe1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:35 +0000
Subject: [PATCH 15/19] fix: reported loads count alightings at stops where
 nobody boards

---
 sidermit/optimization/optimizer.py | 51 +++++++++++++++---------------
 1 file changed, 25 insertions(+), 26 deletions(-)

diff --git a/sidermit/optimization/optimizer.py b/sidermit/optimization/optimizer.py
index 3cb4a84..a777eca 100644
--- a/sidermit/optimization/optimizer.py
+++ b/sidermit/optimization/optimizer.py
@@ -506,6 +506,21 @@ class Optimizer:
         k = self.get_k(loaded_section_route)
         return final_optimizer, z, v, k, loaded_section_route
 
+    @staticmethod
+    def pax_in_node(pax: defaultdict3_float, route_id: str, direction: str, node_id: int) -> float:
+        """
+        to get the passengers of a line in a node
+        :param pax: dic[route_id][direction][stop: StopNode] = pax [pax/veh]
+        :param route_id: route id
+        :param direction: "I" or "R"
+        :param node_id: node id
+        :return: pax [pax/veh], 0 if nobody is reported in the node
+        """
+        for stop_node in pax[route_id][direction]:
+            if stop_node.city_node.graph_node.id == node_id:
+                return pax[route_id][direction][stop_node]
+        return 0
+
     def get_network_results(self) -> List[Tuple]:
         """
         to get transport network results per line-direction
@@ -614,35 +629,19 @@ class Optimizer:
                     # z and v: dic[route_id][direction][stop: StopNode] = pax [pax/veh]
                     total_pax = 0
                     for node_id in nodes_sequence_i:
-                        bool_add = False
-                        for stopnode in z[route.id]["I"]:
-                            if stopnode.city_node.graph_node.id == node_id:
-                                pax_b = z[route.id]["I"][stopnode]
-                                pax_a = v[route.id]["I"][stopnode]
-                                total_pax += pax_b - pax_a
-                                total_b += pax_b
-
-                                charge_i.append((node_id, total_pax / capacity))
-                                bool_add = True
-                                break
-                        if bool_add is False:
-                            charge_i.append((node_id, total_pax / capacity))
+                        pax_b = self.pax_in_node(z, route.id, "I", node_id)
+                        pax_a = self.pax_in_node(v, route.id, "I", node_id)
+                        total_pax += pax_b - pax_a
+                        total_b += pax_b
+                        charge_i.append((node_id, total_pax / capacity))
 
                     total_pax = 0
                     for node_id in nodes_sequence_r:
-                        bool_add = False
-                        for stopnode in z[route.id]["R"]:
-                            if stopnode.city_node.graph_node.id == node_id:
-                                pax_b = z[route.id]["R"][stopnode]
-                                pax_a = v[route.id]["R"][stopnode]
-                                total_pax += pax_b - pax_a
-                                total_b += pax_b
-
-                                charge_r.append((node_id, total_pax / capacity))
-                                bool_add = True
-                                break
-                        if bool_add is False:
-                            charge_r.append((node_id, total_pax / capacity))
+                        pax_b = self.pax_in_node(z, route.id, "R", node_id)
+                        pax_a = self.pax_in_node(v, route.id, "R", node_id)
+                        total_pax += pax_b - pax_a
+                        total_b += pax_b
+                        charge_r.append((node_id, total_pax / capacity))
 
                     if total_b == 0:
                         co = 0
-- 
2.43.0


From 23ea0228d77f74fb022c6b37822d0c7cf08dba3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:31 +0000
Subject: [PATCH 16/19] fix: reported loads and boardings of circular lines

---
 sidermit/optimization/optimizer.py | 35 ++++++++----------------------
 1 file changed, 9 insertions(+), 26 deletions(-)

diff --git a/sidermit/optimization/optimizer.py b/sidermit/optimization/optimizer.py
index a777eca..1730867 100644
--- a/sidermit/optimization/optimizer.py
+++ b/sidermit/optimization/optimizer.py
@@ -571,16 +571,11 @@ class Optimizer:
                     else:
                         node_sequence = nodes_sequence_r
                         direction = "R"
+                    # el ultimo nodo de la secuencia es nuevamente el primero
                     load_i = []
-                    for i in node_sequence:
-                        for stop_node in z[route.id][direction]:
-                            if stop_node.city_node.graph_node.id == i:
-                                total_b += z[route.id][direction][stop_node]
-                                break
-                        for stop_node in loaded_section_route[route.id][direction]:
-                            if stop_node.city_node.graph_node.id == i:
-                                load_i.append(loaded_section_route[route.id][direction][stop_node])
-                                break
+                    for i in node_sequence[:-1]:
+                        total_b += self.pax_in_node(z, route.id, direction, i)
+                        load_i.append(self.pax_in_node(loaded_section_route, route.id, direction, i))
 
                     if total_b == 0:
                         co = 0
@@ -588,28 +583,16 @@ class Optimizer:
                         co = (route.mode.co + route.mode.c1 * k[route.id]) * f[route.id] * cycle_time_line[route.id] / (
                                 total_b * f[route.id])
 
-                    if len(load_i) >= 1:
-                        charge_min = min(load_i) / max(load_i)
-                    else:
-                        load_i = [1] * len(node_sequence)
-                        charge_min = 0
+                    # una linea sin pasajeros circula vacia en todos sus tramos
+                    capacity = max(load_i) if max(load_i) > 0 else 1
+                    charge_min = min(load_i) / capacity
 
                     sub_table = []
                     sub_table_i = []
                     sub_table_r = []
 
-                    node_i = None
-                    charge_ij = None
-                    for i in range(len(node_sequence)):
-                        if i == 0:
-                            node_i = node_sequence[i]
-                            charge_ij = load_i[i] / max(load_i)
-                            continue
-                        else:
-                            node_j = node_sequence[i]
-                            sub_table.append((node_i, node_j, abs(charge_ij)))
-                            node_i = node_j
-                            charge_ij = load_i[i] / max(load_i)
+                    for i in range(len(load_i)):
+                        sub_table.append((node_sequence[i], node_sequence[i + 1], abs(load_i[i] / capacity)))
 
                     # circular con sentido de ida
                     if len(nodes_sequence_i) > 0:
-- 
2.43.0


From 91f16a7737d7f3214ddd4e43d97d4dfd061b85fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:00 +0000
Subject: [PATCH 17/19] fix: print access times of the extended graph in
 minutes

---
 sidermit/optimization/preoptimization/extended_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidermit/optimization/preoptimization/extended_graph.py b/sidermit/optimization/preoptimization/extended_graph.py
index 4e7212f..3c6637a 100644
--- a/sidermit/optimization/preoptimization/extended_graph.py
+++ b/sidermit/optimization/preoptimization/extended_graph.py
@@ -179,7 +179,7 @@ class ExtendedGraph:
                 # information about access edge
                 for edge in self.__extended_graph_edges:
                     if edge.nodei == city_node and edge.nodej == stop_node:
-                        line += "\tAccess edge\n\t-Access time: {:.2f} [min]\n".format(edge.t)
+                        line += "\tAccess edge\n\t-Access time: {:.2f} [min]\n".format(edge.t * 60)
 
                 line += "\t\tStop node\n\t\t-Mode name: {}\n".format(stop_node.mode.name)
 
-- 
2.43.0


From 7d325b2fbeac7bb9b9ed00cf33d092f29a7c1617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:48 +0000
Subject: [PATCH 18/19] fix: pictures no longer show what was drawn before

---
 sidermit/city/graph.py                              | 3 +++
 sidermit/optimization/preoptimization/hyper_path.py | 3 +++
 sidermit/publictransportsystem/network.py           | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/sidermit/city/graph.py b/sidermit/city/graph.py
index ca8eb12..7464011 100644
--- a/sidermit/city/graph.py
+++ b/sidermit/city/graph.py
@@ -1041,6 +1041,9 @@ class Graph:
         G = nx.DiGraph()
         G.add_edges_from(edges)
 
+        # the picture starts empty, without what was drawn before
+        plt.clf()
+
         # separate calls to draw labels, nodes and edges
         nx.draw_networkx_nodes(G, position, cmap=plt.get_cmap('Set2'), nodelist=id_p, node_color='red', node_size=300)
         nx.draw_networkx_nodes(G, position, cmap=plt.get_cmap('Set2'), nodelist=id_sc, node_color='blue', node_size=300)
diff --git a/sidermit/optimization/preoptimization/hyper_path.py b/sidermit/optimization/preoptimization/hyper_path.py
index 2f6791e..ebb9ea5 100644
--- a/sidermit/optimization/preoptimization/hyper_path.py
+++ b/sidermit/optimization/preoptimization/hyper_path.py
@@ -542,6 +542,9 @@ class Hyperpath:
         G.add_edges_from(edges_graph)
         pos = nx.spring_layout(G, scale=10)  # positions for all nodes
 
+        # the picture starts empty, without what was drawn before
+        plt.clf()
+
         # nx.draw(G)
         # # separate calls to draw labels, nodes and edges
         # # plot p, Sc and CBD
diff --git a/sidermit/publictransportsystem/network.py b/sidermit/publictransportsystem/network.py
index 9614d3a..d09979a 100644
--- a/sidermit/publictransportsystem/network.py
+++ b/sidermit/publictransportsystem/network.py
@@ -784,6 +784,9 @@ class TransportNetwork:
         G.add_edges_from(edges_i)
         G.add_edges_from(edges_r)
 
+        # the picture starts empty, without what was drawn before
+        plt.clf()
+
         # separate calls to draw labels, nodes and edges
         # plot p, Sc and CBD
         nx.draw_networkx_nodes(G, position, cmap=plt.get_cmap('Set2'), nodelist=id_p, node_color='red', node_size=300)
-- 
2.43.0


From aedb883e4df8c09e6518203a24fd306650aac9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:49 +0000
Subject: [PATCH 19/19] fix: a city without zones can be drawn

---
 sidermit/city/graph.py                    | 4 ++++
 sidermit/publictransportsystem/network.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/sidermit/city/graph.py b/sidermit/city/graph.py
index 7464011..58edb5a 100644
--- a/sidermit/city/graph.py
+++ b/sidermit/city/graph.py
@@ -1001,6 +1001,9 @@ class Graph:
             if not position.get(edge.node2.id):
                 position[edge.node2.id].append(edge.node2.x)
                 position[edge.node2.id].append(edge.node2.y)
+        # places without streets (a city without zones) are drawn too
+        for node in self.__nodes:
+            position[node.id] = [node.x, node.y]
 
         # nodes information and positions
         info_cbd = []
@@ -1039,6 +1042,7 @@ class Graph:
             id_p.append(p.id)
 
         G = nx.DiGraph()
+        G.add_nodes_from(position)
         G.add_edges_from(edges)
 
         # the picture starts empty, without what was drawn before
diff --git a/sidermit/publictransportsystem/network.py b/sidermit/publictransportsystem/network.py
index d09979a..87550ae 100644
--- a/sidermit/publictransportsystem/network.py
+++ b/sidermit/publictransportsystem/network.py
@@ -711,6 +711,9 @@ class TransportNetwork:
             if not position.get(edge.node2.id):
                 position[edge.node2.id].append(edge.node2.x)
                 position[edge.node2.id].append(edge.node2.y)
+        # places without streets (a city without zones) are drawn too
+        for node in self.__graph_obj.get_nodes():
+            position[node.id] = [node.x, node.y]
 
         # nodes information and positions
         info_cbd = []
@@ -780,6 +783,7 @@ class TransportNetwork:
                         stops_r.append(stop_r[i])
 
         G = nx.DiGraph()
+        G.add_nodes_from(position)
         G.add_edges_from(edges_graph)
         G.add_edges_from(edges_i)
         G.add_edges_from(edges_r)
-- 
2.43.0

