From 33bf1ae4bb87560325ab1ca74c12841523e9452e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:25 +0000
Subject: [PATCH 01/17] fix: report duplicate interface names on a node in
 validate_model

---
 pyNTM/flex_model.py        |  2 +-
 pyNTM/performance_model.py | 14 +++++++-------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index 4a4160b..f9fd4ba 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -157,7 +157,7 @@ class FlexModel(_MasterModel):
         unique_interfaces_per_node = self._unique_interface_per_node()
 
         # Log any duplicate interfaces on a node
-        if not unique_interfaces_per_node:  # pragma: no cover
+        if unique_interfaces_per_node is not True:  # pragma: no cover
             error_data.append(unique_interfaces_per_node)
 
         # Make validate_model() check for matching failed statuses
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index 62ec964..cb13b08 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -161,13 +161,6 @@ class PerformanceModel(_MasterModel):
         if int_res_bw_sum_error:  # pragma: no cover
             error_data.append({"int_res_bw_sum_error": int_res_bw_sum_error})
 
-        # Validate there are no duplicate interfaces
-        unique_interfaces_per_node = self._unique_interface_per_node()
-
-        # Log any duplicate interfaces on a node
-        if not unique_interfaces_per_node:  # pragma: no cover
-            error_data.append(unique_interfaces_per_node)
-
         # Log any Nodes with IGP shortcuts enabled
         igp_shortcut_nodes = [
             node for node in self.node_objects if node.igp_shortcuts_enabled is True
@@ -213,6 +206,13 @@ class PerformanceModel(_MasterModel):
             }
             error_data.append(node_dict)
 
+        # Validate there are no duplicate interfaces
+        unique_interfaces_per_node = self._unique_interface_per_node()
+
+        # Log any duplicate interfaces on a node
+        if unique_interfaces_per_node is not True:  # pragma: no cover
+            error_data.append(unique_interfaces_per_node)
+
         # Read error_data
         if error_data:
             message = "network interface validation failed, see returned data"
-- 
2.43.0


From b4fd4bc6c6a0c8589120a598888d30ed197a4dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:25 +0000
Subject: [PATCH 02/17] fix: clear demand path_detail from the previous
 simulation

---
 pyNTM/flex_model.py        | 1 +
 pyNTM/performance_model.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index f9fd4ba..7a23642 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -263,6 +263,7 @@ class FlexModel(_MasterModel):
 
         for demand in iter(self.demand_objects):
             demand.path = "Unrouted"
+            demand._path_detail = "Unrouted_detail"
 
         time_before_lsp_load = datetime.now()
         print("Routing the LSPs . . . ")
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index cb13b08..77e05f0 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -296,6 +296,7 @@ class PerformanceModel(_MasterModel):
 
         for demand in iter(self.demand_objects):
             demand.path = "Unrouted"
+            demand._path_detail = "Unrouted_detail"
 
         time_before_lsp_load = datetime.now()
         print("Routing the LSPs . . . ")
-- 
2.43.0


From fc400d2da92b842264703355d5c6e83231747a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:25 +0000
Subject: [PATCH 03/17] fix: do not share default element sets between model
 instances

---
 pyNTM/flex_model.py        | 16 ++++++++--------
 pyNTM/master_model.py      | 16 ++++++++--------
 pyNTM/performance_model.py | 16 ++++++++--------
 3 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index 7a23642..3187888 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -66,10 +66,10 @@ class FlexModel(_MasterModel):
 
     def __init__(
         self,
-        interface_objects=set(),
-        node_objects=set(),
-        demand_objects=set(),
-        rsvp_lsp_objects=set(),
+        interface_objects=None,
+        node_objects=None,
+        demand_objects=None,
+        rsvp_lsp_objects=None,
     ):
         self.interface_objects = interface_objects
         self.node_objects = node_objects
@@ -2043,10 +2043,10 @@ class Parallel_Link_Model(FlexModel):
 
     def __init__(
         self,
-        interface_objects=set(),
-        node_objects=set(),
-        demand_objects=set(),
-        rsvp_lsp_objects=set(),
+        interface_objects=None,
+        node_objects=None,
+        demand_objects=None,
+        rsvp_lsp_objects=None,
     ):
         self.interface_objects = interface_objects
         self.node_objects = node_objects
diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index d5d6875..0be9f34 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -28,16 +28,16 @@ class _MasterModel(object):
 
     def __init__(
         self,
-        interface_objects=set(),
-        node_objects=set(),
-        demand_objects=set(),
-        rsvp_lsp_objects=set(),
+        interface_objects=None,
+        node_objects=None,
+        demand_objects=None,
+        rsvp_lsp_objects=None,
     ):
-        self.interface_objects = interface_objects
-        self.node_objects = node_objects
-        self.demand_objects = demand_objects
+        self.interface_objects = set() if interface_objects is None else interface_objects
+        self.node_objects = set() if node_objects is None else node_objects
+        self.demand_objects = set() if demand_objects is None else demand_objects
         self.circuit_objects = set()
-        self.rsvp_lsp_objects = rsvp_lsp_objects
+        self.rsvp_lsp_objects = set() if rsvp_lsp_objects is None else rsvp_lsp_objects
         self.srlg_objects = set()
         self._parallel_lsp_groups = {}
 
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index 77e05f0..fb7fd36 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -70,10 +70,10 @@ class PerformanceModel(_MasterModel):
 
     def __init__(
         self,
-        interface_objects=set(),
-        node_objects=set(),
-        demand_objects=set(),
-        rsvp_lsp_objects=set(),
+        interface_objects=None,
+        node_objects=None,
+        demand_objects=None,
+        rsvp_lsp_objects=None,
     ):
         self.interface_objects = interface_objects
         self.node_objects = node_objects
@@ -1557,10 +1557,10 @@ class Model(PerformanceModel):
 
     def __init__(
         self,
-        interface_objects=set(),
-        node_objects=set(),
-        demand_objects=set(),
-        rsvp_lsp_objects=set(),
+        interface_objects=None,
+        node_objects=None,
+        demand_objects=None,
+        rsvp_lsp_objects=None,
     ):
         self.interface_objects = interface_objects
         self.node_objects = node_objects
-- 
2.43.0


From 0db12605766bcd6f43283b1144368f5282e81c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:03 +0000
Subject: [PATCH 04/17] fix: FlexModel path queries must not return failed or
 higher-cost parallel interfaces

---
 pyNTM/flex_model.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index 3187888..66471ce 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -1369,7 +1369,9 @@ class FlexModel(_MasterModel):
 
         try:
             for path in digraph_unique_paths:
-                model_path = self._convert_nx_path_to_model_path(path, needed_bw)
+                model_path = self._convert_nx_path_to_model_path(
+                    path, needed_bw, include_failed_circuits
+                )
                 converted_path["path"].append(model_path)
         except BaseException:
             return converted_path
@@ -1410,7 +1412,7 @@ class FlexModel(_MasterModel):
         # that have multiple links between nodes
         try:
             for path in multidigraph_shortest_paths:
-                model_path = self._convert_nx_path_to_model_path(path, needed_bw)
+                model_path = self._get_all_paths_mdg(G, [path])[0]
                 converted_path["path"].append(model_path)
                 converted_path["cost"] = nx.shortest_path_length(
                     G, source_node_name, dest_node_name, weight="cost"
@@ -1468,7 +1470,9 @@ class FlexModel(_MasterModel):
 
         return {"cost": converted_path["cost"], "path": path_info}
 
-    def _convert_nx_path_to_model_path(self, nx_graph_path, needed_bw):
+    def _convert_nx_path_to_model_path(
+        self, nx_graph_path, needed_bw, include_failed_circuits=True
+    ):
         """
         Given a path from an networkx DiGraph, converts that
         path to a Model style path and returns that Model style path
@@ -1506,6 +1510,7 @@ class FlexModel(_MasterModel):
                     interface
                     for interface in self.get_interface_object_from_nodes(hop, next_hop)
                     if interface.reservable_bandwidth >= needed_bw
+                    and (include_failed_circuits or interface.failed is False)
                 ]
 
                 model_path.append(interface)
-- 
2.43.0


From e207a0ba7b60ab4295efa2b0db80b50e2cd01a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:03 +0000
Subject: [PATCH 05/17] fix: re-signaled LSPs in FlexModel must follow one
 least-cost interface per hop

---
 pyNTM/flex_model.py | 66 +++------------------------------------------
 1 file changed, 3 insertions(+), 63 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index 66471ce..4905234 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -1454,9 +1454,7 @@ class FlexModel(_MasterModel):
 
         try:
             for path in digraph_shortest_paths:
-                model_path = self._convert_nx_path_to_model_path_routed_lsp(
-                    path, needed_bw, lsp
-                )
+                model_path = self._get_all_paths_mdg(G, [path])[0]
                 converted_path["path"].append(model_path)
                 converted_path["cost"] = nx.shortest_path_length(
                     G, source_node_name, dest_node_name, weight="cost"
@@ -1517,64 +1515,6 @@ class FlexModel(_MasterModel):
 
         return model_path
 
-    def _convert_nx_path_to_model_path_routed_lsp(self, nx_graph_path, needed_bw, lsp):
-        """
-        Given a path from an networkx DiGraph, converts that
-        path to a Model style path and returns that Model style path
-
-        A networkx path is a list of nodes in order of transit.
-        ex: ['A', 'B', 'G', 'D', 'F']
-
-        Because a networkx path does not show the edges used, this def
-        examines the interface(s) from each hop to the next hop and adds them
-        to a hop_interface_list
-
-        The corresponding model style path could be::
-            [Interface(name = 'A-to-B', cost = 20, capacity = 125, node_object = Node('A'),
-                remote_node_object = Node('B'), circuit_id = 9),
-            Interface(name = 'B-to-G', cost = 10, capacity = 100, node_object = Node('B'),
-                remote_node_object = Node('G'), circuit_id = 6),
-            Interface(name = 'G-to-D', cost = 10, capacity = 100, node_object = Node('G'),
-                remote_node_object = Node('D'), circuit_id = 2),
-            Interface(name = 'D-to-F', cost = 10, capacity = 300, node_object = Node('D'),
-                remote_node_object = Node('F'), circuit_id = 1)]
-
-        :param nx_graph_path: list of node names
-        :param needed_bw: needed reservable bandwidth on the requested path
-        :param lsp: RSVP LSP object to be acted on
-        :return: List of Model Interfaces from source to destination
-        """
-
-        # Define a model-style path to build
-        model_path = []
-
-        # look at each hop in the path
-        for hop in nx_graph_path:
-            current_hop_index = nx_graph_path.index(hop)
-            next_hop_index = current_hop_index + 1
-            if next_hop_index < len(nx_graph_path):
-                next_hop = nx_graph_path[next_hop_index]
-                for interface in self.get_interface_object_from_nodes(hop, next_hop):
-                    # Look at all the interface(s) from (current) hop to next_hop; see if
-                    # any of those interfaces are in the current path for lsp; if they are,
-                    # see if any of them could handle the additional_needed_bandwidth for lsp
-                    hop_interface_list = []
-                    if interface in lsp.path["interfaces"] and (
-                        interface.reservable_bandwidth + lsp.reserved_bandwidth
-                        >= needed_bw
-                    ):
-                        hop_interface_list.append(interface)
-
-                    elif interface.reservable_bandwidth >= needed_bw:
-                        # If the interface is not in the current path but can
-                        # accommodate the needed_bw, then add that interface
-                        # to model_path
-                        hop_interface_list.append(interface)
-
-                    if hop_interface_list:
-                        model_path.append(hop_interface_list)
-        return model_path
-
     def _determine_lsp_state_info(self, lsps, traff_on_each_group_lsp):
         """
         Determine LSP's specific path and reserved bandwidth; also consume
@@ -1717,7 +1657,7 @@ class FlexModel(_MasterModel):
             (
                 interface.node_object.name,
                 interface.remote_node_object.name,
-                interface.cost,
+                {"cost": interface.cost, "interface": interface},
             )
             for interface in eligible_interfaces
         )
@@ -1727,7 +1667,7 @@ class FlexModel(_MasterModel):
         G = nx.MultiDiGraph()
 
         # Add edges to networkx MultiDiGraph
-        G.add_weighted_edges_from(edge_names, weight="cost")
+        G.add_edges_from(edge_names)
 
         # Add all the nodes
         node_name_iterator = (node.name for node in self.node_objects)
-- 
2.43.0


From d7a06b2a651fb53ddb2950796e9bc4fb98941e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:03 +0000
Subject: [PATCH 06/17] fix: manual_metric setter must apply the given value

---
 pyNTM/rsvp.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/pyNTM/rsvp.py b/pyNTM/rsvp.py
index 3a6af30..6214d8b 100644
--- a/pyNTM/rsvp.py
+++ b/pyNTM/rsvp.py
@@ -169,14 +169,7 @@ class RSVP_LSP(object):
 
     @manual_metric.setter
     def manual_metric(self, value):
-        if self.initial_manual_metric:
-            if (
-                isinstance(self.initial_manual_metric, int)
-                and self.initial_manual_metric > 0
-            ):
-                self._manual_metric = self.initial_manual_metric
-                self.initial_manual_metric = None
-        elif isinstance(value, int) and value > 0:
+        if isinstance(value, int) and value > 0:
             self.initial_manual_metric = None
             self._manual_metric = value
         elif value == -1:
-- 
2.43.0


From 04740fda1c28f66c051b992f3c85b57238e50521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:03 +0000
Subject: [PATCH 07/17] fix: add_circuit must honor its failed parameter

---
 pyNTM/flex_model.py        | 4 ++++
 pyNTM/performance_model.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index 4905234..aa2d692 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -1301,6 +1301,10 @@ class FlexModel(_MasterModel):
                 "interface already exists in model".format(int_b, node_b_object)
             )
 
+        if failed:
+            int_a.failed = True
+            int_b.failed = True
+
         self.interface_objects.add(int_a)
         self.interface_objects.add(int_b)
 
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index fb7fd36..18ba27a 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -725,6 +725,10 @@ class PerformanceModel(_MasterModel):
                 )
             )
 
+        if failed:
+            int_a.failed = True
+            int_b.failed = True
+
         self.interface_objects.add(int_a)
         self.interface_objects.add(int_b)
 
-- 
2.43.0


From eb0c6fbb441caa4fe30635df5572a1900342627a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:10 +0000
Subject: [PATCH 08/17] fix: interfaces added from a list must use the model's
 node objects

---
 pyNTM/master_model.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index 0be9f34..05266e7 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -1194,24 +1194,24 @@ class _MasterModel(object):
         """
         network_interface_objects = set([])
         network_node_objects = set([])
+        nodes = {node.name: node for node in self.node_objects}
 
         # Create the Interface objects
         for interface in interface_info_list:
+            # Reuse the model's Node objects; create any Nodes not yet in the model
+            for node_name in (interface["node"], interface["remote_node"]):
+                if node_name not in nodes:
+                    nodes[node_name] = Node(node_name)
+                    network_node_objects.add(nodes[node_name])
+
             intf = Interface(
                 interface["name"],
                 interface["cost"],
                 interface["capacity"],
-                Node(interface["node"]),
-                Node(interface["remote_node"]),
+                nodes[interface["node"]],
+                nodes[interface["remote_node"]],
                 interface["circuit_id"],
             )
             network_interface_objects.add(intf)
 
-            # Check to see if the Interface's Node already exists, if not, add it
-            node_names = [node.name for node in self.node_objects]
-            if interface["node"] not in node_names:
-                network_node_objects.add(Node(interface["node"]))
-            if interface["remote_node"] not in node_names:
-                network_node_objects.add(Node(interface["remote_node"]))
-
         return (network_interface_objects, network_node_objects)
-- 
2.43.0


From c7daa6cabf0b486997c68977b783f12f98d18d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:10 +0000
Subject: [PATCH 09/17] fix: do not re-signal fixed bandwidth LSPs for
 auto-bandwidth

---
 pyNTM/master_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index 05266e7..c71fbc5 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -337,6 +337,10 @@ class _MasterModel(object):
             # For each lsp in routed_lsp_group, see if it can signal for
             # a 'setup_bandwidth_optimized' amount of setup_bandwidth
 
+            # LSPs with a fixed setup bandwidth keep that setup bandwidth
+            if lsp.configured_setup_bandwidth is not None:
+                continue
+
             lsp_path_interfaces_before = lsp.path["interfaces"]
             lsp_res_bw_before = lsp.reserved_bandwidth
 
-- 
2.43.0


From 049bf4cfbcf414df1b670d033d52f996cf7390c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:39 +0000
Subject: [PATCH 10/17] fix: raise, not return, the ModelException for
 ambiguous circuit_ids

---
 pyNTM/flex_model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index aa2d692..a742d6e 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -1132,7 +1132,7 @@ class FlexModel(_MasterModel):
                     interface[0], interface[1], circuit_id=interface[2]["circuit_id"]
                 )[0]
             except (
-                TypeError,
+                ModelException,
                 IndexError,
             ):  # TODO - are the exception catches necessary?
                 msg = (
@@ -1146,7 +1146,7 @@ class FlexModel(_MasterModel):
                 int2 = self.get_interface_object_from_nodes(
                     interface[1], interface[0], circuit_id=interface[2]["circuit_id"]
                 )[0]
-            except (TypeError, IndexError):
+            except (ModelException, IndexError):
                 msg = (
                     "No matching Interface Object found: source node {}, dest node {} "
                     "circuit_id {} ".format(
@@ -1229,7 +1229,7 @@ class FlexModel(_MasterModel):
                     " per Node and the same circuit_id can only appear in a Parallel_Link_Model object "
                     "twice and on separate Nodes"
                 )
-                return ModelException(msg)
+                raise ModelException(msg)
         return interface_list
 
     def add_circuit(
-- 
2.43.0


From b7082e2fcf832a3efc75ece6f0c3d3d9c858411b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:39 +0000
Subject: [PATCH 11/17] fix: removing an interface from an SRLG must unfail
 both circuit ends

---
 pyNTM/interface.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyNTM/interface.py b/pyNTM/interface.py
index 8254124..49eaa38 100644
--- a/pyNTM/interface.py
+++ b/pyNTM/interface.py
@@ -428,3 +428,4 @@ remote_node_object = %r, circuit_id = %r)" % (
             remote_int._srlgs.remove(get_srlg)
 
         self.failed = False
+        remote_int.failed = False
-- 
2.43.0


From f2e2cbfceb7d5e9647c704562728ae072403ba03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:39 +0000
Subject: [PATCH 12/17] fix: raise ModelException when an interface has no
 remote interface

---
 pyNTM/interface.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyNTM/interface.py b/pyNTM/interface.py
index 49eaa38..100d923 100644
--- a/pyNTM/interface.py
+++ b/pyNTM/interface.py
@@ -244,6 +244,7 @@ remote_node_object = %r, circuit_id = %r)" % (
         :return: Interface object on remote side of Circuit containing self
         """
 
+        remote_interface = None
         for interface in (interface for interface in model.interface_objects):
             if (
                 interface.node_object.name == self.remote_node_object.name
@@ -252,6 +253,9 @@ remote_node_object = %r, circuit_id = %r)" % (
                 remote_interface = interface
                 break
 
+        if remote_interface is None:
+            raise ModelException("No remote interface found for {}".format(self))
+
         # Sanity check
         if remote_interface.remote_node_object.interfaces(
             model
-- 
2.43.0


From a4dfc9d5711493187aeac0a5f36a92bb4f5e66b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:39 +0000
Subject: [PATCH 13/17] fix: unfail_node must restore every interface that is
 not in a failed SRLG

---
 pyNTM/master_model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index c71fbc5..f52e3b4 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -822,7 +822,10 @@ class _MasterModel(object):
         for interface in ints_to_unfail_iterator:
 
             # Unfail the interfaces if the remote node is not failed
-            if not interface.remote_node_object.failed:
+            # ignore interfaces that a failed SRLG still holds down
+            if not interface.remote_node_object.failed and not any(
+                srlg.failed for srlg in interface.srlgs
+            ):
                 # Unfail the specific interface
                 self.unfail_interface(interface.name, node_name, False)
 
-- 
2.43.0


From 7a8b01efb826e005af535518424fe9812f6d016c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:39 +0000
Subject: [PATCH 14/17] fix: blank optional columns in model files must take
 the documented defaults

---
 pyNTM/flex_model.py        | 6 +++---
 pyNTM/master_model.py      | 3 ++-
 pyNTM/performance_model.py | 6 +++---
 3 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index a742d6e..bdb8c2d 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -1907,7 +1907,7 @@ class FlexModel(_MasterModel):
                     circuit_id,
                     rsvp_enabled,
                 ] = interface_line.split("\t")
-                if rsvp_enabled in [True, "T", "True", "true"]:
+                if rsvp_enabled in [True, "T", "True", "true", ""]:
                     rsvp_enabled_bool = True
                 else:
                     rsvp_enabled_bool = False
@@ -1923,7 +1923,7 @@ class FlexModel(_MasterModel):
                     rsvp_enabled,
                     percent_reservable_bandwidth,
                 ] = interface_line.split("\t")
-                if rsvp_enabled in [True, "T", "True", "true"]:
+                if rsvp_enabled in [True, "T", "True", "true", ""]:
                     rsvp_enabled_bool = True
                 else:
                     rsvp_enabled_bool = False
@@ -1958,7 +1958,7 @@ class FlexModel(_MasterModel):
                 remote_node_object,
                 circuit_id,
                 rsvp_enabled_bool,
-                float(percent_reservable_bandwidth),
+                float(percent_reservable_bandwidth or 100),
             )
 
             if new_interface._key not in {
diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index f52e3b4..c67b83c 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -606,7 +606,8 @@ class _MasterModel(object):
         new_node = Node(node_name)
         # Set igp_shortcuts_enabled; only used in FlexModel, ignored in PerformanceModel
         try:
-            igp_shortcuts_enabled_value = new_node.igp_shortcuts_enabled = node_info[3]
+            igp_shortcuts_enabled_value = node_info[3] or False
+            new_node.igp_shortcuts_enabled = igp_shortcuts_enabled_value
         except IndexError:
             igp_shortcuts_enabled_value = False
         if node_name not in {node.name for node in node_set}:  # Pick up orphan nodes
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index 18ba27a..b342f41 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -1166,7 +1166,7 @@ class PerformanceModel(_MasterModel):
                     capacity,
                     rsvp_enabled,
                 ) = interface_line.split("\t")
-                if rsvp_enabled in [True, "T", "True", "true"]:
+                if rsvp_enabled in [True, "T", "True", "true", ""]:
                     rsvp_enabled_bool = True
                 else:
                     rsvp_enabled_bool = False
@@ -1181,7 +1181,7 @@ class PerformanceModel(_MasterModel):
                     rsvp_enabled,
                     percent_reservable_bandwidth,
                 ) = interface_line.split("\t")
-                if rsvp_enabled in [True, "T", "True", "true"]:
+                if rsvp_enabled in [True, "T", "True", "true", ""]:
                     rsvp_enabled_bool = True
                 else:
                     rsvp_enabled_bool = False
@@ -1216,7 +1216,7 @@ class PerformanceModel(_MasterModel):
                 remote_node_object,
                 None,
                 rsvp_enabled_bool,
-                float(percent_reservable_bandwidth),
+                float(percent_reservable_bandwidth or 100),
             )
 
             if new_interface._key not in {
-- 
2.43.0


From 1b2d0b7f5252b92e9e1db8f5502a98752e026d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:39 +0000
Subject: [PATCH 15/17] fix: interfaces that are not RSVP enabled must still
 carry IGP traffic

---
 pyNTM/flex_model.py        | 6 +++---
 pyNTM/performance_model.py | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index bdb8c2d..6f0f96a 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -983,14 +983,14 @@ class FlexModel(_MasterModel):
                 for interface in self.interface_objects
                 if (
                     interface.failed is False
-                    and interface.reservable_bandwidth >= needed_bw
+                    and (needed_bw == 0 or interface.reservable_bandwidth >= needed_bw)
                 )
             )
         elif include_failed_circuits is True:
             considered_interfaces = (
                 interface
                 for interface in self.interface_objects
-                if interface.reservable_bandwidth >= needed_bw
+                if needed_bw == 0 or interface.reservable_bandwidth >= needed_bw
             )
 
         if rsvp_required is True:
@@ -1511,7 +1511,7 @@ class FlexModel(_MasterModel):
                 interface = [
                     interface
                     for interface in self.get_interface_object_from_nodes(hop, next_hop)
-                    if interface.reservable_bandwidth >= needed_bw
+                    if (needed_bw == 0 or interface.reservable_bandwidth >= needed_bw)
                     and (include_failed_circuits or interface.failed is False)
                 ]
 
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index b342f41..067c6e9 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -530,14 +530,14 @@ class PerformanceModel(_MasterModel):
                 for interface in self.interface_objects
                 if (
                     interface.failed is False
-                    and interface.reservable_bandwidth >= needed_bw
+                    and (needed_bw == 0 or interface.reservable_bandwidth >= needed_bw)
                 )
             )
         elif include_failed_circuits is True:
             considered_interfaces = (
                 interface
                 for interface in self.interface_objects
-                if interface.reservable_bandwidth >= needed_bw
+                if needed_bw == 0 or interface.reservable_bandwidth >= needed_bw
             )
 
         if rsvp_required is True:
-- 
2.43.0


From 69f669754e2ef1fa3ec61bc6168cd7eec1d38daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:08 +0000
Subject: [PATCH 16/17] fix: WeatherMap must color utilizations between the
 integer range bounds

---
 pyNTM/weathermap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyNTM/weathermap.py b/pyNTM/weathermap.py
index 1adecbc..7b336db 100644
--- a/pyNTM/weathermap.py
+++ b/pyNTM/weathermap.py
@@ -251,7 +251,7 @@ class WeatherMap(object):  # pragma: no cover
                     lower = int(range.split("-")[0])
                     upper = int(range.split("-")[1])
 
-                    if lower <= utilization <= upper:
+                    if lower <= utilization < upper + 1:
                         group = util_ranges[range]
                         break
                 except (ValueError, IndexError):
-- 
2.43.0


From bf6553c645ef1c4e4863aad1bb753cfba755484e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:57 +0000
Subject: [PATCH 17/17] fix: blank lines after the LSP table were read as LSPs

---
 pyNTM/master_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index c67b83c..7b09d42 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -15,6 +15,7 @@ from .interface import Interface
 from .node import Node
 from .rsvp import RSVP_LSP
 from .srlg import SRLG
+from .utilities import find_end_index
 
 from pprint import pprint
 
@@ -506,7 +507,8 @@ class _MasterModel(object):
 
         """
 
-        lsp_lines = lines[lsp_info_begin_index:]
+        lsp_info_end_index = find_end_index(lsp_info_begin_index, lines)
+        lsp_lines = lines[lsp_info_begin_index:lsp_info_end_index]
         for lsp_line in lsp_lines:
             lsp_info = lsp_line.split("\t")
             source = lsp_info[0]
-- 
2.43.0

