From 6c457fb73c1ed683e78cfd0e1ced8f9f9694b339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:44 +0000
Subject: [PATCH 01/64] fix: 2.5D overlap: shapes of the same net shield the
 layers above, too

---
 klayout_pex/rcx25/c/overlap_extractor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/klayout_pex/rcx25/c/overlap_extractor.py b/klayout_pex/rcx25/c/overlap_extractor.py
index 4c1cec5..bcb9300 100644
--- a/klayout_pex/rcx25/c/overlap_extractor.py
+++ b/klayout_pex/rcx25/c/overlap_extractor.py
@@ -111,6 +111,8 @@ class OverlapExtractor:
                     net_top = polygon_above.property('net')
 
                     if net_top == net_bot:
+                        # NOTE: no cap within the same net, but it does shield everything above
+                        shielded_region.insert(polygon_above)
                         continue
 
                     top_layer_name = self.layer_names[other_layer_index]
-- 
2.43.0


From d24664a71dd243876cad1d6913351a9dc70aee6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:36 +0000
Subject: [PATCH 02/64] fix: 2.5D: layers without parasitics table entries must
 not abort the extraction

---
 klayout_pex/rcx25/c/overlap_extractor.py      |  6 ++++--
 .../rcx25/c/sidewall_and_fringe_extractor.py  | 21 ++++++++++++-------
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/klayout_pex/rcx25/c/overlap_extractor.py b/klayout_pex/rcx25/c/overlap_extractor.py
index bcb9300..d10e13e 100644
--- a/klayout_pex/rcx25/c/overlap_extractor.py
+++ b/klayout_pex/rcx25/c/overlap_extractor.py
@@ -120,11 +120,13 @@ class OverlapExtractor:
                     top_overlap_specs = self.tech_info.overlap_cap_by_layer_names.get(top_layer_name, None)
                     if not top_overlap_specs:
                         warning(f"No overlap cap specified for layer top={top_layer_name}")
-                        return
+                        shielded_region.insert(polygon_above)
+                        continue
                     overlap_cap_spec = top_overlap_specs.get(bot_layer_name, None)
                     if not overlap_cap_spec:
                         warning(f"No overlap cap specified for layer bottom={bot_layer_name}")
-                        return
+                        shielded_region.insert(polygon_above)
+                        continue
 
                     top_region = kdb.Region(polygon_above)
 
diff --git a/klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py b/klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py
index 89d238c..cf896e1 100644
--- a/klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py
+++ b/klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py
@@ -265,7 +265,10 @@ class SidewallAndFringeExtractor:
             if net1 == net2:
                 return
 
-            sidewall_cap_spec = self.tech_info.sidewall_cap_by_layer_name[layer_name]
+            sidewall_cap_spec = self.tech_info.sidewall_cap_by_layer_name.get(layer_name, None)
+            if not sidewall_cap_spec:
+                warning(f"No sidewall cap specified for layer {layer_name}")
+                return
 
             # TODO!
 
@@ -377,14 +380,18 @@ class SidewallAndFringeExtractor:
             ]
 
             # NOTE: overlap_cap_by_layer_names is top/bot (dict is not symmetric)
-            overlap_cap_spec = self.tech_info.overlap_cap_by_layer_names[inside_layer_name].get(outside_layer_name,
-                                                                                                None)
+            overlap_caps = self.tech_info.overlap_cap_by_layer_names
+            overlap_cap_spec = overlap_caps.get(inside_layer_name, {}).get(outside_layer_name, None)
             if not overlap_cap_spec:
-                overlap_cap_spec = self.tech_info.overlap_cap_by_layer_names[outside_layer_name][inside_layer_name]
+                overlap_cap_spec = overlap_caps.get(outside_layer_name, {}).get(inside_layer_name, None)
+
+            sideoverlap_cap_spec = self.tech_info.side_overlap_cap_by_layer_names \
+                .get(inside_layer_name, {}).get(outside_layer_name, None)
 
-            substrate_cap_spec = self.tech_info.substrate_cap_by_layer_name[inside_layer_name]
-            sideoverlap_cap_spec = self.tech_info.side_overlap_cap_by_layer_names[inside_layer_name][
-                outside_layer_name]
+            if not overlap_cap_spec or not sideoverlap_cap_spec:
+                warning(f"No side overlap cap specified between layers "
+                        f"inside={inside_layer_name}, outside={outside_layer_name}")
+                return
 
             polygons_by_net: Dict[NetName, List[kdb.PolygonWithProperties]] = defaultdict(list)
 
-- 
2.43.0


From 31092878d5123be4395fee63e6c552e7181093e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:11 +0000
Subject: [PATCH 03/64] fix: sky130A: LVS label layers of met1..met5 carried
 the names of the pin layers

---
 cxx/gen_tech_pb/pdk/sky130A.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cxx/gen_tech_pb/pdk/sky130A.cpp b/cxx/gen_tech_pb/pdk/sky130A.cpp
index 45b1ef1..a14f23f 100644
--- a/cxx/gen_tech_pb/pdk/sky130A.cpp
+++ b/cxx/gen_tech_pb/pdk/sky130A.cpp
@@ -130,11 +130,11 @@ void buildLVSComputedLayers(kpex::tech::Technology *tech) {
 
     addComputedLayer(tech, METAL,   KLBL, "poly_label",   66, 5,  "poly.label", "Poly label");
     addComputedLayer(tech, METAL,   KLBL, "li_label",     67, 5,  "li1.label",  "li1 label");
-    addComputedLayer(tech, METAL,   KLBL, "met1_pin_con", 68, 5,  "met1.label", "met1 label");
-    addComputedLayer(tech, METAL,   KLBL, "met2_pin_con", 69, 5,  "met2.label", "met2 label");
-    addComputedLayer(tech, METAL,   KLBL, "met3_pin_con", 70, 5,  "met3.label", "met3 label");
-    addComputedLayer(tech, METAL,   KLBL, "met4_pin_con", 71, 5,  "met4.label", "met4 label");
-    addComputedLayer(tech, METAL,   KLBL, "met5_pin_con", 72, 5,  "met5.label", "met5 label");
+    addComputedLayer(tech, METAL,   KLBL, "met1_label",   68, 5,  "met1.label", "met1 label");
+    addComputedLayer(tech, METAL,   KLBL, "met2_label",   69, 5,  "met2.label", "met2 label");
+    addComputedLayer(tech, METAL,   KLBL, "met3_label",   70, 5,  "met3.label", "met3 label");
+    addComputedLayer(tech, METAL,   KLBL, "met4_label",   71, 5,  "met4.label", "met4 label");
+    addComputedLayer(tech, METAL,   KLBL, "met5_label",   72, 5,  "met5.label", "met5 label");
 }
 
 void buildProcessStackInfo(kpex::tech::ProcessStackInfo *psi) {
-- 
2.43.0


From dc1e25766d4c59fe26b3823d59602fe2a1fa7385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:21 +0000
Subject: [PATCH 04/64] fix: sky130A: via between met1 and met2 has no
 resistance (wrong original layer name)

---
 cxx/gen_tech_pb/pdk/sky130A.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/gen_tech_pb/pdk/sky130A.cpp b/cxx/gen_tech_pb/pdk/sky130A.cpp
index a14f23f..6832b67 100644
--- a/cxx/gen_tech_pb/pdk/sky130A.cpp
+++ b/cxx/gen_tech_pb/pdk/sky130A.cpp
@@ -94,7 +94,7 @@ void buildLVSComputedLayers(kpex::tech::Technology *tech) {
     addComputedLayer(tech, CONT,    KREG, "licon_psd_con",  66, 4402,  "licon1", "Computed layer for contact from psdm to li1");
     addComputedLayer(tech, CONT,    KREG, "licon_poly_con", 66, 4403,  "licon1", "Computed layer for contact from poly to li1");
     addComputedLayer(tech, VIA,     KREG, "mcon_con",  67, 44,  "mcon",       "Computed layer for contact between li1 and met1");
-    addComputedLayer(tech, VIA,     KREG, "via1_con",  68, 44,  "via1",       "Computed layer for contact between met1 and met2");
+    addComputedLayer(tech, VIA,     KREG, "via1_con",  68, 44,  "via",        "Computed layer for contact between met1 and met2");
     addComputedLayer(tech, VIA,     KREG, "via2_con",  69, 44,  "via2",       "Computed layer for contact between met2 and met3");
     addComputedLayer(tech, VIA,     KREG, "via3_ncap", 70, 144, "via3",       "Computed layer for via3 (no MIM cap)");
     addComputedLayer(tech, VIA,     KREG, "via4_ncap", 71, 144, "via4",       "Computed layer for via4 (no MIM cap)");
-- 
2.43.0


From 8e81e23fde420a9bfa8a79d9416edcdbca1e0bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:09 +0000
Subject: [PATCH 05/64] fix: whitebox netlist expansion removed devices while
 iterating over them (crash)

---
 klayout_pex/klayout/netlist_expander.py | 2 +-
 klayout_pex/rcx25/netlist_expander.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/klayout_pex/klayout/netlist_expander.py b/klayout_pex/klayout/netlist_expander.py
index 53d07c2..5da7ad2 100644
--- a/klayout_pex/klayout/netlist_expander.py
+++ b/klayout_pex/klayout/netlist_expander.py
@@ -45,7 +45,7 @@ class NetlistExpander:
         top_circuit: kdb.Circuit = expanded_netlist.circuit_by_name(top_cell_name)
 
         if not blackbox_devices:
-            for d in top_circuit.each_device():
+            for d in list(top_circuit.each_device()):
                 name = d.name or d.expanded_name()
                 info(f"Removing whiteboxed device {name}")
                 top_circuit.remove_device(d)
diff --git a/klayout_pex/rcx25/netlist_expander.py b/klayout_pex/rcx25/netlist_expander.py
index 596a157..b429b29 100644
--- a/klayout_pex/rcx25/netlist_expander.py
+++ b/klayout_pex/rcx25/netlist_expander.py
@@ -49,7 +49,7 @@ class RCX25NetlistExpander:
             #       because we only want to replace resistor / capacitor devices
             #       and for example not transitors
 
-            for d in top_circuit.each_device():
+            for d in list(top_circuit.each_device()):
                 name = d.name or d.expanded_name()
                 match d.device_class().__class__:
                     case kdb.DeviceClassResistor | kdb.DeviceClassResistorWithBulk:
-- 
2.43.0


From 313f3df7f6735c15fa53c543b2e785f4fa3e3b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:38 +0000
Subject: [PATCH 06/64] fix: 2.5D: capacitances in the expanded netlist are
 Farad, not femtofarad

---
 klayout_pex/rcx25/netlist_expander.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/rcx25/netlist_expander.py b/klayout_pex/rcx25/netlist_expander.py
index b429b29..9e3d4ac 100644
--- a/klayout_pex/rcx25/netlist_expander.py
+++ b/klayout_pex/rcx25/netlist_expander.py
@@ -110,7 +110,7 @@ class RCX25NetlistExpander:
             c: kdb.Device = top_circuit.create_device(cap, f"ext_{idx+1}")
             c.connect_terminal('A', net1)
             c.connect_terminal('B', net2)
-            c.set_parameter('C', cap_value)
+            c.set_parameter('C', cap_value * 1e-15)  # fF -> F
             if net1 == net2:
                 warning(f"Invalid attempt to create cap {c.name} between "
                         f"same net {net1} with value {'%.12g' % cap_value}")
-- 
2.43.0


From aea59198a7bb013e13a6bd7028e7919317fb4fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:09 +0000
Subject: [PATCH 07/64] fix: expanded netlists: reuse a net VSUBS (FC_GND) that
 exists in the layout

---
 klayout_pex/klayout/netlist_expander.py | 14 ++++++++++----
 klayout_pex/rcx25/netlist_expander.py   |  5 ++---
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/klayout_pex/klayout/netlist_expander.py b/klayout_pex/klayout/netlist_expander.py
index 5da7ad2..3badb20 100644
--- a/klayout_pex/klayout/netlist_expander.py
+++ b/klayout_pex/klayout/netlist_expander.py
@@ -56,13 +56,19 @@ class NetlistExpander:
         cap.description = "Extracted by kpex/FasterCap PEX"
         expanded_netlist.add(cap)
 
-        fc_gnd_net = top_circuit.create_net('FC_GND')  # create GROUND net
-        vsubs_net = top_circuit.create_net("VSUBS")
-        nets: List[kdb.Net] = []
-
         # build table: name -> net
         name2net: Dict[str, kdb.Net] = {n.expanded_name(): n for n in top_circuit.each_net()}
 
+        def net_by_name(net_name: str) -> kdb.Net:
+            # NOTE: could already exist in the layout
+            if net_name not in name2net:
+                name2net[net_name] = top_circuit.create_net(net_name)
+            return name2net[net_name]
+
+        fc_gnd_net = net_by_name('FC_GND')  # create GROUND net
+        vsubs_net = net_by_name('VSUBS')
+        nets: List[kdb.Net] = []
+
         # find nets for the matrix axes
         pattern = re.compile(r'^g\d+_(.*)$')
         for idx, nn in enumerate(cap_matrix.conductor_names):
diff --git a/klayout_pex/rcx25/netlist_expander.py b/klayout_pex/rcx25/netlist_expander.py
index 9e3d4ac..93607b0 100644
--- a/klayout_pex/rcx25/netlist_expander.py
+++ b/klayout_pex/rcx25/netlist_expander.py
@@ -80,9 +80,6 @@ class RCX25NetlistExpander:
         res.description = "Extracted by KPEX/2.5D"
         expanded_netlist.add(res)
 
-        fc_gnd_net = top_circuit.create_net('FC_GND')  # create GROUND net
-        vsubs_net = top_circuit.create_net("VSUBS")
-
         summary = extraction_results.summarize()
         cap_items = sorted(summary.capacitances.items())
         res_items = sorted(summary.resistances.items())
@@ -95,6 +92,8 @@ class RCX25NetlistExpander:
                 return
             name2net[net_name] = top_circuit.create_net(net_name)
 
+        add_net_if_needed('VSUBS')  # NOTE: could already exist in the layout
+
         # add additional nets for new nodes (e.g. created during R extraction of vias)
         for key, _ in cap_items:
             add_net_if_needed(key.net1)
-- 
2.43.0


From f554468128e9fdfb5ebffd1f93f6401859d19b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:17 +0000
Subject: [PATCH 08/64] fix: FasterCap/FastCap2 whitebox netlist expansion
 removed transistors, diodes and resistors

---
 klayout_pex/klayout/netlist_expander.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/klayout_pex/klayout/netlist_expander.py b/klayout_pex/klayout/netlist_expander.py
index 3badb20..cdf0f0a 100644
--- a/klayout_pex/klayout/netlist_expander.py
+++ b/klayout_pex/klayout/netlist_expander.py
@@ -45,7 +45,10 @@ class NetlistExpander:
         top_circuit: kdb.Circuit = expanded_netlist.circuit_by_name(top_cell_name)
 
         if not blackbox_devices:
+            # NOTE: only capacitors are replaced by the extracted ones (not transistors, etc.)
             for d in list(top_circuit.each_device()):
+                if not isinstance(d.device_class(), (kdb.DeviceClassCapacitor, kdb.DeviceClassCapacitorWithBulk)):
+                    continue
                 name = d.name or d.expanded_name()
                 info(f"Removing whiteboxed device {name}")
                 top_circuit.remove_device(d)
-- 
2.43.0


From c19edf17959e187416ef2f711961f15c1e288fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:14 +0000
Subject: [PATCH 09/64] fix: R extraction: internal nodes of different nets
 shared one name (nets shorted in the netlist)

---
 klayout_pex/rcx25/r/r_extractor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/klayout_pex/rcx25/r/r_extractor.py b/klayout_pex/rcx25/r/r_extractor.py
index b80f0f1..fff007e 100644
--- a/klayout_pex/rcx25/r/r_extractor.py
+++ b/klayout_pex/rcx25/r/r_extractor.py
@@ -365,7 +365,8 @@ class RExtractor:
                         r_node.net_name = polygon_port_device_terminals[rn.layer()][port_idx].net_name
                         r_node.location.box.net = r_node.net_name
                     case _:
-                        r_node.net_name = r_node.node_name
+                        # NOTE: node names are only unique within the network of a net
+                        r_node.net_name = f"{net_extraction_request.net_name}.{r_node.node_name}"
                         r_node.location.box.net = r_node.net_name
 
                 node_by_node_id[r_node.node_id] = r_node
-- 
2.43.0


From 49c45fde628d9e194dafb0672fcd99e8099c62cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:28 +0000
Subject: [PATCH 10/64] fix: 2.5D: resistors between the same two nets are
 parallel, not in series

---
 klayout_pex/rcx25/extraction_results.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/klayout_pex/rcx25/extraction_results.py b/klayout_pex/rcx25/extraction_results.py
index c3caad0..1ca4f78 100644
--- a/klayout_pex/rcx25/extraction_results.py
+++ b/klayout_pex/rcx25/extraction_results.py
@@ -134,6 +134,17 @@ class NetCoupleKey:
             return NetCoupleKey(self.net2, self.net1)
 
 
+def add_parallel_resistance(resistances: Dict[NetCoupleKey, float],
+                            key: NetCoupleKey,
+                            resistance: float):
+    # NOTE: resistors between the same two nets are parallel to each other
+    previous = resistances.get(key, None)
+    if previous is not None:
+        total = previous + resistance
+        resistance = previous * resistance / total if total > 0.0 else 0.0
+    resistances[key] = resistance
+
+
 @dataclass
 class ExtractionSummary:
     capacitances: Dict[NetCoupleKey, float]
@@ -147,7 +158,7 @@ class ExtractionSummary:
             for couple_key, cap in s.capacitances.items():
                 merged_capacitances[couple_key.normed()] += cap
             for couple_key, res in s.resistances.items():
-                merged_resistances[couple_key.normed()] += res
+                add_parallel_resistance(merged_resistances, couple_key.normed(), res)
         return ExtractionSummary(capacitances=merged_capacitances,
                                  resistances=merged_resistances)
 
@@ -202,8 +213,8 @@ class CellExtractionResults:
                 node_b = node_by_id[element.node_b.node_id]
                 resistance = element.resistance
                 normalized_key = NetCoupleKey(node_a.net_name, node_b.net_name).normed()
-                normalized_resistance_table[normalized_key] += resistance
-                
+                add_parallel_resistance(normalized_resistance_table, normalized_key, resistance)
+
         resistance_summary = ExtractionSummary(capacitances={},
                                                resistances=normalized_resistance_table)
 
-- 
2.43.0


From 5db5882ce839d4d127c01223ef6a81b721806666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:24 +0000
Subject: [PATCH 11/64] fix: shapes of unnamed nets were lost (3D model) or
 mixed up (R extraction)

---
 klayout_pex/klayout/lvsdb_extractor.py | 5 +++--
 klayout_pex/rcx25/r/r_extractor.py     | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/klayout_pex/klayout/lvsdb_extractor.py b/klayout_pex/klayout/lvsdb_extractor.py
index c2ea97c..a62a783 100755
--- a/klayout_pex/klayout/lvsdb_extractor.py
+++ b/klayout_pex/klayout/lvsdb_extractor.py
@@ -270,7 +270,8 @@ class KLayoutExtractionContext:
         shapes = kdb.Region()
         shapes.enable_properties()
 
-        requested_net_name = net.name if isinstance(net, kdb.Net) else net
+        # NOTE: same name as in the shape property 'net' (unnamed nets are called e.g. $1)
+        requested_net_name = net.expanded_name() if isinstance(net, kdb.Net) else net
 
         def add_shapes_from_region(source_region: kdb.Region):
             iter, transform = source_region.begin_shapes_rec()
@@ -397,7 +398,7 @@ class KLayoutExtractionContext:
                     terminal.device_id = d.id
                     terminal.terminal_id = td.id()
                     terminal.name = td.name
-                    terminal.net_name = n.name
+                    terminal.net_name = n.expanded_name()
 
                     for idx, shapes in shapes_by_lyr_idx.items():
                         lyr_idx = self.layer_index_map[idx]
diff --git a/klayout_pex/rcx25/r/r_extractor.py b/klayout_pex/rcx25/r/r_extractor.py
index fff007e..e78c5e8 100644
--- a/klayout_pex/rcx25/r/r_extractor.py
+++ b/klayout_pex/rcx25/r/r_extractor.py
@@ -267,7 +267,7 @@ class RExtractor:
                             r = self.pex_context.shapes_of_net(lyr.gds_pair, net)
                             if not r:
                                 continue
-                            l2r = get_or_create_net_request(net.name).region_by_layer.add()
+                            l2r = get_or_create_net_request(net.expanded_name()).region_by_layer.add()
                             l2r.layer.id = self.pex_context.annotated_layout.layer(*lvs_gds_pair)
                             l2r.layer.canonical_layer_name = self.pex_context.tech.canonical_layer_name_by_gds_pair[lvs_gds_pair]
                             l2r.layer.lvs_layer_name = lyr.lvs_layer_name
-- 
2.43.0


From 449ba6ebae579e2cd8b19487b1356471d80edead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:04 +0000
Subject: [PATCH 12/64] fix: R extraction: floating device terminals and
 terminals on blackboxed layers must not abort

---
 klayout_pex/klayout/lvsdb_extractor.py | 11 +++++++----
 klayout_pex/rcx25/r/r_extractor.py     |  2 ++
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/klayout_pex/klayout/lvsdb_extractor.py b/klayout_pex/klayout/lvsdb_extractor.py
index a62a783..de56447 100755
--- a/klayout_pex/klayout/lvsdb_extractor.py
+++ b/klayout_pex/klayout/lvsdb_extractor.py
@@ -376,10 +376,11 @@ class KLayoutExtractionContext:
             for td in d_kly.device_class().terminal_definitions():
                 n: kdb.Net = d_kly.net_for_terminal(td.id())
                 if n is None:
-                    warning(f"Skipping terminal {td.name} of device {d.name} ({d.device_class}) "
+                    warning(f"Skipping terminal {td.name} of device {d.device_name} ({d.device_class_name}) "
                             f"is not connected to any net")
                     terminal = d.terminals.add()
-                    terminal.id = td.id()
+                    terminal.device_id = d.id
+                    terminal.terminal_id = td.id()
                     terminal.name = td.name
                     terminal.net_name = ''  # TODO
                     continue
@@ -401,8 +402,10 @@ class KLayoutExtractionContext:
                     terminal.net_name = n.expanded_name()
 
                     for idx, shapes in shapes_by_lyr_idx.items():
-                        lyr_idx = self.layer_index_map[idx]
-                        lyr_info: kdb.LayerInfo = self.annotated_layout.layer_infos()[lyr_idx]
+                        lyr_idx = self.layer_index_map.get(idx, None)
+                        if lyr_idx is None:  # e.g. layers of blackboxed devices are not extracted
+                            continue
+                        lyr_info: kdb.LayerInfo = self.annotated_layout.get_info(lyr_idx)
 
                         region_by_layer = terminal.region_by_layer.add()
                         region_by_layer.layer.id = lyr_idx
diff --git a/klayout_pex/rcx25/r/r_extractor.py b/klayout_pex/rcx25/r/r_extractor.py
index e78c5e8..e7a0a24 100644
--- a/klayout_pex/rcx25/r/r_extractor.py
+++ b/klayout_pex/rcx25/r/r_extractor.py
@@ -246,6 +246,8 @@ class RExtractor:
 
         for device in rex_request.devices:
             for terminal in device.terminals:
+                if not terminal.net_name:  # not connected to any net
+                    continue
                 get_or_create_net_request(terminal.net_name).device_terminals.add().CopyFrom(terminal)
 
         netlist = self.pex_context.lvsdb.netlist()
-- 
2.43.0


From 2b1edabb07024388409d73be06ad91df77473c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:50 +0000
Subject: [PATCH 13/64] fix: LVS cache hit must read the cached LVSDB (not the
 one of an earlier run in the output dir)

---
 klayout_pex/kpex_cli.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index ba88909..4d5cd66 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -817,6 +817,7 @@ class KpexCLI:
                     else:
                         warning(f"Cache hit: Reusing cached LVSDB")
                         subproc(lvsdb_cache_path)
+                        lvsdb_path = lvsdb_cache_path
                         lvs_needed = False
 
                 if lvs_needed:
-- 
2.43.0


From a488682e4188dc8a787daf03badf213914cef245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:50 +0000
Subject: [PATCH 14/64] fix: failing LVS run must not reuse (and cache) the
 LVSDB of an earlier run

---
 klayout_pex/kpex_cli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index 4d5cd66..6e8ec10 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -821,6 +821,8 @@ class KpexCLI:
                         lvs_needed = False
 
                 if lvs_needed:
+                    if os.path.exists(lvsdb_path):  # otherwise, a failing LVS would leave the outdated one
+                        os.remove(lvsdb_path)
                     lvs_runner = LVSRunner()
                     lvs_runner.run_klayout_lvs(exe_path=args.klayout_exe_path,
                                                lvs_script=args.lvs_script_path,
-- 
2.43.0


From 6a5528cb75a5843efaa3dfbf0e7387f8f1cbb7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:50 +0000
Subject: [PATCH 15/64] fix: interrupted run must not leave a truncated LVSDB
 in the cache

---
 klayout_pex/kpex_cli.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index 6e8ec10..5c189a2 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -835,7 +835,10 @@ class KpexCLI:
                         cache_dir_path = os.path.dirname(lvsdb_cache_path)
                         if not os.path.exists(cache_dir_path):
                             os.makedirs(cache_dir_path, exist_ok=True)
-                        shutil.copy(lvsdb_path, lvsdb_cache_path)
+                        # NOTE: interrupted copies must not be mistaken for a cached LVSDB
+                        lvsdb_cache_tmp_path = f"{lvsdb_cache_path}.{os.getpid()}.tmp"
+                        shutil.copy(lvsdb_path, lvsdb_cache_tmp_path)
+                        os.replace(lvsdb_cache_tmp_path, lvsdb_cache_path)
 
                 lvsdb.read(lvsdb_path)
         return lvsdb
-- 
2.43.0


From 87eeb511e9142e4a4e33e2b72b04524011ad8f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:50 +0000
Subject: [PATCH 16/64] fix: unknown --cell must be reported as argument error
 (crashed)

---
 klayout_pex/kpex_cli.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index 5c189a2..b875d40 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -385,7 +385,9 @@ class KpexCLI:
                         found_errors = True
 
                     is_only_top_cell = len(top_cells) == 1 and top_cells[0].name == args.cell_name
-                    if is_only_top_cell:
+                    if not found_cell:
+                        pass  # nothing to export, error already reported
+                    elif is_only_top_cell:
                         info(f"Found cell {args.cell_name} in GDS {args.gds_path} (only top cell)")
                     else:  # there are other cells => extract the top cell to a tmp layout
                         run_dir_id = f"{input_file_stem(args.gds_path)}__{args.effective_cell_name}"
-- 
2.43.0


From c02ecaeda83bece06090f8c9441cac5bb3989f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:50 +0000
Subject: [PATCH 17/64] fix: environment variable PDKPATH without PDK must not
 crash the argument parser

---
 klayout_pex/kpex_cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index b875d40..ef8a747 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -253,7 +253,7 @@ class KpexCLI:
 
         PDKPATH = os.environ.get('PDKPATH', None)
         default_magicrc_path = \
-            None if PDKPATH is None \
+            None if PDKPATH is None or 'PDK' not in os.environ \
             else os.path.abspath(f"{PDKPATH}/libs.tech/magic/{os.environ['PDK']}.magicrc")
         group_magic = main_parser.add_argument_group("MAGIC options")
         group_magic.add_argument('--magicrc', dest='magicrc_path', default=default_magicrc_path,
-- 
2.43.0


From f2c3fc54a14489cd4200c1de01b06275f579a0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:50 +0000
Subject: [PATCH 18/64] fix: boolean arguments 1 and 0 were rejected

---
 klayout_pex/util/argparse_helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/klayout_pex/util/argparse_helpers.py b/klayout_pex/util/argparse_helpers.py
index 20082be..a26f9b5 100644
--- a/klayout_pex/util/argparse_helpers.py
+++ b/klayout_pex/util/argparse_helpers.py
@@ -61,9 +61,9 @@ def true_or_false(arg) -> bool:
         return arg
 
     match str(arg).lower():
-        case 'yes' | 'true' | 't' | 'y' | 1:
+        case 'yes' | 'true' | 't' | 'y' | '1':
             return True
-        case 'no' | 'false' | 'f' | 'n' | 0:
+        case 'no' | 'false' | 'f' | 'n' | '0':
             return False
         case _:
             raise argparse.ArgumentTypeError('Boolean value expected.')
-- 
2.43.0


From a360f2eb78f84c3e07c2d92f384a16dd2afb07a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:50 +0000
Subject: [PATCH 19/64] fix: CSV netlist had empty names for unnamed nets

---
 klayout_pex/klayout/netlist_csv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/klayout/netlist_csv.py b/klayout_pex/klayout/netlist_csv.py
index c30e145..288a584 100644
--- a/klayout_pex/klayout/netlist_csv.py
+++ b/klayout_pex/klayout/netlist_csv.py
@@ -56,4 +56,4 @@ class NetlistCSVWriter:
                     net2 = d.net_for_terminal('B')
                     cap = params['C']
                     cap_femto = round(cap * 1e15, 2)
-                    f.write(f"{dn};{net1.name};{net2.name};{cap_femto}\n")
+                    f.write(f"{dn};{net1.expanded_name()};{net2.expanded_name()};{cap_femto}\n")
-- 
2.43.0


From c0ba5a7dde9729bfb475d722ad6d817eeb9a182d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:50 +0000
Subject: [PATCH 20/64] fix: FastCap2: unit of the capacitance matrix was
 ignored

---
 klayout_pex/fastcap/fastcap_runner.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/klayout_pex/fastcap/fastcap_runner.py b/klayout_pex/fastcap/fastcap_runner.py
index 2d7caf7..81d924f 100644
--- a/klayout_pex/fastcap/fastcap_runner.py
+++ b/klayout_pex/fastcap/fastcap_runner.py
@@ -110,6 +110,11 @@ def run_fastcap(exe_path: str,
 # $2%GROUP3 3      -2115      130.9       6792      -5388
 # $2%GROUP3 4      54.97 -3.682e+05      -5388  3.753e+05
 def fastcap_parse_capacitance_matrix(log_path: str) -> CapacitanceMatrix:
+    unit_factors = {
+        'farads': 1.0, 'millifarads': 1e-3, 'microfarads': 1e-6, 'nanofarads': 1e-9,
+        'picofarads': 1e-12, 'femtofarads': 1e-15, 'attofarads': 1e-18
+    }
+
     with open(log_path, 'r') as f:
         rlines = f.readlines()
         rlines.reverse()
@@ -121,6 +126,9 @@ def fastcap_parse_capacitance_matrix(log_path: str) -> CapacitanceMatrix:
                 if not section_m:
                     raise Exception(f"Could not parse capacitor unit")
                 unit_str = section_m.group(1)
+                if unit_str not in unit_factors:
+                    raise Exception(f"Unknown capacitor unit {unit_str}")
+                unit_factor = unit_factors[unit_str]
 
                 dimension_line = rlines[idx-1].strip()
                 dimensions = dimension_line.split()  # remove whitespace
@@ -135,7 +143,7 @@ def fastcap_parse_capacitance_matrix(log_path: str) -> CapacitanceMatrix:
                     cells.pop(1)
                     cells = list(filter(lambda c: len(c) >= 1, cells))
                     conductor_names.append(cells[0])
-                    row = [float(cell)/1e6 for cell in cells[1:]]
+                    row = [float(cell)*unit_factor/1e6 for cell in cells[1:]]
                     rows.append(row)
                 cm = CapacitanceMatrix(conductor_names=conductor_names, rows=rows)
                 return cm
-- 
2.43.0


From 74ec988c8c9b6b9d7c09157cf3544c6f1223442f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:36 +0000
Subject: [PATCH 21/64] fix: R extraction: further top circuits must not abort

Cells without any connection to their parents are top circuits in the
netlist of the LVS database too. Netlist.top_circuit() throws in this
case, use the circuit of the extracted cell.
---
 klayout_pex/klayout/lvsdb_extractor.py | 4 +++-
 klayout_pex/rcx25/extractor.py         | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/klayout_pex/klayout/lvsdb_extractor.py b/klayout_pex/klayout/lvsdb_extractor.py
index de56447..50e60b8 100755
--- a/klayout_pex/klayout/lvsdb_extractor.py
+++ b/klayout_pex/klayout/lvsdb_extractor.py
@@ -349,7 +349,9 @@ class KLayoutExtractionContext:
 
     @cached_property
     def top_circuit(self) -> kdb.Circuit:
-        return self.lvsdb.netlist().top_circuit()
+        # NOTE: there can be further top circuits (e.g. cells that have no connection to their parent)
+        circuit = self.lvsdb.netlist().circuit_by_name(self.annotated_top_cell.name)
+        return circuit or self.lvsdb.netlist().top_circuit()
 
     @cached_property
     def devices_by_name(self) -> Dict[str, device_pb2.Device]:
diff --git a/klayout_pex/rcx25/extractor.py b/klayout_pex/rcx25/extractor.py
index 8e6e5ef..f02fb6a 100644
--- a/klayout_pex/rcx25/extractor.py
+++ b/klayout_pex/rcx25/extractor.py
@@ -192,7 +192,7 @@ class RCX25Extractor:
 
         # ------------------------------------------------------------------------
         if self.pex_mode.need_resistance():
-            c: kdb.Circuit = netlist.top_circuit()
+            c: kdb.Circuit = self.pex_context.top_circuit
             info(f"LVSDB: found {c.pin_count()}pins")
 
             # FIXME:
-- 
2.43.0


From 5e1f8226b6cdea330fe10cfc9ba320ce720b880f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:28 +0000
Subject: [PATCH 22/64] fix: side overlap table of a layer without substrate
 capacitance raised KeyError

---
 klayout_pex/tech_info.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/klayout_pex/tech_info.py b/klayout_pex/tech_info.py
index ade462c..92d5bc2 100644
--- a/klayout_pex/tech_info.py
+++ b/klayout_pex/tech_info.py
@@ -395,7 +395,10 @@ class TechInfo:
 
         for k1, ve in d2.items():
             for k2, v in ve.items():
-                d[k1][k2] = v
+                if k1 not in d:
+                    d[k1] = {k2: v}
+                else:
+                    d[k1][k2] = v
 
         return d
 
-- 
2.43.0


From 314f197686db990e5b200140e5e3d2e30a8c1c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:37 +0000
Subject: [PATCH 23/64] fix: dielectric filter did not match names with capital
 letters

---
 klayout_pex/util/multiple_choice.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/klayout_pex/util/multiple_choice.py b/klayout_pex/util/multiple_choice.py
index be8c74c..5af59d4 100644
--- a/klayout_pex/util/multiple_choice.py
+++ b/klayout_pex/util/multiple_choice.py
@@ -58,12 +58,12 @@ class MultipleChoicePattern:
 
     def filter(self, choices: List[str]) -> List[str]:
         if self.has_all:
-            return [c for c in choices if c not in self.excluded]
-        return [c for c in choices if c in self.included]
+            return [c for c in choices if c.lower() not in self.excluded]
+        return [c for c in choices if c.lower() in self.included]
 
     def is_included(self, choice: str) -> bool:
         if self.has_none:
-            return choice in self.included
+            return choice.lower() in self.included
         if self.has_all:
-            return choice not in self.excluded
+            return choice.lower() not in self.excluded
         return False
-- 
2.43.0


From ba222dd2b0b92dde62d5e73ae1cebd1ce5f30c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:42 +0000
Subject: [PATCH 24/64] fix: sky130A: label layer of diff is 65/6 (65/5 is
 tap.label)

---
 cxx/gen_tech_pb/pdk/sky130A.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/gen_tech_pb/pdk/sky130A.cpp b/cxx/gen_tech_pb/pdk/sky130A.cpp
index 6832b67..7772512 100644
--- a/cxx/gen_tech_pb/pdk/sky130A.cpp
+++ b/cxx/gen_tech_pb/pdk/sky130A.cpp
@@ -48,7 +48,7 @@ void buildLayers(kpex::tech::Technology *tech) {
     //             purpose, name,    drw_gds, pin_gds, label_gds, description
     addLayer(tech, DNWELL,  "dnwell", 64,18,  -1,-1,  -1,-1,   "Deep N-well");
     addLayer(tech, NWELL,   "nwell",  64,20,  64,16,   64,5,   "N-well region");
-    addLayer(tech, DIFF,    "diff",   65,20,  65,16,   65,5,   "Active (diffusion) area");
+    addLayer(tech, DIFF,    "diff",   65,20,  65,16,   65,6,   "Active (diffusion) area");
     addLayer(tech, N_P_TAP, "tap",    65,44,  -1,-1,  -1,-1,   "Active (diffusion) area (type equal to the well/substrate underneath) (i.e., N+ and P+)");
     addLayer(tech, PIMP,    "psdm",   94,20,  -1,-1,  -1,-1,   "P+ source/drain implant");
     addLayer(tech, NIMP,    "nsdm",   93,44,  -1,-1,  -1,-1,   "N+ source/drain implant");
-- 
2.43.0


From e6d49867782b738af8ef9e75be082f690bfebb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:34 +0000
Subject: [PATCH 25/64] fix: sky130A: MIM cap vias reached 20 nm into the metal
 above (cap dielectric thickness forgotten)

---
 cxx/gen_tech_pb/pdk/sky130A.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cxx/gen_tech_pb/pdk/sky130A.cpp b/cxx/gen_tech_pb/pdk/sky130A.cpp
index 7772512..b23a8ae 100644
--- a/cxx/gen_tech_pb/pdk/sky130A.cpp
+++ b/cxx/gen_tech_pb/pdk/sky130A.cpp
@@ -297,9 +297,9 @@ void buildProcessStackInfo(kpex::tech::ProcessStackInfo *psi) {
     setContact(via,        "via1_con",       "met1",      "met2",      0.27,                    0.15,    0.17,  0.055);
     setContact(via2,       "via2_con",       "met2",      "met3",      0.42,                    0.20,    0.20,  0.04);
     setContact(via3_ncap,  "via3_ncap",      "met3",      "met4",      0.39,                    0.20,    0.20,  0.06);
-    setContact(via3_cap,   "via3_cap",       "met3",      "met4",      0.29,                    0.20,    0.20,  0.06);
+    setContact(via3_cap,   "via3_cap",       "met3",      "met4",      0.39 - capild_thickness - capm_thickness, 0.20,    0.20,  0.06);
     setContact(via4_ncap,  "via4_ncap",      "met4",      "met5",      0.505,                   0.80,    0.80,  0.19);
-    setContact(via4_cap,   "via4_cap",       "met4",      "met5",      0.505 - 0.1,             0.80,    0.80,  0.19);
+    setContact(via4_cap,   "via4_cap",       "met4",      "met5",      0.505 - capild_thickness - capm_thickness, 0.80,    0.80,  0.19);
 }
 
 void buildProcessParasiticsInfo(kpex::tech::ProcessParasiticsInfo *ex) {
-- 
2.43.0


From 8117ba3576403b51203827e73d0de72fcea35e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:23 +0000
Subject: [PATCH 26/64] fix: FasterCap model of a single conductor without
 dielectrics had no sides and no top

---
 klayout_pex/fastercap/fastercap_model_generator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/klayout_pex/fastercap/fastercap_model_generator.py b/klayout_pex/fastercap/fastercap_model_generator.py
index f0a1d2c..0b360b0 100644
--- a/klayout_pex/fastercap/fastercap_model_generator.py
+++ b/klayout_pex/fastercap/fastercap_model_generator.py
@@ -459,7 +459,8 @@ class FasterCapModelGenerator:
         debug(f"All conductor region out: {all_cout}")
 
         # check whether states are separated
-        a = reduce(lambda x, y: x+y, self.state.values())
+        # NOTE: the initial value ensures a new region, else a single state would be emptied below
+        a = reduce(lambda x, y: x+y, self.state.values(), kdb.Region())
         for k, s in self.state.items():
             r: kdb.Region = s - a
             if not r.is_empty():
-- 
2.43.0


From 8903931559fff78a2ae98c3f83c8cdb353a3e50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:23 +0000
Subject: [PATCH 27/64] fix: FasterCap model: vertical surfaces of skew edges
 had wrong lengths and positions

---
 klayout_pex/fastercap/fastercap_model_generator.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/klayout_pex/fastercap/fastercap_model_generator.py b/klayout_pex/fastercap/fastercap_model_generator.py
index 0b360b0..44d4b04 100644
--- a/klayout_pex/fastercap/fastercap_model_generator.py
+++ b/klayout_pex/fastercap/fastercap_model_generator.py
@@ -609,13 +609,14 @@ class FasterCapModelGenerator:
         de = kdb.DVector(edge.d().x / el, edge.d().y / el)
         ne = kdb.DVector(edge.d().y / el, -edge.d().x / el)
         p0 = ne * ne.sprod(kdb.DPoint(edge.p1) - kdb.DPoint()) + kdb.DPoint()
-        x1 = (edge.p1 - p0).sprod(de)
-        x2 = (edge.p2 - p0).sprod(de)
+        # NOTE: floating point vectors, as integer ones would round the direction of skew edges
+        x1 = (kdb.DPoint(edge.p1) - p0).sprod(de)
+        x2 = (kdb.DPoint(edge.p2) - p0).sprod(de)
 
         key = VKey(kk, p0, de)
-        surface = kdb.Box(x1,
+        surface = kdb.Box(math.floor(x1 + 0.5),
                           math.floor(self.z / self.dbu + 0.5),
-                          x2,
+                          math.floor(x2 + 0.5),
                           math.floor(self.zz / self.dbu + 0.5))
         return key, surface
 
-- 
2.43.0


From f425215968cce5db87515304a0fcd35356ba664c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:13 +0000
Subject: [PATCH 28/64] fix: FasterCap model: dielectrics appeared below
 conductors that start where a dielectric of higher priority ends

---
 klayout_pex/fastercap/fastercap_model_generator.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/klayout_pex/fastercap/fastercap_model_generator.py b/klayout_pex/fastercap/fastercap_model_generator.py
index 44d4b04..27abdc5 100644
--- a/klayout_pex/fastercap/fastercap_model_generator.py
+++ b/klayout_pex/fastercap/fastercap_model_generator.py
@@ -413,7 +413,6 @@ class FasterCapModelGenerator:
                 # compute merged events
                 if mk not in self.current:
                     self.current[mk] = []
-                current_before = self.current[mk][0].dup() if len(self.current[mk]) >= 1 else kdb.Region()
                 lin, lout, current = self._merge_events(pyra=self.current[mk],
                                                         lin=self.layers_in.get(mk, None),
                                                         lout=self.layers_out.get(mk, None))
@@ -426,14 +425,11 @@ class FasterCapModelGenerator:
                     self.state[mk] = kdb.Region()
 
                 # legalize in and out events
-                lin_org = lin.dup()
-                lout_org = lout.dup()
-                lout &= self.state[mk]
-                lin -= all
-                lout += current & all_in
-                lin += current_before & all_out
-                lin -= lout_org
-                lout -= lin_org
+                # NOTE: only what is not occupied by higher priority materials is visible,
+                #       below as well as above this height
+                visible = current - all
+                lin = visible - self.state[mk]
+                lout = self.state[mk] - visible
 
                 # tracks the legalized horizontal cuts
                 self.state[mk] += lin
-- 
2.43.0


From 428858b35742ba6e5caed523271da3cc28b97c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:03 +0000
Subject: [PATCH 29/64] fix: net names with path separators or too many bytes
 made writing of FasterCap input and STL files fail

---
 .../fastercap/fastercap_model_generator.py    | 42 ++++++++++++++-----
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/klayout_pex/fastercap/fastercap_model_generator.py b/klayout_pex/fastercap/fastercap_model_generator.py
index 27abdc5..89833d1 100644
--- a/klayout_pex/fastercap/fastercap_model_generator.py
+++ b/klayout_pex/fastercap/fastercap_model_generator.py
@@ -733,13 +733,35 @@ class FasterCapModelGenerator:
 
         self.diel_data = dk
 
-    def write_fastcap(self, output_dir_path: str, prefix: str) -> str:
+    @staticmethod
+    def _file_name_for_net(output_dir_path: str,
+                           prefix: str,
+                           net_name: str,
+                           suffix: str) -> str:
+        # NOTE: net names can contain path separators and can be longer than file names are allowed to be
+        short_name = net_name.replace('/', '_').replace(os.sep, '_')
+        fn = f"{prefix}{short_name}{suffix}"
+
         max_filename_length: Optional[int] = None
         try:
             max_filename_length = os.pathconf(output_dir_path, 'PC_NAME_MAX')
         except AttributeError:
             pass  # NOTE: windows does not support the os.pathconf attribute
 
+        is_too_long = max_filename_length is not None and len(fn.encode('utf-8')) > max_filename_length
+        if is_too_long:
+            warning(f"Unusual long net name detected: {net_name}")
+        if is_too_long or short_name != net_name:
+            d = hashlib.md5(net_name.encode('utf-8')).digest()
+            h = base64.urlsafe_b64encode(d).decode('utf-8').rstrip('=')
+            suffix = f"_{h}{suffix}"
+            if max_filename_length is not None:
+                remaining_len = max_filename_length - len(f"{prefix}{suffix}".encode('utf-8'))
+                short_name = short_name.encode('utf-8')[:remaining_len].decode('utf-8', errors='ignore')
+            fn = f"{prefix}{short_name}{suffix}"
+        return fn
+
+    def write_fastcap(self, output_dir_path: str, prefix: str) -> str:
         lst_fn = os.path.join(output_dir_path, f"{prefix}.lst")
         file_num = 0
         lst_file: List[str] = [f"* k_void={'%.12g' % self.k_void}"]
@@ -798,14 +820,10 @@ class FasterCapModelGenerator:
 
                 outside = outside or '(void)'
                 # lst_file.append(f"* Conductor interface: outside={outside}, net={nn}")
-                fn = f"{prefix}{file_num}_outside={outside}_net={nn}.geo"
-                if max_filename_length is not None and len(fn) > max_filename_length:
-                    warning(f"Unusual long net name detected: {nn}")
-                    d = hashlib.md5(nn.encode('utf-8')).digest()
-                    h = base64.urlsafe_b64encode(d).decode('utf-8').rstrip('=')
-                    remaining_len = len(f"{prefix}_{file_num}_outside={outside}_net=.geo")
-                    short_nn = nn[0: (max_filename_length - remaining_len - len(h) - 1)] + f"_{h}"
-                    fn = f"{prefix}{file_num}_outside={outside}_net={short_nn}.geo"
+                fn = self._file_name_for_net(output_dir_path=output_dir_path,
+                                             prefix=f"{prefix}{file_num}_outside={outside}_net=",
+                                             net_name=nn,
+                                             suffix='.geo')
                 output_path = os.path.join(output_dir_path, fn)
                 self._write_fastercap_geo(output_path=output_path,
                                           data=data,
@@ -969,7 +987,11 @@ class FasterCapModelGenerator:
 
         for nn in self.net_names:
             tris = self._collect_cond_tris(nn)
-            output_path = os.path.join(output_dir_path, f"{prefix}cond_{nn}.stl")
+            fn = self._file_name_for_net(output_dir_path=output_dir_path,
+                                         prefix=f"{prefix}cond_",
+                                         net_name=nn,
+                                         suffix='.stl')
+            output_path = os.path.join(output_dir_path, fn)
             self._write_as_stl(output_path, tris)
 
     @staticmethod
-- 
2.43.0


From 5377fe5243aef98b3b6250d24bde572c17bbe1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:09 +0000
Subject: [PATCH 30/64] fix: FasterCap model: stacked conformal dielectrics
 counted the metal thickness again and lay inside each other where no metal is

---
 klayout_pex/fastercap/fastercap_input_builder.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/klayout_pex/fastercap/fastercap_input_builder.py b/klayout_pex/fastercap/fastercap_input_builder.py
index c746e51..779b243 100644
--- a/klayout_pex/fastercap/fastercap_input_builder.py
+++ b/klayout_pex/fastercap/fastercap_input_builder.py
@@ -281,7 +281,9 @@ class FasterCapInputBuilder:
                             conf_diel = sidewall.conformal_dielectric_layer
                             d = math.floor(conf_diel.thickness_sidewall / self.dbu)
                             sidewall_region = sidewall_region.sized(d)
-                            h_delta = metal_layer.thickness + conf_diel.thickness_over_metal
+                            h_delta = conf_diel.thickness_over_metal
+                            if sidewall_height < metal_layer.thickness:  # not yet covered by a dielectric below
+                                h_delta += metal_layer.thickness
                             sidewall_height += h_delta
                             info(f"Conformal dielectric (sidewall) {sidewall.name}: "
                                  f"z={metal_layer.z}, height={sidewall_height}")
@@ -294,13 +296,14 @@ class FasterCapInputBuilder:
                                 no_metal_region = kdb.Region()
                                 no_metal_region.insert(no_metal_block)
                                 no_metal_region -= sidewall_region
-                                no_metal_height = conf_diel.thickness_where_no_metal
                                 info(f"Conformal dielectric (where no metal) {sidewall.name}: "
-                                     f"z={metal_layer.z}, height={no_metal_height}")
+                                     f"z={metal_layer.z + no_metal_height}, "
+                                     f"height={conf_diel.thickness_where_no_metal}")
                                 model_builder.add_dielectric(material_name=sidewall.name,
                                                              layer=no_metal_region,
-                                                             z=metal_layer.z,
-                                                             height=no_metal_height)
+                                                             z=metal_layer.z + no_metal_height,
+                                                             height=conf_diel.thickness_where_no_metal)
+                                no_metal_height += conf_diel.thickness_where_no_metal
 
                     sidewallee = sidewall.name
 
-- 
2.43.0


From e29871fe2f45bab17b324da5c697169509dccf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:01 +0000
Subject: [PATCH 31/64] fix: FastCap2 log: matrices with names of different
 lengths or ten and more conductors were read wrongly

---
 klayout_pex/fastcap/fastcap_runner.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/klayout_pex/fastcap/fastcap_runner.py b/klayout_pex/fastcap/fastcap_runner.py
index 81d924f..d572065 100644
--- a/klayout_pex/fastcap/fastcap_runner.py
+++ b/klayout_pex/fastcap/fastcap_runner.py
@@ -135,13 +135,12 @@ def fastcap_parse_capacitance_matrix(log_path: str) -> CapacitanceMatrix:
                 dim = len(dimensions)
                 conductor_names: List[str] = []
                 rows: List[List[float]] = []
-                for i in reversed(range(idx-1-dim, idx-1)):
-                    line = rlines[i].strip()
-                    cells = [cell.strip() for cell in line.split(' ')]
-                    if cells[1] != str(i):
-                        warning(f"Expected capacitor matrix row to have index {i}, but obtained {cells[1]}")
+                for row_number, i in enumerate(reversed(range(idx-1-dim, idx-1)), start=1):
+                    # NOTE: names and row numbers are padded to the same width
+                    cells = rlines[i].split()
+                    if cells[1] != str(row_number):
+                        warning(f"Expected capacitor matrix row to have index {row_number}, but obtained {cells[1]}")
                     cells.pop(1)
-                    cells = list(filter(lambda c: len(c) >= 1, cells))
                     conductor_names.append(cells[0])
                     row = [float(cell)*unit_factor/1e6 for cell in cells[1:]]
                     rows.append(row)
-- 
2.43.0


From 3fdcf7ce3fcaefeea2e8a222dd4a66e1fbccfc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:57 +0000
Subject: [PATCH 32/64] fix: FastCap2 results could not be expanded into a
 netlist (conductor names, several conductors of one net)

---
 klayout_pex/klayout/netlist_expander.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/klayout_pex/klayout/netlist_expander.py b/klayout_pex/klayout/netlist_expander.py
index cdf0f0a..e049f04 100644
--- a/klayout_pex/klayout/netlist_expander.py
+++ b/klayout_pex/klayout/netlist_expander.py
@@ -29,6 +29,7 @@ from typing import *
 import klayout.db as kdb
 
 from ..log import (
+    debug,
     info,
     warning,
 )
@@ -73,10 +74,13 @@ class NetlistExpander:
         nets: List[kdb.Net] = []
 
         # find nets for the matrix axes
-        pattern = re.compile(r'^g\d+_(.*)$')
+        # NOTE: FasterCap names conductors g<N>_<net>, FastCap2 names them <net>%GROUP<N>
+        pattern = re.compile(r'^(?:(?P<fastcap>.*)%GROUP\d+|g\d+_(?P<fastercap>.*))$')
         for idx, nn in enumerate(cap_matrix.conductor_names):
             m = pattern.match(nn)
-            nn = m.group(1)
+            if not m:
+                raise Exception(f"Unexpected conductor name {nn} in capacitance matrix")
+            nn = m.group('fastcap') or m.group('fastercap')
             if nn not in name2net:
                 raise Exception(f"No net found with name {nn}, net names are: {list(name2net.keys())}")
             n = name2net[nn]
@@ -89,14 +93,14 @@ class NetlistExpander:
                               net1: kdb.Net,
                               net2: kdb.Net,
                               cap_value: float):
-            if cap_value > cap_threshold:
+            if net1 == net2:
+                # NOTE: FastCap2 lists a conductor more than once, if it is part of several groups
+                debug(f"Ignoring capacitance matrix cell [{i},{j}], both conductors are part of net {net1.name}")
+            elif cap_value > cap_threshold:
                 c: kdb.Device = top_circuit.create_device(cap, f"Cext_{i}_{j}")
                 c.connect_terminal('A', net1)
                 c.connect_terminal('B', net2)
                 c.set_parameter('C', cap_value)
-                if net1 == net2:
-                    raise Exception(f"Invalid attempt to create cap {c.name} between "
-                                    f"same net {net1} with value {'%.12g' % cap_value}")
             else:
                 warning(f"Ignoring capacitance matrix cell [{i},{j}], "
                         f"{'%.12g' % cap_value} is below threshold {'%.12g' % cap_threshold}")
-- 
2.43.0


From 3ccb5c64bde194bcdcb35cced1fc51c892dc3829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:25 +0000
Subject: [PATCH 33/64] fix: netlist reduction mixed up devices of different
 classes (KLayout can't combine devices of a copied netlist)

---
 klayout_pex/klayout/netlist_reducer.py | 42 +++++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/klayout_pex/klayout/netlist_reducer.py b/klayout_pex/klayout/netlist_reducer.py
index d4f0dd2..b7e0926 100644
--- a/klayout_pex/klayout/netlist_reducer.py
+++ b/klayout_pex/klayout/netlist_reducer.py
@@ -31,12 +31,52 @@ from ..log import (
 
 
 class NetlistReducer:
+    @staticmethod
+    def _combine_parallel_devices(circuit: kdb.Circuit):
+        """
+        Merges parallel capacitors and parallel resistors.
+
+        NOTE: Netlist.combine_devices() can't be used on a copy of a netlist,
+              it takes devices of different device classes for the same there (KLayout 0.30)
+        """
+        first_device_by_key: Dict[Tuple, kdb.Device] = {}
+
+        for d in list(circuit.each_device()):
+            dc = d.device_class()
+            is_capacitor = isinstance(dc, kdb.DeviceClassCapacitor)
+            if not is_capacitor and not isinstance(dc, kdb.DeviceClassResistor):
+                continue
+
+            nets = {td.name: d.net_for_terminal(td.id()) for td in dc.terminal_definitions()}
+            if any(net is None for net in nets.values()):
+                continue
+            nets = {terminal: net.expanded_name() for terminal, net in nets.items()}
+            ab = tuple(sorted((nets.pop('A'), nets.pop('B'))))
+            first = first_device_by_key.setdefault((dc.name, ab, tuple(nets.items())), d)
+            if first is d:
+                continue
+
+            p1 = {pd.name: first.parameter(pd.id()) for pd in dc.parameter_definitions()}
+            p2 = {pd.name: d.parameter(pd.id()) for pd in dc.parameter_definitions()}
+            if is_capacitor:
+                first.set_parameter('C', p1['C'] + p2['C'])
+            else:
+                r1, r2 = p1['R'], p2['R']
+                if r1 + r2 > 0:
+                    first.set_parameter('R', r1 * r2 / (r1 + r2))
+                    first.set_parameter('L', (p1['L'] * r2 + p2['L'] * r1) / (r1 + r2))
+                first.set_parameter('W', p1['W'] + p2['W'])
+            for name in ('A', 'P'):  # area and perimeter
+                first.set_parameter(name, p1[name] + p2[name])
+            circuit.remove_device(d)
+
     @staticmethod
     def reduce(netlist: kdb.Netlist,
                top_cell_name: str,
                cap_threshold: float = 0.05e-15) -> kdb.Netlist:
         reduced_netlist: kdb.Netlist = netlist.dup()
-        reduced_netlist.combine_devices()  # merge C/R
+        for circuit in reduced_netlist.each_circuit():
+            NetlistReducer._combine_parallel_devices(circuit)  # merge C/R
 
         top_circuit: kdb.Circuit = reduced_netlist.circuit_by_name(top_cell_name)
 
-- 
2.43.0


From e7eaa31a077cba1de8de140cbaf72e98372e5219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:53 +0000
Subject: [PATCH 34/64] fix: repair of marker databases failed for category
 names with non-ASCII characters, backslashes or quotes

---
 klayout_pex/klayout/repair_rdb.py | 48 ++++++++++++++-----------------
 1 file changed, 22 insertions(+), 26 deletions(-)

diff --git a/klayout_pex/klayout/repair_rdb.py b/klayout_pex/klayout/repair_rdb.py
index 99dc179..dca6e9b 100644
--- a/klayout_pex/klayout/repair_rdb.py
+++ b/klayout_pex/klayout/repair_rdb.py
@@ -24,6 +24,7 @@
 import gzip
 import io
 import os.path
+import re
 import shutil
 import sys
 from typing import *
@@ -46,37 +47,32 @@ from ..log import (
 
 
 def parse_category_path(category_path: str) -> List[str]:
+    # NOTE: within quotes, KLayout escapes quotes and backslashes,
+    #       some control characters (\n, \r, \t) and (as octal bytes of UTF-8) all other non-ASCII characters
     within_escaped = False
-    within_backslash = False
-    current_word = ''
+    current_word = bytearray()
     path_list = []
-    for c in category_path:
+    i = 0
+    while i < len(category_path):
+        c = category_path[i]
+        i += 1
         match c:
-            case '.':
-                if within_backslash:
-                    current_word += c
-                    within_backslash = False
-                elif within_escaped:
-                    current_word += c
+            case '.' if not within_escaped:
+                path_list.append(current_word.decode('utf-8'))
+                current_word = bytearray()
+            case '\\' if i < len(category_path):
+                if m := re.compile(r'[0-7]{1,3}').match(category_path, i):
+                    current_word.append(int(m.group(), 8) & 0xff)
+                    i = m.end()
                 else:
-                    path_list.append(current_word)
-                    current_word = ''
-            case '\\':
-                if within_backslash:
-                    current_word += c
-                    within_backslash = False
-                else:
-                    within_backslash = True
+                    c = category_path[i]
+                    i += 1
+                    current_word += {'n': '\n', 'r': '\r', 't': '\t'}.get(c, c).encode('utf-8')
             case '\'':
-                if within_backslash:
-                    current_word += c
-                    within_backslash = False
-                else:
-                    within_escaped = not within_escaped
+                within_escaped = not within_escaped
             case _:
-                current_word += c
-    if len(current_word) >= 1:
-        path_list.append(current_word)
+                current_word += c.encode('utf-8')
+    path_list.append(current_word.decode('utf-8'))
     return path_list
 
 def repair_rdb_xml(xml_file: io.IOBase, new_xml_path: str):
@@ -93,7 +89,7 @@ def repair_rdb_xml(xml_file: io.IOBase, new_xml_path: str):
         elem = root
         for c in p:
             elemcats = elem.find("./categories")
-            subelem = elemcats.find("./category/name[.='{0}']/..".format(c))
+            subelem = next((e for e in elemcats.findall('./category') if (e.findtext('name') or '') == c), None)
             if subelem is None:
                 warning(f"In category path {p}, can't find element for component {c}")
                 new_category = ET.SubElement(elemcats, "category")
-- 
2.43.0


From 0412f8b385237e9f1f944c1014857964df7d8c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:31 +0000
Subject: [PATCH 35/64] fix: nodes, ports and resistors of Magic with names
 like a_n51_100# or out[0] or fractional values were ignored

---
 .../magic/magic_ext_data_structures.py        |  4 ++--
 klayout_pex/magic/magic_ext_file_parser.py    | 19 ++++++++++++-------
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/klayout_pex/magic/magic_ext_data_structures.py b/klayout_pex/magic/magic_ext_data_structures.py
index 7083809..93eb093 100644
--- a/klayout_pex/magic/magic_ext_data_structures.py
+++ b/klayout_pex/magic/magic_ext_data_structures.py
@@ -48,7 +48,7 @@ class Port:
 class Node:
     net: str
     int_r: int
-    fin_c: int
+    fin_c: float
     x_bot: int
     y_bot: int
     layer: str
@@ -94,7 +94,7 @@ class ExtData:
 class ResNode:
     name: str
     int_r: int
-    fin_c: int
+    fin_c: float
     x_bot: int
     y_bot: int
 
diff --git a/klayout_pex/magic/magic_ext_file_parser.py b/klayout_pex/magic/magic_ext_file_parser.py
index e64bf0e..5e3954b 100644
--- a/klayout_pex/magic/magic_ext_file_parser.py
+++ b/klayout_pex/magic/magic_ext_file_parser.py
@@ -41,6 +41,11 @@ from .magic_ext_data_structures import (
 )
 
 
+# NOTE: names are e.g. a_n51_100#, out[0], x1/y, d<1>, VDD.t0
+RE_NAME = r'[^"]+'
+RE_NUMBER = r'[+-]?[\d.]+(?:e[+-]?\d+)?'
+
+
 def parse_magic_pex_run(run_dir: Path) -> MagicPEXRun:
     # search for <cell>.ext files (C related)
     # search for <cell>.res.ext files (R related)
@@ -90,7 +95,7 @@ def parse_magic_ext_file(path: Path) -> ExtData:
             # port "VDD" 2 -600 800 500 1000 m1
             # port "VSS" 3 -600 500 500 700 m1
             m = re.match(
-                r'^port "(?P<net>\w+)" (?P<nr>\d+) (?P<x_bot>-?\d+) (?P<y_bot>-?\d+) (?P<x_top>-?\d+) (?P<y_top>-?\d+) (?P<layer>\w+)$',
+                rf'^port "(?P<net>{RE_NAME})" (?P<nr>-?\d+) (?P<x_bot>-?\d+) (?P<y_bot>-?\d+) (?P<x_top>-?\d+) (?P<y_top>-?\d+) (?P<layer>\S+)( .*)?$',
                 line.strip())
             if m:
                 ports.append(Port(net=m.group('net'),
@@ -101,18 +106,18 @@ def parse_magic_ext_file(path: Path) -> ExtData:
                                   layer=m.group('layer')))
 
             m = re.match(
-                r'^(node|substrate) "(?P<net>\w+)" (?P<int_r>\d+) (?P<fin_c>\d+) (?P<x_bot>-?\d+) (?P<y_bot>-?\d+) (?P<layer>\w+) .*$',
+                rf'^(node|substrate) "(?P<net>{RE_NAME})" (?P<int_r>-?\d+) (?P<fin_c>{RE_NUMBER}) (?P<x_bot>-?\d+) (?P<y_bot>-?\d+) (?P<layer>\S+)( .*)?$',
                 line.strip())
             if m:
                 nodes.append(Node(net=m.group('net'),
                                   int_r=int(m.group('int_r')),
-                                  fin_c=int(m.group('fin_c')),
+                                  fin_c=float(m.group('fin_c')),
                                   x_bot=int(m.group('x_bot')),
                                   y_bot=int(m.group('y_bot')),
                                   layer=m.group('layer')))
 
             m = re.match(
-                r'^device (?P<type>\w+) (?P<model>\w+) (?P<x_bot>-?\d+) (?P<y_bot>-?\d+) (?P<x_top>-?\d+) (?P<y_top>-?\d+) .*$',
+                r'^device (?P<type>\w+) (?P<model>\S+) (?P<x_bot>-?\d+) (?P<y_bot>-?\d+) (?P<x_top>-?\d+) (?P<y_top>-?\d+) .*$',
                 line.strip())
             if m:
                 t = m.group('type')
@@ -133,17 +138,17 @@ def parse_magic_res_ext_file(path: Path) -> ResExtData:
     with open(path, 'r') as f:
         for line in f.readlines():
             m = re.match(
-                r'^rnode "(?P<name>[\w\\.]+)" (?P<int_r>-?\d+) (?P<fin_c>-?\d+) (?P<x_bot>-?\d+) (?P<y_bot>-?\d+) 0$',
+                rf'^rnode "(?P<name>{RE_NAME})" (?P<int_r>-?\d+) (?P<fin_c>{RE_NUMBER}) (?P<x_bot>-?\d+) (?P<y_bot>-?\d+) 0$',
                 line.strip())
             if m:
                 rnodes.append(ResNode(name=m.group('name'),
                                       int_r=int(m.group('int_r')),  # NOTE: R is always 0!
-                                      fin_c=int(m.group('fin_c')),
+                                      fin_c=float(m.group('fin_c')),
                                       x_bot=int(m.group('x_bot')),
                                       y_bot=int(m.group('y_bot'))))
 
             m = re.match(
-                r'^resist "(?P<node1>[\w\\.]+)" "(?P<node2>[\w\\.]+)" (?P<value>-?[\d\\.]+)$',
+                rf'^resist "(?P<node1>{RE_NAME})" "(?P<node2>{RE_NAME})" (?P<value>{RE_NUMBER})$',
                 line.strip())
             if m:
                 resistors.append(Resistor(node1=m.group('node1'),
-- 
2.43.0


From 1d6771e1f7997777986761f9e6138254787d94f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:31 +0000
Subject: [PATCH 36/64] fix: Magic markers were off by one database unit
 (truncated coordinates), default output path of the log analyzer was not used

---
 klayout_pex/magic/magic_log_analyzer.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/klayout_pex/magic/magic_log_analyzer.py b/klayout_pex/magic/magic_log_analyzer.py
index bd943a5..8672551 100755
--- a/klayout_pex/magic/magic_log_analyzer.py
+++ b/klayout_pex/magic/magic_log_analyzer.py
@@ -68,15 +68,16 @@ class MagicLogAnalyzer:
         dbu_to_um = 200.0
 
         def box_for_point_dbu(x: float, y: float) -> kdb.Box:
+            x, y = round(x), round(y)
             return kdb.Box(x, y, x + 20, y + 20)
 
         for p in cell_data.ext_data.ports:
             port_cat = self.report.create_category(parent=ports_cat, name=f"{p.net} ({p.layer})")
             shapes = kdb.Shapes()
-            shapes.insert(kdb.Box(p.x_bot / dbu_to_um / self.dbu,
-                                  p.y_bot / dbu_to_um / self.dbu,
-                                  p.x_top / dbu_to_um / self.dbu,
-                                  p.y_top / dbu_to_um / self.dbu))
+            shapes.insert(kdb.Box(round(p.x_bot / dbu_to_um / self.dbu),
+                                  round(p.y_bot / dbu_to_um / self.dbu),
+                                  round(p.x_top / dbu_to_um / self.dbu),
+                                  round(p.y_top / dbu_to_um / self.dbu)))
             self.report.create_items(cell_id=rdb_cell.rdb_id(), category_id=port_cat.rdb_id(),
                                      trans=kdb.CplxTrans(mag=self.dbu), shapes=shapes)
 
@@ -92,10 +93,10 @@ class MagicLogAnalyzer:
             device_cat = self.report.create_category(parent=devices_cat,
                                                      name=f"Type={d.device_type} Model={d.model}")
             shapes = kdb.Shapes()
-            shapes.insert(kdb.Box(d.x_bot / dbu_to_um / self.dbu,
-                                  d.y_bot / dbu_to_um / self.dbu,
-                                  d.x_top / dbu_to_um / self.dbu,
-                                  d.y_top / dbu_to_um / self.dbu))
+            shapes.insert(kdb.Box(round(d.x_bot / dbu_to_um / self.dbu),
+                                  round(d.y_bot / dbu_to_um / self.dbu),
+                                  round(d.x_top / dbu_to_um / self.dbu),
+                                  round(d.y_top / dbu_to_um / self.dbu)))
             self.report.create_items(cell_id=rdb_cell.rdb_id(), category_id=device_cat.rdb_id(),
                                      trans=kdb.CplxTrans(mag=self.dbu), shapes=shapes)
 
@@ -148,7 +149,7 @@ def _parse_args(arg_list: List[str] = None) -> argparse.Namespace:
         raise ArgumentValidationError(f"Intput magic log directory does not exist at '{args.magic_log_dir_path}'")
 
     if args.output_rdb_path is None:
-        os.path.join(args.magic_log_dir_path, 'report.rdb.gz')
+        args.output_rdb_path = os.path.join(args.magic_log_dir_path, 'report.rdb.gz')
 
     return args
 
-- 
2.43.0


From 6bee80b82979511dcf1d88e38a83e27a5a2477a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:43 +0000
Subject: [PATCH 37/64] fix: Magic scripts were broken Tcl for cell names with
 $ (KLayout PCell variants) and paths with spaces or brackets

---
 klayout_pex/magic/magic_runner.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/klayout_pex/magic/magic_runner.py b/klayout_pex/magic/magic_runner.py
index 28eb703..5373283 100644
--- a/klayout_pex/magic/magic_runner.py
+++ b/klayout_pex/magic/magic_runner.py
@@ -26,6 +26,7 @@ import time
 from typing import *
 
 import os
+import re
 import subprocess
 
 from ..log import (
@@ -58,6 +59,11 @@ class MagicMergeMode(StrEnum):
     DEFAULT = NONE
 
 
+def tcl_quoted(word: str) -> str:
+    # e.g. cell names with $ (KLayout PCell variants), paths with spaces
+    return re.sub(r'([\s\\{}\[\]$";])', r'\\\1', word)
+
+
 def prepare_magic_script(gds_path: str,
                          cell_name: str,
                          run_dir_path: str,
@@ -74,6 +80,11 @@ def prepare_magic_script(gds_path: str,
     run_dir_path = os.path.abspath(run_dir_path)
     output_netlist_path = os.path.abspath(output_netlist_path)
 
+    gds_path = tcl_quoted(gds_path)
+    run_dir_path = tcl_quoted(run_dir_path)
+    output_netlist_path = tcl_quoted(output_netlist_path)
+    cell_name = tcl_quoted(cell_name)
+
     halo_scale = 200.0
     halo_decl = '' if halo is None else f"\nextract halo {round(halo * halo_scale)}"
 
-- 
2.43.0


From 584d6f716a69f96a8aaca88e17c41d11e21acb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:43 +0000
Subject: [PATCH 38/64] fix: when MAGIC failed without exit status, netlist and
 markers of an earlier run were reported

---
 klayout_pex/kpex_cli.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index ef8a747..7ce2c63 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -592,6 +592,10 @@ class KpexCLI:
 
         os.makedirs(magic_run_dir, exist_ok=True)
 
+        # NOTE: otherwise, a failing MAGIC would leave the outdated ones
+        for outdated_path in [Path(output_netlist_path), *Path(magic_run_dir).glob('*.ext')]:
+            outdated_path.unlink(missing_ok=True)
+
         prepare_magic_script(gds_path=args.effective_gds_path,
                              cell_name=args.effective_cell_name,
                              run_dir_path=magic_run_dir,
-- 
2.43.0


From 59d89a13afa5be83ed3ddf76d3662c432938b400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:05 +0000
Subject: [PATCH 39/64] fix: FastCap2 engine failed with a relative output
 directory (chdir invalidated the other paths)

---
 klayout_pex/fastcap/fastcap_runner.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/klayout_pex/fastcap/fastcap_runner.py b/klayout_pex/fastcap/fastcap_runner.py
index d572065..301b726 100644
--- a/klayout_pex/fastcap/fastcap_runner.py
+++ b/klayout_pex/fastcap/fastcap_runner.py
@@ -48,13 +48,16 @@ def run_fastcap(exe_path: str,
                 iterative_tolerance: float = 0.01):
     work_dir = os.path.dirname(lst_file_path)
 
-    # we have to chdir into the directory containing the lst file,
+    # FastCap2 has to run within the directory containing the lst file,
     # so make all paths absolute, and the lst_file relative
+    # NOTE: don't chdir ourselves, as other (relative) paths would become invalid
+    if os.path.dirname(exe_path):
+        exe_path = os.path.abspath(exe_path)
     log_path = os.path.abspath(log_path)
     lst_file_path = os.path.basename(lst_file_path)
+    work_dir = os.path.abspath(work_dir)
 
-    info(f"Chdir to {work_dir}")
-    os.chdir(work_dir)
+    info(f"Running in directory {work_dir}")
     args = [
         exe_path,
         f"-o{expansion_order}",
@@ -78,6 +81,7 @@ def run_fastcap(exe_path: str,
     start = time.time()
 
     proc = subprocess.Popen(args,
+                            cwd=work_dir,
                             stdin=subprocess.DEVNULL,
                             stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT,
-- 
2.43.0


From 2946f45d4d042ecf3a016a09e6e37638c68e3db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:09 +0000
Subject: [PATCH 40/64] fix: an incomplete LVSDB of a killed LVS run was
 cached, so that all later runs failed

---
 klayout_pex/kpex_cli.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index 7ce2c63..29ed53c 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -837,6 +837,7 @@ class KpexCLI:
                                                log_path=lvs_log_path,
                                                lvsdb_path=lvsdb_path,
                                                verbose=args.klayout_lvs_verbose)
+                    lvsdb.read(lvsdb_path)  # NOTE: fails if incomplete, which must not be cached
                     if args.cache_lvs:
                         cache_dir_path = os.path.dirname(lvsdb_cache_path)
                         if not os.path.exists(cache_dir_path):
@@ -845,8 +846,8 @@ class KpexCLI:
                         lvsdb_cache_tmp_path = f"{lvsdb_cache_path}.{os.getpid()}.tmp"
                         shutil.copy(lvsdb_path, lvsdb_cache_tmp_path)
                         os.replace(lvsdb_cache_tmp_path, lvsdb_cache_path)
-
-                lvsdb.read(lvsdb_path)
+                else:
+                    lvsdb.read(lvsdb_path)
         return lvsdb
 
     def main(self, argv: List[str]):
-- 
2.43.0


From ecaf9c34a350eb5c1a9a6a7fcc8deffaafc4ab9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:09 +0000
Subject: [PATCH 41/64] fix: when the GDS was modified during LVS, the outdated
 LVSDB was cached as if it were newer

---
 klayout_pex/kpex_cli.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index 29ed53c..9be6d62 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -367,6 +367,7 @@ class KpexCLI:
                 error(f"Can't read GDS file (LVS input) at path {args.gds_path}")
                 found_errors = True
             else:
+                args.gds_mtime = os.path.getmtime(args.gds_path)
                 args.layout = kdb.Layout()
                 args.layout.read(args.gds_path)
 
@@ -838,7 +839,9 @@ class KpexCLI:
                                                lvsdb_path=lvsdb_path,
                                                verbose=args.klayout_lvs_verbose)
                     lvsdb.read(lvsdb_path)  # NOTE: fails if incomplete, which must not be cached
-                    if args.cache_lvs:
+                    if args.cache_lvs and os.path.getmtime(args.gds_path) != args.gds_mtime:
+                        warning(f"Input GDS was modified during LVS, extracted LVSDB is not cached")
+                    elif args.cache_lvs:
                         cache_dir_path = os.path.dirname(lvsdb_cache_path)
                         if not os.path.exists(cache_dir_path):
                             os.makedirs(cache_dir_path, exist_ok=True)
-- 
2.43.0


From a2007c40467b5d9421139ce15351802dfb013a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:14 +0000
Subject: [PATCH 42/64] fix: R extraction aborted on contacts and vias to a
 layer without any shapes

---
 klayout_pex/rcx25/r/r_extractor.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/klayout_pex/rcx25/r/r_extractor.py b/klayout_pex/rcx25/r/r_extractor.py
index e7a0a24..92fc81f 100644
--- a/klayout_pex/rcx25/r/r_extractor.py
+++ b/klayout_pex/rcx25/r/r_extractor.py
@@ -216,6 +216,15 @@ class RExtractor:
 
                             via.merge_distance = self.via_merge_distance
 
+        # vias which end on a layer without any shapes don't connect anything
+        conductor_ids = {c.layer.id for c in rex_tech.conductors}
+        for idx in reversed(range(len(rex_tech.vias))):
+            via = rex_tech.vias[idx]
+            if via.bottom_conductor.id not in conductor_ids or via.top_conductor.id not in conductor_ids:
+                warning(f"ignoring LVS layer {via.layer.lvs_layer_name} (layer {via.layer.canonical_layer_name}), "
+                        f"no shapes on its bottom or top layer")
+                del rex_tech.vias[idx]
+
         return rex_tech
 
     def prepare_request(self) -> pex_request_pb2.RExtractionRequest:
-- 
2.43.0


From c5575ae1ad595a10500097b566791423be6a2928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:57 +0000
Subject: [PATCH 43/64] fix: a contradictory --diel filter ended in a traceback
 instead of an argument error

---
 klayout_pex/kpex_cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index 9be6d62..a6c1a46 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -466,7 +466,7 @@ class KpexCLI:
             pattern_string: str = args.dielectric_filter
             args.dielectric_filter = MultipleChoicePattern(pattern=pattern_string)
         except ValueError as e:
-            error("Failed to parse --diel arg", e)
+            error(f"Failed to parse --diel arg: {e}")
             found_errors = True
 
         if args.cache_dir_path is None:
-- 
2.43.0


From 5f22ed93d595090190f1c729e73ac56338ab4bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:53 +0000
Subject: [PATCH 44/64] fix: --log_level all hid everything below warnings

---
 klayout_pex/log/logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/log/logger.py b/klayout_pex/log/logger.py
index ed882fd..123eb01 100644
--- a/klayout_pex/log/logger.py
+++ b/klayout_pex/log/logger.py
@@ -31,7 +31,7 @@ from typing import *
 
 
 class LogLevel(IntEnum):
-    ALL = 0
+    ALL = 1  # NOTE: 0 would be logging.NOTSET, i.e. the level of the root logger
     DEBUG = 10
     SUBPROCESS = 12
     VERBOSE = 15
-- 
2.43.0


From 7d4ca18d567e1275678a5f404b26798ab8d533d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:37 +0000
Subject: [PATCH 45/64] fix: keep all instances of a subcircuit in the netlist
 diagram

---
 klayout_pex/netlistsvg/netlist_json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/netlistsvg/netlist_json.py b/klayout_pex/netlistsvg/netlist_json.py
index b04c89e..e64c3cd 100644
--- a/klayout_pex/netlistsvg/netlist_json.py
+++ b/klayout_pex/netlistsvg/netlist_json.py
@@ -86,7 +86,7 @@ class NetlistJSONWriter:
                 port_directions[pin_text] = 'input'
                 connections[pin_text] = [self._get_or_create_id(net)]
 
-            cells_dict[f"{subcircuit.name}{subcircuit.cell_index}"] = {
+            cells_dict[f"X{sc.expanded_name()}"] = {
                 'hide_name': 1,
                 'type': f"${subcircuit.name}",
                 'port_directions': port_directions,
-- 
2.43.0


From 9a41f80c9288aa6e46bc11d772d039d7b29dabbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:58 +0000
Subject: [PATCH 46/64] fix: honour the --cell argument of the netlist program

---
 klayout_pex/netlist/netlist_cli.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/klayout_pex/netlist/netlist_cli.py b/klayout_pex/netlist/netlist_cli.py
index 93b5e36..c1f4eec 100755
--- a/klayout_pex/netlist/netlist_cli.py
+++ b/klayout_pex/netlist/netlist_cli.py
@@ -154,6 +154,11 @@ class NetlistCLI:
         top_circuit: kdb.Circuit
 
         match n_circuits:
+            case _ if args.cell_name is not None:
+                top_circuit = netlist.circuit_by_name(args.cell_name)
+                if top_circuit is None:
+                    error(f"Cell {args.cell_name} not found in SPICE netlist, top circuits are {top_circuit_names}")
+                    sys.exit(1)
             case 0:
                 error(f"No top circuit found in SPICE netlist, perhaps the SUBCKT with the ports is missing?!")
                 sys.exit(1)
-- 
2.43.0


From d11005013f28005efa765e460806531b9c952f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:58 +0000
Subject: [PATCH 47/64] fix: accept log levels by name in the netlist program

---
 klayout_pex/netlist/netlist_cli.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/klayout_pex/netlist/netlist_cli.py b/klayout_pex/netlist/netlist_cli.py
index c1f4eec..da0af51 100755
--- a/klayout_pex/netlist/netlist_cli.py
+++ b/klayout_pex/netlist/netlist_cli.py
@@ -82,7 +82,7 @@ class NetlistCLI:
         group_special.add_argument("--help", "-h", action='help', help="show this help message and exit")
         group_special.add_argument("--version", "-v", action='version', version=f'{PROGRAM_NAME} {__version__}')
         group_special.add_argument("--log_level", dest='log_level',
-                                   default=LogLevel.DEFAULT, type=LogLevel, choices=list(LogLevel),
+                                   default='subprocess',
                                    help=render_enum_help(topic='log_level', enum_cls=LogLevel))
 
         subparsers = main_parser.add_subparsers(dest="command", help="Sub-commands help")
@@ -119,6 +119,13 @@ class NetlistCLI:
         print("")
         found_errors = False
 
+        try:
+            args.log_level = LogLevel[args.log_level.upper()]
+        except KeyError:
+            error(f"Requested log level {args.log_level.lower()} does not exist, "
+                  f"{render_enum_help(topic='log_level', enum_cls=LogLevel, print_default=False)}")
+            found_errors = True
+
         match args.command:
             case None:
                 error(f"Command argument missing")
-- 
2.43.0


From 3eff1b788e29bd566035d3d4c2d4186899081032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:09 +0000
Subject: [PATCH 48/64] fix: keep the holes of polygons in messages

---
 klayout_pex/klayout/shapes_pb2_converter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/klayout_pex/klayout/shapes_pb2_converter.py b/klayout_pex/klayout/shapes_pb2_converter.py
index c69c81b..ebfc738 100644
--- a/klayout_pex/klayout/shapes_pb2_converter.py
+++ b/klayout_pex/klayout/shapes_pb2_converter.py
@@ -68,7 +68,8 @@ class ShapesConverter:
         net_name = polygon_kly.property('net')
         if net_name:
             polygon_pb.net = net_name
-        for p_kly in polygon_kly.each_point_hull():
+        # NOTE: there are no holes in the message, so connect them with the hull
+        for p_kly in polygon_kly.resolved_holes().each_point_hull():
             self.klayout_point_to_pb(p_kly, polygon_pb.hull_points.add())
 
     def klayout_region_to_pb(self,
-- 
2.43.0


From e7102d9a4de56b0293231c2551b723d5dffc1f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:01 +0000
Subject: [PATCH 49/64] fix: split skinny triangles at their obtuse corner

---
 klayout_pex/rcx25/r/resistor_network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/klayout_pex/rcx25/r/resistor_network.py b/klayout_pex/rcx25/r/resistor_network.py
index 5371083..b912bba 100644
--- a/klayout_pex/rcx25/r/resistor_network.py
+++ b/klayout_pex/rcx25/r/resistor_network.py
@@ -67,7 +67,7 @@ class ResistorNetwork:
         self.node_names = {}
 
     @staticmethod
-    def is_skinny_tri(pts: list[kdb.Point]) -> Optional[bool]:
+    def is_skinny_tri(pts: list[kdb.Point]) -> Optional[int]:
         for i in range(0, 3):
             pm1 = pts[i]
             p0 = pts[(i + 1) % 3]
@@ -78,7 +78,7 @@ class ResistorNetwork:
             l1 = (pm1 - p1).sq_length()
 
             if l0 + l1 < lm1 * (1.0 - 1e-10):
-                return i != 0
+                return i
 
         return None
 
-- 
2.43.0


From 91435d658a26b940d4d0fca96375540dc68c57cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:15 +0000
Subject: [PATCH 50/64] fix: show the last character of a program's output that
 doesn't end with a newline

---
 klayout_pex/fastcap/fastcap_runner.py       | 2 +-
 klayout_pex/fastercap/fastercap_runner.py   | 2 +-
 klayout_pex/klayout/lvs_runner.py           | 2 +-
 klayout_pex/magic/magic_runner.py           | 2 +-
 klayout_pex/netlistsvg/netlistsvg_runner.py | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/klayout_pex/fastcap/fastcap_runner.py b/klayout_pex/fastcap/fastcap_runner.py
index 301b726..f4a53d0 100644
--- a/klayout_pex/fastcap/fastcap_runner.py
+++ b/klayout_pex/fastcap/fastcap_runner.py
@@ -92,7 +92,7 @@ def run_fastcap(exe_path: str,
             line = proc.stdout.readline()
             if not line:
                 break
-            subproc(line[:-1])  # remove newline
+            subproc(line.removesuffix('\n'))
             f.writelines([line])
     proc.wait()
 
diff --git a/klayout_pex/fastercap/fastercap_runner.py b/klayout_pex/fastercap/fastercap_runner.py
index f91640f..1a56257 100644
--- a/klayout_pex/fastercap/fastercap_runner.py
+++ b/klayout_pex/fastercap/fastercap_runner.py
@@ -87,7 +87,7 @@ def run_fastercap(exe_path: str,
             line = proc.stdout.readline()
             if not line:
                 break
-            subproc(line[:-1])  # remove newline
+            subproc(line.removesuffix('\n'))
             f.writelines([line])
     proc.wait()
 
diff --git a/klayout_pex/klayout/lvs_runner.py b/klayout_pex/klayout/lvs_runner.py
index 6fc3980..ae9ed23 100644
--- a/klayout_pex/klayout/lvs_runner.py
+++ b/klayout_pex/klayout/lvs_runner.py
@@ -84,7 +84,7 @@ class LVSRunner:
                 line = proc.stdout.readline()
                 if not line:
                     break
-                subproc(line[:-1])  # remove newline
+                subproc(line.removesuffix('\n'))
                 f.writelines([line])
         proc.wait()
 
diff --git a/klayout_pex/magic/magic_runner.py b/klayout_pex/magic/magic_runner.py
index 5373283..03b8f45 100644
--- a/klayout_pex/magic/magic_runner.py
+++ b/klayout_pex/magic/magic_runner.py
@@ -205,7 +205,7 @@ def run_magic(exe_path: str,
             line = proc.stdout.readline()
             if not line:
                 break
-            subproc(line[:-1])  # remove newline
+            subproc(line.removesuffix('\n'))
             f.writelines([line])
     proc.wait()
 
diff --git a/klayout_pex/netlistsvg/netlistsvg_runner.py b/klayout_pex/netlistsvg/netlistsvg_runner.py
index 66b1dc9..245d1ad 100644
--- a/klayout_pex/netlistsvg/netlistsvg_runner.py
+++ b/klayout_pex/netlistsvg/netlistsvg_runner.py
@@ -73,7 +73,7 @@ def run_netlistsvg(exe_path: str,
             line = proc.stdout.readline()
             if not line:
                 break
-            subproc(line[:-1])  # remove newline
+            subproc(line.removesuffix('\n'))
             f.writelines([line])
     proc.wait()
 
-- 
2.43.0


From 90ff24756ba9b16fc0b7b84539857a79bd683c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:16 +0000
Subject: [PATCH 51/64] fix: show names and paths with brackets in messages
 literally instead of taking them for markup

---
 klayout_pex/log/logger.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/klayout_pex/log/logger.py b/klayout_pex/log/logger.py
index 123eb01..2a67c6f 100644
--- a/klayout_pex/log/logger.py
+++ b/klayout_pex/log/logger.py
@@ -47,14 +47,14 @@ class LogLevel(IntEnum):
         return {e.name: e for e in cls}
 
 
-class LogLevelFormatter(logging.Formatter):
-    def format(self, record: logging.LogRecord) -> str:
-        msg = record.getMessage()
+class LogLevelHandler(rich.logging.RichHandler):
+    # NOTE: no markup, as names and paths can contain brackets, e.g. out[a]
+    def render_message(self, record: logging.LogRecord, message: str) -> rich.console.ConsoleRenderable:
+        text = super().render_message(record, message)
         match record.levelno:
-            case LogLevel.WARNING.value: return f"[yellow]{msg}"
-            case LogLevel.ERROR.value: return f"[red]{msg}"
-            case _:
-                return msg
+            case LogLevel.WARNING.value: text.stylize_before('yellow')
+            case LogLevel.ERROR.value: text.stylize_before('red')
+        return text
 
 
 class LogLevelFilter(logging.Filter):
@@ -122,17 +122,17 @@ def configure_logger():
     )
     subprocess_rich_handler.addFilter(LogLevelFilter(['SUBPROCESS']))
 
-    rich_handler = rich.logging.RichHandler(
+    rich_handler = LogLevelHandler(
         console=console,
         omit_repeated_times=False,
         show_level=True,
-        markup=True,
+        markup=False,
         rich_tracebacks=True,
         tracebacks_suppress=[],
         keywords=[]
     )
 
-    rich_handler.setFormatter(LogLevelFormatter(fmt='%(message)s', datefmt='[%X]'))
+    rich_handler.setFormatter(logging.Formatter(fmt='%(message)s', datefmt='[%X]'))
     rich_handler.addFilter(LogLevelFilter(['SUBPROCESS'], invert=True))
 
     set_log_level(LogLevel.SUBPROCESS)
-- 
2.43.0


From 3e8a09199dbfad07532389b41119b8a5d88799fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:54 +0000
Subject: [PATCH 52/64] fix: print horizontal lines only if the log level is
 INFO or less, as documented

---
 klayout_pex/log/logger.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/klayout_pex/log/logger.py b/klayout_pex/log/logger.py
index 2a67c6f..b2aed07 100644
--- a/klayout_pex/log/logger.py
+++ b/klayout_pex/log/logger.py
@@ -163,7 +163,8 @@ def rule(title: str = '', **kwargs):  # pragma: no cover
 
     :param title: A title string to enclose in the console rule
     """
-    console.rule(title)
+    if get_log_level() <= LogLevel.INFO:
+        console.rule(title)
 
 
 def info(*args, **kwargs):
-- 
2.43.0


From d077502ff92978c79a932a3471286fa15974960e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:41 +0000
Subject: [PATCH 53/64] fix: scaling of fringe ratios divided by zero for a
 halo of 0 (or no overlap capacitance)

---
 klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py b/klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py
index cf896e1..08053fc 100644
--- a/klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py
+++ b/klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py
@@ -335,7 +335,7 @@ class SidewallAndFringeExtractor:
                 full_halo_ratio = (2.0 / math.pi) * math.atan(alpha_c * self.side_halo)
                 # NOTE: for a large enough halo, full_halo would be 1,
                 #       but it is smaller, so we compensate
-                if full_halo_ratio < 1.0:
+                if 0.0 < full_halo_ratio < 1.0:
                     cnear /= full_halo_ratio
                     cfar /= full_halo_ratio
 
-- 
2.43.0


From 5f1167d97d22b5e26e18cdcb3be545e54f73364c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:41 +0000
Subject: [PATCH 54/64] fix: the age of a cached LVSDB was compared in local
 time, which repeats an hour when daylight saving time ends

---
 klayout_pex/kpex_cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index a6c1a46..3e58edd 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -24,7 +24,7 @@
 #
 
 import argparse
-from datetime import datetime
+from datetime import datetime, timezone
 from enum import StrEnum
 from functools import cached_property
 import logging
@@ -797,7 +797,7 @@ class KpexCLI:
     @staticmethod
     def modification_date(filename: str) -> datetime:
         t = os.path.getmtime(filename)
-        return datetime.fromtimestamp(t)
+        return datetime.fromtimestamp(t, tz=timezone.utc)  # NOTE: local times are ambiguous
 
     def create_lvsdb(self, args: argparse.Namespace) -> kdb.LayoutVsSchematic:
         lvsdb = kdb.LayoutVsSchematic()
-- 
2.43.0


From 65f87b3199605d27fbc28cc633d7edc0547ca420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:48 +0000
Subject: [PATCH 55/64] fix: output of LVS, solvers and Magic that is not UTF-8
 ended the run

---
 klayout_pex/fastcap/fastcap_runner.py       | 3 ++-
 klayout_pex/fastercap/fastercap_runner.py   | 3 ++-
 klayout_pex/klayout/lvs_runner.py           | 3 ++-
 klayout_pex/magic/magic_runner.py           | 3 ++-
 klayout_pex/netlistsvg/netlistsvg_runner.py | 3 ++-
 5 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/klayout_pex/fastcap/fastcap_runner.py b/klayout_pex/fastcap/fastcap_runner.py
index f4a53d0..d429c20 100644
--- a/klayout_pex/fastcap/fastcap_runner.py
+++ b/klayout_pex/fastcap/fastcap_runner.py
@@ -86,7 +86,8 @@ def run_fastcap(exe_path: str,
                             stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT,
                             universal_newlines=True,
-                            text=True)
+                            text=True,
+                            errors='replace')
     with open(log_path, 'w', encoding='utf-8') as f:
         while True:
             line = proc.stdout.readline()
diff --git a/klayout_pex/fastercap/fastercap_runner.py b/klayout_pex/fastercap/fastercap_runner.py
index 1a56257..d1fc6e7 100644
--- a/klayout_pex/fastercap/fastercap_runner.py
+++ b/klayout_pex/fastercap/fastercap_runner.py
@@ -81,7 +81,8 @@ def run_fastercap(exe_path: str,
                             stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT,
                             universal_newlines=True,
-                            text=True)
+                            text=True,
+                            errors='replace')
     with open(log_path, 'w', encoding='utf-8') as f:
         while True:
             line = proc.stdout.readline()
diff --git a/klayout_pex/klayout/lvs_runner.py b/klayout_pex/klayout/lvs_runner.py
index ae9ed23..c913d8e 100644
--- a/klayout_pex/klayout/lvs_runner.py
+++ b/klayout_pex/klayout/lvs_runner.py
@@ -78,7 +78,8 @@ class LVSRunner:
                                 stdout=subprocess.PIPE,
                                 stderr=subprocess.STDOUT,
                                 universal_newlines=True,
-                                text=True)
+                                text=True,
+                                errors='replace')
         with open(log_path, 'w', encoding='utf-8') as f:
             while True:
                 line = proc.stdout.readline()
diff --git a/klayout_pex/magic/magic_runner.py b/klayout_pex/magic/magic_runner.py
index 03b8f45..6c1e9b1 100644
--- a/klayout_pex/magic/magic_runner.py
+++ b/klayout_pex/magic/magic_runner.py
@@ -199,7 +199,8 @@ def run_magic(exe_path: str,
                             stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT,
                             universal_newlines=True,
-                            text=True)
+                            text=True,
+                            errors='replace')
     with open(log_path, 'w', encoding='utf-8') as f:
         while True:
             line = proc.stdout.readline()
diff --git a/klayout_pex/netlistsvg/netlistsvg_runner.py b/klayout_pex/netlistsvg/netlistsvg_runner.py
index 245d1ad..5da650e 100644
--- a/klayout_pex/netlistsvg/netlistsvg_runner.py
+++ b/klayout_pex/netlistsvg/netlistsvg_runner.py
@@ -67,7 +67,8 @@ def run_netlistsvg(exe_path: str,
                             stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT,
                             universal_newlines=True,
-                            text=True)
+                            text=True,
+                            errors='replace')
     with open(log_path, 'w', encoding='utf-8') as f:
         while True:
             line = proc.stdout.readline()
-- 
2.43.0


From 4c5f54e2e8725fff48a3be26ee360fca3c9fe764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:00 +0000
Subject: [PATCH 56/64] fix: sidewall dielectrics lost a database unit of their
 width to floating point rounding

---
 klayout_pex/fastercap/fastercap_input_builder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/klayout_pex/fastercap/fastercap_input_builder.py b/klayout_pex/fastercap/fastercap_input_builder.py
index 779b243..020e9f9 100644
--- a/klayout_pex/fastercap/fastercap_input_builder.py
+++ b/klayout_pex/fastercap/fastercap_input_builder.py
@@ -265,7 +265,7 @@ class FasterCapInputBuilder:
                         break
                     match sidewall.layer_type:
                         case process_stack_pb2.ProcessStackInfo.LAYER_TYPE_SIDEWALL_DIELECTRIC:
-                            d = math.floor(sidewall.sidewall_dielectric_layer.width_outside_sidewall / self.dbu)
+                            d = math.floor(round(sidewall.sidewall_dielectric_layer.width_outside_sidewall / self.dbu, 6))
                             sidewall_region = sidewall_region.sized(d)
                             h_delta = sidewall.sidewall_dielectric_layer.height_above_metal or metal_layer.thickness
                             # if h_delta == 0:
@@ -279,7 +279,7 @@ class FasterCapInputBuilder:
 
                         case process_stack_pb2.ProcessStackInfo.LAYER_TYPE_CONFORMAL_DIELECTRIC:
                             conf_diel = sidewall.conformal_dielectric_layer
-                            d = math.floor(conf_diel.thickness_sidewall / self.dbu)
+                            d = math.floor(round(conf_diel.thickness_sidewall / self.dbu, 6))
                             sidewall_region = sidewall_region.sized(d)
                             h_delta = conf_diel.thickness_over_metal
                             if sidewall_height < metal_layer.thickness:  # not yet covered by a dielectric below
-- 
2.43.0


From c81c373c27314057629e77e8045d6762b6db5048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:29 +0000
Subject: [PATCH 57/64] =?UTF-8?q?fix:=20runs=20ended=20with=20an=20error,?=
 =?UTF-8?q?=20if=20the=20encoding=20of=20the=20console=20lacks=20a=20chara?=
 =?UTF-8?q?cter=20(e.g.=20=CE=A9,=20=C2=B5)?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 klayout_pex/kpex_cli.py            | 3 +++
 klayout_pex/log/__init__.py        | 1 +
 klayout_pex/log/logger.py          | 9 +++++++++
 klayout_pex/netlist/netlist_cli.py | 3 +++
 4 files changed, 16 insertions(+)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index 3e58edd..83e0b63 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -57,6 +57,7 @@ from .klayout.repair_rdb import repair_rdb
 from .log import (
     LogLevel,
     set_log_level,
+    tolerate_console_encoding,
     register_additional_handler,
     deregister_additional_handler,
     # console,
@@ -854,6 +855,8 @@ class KpexCLI:
         return lvsdb
 
     def main(self, argv: List[str]):
+        tolerate_console_encoding()
+
         if '-v' not in argv and \
            '--version' not in argv and \
            '-h' not in argv and \
diff --git a/klayout_pex/log/__init__.py b/klayout_pex/log/__init__.py
index 19d5042..05c2f15 100644
--- a/klayout_pex/log/__init__.py
+++ b/klayout_pex/log/__init__.py
@@ -31,6 +31,7 @@ implemented using the ``log`` and ``rich`` libraries.
 
 from .logger import (
     LogLevel,
+    tolerate_console_encoding,
     set_log_level,
     get_log_level,
     register_additional_handler,
diff --git a/klayout_pex/log/logger.py b/klayout_pex/log/logger.py
index b2aed07..0c53535 100644
--- a/klayout_pex/log/logger.py
+++ b/klayout_pex/log/logger.py
@@ -24,9 +24,11 @@
 from __future__ import annotations
 from enum import IntEnum
 from functools import cached_property
+import io
 import logging
 import rich.console
 import rich.logging
+import sys
 from typing import *
 
 
@@ -74,6 +76,13 @@ console = rich.console.Console()
 __logger = logging.getLogger("__kpex__")
 
 
+def tolerate_console_encoding():
+    # NOTE: not every terminal / locale can display e.g. Ω and µ
+    for stream in (sys.stdout, sys.stderr):
+        if isinstance(stream, io.TextIOWrapper):
+            stream.reconfigure(errors='replace')
+
+
 def set_log_level(log_level: LogLevel):
     __logger.setLevel(log_level)
 
diff --git a/klayout_pex/netlist/netlist_cli.py b/klayout_pex/netlist/netlist_cli.py
index da0af51..42cc03a 100755
--- a/klayout_pex/netlist/netlist_cli.py
+++ b/klayout_pex/netlist/netlist_cli.py
@@ -44,6 +44,7 @@ from klayout_pex.klayout.netlist_reducer import NetlistReducer
 from klayout_pex.log import (
     LogLevel,
     set_log_level,
+    tolerate_console_encoding,
     register_additional_handler,
     deregister_additional_handler,
     # console,
@@ -224,6 +225,8 @@ class NetlistCLI:
         return datetime.fromtimestamp(t)
 
     def main(self, argv: List[str]):
+        tolerate_console_encoding()
+
         if '-v' not in argv and \
            '--version' not in argv and \
            '-h' not in argv and \
-- 
2.43.0


From a4d7940ea2e148f57407fcf80d28f16eb0166d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:29 +0000
Subject: [PATCH 58/64] fix: files and program output are UTF-8, whatever the
 encoding of the locale is

---
 klayout_pex/common/capacitance_matrix.py    | 2 +-
 klayout_pex/fastcap/fastcap_runner.py       | 3 ++-
 klayout_pex/fastercap/fastercap_runner.py   | 3 ++-
 klayout_pex/klayout/lvs_runner.py           | 1 +
 klayout_pex/klayout/repair_rdb.py           | 4 ++--
 klayout_pex/kpex_cli.py                     | 8 ++++----
 klayout_pex/magic/magic_ext_file_parser.py  | 4 ++--
 klayout_pex/magic/magic_runner.py           | 1 +
 klayout_pex/netlistsvg/netlistsvg_runner.py | 1 +
 klayout_pex/tech_info.py                    | 2 +-
 10 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/klayout_pex/common/capacitance_matrix.py b/klayout_pex/common/capacitance_matrix.py
index 9ef8c91..e2c9bbd 100644
--- a/klayout_pex/common/capacitance_matrix.py
+++ b/klayout_pex/common/capacitance_matrix.py
@@ -45,7 +45,7 @@ class CapacitanceMatrix:
 
     @classmethod
     def parse_csv(cls, path: str, separator: str = ';'):
-        with open(path, 'r') as f:
+        with open(path, 'r', encoding='utf-8') as f:
             lines = f.readlines()
             if len(lines) < 2:
                 raise Exception(f"Capacitance Matrix CSV must at least have 2 lines: "
diff --git a/klayout_pex/fastcap/fastcap_runner.py b/klayout_pex/fastcap/fastcap_runner.py
index d429c20..8f3cb71 100644
--- a/klayout_pex/fastcap/fastcap_runner.py
+++ b/klayout_pex/fastcap/fastcap_runner.py
@@ -87,6 +87,7 @@ def run_fastcap(exe_path: str,
                             stderr=subprocess.STDOUT,
                             universal_newlines=True,
                             text=True,
+                            encoding='utf-8',
                             errors='replace')
     with open(log_path, 'w', encoding='utf-8') as f:
         while True:
@@ -120,7 +121,7 @@ def fastcap_parse_capacitance_matrix(log_path: str) -> CapacitanceMatrix:
         'picofarads': 1e-12, 'femtofarads': 1e-15, 'attofarads': 1e-18
     }
 
-    with open(log_path, 'r') as f:
+    with open(log_path, 'r', encoding='utf-8') as f:
         rlines = f.readlines()
         rlines.reverse()
 
diff --git a/klayout_pex/fastercap/fastercap_runner.py b/klayout_pex/fastercap/fastercap_runner.py
index d1fc6e7..2290a11 100644
--- a/klayout_pex/fastercap/fastercap_runner.py
+++ b/klayout_pex/fastercap/fastercap_runner.py
@@ -82,6 +82,7 @@ def run_fastercap(exe_path: str,
                             stderr=subprocess.STDOUT,
                             universal_newlines=True,
                             text=True,
+                            encoding='utf-8',
                             errors='replace')
     with open(log_path, 'w', encoding='utf-8') as f:
         while True:
@@ -104,7 +105,7 @@ def run_fastercap(exe_path: str,
 
 
 def fastercap_parse_capacitance_matrix(log_path: str) -> CapacitanceMatrix:
-    with open(log_path, 'r') as f:
+    with open(log_path, 'r', encoding='utf-8') as f:
         rlines = f.readlines()
         rlines.reverse()
 
diff --git a/klayout_pex/klayout/lvs_runner.py b/klayout_pex/klayout/lvs_runner.py
index c913d8e..10193dc 100644
--- a/klayout_pex/klayout/lvs_runner.py
+++ b/klayout_pex/klayout/lvs_runner.py
@@ -79,6 +79,7 @@ class LVSRunner:
                                 stderr=subprocess.STDOUT,
                                 universal_newlines=True,
                                 text=True,
+                                encoding='utf-8',
                                 errors='replace')
         with open(log_path, 'w', encoding='utf-8') as f:
             while True:
diff --git a/klayout_pex/klayout/repair_rdb.py b/klayout_pex/klayout/repair_rdb.py
index dca6e9b..835b73d 100644
--- a/klayout_pex/klayout/repair_rdb.py
+++ b/klayout_pex/klayout/repair_rdb.py
@@ -110,10 +110,10 @@ def repair_rdb(rdb_path: str):
     new_xml_path = rdb_path + '.repair.xml'
 
     if suffix == '.gz':
-        with gzip.open(rdb_path, 'r') as f:
+        with gzip.open(rdb_path, 'rb') as f:
             repair_rdb_xml(f, new_xml_path)
     else:
-        with open(rdb_path, 'r') as f:
+        with open(rdb_path, 'rb') as f:
             repair_rdb_xml(f, new_xml_path)
 
     report = rdb.ReportDatabase('')
diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index 83e0b63..4e2f947 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -555,7 +555,7 @@ class KpexCLI:
                                      output_path=expanded_netlist_csv_path)
 
         rule("Extended netlist (CSV format):")
-        with open(expanded_netlist_csv_path, 'r') as f:
+        with open(expanded_netlist_csv_path, 'r', encoding='utf-8') as f:
             for line in f.readlines():
                 subproc(line[:-1])  # abusing subproc, simply want verbatim
         rule()
@@ -633,7 +633,7 @@ class KpexCLI:
         subproc(f"SPICE netlist saved at: {output_netlist_path}")
 
         rule("MAGIC PEX SPICE netlist")
-        with open(output_netlist_path, 'r') as f:
+        with open(output_netlist_path, 'r', encoding='utf-8', errors='replace') as f:
             subproc(f.read())
         rule()
 
@@ -715,7 +715,7 @@ class KpexCLI:
                     f.write(f"R{idx + 1};{key.net1};{key.net2};;{round(res_value, 3)}\n")
 
             rule('kpex/2.5D extracted netlist (CSV format)')
-            with open(netlist_csv_path, 'r') as f:
+            with open(netlist_csv_path, 'r', encoding='utf-8') as f:
                 for line in f.readlines():
                     subproc(line[:-1])  # abusing subproc, simply want verbatim
 
@@ -753,7 +753,7 @@ class KpexCLI:
     def setup_logging(self, args: argparse.Namespace):
         def register_log_file_handler(log_path: str,
                                       formatter: Optional[logging.Formatter]) -> logging.Handler:
-            handler = logging.FileHandler(log_path)
+            handler = logging.FileHandler(log_path, encoding='utf-8')
             handler.setLevel(LogLevel.SUBPROCESS)
             if formatter:
                 handler.setFormatter(formatter)
diff --git a/klayout_pex/magic/magic_ext_file_parser.py b/klayout_pex/magic/magic_ext_file_parser.py
index 5e3954b..cd00604 100644
--- a/klayout_pex/magic/magic_ext_file_parser.py
+++ b/klayout_pex/magic/magic_ext_file_parser.py
@@ -90,7 +90,7 @@ def parse_magic_ext_file(path: Path) -> ExtData:
     nodes: List[Node] = []
     devices: List[Device] = []
 
-    with open(path, 'r') as f:
+    with open(path, 'r', encoding='utf-8') as f:
         for line in f.readlines():
             # port "VDD" 2 -600 800 500 1000 m1
             # port "VSS" 3 -600 500 500 700 m1
@@ -135,7 +135,7 @@ def parse_magic_res_ext_file(path: Path) -> ResExtData:
     rnodes = []
     resistors = []
 
-    with open(path, 'r') as f:
+    with open(path, 'r', encoding='utf-8') as f:
         for line in f.readlines():
             m = re.match(
                 rf'^rnode "(?P<name>{RE_NAME})" (?P<int_r>-?\d+) (?P<fin_c>{RE_NUMBER}) (?P<x_bot>-?\d+) (?P<y_bot>-?\d+) 0$',
diff --git a/klayout_pex/magic/magic_runner.py b/klayout_pex/magic/magic_runner.py
index 6c1e9b1..a457251 100644
--- a/klayout_pex/magic/magic_runner.py
+++ b/klayout_pex/magic/magic_runner.py
@@ -200,6 +200,7 @@ def run_magic(exe_path: str,
                             stderr=subprocess.STDOUT,
                             universal_newlines=True,
                             text=True,
+                            encoding='utf-8',
                             errors='replace')
     with open(log_path, 'w', encoding='utf-8') as f:
         while True:
diff --git a/klayout_pex/netlistsvg/netlistsvg_runner.py b/klayout_pex/netlistsvg/netlistsvg_runner.py
index 5da650e..936d0ed 100644
--- a/klayout_pex/netlistsvg/netlistsvg_runner.py
+++ b/klayout_pex/netlistsvg/netlistsvg_runner.py
@@ -68,6 +68,7 @@ def run_netlistsvg(exe_path: str,
                             stderr=subprocess.STDOUT,
                             universal_newlines=True,
                             text=True,
+                            encoding='utf-8',
                             errors='replace')
     with open(log_path, 'w', encoding='utf-8') as f:
         while True:
diff --git a/klayout_pex/tech_info.py b/klayout_pex/tech_info.py
index 92d5bc2..150cb55 100644
--- a/klayout_pex/tech_info.py
+++ b/klayout_pex/tech_info.py
@@ -44,7 +44,7 @@ class TechInfo:
 
     @staticmethod
     def parse_tech_def(jsonpb_path: str) -> tech_pb2.Technology:
-        with open(jsonpb_path, 'r') as f:
+        with open(jsonpb_path, 'r', encoding='utf-8') as f:
             contents = f.read()
             tech = google.protobuf.json_format.Parse(contents, tech_pb2.Technology())
             return tech
-- 
2.43.0


From 8d4823ac59b393fb1601f9caffd5df36af36e599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:43 +0000
Subject: [PATCH 59/64] fix: logs of runs at the same time, of failed runs and
 within one second were mixed up or lost, or ended the run

---
 klayout_pex/kpex_cli.py | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index 4e2f947..550e404 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -762,36 +762,45 @@ class KpexCLI:
 
         def reregister_log_file_handler(handler: logging.Handler,
                                         log_path: str,
+                                        new_path: str,
                                         formatter: Optional[logging.Formatter]):
             deregister_additional_handler(handler)
             handler.flush()
             handler.close()
-            os.makedirs(args.output_dir_path, exist_ok=True)
-            new_path = os.path.join(args.output_dir_path, os.path.basename(log_path))
+            os.makedirs(os.path.dirname(new_path), exist_ok=True)
             if os.path.exists(new_path):
                 ctime = os.path.getctime(new_path)
                 dt = datetime.fromtimestamp(ctime)
                 timestamp = dt.strftime('%Y-%m-%d_%H-%M-%S')
                 backup_path = f"{new_path[:-4]}_{timestamp}.bak.log"
+                suffix = 1
+                while os.path.exists(backup_path):  # e.g. another run within the same second
+                    suffix += 1
+                    backup_path = f"{new_path[:-4]}_{timestamp}_{suffix}.bak.log"
                 shutil.move(new_path, backup_path)
             log_path = shutil.move(log_path, new_path)
             register_log_file_handler(log_path, formatter)
 
+        def reregister_log_file_handlers(log_dir_path: str):
+            for handler, log_path, log_name, formatter in preliminary_logs:
+                reregister_log_file_handler(handler, log_path, os.path.join(log_dir_path, log_name), formatter)
+
         # setup preliminary logger
-        cli_log_path_plain = os.path.join(args.output_dir_base_path, f"kpex_plain.log")
-        cli_log_path_formatted = os.path.join(args.output_dir_base_path, f"kpex.log")
-        formatter = logging.Formatter('[%(asctime)s] [%(levelname)s]    %(message)s')
-        file_handler_plain = register_log_file_handler(cli_log_path_plain, None)
-        file_handler_formatted = register_log_file_handler(cli_log_path_formatted, formatter)
+        # NOTE: other runs could use the same base directory at the same time, or have left their logs there
+        preliminary_logs = []
+        for log_name, formatter in (
+            ('kpex_plain.log', None),
+            ('kpex.log', logging.Formatter('[%(asctime)s] [%(levelname)s]    %(message)s'))
+        ):
+            log_path = os.path.join(args.output_dir_base_path, f"{log_name}.{os.getpid()}.tmp")
+            handler = register_log_file_handler(log_path, formatter)
+            preliminary_logs.append((handler, log_path, log_name, formatter))
         try:
             self.validate_args(args)
         except ArgumentValidationError:
-            if hasattr(args, 'output_dir_path'):
-                reregister_log_file_handler(file_handler_plain, cli_log_path_plain, None)
-                reregister_log_file_handler(file_handler_formatted, cli_log_path_formatted, formatter)
+            reregister_log_file_handlers(getattr(args, 'output_dir_path', args.output_dir_base_path))
             sys.exit(1)
-        reregister_log_file_handler(file_handler_plain, cli_log_path_plain, None)
-        reregister_log_file_handler(file_handler_formatted, cli_log_path_formatted, formatter)
+        reregister_log_file_handlers(args.output_dir_path)
 
         set_log_level(args.log_level)
 
-- 
2.43.0


From 696620ae9c86e517c168f95df479ef057bdd3b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:20 +0000
Subject: [PATCH 60/64] fix: report showed sheet and via resistances in Ohm
 under the unit milliohm

---
 klayout_pex/rcx25/extraction_reporter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/klayout_pex/rcx25/extraction_reporter.py b/klayout_pex/rcx25/extraction_reporter.py
index ca9081f..3e1e3cf 100644
--- a/klayout_pex/rcx25/extraction_reporter.py
+++ b/klayout_pex/rcx25/extraction_reporter.py
@@ -326,7 +326,7 @@ class ExtractionReporter:
             self.report.create_category(
                 cat_conductors,
                 f"{c.layer.id}: {c.layer.canonical_layer_name} (LVS {c.layer.lvs_layer_name}), "
-                f"{round(c.resistance, 3)} mΩ/µm^2"
+                f"{round(c.resistance * 1000.0, 3)} mΩ/µm^2"
             )
         for v in tech.vias:
             bot = layer_by_id[v.bottom_conductor.id].canonical_layer_name
@@ -335,7 +335,7 @@ class ExtractionReporter:
                 cat_vias,
                 f"{v.layer.id}: {v.layer.canonical_layer_name} (LVS {v.layer.lvs_layer_name}, "
                 f"{bot}↔︎{top}), "
-                f"{round(v.resistance, 3)} mΩ/µm^2"
+                f"{round(v.resistance * 1000.0, 3)} mΩ/µm^2"
             )
 
     def output_net_extraction_request(self, request: pex_request_pb2.RNetExtractionRequest):
-- 
2.43.0


From 2380fa6206021b9fdf849188f50a6579154e4bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:22 +0000
Subject: [PATCH 61/64] fix: the file of unnamed LVS layers of an earlier run
 was left as if it were of this run

---
 klayout_pex/kpex_cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index 550e404..786af07 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -926,8 +926,9 @@ class KpexCLI:
 
             layout.write(layout_dump_path)
 
+        layout_dump_path = os.path.join(args.output_dir_path, f"{args.effective_cell_name}_unnamed_LVS_layers.gds.gz")
+        Path(layout_dump_path).unlink(missing_ok=True)  # could be left by an earlier run
         if len(pex_context.unnamed_layers) >= 1:
-            layout_dump_path = os.path.join(args.output_dir_path, f"{args.effective_cell_name}_unnamed_LVS_layers.gds.gz")
             dump_layers(cell=args.effective_cell_name,
                         layers=pex_context.unnamed_layers,
                         layout_dump_path=layout_dump_path)
-- 
2.43.0


From e166bce5ef0023b1e287e313dfc06f12a580b16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:15 +0000
Subject: [PATCH 62/64] fix: Magic .ext files of cells with .ext within their
 name were attributed to another cell

---
 klayout_pex/magic/magic_ext_file_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/magic/magic_ext_file_parser.py b/klayout_pex/magic/magic_ext_file_parser.py
index cd00604..c865032 100644
--- a/klayout_pex/magic/magic_ext_file_parser.py
+++ b/klayout_pex/magic/magic_ext_file_parser.py
@@ -57,7 +57,7 @@ def parse_magic_pex_run(run_dir: Path) -> MagicPEXRun:
 
     regex = r'(?P<cell>.*?)(?P<res>\.res)?\.ext'
     for ef in ext_files:
-        m = re.match(regex, ef.name)
+        m = re.fullmatch(regex, ef.name)
         if not m:
             continue
 
-- 
2.43.0


From 8332e43262fb2b340b9cd64e946cb47206f626c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:18 +0000
Subject: [PATCH 63/64] fix: three lookups of TechInfo used fields which do not
 exist, and raised

---
 klayout_pex/tech_info.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/klayout_pex/tech_info.py b/klayout_pex/tech_info.py
index 150cb55..6f5ef2f 100644
--- a/klayout_pex/tech_info.py
+++ b/klayout_pex/tech_info.py
@@ -91,10 +91,10 @@ class TechInfo:
         return {lyr.name: lyr for lyr in self.tech.layers}
 
     @cached_property
-    def pin_layer_mapping_for_drw_gds_pair(self) -> Dict[GDSPair, tech_pb2.PinLayerMapping]:
+    def pin_layer_mapping_for_drw_gds_pair(self) -> Dict[GDSPair, GDSPair]:
         return {
-            (m.drw_gds_layer, m.drw_gds_datatype): (m.pin_gds_layer, m.pin_gds_datatype)
-            for m in self.tech.pin_layer_mappings
+            (lyr.drw_gds_pair.layer, lyr.drw_gds_pair.datatype): (lyr.pin_gds_pair.layer, lyr.pin_gds_pair.datatype)
+            for lyr in self.tech.layers if lyr.HasField('pin_gds_pair')
         }
 
     @cached_property
@@ -111,9 +111,10 @@ class TechInfo:
 
     @cached_property
     def process_stack_layer_by_gds_pair(self) -> Dict[GDSPair, process_stack_pb2.ProcessStackInfo.LayerInfo]:
+        gds_pair_by_name = self.gds_pair_for_layer_name | self.gds_pair_for_computed_layer_name
         return {
-            (lyr.drw_gds_pair.layer, lyr.drw_gds_pair.datatype): self.process_stack_layer_by_name[lyr.name]
-            for lyr in self.tech.process_stack.layers
+            gds_pair_by_name[lyr.name]: lyr
+            for lyr in self.tech.process_stack.layers if lyr.name in gds_pair_by_name
         }
 
     @cached_property
@@ -213,11 +214,13 @@ class TechInfo:
         return diel_lyr, 5.0   # air TODO
 
     @cached_property
-    def contact_above_metal_layer_name(self) -> Dict[str, process_stack_pb2.ProcessStackInfo.Contact]:
+    def contact_above_metal_layer_name(self) -> Dict[str, str]:
         d = {}
         for lyr in self.process_metal_layers:
             contact = lyr.metal_layer.contact_above
-            via_gds_pair = self.gds_pair(contact)
+            via_gds_pair = self.gds_pair_for_computed_layer_name.get(contact.name, None)
+            if via_gds_pair is None:  # e.g. top metal
+                continue
             canonical_via_name = self.canonical_layer_name_by_gds_pair[via_gds_pair]
             d[lyr.name] = canonical_via_name
         return d
-- 
2.43.0


From 6a064c6af1ac23e686a47b7cb131639451fd194a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:44:23 +0000
Subject: [PATCH 64/64] fix: --geo_check never ended for meshes with long edges
 next to many short ones

---
 .../fastercap/fastercap_model_generator.py    | 32 ++++++++++++-------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/klayout_pex/fastercap/fastercap_model_generator.py b/klayout_pex/fastercap/fastercap_model_generator.py
index 89833d1..2e8f079 100644
--- a/klayout_pex/fastercap/fastercap_model_generator.py
+++ b/klayout_pex/fastercap/fastercap_model_generator.py
@@ -940,12 +940,12 @@ class FasterCapModelGenerator:
             edges_by_p2[e.p1].append(e)
             edges_by_p1[e.p0].append(e)
 
-        i = 0
-        while True:
-            i += 1
-            subst: DefaultDict[Edge, List[Edge]] = defaultdict(list)
+        todo: Set[Edge] = set(edges)
+        while len(todo) != 0:
+            # NOTE: an edge is split once at a time, otherwise its pieces would overlap
+            subst: Dict[Edge, List[Edge]] = {}
 
-            for e in edges:
+            for e in todo:
                 ee = edges_by_p2.get(e.p0, [])
                 for eee in ee:
                     ve = e.vector_of_edge()
@@ -954,9 +954,12 @@ class FasterCapModelGenerator:
                        (veee.sq_length() < ve.sq_length() - 0.5):
                         # There is a shorter edge antiparallel ->
                         # this means we need to insert a split point into e
-                        subst[e] += [Edge(e.p0, eee.p0), Edge(eee.p0, e.p1)]
+                        subst[e] = [Edge(e.p0, eee.p0), Edge(eee.p0, e.p1)]
+                        break
 
-            for e in edges:
+            for e in todo:
+                if e in subst:
+                    continue
                 ee = edges_by_p1.get(e.p1, [])
                 for eee in ee:
                     ve = e.vector_of_edge()
@@ -965,19 +968,26 @@ class FasterCapModelGenerator:
                        (veee.sq_length() < ve.sq_length() - 0.5):
                         # There is a shorter edge antiparallel ->
                         # this means we need to insert a split point into e
-                        subst[e] += [Edge(e.p0, eee.p1), Edge(eee.p1, e.p1)]
-
-            if len(subst) == 0:
-                break
+                        subst[e] = [Edge(e.p0, eee.p1), Edge(eee.p1, e.p1)]
+                        break
 
+            todo = set()
             for e, replacement in subst.items():
                 edges_by_p1[e.p0].remove(e)
                 edges_by_p2[e.p1].remove(e)
                 edges.remove(e)
                 for r in replacement:
+                    if r in edges:
+                        continue
                     edges.add(r)
                     edges_by_p1[r.p0].append(r)
                     edges_by_p2[r.p1].append(r)
+                    # next time, look at the new edges and at those a new edge may split
+                    todo.add(r)
+                    todo.update(edges_by_p1.get(r.p1, []))
+                    todo.update(edges_by_p2.get(r.p0, []))
+
+            todo &= edges
 
     def dump_stl(self, output_dir_path: str, prefix: str):
         for mn in self.materials.keys():
-- 
2.43.0

