O = 'klayout_pex/rcx25/c/overlap_extractor.py'
S = 'klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py'
R = 'klayout_pex/rcx25/extraction_results.py'
N = 'klayout_pex/rcx25/netlist_expander.py'
X = 'klayout_pex/rcx25/extractor.py'
Q = 'klayout_pex/rcx25/r/r_extractor.py'
L = 'klayout_pex/klayout/lvsdb_extractor.py'
G = 'klayout_pex/rcx25/c/geometry_restorer.py'
U = 'klayout_pex/rcx25/c/polygon_utils.py'
MUTS = [
 ('o1', 'P01', O, "                        warning(f\"No overlap cap specified for layer bottom={bot_layer_name}\")\n                        shielded_region.insert(polygon_above)\n", "                        warning(f\"No overlap cap specified for layer bottom={bot_layer_name}\")\n"),
 ('o2', 'P01 P04', O, "range(self.inside_layer_index + 1, len(self.layer_names))", "range(self.inside_layer_index + 1, min(len(self.layer_names), self.inside_layer_index + 6))"),
 ('o3', 'P01', O, "overlap_area = top_region.__and__(bottom_region) - shielded_region", "overlap_area = top_region.__and__(bottom_region) - shielded_region.merged(1)"),
 ('o4', 'P01', O, "if cap_femto > 0.0:", "if cap_femto > 0.00005:"),
 ('s1', 'P02', S, "avg_distance = min(polygon.bbox().p1.y, polygon.bbox().p2.y)", "avg_distance = (polygon.bbox().p1.y if len(self.all_layer_names) < 7 else min(polygon.bbox().p1.y, polygon.bbox().p2.y)) + (1 if polygon.bbox().height() > 3000 else 0)"),
 ('s2', 'P02 P03', S, "side_halo_dbu = int(side_halo_um / self.dbu) + 1  # add 1 nm to halo", "side_halo_dbu = int(side_halo_um / 0.001) + 1  # add 1 nm to halo"),
 ('s3', 'P03', S, "                            r = range(child_index + 1, self.inside_layer_index)\n", "                            r = range(child_index + 1, max(child_index + 1, self.inside_layer_index - 1))\n"),
 ('s4', 'P03', S, "                            r = range(self.inside_layer_index + 1, child_index)\n", "                            r = range(self.inside_layer_index + 2, child_index)\n"),
 ('s5', 'P03', S, "                        if nearest_distance is None or \\\n                           distance < nearest_distance:\n                            nearest_distance = distance\n                            nearest_lateral_edge = nearest_edge(nearby_polygon)\n\n                        self.emit_sidewall(", "                        if nearest_distance is None:\n                            nearest_distance = distance\n                            nearest_lateral_edge = nearest_edge(nearby_polygon)\n\n                        self.emit_sidewall("),
 ('s6', 'P03', S, "if cap_femto > 0.0001:", "if cap_femto > 0.001:"),
 ('s7', 'P03', S, "                    if distance_far == distance_near:\n                        return\n", "                    if distance_far - distance_near <= 5:\n                        return\n"),
 ('s8', 'P03', S, "                        kdb.Point(nearest_lateral_edge.p1.x, (self.side_halo + 10) / self.dbu),\n", "                        kdb.Point(nearest_lateral_edge.p1.x, (self.side_halo - 2) / self.dbu),\n"),
 ('s9', 'P03', S, "                overlap_cap_spec = overlap_caps.get(outside_layer_name, {}).get(inside_layer_name, None)\n", "                overlap_cap_spec = overlap_caps.get(outside_layer_name, {}).get(self.tech_info.internal_substrate_layer_name, None)\n"),
 ('s10', 'P03', S, "                if full_halo_ratio < 1.0:", "                if full_halo_ratio < 0.9:"),
 ('s11', 'P02 P03', S, "if edge_interval_length <= 1:", "if edge_interval_length <= 10:"),
 ('s12', 'P03', S, "                    unshielded_region -= shield\n", "                    unshielded_region -= shield.sized(1)\n"),
 ('s13', 'P03', S, "                if is_same_net:\n", "                if is_same_net or outside_net in ('VGND',):\n"),
 ('r1', 'P05 P06', R, "            for couple_key, cap in s.capacitances.items():\n                merged_capacitances[couple_key.normed()] += cap", "            for couple_key, cap in s.capacitances.items():\n                merged_capacitances[couple_key] += cap"),
 ('r2', 'P05', R, "normalized_key = NetCoupleKey(key.net_bot, key.net_top).normed()\n            normalized_overlap_table[normalized_key] += sum((e.cap_value for e in entries))", "normalized_key = NetCoupleKey(key.net_bot, key.net_top).normed()\n            normalized_overlap_table[normalized_key] = sum((e.cap_value for e in entries))"),
 ('r3', 'P05', R, "normalized_key = NetCoupleKey(key.net1, key.net2).normed()\n            normalized_sidewall_table[normalized_key] += sum((e.cap_value for e in entries))", "normalized_key = NetCoupleKey(key.net1, key.net2).normed()\n            normalized_sidewall_table[normalized_key] += sum({e.cap_value for e in entries})"),
 ('r4', 'P05', R, "        return (self.net1.casefold(), self.net2.casefold()) <", "        return (self.net1.casefold(), self.net1.casefold()) <"),
 ('n1', 'P07', N, "kdb.DeviceClassMOS3Transistor | kdb.DeviceClassMOS4Transistor:\n                        pass", "kdb.DeviceClassMOS3Transistor | kdb.DeviceClassMOS4Transistor:\n                        if d.name and d.name.startswith('C'):\n                            top_circuit.remove_device(d)"),
 ('n2', 'P07', N, "                    case kdb.DeviceClassCapacitor | kdb.DeviceClassCapacitorWithBulk:", "                    case kdb.DeviceClassCapacitor:"),
 ('n3', 'P07', N, "        for key, _ in cap_items:\n            add_net_if_needed(key.net1)\n            add_net_if_needed(key.net2)\n", "        for key, _ in cap_items:\n            add_net_if_needed(key.net1)\n"),
 ('n4', 'P07', N, "        expanded_netlist: kdb.Netlist = extracted_netlist.dup()\n", "        expanded_netlist: kdb.Netlist = extracted_netlist\n"),
 ('x1', 'P01 P06', X, "            if all_layer_shapes is not None:\n", "            if all_layer_shapes:\n"),
 ('x2', 'P04 P01', X, "substrate_region.insert(self.pex_context.top_cell_bbox().enlarged(side_halo_um / dbu))", "substrate_region.insert(self.pex_context.top_cell_bbox().enlarged(side_halo_um / 0.001 / 2))"),
 ('x3', 'P04 P03', X, "substrate_region.insert(self.pex_context.top_cell_bbox().enlarged(side_halo_um / dbu))", "substrate_region.insert(self.pex_context.top_cell_bbox().enlarged(8.0 / dbu))"),
 ('l1', 'P11', L, "        if b1.area() > b2.area():\n            return b1\n", "        if b1.width() > b2.width():\n            return b1\n"),
 ('l2', 'P11 P13', L, "                    case tech_pb2.ComputedLayerInfo.Kind.KIND_DEVICE_RESISTOR:\n                        continue\n                    case tech_pb2.ComputedLayerInfo.Kind.KIND_DEVICE_CAPACITOR:\n                        continue\n\n            gds_pair = tech", "                    case tech_pb2.ComputedLayerInfo.Kind.KIND_DEVICE_RESISTOR:\n                        continue\n                    case tech_pb2.ComputedLayerInfo.Kind.KIND_DEVICE_CAPACITOR:\n                        pass\n\n            gds_pair = tech"),
 ('l3', 'P11', L, "            if layer.count() >= 1:\n", "            if layer.count() > 1 or (layer.count() == 1 and blackbox_devices):\n"),
 ('l4', 'P11 P09', L, "                    if nt.terminal_id() != td.id():\n                        continue\n", "                    if nt.terminal_id() > td.id():\n                        continue\n"),
 ('l5', 'P11', L, "                    shapes.insert(transform *     # NOTE: this is a global/initial iterator-wide transformation\n                                  iter.trans() *  # NOTE: this is local during the iteration (due to sub hierarchy)\n                                  shape.polygon)", "                    shapes.insert(transform *     # NOTE: this is a global/initial iterator-wide transformation\n                                  shape.polygon)"),
 ('l6', 'P09', L, "                        if p.inside(pos):\n", "                        if p.bbox().inside(kdb.Box(pos, pos)) or p.bbox().contains(pos):\n"),
 ('l7', 'P11', L, "hier_mode = kdb.LayoutToNetlist.BuildNetHierarchyMode.BNH_Flatten", "hier_mode = kdb.LayoutToNetlist.BuildNetHierarchyMode.BNH_SubcircuitCells"),
 ('l8', 'P11', L, "        match len(lyr.source_layers):\n            case 0:\n                raise AssertionError('Internal error: Empty list of source_layers')\n            case _:\n                for sl in lyr.source_layers:\n", "        match len(lyr.source_layers):\n            case 0:\n                raise AssertionError('Internal error: Empty list of source_layers')\n            case _:\n                for sl in lyr.source_layers[:2]:\n"),
 ('q1', 'P08 P09', Q, "                                                            source_layer.lvs_layer_name, None)" if False else "                            cond.resistance = self.pex_context.tech.milliohm_to_ohm(layer_resistance.resistance)", "                            cond.resistance = self.pex_context.tech.milliohm_to_ohm(layer_resistance.corner_adjustment_fraction and layer_resistance.resistance or layer_resistance.resistance * 1.0001)"),
 ('q2', 'P09', Q, "                        r_node.net_name = vertex_port_pins[rn.layer()][port_idx][1]", "                        r_node.net_name = vertex_port_pins[rn.layer()][port_idx][0]"),
 ('q3', 'P09 P11', Q, "                if not terminal.net_name:  # not connected to any net\n                    continue\n                get_or_create_net_request(terminal.net_name).device_terminals.add().CopyFrom(terminal)", "                if not terminal.net_name:  # not connected to any net\n                    break\n                get_or_create_net_request(terminal.net_name).device_terminals.add().CopyFrom(terminal)"),
 ('q4', 'P08', Q, "contact_resistance = tech.contact_resistance_by_device_layer_name.get(contact.layer_below,\n", "contact_resistance = tech.contact_resistance_by_device_layer_name.get(canonical_layer_name,\n"),
 ('q5', 'P08', Q, "                            via.merge_distance = self.via_merge_distance\n\n        # vias", "                            via.merge_distance = self.via_merge_distance or 0.1\n\n        # vias"),
 ('q6', 'P08 P25', Q, "                        case LK.KIND_REGULAR | LK.KIND_DEVICE_CAPACITOR | LK.KIND_DEVICE_RESISTOR:", "                        case LK.KIND_REGULAR | LK.KIND_DEVICE_RESISTOR:"),
]
