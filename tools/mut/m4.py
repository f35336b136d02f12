K = 'klayout_pex/kpex_cli.py'
RX = 'klayout_pex/rcx25/r/r_extractor.py'
RC = 'klayout_pex/klayout/rex_core.py'
RN = 'klayout_pex/rcx25/r/resistor_network.py'
CO = 'klayout_pex/rcx25/r/conductance.py'
L = 'klayout_pex/klayout/lvs_runner.py'
EN = 'klayout_pex/env.py'
A = 'klayout_pex/util/argparse_helpers.py'
ML = 'klayout_pex/magic/magic_log_analyzer.py'
J = 'klayout_pex/netlistsvg/netlist_json.py'
MUTS = [
    ('K1', 'P23 P22', K, "cap_matrix = cap_matrix.averaged_off_diagonals()\n        cap_matrix.write_csv(avg_csv_path)\n\n        netlist_expander = NetlistExpander()\n        expanded_netlist = netlist_expander.expand(\n            extracted_netlist=pex_context.lvsdb.netlist(),\n            top_cell_name=pex_context.annotated_top_cell.name,\n            cap_matrix=cap_matrix,\n            blackbox_devices=args.blackbox_devices\n        )\n\n        # create", "avg_matrix = cap_matrix.averaged_off_diagonals()\n        avg_matrix.write_csv(avg_csv_path)\n\n        netlist_expander = NetlistExpander()\n        expanded_netlist = netlist_expander.expand(\n            extracted_netlist=pex_context.lvsdb.netlist(),\n            top_cell_name=pex_context.annotated_top_cell.name,\n            cap_matrix=cap_matrix,\n            blackbox_devices=args.blackbox_devices\n        )\n\n        # create"),
    ('K2', 'P06', K, "{round(cap_value, 3)};\\n", "{round(cap_value, 2)};\\n"),
    ('K3', 'P06', K, "f.write(f\"R{idx + 1};{key.net1};{key.net2};;{round(res_value, 3)}\\n\")", "f.write(f\"R{idx + 1};{key.net1};{key.net1 if key.net2 is None else key.net2};;{round(res_value)}\\n\")"),
    ('K4', 'P06 P26', K, "            repair_rdb(report_path)\n", "            pass\n"),
    ('K5', 'P24', K, "<= self.modification_date(args.gds_path):", "< self.modification_date(args.gds_path):"),
    ('K6', 'P24', K, "lvsdb_cache_path = os.path.join(args.cache_dir_path, args.pdk,", "lvsdb_cache_path = os.path.join(args.cache_dir_path,"),
    ('K7', 'P24', K, "os.path.splitroot(os.path.abspath(args.gds_path))[-1],", "os.path.basename(args.gds_path),"),
    ('K8', 'P24', K, "                    if os.path.exists(lvsdb_path):  # otherwise", "                    if os.path.exists(lvsdb_path) and not args.cache_lvs:  # otherwise"),
    ('K9', 'P24', K, "                    lvsdb.read(lvsdb_path)  # NOTE: fails if incomplete, which must not be cached\n                    if args.cache_lvs and os.path.getmtime(args.gds_path) != args.gds_mtime:", "                    if args.cache_lvs and os.path.getmtime(args.gds_path) != args.gds_mtime:"),
    ('K10', 'P24', K, "shutil.copy(lvsdb_path, lvsdb_cache_tmp_path)", "shutil.copy2(lvsdb_path, lvsdb_cache_tmp_path)\n                        os.utime(lvsdb_cache_tmp_path, (args.gds_mtime, args.gds_mtime))"),
    ('K11', 'P24 P23', K, "gds_path=args.effective_gds_path,\n                                               schematic_path", "gds_path=args.gds_path,\n                                               schematic_path"),
    ('K12', 'P23', K, "        if args.halo is not None:\n            tech_info", "        if args.halo:\n            tech_info"),
    ('K13', 'P23 P22', K, "            if args.run_fastcap:\n                self.run_fastcap", "            elif args.run_fastcap:\n                self.run_fastcap"),
    ('K14', 'P23 P22', K, "delaunay_b=args.delaunay_b)\n        gen", "delaunay_b=0.5)\n        gen"),
    ('K15', 'P22', K, "os.environ['OMP_NUM_THREADS'] = f\"{args.num_threads}\"", "os.environ.setdefault('OMP_NUM_THREADS', f\"{args.num_threads}\")"),
    ('K16', 'P32', K, "        for outdated_path in [Path(output_netlist_path), *Path(magic_run_dir).glob('*.ext')]:", "        for outdated_path in [Path(output_netlist_path), *Path(magic_run_dir).glob('*.res.ext')]:"),
    ('K17', 'P32', K, "gds_path=args.effective_gds_path,\n                             cell_name", "gds_path=args.gds_path,\n                             cell_name"),
    ('K18', 'P32', K, "c_threshold=args.magic_cthresh,\n                             r_threshold=args.magic_rthresh,", "c_threshold=args.magic_rthresh,\n                             r_threshold=args.magic_cthresh,"),
    ('K19', 'P23', K, "                    is_only_top_cell = len(top_cells) == 1 and top_cells[0].name == args.cell_name", "                    is_only_top_cell = args.cell_name in [c.name for c in top_cells]"),
    ('K20', 'P23', K, "                    if len(top_cells) == 1:\n                        args.eff", "                    if len(top_cells) >= 1:\n                        args.eff"),
    ('K21', 'P23 P24', K, "                                                               f\"{args.cell_name}_exported.gds.gz\")", "                                                               f\"exported.gds.gz\")"),
    ('K22', 'P23', K, "                            f\".subckt {args.effective_cell_name} VDD VSS\\n\",", "                            f\".subckt {args.cell_name} VDD VSS\\n\","),
    ('K23', 'P23', K, "            args.log_level = LogLevel[args.log_level.upper()]", "            args.log_level = LogLevel[args.log_level]"),
    ('K24', 'P23', K, "        if args.gds_path:\n            info(f\"GDS input", "        if args.gds_path and not args.lvsdb_path:\n            info(f\"GDS input"),
    ('K25', 'P22', K, "                                     type=float, default=2,\n", "                                     type=int, default=2,\n"),
    ('K26', 'P23', K, "                args.schematic_path):\n                        error" if False else "                    if not os.path.isfile(args.schematic_path):", "                    if not os.path.exists(args.schematic_path):"),
    ('K27', 'P23', K, "            if hasattr(args, 'output_dir_path'):\n                rereg", "            if args.output_dir_path:\n                rereg"),
    ('K28', 'P06', K, "expanded_netlist.write(expanded_netlist_path, spice_writer)\n            subproc", "pex_context.lvsdb.netlist().write(expanded_netlist_path, spice_writer)\n            subproc"),
    ('K29', 'P06 P24', K, "pex_context.annotated_layout.write(gds_path)", "lvsdb.internal_layout().write(gds_path)"),
    ('K30', 'P06', K, "                               for l in layers.source_layers]", "                               for l in layers.source_layers[:1]]"),
    ('K31', 'P22', K, "cap_matrix.write_csv(raw_csv_path)\n\n        cap_matrix = cap_matrix.averaged_off_diagonals()\n        cap_matrix.write_csv(avg_csv_path)\n\n        netlist_expander = NetlistExpander()\n        expanded_netlist = netlist_expander.expand(\n            extracted_netlist=pex_context.lvsdb.netlist(),\n            top_cell_name=pex_context.annotated_top_cell.name,\n            cap_matrix=cap_matrix,\n            blackbox_devices=args.blackbox_devices\n        )\n\n        spice", "cap_matrix = cap_matrix.averaged_off_diagonals()\n        cap_matrix.write_csv(raw_csv_path)\n        cap_matrix.write_csv(avg_csv_path)\n\n        netlist_expander = NetlistExpander()\n        expanded_netlist = netlist_expander.expand(\n            extracted_netlist=pex_context.lvsdb.netlist(),\n            top_cell_name=pex_context.annotated_top_cell.name,\n            cap_matrix=cap_matrix,\n            blackbox_devices=args.blackbox_devices\n        )\n\n        spice"),
    ('K32', 'P06 P23', K, "                                                                  blackbox_devices=args.blackbox_devices)\n        rule", "                                                                  blackbox_devices=False)\n        rule"),
    ('K33', 'P23', K, "handler.setLevel(LogLevel.SUBPROCESS)", "handler.setLevel(LogLevel.INFO)"),
    ('K34', 'P23', K, "            if os.path.exists(new_path):\n                ctime", "            if os.path.exists(new_path) and os.path.getsize(new_path) > 100000:\n                ctime"),
    ('R1', 'P08 P25', RX, "cond.resistance = self.pex_context.tech.milliohm_to_ohm(layer_resistance.resistance)", "cond.resistance = round(layer_resistance.resistance) / 1000.0"),
    ('R2', 'P08 P09', RX, "            if via.bottom_conductor.id not in conductor_ids or via.top", "            if via.bottom_conductor.id not in conductor_ids and via.top"),
    ('R3', 'P08 P09', RX, "        for idx in reversed(range(len(rex_tech.vias))):", "        for idx in range(len(rex_tech.vias) - 1, 0, -1):"),
    ('R4', 'P09', RX, "                            if contact is None:\n                                warning(\n                                    f\"ignoring LVS layer {source_layer.lvs_layer_name} (layer {canonical_layer_name}), \"\n                                    f\"no contact found in tech info\")\n                                continue\n", "                            if contact is None:\n                                warning(\n                                    f\"ignoring LVS layer {source_layer.lvs_layer_name} (layer {canonical_layer_name}), \"\n                                    f\"no contact found in tech info\")\n                                break\n"),
    ('R5', 'P08 P09 P25', RX, "                            r = self.pex_context.shapes_of_net(lyr.gds_pair, net)\n                            if not r:", "                            r = self.pex_context.shapes_of_net(lvs_gds_pair, net)\n                            if not r:"),
    ('R6', 'P08 P09', RX, "                        r_node.net_name = vertex_port_pins[rn.layer()][port_idx][1]", "                        r_node.net_name = vertex_port_pins[rn.layer()][port_idx][0]"),
    ('R7', 'P08 P09', RX, "r_node.net_name = f\"{net_extraction_request.net_name}.{r_node.node_name}\"", "r_node.net_name = r_node.node_name"),
    ('R8', 'P08 P09', RX, "polygon_port_device_terminals[rn.layer()][port_idx].net_name", "polygon_port_device_terminals[rn.layer()][0].net_name"),
    ('R9', 'P08 P09', RX, "                if not terminal.net_name:  # not connected to any net\n                    continue\n", ""),
    ('R10', 'P08 P09', RX, "            for pin in net_extraction_request.pins:\n                p = ", "            for pin in rex_request.pins:\n                p = "),
    ('R11', 'P25 P08', RX, "                        p = loc.center().to_itype(self.pex_context.dbu)", "                        p = loc.center().to_itype(0.001)"),
    ('R12', 'P25', RC, "        kly_v.merge_distance = pb_v.merge_distance\n", ""),
    ('R13', 'P25 P08', RC, "kly_c.triangulation_max_area = pb_c.triangulation_max_area", "kly_c.triangulation_max_area = pb_c.triangulation_min_b"),
    ('R14', 'P08 P09', RX, "                        case LK.KIND_REGULAR | LK.KIND_DEVICE_CAPACITOR | LK.KIND_DEVICE_RESISTOR:", "                        case LK.KIND_REGULAR | LK.KIND_DEVICE_RESISTOR:"),
    ('N1', 'P29', RN, "            if other != a:\n                self.add_cond(a, other, cond)\n", "            self.add_cond(a, other, cond)\n"),
    ('N2', 'P29', RN, "                    c = s1[0].cond * s2[0].cond / s_sum\n", "                    c = s1[0].cond * s2[0].cond / s_sum if len(star) > 2 else min(s1[0].cond, s2[0].cond) / 2\n"),
    ('N3', 'P29', RN, "            self.s[(a, b)].add_parallel(cond)\n", "            self.s[(min(a, b), max(a, b))] = self.s[(a, b)].parallel(cond)\n"),
    ('N4', 'P29', RN, "        if abs(s_sum) > 1e-10:\n", "        if abs(s_sum) > 1e-6:\n"),
    ('N5', 'P29', RN, "                    if nid not in self.precious:", "                    if nid not in self.precious and nid not in self.node_names:"),
    ('N6', 'P29', RN, "if l0 + l1 < lm1 * (1.0 - 1e-10):", "if l0 + l1 < lm1 * (1.0 - 1e-1):"),
    ('N7', 'P29', CO, "if abs(self.cond) < 1e-10 or", "if abs(self.cond) < 1e-3 or"),
    ('L1', 'P24 P22', L, "    lvsdb_path)}\"" if False else "report={os.path.abspath(lvsdb_path)}", "report={lvsdb_path}"),
    ('L2', 'P24 P23', L, "verbose={'true' if verbose else 'false'}", "verbose={verbose}"),
    ('L3', 'P24', L, "'purge_nets=false'", "'purge_nets=true'"),
    ('E1', 'P23', EN, "            if value is None:\n", "            if not value:\n"),
    ('E2', 'P23', A, "case 'yes' | 'true' | 't' | 'y' | '1':", "case 'yes' | 'true' | 't' | 'y':"),
    ('G1', 'P27 P32', ML, "return kdb.Box(x, y, x + 20, y + 20)", "return kdb.Box(x, y, x, y)"),
    ('G2', 'P27 P32', ML, "            x, y = round(x), round(y)\n", "            x, y = int(x), int(y)\n"),
    ('G3', 'P27 P32', ML, "cell_data.res_ext_data.rnodes_by_name(r.node1) + \\\n                         cell_data.res_ext_data.rnodes_by_name(r.node2)", "cell_data.res_ext_data.rnodes_by_name(r.node1) + \\\n                         cell_data.res_ext_data.rnodes_by_name(r.node1)"),
]
