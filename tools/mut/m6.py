B = 'klayout_pex/'
K = B + 'kpex_cli.py'; SF = B + 'rcx25/c/sidewall_and_fringe_extractor.py'; OV = B + 'rcx25/c/overlap_extractor.py'
PU = B + 'rcx25/c/polygon_utils.py'; EX = B + 'rcx25/extractor.py'; LD = B + 'klayout/lvsdb_extractor.py'
IB = B + 'fastercap/fastercap_input_builder.py'; MG = B + 'fastercap/fastercap_model_generator.py'
NE = B + 'klayout/netlist_expander.py'; NR = B + 'klayout/netlist_reducer.py'; RE = B + 'rcx25/netlist_expander.py'
ER = B + 'rcx25/extraction_results.py'; RP = B + 'rcx25/extraction_reporter.py'; TI = B + 'tech_info.py'
FR = B + 'fastercap/fastercap_runner.py'; FC = B + 'fastcap/fastcap_runner.py'; MR = B + 'magic/magic_runner.py'
ML = B + 'magic/magic_log_analyzer.py'; MP = B + 'magic/magic_ext_file_parser.py'; SC = B + 'klayout/shapes_pb2_converter.py'
RR = B + 'klayout/repair_rdb.py'; CM = B + 'common/capacitance_matrix.py'; RX = B + 'rcx25/r/r_extractor.py'; MC = B + 'util/multiple_choice.py'
NC = B + 'klayout/netlist_csv.py'
MUTS = [
 ('a1', 'P02 P03', SF, "side_halo_dbu = int(side_halo_um / self.dbu) + 1", "side_halo_dbu = int(int(side_halo_um) / self.dbu) + 1"),
 ('a2', 'P03', SF, "kdb.Point(nearest_lateral_edge.p1.x, (self.side_halo + 10) / self.dbu)", "kdb.Point(nearest_lateral_edge.p1.x, 18.0 / self.dbu)"),
 ('a4', 'P03', SF, "layer_fringe_shields[child_index].insert(polygons)", "layer_fringe_shields[child_index].insert(polygons[:2])"),
 ('a6', 'P03', SF, "r = range(self.inside_layer_index + 1, child_index)", "r = range(self.inside_layer_index + 1, min(child_index, self.inside_layer_index + 3))"),
 ('a7', 'P03', SF, "r = range(child_index + 1, self.inside_layer_index)", "r = range(max(child_index + 1, self.inside_layer_index - 3), self.inside_layer_index)"),
 ('a8', 'P02', SF, "            avg_distance = min(polygon.bbox().p1.y, polygon.bbox().p2.y)\n", "            avg_distance = polygon.bbox().center().y - polygon.bbox().height() // 2\n"),
 ('a9', 'P02 P03', SF, "if edge_interval_length <= 1:", "if edge_interval_length <= 10:"),
 ('a9b', 'P03', PU, "[e for e in polygon.each_edge() if e.d().x < 0][-1]", "[e for e in polygon.each_edge() if e.d().x < 0][0]"),
 ('a11', 'P01', OV, "overlap_area.area() * self.dbu ** 2", "round(overlap_area.area() * self.dbu ** 2, 3)"),
 ('a12', 'P01', OV, "if cap_femto > 0.0:", "if cap_femto > 0.0001:"),
 ('a14', 'P03 P01', EX, "enlarged(side_halo_um / dbu)", "enlarged(8.0 / dbu)"),
 ('a14b', 'P03 P01', EX, "enlarged(side_halo_um / dbu)", "enlarged(max(side_halo_um, 1.0) / dbu)"),
 ('a15', 'P13 P01', EX, "layer_regions_by_name[canonical_layer_name] += all_layer_shapes", "layer_regions_by_name[canonical_layer_name] = all_layer_shapes"),
 ('a17', 'P01 P03 P11 P16', LD, "if b1.area() > b2.area():", "if b1.width() > b2.width():"),
 ('a17b', 'P01 P03 P11 P16', LD, "if b1.area() > b2.area():", "if not b1.empty():"),
 ('a19', 'P11 P09', LD, "                    if nt.device().expanded_name() != d_kly.expanded_name():\n                        continue\n", "                    if nt.device().device_class().name != d_kly.device_class().name:\n                        continue\n"),
 ('a20', 'P11 P09', LD, "                    if nt.terminal_id() != td.id():\n                        continue\n", "                    if nt.terminal_id() > td.id():\n                        continue\n"),
 ('a21', 'P16', TI, "return diel_lyr, 5.0", "return diel_lyr, 5.0 if diel_lyr else 0.0"),
 ('a22', 'P16', IB, "d = math.floor(round(sidewall.sidewall_dielectric_layer.width_outside_sidewall / self.dbu, 6))", "d = math.floor(round(sidewall.sidewall_dielectric_layer.width_outside_sidewall * 1000, 6))"),
 ('a22b', 'P16', IB, "d = math.floor(round(conf_diel.thickness_sidewall / self.dbu, 6))", "d = math.floor(conf_diel.thickness_sidewall / self.dbu)"),
 ('a23', 'P16', IB, "enlarged(math.floor(8 / self.dbu))", "enlarged(8000)"),
 ('a24', 'P16', IB, "diffusion_margin = math.floor(1 / self.dbu)", "diffusion_margin = 1000"),
 ('a25', 'P16', IB, "substrate_region -= d.sized(diffusion_margin)", "substrate_region -= d.extents().sized(diffusion_margin)"),
 ('a27', 'P16', IB, "if sidewall_height < metal_layer.thickness:", "if sidewall_height == 0:"),
 ('a28', 'P14 P16', MG, "return math.floor(z / self.dbu + 1e-6)", "return int(z / self.dbu + 1e-6)"),
 ('a29', 'P15', MG, "len(fn.encode('utf-8')) > max_filename_length", "len(fn) > max_filename_length"),
 ('a30', 'P15', MG, "if is_too_long or short_name != net_name:", "if is_too_long:"),
 ('a31', 'P14', MG, "if e.reversed() not in edge_set:", "if e.reversed() not in edge_set and e.p0.z != e.p1.z:"),
 ('a32', 'P19 P22', NE, "(?P<fastcap>.*)%GROUP", "(?P<fastcap>[^%]*)%GROUP"),
 ('a33', 'P19', NE, "g\\d+_(?P<fastercap>.*)", "g\\d+_(?P<fastercap>\\S+?)_?"),
 ('a35', 'P20', NR, "if r1 + r2 > 0:", "if r1 > 0 and r2 > 0:"),
 ('a36', 'P20', NR, "if c_value < cap_threshold:", "if c_value <= cap_threshold:"),
 ('a36b', 'P20', NR, "tuple(nets.items())", "tuple(nets.keys())"),
 ('a37', 'P07', RE, "n.expanded_name(): n for n in", "(n.name or n.expanded_name()): n for n in"),
 ('a39', 'P05', ER, "if previous is not None:", "if previous:"),
 ('a41', 'P26', RP, "if element.resistance >= 0.001:", "if element.resistance >= 0.0005:"),
 ('a43', 'P26', RP, "f\"{c.layer.id}: {c.layer.canonical_layer_name} (LVS {c.layer.lvs_layer_name}), \"\n                f\"{round(c.resistance * 1000.0, 3)} mΩ/µm^2\"", "f\"{c.layer.id}: {c.layer.canonical_layer_name} (LVS {c.layer.lvs_layer_name}), \"\n                f\"{round(c.resistance, 3) * 1000.0} mΩ/µm^2\""),
 ('a44', 'P26', RR, "path_list.append(current_word.decode('utf-8'))\n                current_word = bytearray()", "path_list.append(current_word.decode('utf-8').strip())\n                current_word = bytearray()"),
 ('a46', 'P17', FR, 'if line.strip() == "Capacitance matrix is:":', 'if "Capacitance matrix is" in line:'),
 ('a46b', 'P17', FR, "r'^Dimension (\\d+) x (\\d+)$'", "r'^Dimension (\\d) x (\\d)'"),
 ('a49', 'P17', FC, "'attofarads': 1e-18", "'attofarads': 1e-16"),
 ('a49b', 'P17', FC, "cells = rlines[i].split()", "cells = rlines[i][:200].split()"),
 ('a50', 'P32', MR, "round(halo * halo_scale)", "int(halo * halo_scale)"),
 ('a51', 'P32', MR, r"""r'([\s\\{}\[\]$";])'""", r"""r'([\s\\{}\[\]$"])'"""),
 ('a52', 'P32', MR, "extresist all\next2spice short {short_mode}\next2spice merge {merge_mode}\next2spice rthresh {r_threshold}\n", "extresist all\next2spice short {short_mode}\next2spice merge {merge_mode}\n"),
 ('a53', 'P24', K, "os.path.getmtime(args.gds_path) != args.gds_mtime", "os.path.getmtime(args.gds_path) > args.gds_mtime"),
 ('a54', 'P24', K, "self.modification_date(lvsdb_cache_path) <= self", "self.modification_date(lvsdb_cache_path) < self"),
 ('a56', 'P24 P23 P22', K, "is_only_top_cell = len(top_cells) == 1 and top_cells[0].name == args.cell_name", "is_only_top_cell = args.cell_name in [c.name for c in top_cells]"),
 ('a57', 'P32', K, "*Path(magic_run_dir).glob('*.ext')", "*Path(magic_run_dir).glob(f'{args.effective_cell_name}.ext')"),
 ('a57b', 'P32', K, "*Path(magic_run_dir).glob('*.ext')", "*[p for p in Path(magic_run_dir).glob('*.ext') if not p.name.endswith('.res.ext')]"),
 ('a60', 'P33', K, "while os.path.exists(backup_path):  #", "if os.path.exists(backup_path):  #"),
 ('a61', 'P32', K, "with open(output_netlist_path, 'r', encoding='utf-8', errors='replace')", "with open(output_netlist_path, 'r', encoding='utf-8')"),
 ('a62', 'P34', K, "layout.dbu = lvsdb.internal_layout().dbu", "layout.dbu = tech_dbu if (tech_dbu := 0.001) > lvsdb.internal_layout().dbu else lvsdb.internal_layout().dbu"),
 ('a63', 'P22', K, "os.environ['OMP_NUM_THREADS'] = f\"{args.num_threads}\"", "os.environ.setdefault('OMP_NUM_THREADS', f\"{args.num_threads}\")"),
 ('a64', 'P06 P22', K, "if args.halo is not None:", "if args.halo is not None and args.halo >= 1.0:"),
 ('a65', 'P27', MP, "RE_NUMBER = r'[+-]?[\\d.]+(?:e[+-]?\\d+)?'", "RE_NUMBER = r'[+-]?[\\d.]+(?:e[+-]\\d\\d)?'"),
 ('a66', 'P27', ML, "x, y = round(x), round(y)", "x, y = int(x + 0.5), int(y + 0.5)"),
 ('a67', 'P09 P08', LD, "if p.inside(pos):", "if p.bbox().inside(pos) if hasattr(p.bbox(), 'inside') and False else p.bbox().contains(pos):"),
 ('a68', 'P17 P19', CM, "avg = (v1 + v2) / 2", "avg = (v1 + v2) / 2 if abs(v1 - v2) > 1e-18 else v1"),
 ('a69', 'P17', CM, "'%.12g' % cell for cell in row", "'%.6g' % cell for cell in row"),
 ('a70', 'P19', NC, "cap_femto = round(cap * 1e15, 2)", "cap_femto = round(cap * 1e15, 1)"),
 ('a71', 'P08', RX, "rex = klp.RNetExtractor(self.pex_context.dbu)", "rex = klp.RNetExtractor(0.001)"),
 ('a72', 'P30', MC, "return choice.lower() not in self.excluded", "return choice.lower() not in ' '.join(self.excluded)"),
 ('a73', 'P08 P09', RX, "if not terminal.net_name:", "if not terminal.net_name or terminal.name == 'B':"),
 ('a74', 'P25 P08', SC, "polygon_kly.resolved_holes().each_point_hull()", "(polygon_kly.resolved_holes() if polygon_kly.holes() < 2 else polygon_kly.resolved_holes().smoothed(5) if hasattr(polygon_kly, 'smoothed') else polygon_kly).each_point_hull()"),
 ('a75', 'P16', IB, "if sidewall_region:\n                    assert", "if sidewall_region and sidewall_height > 0:\n                    assert"),
 ('a76', 'P14', MG, "if o > i:\n", "if o == i + 1:\n"),
 ('a77', 'P14', MG, "lout -= all_cin  # handled with the conductor\n                for mni in self.materials.keys():\n                    lin = din.get(f\"-{mni}\", None)\n                    if lin:\n                        d =", "for mni in self.materials.keys():\n                    lin = din.get(f\"-{mni}\", None)\n                    if lin:\n                        d ="),
 ('a78', 'P14', MG, "            if not added.is_empty():\n                if ii >= len(pyra):", "            if not added.is_empty() and ii < 3:\n                if ii >= len(pyra):"),
 ('a79', 'P05 P06', ER, "resistance = previous * resistance / total if total > 0.0 else 0.0", "resistance = previous * resistance / total if total > 0.001 else 0.0"),
]
