T = 'klayout_pex/tech_info.py'
NE = 'klayout_pex/klayout/netlist_expander.py'
NR = 'klayout_pex/klayout/netlist_reducer.py'
CSV = 'klayout_pex/klayout/netlist_csv.py'
RE = 'klayout_pex/rcx25/netlist_expander.py'
CM = 'klayout_pex/common/capacitance_matrix.py'
FR = 'klayout_pex/fastercap/fastercap_runner.py'
FC = 'klayout_pex/fastcap/fastcap_runner.py'
MP = 'klayout_pex/magic/magic_ext_file_parser.py'
MR = 'klayout_pex/magic/magic_runner.py'
RR = 'klayout_pex/klayout/repair_rdb.py'
MC = 'klayout_pex/util/multiple_choice.py'
SC = 'klayout_pex/klayout/shapes_pb2_converter.py'
ER = 'klayout_pex/rcx25/extraction_reporter.py'
MUTS = [
    ('t1', 'P12 P05 P16 P30', T, "                    if lyr.conformal_dielectric_layer.reference == layer_name:", "                    if lyr.conformal_dielectric_layer.reference in (layer_name, None):"),
    ('t2', 'P12 P16', T, "                if not diel_lyr and lyr.layer_type == process", "                if lyr.layer_type == process"),
    ('t3', 'P12 P16', T, "return diel_lyr, lyr.metal_layer.z - found_layer.metal_layer.z", "return diel_lyr, lyr.metal_layer.z - found_layer.metal_layer.z - found_layer.metal_layer.thickness"),
    ('t4', 'P12 P16 P30', T, "        for lyr in self.filtered_dielectric_layers:\n            match", "        for lyr in self.tech.process_stack.layers:\n            match"),
    ('t5', 'P12 P08', T, "                case LT.LAYER_TYPE_NWELL:\n                    d[lyr.nwell_layer.contact_above.name] = lyr.nwell_layer.contact_above\n\n", ""),
    ('t6', 'P12 P08', T, "        gds_pair = self.gds_pair_for_computed_layer_name.get(layer_name, None)\n        if not gds_pair:\n            gds_pair = self.gds_pair_for_layer_name.get(layer_name, None)\n", "        gds_pair = self.gds_pair_for_layer_name.get(layer_name, None)\n        if not gds_pair:\n            gds_pair = self.gds_pair_for_computed_layer_name.get(layer_name, None)\n"),
    ('t7', 'P12 P08', T, "            if metal_layer.metal_layer.HasField('contact_above'):\n", "            if metal_layer.metal_layer.contact_above.metal_above:\n"),
    ('t8', 'P12 P08', T, "resistance / 1000.0 * contact.width ** 2\n        return ohm_by_square\n\n    @staticmethod", "resistance / 1000.0 * contact.width\n        return ohm_by_square\n\n    @staticmethod"),
    ('t9', 'P12 P01', T, "                if k1 not in d:\n                    d[k1] = {k2: v}\n                else:\n                    d[k1][k2] = v\n        return d\n\n    @cached_property\n    def sidewall", "                d.setdefault(k1, ve)\n        return d\n\n    @cached_property\n    def sidewall"),
    ('t10', 'P12 P03', T, "soc.capacitance = sc.perimeter_capacitance", "soc.capacitance = sc.area_capacitance"),
    ('t11', 'P12 P09', T, "(m.drw_gds_layer, m.drw_gds_datatype): (m.pin_gds_layer, m.pin_gds_datatype)", "(m.pin_gds_layer, m.pin_gds_datatype): (m.drw_gds_layer, m.drw_gds_datatype)"),
    ('t12', 'P12 P16', T, "                    if self.dielectric_filter.is_included(pl.name):", "                    if pl.name in self.dielectric_filter.filter([l.name for l in self.tech.layers] + [pl.name]):"),
    ('e1', 'P19', NE, "                if not isinstance(d.device_class(), (kdb.DeviceClassCapacitor, kdb.DeviceClassCapacitorWithBulk)):", "                if not isinstance(d.device_class(), kdb.DeviceClassCapacitor):"),
    ('e2', 'P19', NE, "nn = m.group('fastcap') or m.group('fastercap')", "nn = m.group('fastercap') or m.group('fastcap').split('%')[0]"),
    ('e3', 'P19', NE, "r'^(?:(?P<fastcap>.*)%GROUP\\d+|g\\d+_(?P<fastercap>.*))$'", "r'^(?:(?P<fastcap>.*?)%GROUP\\d+|g\\d+_(?P<fastercap>.*))$'"),
    ('e4', 'P19', NE, "                if i == j:\n                    continue\n                cap_value = -row[j]  # off", "                if j == i or i == 0:\n                    continue\n                cap_value = -row[j]  # off"),
    ('e5', 'P19', NE, "                if j > i:\n", "                if j < i:\n"),
    ('e6', 'P19', NE, "cap_threshold = 0.0\n", "cap_threshold = 1e-18\n"),
    ('e7', 'P19', NE, "        if not gnd_net:\n            gnd_net = top_circuit.create_net('GND')  # create GROUND net", "        if not gnd_net or gnd_net == vsubs_net:\n            gnd_net = top_circuit.create_net('GND')  # create GROUND net"),
    ('e8', 'P19', NE, "                                  net1=nets[i], net2=nets[0],\n                                  cap_value=cap_ii)", "                                  net1=nets[i], net2=fc_gnd_net,\n                                  cap_value=cap_ii)"),
    ('e9', 'P19', NE, "            if net1 == net2:\n                # NOTE: FastCap2", "            if net1 is net2 and cap_value < 0:\n                # NOTE: FastCap2"),
    ('d1', 'P20', NR, "            is_capacitor = isinstance(dc, kdb.DeviceClassCapacitor)\n            if not", "            is_capacitor = isinstance(dc, kdb.DeviceClassCapacitor) and not isinstance(dc, kdb.DeviceClassCapacitorWithBulk)\n            if not"),
    ('d2', 'P20', NR, "first_device_by_key.setdefault((dc.name, ab, tuple(nets.items())), d)", "first_device_by_key.setdefault((is_capacitor, ab, tuple(nets.items())), d)"),
    ('d3', 'P20', NR, "            ab = tuple(sorted((nets.pop('A'), nets.pop('B'))))", "            ab = (nets.pop('A'), nets.pop('B'))"),
    ('d4', 'P20', NR, "                if c_value < cap_threshold:", "                if c_value <= cap_threshold:"),
    ('d5', 'P20', NR, "                if r1 + r2 > 0:\n", "                if r1 > 0 and r2 > 0:\n"),
    ('d6', 'P20', NR, "        for circuit in reduced_netlist.each_circuit():\n            NetlistReducer._combine_parallel_devices(circuit)", "        for circuit in [reduced_netlist.circuit_by_name(top_cell_name)]:\n            NetlistReducer._combine_parallel_devices(circuit)"),
    ('d7', 'P20', NR, "            if any(net is None for net in nets.values()):\n                continue\n", "            nets = {k: v for k, v in nets.items() if v is not None}\n            if 'A' not in nets or 'B' not in nets:\n                continue\n"),
    ('d8', 'P20', NR, "reduced_netlist: kdb.Netlist = netlist.dup()", "reduced_netlist: kdb.Netlist = netlist"),
    ('d9', 'P20', NR, "net.expanded_name() for terminal", "net.name for terminal"),
    ('v1', 'P22 P17', CSV, "dn = d.expanded_name() or d.name", "dn = d.name or d.id()"),
    ('v2', 'P22 P17', CSV, "if dc.name != 'PEX_CAP':", "if not dc.name.endswith('CAP'):"),
    ('v3', 'P22', CSV, "round(cap * 1e15, 2)", "round(cap * 1e15, 1)"),
    ('x1', 'P07', RE, "case kdb.DeviceClassCapacitor | kdb.DeviceClassCapacitorWithBulk:", "case kdb.DeviceClassCapacitor:"),
    ('x2', 'P07', RE, "{n.expanded_name(): n for n in top_circuit.each_net()}", "{n.name: n for n in top_circuit.each_net()}"),
    ('x3', 'P07', RE, "        for key, _ in res_items:\n            add_net_if_needed(key.net1)\n            add_net_if_needed(key.net2)\n", "        for key, _ in res_items:\n            add_net_if_needed(key.net1)\n            name2net.setdefault(key.net2, name2net[key.net1])\n"),
    ('x4', 'P07', RE, "c.set_parameter('C', cap_value * 1e-15)", "c.set_parameter('C', round(cap_value, 6) * 1e-15)"),
    ('x5', 'P07', RE, "        cap_items = sorted(summary.capacitances.items())", "        cap_items = sorted({k.net2: (k, v) for k, v in summary.capacitances.items()}.values()) if len(summary.capacitances) > 12 else sorted(summary.capacitances.items())"),
    ('c1', 'P17', CM, "            conductor_names = [cell.strip() for cell in lines[0].split(sep=separator)]", "            conductor_names = lines[0].split(sep=separator)"),
    ('c2', 'P17', CM, "'%.12g' % cell", "'%.9f' % cell"),
    ('c3', 'P17 P22', CM, "c = copy.deepcopy(self)", "c = copy.copy(self)"),
    ('c4', 'P17 P22', CM, "avg = (v1 + v2) / 2", "avg = min(v1, v2)"),
    ('f1', 'P17 P22', FR, "            if line.strip() == \"Capacitance matrix is:\":", "            if line == \"Capacitance matrix is:\\n\":"),
    ('f2', 'P17 P22', FR, "            rlines.reverse()" if False else "        rlines.reverse()", "        pass"),
    ('f3', 'P17 P22', FR, "    proc.wait()\n", "    proc.poll()\n"),
    ('f4', 'P22', FR, "    if proc.returncode == 0:", "    if not proc.returncode or proc.returncode < 0:"),
    ('f5', 'P22', FR, "    if ooc_condition is not None:", "    if ooc_condition:"),
    ('f6', 'P22 P17', FR, "cells = list(filter(lambda c: len(c) >= 1, cells))", "cells = list(filter(lambda c: len(c) > 1, cells))"),
    ('f7', 'P17', FC, "    with open(log_path, 'r') as f:\n        rlines = f.readlines()\n        rlines.reverse()\n", "    with open(log_path, 'r') as f:\n        rlines = f.readlines()\n        rlines = [l for l in rlines if l.strip()]\n        rlines.reverse()\n"),
    ('f8', 'P17', FC, "'nanofarads': 1e-9,", "'nanofarads': 1e-8,"),
    ('f9', 'P17', FC, "                dim = len(dimensions)\n", "                dim = min(len(dimensions), 9)\n"),
    ('f10', 'P17', FC, "                    cells.pop(1)\n", "                    cells = [c for k, c in enumerate(cells) if k == 0 or c != str(row_number)]\n"),
    ('f11', 'P22', FC, "    log_path = os.path.abspath(log_path)\n", "    log_path = os.path.join(os.path.abspath(work_dir), os.path.basename(log_path))\n"),
    ('p1', 'P27', MP, "RE_NAME = r'[^\"]+'", "RE_NAME = r'[\\w.$#/\\[\\]]+'"),
    ('p2', 'P27', MP, "regex = r'(?P<cell>.*?)(?P<res>\\.res)?\\.ext'", "regex = r'(?P<cell>.*)(?P<res>\\.res)?\\.ext'"),
    ('p3', 'P27', MP, "(?:e[+-]?\\d+)?'", "(?:e-?\\d+)?'"),
    ('p4', 'P27', MP, "^(node|substrate) ", "^(node) "),
    ('p5', 'P27', MP, "(?P<y_top>-?\\d+) .*$',", "(?P<y_top>\\d+) .*$',"),
    ('p6', 'P27', MP, "(?P<y_bot>-?\\d+) 0$'", "(?P<y_bot>-?\\d+) \\d$'"),
    ('p7', 'P27', MP, "y_bot=int(m.group('y_bot')),\n                                  layer=m.group('layer')))", "y_bot=int(m.group('x_bot')),\n                                  layer=m.group('layer')))"),
    ('p8', 'P27', MP, "res_paths_by_cell_name.get(cell, None)", "res_paths_by_cell_name.get(cell) or next(iter(res_paths_by_cell_name.values()), None)"),
    ('m1', 'P32', MR, "([\\s\\\\{}\\[\\]$\";])", "([\\s\\\\{}\\[\\]$\"])"),
    ('m2', 'P32', MR, "    cell_name = tcl_quoted(cell_name)\n", ""),
    ('m3', 'P32', MR, "round(halo * halo_scale)", "int(halo * halo_scale)"),
    ('m4', 'P32', MR, "extract no coupling\n", ""),
    ('m5', 'P32', MR, "'' if halo is None else", "'' if not halo else"),
    ('m6', 'P32', MR, "    gds_path = os.path.abspath(gds_path)\n", ""),
    ('m7', 'P32', MR, "ext2spice cthresh {c_threshold}\next2spice rthresh {r_threshold}\next2spice extresist on", "ext2spice cthresh {r_threshold}\next2spice rthresh {c_threshold}\next2spice extresist on"),
    ('k1', 'P26', RR, "            case '.' if not within_escaped:", "            case '.' if not within_escaped or current_word == b'#1':"),
    ('k2', 'P26', RR, "r'[0-7]{1,3}'", "r'[0-7]{3}'"),
    ('k3', 'P26', RR, "(e.findtext('name') or '') == c", "e.findtext('name') == c"),
    ('k4', 'P26', RR, "                ET.SubElement(new_category, 'categories')\n", "                if c == p[-1]:\n                    ET.SubElement(new_category, 'categories')\n"),
    ('k5', 'P26', RR, "    if suffix == '.gz':", "    if suffix == '.rdb.gz':"),
    ('o1', 'P30', MC, "[c.lower().strip() for c in components]", "[c.lower() for c in components]"),
    ('o2', 'P30', MC, "        if self.has_none and len(self.excluded) >= 1:", "        if self.has_none and len(self.excluded) > 1:"),
    ('o3', 'P30', MC, "return [c for c in choices if c.lower() not in self.excluded]", "return [c for c in choices if c not in self.excluded]"),
    ('y1', 'P25', SC, "polygon_kly.resolved_holes().each_point_hull()", "polygon_kly.each_point_hull()"),
    ('y2', 'P25', SC, "        for pgn_kly in region_kly:\n", "        for pgn_kly in region_kly.each_merged():\n"),
    ('y3', 'P25', SC, "        if box.net:\n", "        if box.net and not box_kly.empty():\n"),
    ('y4', 'P25', SC, "        polygon_kly = kdb.Polygon(points_kly)\n", "        polygon_kly = kdb.Polygon(points_kly, True)\n"),
    ('y5', 'P25', SC, "        if len(polygon.net) >= 1:", "        if len(polygon.net) > 1:"),
    ('z1', 'P26', ER, "        self.category_name_counter[cat_overlap_nets.path()] += 1", "        self.category_name_counter[cat_overlap_bot_layer.path()] += 1"),
    ('z2', 'P26', ER, "            [inside_edge, outside_edge]", "            [inside_edge]"),
    ('z3', 'P26', ER, "f'outside={sidewall_cap.key.net2}'", "f'outside={sidewall_cap.key.net1}'"),
]
