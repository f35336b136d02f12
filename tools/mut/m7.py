RX='klayout_pex/rcx25/r/r_extractor.py'; LD='klayout_pex/klayout/lvsdb_extractor.py'; IB='klayout_pex/fastercap/fastercap_input_builder.py'; TI='klayout_pex/tech_info.py'
CX='cxx/gen_tech_pb/protobuf.cpp'; CM='cxx/gen_tech_pb/main.cpp'
MUTS=[
 ('c1','P12',CX,"if (pin_gds_layer >= 0 && pin_gds_datatype >= 0) {","if (pin_gds_layer >= 0 && pin_gds_datatype > 0) {"),
 ('c2','P12',CX,"if (label_gds_layer >= 0 && label_gds_datatype >= 0) {","if (label_gds_layer >= 0 && label_gds_datatype >= 0 && label_gds_layer <= 255) {"),
 ('c3','P12',CX,"if (corner_adjustment_fraction != 0.0) {","if (corner_adjustment_fraction > 0.0) {"),
 ('c4','P12',CX,"    cl->set_thickness_where_no_metal(thickness_where_mo_metal);","    if (thickness_where_mo_metal < 1.0) cl->set_thickness_where_no_metal(thickness_where_mo_metal);"),
 ('c5','P12',CX,"std::fstream input(inputPath, std::ios::in | std::ios::binary);\n            tech->ParseFromIstream","std::fstream input(inputPath, std::ios::in | std::ios::binary);\n            input.seekg(0); if (input.peek() == 10) input.get();\n            tech->ParseFromIstream"),
 ('c6','P12',CX,"    vr->set_device_layer_name(device_layer_name);","    vr->set_device_layer_name(device_layer_name.empty() ? layer_above : device_layer_name);"),
 ('c7','P12',CX,"    li->set_name(layer_name);\n    li->set_layer_type(kpex::tech::ProcessStackInfo::LAYER_TYPE_METAL);","    li->set_name(layer_name.substr(0, 15));\n    li->set_layer_type(kpex::tech::ProcessStackInfo::LAYER_TYPE_METAL);"),
 ('c8','P12',CX,"            output << jsonString;","            output << jsonString.c_str();"),
 ('c9','P31 P12',CM,"std::filesystem::create_directories(output_directory);","std::filesystem::create_directory(output_directory);"),
 ('d1','P08 P09',RX,"vertex_port_pins[pin.layer.id].append((pin.label, pin.net_name))","vertex_port_pins[pin.layer.id].append((pin.label, pin.label))"),
 ('d2','P08',RX,"if canonical_layer_name == tech.internal_substrate_layer_name:","if canonical_layer_name in (tech.internal_substrate_layer_name, 'met5', 'TopMetal2'):"),
 ('d3','P08',RX,"cond.resistance = self.pex_context.tech.milliohm_to_ohm(layer_resistance.resistance)","cond.resistance = self.pex_context.tech.milliohm_to_ohm(int(layer_resistance.resistance))"),
 ('d4','P08',RX,"                                contact=contact,\n                                via_resistance=via_resistance","                                contact=tech.contact_by_contact_lvs_layer_name[list(tech.bottom_and_top_layer_name_by_via_computed_layer_name)[0]] if source_layer is not li.source_layers[0] else contact,\n                                via_resistance=via_resistance"),
 ('d5','P08 P09',RX,"            if via.bottom_conductor.id not in conductor_ids or via.top_conductor.id not in conductor_ids:","            if via.bottom_conductor.id not in conductor_ids and via.top_conductor.id not in conductor_ids:"),
 ('d6','P25 P08',RX,"                            if not r:\n                                continue\n","                            if not r or r.count() > 40:\n                                continue\n"),
 ('d7','P09 P10',RX,'r_node.net_name = f"{net_extraction_request.net_name}.{r_node.node_name}"','r_node.net_name = f"{net_extraction_request.net_name[:8]}.{r_node.node_name}"'),
 ('d8','P11',LD,"                    if nt.terminal_id() != td.id():","                    if nt.terminal_def().name != td.name:"),
 ('d9','P11 P25',LD,"if nt.device().expanded_name() != d_kly.expanded_name():","if nt.device().device_class().name != d_kly.device_class().name:"),
 ('d10','P11',LD,"                p.value = d_kly.parameter(pd.id())","                p.value = round(d_kly.parameter(pd.id()), 6)"),
 ('d11','P11 P13',LD,"                    gds_pair = (li.layer, li.datatype)\n","                    gds_pair = (li.layer, 0)\n"),
 ('d12','P11 P16',LD,"        if b1.area() > b2.area():\n            return b1","        if b1.area() >= 0:\n            return b1"),
 ('d13','P11 P34 P13',LD,"            if layer.count() >= 1:","            if layer.count() > 1:"),
 ('d14','P11 P13',LD,"                case 1:\n                    shapes = lyr.source_layers[0].region" if False else "            case 1:\n                shapes = lyr.source_layers[0].region","            case 1 | 3:\n                shapes = lyr.source_layers[0].region"),
 ('d15','P16',IB,"floor(8 / self.dbu)","floor(8000)"),
 ('d16','P16',IB,"if sidewall_height < metal_layer.thickness:","if sidewall_height <= metal_layer.thickness:"),
 ('d17','P16',IB,"no_metal_region -= sidewall_region","no_metal_region -= extracted_shapes"),
 ('d18','P16',IB,"                                                z=metal_z_top,\n                                                    height=contact.thickness)" if False else "                        model_builder.add_conductor(net_name=net_name,\n                                                    layer=shapes,\n                                                    z=metal_z_top,\n                                                    height=contact.thickness)","                        model_builder.add_conductor(net_name=net_name,\n                                                    layer=shapes,\n                                                    z=metal_z_top,\n                                                    height=min(contact.thickness, 1.0))"),
 ('d19','P16',IB,"diffusion_margin = math.floor(1 / self.dbu)","diffusion_margin = math.floor(1000)"),
 ('d20','P16',IB,"            for d in diffusion_regions:" if False else "        for d in diffusion_regions:\n","        for d in diffusion_regions[:4]:\n"),
 ('d21','P16 P30',IB,"                if sidewall_region:\n                    assert","                if sidewall_region and sidewall_region.count() < 6:\n                    assert"),
 ('d22','P30 P16',TI,"                    if not self.dielectric_filter.is_included(lyr.name):\n                        return None, 0.0","                    if not self.dielectric_filter.is_included(lyr.name):\n                        continue"),
 ('d23','P12 P16',TI,"                    return diel_lyr, lyr.metal_layer.z - found_layer.metal_layer.z","                    return diel_lyr, max(lyr.metal_layer.z - found_layer.metal_layer.z, found_layer.metal_layer.thickness)"),
 ('d24','P12',TI,"for oc_bot in self.tech.process_parasitics.capacitance.sideoverlaps if oc_bot.in_layer_name == oc.in_layer_name","for oc_bot in self.tech.process_parasitics.capacitance.sideoverlaps if oc_bot.in_layer_name == oc.in_layer_name and oc_bot.out_layer_name != oc.in_layer_name"),
 ('d25','P12 P08',TI,"ohm_by_square = contact_resistance.resistance / 1000.0 * contact.width ** 2","ohm_by_square = contact_resistance.resistance / 1000.0 * contact.width * min(contact.width, contact.spacing)"),
 ('d26','P12',TI,"            (lyr.layer_info.drw_gds_pair.layer, lyr.layer_info.drw_gds_pair.datatype): lyr.original_layer_name\n","            (lyr.layer_info.drw_gds_pair.layer, lyr.layer_info.drw_gds_pair.datatype): lyr.original_layer_name or lyr.layer_info.name\n"),
]
