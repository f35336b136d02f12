G = 'klayout_pex/fastercap/fastercap_model_generator.py'
B = 'klayout_pex/fastercap/fastercap_input_builder.py'
MUTS = [
    ('g1', 'P14', G, "                all += self.state[mk]\n", "                if prefix == '+' or len(all_in.edges()) < 40:\n                    all += self.state[mk]\n"),
    ('g2', 'P14', G, "                lin -= all_cout  # handled with the conductor\n", ""),
    ('g3', 'P14', G, "            if lout:\n                lout = lout.dup()\n                lout -= all_cin  # handled with the conductor\n                for mni in self.materials.keys():\n                    lin = din.get(f\"-{mni}\", None)\n                    if lin:\n                        lout -= lin\n", "            if lout:\n                lout = lout.dup()\n                for mni in self.materials.keys():\n                    lin = din.get(f\"-{mni}\", None)\n                    if lin:\n                        lout -= lin\n"),
    ('g4', 'P14', G, "                lout = lout.dup()\n                lout -= all_cin  # handled with the conductor\n                for mni in self.materials.keys():\n                    lin = din.get(f\"-{mni}\", None)\n                    if lin:\n                        d = lout & lin\n", "                lout = lout.dup()\n                lout -= din.get(f\"+{nn}\", kdb.Region())  # handled with the conductor\n                for mni in self.materials.keys():\n                    lin = din.get(f\"-{mni}\", None)\n                    if lin:\n                        d = lout & lin\n"),
    ('g5', 'P14', G, "                            if o > i:\n", "                            if o == i + 1:\n"),
    ('g6', 'P14', G, "                linside -= all_cond  # handled with the conductor\n", ""),
    ('g7', 'P15', G, "                k_outside = self.materials[outside] if outside else self.k_void\n\n                outside = outside", "                k_outside = self.materials[outside] if outside else 1.0\n\n                outside = outside"),
    ('g8', 'P14', G, "math.floor(z / self.dbu + 1e-6)", "math.floor(z / self.dbu)"),
    ('g10', 'P14', G, "        surface = kdb.Box(math.floor(x1 + 0.5),", "        surface = kdb.Box(math.floor(x1),"),
    ('g11', 'P14', G, "dk[kk] += list(map(lambda t: t.reversed(), v))", "dk[kk] += v"),
    ('g12', 'P15', G, "rename_conductor=(idx == last_cond_index))", "rename_conductor=(idx == 0))"),
    ('g14', 'P14', G, "            removed: kdb.Region = lout & pyra[ii - 1]\n            if not removed.is_empty():\n                pyra[ii - 1] -= removed", "            removed: kdb.Region = lout & pyra[i]\n            if not removed.is_empty():\n                pyra[i] -= removed"),
    ('g15', 'P14 P15', G, "        for t in region.delaunay(self.delaunay_amax / self.dbu ** 2, self.delaunay_b):", "        for t in region.delaunay(self.delaunay_amax / self.dbu, self.delaunay_b):"),
    ('g16', 'P15', G, "        if is_too_long or short_name != net_name:", "        if is_too_long:"),
    ('g17', 'P15', G, "                   -v1.x * v2.z + v1.z * v2.x,", "                   v1.x * v2.z - v1.z * v2.x,"),
    ('g20', 'P14', G, "                            self.generate_hcond_in(net_name=nn, below=mno, layer=d)\n                        lin -= lout\n", "                            self.generate_hcond_in(net_name=nn, below=mno, layer=d)\n                            lin -= d\n                            break\n"),
    ('g22', 'P14', G, "        p0 = ne * ne.sprod(kdb.DPoint(edge.p1) - kdb.DPoint()) + kdb.DPoint()", "        p0 = kdb.DPoint(kdb.Point(ne * ne.sprod(kdb.DPoint(edge.p1) - kdb.DPoint()) + kdb.DPoint()))"),
    ('g23', 'P14', G, "                for e in linside:\n                    self.generate_vdiel(outside=None, inside=mni, edge=e)\n", ""),
    ('g25', 'P15', G, "len(f\"{prefix}{suffix}\".encode('utf-8'))", "len(f\"{prefix}{suffix}\")"),
    ('g26', 'P14', G, "                if ii >= len(pyra):\n                    pyra.append(kdb.Region())\n                    assert len(pyra) == ii + 1\n                pyra[ii] += added\n", "                if ii >= len(pyra) and ii < 2:\n                    pyra.append(kdb.Region())\n                if ii < len(pyra):\n                    pyra[ii] += added\n"),
    ('g27', 'P15', G, "cond_num = file_num", "cond_num = 0"),
    ('g28', 'P15', G, "            k_inside = self.materials[k.inside] if k.inside else self.k_void\n", "            k_inside = self.materials[k.inside] if k.inside else k_outside\n"),
    ('g29', 'P14 P15', G, "                t = t.reversed()\n                for p in (t.p0, t.p1, t.p2):", "                for p in (t.p0, t.p1, t.p2):"),
    ('g30', 'P14 P15', G, "                tris += [t.reversed() for t in v]\n        return tris", "                tris += v\n        return tris"),
    ('g31', 'P15', G, "'%.12g %.12g %.12g' % (self.x, self.y, self.z)", "'%.6g %.6g %.6g' % (self.x, self.y, self.z)"),
    ('g32', 'P14', G, "            if not lin.is_empty():\n                    self.generate_hdiel(below=None, above=mni, layer=lin)" if False else "                if not lin.is_empty():\n                    self.generate_hdiel(below=None, above=mni, layer=lin)", "                if not lin.is_empty() and not all_cin:\n                    self.generate_hdiel(below=None, above=mni, layer=lin)"),
    ('g33', 'P14 P15', G, "                if p1 == p2" if False else "            if e.reversed() not in edge_set:\n", "            if e.reversed() not in edge_set and e not in edge_set:\n"),
    ('i1', 'P16 P30', B, "                                                    z=metal_z_top,\n                                                    height=contact.thickness)", "                                                    z=metal_z_bottom,\n                                                    height=contact.thickness + metal_layer.thickness)"),
    ('i2', 'P16 P30', B, "math.floor(1 / self.dbu)  # 1 µm", "math.floor(0.1 / self.dbu)  # 1 µm"),
    ('i3', 'P16 P30', B, "enlarged(math.floor(8 / self.dbu))", "enlarged(math.floor(8000))"),
    ('i4', 'P16 P30', B, "                    sidewallee = sidewall.name\n", "                    if sidewall_height > metal_layer.thickness:\n                        break\n                    sidewallee = sidewall.name\n"),
    ('i5', 'P16 P30', B, "sidewall.sidewall_dielectric_layer.height_above_metal or metal_layer.thickness", "metal_layer.thickness or sidewall.sidewall_dielectric_layer.height_above_metal"),
    ('i6', 'P16 P30', B, "                                no_metal_height += conf_diel.thickness_where_no_metal\n", "                                no_metal_height = conf_diel.thickness_where_no_metal\n"),
    ('i7', 'P16 P30', B, "k=fox_layer.field_oxide_layer.dielectric_k)", "k=self.k_void)"),
    ('i9', 'P16 P30', B, "                    diel_region -= sidewall_region\n", ""),
    ('i10', 'P16 P30', B, "                            if sidewall_height < metal_layer.thickness:  # not yet covered by a dielectric below\n", "                            if sidewall_height == 0 or no_metal_height > 0:\n"),
    ('i13', 'P16 P30', B, "                                no_metal_region -= sidewall_region\n", ""),
    ('i14', 'P16 P30', B, "        for d in diffusion_regions:\n            substrate_region -= d.sized(diffusion_margin)\n", "        for d in diffusion_regions[:1]:\n            substrate_region -= d.sized(diffusion_margin)\n"),
    ('i15', 'P16 P30', B, "                                                 z=metal_z_bottom + no_metal_height,\n                                                 height=diel_height - no_metal_height)", "                                                 z=metal_z_bottom + no_metal_height,\n                                                 height=diel_height)"),
    ('i16', 'P16 P30', B, "z=metal_z_bottom + sidewall_height,\n                                                 height=diel_height - sidewall_height)", "z=metal_z_bottom + sidewall_height,\n                                                 height=diel_height)"),
    ('i17', 'P16 P30', B, "            for diffusion_layer in self.tech_info.process_diffusion_layers:\n", "            for diffusion_layer in self.tech_info.process_diffusion_layers[:1]:\n"),
]
