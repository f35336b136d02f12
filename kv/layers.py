"""Layer tables of the two shipped PDKs, as their LVS decks (pdk/*/libs.tech/kpex) name them."""
import json
import os
from collections import defaultdict
from . import boot

# key: (lvs layer name, gds pair drawn in the generated layouts)
SKY = {
    'metals': [  # canonical, lvs name, gds, label lvs name, label gds, pin lvs name, pin gds
        ('poly', 'poly_con', (66, 20), 'poly_label', (66, 5), 'poly_pin_con', (66, 16)),
        ('li1', 'li_con', (67, 20), 'li_label', (67, 5), 'li_pin_con', (67, 16)),
        ('met1', 'met1_con', (68, 20), 'met1_label', (68, 5), 'met1_pin_con', (68, 16)),
        ('met2', 'met2_con', (69, 20), 'met2_label', (69, 5), 'met2_pin_con', (69, 16)),
        ('met3', 'met3_ncap', (70, 20), 'met3_label', (70, 5), 'met3_pin_con', (70, 16)),
        ('met4', 'met4_ncap', (71, 20), 'met4_label', (71, 5), 'met4_pin_con', (71, 16)),
        ('met5', 'met5_con', (72, 20), 'met5_label', (72, 5), 'met5_pin_con', (72, 16)),
    ],
    'vias': [  # lvs name, gds, bottom metal index, top metal index
        ('licon_poly_con', (66, 44), 0, 1),
        ('mcon_con', (67, 44), 1, 2),
        ('via1_con', (68, 44), 2, 3),
        ('via2_con', (69, 44), 3, 4),
        ('via3_ncap', (70, 44), 4, 5),
        ('via4_ncap', (71, 44), 5, 6),
    ],
}
IHP = {
    'metals': [
        ('GatPoly', 'poly_con', (5, 0), 'poly_text', (5, 25), 'poly_pin_con', (5, 2)),
        ('Metal1', 'metal1_con', (8, 0), 'metal1_text', (8, 25), 'metal1_pin_con', (8, 2)),
        ('Metal2', 'metal2_con', (10, 0), 'metal2_text', (10, 25), 'metal2_pin_con', (10, 2)),
        ('Metal3', 'metal3_con', (30, 0), 'metal3_text', (30, 25), 'metal3_pin_con', (30, 2)),
        ('Metal4', 'metal4_con', (50, 0), 'metal4_text', (50, 25), 'metal4_pin_con', (50, 2)),
        ('Metal5', 'metal5_n_cap', (67, 0), 'metal5_text', (67, 25), 'metal5_pin_con', (67, 2)),
        ('TopMetal1', 'topmetal1_con', (126, 0), 'topmetal1_text', (126, 25), 'topmetal1_pin_con', (126, 2)),
        ('TopMetal2', 'topmetal2_con', (134, 0), 'topmetal2_text', (134, 25), 'topmetal2_pin_con', (134, 2)),
    ],
    'vias': [
        ('cont_poly_con', (6, 0), 0, 1),
        ('via1_drw', (19, 0), 1, 2),
        ('via2_drw', (29, 0), 2, 3),
        ('via3_drw', (49, 0), 3, 4),
        ('via4_drw', (66, 0), 4, 5),
        ('topvia1_n_cap', (125, 0), 5, 6),
        ('topvia2_drw', (133, 0), 6, 7),
    ],
}
TABLES = {'sky130A': SKY, 'ihp_sg13g2': IHP}


def metal_names(tech):
    return [m[0] for m in TABLES[tech]['metals']]


def tech_json(name):
    with open(os.path.join(boot.PB_DIR, f'{name}_tech.pb.json')) as fh:
        return json.load(fh)


def tech_info(name='sky130A', halo=None, edit=None, dielectric_filter=None):
    """A fresh TechInfo; `edit(tech_pb)` may change the technology message first."""
    from klayout_pex.tech_info import TechInfo
    path = os.path.join(boot.PB_DIR, f'{name}_tech.pb.json')
    pb = TechInfo.parse_tech_def(path)
    if halo is not None:
        pb.process_parasitics.side_halo = halo
    if edit is not None:
        edit(pb)
    return TechInfo(tech=pb, dielectric_filter=dielectric_filter)


class Coefs:
    """Coefficient tables read straight from the technology message."""

    def __init__(self, pb):
        c = pb.process_parasitics.capacitance
        self.sub_area = {s.layer_name: s.area_capacitance for s in c.substrates}
        self.sub_perim = {s.layer_name: s.perimeter_capacitance for s in c.substrates}
        self.overlap = {(o.top_layer_name, o.bottom_layer_name): o.capacitance for o in c.overlaps}
        self.sidewall = defaultdict(lambda: (0.0, 1.0), {s.layer_name: (s.capacitance, s.offset) for s in c.sidewalls})
        self.side = {(s.in_layer_name, s.out_layer_name): s.capacitance for s in c.sideoverlaps}
        self.halo = pb.process_parasitics.side_halo

    def area(self, top, bot):
        if bot == 'VSUBS':
            return self.sub_area.get(top, 0.0)
        return self.overlap.get((top, bot), 0.0)

    def fringe(self, inside, outside):
        if outside == 'VSUBS':
            return self.sub_perim.get(inside, 0.0)
        return self.side.get((inside, outside), 0.0)
