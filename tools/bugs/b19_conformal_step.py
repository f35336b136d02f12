EDITS = [('klayout_pex/fastercap/fastercap_input_builder.py', '''                                no_metal_height += conf_diel.thickness_where_no_metal
''', '''                                no_metal_height = conf_diel.thickness_where_no_metal
''')]
META = {'property': 'P16', 'needs': 'two conformal dielectrics on one metal, both of which cover the places without metal',
        'what_it_breaks': 'the dielectric above starts too low where there is no metal'}
# demo
from l2n import *
from klayout_pex.fastercap.fastercap_input_builder import FasterCapInputBuilder
import klayout_pex.fastercap.fastercap_input_builder as fib


def edit(pb):
    ls = pb.process_stack.layers
    # chain: met1 is covered by two conformal dielectrics of 0.1 and 0.2
    import klayout_pex_protobuf.kpex.tech.process_stack_pb2 as ps
    for l in list(ls):
        if l.HasField('conformal_dielectric_layer') and l.conformal_dielectric_layer.reference == 'met1' \
                or l.HasField('sidewall_dielectric_layer') and l.sidewall_dielectric_layer.reference == 'met1':
            ls.remove(l)
    for n, ref, t in (('confa', 'met1', 0.1), ('confb', 'confa', 0.2)):
        l = ls.add()
        l.name = n
        l.layer_type = ps.ProcessStackInfo.LAYER_TYPE_CONFORMAL_DIELECTRIC
        d = l.conformal_dielectric_layer
        d.dielectric_k, d.thickness_over_metal, d.thickness_where_no_metal, d.thickness_sidewall, d.reference = 5.0, t, t, t, ref


calls = []


class Spy(fib.FasterCapModelBuilder):
    def add_dielectric(self, material_name, layer, z, height):
        calls.append((material_name, round(z, 6), round(height, 6), layer.dup().merged()))
        return super().add_dielectric(material_name, layer, z, height)


fib.FasterCapModelBuilder = Spy
ti = tech(edit)
ctx = KLayoutExtractionContext.prepare_extraction(lvsdb=l2n([('met1', 'A', (0, 0, 2000, 2000), (1000, 1000))]), top_cell='TOP', tech=ti, blackbox_devices=True)
FasterCapInputBuilder(pex_context=ctx, tech_info=ti).build()
far = kdb.Region(kdb.Box(7000, 7000, 7100, 7100))
z0 = [m for m in ti.process_metal_layers if m.name == 'met1'][0].metal_layer.z
above, h = ti.simple_dielectric_above_metal('met1')
at = [(z, hh) for n, z, hh, r in calls if n == above.name and (far - r).is_empty() and z0 <= z < z0 + 1]
assert at and min(z for z, _ in at) > z0 + 0.299999, (z0, at)
