EDITS = [('klayout_pex/fastercap/fastercap_model_generator.py', '''                            if o > i:
''', '''                            if o == i + 1:
''')]
META = {'property': 'P14', 'needs': 'three materials, a body of the first inside of one of the third',
        'what_it_breaks': 'interfaces of materials that are not next to each other in the order of precedence are missing'}
# demo
import os
import sys
sys.path.insert(0, os.getcwd())
import klayout.db as kdb
from klayout_pex.log import set_log_level, LogLevel
set_log_level(LogLevel.CRITICAL)
from klayout_pex.fastercap.fastercap_model_generator import FasterCapModelBuilder
b = FasterCapModelBuilder(dbu=0.001, k_void=1.0)
for n, k in (('hi', 7.0), ('mid', 5.0), ('lo', 3.9)):
    b.add_material(name=n, k=k)
b.add_conductor(net_name='A', layer=kdb.Region(kdb.Box(0, 0, 100, 100)), z=0.0, height=0.1)
b.add_dielectric(material_name='hi', layer=kdb.Region(kdb.Box(1000, 0, 2000, 1000)), z=0.2, height=0.3)
b.add_dielectric(material_name='mid', layer=kdb.Region(kdb.Box(5000, 0, 6000, 1000)), z=0.2, height=0.3)
b.add_dielectric(material_name='lo', layer=kdb.Region(kdb.Box(-1000, -1000, 7000, 2000)), z=-1.0, height=3.0)
g = b.generate()
inner = sum(len(ts) for k, ts in g.diel_data.items() if {k.outside, k.inside} == {'hi', 'lo'})
area = 0.0
for k, ts in g.diel_data.items():
    if {k.outside, k.inside} == {'hi', 'lo'}:
        for t in ts:
            u = (t.p1.x - t.p0.x, t.p1.y - t.p0.y, t.p1.z - t.p0.z)
            v = (t.p2.x - t.p0.x, t.p2.y - t.p0.y, t.p2.z - t.p0.z)
            n = (u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0])
            area += sum(x * x for x in n) ** 0.5 / 2
assert abs(area - (2 * 1.0 + 4 * 0.3)) < 1e-6, area
