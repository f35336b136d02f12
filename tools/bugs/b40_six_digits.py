EDITS = [('klayout_pex/fastercap/fastercap_model_generator.py', '''        return '%.12g %.12g %.12g' % (self.x, self.y, self.z)
''', '''        return '%.6g %.6g %.6g' % (self.x, self.y, self.z)
''')]
META = {'property': 'P15', 'needs': 'shapes farther than a millimetre from the origin', 'what_it_breaks': 'corners of the model are rounded to 10 nm and more in the FasterCap files'}
# demo
from l2n import *
import glob
from klayout_pex.fastercap.fastercap_model_generator import FasterCapModelBuilder
b = FasterCapModelBuilder(dbu=0.001, k_void=1.0, delaunay_amax=0.0, delaunay_b=1.0)
b.add_conductor(net_name='A', layer=kdb.Region(kdb.Box(1234567, 2345678, 1234789, 2345999)), z=0.1, height=0.2)
with tempfile.TemporaryDirectory() as d:
    b.generate().write_fastcap(d, 'm')
    xs = set()
    for g in glob.glob(os.path.join(d, '*.geo')):
        for l in open(g):
            if l.startswith('T '):
                xs |= {float(v) for v in l.split()[2:11]}
for v in (1234.567, 1234.789, 2345.678, 2345.999):
    assert any(abs(v - x) < 1e-6 for x in xs), (v, sorted(xs))
