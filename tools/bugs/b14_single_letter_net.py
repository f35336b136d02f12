EDITS = [('klayout_pex/klayout/shapes_pb2_converter.py', '''        if len(polygon.net) >= 1:
''', '''        if len(polygon.net) > 1:
''')]
META = {'property': 'P25', 'needs': 'a net whose name is a single character', 'what_it_breaks': 'polygons of such nets lose their net when converted back'}
# demo
import os
import sys
sys.path.insert(0, os.getcwd())
import klayout.db as kdb
from klayout_pex.klayout.shapes_pb2_converter import ShapesConverter
import klayout_pex_protobuf.kpex.geometry.shapes_pb2 as shapes_pb2
c = ShapesConverter(dbu=0.001)
for n in ('A', 'VDD', '1'):
    p = shapes_pb2.Polygon()
    c.klayout_polygon_to_pb(kdb.PolygonWithProperties(kdb.Polygon(kdb.Box(0, 0, 100, 100)), {'net': n}), p)
    back = c.klayout_polygon(p)
    assert back.property('net') == n, (n, back)
