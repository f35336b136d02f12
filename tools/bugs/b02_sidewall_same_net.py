EDITS = [('klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py',
'''                        # NOTE: use only the nearest polygon,
                        #       as the others are laterally shielded by the nearer ones
                        distance, nearby_polygon = find_polygon_with_nearest_edge(polygons_on_same_layer=polygons)
''',
'''                        # NOTE: use only the nearest polygon,
                        #       as the others are laterally shielded by the nearer ones
                        other_polygons = [p for p in polygons if p.property('net') != edge.property('net')]
                        distance, nearby_polygon = find_polygon_with_nearest_edge(polygons_on_same_layer=other_polygons or polygons)
''')]
META = {'property': 'P02', 'needs': 'a second, separate shape of the same net between a shape and its neighbour of another net, all three within the halo',
        'what_it_breaks': 'a conductor of the own net in between no longer blocks the sidewall capacitance to the shape behind it'}
# demo
from l2n import *
def run(middle):
    s = [('met1', 'A', (0, 0, 200, 5000), (100, 100)), ('met1', 'B', (1200, 0, 1400, 5000), (1300, 100))]
    if middle:
        s.append(('met1', 'A', (500, 0, 700, 5000), (600, 100)))
    res = extract(l2n(s))
    return [(k, e.distance, e.length) for k, es in res.cell_extraction_results['TOP'].sidewall_table.items() for e in es]
got = run(True)
# only the two inner edges (0.5 um apart) face each other
assert got and all(abs(d - 0.5) < 1e-6 for k, d, l in got), got
