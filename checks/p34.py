"""P34: the layout files of a run show the layers and nets that are extracted."""
import os
from hypothesis import strategies as st
from kv import cli, gen
from kv.core import Part, require, sut
from . import p11

PID = 'P34'
WORKERS = 8
RULE = ('generated: LVS database files as in P11 (any of the LVS layers of both PDKs, several of one GDS layer, capacitor, pin and unknown layers, '
        'named and unnamed nets, subcells, black and white box), run through the command line program; the layout files are read back; oracle: the drawn '
        'shapes; non-trivial: two nets share a layer, or a layer is kept out')
ASSUMPTIONS = ['shapes are compared as point sets', 'KLayout reads back what it wrote']


@st.composite
def cases(draw):
    c = draw(p11.cases())
    c['share'] = 0
    c['bb'] = draw(st.sampled_from([None, 'yes', 'no', 'n']))
    tab = p11.lvs_layers(c['tech'])
    extra = [[len(tab)], [i for i, l in enumerate(tab) if l[1] == 'KIND_DEVICE_CAPACITOR']]
    for k in range(2):
        if draw(st.integers(0, 2)) == 0:
            for _ in range(draw(st.integers(1, 2))):
                c['shapes'].append([draw(st.sampled_from(extra[k])), draw(st.sampled_from(['A', 'B', None])), gen.rect(draw, 20, 100, 1, 8)])
    c['rerun'] = draw(st.sampled_from([0, 0, 0, 1, 2, 2]))
    c['earlier'] = [[len(tab), None, gen.rect(draw, 20, 100, 1, 8)]] + draw(st.lists(st.sampled_from(c['shapes']), max_size=3)) if c['shapes'] else []
    return c


def read(path):
    import klayout.db as kdb
    require(os.path.isfile(path), lambda: f'there is no file {os.path.basename(path)}: {os.listdir(os.path.dirname(path))}')
    ly = kdb.Layout()
    with sut(f'reading {os.path.basename(path)}'):
        ly.read(path)
    return ly


def by_layer(ly, top):
    """{(layer, datatype): merged region}, all layers of that pair together"""
    import klayout.db as kdb
    out = {}
    for i in ly.layer_indexes():
        li = ly.get_info(i)
        r = kdb.Region(ly.cell(top).begin_shapes_rec(i)).merged()      # texts are left out
        if not r.is_empty():
            out[li.layer, li.datatype] = (out.get((li.layer, li.datatype), kdb.Region()) + r).merged()
    return out


def compare(got, want, what):
    got = {k: v for k, v in got.items() if not v.is_empty()}
    require(set(got) == set(want), lambda: f'{what}: shapes on layers {sorted(got)}, expected {sorted(want)}')
    for k in want:
        require(p11.same(got[k], want[k]), lambda: f'{what}: the shapes on layer {k} are {got[k]}, expected {want[k]}')


def run(case, rec):
    import klayout.db as kdb
    with sut('LVS database'):
        l2n, accepted, tab, order = p11.build(case)
    black = case['bb'] == 'yes'
    visible, unknown = {}, []
    for l, key, r in accepted:
        if l >= len(tab):
            unknown.append(r)
        elif not (black and tab[l][1] in ('KIND_DEVICE_CAPACITOR', 'KIND_DEVICE_RESISTOR')):
            visible.setdefault(tab[l][2], []).append((key, r))
    with cli.scratch() as d:
        db = os.path.join(d, 'x.lvsdb')
        from kv import geo
        l2n = p11.build(case, cls=kdb.LayoutVsSchematic)[0]
        geo.save_lvsdb(l2n, db)
        argv = ['--pdk', case['tech'], '--lvsdb', db, '--2.5D', '--out_dir', os.path.join(d, 'out')]
        argv += [] if case['bb'] is None else ['--blackbox', case['bb']]
        if case['rerun'] == 2 and case['earlier']:      # an LVS database of this name has been extracted earlier
            geo.save_lvsdb(p11.build(dict(case, shapes=case['earlier']), cls=kdb.LayoutVsSchematic)[0], db)
            cli.kpex(argv, d)
            geo.save_lvsdb(l2n, db)
        for _ in range(2 if case['rerun'] == 1 else 1):
            r = cli.kpex(argv, d)
        if not visible:
            require(r.kind == 'exit' and r.detail == 1, lambda: f'nothing to extract, kpex ended with {r}')
            return
        require(r.kind == 'ok', lambda: f'kpex ended with {r}: {r.stdout[-300:]}')
        rd = os.path.join(d, 'out', 'x__TOP')
        files = [os.path.join(rd, 'TOP_' + f) for f in ('l2n_extracted.oas', 'l2n_internal.oas', 'nonempty_LVS_layers.gds.gz', 'unnamed_LVS_layers.gds.gz')]

        # the layers as they are extracted, by net
        ly = read(files[0])
        require([c.name for c in ly.top_cells()] == ['TOP'], lambda: f'top cells {[c.name for c in ly.top_cells()]}')
        require(ly.dbu == case['dbu'], f'database unit {ly.dbu}')
        want = {k: p11.region_of([r for _, r in v]) for k, v in visible.items()}
        got = by_layer(ly, 'TOP')
        for k in set(got) - set(want):          # what kpex does not know may be shown too
            require(unknown and p11.same(got[k], p11.region_of(unknown)), lambda: f'{files[0]}: shapes on layer {k}: {got[k]}')
            del got[k]
        compare(got, want, 'l2n_extracted.oas')
        for k, items in visible.items():
            nets = {}
            for i in ly.layer_indexes():
                li = ly.get_info(i)
                if (li.layer, li.datatype) == k:
                    reg = kdb.Region(ly.cell('TOP').begin_shapes_rec(i))
                    for n, v in p11.props(reg).items():
                        nets[n] = (nets.get(n, kdb.Region()) + v).merged()
            names = {n for n, _ in items if not n.startswith('?')}
            require(names <= set(nets), lambda: f'l2n_extracted.oas, layer {k}: nets {list(nets)}, drawn {sorted(names)}')
            for n in names:
                require(p11.same(nets[n], p11.region_of([r for m, r in items if m == n])), lambda: f'l2n_extracted.oas, layer {k}: net {n} is {nets[n]}')
            require(all(isinstance(n, str) and n.startswith('$') for n in set(nets) - names), lambda: f'l2n_extracted.oas, layer {k}: nets {list(nets)}')
        # the layout of the database as it is
        ly = read(files[1])
        ref = kdb.LayoutVsSchematic()
        ref.read(db)
        require(ly.dbu == case['dbu'], f'database unit {ly.dbu}')
        compare(by_layer(ly, 'TOP'), by_layer(ref.internal_layout(), 'TOP'), 'l2n_internal.oas')
        # the layers with shapes, and those kpex has no information on
        ly = read(files[2])
        require(ly.dbu == case['dbu'] and [c.name for c in ly.top_cells()] == ['TOP'], f'nonempty_LVS_layers: database unit {ly.dbu}')
        compare(by_layer(ly, 'TOP'), want, 'nonempty_LVS_layers.gds.gz')
        if unknown:
            ly = read(files[3])
            require(ly.dbu == case['dbu'], f'unnamed_LVS_layers: database unit {ly.dbu}')
            got = by_layer(ly, 'TOP')
            require(len(got) == 1, lambda: f'unnamed_LVS_layers.gds.gz has layers {sorted(got)}')
            k = next(iter(got))
            require(k not in want, f'the unknown layer has the layer numbers {k} of a known one')
            compare(got, {k: p11.region_of(unknown)}, 'unnamed_LVS_layers.gds.gz')
        else:
            require(not os.path.exists(files[3]), 'there is an unnamed_LVS_layers file without unknown layers')
    rec.nontrivial(any(len({k for k, _ in v}) > 1 for v in visible.values()) or len(accepted) > sum(map(len, visible.values())))
    rec.label('unknown layer', bool(unknown))
    rec.label('kept out', len(accepted) > sum(map(len, visible.values())) + len(unknown))
    rec.label('several layers of a pair', any(sum(1 for t in set(s[0] for s in accepted) if t < len(tab) and tab[t][2] == k) > 1 for k in visible))
    rec.label('other contents earlier', case['rerun'] == 2 and bool(case['earlier']))
    rec.label('hierarchy', case['hier'] > 0)


PARTS = [Part('files', cases, run, quick=30, thorough=1000)]
