"""P24: what a run extracts is the LVS result of its own input, whatever happened in earlier runs."""
import gzip
import os
import resource
import shutil
import signal
import time

from hypothesis import strategies as st
from kv import boot, geo
from kv.cli import kpex, scratch, script
from kv.core import Part, require

PID = 'P24'
WORKERS = 8
RULE = ('generated: histories of 2 to 7 steps of kpex --2.5D --gds runs with a stand-in for KLayout (two GDS files of the same name, one or '
        'two cells as tops or subcell, both PDKs, two output directories, any pause between steps, also over the end of daylight saving time, own, relative or default cache directory, cache on or off, relative '
        'paths, schematic) and edits of the GDS files; LVS runs succeed, mismatch, write nothing, are killed in the middle of writing, or '
        'see the GDS edited (or put back from an older copy) while they run; writing the cache fails or kills kpex; oracle: a model of which result each run has to '
        'extract, when LVS has to run again and when it must not; non-trivial: at least two runs with an edit, fault or reuse in between')
ASSUMPTIONS = ['an edit of a GDS file sets its modification time to the present, as writing it does (copies with an older time are put back only while LVS runs and nothing is cached), and time does not run backwards',
               'a truncated LVS database is one that KLayout refuses to read']

PDKS = ['sky130A', 'ihp_sg13g2']
LVS_FILES = {'sky130A': 'sky130.lvs', 'ihp_sg13g2': 'sg13g2.lvs'}


# the steps take place at times of an own clock, in some cases around the end of daylight saving time
DT = [0, 0.001, 1, 600, 2000, 3000]
DST_ENDS = 1635642000
TZ = 'CET-1CEST,M3.5.0,M10.5.0/3'


@st.composite
def cases(draw):
    steps = []
    for _ in range(draw(st.integers(2, 7))):
        if draw(st.integers(0, 3)) == 0:
            steps.append({'dt': draw(st.sampled_from(DT)), 'op': 'edit', 'gds': draw(st.integers(0, 1)), 'shape': draw(st.sampled_from(['one', 'one', 'two', 'sub']))})
            continue
        steps.append({'dt': draw(st.sampled_from(DT)), 'op': 'run',
                      'gds': draw(st.sampled_from([0, 0, 0, 1])),
                      'cell': draw(st.sampled_from([None, None, 'T1', 'T1', 'T2'])),
                      'pdk': draw(st.sampled_from([0, 0, 0, 1])),
                      'out': draw(st.sampled_from([0, 0, 0, 1])),
                      'cache': draw(st.sampled_from([None, None, None, 'yes', 'no'])),
                      'cdir': draw(st.sampled_from([None, None, 'shared', 'other'])),
                      'rel': draw(st.booleans()),
                      'schematic': draw(st.sampled_from([False, False, False, True])),
                      'verbose': draw(st.booleans()),
                      'fate': draw(st.sampled_from(['ok', 'ok', 'ok', 'mismatch', 'none', 'none0', 'trunc', 'edit'])),
                      'fault': draw(st.sampled_from([None] * 5 + ['full', 'killed'])),
                      'back': draw(st.booleans())})
    return {'first': [draw(st.sampled_from(['one', 'one', 'two', 'sub'])) for _ in range(2)], 'steps': steps,
            'summertime': draw(st.booleans())}


@st.composite
def reuses(draw):
    """runs of the same cell, with edits between them"""
    c = draw(cases())
    run = next((s for s in c['steps'] if s['op'] == 'run'), None)
    if run is None or run['gds'] == 1 and draw(st.booleans()):
        return c
    run = dict(run, fate='ok', fault=None, cache=None, cell=draw(st.sampled_from([None, 'T1'])))
    steps = []
    for i in range(draw(st.integers(2, 4))):
        steps.append(dict(run, dt=draw(st.sampled_from(DT)), rel=draw(st.booleans())))
        if draw(st.integers(0, 2)):
            steps.append({'dt': draw(st.sampled_from(DT)), 'op': 'edit', 'gds': run['gds'], 'shape': draw(st.sampled_from(['one', 'sub']))})
    return {'first': ['one', 'one'], 'steps': steps, 'summertime': draw(st.integers(0, 3)) > 0}


# what LVS yields depends on the texts in the layout
FAKE = r'''
D=%s
printf '%%s\n' "$@" > $D/args
in=; out=; sch=; scr=; prev=; verbose=
for a; do
  case "$a" in
    input=*) in="${a#input=}";;
    report=*) out="${a#report=}";;
    schematic=*) sch="${a#schematic=}";;
    run_mode=deep|run_mode=flat|run_mode=tiling) mode=1;;
    verbose=*) verbose="${a#verbose=}";;
  esac
  if [ "$prev" = -r ]; then scr="$a"; fi
  prev="$a"
done
ulimit -S -f unlimited
case "$in" in *.gz) gunzip -c "$in" > $D/in.gds;; *) cp "$in" $D/in.gds;; esac
tok=$(grep -ao 'VER[0-9]*GDS[0-9]*_T[0-9]' $D/in.gds | sort -u | head -1)
printf '%%s\n' "$in" "$out" "$sch" "$scr" "$tok" "$verbose" > $D/call
if [ -f "$sch" ]; then cp "$sch" $D/schematic; fi
case "$scr" in */sky130.lvs) pdk=sky130A;; */sg13g2.lvs) pdk=ihp_sg13g2;; *) pdk=unknown;; esac
fate=$(cat $D/fate)
if [ -z "$mode" ]; then echo 'the rule deck knows no such run_mode'; exit 1; fi
echo "LVS of $tok"
case "$fate" in
  ok) cp $D/db/$pdk.$tok "$out";;
  mismatch) cp $D/db/$pdk.$tok "$out"; exit 1;;
  none) exit 1;;
  none0) exit 0;;
  trunc) cp $D/db/$pdk.$tok.cut "$out"; kill -9 $$;;
  edit) cat $D/next.gds > "$(cat $D/next.path)"; if [ -f $D/next.time ]; then touch -d @$(cat $D/next.time) "$(cat $D/next.path)"; fi; cp $D/db/$pdk.$tok "$out";;
esac
exit 0
'''


def write_gds(path, gi, ver, shape):
    import klayout.db as kdb
    ly = kdb.Layout()
    cells = []
    for i in range(1 if shape == 'one' else 2):
        c = ly.create_cell(f'T{i + 1}')
        c.shapes(ly.layer(70, 20)).insert(kdb.Box(0, 0, 1000, 1000 + ver))
        c.shapes(ly.layer(255, 0)).insert(kdb.Text(f'VER{ver}GDS{gi}_T{i + 1}', kdb.Trans(0, 0)))
        cells.append(c)
    if shape == 'sub':
        cells[0].insert(kdb.CellInstArray(cells[1].cell_index(), kdb.Trans(5000, 0)))
    ly.write(path)


def nets_of(pdk, tok):
    return [f'{tok}_{pdk}_A', f'{tok}_{pdk}_B']


def write_db(d, pdk, tok):
    """Stored uncompressed and padded in front, so that it is larger than anything else a run writes before it reads it."""
    import klayout.db as kdb
    path = os.path.join(d, 'tmp.lvsdb')
    a, b = nets_of(pdk, tok)
    geo.write_lvsdb(path, pdk, [[3, a, [0, 0, 2000, 1000]], [3, b, [0, 1500, 2000, 2500]]], top=tok[-2:])
    with open(path, 'rb') as fh:
        raw = fh.read()
    if raw[:2] == b'\x1f\x8b':
        raw = gzip.decompress(raw)
    head, rest = raw.split(b'\n', 1)
    head += b'\n' + b'# not used by anyone\n' * 8000
    with open(os.path.join(d, 'db', f'{pdk}.{tok}'), 'wb') as fh:
        fh.write(gzip.compress(head + rest, 0))
    cut = os.path.join(d, 'db', f'{pdk}.{tok}.cut')
    n = len(rest) // 2
    while True:
        with open(cut, 'wb') as fh:
            fh.write(gzip.compress(head + rest[:n], 0))
        test = os.path.join(d, 'cut.lvsdb.gz')
        shutil.copy(cut, test)
        try:
            kdb.LayoutVsSchematic().read(test)
        except RuntimeError:
            break
        n -= 1


LIMIT = 100000


def run(case, rec):
    with scratch() as d:
        for s in ('p', 'q', 'fake', 'fake/db'):
            os.mkdir(os.path.join(d, s))
        fd = os.path.join(d, 'fake')
        exe = script(os.path.join(fd, 'klayout'), FAKE % fd)
        gds = [os.path.join(d, 'p', 'in.gds'), os.path.join(d, 'q', 'in.gds')]
        sch = os.path.join(d, 'my schematic.spice')
        with open(sch, 'w') as fh:
            fh.write('.subckt T1 A B\n.ends\n')
        version = [0, 0]
        clock = DST_ENDS - 2000
        gds_time = [clock - 1000, clock - 1000]
        zone = TZ if case.get('summertime') else 'UTC'

        def settle():
            # files that were written just now get the time of the own clock
            for root, _, files in os.walk(d):
                for f in files:
                    f = os.path.join(root, f)
                    if os.stat(f).st_mtime > DST_ENDS + 10 ** 7:
                        os.utime(f, (clock, clock))

        shape = list(case['first'])

        def prepare(gi, ver, shp, path):
            write_gds(path, gi, ver, shp)

        done_dbs = set()

        def dbs(gi, ver):
            for pdk in sorted({PDKS[s['pdk']] for s in case['steps'] if s['op'] == 'run'}):
                for t in ('T1', 'T2'):
                    k = (pdk, f'VER{ver}GDS{gi}_{t}')
                    if k not in done_dbs:
                        done_dbs.add(k)
                        write_db(fd, *k)

        for gi in (0, 1):
            prepare(gi, 0, shape[gi], gds[gi])
            os.utime(gds[gi], (gds_time[gi], gds_time[gi]))
        cache = {}       # key -> version that is cached for sure, or None: perhaps something valid is
        events = []
        used = 0
        for si, s in enumerate(case['steps']):
            gi = s['gds']
            clock += s.get('dt', 1)
            if s['op'] == 'edit':
                version[gi] += 1
                shape[gi] = s['shape']
                prepare(gi, version[gi], shape[gi], gds[gi])
                gds_time[gi] = clock
                settle()
                events.append('edit')
                continue
            pdk = PDKS[s['pdk']]
            ver = version[gi]
            tops = ['T1', 'T2'] if shape[gi] == 'two' else ['T1']
            known = ['T1'] if shape[gi] == 'one' else ['T1', 'T2']
            cell = s['cell'] or (tops[0] if len(tops) == 1 else None)
            valid = cell in known
            dbs(gi, ver)
            out = os.path.join(d, f'out{s["out"]}')
            cdir = out + '/.kpex_cache' if s['cdir'] is None else os.path.join(d, s['cdir'])
            argv = ['--pdk', pdk, '--2.5D']
            argv += ['--gds', os.path.relpath(gds[gi], d) if s['rel'] else gds[gi]]
            argv += ['--out_dir', os.path.relpath(out, d) if s['rel'] else out]
            if s['cell']:
                argv += ['--cell', s['cell']]
            if s['cache'] is not None:
                argv += ['--cache-lvs', s['cache']]
            if s['cdir'] is not None:
                argv += ['--cache-dir', s['cdir'] if s['rel'] else cdir]
            if s['schematic']:
                argv += ['--schematic', os.path.basename(sch) if s['rel'] else sch]
            if s['verbose']:
                argv += ['--lvs-verbose', 'true']
            with open(os.path.join(fd, 'fate'), 'w') as fh:
                fh.write(s['fate'] + '\n')
            if s['fate'] == 'edit':
                prepare(gi, ver + 1, shape[gi], os.path.join(fd, 'next.gds'))
                with open(os.path.join(fd, 'next.path'), 'w') as fh:
                    fh.write(gds[gi])
                # put back from a copy that is older; this is told from a present result by nobody if there is one already
                back = s['back'] and not any(k[2] == gi for k in cache)
                nt = os.path.join(fd, 'next.time')
                if os.path.exists(nt):
                    os.remove(nt)
                if back:
                    with open(nt, 'w') as fh:
                        fh.write(str(int(gds_time[gi]) - 50))
            call = os.path.join(fd, 'call')
            if os.path.exists(call):
                os.remove(call)

            def before():
                time.tzset()
                if s['fault']:
                    if s['fault'] == 'killed':
                        signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                    resource.setrlimit(resource.RLIMIT_FSIZE, (LIMIT, resource.getrlimit(resource.RLIMIT_FSIZE)[1]))
            tok = f'VER{ver}GDS{gi}_{cell}'
            what = f'step {si} ({pdk}, GDS {gi} version {ver}, cell {cell})'
            r = kpex(argv, d, {'KPEX_KLAYOUT_EXE': exe, 'TZ': zone}, out=f'so{si}.txt', before=before)
            settle()
            called = os.path.exists(call)
            if not valid:
                require(r.kind == 'exit' and r.detail != 0 and not called, f'{what}: no such cell, but kpex ended with {r}')
                continue
            on = s['cache'] != 'no'
            key = (cdir, pdk, gi, cell)
            if on and cache.get(key, (-1,)) == (ver,):
                require(not called, f'{what}: LVS ran again, although its result is in the cache and the GDS has not changed')
                expect = 'ok'
                used += 1
                events.append('hit')
            elif on and key in cache and cache[key] is None:
                expect = 'any'
                if not called:
                    expect = 'ok'
            else:
                require(called, f'{what}: LVS did not run, although nothing can be in the cache ({r})')
                expect = 'any'
            if called:
                with open(call) as fh:
                    c_in, c_out, c_sch, c_scr, c_tok, c_v = fh.read().split('\n')[:6]
                require(c_tok == tok, f'{what}: LVS got the layout of {c_tok}')
                require(os.path.basename(c_scr) == LVS_FILES[pdk], f'{what}: LVS script {c_scr}')
                require(os.path.isabs(c_in) and os.path.isabs(c_out) and os.path.isabs(c_sch), f'{what}: paths of LVS {c_in} {c_out} {c_sch}')
                require(c_v == ('true' if s['verbose'] else 'false'), f'{what}: verbose={c_v}')
                with open(os.path.join(fd, 'args')) as fh:
                    args = fh.read().split('\n')
                # what the decks do to the netlist: every net, device and pin is to stay as drawn
                rd = dict(a.split('=', 1) for p, a in zip(args, args[1:]) if p == '-rd')
                for k in ('purge', 'purge_nets', 'combine', 'combine_devices', 'net_only', 'scale'):
                    require(rd.get(k, 'false') == 'false', f'{what}: LVS runs with {k}={rd.get(k)}')
                for k in ('no_simplify', 'top_lvl_pins', 'spice_net_names'):
                    require(rd.get(k) == 'true', f'{what}: LVS runs with {k}={rd.get(k)}')
                require('-b' in args, f'{what}: KLayout is not run in batch mode')
                sp = os.path.join(fd, 'schematic')
                require(os.path.exists(sp), f'{what}: schematic {c_sch} does not exist')
                with open(sp) as fh:
                    text = fh.read()
                os.remove(sp)
                if s['schematic']:
                    require(text == '.subckt T1 A B\n.ends\n', f'{what}: LVS got the schematic {text!r}')
                else:
                    require(text.startswith(f'.subckt {cell} ') and '.ends' in text, f'{what}: dummy schematic {text!r}')
                if s['fate'] in ('ok', 'mismatch', 'edit'):
                    expect = 'any' if s['fault'] else 'ok'
                else:
                    expect = 'fail'
            run_dir = os.path.join(out, f'in__{cell}')
            if expect == 'ok':
                require(r.kind == 'ok', f'{what}: kpex ended with {r}, fate {s["fate"] if called else "not called"}')
            if expect == 'fail':
                require(r.kind != 'ok' and r.detail != 0, f'{what}: LVS failed ({s["fate"]}), but kpex did not')
            if r.kind == 'ok':
                csv = os.path.join(run_dir, f'{cell}_k25d_pex_netlist.csv')
                require(os.path.exists(csv), f'{what}: no CSV')
                with open(csv, encoding='utf-8') as fh:
                    got = sorted({n for l in fh.read().split('\n')[1:] if l for n in l.split(';')[1:3] if n != 'VSUBS'})
                require(got == nets_of(pdk, tok), f'{what}: nets {got} were extracted, expected {nets_of(pdk, tok)}')
                if called:
                    with open(os.path.join(run_dir, f'{cell}_lvs.log'), encoding='utf-8') as fh:
                        log = fh.read()
                    require(log == f'LVS of {tok}\n', f'{what}: LVS log {log!r}')
            # what the cache may hold from now on
            if called and on:
                if s['fate'] in ('ok', 'mismatch'):
                    cache[key] = (ver,) if r.kind == 'ok' and not s['fault'] and gds_time[gi] < clock else None
                elif s['fate'] == 'edit':
                    cache.pop(key, None)
            if called and s['fate'] == 'edit':
                version[gi] += 1
                gds_time[gi] = int(gds_time[gi]) - 50 if back else clock
                events.append('edit back' if back else 'edit')
            if called and s['fate'] not in ('ok', 'mismatch'):
                events.append(s['fate'])
            if s['fault'] and called and on:
                events.append(s['fault'])
                rec.label(f'fault {s["fault"]} hit', r.kind != 'ok')
            events.append('run')
        # a valid old result may stay in the cache of an edited GDS: it must not be used, which the next run shows
        rec.nontrivial(events.count('run') >= 2 and len(set(events)) >= 2)
        for e in set(events):
            rec.label(e)


PARTS = [Part('history', cases, run, quick=16, thorough=400), Part('reuse', reuses, run, quick=10, thorough=200)]
