"""P33: messages reach the console and the log files of a run unchanged, and by their level."""
import os
import re
from hypothesis import strategies as st
from kv import geo
from kv.cli import forked, kpex, scratch, script
from kv.core import Part, Violation, require, sut

PID = 'P33'
WORKERS = 8
RULE = ('generated: sequences of messages of all levels with brackets, backslashes, percent signs and other characters, log levels, log files that '
        'come and go; histories of runs of the command line program with stand-ins for KLayout that print generated text, with paths and '
        'cell names of such characters, failing and succeeding, into one output directory; oracle: the messages themselves, filtered by level; '
        'non-trivial: messages above and below the level, or two runs into one output directory')
ASSUMPTIONS = ['printed text is without control characters; it is open what is shown for bytes that are no UTF-8',
               'the console may wrap and indent, so white space is not compared there']

LEVELS = {'ALL': 1, 'DEBUG': 10, 'SUBPROCESS': 12, 'VERBOSE': 15, 'INFO': 20, 'WARNING': 30, 'ERROR': 40, 'CRITICAL': 50}
FNS = {'debug': 10, 'subproc': 12, 'info': 20, 'warning': 30, 'error': 40}
ALPHA = 'abzAZ019 _-.,;/\\[]()<>{}#@$%&*+=!?\'"|~^`µΩä→日'
WORDS = ['d[0]', 'x[/b]', '[red]', '[/]', '\\[bold]', 'out[a]', '[link=x]y[/link]', '%s', '%d %%', 'a\\', '{x}', '<b>', '#GROUP2', '[@click=x]', 'net\\[3\\]', '/a/[draft]/b']


def text():
    return st.lists(st.one_of(st.sampled_from(WORDS), st.text(ALPHA, max_size=12)), min_size=0, max_size=4).map(' '.join)


@st.composite
def messages(draw):
    ops = []
    for i in range(draw(st.integers(1, 14))):
        ops.append(draw(st.one_of(
            st.tuples(st.just('log'), st.sampled_from(sorted(FNS)), text()),
            st.tuples(st.just('log'), st.sampled_from(sorted(FNS)), text()),
            st.tuples(st.just('log'), st.sampled_from(sorted(FNS)), text()),
            st.tuples(st.just('level'), st.sampled_from(sorted(LEVELS))),
            st.tuples(st.just('rule')),
            st.tuples(st.just('open'), st.integers(0, 2)),
            st.tuples(st.just('close'), st.integers(0, 2)))))
    return {'level': draw(st.sampled_from(sorted(LEVELS))), 'ops': [list(o) for o in ops]}


def squeeze(s):
    return re.sub(r'\s+', '', s)


def in_order(stdout, wanted, unwanted, what):
    flat = squeeze(stdout)
    pos = 0
    for w in wanted:
        p = flat.find(squeeze(w), pos)
        require(p >= 0, lambda: f'{what}: {w!r} is not (or not in order) on the console: {stdout[-600:]!r}')
        pos = p + len(squeeze(w))
    for u in unwanted:
        require(squeeze(u) not in flat, lambda: f'{what}: {u!r} is on the console in spite of its level')


def run_messages(case, rec):
    with scratch() as d:
        ops = case['ops']
        files = {}

        def fn():
            import logging
            from klayout_pex import log
            log.set_log_level(log.LogLevel[case['level']])
            handlers = {}
            for k, o in enumerate(ops):
                if o[0] == 'log':
                    getattr(log, o[1])(f'<{k}>{o[2]}<{k}>')
                elif o[0] == 'rule':
                    log.rule(f'Step {k} of it')
                elif o[0] == 'level':
                    log.set_log_level(log.LogLevel[o[1]])
                elif o[0] == 'open' and o[1] not in handlers:
                    h = handlers[o[1]] = logging.FileHandler(os.path.join(d, f'{o[1]}.log'))
                    h.setLevel(log.LogLevel.SUBPROCESS)
                    if o[1] == 2:
                        h.setFormatter(logging.Formatter('%(levelname)s|%(message)s'))
                    log.register_additional_handler(h)
                elif o[0] == 'close' and o[1] in handlers:
                    log.deregister_additional_handler(handlers.pop(o[1]))
        r = forked(fn, d, {'COLUMNS': '9000'})
        require(r.kind == 'ok', lambda: f'logging ended with {r}')
        level = LEVELS[case['level']]
        shown, hidden, opened = [], [], set()
        for k, o in enumerate(ops):
            if o[0] == 'log':
                m = f'<{k}>{o[2]}<{k}>'
                (shown if FNS[o[1]] >= level else hidden).append(m)
                for i in opened:
                    if FNS[o[1]] >= max(level, 12):
                        name = {v: n for n, v in LEVELS.items()}[FNS[o[1]]]
                        files[i].append(f'{name}|{m}' if i == 2 else m)
            elif o[0] == 'rule':
                (shown if level <= 20 else hidden).append(f'Step {k} of it')
            elif o[0] == 'level':
                level = LEVELS[o[1]]
            elif o[0] == 'open':
                opened.add(o[1])
                files.setdefault(o[1], [])
            else:
                opened.discard(o[1])
        in_order(r.stdout, shown, hidden, 'log')
        for i, want in files.items():
            with open(os.path.join(d, f'{i}.log'), encoding='utf-8') as fh:
                got = fh.read().split('\n')[:-1]
            require(got == want, lambda: f'log file {i} holds {got}, expected {want}')
        rec.nontrivial(bool(shown and hidden))
        rec.label('files', any(files.values()))
        rec.label('markup', any('[' in m for m in shown))


# -- runs ------------------------------------------------------------------------------------

FAKE = r'''
for a; do case "$a" in report=*) out="${a#report=}";; esac; done
cat %s/say
cp %s/db "$out" 2>/dev/null
exit %d
'''


@st.composite
def histories(draw):
    runs = []
    burst = draw(st.integers(0, 5)) == 0        # several runs within a second
    for _ in range(draw(st.sampled_from([4, 5, 6] if burst else [1, 1, 2, 3]))):
        runs.append({'input': draw(st.sampled_from(['gds', 'gds', 'lvsdb'])),
                     'level': draw(st.sampled_from([None, None, 'all', 'subprocess', 'Info', 'warning', 'ERROR', 'debug'])),
                     'fate': 'badargs' if burst else draw(st.sampled_from(['ok', 'ok', 'ok', 'mismatch', 'nodb', 'badargs', 'nofile'])),
                     'say': draw(st.lists(text(), max_size=5)), 'bad': draw(st.sampled_from([None, None, None, '\\xb5', '\\xff\\xfe', '\\xe2\\x82'])), 'nl': draw(st.booleans())})
    return {'runs': runs, 'dir': draw(st.sampled_from(['w', 'w', 'my [draft]', 'a[', 'd[0]', 'x [/b] y'])),
            'cell': draw(st.sampled_from(['TOP', 'TOP', 'x[0]', 'C[a]', 'ab$1'])),
            'net': draw(st.sampled_from(['A', 'd[0]', 'n[a]', 'q<1>']))}


def logs_in(p):
    return {f for f in os.listdir(p) if f.startswith('kpex') and f.endswith('.log')} if os.path.isdir(p) else set()


def run_history(case, rec):
    import klayout.db as kdb
    with scratch() as d0:
        d = os.path.join(d0, case['dir'])
        os.makedirs(d, exist_ok=True)
        top = case['cell']
        gds = os.path.join(d, 'in.gds')
        ly = kdb.Layout()
        ly.create_cell(top).shapes(ly.layer(68, 20)).insert(kdb.Box(0, 0, 1000, 1000))
        ly.write(gds)
        geo.write_lvsdb(os.path.join(d0, 'db'), 'sky130A', [[3, case['net'], [0, 0, 2000, 1000]], [3, 'B', [0, 1500, 2000, 2500]]], top=top)
        db = os.path.join(d, 'in.lvsdb')
        out = os.path.join(d, 'out')
        rd = os.path.join(out, f'in__{top}')
        os.link(os.path.join(d0, 'db'), db)
        previous, nowhere = [], []
        for n, s in enumerate(case['runs']):
            # bytes which are no UTF-8, say of a file name: what is shown for them is open
            bad = (s.get('bad') or '').encode().decode('unicode_escape').encode('latin-1').decode('utf-8', 'surrogateescape')
            say = ''.join(f'{l}{bad} <{n}.{k}>\n' for k, l in enumerate(s['say']))
            if not s['nl']:
                say = say[:-1]
            with open(os.path.join(d0, 'say'), 'w', encoding='utf-8', errors='surrogateescape') as fh:
                fh.write(say)
            code = {'mismatch': 1, 'nodb': 1}.get(s['fate'], 0)
            exe = script(os.path.join(d0, 'klayout'), FAKE % (d0, d0 if s['fate'] != 'nodb' else d0 + '/nosuch', code))
            argv = ['--pdk', 'sky130A', '--' + s['input'], gds if s['input'] == 'gds' else db, '--out_dir', out, '--cache-lvs', 'no']
            argv += [] if s['level'] is None else ['--log_level', s['level']]
            if s['fate'] == 'nofile':
                argv[3] += '.nosuch'
            argv += ['--diel', 'all,none', '--2.5D'] if s['fate'] == 'badargs' else ['--2.5D']
            r = kpex(argv, d, {'KPEX_KLAYOUT_EXE': exe, 'COLUMNS': '9000'}, out='../stdout.txt')
            what = f'run {n} of {case["runs"]}'
            fails = s['fate'] in ('badargs', 'nofile') or s['fate'] == 'nodb' and s['input'] == 'gds'
            require((r.kind == 'ok') == (not fails), lambda: f'{what}: ended with {r}; {r.stdout[-300:]}')
            require('Markup' not in str(r.detail), lambda: f'{what}: ended with {r}')
            level = LEVELS[(s['level'] or 'subprocess').upper()]
            # runs without any input to name a directory after have their logs in the output directory
            kept = []
            for f in logs_in(out):
                with open(os.path.join(out, f), encoding='utf-8') as fh:
                    kept.append(fh.read())
            if s['fate'] == 'nofile':
                require({'kpex.log', 'kpex_plain.log'} <= logs_in(out), f'{what}: no logs in {os.listdir(out)}')
                for l in nowhere:
                    require(l in kept, f'{what}: the log of an earlier run is lost or changed, there are {kept}')
                require(len(kept) == len(nowhere) + 2, f'{what}: {len(kept)} logs in {os.listdir(out)}')
                for f in ('kpex.log', 'kpex_plain.log'):
                    with open(os.path.join(out, f), encoding='utf-8') as fh:
                        now = fh.read()
                    require(now.count('.nosuch') == 1, f'{what}: {f} holds {now!r}')
                nowhere = kept
                rec.label('nofile')
                continue
            require(sorted(kept) == sorted(nowhere), f'{what}: log files are left in {os.listdir(out)}, or changed')
            require({f for f in os.listdir(out) if 'log' in f} == logs_in(out), f'{what}: files left {os.listdir(out)}')
            try:
                with open(os.path.join(rd, 'kpex_plain.log'), encoding='utf-8') as fh:
                    plain = fh.read()
                with open(os.path.join(rd, 'kpex.log'), encoding='utf-8') as fh:
                    formatted = fh.read()
            except OSError as e:
                raise Violation(f'{what}: {e}')
            require(re.sub(r'(?m)^\[[^\]]*\] \[[A-Z]+\]    ', '', formatted) == plain, lambda: (
                f'{what}: kpex.log and kpex_plain.log differ: {formatted[-300:]!r}, {plain[-300:]!r}'))
            names = set(re.findall(r'(?m)^\[\d\d\d\d-[^\]]*\] \[([A-Z]+)\]    ', formatted))
            require(names <= set(LEVELS), f'{what}: levels {names} in kpex.log')
            # all of the log is on the console too, in its order
            in_order(r.stdout, [l for l in plain.split('\n') if l.strip()], [], what)
            listed = plain
            if s['input'] == 'gds' and s['fate'] != 'badargs':
                with open(os.path.join(rd, f'{top}_lvs.log'), encoding='utf-8') as fh:
                    got = fh.read()
                if bad:
                    say, got, listed = (re.sub(r"[^\n -~]|\\[xu][0-9a-fd]+|[?]", "", x) for x in (say, got, listed))
                require(got == say, f'{what}: LVS printed {say!r}, its log file holds {got!r}')
                lines = say.split('\n') if say else []
                if level <= 12:
                    pos = 0
                    for l in [l for l in lines if l]:
                        p = ('\n' + listed).find('\n' + l + '\n', pos)
                        require(p >= 0, f'{what}: LVS printed {l!r}, which is not (in order) in kpex_plain.log')
                        pos = p + len(l)
                else:
                    for l in [l for l in lines if l]:
                        require(l not in listed.split('\n'), f'{what}: {l!r} was logged in spite of level {s["level"]}')
            if s['fate'] == 'badargs':
                require(any(l.startswith('Failed to parse --diel') for l in plain.split('\n')), f'{what}: the error is not in {plain!r}')
            # earlier logs are kept
            kept = []
            for f in sorted(logs_in(rd) - {'kpex.log', 'kpex_plain.log'}):
                with open(os.path.join(rd, f), encoding='utf-8') as fh:
                    kept.append(fh.read())
            require(sorted(kept) == sorted(previous), lambda: f'{what}: {len(kept)} logs of earlier runs are kept, there were {len(previous)}, or they changed')
            previous += [plain, formatted]
            rec.label(s['fate'] + ' ' + s['input'])
            rec.label(f'level {s["level"]}')
        rec.label('not UTF-8', any(s['say'] and s.get('bad') for s in case['runs']))
        rec.nontrivial(len(case['runs']) > 1 or '[' in case['dir'] or any(s['say'] for s in case['runs']))
        rec.label('history', len(case['runs']) > 1)


PARTS = [Part('messages', messages, run_messages, quick=60, thorough=3000), Part('runs', histories, run_history, quick=16, thorough=400)]
