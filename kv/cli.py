"""Running the command line program in a forked child, with stand-ins for the external programs."""
import json
import os
import sys
import traceback
import contextlib
import tempfile

BASE_ENV = {'PATH': '/usr/bin:/bin'}


@contextlib.contextmanager
def scratch():
    """A scratch directory that is removed afterwards."""
    with tempfile.TemporaryDirectory(prefix='kvc-', dir=os.environ.get('KV_WORKDIR')) as d:
        yield os.path.realpath(d)


def script(path, text):
    with open(path, 'w') as fh:
        fh.write('#!/bin/sh\n' + text)
    os.chmod(path, 0o755)
    return path


class Outcome:
    def __init__(self, kind, detail, stdout, data=None):
        self.kind = kind          # 'ok' | 'exit' | 'raise' | 'crash'
        self.detail = detail      # None | exit code | 'Type: message (where)' | signal
        self.stdout = stdout
        self.data = data

    def __repr__(self):
        return f'{self.kind} {self.detail}'


def forked(fn, cwd, env=None, out='stdout.txt'):
    """Runs fn() (which may return JSON-able data) in a child; nothing it changes in the process survives."""
    so = os.path.join(cwd, out)
    res = os.path.join(cwd, out + '.res')
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            fd = os.open(so, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
            os.dup2(fd, 1)
            os.dup2(fd, 2)
            sys.stdout = os.fdopen(1, 'w', closefd=False)
            sys.stderr = os.fdopen(2, 'w', closefd=False)
            os.chdir(cwd)
            if env is not None:
                keep = {k: v for k, v in os.environ.items() if k in ('HOME', 'TMPDIR', 'LANG', 'LC_ALL', 'KV_WORKDIR')}
                os.environ.clear()
                os.environ.update(BASE_ENV)
                os.environ.update(keep)
                os.environ.update(env)
            try:
                data = fn()
                r = ['ok', None, data]
            except SystemExit as e:
                r = ['exit', e.code if isinstance(e.code, (int, type(None))) else str(e.code), None]
            except BaseException as e:
                tb = traceback.extract_tb(e.__traceback__)
                where = [f'{os.path.basename(f.filename)}:{f.name}' for f in tb][-3:]
                r = ['raise', f'{type(e).__name__}: {str(e)[:300]} (at {" > ".join(where)})', None]
            with open(res, 'w') as fh:
                json.dump(r, fh)
            sys.stdout.flush()
            sys.stderr.flush()
        except BaseException:
            code = 77
        os._exit(code)
    _, status = os.waitpid(pid, 0)
    try:
        with open(so, errors='replace') as fh:
            text = fh.read()
    except OSError:
        text = ''
    if os.WIFSIGNALED(status) or os.WEXITSTATUS(status) != 0:
        return Outcome('crash', status, text)
    with open(res) as fh:
        kind, detail, data = json.load(fh)
    return Outcome(kind, detail, text, data)


def kpex(argv, cwd, env=None, out='stdout.txt', before=None, after=None):
    """kpex <argv>"""
    e = {'KPEX_KLAYOUT_EXE': '/bin/true'}
    e.update(env or {})

    def fn():
        from klayout_pex.kpex_cli import KpexCLI
        from klayout_pex.log import set_log_level, LogLevel
        set_log_level(LogLevel.SUBPROCESS)
        sys.argv = ['kpex'] + [str(a) for a in argv]
        if before:
            before()
        cli = KpexCLI()
        cli.main(sys.argv)
        if after:
            return after(cli)
    return forked(fn, cwd, e, out)


def as_lvsdb(l2n, path):
    l2n.write(path)
