"""runs a command-line tool of hyperion/bin inside this process, or in its own"""
import io
import logging
import os
import runpy
import subprocess
import sys
from contextlib import redirect_stdout, redirect_stderr

STANDIN = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'standin')


def argv(opts):
    out = []
    for k, v in opts.items():
        if v is None or v is False:
            continue
        out.append('--' + k)
        if v is not True:
            out += [str(i) for i in v] if isinstance(v, (list, tuple)) else [str(v)]
    return out


def path(name):
    return os.path.join(os.environ['VT_REPO'], 'hyperion', 'bin', name + '.py')


def tool(ctx, name, cwd=None, here=False, /, **opts):
    """run the tool with these options; anything but success is a violation"""
    opts = {k.replace('_', '-'): v for k, v in opts.items()}
    args = argv(opts)
    ctx.event('tool ' + name)
    ctx.event('tool runs')
    if ctx.rng.rand() < .03 and not here:
        q = subprocess.run([sys.executable, path(name)] + args, capture_output=True, text=True, timeout=300,
                           cwd=cwd or ctx.tmp, env=dict(os.environ, PYTHONPATH=os.environ['VT_REPO'] + (':' + STANDIN if 'keras' in sys.modules else '')))
        ctx.event('tool processes')
        ctx.check(q.returncode == 0, '%s failed' % name, args, q.stderr[-600:])
        return q.stdout
    old, buf, here = sys.argv, io.StringIO(), os.getcwd()
    log = logging.getLogger()
    state = log.level, list(log.handlers)
    sys.argv = [path(name)] + args
    err = None
    try:
        if cwd:
            os.chdir(cwd)
        with redirect_stdout(buf), redirect_stderr(buf):
            runpy.run_path(path(name), run_name='__main__')
    except SystemExit as e:
        if e.code not in (None, 0):
            err = 'exit %s %s' % (e.code, buf.getvalue()[-300:])
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        err = '%s: %s (%s:%d)' % (type(e).__name__, str(e)[:300], os.path.basename(tb.filename), tb.lineno)
    finally:
        sys.argv = old
        os.chdir(here)
        log.setLevel(state[0])
        log.handlers[:] = state[1]
    ctx.check(err is None, '%s failed' % name, args, err)
    return buf.getvalue()
