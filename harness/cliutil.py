"""Running the command line entry points in forked or fresh processes, files kept in scratch."""
import os
import subprocess
import sys
import tempfile
import traceback

import vlib


def redirect(old, new):
    """Make file accesses of this process under the directory `old` go to `new` (to be used in a child)."""
    import builtins
    import io

    def moved(p):
        try:
            q = os.fsdecode(os.fspath(p))
        except TypeError:
            return p
        n = os.path.normpath(q)
        if n == old or n.startswith(old + os.sep):
            q = new + n[len(old):]
            return os.fsencode(q) if isinstance(p, bytes) else q
        return p

    def wrap(f):
        def g(*a, **k):
            if a:
                a = (moved(a[0]),) + a[1:]
            elif 'path' in k:
                k['path'] = moved(k['path'])
            elif 'file' in k:
                k['file'] = moved(k['file'])
            return f(*a, **k)
        return g

    for n in ('scandir', 'listdir', 'stat', 'lstat', 'open', 'access'):
        setattr(os, n, wrap(getattr(os, n)))
    builtins.open = io.open = wrap(io.open)


class Result(object):
    pass


def fork_cli(scratch, func, argv, stdin, rng=None, cwd=None, mode=None, prepare=None, timeout=120):
    """Run wcxf.cli.<func> in a forked child as the console script would (sys.exit(func())).
    mode: how input and output are passed ('pipe', 'dash', 'file', 'fileout'); chosen at random
    if rng is given.  Input text is `stdin`; the output text is in .out wherever it was written."""
    work = cwd or tempfile.mkdtemp(dir=scratch)
    if mode is None:
        mode = rng.choice(['pipe', 'dash', 'file', 'fileout', 'pipeout']) if rng else 'pipe'
    args = list(argv)
    inp = os.path.join(work, 'cli_stdin')
    with open(inp, 'w', encoding='utf-8', newline='') as f:
        f.write(stdin or '')
    outfile = None
    if mode == 'dash':
        args += ['-']
    elif mode in ('file', 'fileout'):
        p = os.path.join(work, 'input file.dat')
        with open(p, 'w', encoding='utf-8', newline='') as f:
            f.write(stdin or '')
        args += [p]
    if mode in ('fileout', 'pipeout'):
        outfile = os.path.join(work, 'output.dat')
        args += ['--output', outfile]
    so, se = os.path.join(work, 'cli_stdout'), os.path.join(work, 'cli_stderr')
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            os.chdir(work)
            fi = os.open(inp if mode not in ('file', 'fileout') else os.devnull, os.O_RDONLY)
            fo = os.open(so, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
            fe = os.open(se, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
            os.dup2(fi, 0), os.dup2(fo, 1), os.dup2(fe, 2)
            sys.stdin = open(0, 'r', encoding='utf-8', closefd=False)
            sys.stdout = open(1, 'w', encoding='utf-8', closefd=False)
            sys.stderr = open(2, 'w', encoding='utf-8', closefd=False)
            sys.argv = [func] + args
            import logging
            logging.disable(logging.NOTSET)
            import wcxf.cli
            if prepare:
                prepare()
            try:
                r = getattr(wcxf.cli, func)()
                code = 0 if r is None else r if isinstance(r, int) else 1
            except SystemExit as e:
                code = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
            except BaseException:
                traceback.print_exc()
                code = 1
            # what an interpreter does at exit: close files that go out of scope
            import gc
            gc.collect()
            sys.stdout.flush()
            sys.stderr.flush()
        finally:
            os._exit(code & 0xff)
    _, st = os.waitpid(pid, 0)
    r = Result()
    r.status = os.WEXITSTATUS(st) if os.WIFEXITED(st) else 128
    r.stdout = open(so, encoding='utf-8', errors='replace', newline='').read()
    r.err = open(se, encoding='utf-8', errors='replace').read()
    r.mode, r.args, r.work = mode, args, work
    r.outfile = None
    if outfile is not None:
        r.outfile = open(outfile, encoding='utf-8', newline='').read() if os.path.exists(outfile) else ''
        r.out = r.outfile
    else:
        r.out = r.stdout
    return r
