"""Shared machinery of the checks: TLC runs, verdicts, evidence, comparison."""
import json
import math
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
MAX_REPORT = 20


class MachineryError(Exception):
    """The verification machinery itself failed (not a verdict on the code)."""


class Ctx(object):
    """One run of one check."""

    def __init__(self, prop, tier, seed, scratch):
        self.prop, self.tier, self.seed, self.scratch = prop, tier, seed, scratch
        self.rng = random.Random(seed * 7919 + sum(map(ord, prop)))
        self.violations = []
        self.nviol = 0
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.cases = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.tlc_runs = []

    @property
    def thorough(self):
        return self.tier == 'thorough'

    # ---- verdicts -------------------------------------------------------
    def fail(self, clause, **detail):
        """Record a violation (`clause` names what part of the property broke)."""
        self.nviol += 1
        if len(self.violations) < MAX_REPORT:
            self.violations.append({'clause': clause, 'detail': jsonable(detail)})

    def check(self, ok, clause, **detail):
        self.cases += 1
        if not ok:
            self.fail(clause, **detail)
        return ok

    def sample(self, s, limit=4):
        if len(self.samples) < limit:
            self.samples.append(jsonable(s))

    # ---- TLC ------------------------------------------------------------
    def tlc(self, module, cfg=None, env=None, simulate=None, depth=None,
            workers=1, expect_ok=True, timeout=800, heap='4g', count=True):
        """Run TLC on spec/<module>.tla. Returns dict(out, rc, states, transitions)."""
        cfg = cfg or module + '.cfg'
        meta = tempfile.mkdtemp(prefix='meta', dir=self.scratch)
        cmd = ['java', '-XX:+UseParallelGC', '-Djava.io.tmpdir=' + self.scratch, '-Xmx' + heap, '-Xss64m',
               '-cp', JARS, 'tlc2.TLC', '-metadir', meta, '-noGenerateSpecTE',
               '-workers', str(workers), '-config', cfg]
        if simulate:
            cmd += ['-simulate', 'num=%d' % simulate, '-depth', str(depth or 20),
                    '-seed', str(self.seed)]
        cmd += [module + '.tla']
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        t0 = time.time()
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout,
                               universal_newlines=True)
        except subprocess.TimeoutExpired:
            raise MachineryError('TLC timed out on %s' % module)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        out = p.stdout
        m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states', out)
        if m:
            gen, dist = [int(x.replace(',', '')) for x in m[-1]]
        else:
            m = re.findall(r'The number of states generated: ([\d,]+)', out)
            gen = dist = int(m[-1].replace(',', '')) if m else 0
        r = {'rc': p.returncode, 'out': out, 'states': dist, 'transitions': gen,
             'module': module, 'cfg': cfg, 'wall': round(time.time() - t0, 2)}
        if expect_ok and p.returncode != 0:
            raise MachineryError('TLC failed on %s (%s):\n%s' % (module, cfg, out[-1500:]))
        if count:
            self.states += dist
            self.transitions += gen
        self.tlc_runs.append({'module': module, 'cfg': cfg, 'states': dist,
                              'transitions': gen, 'wall_s': r['wall'],
                              'simulate': simulate or 0})
        return r

    def emit(self, module, cfg=None, env=None, **kw):
        """Run TLC on a module that writes JSON (one value) to IOEnv.OUT; return it."""
        f = os.path.join(self.scratch, 'emit_%s_%d.json' % (module, len(self.tlc_runs)))
        r = self.tlc(module, cfg, env=dict(env or {}, OUT=f), **kw)
        with open(f) as fh:
            return json.load(fh), r

    def emit_lines(self, module, cfg=None, env=None, **kw):
        """Run TLC on a module that appends JSON lines to IOEnv.OUT."""
        f = os.path.join(self.scratch, 'lines_%s_%d.json' % (module, len(self.tlc_runs)))
        r = self.tlc(module, cfg, env=dict(env or {}, OUT=f), **kw)
        out = []
        if os.path.exists(f):
            with open(f) as fh:
                for line in fh:
                    line = line.strip()
                    if line:
                        out.append(uncsv(line))
        return out, r

    def tmp(self, suffix=''):
        return tempfile.mkdtemp(prefix='t', suffix=suffix, dir=self.scratch)


def uncsv(line):
    if line[0] == '"':  # CSVWrite of a TLA+ string: quoted, inner quotes escaped
        line = line[1:-1].replace('\\"', '"').replace('\\\\', '\\')
    return json.loads(line)


def behaviours(lines):
    """Split the steps written by TLC's simulation into behaviours (level 2 is the first step)."""
    behs = []
    for l in lines:
        if l['lvl'] <= 1:
            continue
        if l['lvl'] == 2:
            behs.append([])
        elif not behs or behs[-1][-1]['lvl'] != l['lvl'] - 1:
            raise MachineryError('the steps written by TLC are not behaviours')
        behs[-1].append(l)
    return behs


def jsonable(x, depth=0):
    if depth > 8:
        return repr(x)
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v, depth + 1) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted((jsonable(v, depth + 1) for v in x), key=repr)
    if x is None or isinstance(x, (bool, int, str)):
        return x
    if isinstance(x, float):
        return x if math.isfinite(x) else repr(x)
    return repr(x)


def outcome(f, *a, **k):
    """Run code under test; ('ok', value) or ('raise', exception type name, text)."""
    try:
        return ('ok', f(*a, **k))
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:  # SystemExit included: it is observable behaviour
        return ('raise', type(e).__name__, str(e)[:500])


def close(a, b, rel=1e-9, abs_=0.0):
    """Numbers equal up to relative precision (complex allowed)."""
    try:
        if a == b:
            return True
        return abs(a - b) <= max(rel * max(abs(a), abs(b)), abs_)
    except OverflowError:
        return False


def from_repo(tb):
    """Does a traceback pass through the code under test?"""
    pre = os.path.join(REPO, 'wcxf') + os.sep
    return any(os.path.abspath(fr.filename).startswith(pre)
               for fr in traceback.extract_tb(tb))


def blames_code(e):
    """An exception that is the code's: it passed through the code under test, or a result of the code has not
    the form that was asked of it (the machinery itself is the same on every tree). Everything else (missing
    tools, files, memory, or a function of the code that is no longer there) is a failure of the machinery."""
    if isinstance(e, (MachineryError, ImportError, OSError, MemoryError, KeyboardInterrupt, SystemExit)):
        return from_repo(e.__traceback__) and not isinstance(e, MachineryError)
    if from_repo(e.__traceback__):
        return True
    if isinstance(e, AttributeError):
        return not isinstance(getattr(e, 'obj', None), (type(sys), type))
    return isinstance(e, (LookupError, TypeError, ValueError, ArithmeticError, AssertionError))


def import_wcxf():
    """Import the package from the working tree under test."""
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import logging
    logging.disable(logging.CRITICAL)
    import wcxf
    got = os.path.realpath(wcxf.__file__)
    want = os.path.realpath(os.path.join(REPO, 'wcxf', '__init__.py'))
    if got != want:
        raise MachineryError('imported %s instead of %s' % (got, want))
    return wcxf


def pmap(fn, items, procs=8):
    """Fork-based parallel map; every item runs in a forked worker, in chunks."""
    import multiprocessing as mp
    items = list(items)
    if not items:
        return []
    procs = min(procs, len(items), os.cpu_count() or 1)
    with mp.get_context('fork').Pool(procs) as pool:
        return pool.map(fn, items, chunksize=max(1, len(items) // (procs * 4)))


class Rec(object):
    """Verdict recorder usable in forked workers; merged into a Ctx afterwards."""

    def __init__(self, seed):
        self.rng = random.Random(seed)
        self.fails, self.nviol, self.cases, self.traces = [], 0, 0, 0
        self.distinct = set()

    def fail(self, clause, **detail):
        self.nviol += 1
        if len(self.fails) < MAX_REPORT:
            self.fails.append({'clause': clause, 'detail': jsonable(detail)})

    def check(self, ok, clause, **detail):
        self.cases += 1
        if not ok:
            self.fail(clause, **detail)
        return ok


def parallel(ctx, fn, items, procs=8, chunks_per_proc=3):
    """Run fn(rec, item) for all items in forked workers; merge the verdicts."""
    items = list(items)
    if not items:
        return
    procs = min(procs, os.cpu_count() or 1, len(items))
    n = min(len(items), procs * chunks_per_proc)
    chunks = [items[i::n] for i in range(n)]
    global _JOB
    _JOB = (fn, ctx.seed)
    import multiprocessing as mp
    with mp.get_context('fork').Pool(procs) as pool:
        results = pool.map(_run_chunk, list(enumerate(chunks)), chunksize=1)
    broken = None
    for res in results:
        if isinstance(res, str):
            broken = broken or res
            continue
        fails, nviol, cases, traces = res
        ctx.nviol += nviol
        ctx.cases += cases
        ctx.traces += traces
        for f in fails:
            if len(ctx.violations) < MAX_REPORT:
                ctx.violations.append(f)
    if broken:
        raise MachineryError(broken)


def forked(fn, *args):
    """Result of fn in a forked copy of this process, which stays as it is."""
    import pickle
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                out = ('ok', fn(*args))
            except Exception as e:
                out = ('raise', type(e).__name__, str(e)[:300])
            with os.fdopen(w, 'wb') as f:
                pickle.dump(out, f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else ('died',)


def _run_chunk(arg):
    k, chunk = arg
    fn, seed = _JOB
    rec = Rec(seed * 1000003 + k)
    for it in chunk:
        try:
            fn(rec, it)
        except MachineryError as e:
            return str(e)
        except Exception as e:
            if blames_code(e):
                rec.fail('the code under test raised an unexpected exception',
                         item=it, traceback=traceback.format_exc()[-1500:])
            else:
                return 'worker: ' + traceback.format_exc()
    return rec.fails, rec.nviol, rec.cases, rec.traces
