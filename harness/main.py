"""Runner: main.py <ID>. Parent supervises a worker so that crashes and hangs of
the code under test become verdicts, and failures of the machinery do not."""
import importlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import vlib  # noqa: E402

KNOWN = os.path.join(vlib.VERIF, 'known-findings.txt')


def worker(prop, outfile, scratch):
    tier, seed = os.environ['VERIF_TIER'], int(os.environ['VERIF_SEED'])
    ctx = vlib.Ctx(prop, tier, seed, scratch)
    status = 'ok'
    err = ''
    level = 'model_checking'
    try:
        mod = importlib.import_module('checks.' + prop.lower())
        level = getattr(mod, 'LEVEL', level)
        mod.run(ctx)
    except vlib.MachineryError as e:
        status, err = 'machinery', str(e)
    except BaseException as e:
        err = traceback.format_exc()
        if vlib.blames_code(e):
            ctx.fail('the code under test raised an unexpected exception', traceback=err[-3000:])
        else:
            status = 'machinery'
    with open(outfile, 'w') as f:
        json.dump({'status': status, 'err': err, 'level': level,
                   'violations': ctx.violations, 'nviol': ctx.nviol,
                   'states': ctx.states, 'transitions': ctx.transitions,
                   'traces': ctx.traces, 'cases': ctx.cases,
                   'samples': ctx.samples, 'extra': ctx.extra,
                   'tlc': ctx.tlc_runs, 'assumptions': ctx.assumptions}, f)


def known_findings(prop):
    """Findings recorded but not repaired: lines 'open: property=<id> <what>'."""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r'open: property=(\w+) (.*)', line)
            if m and m.group(1) == prop:
                out.append({'what': m.group(2)})
    return out


def main():
    prop = sys.argv[1]
    if len(sys.argv) > 2 and sys.argv[2] == '--worker':
        return worker(prop, sys.argv[3], sys.argv[4])
    t0 = time.time()
    tier, seed = os.environ.get('VERIF_TIER', 'quick'), os.environ.get('VERIF_SEED', '1')
    os.environ['VERIF_TIER'], os.environ['VERIF_SEED'] = tier, seed
    scratch = tempfile.mkdtemp(prefix='verif_%s_' % prop)
    outfile = os.path.join(scratch, 'result.json')
    limit = int(os.environ.get('VERIF_TIMEOUT', '840' if tier == 'quick' else '14000'))
    rc = 2
    try:
        p = subprocess.Popen([vlib.PY, '-B', '-W', 'ignore', os.path.abspath(__file__), prop,
                              '--worker', outfile, scratch], start_new_session=True, stdout=subprocess.DEVNULL,
                             env=dict(os.environ, TMPDIR=scratch))
        hung = False
        try:
            p.wait(timeout=limit)
        except subprocess.TimeoutExpired:
            hung = True
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
        if os.path.exists(outfile):
            r = json.load(open(outfile))
        elif hung:
            r = {'status': 'machinery', 'err': 'timeout after %d s' % limit}
        else:
            r = {'status': 'machinery', 'err': 'worker died with status %s' % p.returncode}
        rc = report(prop, tier, int(seed), r, time.time() - t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return rc


def report(prop, tier, seed, r, wall):
    if r['status'] != 'ok' and not r.get('violations'):
        print('ERROR: the machinery of %s failed (no verdict):\n%s' % (prop, r['err']))
        return 2
    evdir = os.path.join(vlib.VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    cov = {'states': r['states'], 'transitions': r['transitions'],
           'traces_validated_against_impl': r['traces'],
           'conformance_comparisons': r['cases'],
           'samples': r['samples'] or ['(none)'], 'tlc_runs': r['tlc']}
    cov.update(r['extra'])
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': r['level'],
          'coverage': cov, 'assumptions': r['assumptions'], 'wall_s': round(wall, 2),
          'violations': r['nviol']}
    with open(os.path.join(evdir, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k in known_findings(prop):
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if r['nviol']:
        os.makedirs(os.path.join(evdir, 'replay'), exist_ok=True)
        path = os.path.join(evdir, 'replay', '%s.json' % prop)
        with open(path, 'w') as f:
            json.dump({'property': prop, 'seed': seed, 'tier': tier, 'count': r['nviol'],
                       'violations': r['violations'],
                       'replay': 'VERIF_SEED=%d bash check.sh %s %s' % (seed, prop, tier)},
                      f, indent=1)
        for v in r['violations'][:5]:
            print('  broken: %s  %s' % (v['clause'], json.dumps(v['detail'])[:600]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    print('%s: held on %d comparisons, %d behaviours/cases from the specification '
          '(TLC: %d states, %d transitions), %.1f s'
          % (prop, r['cases'], r['traces'], r['states'], r['transitions'], wall))
    return 0


if __name__ == '__main__':
    sys.exit(main())
