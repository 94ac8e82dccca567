"""C03: a Wilson coefficient file is accepted exactly if all its names exist."""
import itertools
import json
import os
import random
import subprocess
import sys
import vlib
import reg

REJECT = ('ValueError', 'AssertionError')
# pools of concrete names that are easily confused with one another
POOLS = [('p', 'q', 'r'), ('C9_bsee', 'C9_bsmumu', 'c9_bsee'), ('phil1_11', 'phil1_1', 'phil1_111'),
         ('VudLL_1111', 'VudLL_1112', 'VudLL 1111'), ('a', 'aa', 'A'), ('1', '01', '1.0'),
         ('C', 'C ', ' C'), ('\u00e9', 'e', 'e\u0301'), ('a.b', 'a', 'b'), ('*', '.*', 'p'),
         ('', 'None', 'null'), ('Re', 'Im', 'values'), ('scale', 'eft', 'p'), ('basis', 'sectors', 'metadata'), ('s', 't', 'sb'),
         ('parent', 'x', 'A'), ('all', 'dict', '__class__'), ('None', 'True', '0'), ('nan', 'inf', 'p')]
VALUES = [1.0, 0.0, 0, -0.0, 1e-300, {'Re': 1.0, 'Im': 2.0}, {'Re': 0, 'Im': 0}, {'Im': 3.0}, {}, '1e-3',
          float('nan'), None, 'text']


def near(rng, name):
    """A name that is not quite `name`."""
    i = rng.randrange(len(name) + 1)
    sep = rng.choice(['@', '#', ':', '/', '.', '-', '_', '*', '(', '[0]', '=', ',', ';', '|', '\t', '\n', '!', '~', '^', '+', "'",
                      'p', '0', '1', '&', '$', '%', '?', '<', '{', '\\', '"'])
    return rng.choice([name + sep, name + sep + rng.choice(['x', '1', 'bar', name]), sep + name, name[:i] + sep + name[i:],
                       name[:-1] or 'x', name[1:] or 'x', name.upper() + 'X', name.upper(), name.title(), name[::-1] + 'z', name * 2,
                       name.replace('_', ''), name.replace('_', '-'), 's0.' + name, 's0:' + name, 'Re ' + name,
                       name + '_re', name + '_Im', 'A.' + name])


def rename(st, m):
    return {'efts': st['efts'],
            'bases': {k: {s: frozenset(m[c] for c in cs) for s, cs in x.items()}
                      for k, x in st['bases'].items()}}


def wc_doc(rng, e, b, names):
    names = list(names)
    rng.shuffle(names)
    return {'eft': e, 'basis': b, 'scale': rng.choice([160, 4.8, 1e3, '91.2']),
            'values': {n: rng.choice(VALUES) for n in names}}


def verdict(w, rng, doc):
    if rng.random() < .5:
        o = w.WC(**doc)
    else:
        o = w.WC.load(json.dumps(doc))
    # other uses of the object before
    for use in rng.choice([[], [], ['dict'], ['text', 'dict'], ['dump'], ['validate'], ['translate', 'validate'], ['dict', 'validate']]):
        vlib.outcome({'dict': lambda: o.dict, 'text': lambda: (str(o), repr(o)), 'dump': lambda: o.dump(fmt='yaml'),
                      'validate': o.validate, 'translate': lambda: o.translate('no such basis')}[use])
    before = json.dumps(o.dump())
    r = vlib.outcome(o.validate)
    return r, json.dumps(o.dump()) == before


def run(ctx):
    w = vlib.import_wcxf()

    # before anything was ever defined
    def first():
        o = w.WC('A', 'x', 1, {})
        a = vlib.outcome(o.validate)[:2]
        w.EFT('A', {'s': {}})
        b = vlib.outcome(o.validate)[:2]
        w.Basis('A', 'x', {'s': {}})
        return a, b, vlib.outcome(o.validate)
    r = vlib.forked(first)
    ctx.check(r[0] == 'ok' and r[1][0][1] in REJECT and r[1][1][1] in REJECT and r[1][2] == ('ok', None),
              'verdicts where nothing was ever defined', got=repr(r))
    states, edges, behs = reg.generate(ctx, full=ctx.thorough,
                                       simulate=300 if ctx.thorough else 40, depth=40)
    subsets = [frozenset(s) for n in range(4) for s in itertools.combinations(reg.NAMES, n)]
    queries = [(e, b) for e in ('A', 'B', 'C') for b in ('x', 'y')] + [('A', 'w'), ('a', 'x'), ('A', 'X'), ('x', 'A')]

    def ask(rec, v, st, m, which=None):
        acc = {k: frozenset(x) for k, x in reg.norm(v['accept']).items()}
        for e, b in queries:
            for K in (which or subsets):
                want = '%s:%s' % (e, b) in acc and K <= acc['%s:%s' % (e, b)]
                r, unchanged = verdict(w, rec.rng, wc_doc(rec.rng, reg.NM.e[e], reg.NM.b[b], [m[c] for c in K]))
                ok = r[0] == 'ok' if want else (r[0] == 'raise' and r[1] in REJECT)
                rec.check(ok, 'accepted' if want else 'rejected with an error', eft=e, basis=b,
                          coefficients=sorted(m[c] for c in K), got=repr(r), state=reg.show(st))
                rec.check(unchanged, 'validation leaves the object unchanged')

    def do_state(rec, v):
        pool = rec.rng.choice(POOLS)
        perm = list(pool)
        rec.rng.shuffle(perm)
        m = dict(zip(reg.NAMES, perm))
        st = rename(reg.nstate(v['state']), m)
        reg.build(w, rec.rng, st)
        ask(rec, v, st, m)
        reg.same(rec, 'validation leaves the registries unchanged', reg.observe(w), st)
        rec.traces += 1

    vlib.parallel(ctx, do_state, states)
    ctx.sample({'state': states[-1]['state'], 'acceptable': states[-1]['accept']})

    # histories: the verdict follows the registry at that moment
    def do_beh(rec, steps):
        reg.clear(w, rec.rng)
        m = {n: n for n in reg.NAMES}
        # objects that live on while definitions come and go
        held = []
        for _ in range(4):
            e, b = rec.rng.choice(queries[:4])
            K = rec.rng.choice(subsets)
            held.append((e, b, K, w.WC(**wc_doc(rec.rng, reg.NM.e[e], reg.NM.b[b], K))))
        for l in steps:
            reg.act(w, rec.rng, l['act'])
            acc = {k: frozenset(x) for k, x in reg.norm(l['v']['accept']).items()}
            for e, b, K, o in held:
                want = '%s:%s' % (e, b) in acc and K <= acc['%s:%s' % (e, b)]
                r = vlib.outcome(o.validate)
                rec.check(r[0] == 'ok' if want else (r[0] == 'raise' and r[1] in REJECT),
                          'an earlier object is judged by the definitions as they are', want=want, eft=e, basis=b,
                          coefficients=sorted(K), got=repr(r), state=reg.show(reg.nstate(l['v']['state'])))
            ask(rec, l['v'], reg.nstate(l['v']['state']), m,
                which=[rec.rng.choice(subsets) for _ in range(3)])
        rec.traces += 1

    vlib.parallel(ctx, do_beh, behs)
    ctx.sample([l['act'] for l in behs[0]][:8])

    # large bases and files
    def do_big(rec, n):
        reg.clear(w)
        nsec = rec.rng.choice([1, 2, 7, 40])
        secs = ['s%d' % i for i in range(nsec)]
        w.EFT('A', {s: {} for s in secs})
        sectors = {s: {} for s in secs}
        names = ['c%d_%d' % (i % 9, i) for i in range(n)]
        text = rec.rng.random() < .5 and n > 0
        if text:
            names += ['1', 'None', 'True', '1.5']
        for i, c in enumerate(names):
            sectors[secs[i % nsec]][c] = None
        w.Basis('A', 'x', sectors)
        unknown = rec.rng.choice(['c0_%d' % n, 'C0_0', 'c0', 'c0_0 ', '', 's0', 'c0_0_'] + [near(rec.rng, rec.rng.choice(names or ['c']))])
        if unknown in names:
            unknown = 'c0_%d' % n
        few = []
        for _ in range(40):
            x = near(rec.rng, rec.rng.choice(names or ['c0_0']))
            if x not in names:
                few += [([x], False), (rec.rng.sample(names, min(n, 3)) + [x], False)]
        few += [([x], False) for x in ('scale', 'values', 'eft', 'basis', 'sectors', 'A', 'x', 's0', 'all', '', 'metadata', 'Re', '_', 'None_')]
        few += [([x], False) for x in (1, None, True, 1.5, ('1',))]
        # many that do not exist
        few += [(['d%d' % i for i in range(k)], False) for k in (2, 10, 150, 20 * n + 1000)]
        few += [(names + ['d%d' % i for i in range(k)], False) for k in (2, 300)]
        for K, want in few + [(names, True), (names[::-1], True), (names[:1], True), ([], True),
                        (names + [unknown], False), ([unknown] + names, False), ([unknown], False)]:
            doc = {'eft': 'A', 'basis': 'x', 'scale': 1, 'values': {c: 1.0 for c in K}}
            r = vlib.outcome(w.WC(**doc).validate)
            rec.check((r[0] == 'ok') == want and (r[0] == 'ok' or r[1] in REJECT),
                      'large file %s' % ('accepted' if want else 'rejected'), n=n,
                      unknown=unknown, names=K[-4:], got=repr(r))

    vlib.parallel(ctx, do_big, [0, 0, 1, 2, 3, 10, 100, 1000, 3000] * (4 if ctx.thorough else 2))

    # other interpreter options, fresh processes
    sample = ctx.rng.sample(states, 40 if ctx.thorough else 12)
    jobs = []
    for v in sample:
        for e, b in [('A', 'x'), ('A', 'y'), ('B', 'x'), ('C', 'x')]:
            for K in ctx.rng.sample(subsets, 4):
                jobs.append({'state': v['state'], 'eft': e, 'basis': b, 'names': sorted(K)})
    accs = [v for v in sample for _ in range(16)]
    prog = ('import sys, json\nsys.path.insert(0, %r)\nsys.path.insert(0, %r)\n'
            'import logging; logging.disable(50)\n'
            'import wcxf, reg, random\nout = []\n'
            'for j in json.load(open(sys.argv[1])):\n'
            '    reg.build(wcxf, random.Random(0), reg.nstate(j["state"]))\n'
            '    o = wcxf.WC(reg.NM.e[j["eft"]], reg.NM.b[j["basis"]], 1, {n: 1.0 for n in j["names"]})\n'
            '    try:\n        o.validate(); out.append("ok")\n'
            '    except Exception as e:\n        out.append(type(e).__name__)\n'
            'print(json.dumps(out))\n') % (vlib.REPO, os.path.join(vlib.VERIF, 'harness'))
    jf = os.path.join(ctx.scratch, 'jobs.json')
    json.dump(jobs, open(jf, 'w'))
    for opts in ([], ['-O'], ['-OO']):
        p = subprocess.run([vlib.PY, '-B', '-W', 'ignore'] + opts + ['-c', prog, jf],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True)
        try:
            res = json.loads(p.stdout.strip().splitlines()[-1])
        except Exception:
            ctx.fail('validation in a fresh process with options %s failed' % opts, stderr=p.stderr[-800:])
            continue
        for j, v, got in zip(jobs, accs, res):
            acc = {k: set(x) for k, x in reg.norm(v['accept']).items()}
            k = '%s:%s' % (j['eft'], j['basis'])
            want = k in acc and set(j['names']) <= acc[k]
            ctx.check(got == 'ok' if want else got in REJECT,
                      'verdict with interpreter options %s' % opts, job=j, got=got)
        ctx.traces += len(jobs)
    ctx.extra['states_replayed'] = len(states)
    ctx.extra['behaviours_replayed'] = len(behs)
    ctx.assumptions.append('a sector of a basis is a mapping (a null sector is not well formed)')
