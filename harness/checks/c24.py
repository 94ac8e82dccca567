"""C24: importing the package registers every shipped definition file (Load.tla)."""
import json
import os
import shutil
import subprocess

import vlib

# concrete names for the abstract ones, and tricky texts for file names
EFTS = [('A', 'B', 'C'), ('WET', 'WET-4', 'WET-3'), ('SMEFT', 'smeft', 'empty'), ('é', 'e', '0')]
BASES = [('x', 'y', 'z', 'u'), ('JMS', 'flavio', 'my JMS', 'my flavio'), ('Warsaw', 'Warsaw up', 'Warsaw mass', 'w'),
         ('b', 'a', '0', 'B')]
STEMS = ['a', 'b', 'zz', '0', 'child', 'WET.JMS', 'WET.my.JMS', 'é', 'with space', 'x.eft', 'UPPER', '-dash', '~t', '_private', '[x]', 'a*b', ' lead',
         '9', '#1', 'Warsaw', '@', '(2)', '__init__']


def defs(rng, names):
    return {n: rng.choice([{}, {'real': True}, {'tex': r'\mathcal{O}_{%s}' % n}, {'real': False, 'tex': 'é'}, None])
            for n in names}


def run(ctx):
    lines, _ = ctx.emit_lines('Load')
    vlib.import_wcxf()
    shipped = [l for l in lines if l['shipped']][0]['shipped']
    T = sorted([x['eft'], x['from'], x['to']] for x in shipped if x['kind'] == 'translator')
    M = sorted([x['eft'], x['from'], x['target'], x['to']] for x in shipped if x['kind'] == 'matcher')
    ctx.extra['shipped'] = {'translators': len(T), 'matchers': len(M)}
    ctx.extra['distributions'] = len(lines)
    src = os.path.join(vlib.REPO, 'wcxf')

    def world(rec, l):
        rng = rec.rng
        root = vlib.tempfile.mkdtemp(dir=ctx.scratch)
        try:
            site = os.path.join(root, rng.choice(['site', 'site', 'my [new] env', 'a*b?', 'lib with space', 'é', '{x}']))
            pkg = os.path.join(site, 'wcxf')
            shutil.copytree(src, pkg, ignore=shutil.ignore_patterns('__pycache__', 'bases', '.git'))
            bdir = os.path.join(pkg, 'bases')
            os.makedirs(os.path.join(bdir, 'child'))
            em = dict(zip('ABC', rng.choice(EFTS)))
            bm = dict(zip('xyzu', rng.choice(BASES)))
            stems = {k: rng.sample(STEMS, len(STEMS)) for k in ('eft', 'basis', 'child')}
            efts, bases, wcs = {}, {}, {}

            def put(kind, doc):
                ext = '.eft.json' if kind == 'eft' else '.basis.json'
                d = os.path.join(bdir, 'child') if kind == 'child' else bdir
                with open(os.path.join(d, stems[kind].pop() + ext), 'w', encoding='utf-8') as f:
                    json.dump(doc, f, ensure_ascii=rng.random() < .5, indent=rng.choice([None, 1, 2]))

            for e in l['efts']:
                doc = {'eft': em[e['eft']], 'sectors': {s: rng.choice([{}, {'dB': 1}]) for s in e['sectors']}}
                if rng.random() < .5:
                    doc['metadata'] = {'description': 'text é'}
                put('eft', doc)
                efts[doc['eft']] = doc
            coef = {}
            todo = sorted(l['files'], key=lambda f: f['parent'] != '')
            docs = []
            for f in todo:
                own = {x['s']: defs(rng, x['c']) for x in f['sectors']}
                doc = {'eft': em[f['eft']], 'basis': bm[f['basis']], 'sectors': own}
                if f['parent']:
                    doc['parent'] = bm[f['parent']]
                if rng.random() < .5:
                    doc['metadata'] = {'description': 'text', 'pdf': None}
                full = dict(coef[f['eft'], f['parent']]) if f['parent'] else {}
                full.update(own)
                coef[f['eft'], f['basis']] = full
                # the specification says what the sectors are in the end
                if {s: sorted(c) for s, c in full.items()} != {x['s']: sorted(x['c']) for x in f['full']}:
                    raise vlib.MachineryError('binding of Load.tla is wrong')
                want = dict(doc, sectors=full)
                bases[doc['eft'], doc['basis']] = want
                wcs[doc['eft'], doc['basis']] = sorted(c for x in f['full'] for c in x['c'])
                docs.append((f['parent'] != '', doc))
            rng.shuffle(docs)
            for c, doc in docs:
                put('child' if c else 'basis', doc)
            # other files that are not definitions
            for n in ('README.md', 'x.eft.json.orig', 'x.basis.yml', os.path.join('child', 'README.md'),
                      os.path.join('child', 'notes.txt')):
                if rng.random() < .3:
                    with open(os.path.join(bdir, n), 'w') as f:
                        f.write('no definition')
            cwds = [root, site, '/', bdir]
            decoy = os.path.join(root, 'decoy')
            os.makedirs(os.path.join(decoy, 'bases', 'child'))
            with open(os.path.join(decoy, 'bases', 'd.eft.json'), 'w') as f:
                json.dump({'eft': 'decoy', 'sectors': {}}, f)
            cwds.append(decoy)
            for cwd in ([rng.choice(cwds)] if not ctx.thorough else cwds):
                path = rng.choice([site, os.path.relpath(site, cwd)])
                order = rng.choice([0, 1, 2, 3, 4])
                p = subprocess.run([vlib.PY, '-B', '-W', 'ignore', os.path.join(vlib.VERIF, 'harness', 'loaddrv.py'),
                                    path, str(order)], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                   timeout=300)
                what = dict(efts=sorted(efts), bases=sorted(map(list, bases)), order=order, cwd=os.path.basename(cwd))
                rec.traces += 1
                if not rec.check(p.returncode == 0, 'the import succeeds', err=p.stderr.decode('utf-8', 'replace')[-600:],
                                 **what):
                    continue
                g = json.loads(p.stdout.decode())
                if not g['file'].startswith(pkg):
                    raise vlib.MachineryError('imported ' + g['file'])
                rec.check(g['efts'] == efts, 'the EFTs are those of the files', got=g['efts'], want=efts, **what)
                got = {tuple(k): d for k, d, _ in g['bases']}
                rec.check(got == bases, 'the bases are those of the files', got=g['bases'], **what)
                rec.check({tuple(k): a for k, _, a in g['bases']} == wcs, 'the coefficients are those of the files',
                          got=g['bases'], **what)
                rec.check(g['known'] == {e: sorted(b for x, b in bases if x == e) for e in efts},
                          'the known bases of an EFT', got=g['known'], **what)
                rec.check(all(x in g['translators'] for x in T), 'every shipped translator',
                          missing=[x for x in T if x not in g['translators']])
                rec.check(all(x in g['matchers'] for x in M), 'every shipped matcher',
                          missing=[x for x in M if x not in g['matchers']])
        finally:
            shutil.rmtree(root, ignore_errors=True)

    vlib.parallel(ctx, world, lines * (6 if ctx.thorough else 1), chunks_per_proc=6)
    ctx.sample(lines[-1])
