"""C18: the EOS parameter file contains standard model plus new physics (Eos.tla)."""
import copy
import os
import shutil
import tempfile

import yaml
import vlib
import cliutil

PLAIN = ['b->s::c1', "b->s::c8'", 'b->s::c8', 'ubar->x', 's->d::c_Re', 'b->smumu::c']
WHOLE = ['b->s::%sc7', "b->s::%sc7'", 'b->see::%sc9', "b->smumu::%sc10'", 'b->s::%scT5', 'cbc->%sx', 'b->snunu::%scVL']
GENERIC = ['b->ulnu::%scVL', 'b->clnu::%scSR', 'c->dlnu::%scT', "b->ulnu::%scSL'"]
# what directories of installations can be called
PREFIXES = ['eos', 'eos', 'eos [new]', 'a*', '?x', 'with space', 'é', '[!a]', '{a,b}', '-']
META_KEYS = ['authors', 'license', 'version', 'comment', 'relevant', 'WCxf-relevant', 'date']
META = {'true': {'wcxf-relevant': True}, 'false': {'wcxf-relevant': False}, 'nokey': {'other': 1}}


def name(t, part):
    """Name of the parameter for a coefficient name with a %s before the part to be enclosed."""
    a, b = t.split('%s')
    return '%s%s{%s}' % (a, part, b)


def run(ctx):
    w = vlib.import_wcxf()
    from wcxf.converters import eos
    lines, _ = ctx.emit_lines('Eos')
    ctx.extra['scenarios'] = len(lines)
    ctx.sample(lines[len(lines) // 2])

    def number(rng, v):
        x, y = rng.choice([1.0, -.3, 1e-12, 3e5]) * rng.uniform(.5, 1), rng.choice([.2, -1.7, 1e-9]) * rng.uniform(.5, 1)
        return {'zero': 0.0, 'real': x, 'imag': 1j * y, 'cplx': x + 1j * y}[v]

    def value(rng, z):
        if z == 0:
            return rng.choice([0, 0.0, {'Re': 0.0, 'Im': 0.0}])
        if isinstance(z, complex):
            return {'Re': z.real, 'Im': z.imag} if z.real else rng.choice([{'Im': z.imag}, {'Re': 0, 'Im': z.imag}])
        return rng.choice([z, {'Re': z}, {'Re': z, 'Im': 0.0}])

    def entry(rng):
        c = rng.choice([0.0, 1.0, 0, 1, rng.uniform(-5, 5)])
        if rng.random() < .25:              # the range need not contain the value
            return dict(zip(rng.sample(['central', 'min', 'max'], 3), rng.choice([(c, 7.5, 7.5), (c, 0.0, 0.0), (c, c + 1, c - 1), (7, 7, c)])))
        return {'central': c, 'min': c - rng.choice([0, 1.0]), 'max': c + rng.choice([0, 2.0])}

    def write(rng, d, files):
        for fn, (rel, content) in files.items():
            doc = {}
            if rel != 'nometa':
                doc['@metadata@'] = dict({x: rng.choice(['text', 1, None, ['a'], {'wcxf-relevant': rng.random() < .5}, False])
                                          for x in rng.sample(META_KEYS, rng.choice([0, 0, 1, 4]))}, **META[rel])
            doc.update(content)
            items = list(doc.items())
            rng.shuffle(items)
            with open(os.path.join(d, fn), 'w') as f:
                yaml.safe_dump(dict(items), f, default_flow_style=rng.random() < .5)
        if rng.random() < .3:
            with open(os.path.join(d, 'README'), 'w') as f:
                f.write('not a parameter file: [')
        if rng.random() < .3:
            with open(os.path.join(d, 'old.yaml.bak'), 'w') as f:
                yaml.safe_dump({'@metadata@': {'wcxf-relevant': True}, 'b->s::old': entry(rng)}, f)

    def compare(rec, r, want, **kw):
        if want is None:
            return rec.check(r[0] == 'raise' and r[1] == 'ValueError', 'different leptons: ValueError', got=repr(r)[:400], **kw)
        ok = r[0] == 'ok' and set(r[1]) == set(want)
        bad = []
        if ok:
            for k, x in want.items():
                e = r[1][k]
                if set(e) != {'central', 'min', 'max'} or not all(vlib.close(v, x, 1e-14, 1e-300) for v in e.values()) \
                        or any(isinstance(v, complex) for v in e.values()):
                    bad.append((k, dict(e), x))
        return rec.check(ok and not bad, 'standard model plus new physics', wrong=bad[:3],
                         got=repr(r)[:300] if not ok else None, want=want if not ok else None, **kw)

    def scenario(rec, l):
        rng = rec.rng
        d = tempfile.mkdtemp(dir=ctx.scratch, prefix=rng.choice(PREFIXES))
        try:
            np_, nw, ng = rng.choice(PLAIN), rng.choice(WHOLE), rng.choice(GENERIC)
            names = {('fcnc', 'plain'): np_, ('fcnc2', 'Re'): name(nw, 'Re'), ('fcnc2', 'Im'): name(nw, 'Im'),
                     ('cc', 'Re'): name(ng, 'Re'), ('cc', 'Im'): name(ng, 'Im')}
            names = {k: n for k, n in names.items() if k[0] != 'cc' or k[1] in l['parts']}
            num = {v: number(rng, v) for v in ('zero', 'real', 'imag', 'cplx')}
            vals = {}
            g = ng % ''
            for n, v in ((np_, l['plain']), (nw % '', l['own']), (g, l['gen']), (g.replace('lnu', 'enue'), l['el']),
                         (g.replace('lnu', 'munumu'), l['mu'])):
                if v != 'absent':
                    vals[n] = value(rng, num[v])
            if rng.random() < .5:
                vals['unrelated::c1'] = 3.0
                vals[g.replace('lnu', 'taunutau')] = {'Re': 1.0, 'Im': 1.0}
            items = list(vals.items())
            rng.shuffle(items)
            sm = {n: entry(rng) for n in names.values()}
            fn = rng.sample(['a.yaml', 'b.yaml', 'parameters.yaml', 'z z.yaml', 'B.yaml', '_x.yaml', '1.yaml', '-d.yaml', '[a].yaml', 'x.y.yaml',
                             'é.yaml', 'wcxf.yaml', '~a.yaml', '(b->s).yaml'], 2)
            write(rng, d, {fn[0]: (l['rel'][0], {names[k]: sm[names[k]] for k in names if k[0] != 'cc'}),
                           fn[1]: (l['rel'][1], {names[k]: sm[names[k]] for k in names if k[0] == 'cc'})})
            got = eos.get_sm_wcs(d)
            exp = {}
            for i in (1, 2):
                if l['rel'][i - 1] == 'true':
                    exp.update({n: sm[n] for k, n in names.items() if (k[0] == 'cc') == (i == 2)})
            rec.check({k: dict(v) for k, v in got.items()} == exp, 'the relevant files of the installation',
                      relevance=l['rel'], got=sorted(got), want=sorted(exp))
            want = None
            if l['ok']:
                want = {}
                for x in l['res']:
                    n = names[x['p']['chan'], x['p']['part']]
                    z = complex(num[x['np'][0]])
                    want[n] = sm[n]['central'] + (z.real if x['np'][1] == 'Re' else z.imag)
            o = w.WC('WET', 'EOS', 4.2, dict(items))
            if rng.random() < .3:
                o = w.WC.load(o.dump())
            before, s0 = o.dump(), copy.deepcopy(got)
            r = vlib.outcome(eos.wcxf2eos, o, got)
            compare(rec, r, want, values=vals, scenario={k: l[k] for k in ('plain', 'own', 'gen', 'el', 'mu')})
            if l['ok'] and rng.random() < .3:
                compare(rec, vlib.outcome(eos.wcxf2eos, o, got), want, second=True)
            rec.check(o.dump() == before, 'the object is unchanged')
            rec.check(got == s0, "the installation's values are unchanged")
            rec.traces += 1
        finally:
            shutil.rmtree(d, ignore_errors=True)

    vlib.parallel(ctx, scenario, lines * (4 if ctx.thorough else 1))

    # realistic installations: the EOS files that come with the package, and generated ones, everything filled
    data = os.path.join(vlib.REPO, 'wcxf', 'data')
    real = {}
    for fn in sorted(os.listdir(data)):
        if fn.startswith('eos_') and fn.endswith('.yaml'):
            with open(os.path.join(data, fn)) as f:
                doc = yaml.safe_load(f)
            if doc.get('@metadata@', {}).get('wcxf-relevant'):
                del doc['@metadata@']
                real.update(doc)
    if not real:
        raise vlib.MachineryError('no EOS parameter files in the repository')

    def split(n):
        for part in ('Re', 'Im'):
            if part + '{' in n:
                i = n.index(part + '{')
                j = n.index('}', i)
                return n[:i] + n[i + 3:j] + n[j + 1:], part
        return n, 'plain'

    def filled(rec, k):
        rng = rec.rng
        sm = dict(real) if k % 3 else {n: entry(rng) for n in rng.sample(sorted(real), rng.randint(1, len(real)))}
        vals, want, clash = {}, {}, False
        universal = rng.random() < .7
        density = rng.choice([1, .5, .1])
        for n in sorted(sm):
            c, part = split(n)
            if 'lnu' in c:
                ke, km = c.replace('lnu', 'enue'), c.replace('lnu', 'munumu')
                if ke not in vals and km not in vals and rng.random() < density:
                    vals[ke] = number(rng, rng.choice(['real', 'imag', 'cplx', 'zero']))
                    vals[km] = vals[ke] if universal or rng.random() < .8 else vals[ke] + rng.choice([1e-3, 1e-15j, 1e-3j])
                    if not universal and rng.random() < .1:
                        del vals[rng.choice([ke, km])]
            elif c not in vals and rng.random() < density:
                vals[c] = number(rng, rng.choice(['real', 'imag', 'cplx', 'zero']))
        for n in sm:
            c, part = split(n)
            z = complex(vals.get(c, 0))
            if 'lnu' in c:
                z, z2 = [complex(vals.get(c.replace('lnu', x), 0)) for x in ('enue', 'munumu')]
                clash = clash or z != z2
            want[n] = sm[n]['central'] + (z.imag if part == 'Im' else z.real)
        if k % 2:
            d = tempfile.mkdtemp(dir=ctx.scratch)
            pdir = os.path.join(d, 'share', 'eos', 'parameters')
            os.makedirs(pdir)
            write(rng, pdir, {'x.yaml': ('true', sm), 'y.yaml': ('false', {'b->s::no': entry(rng)})})
            got = eos.get_sm_wcs(pdir)
            rec.check({x: dict(y) for x, y in got.items()} == {x: dict(y) for x, y in sm.items()}, 'the relevant files')
            shutil.rmtree(d)
        else:
            got = copy.deepcopy(sm)
        o = w.WC('WET', 'EOS', 4.2, w.WC.dict2values(vals))
        compare(rec, vlib.outcome(eos.wcxf2eos, o, got), None if clash else want, number=len(vals))
        rec.traces += 1

    vlib.parallel(ctx, filled, range(1500 if ctx.thorough else 150))
    got = eos.get_sm_wcs(data)
    ctx.check({k: dict(v) for k, v in got.items()} == real, 'the files that come with the package')

    # the command writes these parameters as YAML
    def command(rec, k):
        rng = rec.rng
        d = tempfile.mkdtemp(dir=ctx.scratch, prefix=rng.choice(PREFIXES))
        pdir = os.path.join(d, 'share', 'eos', 'parameters')
        os.makedirs(pdir)
        sm = {n: entry(rng) for n in rng.sample(sorted(real), 12)}
        write(rng, pdir, {'x.yaml': ('true', sm)})
        vals = {}
        for n in sm:
            c, part = split(n)
            z = number(rng, rng.choice(['real', 'imag', 'cplx']))
            for x in ([c.replace('lnu', y) for y in ('enue', 'munumu')] if 'lnu' in c else [c]):
                vals.setdefault(x, z)
        clash = False
        for n in sm:
            c = split(n)[0]
            if 'lnu' in c:
                clash = clash or vals[c.replace('lnu', 'enue')] != vals[c.replace('lnu', 'munumu')]
        o = w.WC('WET', 'EOS', 4.2, w.WC.dict2values(vals))

        def prepare():
            w.EFT('WET', {'s': {}})
            w.Basis('WET', 'EOS', {'s': {x: {} for x in vals}})
        text = o.dump(fmt=rng.choice(['json', 'yaml']))
        home = None
        argv, mode = ['--eosprefix', d], None
        if k % 2:
            home = os.path.join(d, 'home')
            os.makedirs(os.path.join(home, 'parameters'))
            argv += ['--eoshome', home]
            mode = rng.choice(['pipe', 'dash', 'file'])
        r = cliutil.fork_cli(ctx.scratch, 'eos', argv, text, rng, mode=mode, prepare=prepare)
        out = open(os.path.join(home, 'parameters', 'wcxf.yaml')).read() if home and os.path.exists(
            os.path.join(home, 'parameters', 'wcxf.yaml')) else r.out
        want = {}
        for n in sm:
            c, part = split(n)
            z = complex(vals[c.replace('lnu', 'enue')])
            want[n] = sm[n]['central'] + (z.imag if part == 'Im' else z.real)
        if not clash:
            rec.check(r.status == 0, 'the command succeeds', err=r.err[-400:])
            if r.status == 0:
                # plain YAML, which EOS can read
                doc = vlib.outcome(yaml.safe_load, out)
                compare(rec, doc, want, argv=argv[2:])
        else:
            rec.check(r.status != 0, 'the command fails for different leptons', out=out[:200])
        shutil.rmtree(d, ignore_errors=True)
        rec.traces += 1

    vlib.parallel(ctx, command, range(80 if ctx.thorough else 16))
