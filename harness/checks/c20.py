"""C20: the command line does what it is asked and reports failure (Cli.tla)."""
import io
import json
import os
import shutil
import subprocess
import tempfile

import yaml
import vlib
import cliutil
import docs

UNKNOWN = ['xml', 'wcxf', 'yml', 'YML', 'jsn', 'json5', 'yaml2', 'j', '', 'lha', 'jsonyaml', 'jsonl', 'js', 'y', 'yamljson', 'JSONs', 'ya', 'dict', 'str', 'txt']

# directories are taken literally
HOMES = ['home', '$HOME', '$HOME', '~', '~', 'a b', '[x]', '%(x)s', '{home}', 'é', 'x.d', '${PWD}', 'a*', '', '']


def run(ctx):
    w = vlib.import_wcxf()
    import wcxf.cli  # noqa: F401
    from wcxf.converters import eos as eosmod
    from wcxf.converters import smeftsim as sim
    import pylha
    lines, _ = ctx.emit_lines('Cli')
    ctx.extra['scenarios'] = len(lines)

    # a small world: two EFTs, bases, a translator and a matcher, an EOS installation
    w.EFT('A', {'s1': {}, 's2': {}})
    w.EFT('B', {'s1': {}})
    w.EFT('WET', {'s': {}})
    w.EFT('SMEFT', {'s': {}})
    w.Basis('A', 'x', {'s1': {'p': {}, 'q': {'real': True}}, 's2': {'r': None}})
    w.Basis('A', 'y', {'s1': {'p': {}}, 's2': {'r': None}})
    w.Basis('B', 'x', {'s1': {'p': {}}})
    w.Basis('WET', 'EOS', {'s': {'b->s::c7': {}, 'b->s::c1': {}, 'ubenue::cVL': {}, 'ubmunumu::cVL': {}}})
    for b in ('Warsaw mass', 'Warsaw'):
        w.Basis('SMEFT', b, {'s': {'phiBox': {'real': True}, 'uphi_12': {}, 'll_1122': {'real': True}}})

    # known targets, each with a function of its own
    targets = ['y', 'Y', 'my_basis', 'my basis', 'my-basis', 'Warsaw up', ' padded ', 'basis.v2', 'y,z', 'y:z', '\u00fcber', '2', 'json']
    matches = [('B', 'x'), ('B', 'X'), ('b', 'x'), ('WET-4', 'my_basis'), ('my_eft', 'a b'), ('my eft', 'a_b'), ('B', '1.0'), ('1', 'x')]

    def tr(i):
        return lambda C, scale, parameters: {k: v * (i + 2) + (0 if parameters is None else 1) for k, v in C.items() if k != 'q'}

    def ma(i):
        return lambda C, scale, parameters: {'p': C.get('p', 0) * scale + i}
    for i, t in enumerate(targets):
        w.translator('A', 'x', t)(tr(i))
    for i, (e, b) in enumerate(matches):
        w.matcher('A', 'x', e, b)(ma(i))

    prefix = os.path.join(ctx.scratch, 'eos [x]')
    pdir = os.path.join(prefix, 'share', 'eos', 'parameters')
    os.makedirs(pdir)
    with open(os.path.join(pdir, 'x.yaml'), 'w') as f:
        yaml.safe_dump({'@metadata@': {'wcxf-relevant': True},
                        'b->s::Re{c7}': {'central': -.3, 'min': -1., 'max': 0.},
                        'b->s::Im{c7}': {'central': 0., 'min': -1., 'max': 1.},
                        'ublnu::Re{cVL}': {'central': 1., 'min': 1., 'max': 1.},
                        'ublnu::Im{cVL}': {'central': 0., 'min': 0., 'max': 0.},
                        'b->s::c1': {'central': 1, 'min': 1, 'max': 1}}, f)

    def num(rng):
        return rng.choice([1.5, -2e-3, 3, {'Re': .1, 'Im': -.2}, {'Im': 1.0}])

    def wcdoc(rng, eft, basis, names):
        names = list(names)
        rng.shuffle(names)
        d = {'eft': eft, 'basis': basis, 'scale': rng.choice([160, 4.8, 91.1876]),
             'values': {n: num(rng) for n in names[:rng.choice([0] + list(range(1, len(names) + 1)) * 3)]}}
        if rng.random() < .3:
            d['metadata'] = {'author': 'someone \u00e9', 'n': [1, None]}
        return d

    def document(rng, s):
        """The document of a scenario as (data or None, text)."""
        c, kind = s['cmd'], s['doc']
        if c in ('translate', 'match', 'none', 'nosuch'):
            d = wcdoc(rng, 'A', 'x', ['p', 'q', 'r'])
        elif c == 'convert':
            d = rng.choice([wcdoc(rng, 'A', 'x', ['p', 'q', 'r']), {'eft': 'Z', 'sectors': {'s': {}}},
                            {'any': ['thing', 1, 2.5, True, {'deep': 'text: yes'}]}])
        elif c == 'eos':
            d = wcdoc(rng, 'WET', 'EOS', ['b->s::c7', 'b->s::c1'])
            if s['ask'] == 'universal':
                d['values'].update({'ubenue::cVL': {'Re': .25, 'Im': -.5}, 'ubmunumu::cVL': {'Re': .25, 'Im': -.5}})
            if s['ask'] == 'nonuniversal':
                d['values'].update(rng.choice([{'ubenue::cVL': {'Re': .25}, 'ubmunumu::cVL': {'Re': .5}}, {'ubenue::cVL': .5},
                                               {'ubmunumu::cVL': {'Im': .5}},
                                               {'ubenue::cVL': {'Re': .25, 'Im': 1e-3}, 'ubmunumu::cVL': {'Re': .25}}]))
        elif c == 'smeftsim':
            d = wcdoc(rng, 'SMEFT', 'Warsaw' if s['ask'] in ('ignore', 'decline') else 'Warsaw mass',
                      ['phiBox', 'uphi_12', 'll_1122'])
            d['values'] = {k: 1.5 if k != 'uphi_12' else v for k, v in d['values'].items()}
            if s['ask'] in ('ignore', 'decline') and rng.random() < .3:
                d['values'] = {}
        elif s['ask'] == 'basis':
            d = rng.choice([{'eft': 'A', 'basis': 'new', 'sectors': {'s1': {'p': {'tex': 'x'}}, 's2': {'q': None}}}, {'eft': 'A', 'basis': 'new', 'sectors': {}},
                            {'eft': 'A', 'basis': 'new', 'parent': 'x', 'sectors': {}}, {'eft': 'B', 'basis': 'new', 'parent': 'x', 'sectors': {'s1': {'r': {}, 's': None}}},
                            {'eft': 'A', 'basis': 'new', 'parent': 'x', 'sectors': {'s2': {'t': {'tex': 'x'}}}, 'metadata': {'description': 'child'}}])
        elif s['ask'] == 'wc':
            d = wcdoc(rng, 'A', rng.choice(['x', 'y']), ['p', 'r'])
        else:
            d = {'eft': 'N', 'sectors': {'s1': {}, 's2': {'description': 'x'}}}
        if kind == 'incomplete':
            k = rng.choice([k for k in ('eft', 'basis', 'scale', 'values', 'sectors') if k in d])
            del d[k]
        if kind == 'invalid':
            if s['cmd'] == 'validate' and s['ask'] == 'basis':
                d = rng.choice([dict(d, eft='Z'), dict(d, sectors={'s9': {'p': {}}}), dict(d, sectors=dict(d['sectors'], s9={})),
                                dict(d, eft='A', sectors={'s1': {'p': {}}, 's2': {'p': {}}}), dict(d, parent='nope'),
                                {'eft': 'A', 'basis': 'new', 'parent': 'x', 'sectors': {'s2': {'p': None}}}, {'eft': 'B', 'basis': 'new', 'parent': 'x', 'sectors': {'s2': {}}},
                                {'eft': 'A', 'basis': 'new', 'parent': 'x', 'sectors': {'s3': {'t': None}}}])
            elif 'values' in d:
                d = rng.choice([dict(d, eft='Z'), dict(d, basis='nope'), dict(d, values=dict(d['values'], zzz=1.0)), dict(d, eft='Z', values={}),
                                dict(d, basis='nope', values={})])
        text = json.dumps(d, indent=rng.choice([None, 1])) if s['syn'] == 'json' else yaml.safe_dump(
            d, default_flow_style=False)
        if rng.random() < .3 and not (c == 'convert' and s['syn'] == 'json'):            # as people write it
            text = (docs.hand_json if s['syn'] == 'json' else docs.hand_yaml)(rng, d) or text
        if kind == 'malformed':
            text = rng.choice(['{"eft": "A", ', 'a: [1, 2\nb: }', '"', '{"a": 1]', 'x: {y: 1', '\t- a: b: c'])
        return d, text

    def path(rng, work, p):
        """Absolute or relative to the working directory."""
        return p if rng.random() < .5 else os.path.relpath(p, work)

    def scenario(rec, l):
        rng, s = rec.rng, l['s']
        d, text = document(rng, s)
        work = tempfile.mkdtemp(dir=ctx.scratch)
        try:
            argv = []
            c, ask = s['cmd'], s['ask']
            tb = rng.choice(targets)
            meft, mb = rng.choice(matches)
            opts, prepare = [], None
            if c == 'convert':
                # the unknown formats: anything but the two names in upper or lower case
                argv = ['convert', ask if ask not in ('xml', 'wcxf') else rng.choice(UNKNOWN)]
            elif c == 'translate':
                argv = ['translate', {'known': tb, 'unknown': rng.choice(['nope', 'y ', 'warsaw up', 'my']), 'self': 'x'}[ask]]
            elif c == 'match':
                argv = ['match'] + {'known': [meft, mb], 'unknowneft': ['Z', 'x'],
                                    'unknownbasis': ['B', rng.choice(['nope', 'x ', 'my_basis'])]}[ask]
            elif c == 'validate':
                argv = ['validate', ask if ask not in ('EFT', 'file') else rng.choice(['EFT', 'file', 'Basis', 'WC', 'efts', 'e', 'bases', 'wcxf', ''])]
            elif c == 'nosuch':
                argv = ['dance']
            elif c == 'eos':
                opts = ['--eosprefix', prefix]
                if rng.random() < .25:
                    # without the option, the installation is the one in /usr
                    opts, prepare = [], lambda: cliutil.redirect('/usr/share/eos', os.path.join(prefix, 'share', 'eos'))
                if ask in ('home', 'nohome'):
                    home = os.path.join(work, rng.choice(HOMES))
                    os.makedirs(home, exist_ok=True)
                    if ask == 'home':
                        os.makedirs(os.path.join(home, 'parameters'))
                        if s['before'] == 'old':
                            with open(os.path.join(home, 'parameters', 'wcxf.yaml'), 'w') as f:
                                f.write('old: {central: 1.0, min: 1.0, max: 1.0}\n' * 200)
                    # the empty name is the working directory
                    opts += ['--eoshome', '' if home == os.path.join(work, '') else path(rng, work, home)]
                if ask == 'badoption':
                    opts += ['--nonsense', '1']
            elif c == 'smeftsim':
                cut = rng.choice(['2500.5', '1', '0.5', '100000', '3e6', '1e15', '999.999', '10000', '+750', '1.22e19', '246'])
                opts = {'mw': ['--input-scheme', 'mw'], 'B': ['--model-set', 'B'], 'scale': ['--cutoff-scale', cut],
                        'mwB': ['--model-set', 'B', '--input-scheme', 'mw'], 'badset': ['--model-set', 'C'],
                        'badscheme': ['--input-scheme', 'gf'], 'badscale': ['--cutoff-scale', rng.choice(['TeV', '1 TeV', '1,000', '', '1e', 'GeV'])]}.get(ask, [])
            if s['fmt'] != 'default':
                opts += ['--format', s['fmt'] if s['fmt'] != 'xml' else rng.choice(UNKNOWN)]
            outfile = None
            if s['out'] == 'full':
                opts += ['--output', '/dev/full']
            elif s['out'] == 'bare':
                opts += ['--output']
            elif s['out'] != 'stdout':
                outfile = os.path.join(work, {'default': 'wcxf2smeftsim_param_card.dat'}.get(s['name'], s['name'])
                                       if s['out'] == 'file' else 'no/such/dir')
                if s['name'] != 'default':
                    opts += ['--output', path(rng, work, outfile)]
                if s['before'] == 'old' and s['out'] == 'file':
                    with open(outfile, 'w') as f:
                        f.write('{"old": "contents"}\n' * 4000)
            stdin = ''
            if s['inp'] == 'stdin':
                stdin = text
            elif s['inp'] == 'dash':
                argv, stdin = argv + ['-'], text
            elif s['inp'] == 'file':
                p = os.path.join(work, rng.choice(['in.json', 'input file.yml', 'x', '$PATH', '~root', '[a]', 'a.json.yaml']))
                with open(p, 'w') as f:
                    f.write(text)
                argv = argv + [path(rng, work, p)]
            else:
                argv = argv + [os.path.join(work, 'missing.json')]
            if c == 'none':
                argv = []
            # an option without its argument comes last
            argv = opts + argv if c in ('eos', 'smeftsim') and s['out'] != 'bare' and rng.random() < .5 else argv + opts
            if ask == 'ignore':
                stdin = rng.choice(['i\n', 'I\n'])
            if ask == 'decline':
                stdin = rng.choice(['x\n', '\n', 'n\n', 'no\n', 'ii\n', 'ignore\n', 'II\n', 'q\ni\n', 'xi\n', '\ni\n', '1\n', 'j\n'])
            func = c if c in ('eos', 'smeftsim') else 'wcxf_cli'
            r = cliutil.fork_cli(ctx.scratch, func, argv, stdin, cwd=work, mode='pipe', prepare=prepare)
            what = dict(argv=argv, doc=s['doc'], syntax=s['syn'], status=r.status, err=r.err[-200:])
            rec.traces += 1
            if not l['any']:
                rec.check((r.status == 0) == l['ok'], 'exit status zero' if l['ok'] else 'exit status not zero', **what)
            if r.status != 0 or l['any']:
                rec.check('successful' not in r.stdout.lower(), 'no success message on failure', stdout=r.stdout[:200], **what)
                if l['any']:
                    rec.check(outfile is None or not os.path.exists(outfile) or 'block' not in open(outfile).read().lower(), 'no card if declined', **what)
                return
            if not l['ok']:
                return
            if outfile and not os.path.exists(outfile):
                rec.fail('the output file is written', **what)
                return
            out = open(outfile, encoding='utf-8').read() if outfile else r.stdout
            if c == 'validate':
                rec.check('successful' in r.stdout.lower(), 'success is reported', stdout=r.stdout[:200], **what)
            elif c == 'none':
                rec.check('usage' in r.stdout.lower(), 'help is printed', stdout=r.stdout[:200])
            elif c == 'smeftsim':
                o = w.WC(**json.loads(json.dumps(d)))
                model, scheme = ('B' if 'B' in ask else 'A'), ('mw' if 'mw' in ask else 'alpha')
                card = sim.smeftsim_card_fill(sim.initialize_smeftsim_card(model), o, model, float(cut) if ask == 'scale' else 1000, scheme)
                t = sim.smeftsim_card_text(model, scheme)
                b = io.StringIO()
                pylha.dump(card, fmt='lha', stream=b)
                try:
                    got = pylha.load(out)
                except Exception as e:
                    rec.fail('the output is a card', out=out[:200], error=repr(e)[:200], **what)
                    return
                rec.check(got == pylha.load(t[0] + b.getvalue() + t[1]), 'the card of the Python functions',
                          out=out[:200], **what)
            else:
                if ask == 'home':
                    p = os.path.join(home, 'parameters', 'wcxf.yaml')
                    if not rec.check(os.path.exists(p), 'the file in the EOS home is written', **what):
                        return
                    out = open(p).read()
                fmt = ask.lower() if c == 'convert' else 'yaml' if c == 'eos' else \
                    {'default': 'json', 'xml': ''}.get(s['fmt'], s['fmt'].lower())
                try:
                    got = json.loads(out) if fmt == 'json' else yaml.safe_load(out)
                except Exception as e:
                    rec.fail('the output is a %s document' % fmt, out=out[:300], error=str(e)[:200], **what)
                    return
                if fmt == 'yaml' and c != 'eos' and d:
                    # a real YAML document, not JSON
                    rec.check(not out.lstrip().startswith('{'), 'YAML output is YAML', out=out[:100], **what)
                if c == 'convert':
                    want = d
                elif c == 'eos':
                    o = w.WC(**json.loads(json.dumps(d)))
                    want = {k: dict(v) for k, v in eosmod.wcxf2eos(o, eosmod.get_sm_wcs(pdir)).items()}
                else:
                    o = w.WC(**json.loads(json.dumps(d)))
                    o = o.translate(tb) if c == 'translate' else o.match(meft, mb)
                    want = json.loads(o.dump())
                rec.check(json.loads(json.dumps(got)) == json.loads(json.dumps(want)),
                          'the output of the Python operation', got=got, want=want, **what)
        finally:
            shutil.rmtree(work, ignore_errors=True)

    def faults(l):
        s = l['s']
        return sum([s['doc'] != 'good', s['inp'] == 'nofile', s['out'] in ('nodir', 'full'), s['fmt'] == 'xml',
                    s['ask'] in ('unknown', 'self', 'unknowneft', 'unknownbasis', 'xml', 'wcxf', 'EFT', 'file', 'nohome',
                                 'badoption', 'badset', 'badscheme', 'badscale', 'nonuniversal')])
    single = [l for l in lines if faults(l) <= 1]
    multi = [l for l in lines if faults(l) > 1]
    if not ctx.thorough:
        single = [l for l in single if l['s']['name'] in ('result', 'default') and l['s']['before'] == 'new' or ctx.rng.random() < .3]
        multi = [l for l in multi if l['s']['name'] == 'result' and l['s']['before'] == 'new' or ctx.rng.random() < .15]
    todo = single * (6 if ctx.thorough else 1) + (multi * 3 if ctx.thorough else [l for l in multi if ctx.rng.random() < .3])
    todo += [l for l in single if l['s']['ask'] == 'home' and not faults(l)] * 2
    ctx.extra['scenarios_replayed'] = len(todo)
    ctx.sample(single[7])
    vlib.parallel(ctx, scenario, todo, chunks_per_proc=6)

    # the same in fresh interpreters, as the installed commands run
    def fresh(rec, it):
        name, argv, stdin, ok, needle = it
        p = subprocess.run([vlib.PY, '-B', '-W', 'ignore', '-c',
                            'import sys; sys.path.insert(0, %r); from wcxf.cli import %s; sys.exit(%s())'
                            % (vlib.REPO, name, name)] + argv, input=stdin.encode(), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, cwd=ctx.scratch, timeout=300)
        out = p.stdout.decode()
        rec.check((p.returncode == 0) == ok, 'exit status in a fresh process', argv=argv, status=p.returncode,
                  err=p.stderr.decode()[-300:])
        rec.check(not needle or needle in out, 'output in a fresh process', argv=argv, out=out[:300])
        rec.check(ok or 'successful' not in out.lower(), 'no success message on failure', argv=argv, out=out[:300])
        rec.traces += 1
    jms = json.dumps({'eft': 'WET', 'basis': 'JMS', 'scale': 4.8, 'values': {'VedLL_2223': 1e-9, 'dgamma_23': {'Im': 1e-9}}})
    cases = [
        ('wcxf_cli', ['convert', 'yaml'], jms, True, 'basis: JMS'), ('wcxf_cli', ['convert', 'json'], 'a: 1\n', True, '"a": 1'),
        ('wcxf_cli', ['convert', 'json', '-'], 'a: [', False, ''), ('wcxf_cli', ['convert', 'toml'], jms, False, ''),
        ('wcxf_cli', ['translate', 'FlavorKit'], jms, True, '"FlavorKit"'), ('wcxf_cli', ['translate', 'nope'], jms, False, ''),
        ('wcxf_cli', ['match', 'WET-9', 'JMS'], jms, False, ''),
        ('wcxf_cli', ['validate', 'eft'], '{"eft": "x", "sectors": {}}', True, 'Validation successful'),
        ('wcxf_cli', ['validate', 'wc'], json.dumps({'eft': 'no', 'basis': 'no', 'scale': 1, 'values': {}}), False, ''),
        ('wcxf_cli', ['validate', 'thing'], '{}', False, ''), ('wcxf_cli', ['validate', 'wc'], '{', False, ''),
        ('wcxf_cli', [], '', True, 'usage'), ('wcxf_cli', ['--help'], '', True, 'usage'),
        ('eos', ['--help'], '', True, 'usage'), ('smeftsim', ['--help'], '', True, 'usage'),
        ('smeftsim', [os.path.join(ctx.scratch, 'missing')], '', False, ''), ('eos', ['--eoshome', '/nonexistent'], jms, False, '')]
    vlib.parallel(ctx, fresh, cases)
