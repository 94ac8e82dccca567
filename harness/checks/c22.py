"""C22: printed tables show exactly the object (Render.tla)."""
import json
import re
import vlib

TEX = [r'\alpha', r'(\bar s \gamma_\mu b)(\bar\mu\gamma^\mu\mu)', 'x_{1}', r'a\%b', '{0}', '%s']
NAMES = ['C9_bsmumu', 'phil1_11', 'a b', "C9p", 'x%s', '{}', 'Re', '1', '\u03b1']


def parse_rows(text):
    """Rows (lists of cells) of the markdown tables, header and rule excluded."""
    out = []
    for line in text.splitlines():
        if line.startswith('|') and not re.match(r'^\|[-| ]+\|$', line):
            out.append([c.strip() for c in line.strip().strip('|').split(' | ')])
    return out


def parse_basis(text):
    """[(sector, [(name, tex, type)])] from the printed basis."""
    out, table = [], False
    for line in text.splitlines():
        m = re.match(r'^###\s+`(.*)`\s*$', line)
        if m:
            out.append((m.group(1), []))
            table = False
            continue
        if re.match(r'^\|[-:| ]+\|$', line):
            table = True
            continue
        if line.startswith('|') and table and out:
            m = re.match(r'^\| `(.*)` \| \$(.*)\$ \| (.*) \|\s*$', line)
            out[-1][1].append(m.groups() if m else ('<unparsable>', line, ''))
    return out


def run(ctx):
    w = vlib.import_wcxf()
    cases, _ = ctx.emit_lines('Render')
    if not ctx.thorough:
        cases = [c for c in cases if ctx.rng.random() < .35]
    ctx.sample(cases[-1])
    ctx.extra['scenarios'] = len(cases)

    def do_basis(rec, c):
        rng = rec.rng
        names = rng.sample(NAMES, len(NAMES)) + ['n%d' % i for i in range(8)]
        sectors, expect, rows = {}, [], list(c['rows'])
        snames = rng.sample(['sb', 'my sector', 'dF=0', 's_1', 'x'], 5)
        for i, sec in enumerate(c['secs']):
            d, er = {}, []
            for j, kind in enumerate(sec):
                n = names.pop()
                tex = rng.choice(TEX)
                d[n] = {'none': None, 'empty': {}, 'real': {'real': True}, 'notreal': {'real': False},
                        'tex': {'tex': tex}, 'textreal': {'tex': tex, 'real': True},
                        'texnot': {'real': False, 'tex': tex}}[kind]
                row = rows.pop(0)
                er.append((n, tex if row['tex'] == 'code' else '', row['type']))
            sectors[snames[i]] = d
            expect.append((snames[i], er))
        desc = rec.rng.choice(['A *description* of it.', '  indented\n\n    code', 'ends with blanks  ', 'two\nlines\n', 'x', '{} %s {0}', '\u00e9 | x', 'A  B', 'long ' * 200,
                               '# Heading', 'tab\there'])
        kw = {'absent': {}, 'nodescription': {'metadata': {'x': 'y'}},
              'description': {'metadata': {'description': desc}}}[c['meta']]
        b = w.Basis('MyEFT', 'MyBasis', sectors, **kw)
        snap = json.dumps(b.sectors)
        for text in (str(b), '{}'.format(b)):
            got = parse_basis(text)
            rec.check([(s, [tuple(x) for x in r]) for s, r in got] == expect, 'sections and rows of a basis',
                      expected=expect, got=got)
            head = text.split('## Sectors')[0] if '## Sectors' in text else text
            rec.check('`MyBasis`' in head and '`MyEFT`' in head, 'names in the printed basis', got=head)
            rec.check((desc in head) == (c['meta'] == 'description'),
                      'description in the printed basis', meta=c['meta'], got=head)
        md = b._repr_markdown_()
        rec.check('`MyBasis`' in md and '`MyEFT`' in md, 'notebook form of the basis')
        rec.check('MyBasis' in repr(b) and 'MyEFT' in repr(b), 'repr of the basis')
        rec.check(json.dumps(b.sectors) == snap, 'printing changes nothing')
        rec.traces += 1

    vlib.parallel(ctx, do_basis, cases)

    def do_wc(rec, k):
        rng = rec.rng
        names = rng.sample(NAMES + ['n%d' % i for i in range(30)], k % 20)
        val = lambda: rng.choice([rng.uniform(-1, 1), 0.0, 1e-300, 5, '1e-3', {'Re': rng.random(), 'Im': -rng.random()},
                                  {'Im': 2.5}, {'Re': 1}, 1e22, -3.5e-7])
        values = {n: val() for n in names}
        scale = rng.choice([160, 91.1876, 4.8, 1e3, 91.18761234567891, 1234567.5, 1e-7, 1e22, 4.180000000000001])
        o = w.WC('MyEFT', 'MyBasis', scale, values)
        for text in (str(o), o._repr_markdown_()):
            head, _, tab = text.partition('| WC name')
            rows = parse_rows(text)[1:]
            ok = len(rows) == len(names)
            for r, n in zip(rows, names):
                try:
                    ok = ok and len(r) == 2 and r[0] == '`%s`' % n and \
                        complex(r[1].replace(' ', '')) == complex(o.dict[n])
                except ValueError:
                    ok = False
            rec.check(ok, 'rows of a Wilson coefficient object', values=values, got=rows)
            nums = re.findall(r'[-+]?\d+\.?\d*(?:[eE][-+]?\d+)?', head)
            rec.check('`MyEFT`' in head and '`MyBasis`' in head and any(float(x) == scale for x in nums),
                      'EFT, basis and scale are printed', got=head)
        rec.check('MyEFT' in repr(o) and 'MyBasis' in repr(o) and str(float(scale)) in repr(o), 'repr', got=repr(o))
        rec.check(list(o.values) == names, 'printing changes nothing')
        rec.traces += 1

    vlib.parallel(ctx, do_wc, range(2000 if ctx.thorough else 300))
    ctx.assumptions += ['names contain no backticks, pipes or line breaks']
