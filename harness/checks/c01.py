"""C01: dumping and loading a WCxf object loses and invents nothing (Docs.tla)."""
import copy
import io
import json
import os
import yaml
import vlib
import docs

FIXED = {'WC': ['eft', 'basis', 'scale', 'values'], 'EFT': ['eft', 'sectors'],
         'Basis': ['eft', 'basis', 'sectors']}
EXTRA = ['metadata', 'description', 'x', 'Title', 'e_', 'a b', 'note', 'URL', 'ID', 'a__b', 'x_', '1', '\u00e9', 'a-b', 'class', 'None',
         'generator', 'camelCase', 'X', 'a.b', 'long_' * 20, 'name', 'fmt', 'stream', 'version2']


class Readable(io.TextIOBase):
    """A stream that can be read once, from the beginning to the end."""
    def __init__(self, text):
        self.rest = text

    def readable(self):
        return True

    def read(self, size=-1):
        n = len(self.rest) if size is None or size < 0 else size
        t, self.rest = self.rest[:n], self.rest[n:]
        return t

    def readline(self, size=-1):
        n = self.rest.find('\n') + 1 or len(self.rest)
        return self.read(n if size is None or size < 0 else min(n, size))


def run(ctx):
    w = vlib.import_wcxf()
    trees, routes = docs.generate(ctx)
    ctx.extra['trees'] = len(trees)
    ctx.sample(trees[0])
    ctx.sample(routes[-1])
    plain = [r for r in routes if not any(o.startswith('hand') for o in r['ops'])]
    jobs = list(trees) * (6 if ctx.thorough else 1)

    def registry():
        return {c: list(getattr(getattr(w, c), 'instances', {}).items()) for c in
                ('EFT', 'Basis', 'Translator', 'Matcher')}

    def make_fields(rng, kind, tree):
        """Fields of an object of the given kind with the tree somewhere inside."""
        x = docs.concrete(tree, rng)
        name = rng.choice(['A', 'WET', 'yes', '1', 'n:\u00e9'])
        d = {'eft': name}
        if kind != 'EFT':
            d['basis'] = rng.choice(['x', 'Warsaw up', '2', 'null'])
        where = rng.choice(['extra', 'main'])
        # only `values` of a WC are free-form; sectors are mappings
        main = x if where == 'main' and isinstance(x, dict) else {'c1': x} if where == 'main' else {}
        if kind == 'WC':
            d['scale'] = rng.choice([160.0, 91.1876, 1e-3, 1e16, 5.0, 91.18761234567891, 1 / 3., 1e-12, 1e22, 4.180000000000001])
            d['values'] = main
        else:
            d['sectors'] = {'s': main} if rng.random() < .5 else main
        if where == 'extra':
            d[rng.choice(EXTRA)] = x
        if rng.random() < .3:
            d.setdefault(rng.choice(EXTRA), docs.concrete(tree, rng))
        return d

    def fields(o, names):
        return {k: getattr(o, k, '<missing>') for k in names}

    def write(rng, o, fmt):
        """Dump to string, StringIO or a file, with some layout options."""
        kw = {}
        if rng.random() < .4:
            kw = rng.choice([{'indent': 4}, {'indent': 1}, {'sort_keys': True}, {'indent': None}, {'indent': '\t'}, {'ensure_ascii': False}]) if fmt == 'json' else \
                rng.choice([{'indent': 4}, {'width': 40}, {'allow_unicode': True}, {'explicit_start': True}])
        mode = rng.choice(['str', 'str2', 'io', 'file'])
        if mode == 'str':
            return o.dump(fmt=fmt, **kw)
        if mode == 'str2':
            return o.dump(None, fmt, **kw) if fmt == 'yaml' or rng.random() < .5 else o.dump(**kw)
        if mode == 'io':
            s = io.StringIO()
            o.dump(s, fmt, **kw)
            return s.getvalue()
        p = os.path.join(ctx.scratch, 'f%d' % os.getpid())
        with open(p, 'w', encoding='utf-8', newline='') as f:
            o.dump(stream=f, fmt=fmt, **kw)
        with open(p, encoding='utf-8', newline='') as f:
            return f.read()

    def read(rng, cls, text):
        if rng.random() < .5:
            return cls.load(text)
        kind = rng.choice(['text', 'text', 'read', 'rest', 'binary', 'pipe'])
        if kind == 'text':
            return cls.load(io.StringIO(text))
        if kind == 'read':               # nothing but a read method
            return cls.load(Readable(text))
        if kind == 'rest':               # the rest of a file
            s = io.StringIO('other: text\n' + text)
            s.readline()
            return cls.load(s)
        if kind == 'binary':
            return cls.load(io.BytesIO(text.encode('utf-8')))
        if len(text) > 4000:
            return cls.load(text)
        r, wr = os.pipe()
        with open(wr, 'w', encoding='utf-8', newline='') as f:
            f.write(text)
        with open(r, encoding='utf-8', newline='') as f:
            return cls.load(f)

    def convert(rng, text, to):
        """Independent re-writing of the text in the other format."""
        if to == 'yaml':
            return yaml.safe_dump(json.loads(text), default_flow_style=rng.choice([True, False]),
                                  allow_unicode=rng.choice([True, False]))
        return json.dumps(yaml.safe_load(text), indent=rng.choice([None, 3, '\t', '']), ensure_ascii=rng.choice([True, False]))

    def handwritten(rng, want, fmt):
        text = (docs.hand_yaml if fmt == 'yaml' else docs.hand_json)(rng, want)
        if text is not None and fmt == 'yaml':      # (a file that is JSON as well is read as JSON)
            try:
                return text if docs.same(json.loads(text), want) else None
            except ValueError:
                pass
        return text

    def spoil(rng, o, names):
        """The user changes everything in an object."""
        def deep(x):
            if isinstance(x, dict):
                for v in x.values():
                    deep(v)
                for k in list(x)[::2]:
                    x[k] = 'changed'
                x['changed'] = 4711
            elif isinstance(x, list):
                for v in x:
                    deep(v)
                x.append('changed')
        for k in names:
            deep(getattr(o, k, None))
        o.changed = True

    def do(rec, tree):
        rng = rec.rng
        if 'kind' in tree:
            kind = {'wc': 'WC', 'eft': 'EFT', 'basis': 'Basis'}[tree['kind']]
            d = docs.concrete(tree['v'], rng)
            if kind == 'Basis':
                d.pop('parent', None)     # what a child inherits: C06
        else:
            kind = rng.choice(['WC', 'WC', 'EFT', 'Basis', 'Basis'])
            d = make_fields(rng, kind, tree)
        cls = getattr(w, kind)
        want = copy.deepcopy(d)
        o = cls(**d)
        route = rng.choice(routes if rng.random() < .4 else plain)['ops']
        text, objs, intact = None, [o], [o]
        if kind == 'WC':
            before = registry()
        for op in route:
            if op in ('dumpjson', 'dumpyaml'):
                fmt = op[4:]
                text = write(rng, intact[-1], fmt)
                if not rec.check(isinstance(text, str), 'dump gives text', kind=kind, fmt=fmt):
                    return
                try:
                    doc = json.loads(text) if fmt == 'json' else yaml.safe_load(text)
                except Exception as e:
                    rec.fail('the dumped document is well formed', fmt=fmt, error=str(e), text=text[:300])
                    return
                if not rec.check(docs.same(doc, want), 'the document has exactly the fields of the object',
                                 kind=kind, fmt=fmt, expected=want, got=doc):
                    return
            elif op == 'load':
                n = read(rng, cls, text)
                rec.check(type(n) is cls, 'the loaded object is of the same kind')
                got = fields(n, want)
                if not rec.check(docs.same(got, want), 'the loaded object has the same fields',
                                 kind=kind, expected=want, got=got, text=text[:300]):
                    return
                objs.append(n)
                intact.append(n)
            elif op in ('handjson', 'handyaml'):
                t = handwritten(rng, want, op[4:])
                text = t or (json.dumps(want) if op == 'handjson' else yaml.safe_dump(want, default_flow_style=False))
            elif op == 'spoil':
                spoil(rng, objs[-1], want)
                intact.pop()
            else:
                text = convert(rng, text, 'yaml' if op == 'toyaml' else 'json')
            for x in intact:
                rec.check(docs.same(fields(x, want), want), 'objects are unchanged by dumping, loading and changes of others', op=op,
                          route=route)
        if kind == 'WC':
            rec.check(registry() == before, 'dumping and loading WCs leaves the registries alone')
        r = vlib.outcome(o.dump, fmt=rng.choice(['toml', '', 'xml', 'jsonx', 'yml', 'yaml ', ' json', 'json5', 'yam', 'js', 'json-yaml', 'YML', 'text']))
        rec.check(r[0] == 'raise' and r[1] == 'ValueError', 'an unknown format is refused', got=repr(r)[:200])
        rec.traces += 1

    vlib.parallel(ctx, do, jobs)
    # files of the three kinds with every field of every shape; names are text and the required fields are there
    def usable(x):
        if x['kind'] == 'wc':
            return x['field'] in ('values', 'metadata')
        return x['field'] == 'metadata' or x['field'] == 'sectors'
    wdocs = [x for x in ctx.wcxf_docs if usable(x) and set(FIXED[{'wc': 'WC', 'eft': 'EFT', 'basis': 'Basis'}[x['kind']]])
             <= {k for k, _ in x['v']['v']}]
    ctx.extra['wcxf_documents'] = len(wdocs)
    vlib.parallel(ctx, do, wdocs * (8 if ctx.thorough else 2))

    # files that people wrote: any layout of the data
    def do_hand(rec, tree):
        rng = rec.rng
        kind = rng.choice(['WC', 'WC', 'EFT', 'Basis'])
        want = make_fields(rng, kind, tree)
        for fmt in ('yaml', 'json'):
            text = handwritten(rng, want, fmt)
            if text is None:
                continue
            got = vlib.outcome(lambda: fields(read(rng, getattr(w, kind), text), want))
            rec.check(got[0] == 'ok' and docs.same(got[1], want), 'a file loads to what it states, in any layout', kind=kind,
                      expected=want, got=repr(got)[:600], text=text[:600])
            rec.traces += 1

    vlib.parallel(ctx, do_hand, jobs)

    # objects that have been used: no cached or private state in the file
    def do_used(rec, k):
        rng = rec.rng
        w.EFT.clear_all()
        w.Basis.clear_all()
        num = lambda: rng.choice([1.0, -2, 0.0, {'Re': 1.0, 'Im': 2.0}, {'Im': 0.5}, '1e-3', 1e-300, 3])
        e = {'eft': 'E', 'sectors': {'s': {}, 't': {'a': 1}}}
        par = {'eft': 'E', 'basis': 'P', 'sectors': {'s': {'p': None, 'q': {'tex': 'x'}}}}
        ch = {'eft': 'E', 'basis': 'C', 'parent': 'P', 'sectors': {'t': {'r': {'real': True}}}}
        wc = {'eft': 'E', 'basis': 'C', 'scale': 160.0, 'values': {c: num() for c in 'pqr'[:rng.randint(0, 3)]}}
        full = dict(ch, sectors={'s': par['sectors']['s'], 't': ch['sectors']['t']})
        objs = [(w.EFT(**copy.deepcopy(e)), e), (w.Basis(**copy.deepcopy(par)), par),
                (w.Basis(**copy.deepcopy(ch)), full), (w.WC(**copy.deepcopy(wc)), wc)]
        w.translator('E', 'C', 'P')(lambda C, s, p: dict(C))
        w.matcher('E', 'C', 'F', 'x')(lambda C, s, p: dict(C))
        uses = [lambda o: o.dump(), lambda o: repr(o), lambda o: str(o)]
        for o, want in objs:
            extra = {'EFT': [lambda o: o.known_bases, lambda o: o.known_translators],
                     'Basis': [lambda o: o.all_wcs, lambda o: o.known_translators, lambda o: o.validate()],
                     'WC': [lambda o: o.dict, lambda o: o.validate(), lambda o: o.translate('P'),
                            lambda o: o.match('F', 'x')]}[type(o).__name__]
            for _ in range(4):
                u = rng.choice(uses + extra)
                u(o)
                fmt = rng.choice(['json', 'yaml'])
                text = o.dump(fmt=fmt)
                doc = json.loads(text) if fmt == 'json' else yaml.safe_load(text)
                rec.check(docs.same(doc, want), 'the document of a used object has exactly its public fields',
                          kind=type(o).__name__, expected=want, got=doc)
                if type(o).__name__ == 'WC':
                    n = w.WC.load(text)
                    rec.check(n.dict == o.dict and n.scale == o.scale, 'numbers survive')
        rec.traces += 1

    vlib.parallel(ctx, do_used, range(600 if ctx.thorough else 120))

    # long files
    def do_long(rec, fmt):
        rng = rec.rng
        n = {'json': 60000, 'yaml': 2500}[fmt]
        d = {'eft': 'E', 'basis': 'b', 'scale': 91.1876,
             'values': {'c%d' % i: {'Re': rng.gauss(0, 1), 'Im': rng.gauss(0, 1)} if i % 2 else rng.gauss(0, 1) for i in range(n)},
             'metadata': {'text': 'x' * 70000, 'last': 1}}
        s = io.StringIO()
        w.WC(**copy.deepcopy(d)).dump(s, fmt)
        s.seek(0)
        got = vlib.outcome(lambda: fields(w.WC.load(s), d))
        rec.check(got[0] == 'ok' and docs.same(got[1], d), 'a long file survives', fmt=fmt, length=len(s.getvalue()), got=repr(got)[:200])
        rec.traces += 1

    vlib.parallel(ctx, do_long, ['json', 'yaml'])
    ctx.assumptions += ['fields are JSON data with text keys; text without lone surrogates; '
                        'dates are not JSON data', 'YAML flow style (an option) is not covered with null']
