"""C06: a child basis inherits from its parent without touching it."""
import copy
import json
import vlib
import reg


def run(ctx):
    w = vlib.import_wcxf()

    # before anything was ever defined
    def first():
        r = vlib.outcome(lambda: w.Basis('A', 'c', {'s': {'p': None}}, parent='x'))
        return r[:2], vlib.outcome(lambda: w.Basis['A', 'c'])[0], vlib.outcome(lambda: w.Basis('A', 'x', {'s': {'q': None}}).all_wcs)
    r = vlib.forked(first)
    ctx.check(r[0] == 'ok' and r[1] == (('raise', 'ValueError'), 'raise', ('ok', ['q'])), 'a child where no basis was ever defined', got=repr(r))
    states, edges, behs = reg.generate(ctx, full=ctx.thorough,
                                       simulate=400 if ctx.thorough else 60, depth=40)
    edges = [l for l in edges if l['act']['op'] == 'basis']
    if not ctx.thorough:   # the parentless ones are covered by C05
        edges = [l for l in edges if l['act']['parent'] or ctx.rng.random() < .2]
    ctx.extra['edges_replayed'] = len(edges)
    ctx.extra['behaviours_replayed'] = len(behs)
    ctx.sample(edges[len(edges) // 3])

    def content(o):
        return json.dumps({s: o.sectors[s] for s in sorted(o.sectors)}, sort_keys=True)

    def do_edge(rec, l):
        pre, post, a = reg.nstate(l['from']), reg.nstate(l['to']), l['act']
        objs = reg.build(w, rec.rng, pre)
        if rec.rng.random() < .5:      # the parent may have been used before
            for o in objs.values():
                o.all_wcs
        before = {k: content(o) for k, o in objs.items()}
        wcs = {k: sorted(o.all_wcs) for k, o in objs.items()} if rec.rng.random() < .5 else {}
        key = '%s:%s' % (a['eft'], a['basis'])
        doc = reg.basis_doc(rec.rng, a['eft'], a['basis'], a['parent'],
                            {s: frozenset(c) for s, c in reg.norm(a['sec']).items()})
        given = copy.deepcopy(doc)
        mode = rec.rng.choice(['new', 'json', 'yaml', 'kwargs'])
        if mode == 'new':
            f = lambda: w.Basis(**given)
        elif mode == 'kwargs':
            f = lambda: w.Basis(given['eft'], given['basis'], given['sectors'],
                                **{k: v for k, v in given.items() if k not in ('eft', 'basis', 'sectors')})
        else:
            txt = json.dumps(doc) if mode == 'json' else reg.yaml_text(doc)
            f = lambda: w.Basis.load(txt)
        r = vlib.outcome(f)
        out = 'ok' if r[0] == 'ok' else r[1]
        rec.check(out == a['out'], 'outcome of defining a child', act=a, got=repr(r), state=reg.show(pre))
        reg.same(rec, 'bases after defining a child', reg.observe(w), post, act=a, before=reg.show(pre))
        rec.check(given == doc, 'the data given to the child are unchanged', act=a)
        for k, o in objs.items():
            rec.check(content(o) == before[k], 'parent and other bases are unchanged', act=a, basis=k,
                      before=before[k], after=content(o))
            if k in wcs:
                rec.check(sorted(o.all_wcs) == wcs[k], 'coefficients of other bases are unchanged',
                          act=a, basis=k)
        if out == 'ok' and a['out'] == 'ok':
            o = r[1]
            want = sorted(c for cs in post['bases'][key].values() for c in cs)
            rec.check(sorted(o.all_wcs) == want, 'coefficients of the child', act=a,
                      got=sorted(o.all_wcs), expected=want)
            rec.check(reg.basis(w, (a['eft'], a['basis'])) is o, 'the child is registered', act=a)
            got = {k: v for k, v in vars(o).items() if k[0] != '_' and k != 'sectors'}
            rec.check(got == {k: v for k, v in doc.items() if k != 'sectors'}, 'apart from the sectors the child has what it was given', act=a,
                      given=doc, got=got)
            # definitions inside the sectors: own ones from the file, others the parent's
            for s in o.sectors:
                src = doc['sectors'][s] if s in doc['sectors'] else \
                    json.loads(before['%s:%s' % (a['eft'], a['parent'])])[s]
                rec.check(json.loads(json.dumps(o.sectors[s])) == src, 'definitions in a sector of the child',
                          act=a, sector=s)
        rec.traces += 1

    vlib.parallel(ctx, do_edge, edges)

    # parents of any name, defined or not, with fields of their own
    def do_name(rec, name):
        rng = rec.rng
        reg.clear(w)
        other = rng.choice(['P', 'x', 'None', name + ' ', ' ' + name, name.upper() + '_'])
        other = other if other != name else 'Q'
        w.EFT('A', {'s': {}, 't': {}, 'u': {}})
        extra = {'metadata': {'description': 'of the parent'}, 'doi': '1', 'list': [1]}
        w.Basis('A', other, {'s': {'other': None}}, **extra)
        w.Basis('B', name, {'s': {'B': None}}, **extra)
        own, par = rng.choice([({}, {}), ({}, {'s': {}}), ({'s': {}}, {}), ({'s': {}}, {'s': {'p': None}}), ({}, {'s': {'p': {}}, 't': {}})])
        w.Basis('A', 'empty', dict(par))
        r = vlib.outcome(reg.make, w, rng, 'Basis', {'eft': 'A', 'basis': 'of empty', 'parent': 'empty', 'sectors': own})
        rec.check(r[0] == 'ok' and r[1].sectors == dict(par, **own), 'a child with few or no sectors', own=own, parent=par, got=repr(r))
        del w.Basis['A', 'empty'], w.Basis['A', 'of empty']
        doc = {'eft': 'A', 'basis': 'child', 'parent': name, 'sectors': {'t': {'c': {'real': True}}}}
        if rng.random() < .5:
            doc['metadata'] = {'description': 'of the child'}
        r = vlib.outcome(reg.make, w, rng, 'Basis', doc)
        rec.check(r[0] == 'raise' and r[1] == 'ValueError' and set(w.Basis.instances) == {('A', other), ('B', name)},
                  'an undefined parent is refused', parent=name, got=repr(r), registered=list(w.Basis.instances))
        w.Basis('A', name, {'s': {'p': None}, 't': {'q': {'tex': 'x'}}, 'u': {}}, **extra)
        r = vlib.outcome(reg.make, w, rng, 'Basis', doc)
        if rec.check(r[0] == 'ok', 'a defined parent is found', parent=name, got=repr(r)):
            o = r[1]
            got = {k: v for k, v in vars(o).items() if k[0] != '_'}
            want = dict(doc, sectors={'s': {'p': None}, 't': {'c': {'real': True}}, 'u': {}})
            rec.check(json.loads(json.dumps(got)) == want, 'fields of the child', parent=name, got=got, expected=want)
            p = w.Basis['A', name]
            rec.check({k: v for k, v in vars(p).items() if k[0] != '_'}
                      == dict(extra, eft='A', basis=name, sectors={'s': {'p': None}, 't': {'q': {'tex': 'x'}}, 'u': {}}),
                      'the parent keeps its fields', parent=name)
        rec.traces += 1

    vlib.parallel(ctx, do_name, ['', ' ', '0', 'False', 'None', 'null', 'Warsaw', 'Warsaw up', 'a/b', '..', 'child ', 'Child', '\u00e9', 'x' * 300,
                                 '%s', '{}', '\n', '*', 'A', 'sectors'] * (5 if ctx.thorough else 2))

    def do_beh(rec, steps):
        reg.clear(w, rec.rng)
        for l in steps:
            a = l['act']
            out, _ = reg.act(w, rec.rng, a)
            rec.check(out == a['out'], 'outcome in a behaviour', act=a, got=out)
            st = reg.nstate(l['v']['state'])
            if not reg.same(rec, 'bases in a behaviour', reg.observe(w), st, act=a):
                return
            for k, cs in reg.norm(l['v']['wcs']).items():
                o = reg.basis(w, k)
                names = sorted(c for x in st['bases'][k].values() for c in x)
                rec.check(sorted(o.all_wcs) == names and set(o.all_wcs) == set(cs),
                          'coefficients in a behaviour', basis=k, got=o.all_wcs, expected=names)
        rec.traces += 1

    vlib.parallel(ctx, do_beh, behs)
