"""C05: registries tell exactly what is defined (Registry.tla and Dispatch.tla)."""
import vlib
import reg
import disp


def run(ctx):
    w = vlib.import_wcxf()
    shipped = {'Translator': dict(getattr(w.Translator, 'instances', {})),
               'Matcher': dict(getattr(w.Matcher, 'instances', {}))}
    ctx.check(len(shipped['Translator']) > 0 and len(shipped['Matcher']) > 0,
              'the shipped translators and matchers are registered')
    for k in shipped['Translator']:
        ctx.check(w.Translator[k] is shipped['Translator'][k], 'look-up of a shipped translator', key=k)
    for k in shipped['Matcher']:
        ctx.check(w.Matcher[k] is shipped['Matcher'][k], 'look-up of a shipped matcher', key=k)
    # EFT and basis registries: every transition of the specification
    states, edges, behs = reg.generate(ctx, full=ctx.thorough,
                                       simulate=400 if ctx.thorough else 60, depth=40)
    ctx.extra['edges_replayed'] = len(edges)
    ctx.extra['behaviours_replayed'] = len(behs)
    ctx.sample(edges[len(edges) // 2])
    ctx.sample([l['act'] for l in behs[0]])

    def do_edge(rec, l):
        pre, post = reg.nstate(l['from']), reg.nstate(l['to'])
        reg.build(w, rec.rng, pre)
        if not reg.same(rec, 'registered definitions are found as defined', reg.observe(w), pre):
            return
        out, _ = reg.act(w, rec.rng, l['act'])
        rec.check(out == l['act']['out'], 'outcome of the operation', act=l['act'], got=out,
                  state=reg.show(pre))
        reg.same(rec, 'registry contents after the operation', reg.observe(w), post, act=l['act'])
        rec.traces += 1

    vlib.parallel(ctx, do_edge, edges)

    def do_state(rec, v):
        st = reg.nstate(v['state'])
        objs = reg.build(w, rec.rng, st)
        for k, o in objs.items():
            key = tuple(k.split(':'))
            rec.check(reg.basis(w, key) is o and
                      w.Basis.get_instance((reg.NM.e[key[0]], reg.NM.b[key[1]])) is o,
                      'look-up returns the most recent definition', key=k)
        for e, bs in reg.norm(v['known']).items():
            kb = w.EFT[reg.NM.e[e]].known_bases
            bs = [reg.NM.b[b] for b in bs]
            rec.check(sorted(kb) == sorted(bs), 'known bases of an EFT', eft=reg.NM.e[e], got=kb,
                      expected=bs, state=reg.show(st))
        for e, b in [('A', 'x'), ('A', 'y'), ('B', 'x'), ('B', 'y'), ('C', 'x'), ('a', 'x'), ('A', 'w')]:
            if '%s:%s' % (e, b) not in st['bases']:
                r = vlib.outcome(lambda: reg.basis(w, (e, b)))
                rec.check(r[0] == 'raise' and r[1] in ('KeyError', 'AttributeError'),
                          'look-up of an undefined basis raises', key=(e, b), got=repr(r))
        rec.traces += 1

    vlib.parallel(ctx, do_state, states)

    def do_beh(rec, steps):
        reg.clear(w, rec.rng)
        for l in steps:
            if l['act']['op'] != 'init':
                out, _ = reg.act(w, rec.rng, l['act'])
                rec.check(out == l['act']['out'], 'outcome in a behaviour', act=l['act'], got=out)
            st = reg.nstate(l['v']['state'])
            if not reg.same(rec, 'registry contents in a behaviour', reg.observe(w), st, act=l['act']):
                return
            for e, bs in reg.norm(l['v']['known']).items():
                kb = w.EFT[reg.NM.e[e]].known_bases
                rec.check(sorted(kb) == sorted(reg.NM.b[b] for b in bs), 'known bases in a behaviour',
                          eft=reg.NM.e[e], got=kb, expected=[reg.NM.b[b] for b in bs])
        rec.traces += 1

    vlib.parallel(ctx, do_beh, behs)

    # translators and matchers
    dstates, dedges, dbehs = disp.generate(ctx, simulate=300 if ctx.thorough else 40, depth=40)
    ctx.extra['dispatch_edges_replayed'] = len(dedges)

    def dedge(rec, l):
        disp.build(w, l['trans'], l['match'], rec.rng)
        got = disp.observe(w)
        if not rec.check(got == disp.reg(l['trans'], l['match']),
                         'registered translators and matchers are found', got=got):
            return
        out = disp.act(w, rec.rng, l['act'])
        rec.check(out == l['act']['out'], 'outcome of a translator/matcher operation',
                  act=l['act'], got=out)
        got = disp.observe(w)
        rec.check(got == disp.reg(l['trans2'], l['match2']),
                  'translator/matcher registries after the operation', act=l['act'], got=got)
        rec.traces += 1

    vlib.parallel(ctx, dedge, dedges)

    def dstate(rec, v):
        disp.build(w, v['trans'], v['match'], rec.rng)
        disp.known(w, rec, v)
        rec.traces += 1

    vlib.parallel(ctx, dstate, dstates)

    def dbeh(rec, steps):
        disp.build(w, [], [], rec.rng)
        held = {}
        for l in steps:
            if l['act']['op'] != 'init':
                out = disp.act(w, rec.rng, l['act'])
                rec.check(out == l['act']['out'], 'outcome in a translator behaviour', act=l['act'], got=out)
            got = disp.observe(w)
            if not rec.check(got == disp.reg(l['v']['trans'], l['v']['match']),
                             'registries in a translator behaviour', act=l['act'], got=got):
                return
            if rec.rng.random() < .6:        # not after every step: what was listed last may be old
                disp.known(w, rec, l['v'], held)
        rec.traces += 1

    vlib.parallel(ctx, dbeh, dbehs)
    # the same operations with many definitions
    def many(rec, n):
        rng = rec.rng
        for c in (w.EFT, w.Basis, w.Translator, w.Matcher):
            c.clear_all()
        efts = ['E%d' % i for i in range(max(2, n // 40))]
        keys = [(rng.choice(efts), 'b%d' % i) for i in range(n)]
        tkeys = [(e, b, 'b%d' % rng.randint(0, n)) for e, b in keys]
        mkeys = [(e, b, rng.choice(efts), 'b%d' % rng.randint(0, n)) for e, b in keys]
        model = {'EFT': {}, 'Basis': {}, 'Translator': {}, 'Matcher': {}}
        ops = [('EFT', e, lambda e: w.EFT(e, {})) for e in efts + ['F%d' % i for i in range(n)]]
        ops += [('Basis', k, lambda k: w.Basis(k[0], k[1], {})) for k in keys]
        ops += [('Translator', k, lambda k: w.Translator(*(k + (disp.keep,)))) for k in tkeys]
        ops += [('Matcher', k, lambda k: w.Matcher(*(k + (disp.keep,)))) for k in mkeys]
        rng.shuffle(ops)
        for c, k, f in ops:
            model[c][k] = f(k)
            if rng.random() < .1:
                d, kk = rng.choice([(d, kk) for d in model for kk in list(model[d])[:3]])
                getattr(w, d).del_instance(kk)
                del model[d][kk]
        for c, m in model.items():
            for k, o in m.items():
                r = vlib.outcome(lambda: getattr(w, c)[k])
                rec.check(r[0] == 'ok' and r[1] is o, 'look-up among many', registry=c, key=k, n=n, got=repr(r)[:100])
            for k in set(k for d, k, _ in ops if d == c) - set(m):
                r = vlib.outcome(lambda: getattr(w, c)[k])
                rec.check(r[0] == 'raise' and r[1] == 'KeyError', 'look-up of a deleted one among many', registry=c, key=k, got=repr(r)[:100])
        for e, o in model['EFT'].items():
            rec.check(sorted(o.known_bases) == sorted(k[1] for k in model['Basis'] if k[0] == e), 'known bases among many', eft=e, n=n)
            rec.check(sorted(o.known_translators) == sorted(k for k in model['Translator'] if k[0] == e), 'known translators among many', eft=e, n=n)
        for (e, b), o in model['Basis'].items():
            kt = o.known_translators
            rec.check(sorted(kt['from']) == sorted(k for k in model['Translator'] if k[:2] == (e, b))
                      and sorted(kt['to']) == sorted(k for k in model['Translator'] if k[0] == e and k[2] == b),
                      'known translators of a basis among many', basis=(e, b), n=n)
        rec.traces += 1

    vlib.parallel(ctx, many, [10, 40, 150, 400, 1100] + ([3000] * 4 if ctx.thorough else []))
    ctx.assumptions += ['registries are per process; no concurrent use is specified']
