"""C04: a basis is accepted exactly if it fits its EFT (Registry.tla, Latex.tla verdicts)."""
import json
import os
import vlib
import reg
import fakelatex

ALIKE = [('once', 'Once', 'ONCE'), ('C9', 'C9p', 'C9_'), ('a b', 'ab', 'a_b', 'a-b'), ('C', 'C ', ' C'), ('1', '01', '1.0'),
         ('\u00e9', 'e\u0301', 'e'), ('phil1_11', 'phil1_1', 'phil1_111'), ('uu_12', 'uu_21'), ('None', 'none', 'null', ''),
         ('x@1', 'x@2', 'x'), ('x:y', 'x'), ('stra\u00dfe', 'strasse')]


def run(ctx):
    w = vlib.import_wcxf()

    # before anything was ever defined
    def first():
        o = w.Basis('A', 'x', {'s': {'p': None}})
        a = vlib.outcome(o.validate)[:2]
        w.EFT('A', {'s': {}})
        return a, vlib.outcome(o.validate)
    r = vlib.forked(first)
    ctx.check(r[0] == 'ok' and r[1] == (('raise', 'ValueError'), ('ok', None)), 'verdicts where nothing was ever defined', got=repr(r))
    states, edges, behs = reg.generate(ctx, full=ctx.thorough,
                                       simulate=200 if ctx.thorough else 40, depth=30)
    state = {}

    def fake():
        if state.get('pid') != os.getpid():
            state['f'] = fakelatex.activate(ctx.tmp())
            state['pid'] = os.getpid()
        return state['f']

    def ask(rec, v, st, tool):
        fl = fake()
        fl.set(tool)
        want = reg.norm(v['valid'])
        for k in sorted(st['bases']):
            o = reg.basis(w, k)
            snap = json.dumps(o.sectors)
            r = vlib.outcome(o.validate)
            ok = bool(want[k]) and tool not in ('undefined', 'nolog')
            got = 'ok' if r[0] == 'ok' else r[1]
            rec.check(got == ('ok' if ok else 'ValueError'),
                      'accepted' if ok else 'rejected with ValueError', basis=k, latex=tool,
                      got=repr(r), state=reg.show(st))
            rec.check(json.dumps(o.sectors) == snap, 'validation leaves the basis unchanged', basis=k)
        reg.same(rec, 'validation leaves the registries unchanged', reg.observe(w), st)

    def do_state(rec, v):
        st = reg.nstate(v['state'])
        reg.build(w, rec.rng, st)
        ask(rec, v, st, 'absent')
        if st['bases'] and (ctx.thorough or rec.rng.random() < .3):
            ask(rec, v, st, rec.rng.choice(['ok', 'undefined', 'nolog', 'judge']))
        rec.traces += 1

    vlib.parallel(ctx, do_state, states)
    ctx.sample({'state': states[-1]['state'], 'valid': states[-1]['valid']})

    def do_beh(rec, steps):
        reg.clear(w, rec.rng)
        for l in steps:
            reg.act(w, rec.rng, l['act'])
            ask(rec, l['v'], reg.nstate(l['v']['state']), 'absent')
        rec.traces += 1

    vlib.parallel(ctx, do_beh, behs)

    # larger bases: duplicates and unknown sectors anywhere
    def do_big(rec, _):
        rng = rec.rng
        fl = fake()
        fl.set(rng.choice(['absent', 'absent', 'ok']))
        reg.clear(w)
        ns = rng.choice([1, 2, 3, 5, 12])
        secs = ['sec%d' % i for i in range(ns)]
        fault = rng.choice(['none', 'none', 'dup', 'sector', 'eft', 'case'])
        w.EFT('A', {s: rng.choice([{}, {'tex': 'x'}]) for s in secs + ['extra']})
        w.EFT('B', {s: {} for s in secs + ['Sec0', 'unknown']})
        sectors = {s: reg.coef_defs(rng, ['c_%s_%d' % (s, i) for i in range(rng.choice([0, 1, 2, 30]))])
                   for s in secs}
        eft = 'A'
        for _ in range(rng.choice([0, 0, 1, 4])):      # names that only look alike are different
            pool = rng.choice(ALIKE)
            for i, n in enumerate(rng.sample(pool, len(pool))):
                s = secs[i % ns]
                if all(n not in x for x in sectors.values()):
                    sectors[s][n] = rng.choice([None, {}, {'real': True}])
        if fault == 'dup' and ns > 1:
            for name in rng.choice([['twice'], ['twice'], ['twice', 'again'], ['']]):
                for a in rng.sample(secs, rng.randint(2, ns)):
                    sectors[a][name] = rng.choice([None, {}, {'real': True}])
        elif fault == 'sector':
            sectors[rng.choice(['unknown', ''])] = rng.choice([{}, {'only': None}])
        elif fault == 'case':
            sectors[rng.choice(['Sec0', 'sec0 ', 'sec'])] = {}
        elif fault == 'eft':
            eft = rng.choice(['C', 'a', ''])
        else:
            fault = 'none'
        o = w.Basis(eft, 'x', sectors)
        r = vlib.outcome(o.validate)
        got = 'ok' if r[0] == 'ok' else r[1]
        rec.check(got == ('ok' if fault == 'none' else 'ValueError'), 'verdict on a larger basis',
                  fault=fault, got=repr(r), sectors=list(sectors))

    vlib.parallel(ctx, do_big, range(3000 if ctx.thorough else 400))
    ctx.extra['states_replayed'] = len(states)
    ctx.extra['behaviours_replayed'] = len(behs)
    ctx.assumptions.append('a sector of a basis is a mapping (a null sector is not well formed)')
