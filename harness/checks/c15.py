"""C15: lowering the number of flavours only drops coefficients (Lower.tla)."""
import vlib

LEVELS = [None, 'WET', 'WET-4', 'WET-3', 'WET-2']
# concrete coefficient names of the three bases that are easily confused, for a, b, c
POOLS = [('VddLL_1111', 'VddLL_1112', 'VddLR_1111'), ('uG_12', 'uG_21', 'dG_12'), ('C9_bsee', 'C9p_bsee', 'C9_bsmumu'),
         ('1mumu', '1mumup', '1mutau'), ('G', 'Gtilde', 'g'), ('bs', 'b', 's'), ('egamma_11', 'egamma_1', 'ugamma_11'),
         ('', ' ', 'x'), ('SedRR_1123', 'TedRR_1123', 'SedRL_1123')]
VALUES = [1.0, -2.5e-3, 1e-300, 5e-324, 1e300, {'Re': 1.0, 'Im': -2.0}, {'Re': 0.0, 'Im': 1e-12}, {'Im': 3.0}, 7, '1e-3']


def run(ctx):
    w = vlib.import_wcxf()
    edges, _ = ctx.emit_lines('Lower', timeout=600)
    sim, _ = ctx.emit_lines('Lower', 'LowerSim.cfg', simulate=2000 if ctx.thorough else 250, depth=12)
    ctx.extra['match_transitions'] = len(edges)
    ctx.sample(edges[len(edges) // 2])

    def define(rng, eft, basis, names, other):
        names = list(names)
        rng.shuffle(names)
        secs = {'s%d' % i: {} for i in range(3)}
        for n in names:
            secs[rng.choice(list(secs))][n] = rng.choice([None, {}, {'real': True}, {'tex': 'x'}])
        w.Basis(eft, basis, secs)

    def setup(rng, basis, reg, m, bystanders):
        w.Basis.clear_all()
        w.EFT.clear_all()
        for l in (2, 3, 4):
            # coefficients that are in the bases but not in the object must not be invented
            define(rng, LEVELS[l], basis, [m[c] for c in reg[l - 1]] + bystanders, None)
            for b in ('JMS', 'flavio', 'Bern'):     # other bases have everything: they must not matter
                if b != basis:
                    define(rng, LEVELS[l], b, list(m.values()), None)

    def mapping(rng):
        return dict(zip('abc', rng.sample(rng.choice(POOLS), 3)))

    def obj(rng, eft, basis, have, m):
        have = sorted(have)
        rng.shuffle(have)
        v = {m[c]: rng.choice(VALUES) for c in have}
        return w.WC(eft, basis, rng.choice([4.8, 2, 160, 1.3, 1e-3, 91.1876, 1e5, 10 ** rng.uniform(-6, 16)]), v)

    def step(rec, o, level, basis, want, m, par):
        before = dict(o.dict)
        r = o.match(LEVELS[level + 1], basis, parameters=par) if par is not None else o.match(LEVELS[level + 1], basis)
        exp = {m[c]: before[m[c]] for c in want}
        rec.check(r.dict == exp, 'exactly the coefficients of the target basis, with their values', basis=basis,
                  to=LEVELS[level + 1], got=repr(r.dict), want=repr(exp))
        rec.check((r.eft, r.basis, r.scale) == (LEVELS[level + 1], basis, o.scale), 'labels')
        rec.check(o.dict == before, 'the source is unchanged')
        return r

    def edge(rec, e):
        rng = rec.rng
        m = mapping(rng)
        setup(rng, e['basis'], e['reg'], m, rng.choice([[], ['zz', 'other']]))
        o = obj(rng, LEVELS[e['level']], e['basis'], e['have'], m)
        step(rec, o, e['level'], e['basis'], e['after'], m, rng.choice([None, {}, {'m_b': 4.0}]))
        rec.traces += 1

    vlib.parallel(ctx, edge, edges)

    def beh(rec, b):
        rng = rec.rng
        m = mapping(rng)
        s0 = b[0]
        if s0['act']['op'] == 'match':      # state before the first step
            have, level = s0['start'], 1
        else:
            have, level = s0['have'], s0['level']
        setup(rng, s0['basis'], s0['reg'], m, ['zz'])
        o = obj(rng, 'WET', s0['basis'], have, m)
        for s in b:
            if s['act']['op'] == 'match':
                o = step(rec, o, s['level'] - 1, s['basis'], s['have'], m, None)
            else:
                l = s['act']['lvl']
                define(rng, LEVELS[l], s['basis'], [m[c] for c in s['reg'][l - 1]] + ['zz'], None)
            rec.check(set(o.dict) == {m[c] for c in s['have']}, 'coefficients after the history', got=sorted(o.dict))
        rec.traces += 1

    vlib.parallel(ctx, beh, vlib.behaviours(sim))

    # large bases and objects
    def large(rec, k):
        rng = rec.rng
        basis, n = [('JMS', 3), ('flavio', 2), ('Bern', 2)][k % 3]
        names = ['C%d_%d' % (i, j) for i in range(40) for j in range(rng.randint(1, 40))]
        m = {x: x for x in names}
        w.Basis.clear_all()
        regs = {l: set(x for x in names if rng.random() < rng.choice([0, .5, .9, 1])) for l in (2, 3, 4)}
        for l in (2, 3, 4):
            define(rng, LEVELS[l], basis, regs[l], None)
        have = set(x for x in names if rng.random() < rng.choice([.1, .9]))
        o = obj(rng, 'WET', basis, have, m)
        for l in range(1, n + 1):
            have = have & regs[l + 1]
            o = step(rec, o, l, basis, have, m, None)
        rec.traces += 1

    vlib.parallel(ctx, large, range(300 if ctx.thorough else 45))
