"""C12: tree-level matching of SMEFT onto WET is the published one (Match.tla, with Smeft, Jms, Wet)."""
import vlib
import smeft
import wet
import match
from physics import ckm

SM = 1e-4        # size of the standard model part that cancels (1/GeV^2)


def run(ctx):
    w = vlib.import_wcxf()
    M = match.Model(ctx)
    M.register(w, ctx.rng)
    S = M.S
    ctx.extra['routes'] = len(M.routes)
    ctx.extra['formulas'] = len(M.formula)
    ctx.sample({o: M.formula[o] for o in ('V1udLL', 'VnueduLR')})

    def walk(rec, route, done, d, scale, par, clause):
        o = w.WC('SMEFT', route[0][1], scale, w.WC.dict2values({k: complex(v) for k, v in d.items()}))
        for eft, basis in route[1:]:
            kw = {} if par is None else {'parameters': par}
            o = o.translate(basis, **kw) if eft == o.eft else o.match(eft, basis, **kw)
            rec.check((o.eft, o.basis, o.scale) == (eft, basis, scale), 'labels')
            if eft != 'SMEFT':
                extra = set(o.dict) - M.bases[eft, basis]
                rec.check(not extra or (eft in ('WET-4', 'WET-3') and basis != 'JMS'),
                          'only coefficients of the target basis', extra=sorted(extra)[:5])
        want = M.steps(d, done, scale, par)
        m = max([abs(v) for v in want.values()] + [0])
        mi = max([abs(v) for v in d.values()] + [0])
        bad = {}
        for k in set(want) | set(o.dict):
            g, x = complex(o.dict.get(k, 0)), complex(want.get(k, 0))
            if not abs(g - x) <= tol(route[-1], k, m, mi, abs(x), scale, par):
                bad[k] = [repr(g), repr(x)]
        rec.check(not bad, clause, route=['/'.join(x) for x in route], wrong=dict(sorted(bad.items())[:4]), number=len(bad),
                  input={k: repr(v) for k, v in list(d.items())[:3]}, inputs=len(d), scale=scale, parameters=par)

    rows = {}

    def tol(node, k, m, mi, x, scale, par):
        """Rounding: relative, plus that of the cancelling standard model part and of the largest input."""
        base = 1e-12 * SM + 1e-10 * mi
        if node[1] == 'JMS' or node[0] == 'SMEFT':
            return base + 1e-9 * x
        key = (node[1], scale, repr(par))
        if key not in rows:
            if len(rows) > 50:
                rows.clear()
            mat = M.W.matrix(('JMS', node[1]), M.W.symbols(scale, par))
            rows[key] = {a: sum(abs(c) for _, _, c in ts) for a, ts in mat.items()}
        return 1e-7 * x + base * rows[key].get(k, 0)

    one = [r for r in M.routes if len(r[0]) == 2]
    jms = [r for r in one if r[0][-1] == ('WET', 'JMS')]

    def unit(rec, key):
        """One coefficient at a time, in both SMEFT bases."""
        o, t, real = S.keys[key]
        v = rec.rng.choice([1e-6, -3e-7])
        for route, done, _ in jms if ctx.thorough or o.startswith('phi') or rec.rng.random() < .15 else [rec.rng.choice(jms)]:
            for z in [1.0] if real else ([1.0, 1j] if ctx.thorough else [rec.rng.choice([1.0, 1j, 1 - 2j])]):
                par = rec.rng.choice([None, None, {'m_W': 80.1, 'Vcb': .05, 'alpha_e': .0075}])
                walk(rec, route, done, {key: v * z}, 160.0, par, 'coefficient %s' % key)
        rec.traces += 1

    vlib.parallel(ctx, unit, sorted(S.keys))

    # every route, generic coefficients
    def dense(rec, k):
        rng = rec.rng
        route, done, _ = M.routes[k % len(M.routes)]
        d = match.random_smeft(S, rng, rng.choice([1, .3, .03]), rng.choice([1e-6, 1e-7, 3e-6]))
        par = rng.choice([None, None, {}, wet.random_parameters(rng), wet.random_parameters(rng), wet.random_parameters(rng, True)])
        walk(rec, route, done, d, rng.choice([160.0, 91.1876, 4.8, 1000.0]), par, 'along the route')
        rec.traces += 1

    vlib.parallel(ctx, dense, range(10 * len(M.routes) if ctx.thorough else len(M.routes)))

    # the operators that enter through the couplings: all orders in the coefficients, all parameters
    scal = ['phiWB', 'll_1221', 'phil3_11', 'phil3_22'] + [k for k in S.keys if k[:3] == 'phi' and '_' in k]

    def nonlinear(rec, k):
        rng = rec.rng
        ks = rng.sample(scal, rng.randint(1, 6))
        if k % 2:
            ks += scal[:4]
        d = {}
        for x in set(ks):
            z = rng.uniform(-1, 1) * rng.choice([1e-8, 1e-6, 2e-6])
            d[x] = z if S.keys[x][2] else complex(z, rng.uniform(-1, 1) * 1e-6)
        if k % 5 == 0:                       # new physics dominates muon decay (the shift of G_F is larger than G_F)
            g = rng.choice([2.0, 5.0, 20.0, -2.5, -6.0]) * 1.17e-5 * rng.uniform(1, 1.2)
            x = rng.choice(['ll_1221', 'phil3_11', 'phil3_22'])
            d = dict({y: v for y, v in d.items() if k % 10}, **{x: g * (1.4 if x[0] == 'l' else -1.4)})
        route, done, _ = rng.choice(one)
        walk(rec, route, done, d, 160.0, rng.choice([None, wet.random_parameters(rng), wet.random_parameters(rng, True)]),
             'through the couplings')
        rec.traces += 1

    vlib.parallel(ctx, nonlinear, range(1500 if ctx.thorough else 120))

    # coefficients far below (and above) the standard model part, where there is none
    pure = {o for o, a in M.formulas({}, None)[0].items() if not a.any()} | {'G', 'Gtilde'}
    small = [k for k, (o, t, r) in S.keys.items() if o in ('ledq', 'lequ1', 'lequ3', 'quqd1', 'quqd8', 'duql', 'qque', 'qqql', 'duue',
             'uG', 'uW', 'uB', 'dG', 'dW', 'dB', 'eW', 'eB', 'G', 'Gtilde', 'llphiphi', 'phiud')]

    def tiny(rec, k):
        rng = rec.rng
        size = rng.choice([1e-14, 1e-18, 1e-22, 1e-30] if k % 3 else [1., 1e4, 3e7])
        part = rng.choice([1, 1, 1j, 0])          # one part only
        d = {x: (rng.uniform(-1, 1) * (1 if S.keys[x][2] else part) if S.keys[x][2] or part else
                 complex(rng.uniform(-1, 1), rng.uniform(-1, 1))) * size for x in rng.sample(small, rng.choice([1, 3, 40, len(small)]))}
        route, done, _ = rng.choice(jms)
        par = rng.choice([None, wet.random_parameters(rng)])
        o = w.WC('SMEFT', route[0][1], 160.0, w.WC.dict2values(d)).match(*route[1], **({} if par is None else {'parameters': par}))
        want = M.steps(d, done, 160.0, par)
        for op in pure:
            g = {x: v for x, v in o.dict.items() if x.split('_')[0] == op}
            smeft.compare(rec, 'coefficients of any size', g,
                          {x: v for x, v in want.items() if x.split('_')[0] == op}, rel=1e-9, op=op, size=size)
        rec.traces += 1

    vlib.parallel(ctx, tiny, range(800 if ctx.thorough else 60))

    # whatever coefficients the JMS basis has at that moment: some, or other members of the symmetry orbits
    def other(rec, k):
        rng = rec.rng
        keys = rng.sample(sorted(M.bases['WET', 'JMS']), rng.choice([1, 30, 400]))
        if k % 2:
            for _ in range(200):
                o = rng.choice(sorted(M.formula))
                keys.append(o + '_' + ''.join(str(rng.randint(1, 2 if f[0] == 'u' else 3)) for f, _ in M.W.content[o][0]))
        keys = list(dict.fromkeys(x for x in keys if not x.startswith('nugamma')))
        d = match.random_smeft(S, rng, rng.choice([1, .1]))
        par = rng.choice([None, wet.random_parameters(rng)])
        src = rng.choice(['Warsaw', 'Warsaw up'])
        half = rng.randint(0, len(keys))

        def do():
            w.Basis('WET', 'JMS', {'a': {x: {} for x in keys[:half]}, 'b': {x: None for x in keys[half:]}})
            return w.WC('SMEFT', src, 160.0, w.WC.dict2values(d)).match('WET', 'JMS', parameters=par).dict
        r = vlib.forked(do)
        if not rec.check(r[0] == 'ok', 'matching works', got=repr(r)[:300]):
            return
        want = M.match(M.rotate(d, ckm(par), 'up') if src == 'Warsaw' else d, par, keys)
        mi = max(abs(v) for v in d.values())
        want = {x: complex(want[x]) for x in keys}
        rec.check(set(r[1]) <= set(keys), 'restricted to the coefficients of the JMS basis', extra=sorted(set(r[1]) - set(keys))[:5])
        bad = {x: [repr(r[1].get(x, 0)), repr(z)] for x, z in want.items()
               if not abs(complex(r[1].get(x, 0)) - z) <= 1e-12 * SM + 1e-10 * mi + 1e-9 * abs(z)}
        rec.check(not bad, 'any choice of the JMS coefficients', wrong=dict(sorted(bad.items())[:4]), number=len(bad), source=src)
        rec.traces += 1

    vlib.parallel(ctx, other, range(150 if ctx.thorough else 16))

    # nothing in, nothing out; also for explicit zeros and for operators that do not contribute
    silent = [k for k, (o, t, r) in S.keys.items() if o in ('W', 'Wtilde', 'phi', 'phiBox', 'phiD', 'phiG', 'phiB', 'phiW',
              'phiGtilde', 'phiBtilde', 'phiWtilde', 'phiWtildeB', 'uphi', 'dphi', 'ephi')]
    for route, done, _ in M.routes:
        if len(route) > 3 and not ctx.thorough:
            continue
        for d in ({}, {k: 0.0 for k in ctx.rng.sample(sorted(S.keys), 40)}):
            o = w.WC('SMEFT', route[0][1], 160.0, w.WC.dict2values(d))
            for eft, basis in route[1:]:
                o = o.translate(basis) if eft == o.eft else o.match(eft, basis)
            ctx.check(o.dict == {}, 'no new physics', route=route, got=repr(o.dict)[:300])
    for k in silent:
        o = w.WC('SMEFT', 'Warsaw', 160.0, w.WC.dict2values({k: 1e-6})).match('WET', 'JMS')
        ctx.check(all(abs(v) < 1e-18 for v in o.dict.values()), 'operators without tree-level effect', operator=k,
                  got=repr(o.dict)[:300])
