"""C13: translations out of the WET JMS basis follow the operator definitions (Wet.tla)."""
import vlib
import wet

TARGETS = ('Bern', 'flavio', 'EOS', 'formflavor')


def run(ctx):
    w = vlib.import_wcxf()
    M = wet.Model(ctx)
    M.register(w)
    ctx.extra['coefficients'] = {b: len(k) for b, k in M.keys.items()}
    ctx.sample({k: M.forms['JMS', 'flavio'][k] for k in ('C9_bsee', 'CVL_bcenue') if k in M.forms['JMS', 'flavio']})
    mats = {}

    def mat(to, scale, par):
        key = (to, scale, repr(sorted((par or {}).items())))
        if key not in mats:
            mats[key] = M.matrix(('JMS', to), M.symbols(scale, par))
        return mats[key]

    def one(rec, d, to, eft, scale, par, how, clause):
        o = w.WC(eft, 'JMS', scale, w.WC.dict2values(d))
        r = o.translate(to) if how == 0 else o.translate(to, parameters=par)
        wet.compare(rec, clause, r.dict, mat(to, scale, par), d, eft=eft, scale=scale, parameters=par)
        rec.check(set(r.dict) <= set(M.keys[to]), 'only coefficients of the target basis',
                  extra=sorted(set(r.dict) - set(M.keys[to]))[:5])
        rec.check((r.eft, r.basis, r.scale) == (eft, to, scale), 'labels')

    fixed = [(4.8, None), (91.1876, {'Vus': .21, 'GF': 1.2e-5, 'm_b': 4.3}), (160.0, None)]

    def unit(rec, key):
        """One coefficient at a time: it contributes where it must, and nowhere else."""
        for to in TARGETS:
            used = key in M.sources['JMS', to]
            kinds = ['1'] if key in M.real else ['1', 'i'] if ctx.thorough and used else [rec.rng.choice(['1', 'i', None])]
            if not used and not ctx.thorough and rec.rng.random() < .75:
                continue
            for kind in kinds:
                scale, par = rec.rng.choice(fixed)
                one(rec, {key: rec.rng.choice(wet.SIZES) * M.number(rec.rng, 'JMS', key, kind)}, to, 'WET', scale, par,
                    0 if par is None else 1, 'JMS coefficient %s in %s' % (key, to))
        rec.traces += 1

    vlib.parallel(ctx, unit, sorted(M.jms))

    # generic values of many coefficients, all scales and parameters: identifies every entry of the linear maps
    def dense(rec, k):
        rng = rec.rng
        to = TARGETS[k % 4]
        eft = rng.choice(wet.TRANSLATORS['JMS', to])
        dens = rng.choice([1, 1, .5, .1, .01])
        ks = [x for x in sorted(M.jms) if rng.random() < dens]
        rng.shuffle(ks)
        par = rng.choice([None, {}, wet.random_parameters(rng), wet.random_parameters(rng), wet.random_parameters(rng, True)])
        scale, size = wet.random_scale(rng), rng.choice(wet.SIZES)
        size = rng.choice([size, 1.])
        one(rec, {x: size * v for x, v in M.numbers(rng, 'JMS', ks).items()}, to, eft, scale, par, 0 if par is None else 1,
            'JMS to %s' % to)
        rec.traces += 1

    vlib.parallel(ctx, dense, range(2000 if ctx.thorough else 200))
    for o in w.WC('WET', 'JMS', 4.8, {}), w.WC('WET', 'JMS', 4.8, {k: 0.0 for k in M.jms}):
        for to in TARGETS:
            ctx.check(o.translate(to).dict == {}, 'nothing gives nothing', to=to)
