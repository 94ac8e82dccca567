"""C14: different translation routes agree and inverse translations invert (Wet.tla)."""
import vlib
import wet


def run(ctx):
    w = vlib.import_wcxf()
    M = wet.Model(ctx)
    M.register(w)
    # JMS to the other bases in one step is C13's; every other route of up to three steps is walked
    routes = sorted(p for p in M.forms if len(p) > 2 or 'FlavorKit' in p or p[0] != 'JMS')
    ctx.extra['routes'] = ['-'.join(p) for p in routes]
    ctx.sample({'route': routes[0], 'forms': dict(list(M.forms[routes[0]].items())[:2])})
    mats = {}

    def mat(path, scale, par):
        key = (path, scale, repr(sorted((par or {}).items())))
        if key not in mats:
            if len(mats) > 200:
                mats.clear()
            mats[key] = M.matrix(path, M.symbols(scale, par))
        return mats[key]

    def walk(rec, path, d, eft, scale, par, clause):
        o = w.WC(eft, path[0], scale, w.WC.dict2values(d))
        for i in range(1, len(path)):
            o = o.translate(path[i], parameters=par) if par is not None else o.translate(path[i])
            sub = path[:i + 1]
            rec.check(set(o.dict) <= set(M.keys[path[i]]), 'only coefficients of the target basis', route=sub,
                      extra=sorted(set(o.dict) - set(M.keys[path[i]]))[:5])
            if not wet.compare(rec, clause, o.dict, mat(sub, scale, par), d, route='-'.join(sub), eft=eft,
                               scale=scale, parameters=par):
                return
        rec.check((o.eft, o.basis, o.scale) == (eft, path[-1], scale), 'labels')

    def efts(path):
        return [e for e in wet.EFTS if all(e in wet.TRANSLATORS[path[i], path[i + 1]] for i in range(len(path) - 1))]

    fixed = [(4.8, None), (160.0, {'Vus': .21, 'GF': 1.2e-5, 'm_b': 4.3, 'm_mu': .2, 'alpha_e': 0.008}), (2.0, None)]

    def unit(rec, x):
        path, key = x
        scale, par = rec.rng.choice(fixed)
        walk(rec, path, {key: rec.rng.choice(wet.SIZES) * M.number(rec.rng, path[0], key, rec.rng.choice(['1', 'i', None]))},
             rec.rng.choice(efts(path)), scale, par, 'coefficient %s along the route' % key)
        rec.traces += 1

    # routes that are not the beginning of another one contain all others
    maximal = [p for p in routes if not any(len(q) > len(p) and q[:len(p)] == p for q in routes)]
    items = [(p, k) for p in maximal for k in sorted(M.keys[p[0]])]
    if not ctx.thorough:
        keep = [x for x in items if x[1] in M.sources[x[0][:2]]]
        first = {}
        ctx.rng.shuffle(keep)
        for p, k in keep:                     # every coefficient starts at least one route
            first.setdefault((p[0], k), (p, k))
        items = list(first.values()) + [x for x in keep if ctx.rng.random() < .05]
    vlib.parallel(ctx, unit, items)

    def dense(rec, k):
        rng = rec.rng
        path = maximal[k % len(maximal)]
        dens = rng.choice([1, 1, .5, .1, .01])
        ks = [x for x in M.keys[path[0]] if rng.random() < dens]
        rng.shuffle(ks)
        par = rng.choice([None, {}, wet.random_parameters(rng), wet.random_parameters(rng), wet.random_parameters(rng, True)])
        scale, size = wet.random_scale(rng), rng.choice(wet.SIZES)
        size = rng.choice([size, 1.])
        walk(rec, path, {x: size * v for x, v in M.numbers(rng, path[0], ks).items()}, rng.choice(efts(path)), scale, par, 'along the route')
        rec.traces += 1

    vlib.parallel(ctx, dense, range(2500 if ctx.thorough else 250))
    for a, b in sorted(wet.TRANSLATORS):
        for eft in wet.TRANSLATORS[a, b]:
            for d in {}, {k: 0.0 for k in M.keys[a]}:
                ctx.check(w.WC(eft, a, 4.8, d).translate(b).dict == {}, 'nothing gives nothing', route=[a, b], eft=eft)
