"""C23: the Warsaw mass translation diagonalises what it must and nothing else (Smeft.tla)."""
import numpy as np
import vlib
import smeft
from physics import ckm, random_ckm_parameters, usable

PARS = [None, {}, {'Vcb': .05}, {'gamma': 2.0}, {'Vub': 1e-3}, {'Vus': .3}, {'gamma': 0}, {'Vub': 0.0}, {'Vcb': 0}, {'gamma': -1.2},
        {'Vus': 0, 'Vub': 0, 'Vcb': 0}, {'Vub': 1e-9, 'Vcb': 1e-9}, {'gamma': 3}]


def run(ctx):
    w = vlib.import_wcxf()
    from wcxf.translators import smeft as ts
    M = smeft.Model(ctx)
    M.register(w)
    pars = usable(PARS)
    ctx.sample({o: a for o, a in M.mass.items() if a != 'keep'})

    def one(rec, d, par):
        V = ckm(par)
        want = M.mass_reference(d, V)
        snap = dict(d)
        o = smeft.wc(w, 'Warsaw', d, scale=rec.rng.choice([91.1876, 1000, 1e5]))
        r = o.translate('Warsaw mass', parameters=par) if par is not None else o.translate('Warsaw mass')
        got = r.dict
        # operators separately: one huge coefficient must not hide others
        for op in {M.keys[k][0] for k in d} | {k.split('_')[0] for k in got}:
            g = {k: v for k, v in got.items() if k.split('_')[0] == op}
            x = {k: v for k, v in want.items() if k.split('_')[0] == op}
            if M.mass.get(op, 'keep') == 'keep':
                x = {k: v for k, v in x.items() if v != 0}
                rec.check(g == x, 'kept coefficients are identical', op=op, got=g, want=x)
            else:
                smeft.compare(rec, M.mass[op] + 'd operator', g, x, rel=1e-11, op=op, parameters=par)
            if M.mass.get(op) == 'diagonalise':
                rec.check(all(k[-1] == k[-2] and complex(v).imag == 0 and complex(v).real >= 0
                              for k, v in g.items()), 'non-negative real diagonal', got=g)
        rec.check(all(k in M.keys for k in got), 'only coefficients of the basis come out')
        rec.check((r.eft, r.basis, r.scale) == ('SMEFT', 'Warsaw mass', o.scale), 'labels')
        rec.check(o.dict == {k: complex(v) for k, v in snap.items()} and d == snap, 'the input is unchanged')
        f = ts.warsaw_to_warsawmass(dict(d), par)
        smeft.compare(rec, 'the function agrees with the translator', {k: v for k, v in f.items() if v != 0}, got, rel=1e-12)
        rec.traces += 1

    def unit(rec, key):
        o, t, real = M.keys[key]
        par = rec.rng.choice(pars + [random_ckm_parameters(rec.rng)])
        one(rec, {key: rec.rng.choice([1.0, -3.0, 1e-12, 1e-18, 1e-30])}, par)
        if not real:
            one(rec, {key: rec.rng.choice([1j, -2j, .3 + .4j, 1e-16 - 1e-16j, 1e-27j])}, par)

    keys = sorted(M.keys)
    if not ctx.thorough:
        keys = [k for k in keys if M.mass.get(M.keys[k][0], 'keep') != 'keep' or ctx.rng.random() < .3]
    vlib.parallel(ctx, unit, keys)

    special = sorted(o for o, a in M.mass.items() if a != 'keep')

    def dense(rec, k):
        rng = rec.rng
        par = pars[k % len(pars)] if k % 2 else random_ckm_parameters(rng)
        ops = None if k % 3 else rng.sample(special, rng.randint(1, len(special)))
        d = M.random(rng, density=rng.choice([1, .5, .1]), ops=ops)
        if k % 4 == 0:                       # the units of the neutrino mass operator differ by many orders
            u = rng.choice([1e-12, 1e-15, 1e-22, 1e-30, 1e6])
            d = {x: v * (u if x.startswith('llphiphi') else 1) for x, v in d.items()}
        if k % 4 == 1:                       # degenerate and rank one mass matrices
            m = np.array([rng.uniform(-1, 1) + 1j * rng.uniform(-1, 1) for _ in range(3)])
            m = np.outer(m, m) if rng.random() < .5 else np.diag([m[0]] * 3)
            for x, (o, t, re) in M.keys.items():
                if o == 'llphiphi':
                    d[x] = complex(m[t[0] - 1, t[1] - 1])
        one(rec, d, par)

    vlib.parallel(ctx, dense, range(1000 if ctx.thorough else 120))
