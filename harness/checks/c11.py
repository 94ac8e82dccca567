"""C11: flavour rotations and the Warsaw / Warsaw up translation are exact (Smeft.tla)."""
import numpy as np
import vlib
import smeft
from physics import ckm, random_ckm_parameters, usable

FIELDS = ['q', 'u', 'd', 'l', 'e']
# unusual but legal parameters; matrices without mixing included
PARS = [{'Vcb': 0.05}, {'gamma': 2.0}, {'Vub': 1e-3}, {'Vus': .3}, {'gamma': 0}, {'Vub': 0.0}, {'Vub': 0}, {'Vcb': 0}, {'gamma': -1.2},
        {'Vus': 0, 'Vub': 0, 'Vcb': 0}, {'Vub': 1e-9, 'Vcb': 1e-9}, {'gamma': 3}, {}]


def run(ctx):
    w = vlib.import_wcxf()
    from wcxf.util import smeftutil
    M = smeft.Model(ctx)
    M.register(w)
    pars = usable(PARS)
    ctx.extra['operators'] = len(M.ops) + len(M.bosonic)
    ctx.sample({o: M.content[o] for o in ('ledq', 'duql')})

    def eq(a, b, tol=1e-12):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * max(1e-300, np.max(np.abs(b)))))

    # rotations: generic arrays, generic unitary matrices, each matrix alone and all together
    def rot(rec, k):
        rng = rec.rng
        r = np.random.RandomState(rng.randrange(2 ** 31))
        which = [FIELDS[k % 5]] if k % 3 else FIELDS
        make = smeft.special_unitary if rng.random() < .4 else smeft.random_unitary
        U = {f: make(rng) if f in which else np.eye(3) for f in FIELDS}
        ops = M.ops if rng.random() < .6 else rng.sample(M.ops, rng.randint(1, 5))
        C = {o: r.normal(size=M.shape(o)) + 1j * r.normal(size=M.shape(o)) for o in ops}
        for b in rng.sample(M.bosonic, rng.randint(0, len(M.bosonic))):
            C[b] = rng.uniform(-1, 1)
        snap = {o: np.array(v, copy=True) for o, v in C.items()}
        Us = {f: np.array(u, copy=True) for f, u in U.items()}
        got = smeftutil.flavor_rotation(C, U['q'], U['u'], U['d'], U['l'], U['e'])
        rec.check(set(got) == set(C), 'same operators', difference=sorted(set(got) ^ set(C)))
        for o in C:
            want = C[o] if o in M.bosonic else M.rotate(o, C[o], U)
            rec.check(o in got and eq(got[o], want), 'rotated operator', op=o, rotated_fields=which)
        Ud = {f: u.conj().T for f, u in U.items()}
        back = smeftutil.flavor_rotation(got, Ud['q'], Ud['u'], Ud['d'], Ud['l'], Ud['e'])
        for o in C:
            rec.check(o in back and eq(back[o], C[o]), 'rotating back restores', op=o)
        I = np.eye(3)
        same = smeftutil.flavor_rotation(C, I, I, I, I, I)
        for o in C:
            rec.check(o in same and eq(same[o], C[o]), 'the identity changes nothing', op=o)
        rec.check(all(np.array_equal(C[o], snap[o]) for o in C) and all(np.array_equal(U[f], Us[f]) for f in U),
                  'arguments are unchanged')
        rec.traces += 1

    vlib.parallel(ctx, rot, range(600 if ctx.thorough else 90))

    # translation: unit coefficients, superpositions, inverse, parameters
    def reference(d, V, direction):
        U = {f: np.eye(3) for f in FIELDS}
        U['q'] = V.conj().T if direction == 'up' else V
        out = {}
        for o in {M.keys[k][0] for k in d}:
            if o in M.bosonic:
                out[o] = d[o]
            else:
                out.update(M.coefficients(o, M.rotate(o, M.array(o, d), U)))
        return out

    def one(rec, d, par):
        V = ckm(par)
        for src, dst, way in (('Warsaw', 'Warsaw up', 'up'), ('Warsaw up', 'Warsaw', 'down')):
            o = smeft.wc(w, src, d)
            r = o.translate(dst, parameters=par) if par is not None else o.translate(dst)
            smeft.compare(rec, '%s -> %s' % (src, dst), r.dict, reference(d, V, way), parameters=par,
                          input=dict(list(d.items())[:3]))
            b = r.translate(src, parameters=par)
            smeft.compare(rec, '%s -> %s -> %s is the identity' % (src, dst, src), b.dict, d, parameters=par,
                          rel=1e-11)
            rec.check(all(k in M.keys for k in r.dict), 'only independent coefficients come out')
            rec.check((r.eft, r.basis, r.scale) == ('SMEFT', dst, 1e3), 'labels')
        rec.traces += 1

    # the bases need not have the same coefficients: the result is in those of the target
    everything = {o + '_' + ''.join(str(i + 1) for i in t): o for o in M.ops for t in np.ndindex(*M.shape(o))}

    def targets(rec, k):
        rng = rec.rng
        V = ckm(None)
        for src, dst, way in (('Warsaw', 'Warsaw up', 'up'), ('Warsaw up', 'Warsaw', 'down')):
            names = [n for n in sorted(everything) if n in M.keys and rng.random() < .7 or rng.random() < rng.choice([.02, .5])]
            names += [b for b in M.bosonic if rng.random() < .5]
            M.register(w)
            w.Basis('SMEFT', dst, {'all': {n: {} for n in names}})
            d = M.random(rng, density=rng.choice([1, .1, .02]))
            U = {f: np.eye(3) for f in FIELDS}
            U['q'] = V.conj().T if way == 'up' else V
            want = {}
            arrays = {o: M.rotate(o, M.array(o, d), U) for o in {M.keys[x][0] for x in d} - set(M.bosonic)}
            for n in names:
                if n in M.bosonic:
                    want[n] = d.get(n, 0)
                elif everything[n] in arrays:
                    want[n] = arrays[everything[n]][tuple(int(i) - 1 for i in n.split('_')[1])]
            r = smeft.wc(w, src, d).translate(dst)
            smeft.compare(rec, 'in the coefficients of the target basis', r.dict, want, source=src, target=dst)
            rec.check(set(r.dict) <= set(names), 'only coefficients of the target basis', extra=sorted(set(r.dict) - set(names))[:5])
        M.register(w)
        rec.traces += 1

    vlib.parallel(ctx, targets, range(60 if ctx.thorough else 12))

    def unit(rec, key):
        o, t, real = M.keys[key]
        par = rec.rng.choice([None, random_ckm_parameters(rec.rng), rec.rng.choice(pars)])
        size = rec.rng.choice([1.0, 1.0, 1e-18, 1e-30, 1e12])
        one(rec, {key: size}, par)
        if not real:
            one(rec, {key: size * 1j}, par)

    keys = sorted(M.keys)
    if not ctx.thorough:
        # every operator completely in doublet quarks; a third of the rest
        keys = [k for k in keys if any(f == 'q' for f, _ in M.content.get(M.keys[k][0], [])) or ctx.rng.random() < .3]
    vlib.parallel(ctx, unit, keys)

    def dense(rec, k):
        one(rec, M.random(rec.rng, density=rec.rng.choice([1, .3, .02])),
            rec.rng.choice([None, random_ckm_parameters(rec.rng), rec.rng.choice(pars), rec.rng.choice(pars)]))

    vlib.parallel(ctx, dense, range(200 if ctx.thorough else 24))
