"""C10: SMEFT coefficients and arrays are equivalent up to operator symmetries (Smeft.tla)."""
import numpy as np
import vlib
import smeft


def run(ctx):
    w = vlib.import_wcxf()
    from wcxf.util import smeftutil
    from wcxf.translators import smeft as ts
    M = smeft.Model(ctx)
    ctx.extra['independent_coefficients'] = len(M.keys)
    ctx.sample({k: M.keys[k] for k in list(M.keys)[200:203]})

    def sym(d):
        return smeftutil.symmetrize(ts.wcxf2arrays(d))

    def eq(a, b, tol=0.0):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * max(1e-300, np.max(np.abs(b)))))

    # names and shapes
    for o in M.ops:
        ctx.check(tuple(np.shape(smeftutil.add_missing({})[o])) == M.shape(o), 'shape of a missing operator', op=o)
    full = smeftutil.add_missing({})
    ctx.check(set(full) == set(M.ops) | set(M.bosonic), 'all operators are known',
              difference=sorted(set(full) ^ (set(M.ops) | set(M.bosonic))))
    for b in M.bosonic:
        ctx.check(np.shape(full[b]) == () and full[b] == 0, 'missing bosonic coefficients are the number zero', op=b)

    def vals(real):
        return [1.0, -2.5] if real else [1.0, 1j, -0.5 + 2j]

    # every independent coefficient, one at a time: every element of the array
    def one(rec, key):
        o, t, real = M.keys[key]
        for v in vals(real):
            d = {key: v}
            if t is None:
                a = sym(d)
                rec.check(set(a) == {o} and np.shape(a[o]) == () and a[o] == v, 'a bosonic coefficient is itself',
                          key=key, got=repr(a))
                back = ts.arrays2wcxf(a)
                rec.check(set(back) == {key} and back[key] == v, 'and is read back', key=key)
                rec.traces += 1
                continue
            raw = ts.wcxf2arrays(d)
            rec.check(set(raw) == {o} and np.shape(raw[o]) == M.shape(o), 'array of the right shape', key=key)
            a = smeftutil.symmetrize(raw)
            want = M.array(o, d)
            rec.check(set(a) == {o} and eq(a[o], want), 'symmetrised array', key=key, value=repr(v))
            rec.check(d == {key: v}, 'the coefficients are unchanged')
            again = smeftutil.symmetrize(a)
            rec.check(eq(again[o], want), 'symmetrising is idempotent', key=key, value=repr(v))
            back = ts.arrays2wcxf(a)
            ok = len(back) == want.size
            for i, x in np.ndenumerate(want):
                n = o + '_' + ''.join(str(j + 1) for j in i)
                ok = ok and n in back and back[n] == x
            rec.check(ok, 'array -> coefficients names every element once', key=key)
            rec.check(eq(ts.smeft_toarray(o, dict(d, other_11=3) if False else d), want), 'array of one operator', key=key)
            back = ts.smeft_fromarray(o, a[o])
            rec.check(len(back) == want.size and back[key] == v, 'coefficients of one operator', key=key)
            rec.traces += 1

    vlib.parallel(ctx, one, sorted(M.keys))

    # superpositions
    def many(rec, k):
        rng = rec.rng
        d = M.random(rng, density=rng.choice([1, .5, .1, .01]))
        keys = list(d)
        rng.shuffle(keys)
        d = {x: d[x] for x in keys}
        snap = dict(d)
        raw = ts.wcxf2arrays(d)
        a = smeftutil.symmetrize(raw)
        present = {M.keys[x][0] for x in d}
        rec.check(set(a) == present, 'exactly the given operators', difference=sorted(set(a) ^ present))
        for o in present:
            want = d[o] if o in M.bosonic else M.array(o, d)
            rec.check(eq(a[o], want, 1e-14), 'symmetrised array of a superposition', op=o)
            if o not in M.bosonic and k % 4 == 0:
                rec.check(eq(ts.smeft_toarray(o, d), want, 1e-14), 'array of one operator in a superposition', op=o)
        rec.check(d == snap, 'the coefficients are unchanged')
        back = ts.arrays2wcxf(a)
        ind = {x: v for x, v in back.items() if x in M.keys}
        smeft.compare(rec, 'round trip of independent coefficients', ind, d, rel=1e-14)
        c = smeftutil.add_missing(a)
        rec.check(set(c) == set(M.ops) | set(M.bosonic), 'completed with all operators')
        rec.check(all(np.all(np.asarray(c[o]) == 0) for o in c if o not in present), 'missing ones are zero')
        rec.check(all(c[o] is a[o] or np.array_equal(c[o], a[o]) for o in present) and set(a) == present,
                  'given ones are kept')
        if k % 4 == 0:
            full = ts.arrays2wcxf(c)
            names = set(M.bosonic) | {o + '_' + ''.join(str(j + 1) for j in i) for o in M.ops for i in np.ndindex(*M.shape(o))}
            rec.check(set(full) == names, 'every element of the complete arrays is named, zeros too', difference=sorted(set(full) ^ names)[:6])
        rec.traces += 1

    vlib.parallel(ctx, many, range(400 if ctx.thorough else 40))

    # arbitrary arrays: the result has the symmetry and agrees on independent elements
    def arb(rec, k):
        r = np.random.RandomState(rec.rng.randrange(2 ** 31))
        for o in M.ops:
            x = r.normal(size=M.shape(o)) + 1j * r.normal(size=M.shape(o))
            keep = x.copy()
            a = smeftutil.symmetrize({o: x})[o]
            want = M.array(o, M.coefficients(o, x))
            rec.check(eq(a, want, 1e-14), 'symmetrised arbitrary array', op=o)
            rec.check(np.array_equal(x, keep), 'the given array is unchanged', op=o)
        for b in M.bosonic:
            rec.check(smeftutil.symmetrize({b: 1.5 + 0j})[b] == 1.5, 'bosonic coefficients are real', op=b)
            rec.check(ts.arrays2wcxf({b: 1.5 - .25j}) == {b: 1.5 - .25j}, 'numbers are kept', op=b)
        rec.traces += 1

    vlib.parallel(ctx, arb, range(200 if ctx.thorough else 24))
