"""C16: running couplings and masses follow QCD at any scale (Qcd.tla)."""
import vlib
import qcdref

SCALES = {1: 4.8, 2: 91.1876, 3: 2.0}
MASS = {'m_b': (2.5, 6), 'm_c': (1.0, 1.8), 'm_s': (.05, .2)}
DEFMASS = {'m_b': 4.18, 'm_c': 1.27, 'm_s': .095}


def run(ctx):
    vlib.import_wcxf()
    from wcxf.util import qcd
    M = qcdref.Model(ctx)
    hists, _ = ctx.emit_lines('Qcd', 'QcdSim.cfg', simulate=400 if ctx.thorough else 48, depth=400)
    ctx.extra['plans'] = len(M.plans)
    ctx.extra['histories'] = len(hists)
    ctx.sample(M.plans['m_s', 5])

    def call(q, f, scale, alphas, mass, style=0):
        fn = getattr(qcd, q)
        args = [scale, f] if q == 'alpha_s' else [mass, scale, f]
        if alphas is None:
            return vlib.outcome(fn, *args)
        if style == 0:
            return vlib.outcome(fn, *args, alphasMZ=alphas)
        return vlib.outcome(fn, *(args + [alphas]))

    def check(rec, q, f, scale, alphas, mass, **kw):
        r = call(q, f, scale, alphas, mass, rec.rng.randrange(2))
        what = dict(quantity=q, f=f, scale=scale, alpha_s=alphas, mass=mass, **kw)
        if not M.defined(q, f):
            return rec.check(r[0] == 'raise' and r[1] == 'ValueError', 'a flavour number out of range is refused',
                             got=repr(r), **what)
        want = M.value(q, f, scale, 0.1185 if alphas is None else alphas, mass)
        return rec.check(r[0] == 'ok' and qcdref.same(r[1], want, qcdref.tolerance(scale, mass)), 'running value',
                         got=repr(r), want=want, **what)

    qs = sorted({q for q, _ in M.plans})

    # every plan on a grid of scales, thresholds and input scales included, and random inputs
    def plan(rec, it):
        (q, f), k = it
        rng = rec.rng
        lo = MASS.get(q)
        scales = [1.3, 4.8, 170, 170.0, 2, 2.0, 91.1876, 80.385, 1000, 4, 10.0, DEFMASS.get(q, 4.2)]
        eps = rng.choice([1e-3, 1e-4, 1e-5, 1e-6, 1e-8]) * rng.choice([1, -1])
        for s in scales + [x * (1 + eps) for x in (91.1876, 2, 1.3, 4.8, 170, DEFMASS.get(q, 80.385))] + [1, rng.uniform(1.0, 1.25), rng.uniform(1.4, 4.6), rng.uniform(1.0, 10), 10 ** rng.uniform(0, 4), 10 ** rng.uniform(4, 7), rng.uniform(50, 400), rng.randint(2, 500)]:
            mass = None if lo is None else DEFMASS[q] if rng.random() < .3 else rng.uniform(*lo)
            if lo is not None and rng.random() < .15:
                s = mass * rng.choice([1, 1, 1 + eps])
            check(rec, q, f, s, rng.choice([None, .1185, rng.uniform(.105, .125)]), mass)
        rec.traces += 1

    grid = [(x, k) for x in sorted(M.plans) for k in range(60 if ctx.thorough else 6)]
    vlib.parallel(ctx, plan, grid)

    # the inputs come back at the scale where they are given
    def inputs(rec, k):
        a = rec.rng.uniform(.1, .13)
        r = qcd.alpha_s(91.1876, 5, a)
        rec.check(qcdref.same(r, a), 'alpha_s(M_Z) is the input', got=r, want=a)
        for q, f in (('m_b', 5), ('m_c', 4), ('m_s', 3)):
            m = rec.rng.uniform(*MASS[q])
            r = getattr(qcd, q)(m, 2 if q == 'm_s' else m, f, alphasMZ=a)
            rec.check(qcdref.same(r, m), 'the input mass comes back', quantity=q, got=r, want=m)
        rec.traces += 1

    vlib.parallel(ctx, inputs, range(200 if ctx.thorough else 24))

    # histories: the answers do not depend on earlier ones. The worker itself never asks: a fresh copy of it answers
    # each question alone, and one copy answers them all in the order of the history
    def history(rec, h):
        rng = rec.rng
        scales = {k: rng.choice([v, rng.uniform(1.5, 300)]) for k, v in SCALES.items()}
        alphas = {1: None, 2: rng.uniform(.11, .125), 3: 0.1185}
        mass = {q: {1: DEFMASS[q], 2: rng.uniform(*MASS[q]), 3: rng.uniform(*MASS[q])} for q in MASS}
        d = rng.choice([1e-2, 1e-3, 1e-4, 1e-5, 1e-7, 1e-9, 1e-12]) * rng.choice([1, -1])
        asked = []
        for x in h:
            m = mass[x['q']][x['mass']] if x['q'] in mass else None
            s, a = scales[x['scale']], alphas[x['as']]
            if x['near'] == 'scale':
                s *= 1 + d
            elif x['near'] == 'as' and a is not None:
                a *= 1 + d
            elif x['near'] == 'mass' and m is not None:
                m *= 1 + d
            asked.append((x['q'], x['f'], s, a, m, rng.randrange(2)))
        fresh = {}
        for k in asked:
            if k not in fresh:
                fresh[k] = vlib.forked(call, *k)
        got = vlib.forked(lambda: [call(*k) for k in asked for _ in (0, 1)])
        if not rec.check(got[0] == 'ok', 'the history can be run', got=repr(got)[:300]):
            return
        for i, r in enumerate(got[1]):
            k = asked[i // 2]
            what = dict(zip(('quantity', 'f', 'scale', 'alpha_s', 'mass'), k), position=i // 2)
            f = fresh[k]
            same = f[0] == 'ok' and (f[1] == r or f[1][0] == r[0] == 'ok' and r[1] != r[1] and f[1][1] != f[1][1])
            rec.check(same or r[0] == f[1][0] == 'raise', 'the answer is the one of a fresh process', got=repr(r),
                      fresh=repr(f), **what)
            if M.defined(k[0], k[1]):
                want = M.value(k[0], k[1], k[2], 0.1185 if k[3] is None else k[3], k[4])
                rec.check(r[0] == 'ok' and qcdref.same(r[1], want, qcdref.tolerance(k[2], k[4])), 'running value', got=repr(r),
                          want=want, **what)
            else:
                rec.check(r[0] == 'raise' and r[1] == 'ValueError', 'a flavour number out of range is refused',
                          got=repr(r), **what)
        rec.traces += 1

    vlib.parallel(ctx, history, hists)

    # nonsensical arguments are refused
    for q in qs:
        for s in (0, -1, -91.1876, 0.0, '5', None):
            for f in (3, 4, 5, 6):
                r = call(q, f, s, None, DEFMASS.get(q))
                ctx.check(r[0] == 'raise', 'a scale that is no positive number is refused',
                          quantity=q, scale=repr(s), f=f, got=repr(r))
        for f in (-1, 0, 1, 2, 7, 8, 50):
            r = call(q, f, 10.0, None, DEFMASS.get(q))
            ctx.check(r[0] == 'raise', 'an impossible flavour number is refused',
                      quantity=q, f=f, got=repr(r))
