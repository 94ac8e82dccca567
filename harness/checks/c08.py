"""C08: translate and match run the registered function and label the result."""
import math
import vlib
import disp
from disp import NUM, CALLS


def run(ctx):
    w = vlib.import_wcxf()
    import numpy as np
    states, edges, behs = disp.generate(ctx, simulate=200 if ctx.thorough else 30, depth=30)
    PARS = [None, {}, {'Vus': 0.2}, {'x': object()}]
    SCALES = [160, 1e3, 4.8, 91.1876, '2', 91.18761234567891, 1 / 3., 4.180000000000001, 1e-12, 1e22, '1e3',
              np.float64(80.37900000000001), np.int64(5)]

    def value(v):
        x = NUM[v]
        if isinstance(x, complex):
            return {'Re': x.real, 'Im': x.imag}
        return x

    def same(got, want):
        """exact equality of number dictionaries"""
        return set(got) == set(want) and all(eq(complex(got[k]), complex(want[k])) for k in want)

    def eq(a, b):
        return all(x == y or x != x and y != y for x, y in ((a.real, b.real), (a.imag, b.imag)))

    def query(rec, q, kind):
        vals = disp.norm(q['obj']['vals'])
        scale = rec.rng.choice(SCALES)
        par = rec.rng.choice(PARS)
        o = w.WC(disp.NM.e[q['obj']['eft']], disp.NM.b[q['obj']['basis']], scale, {k: value(v) for k, v in vals.items()})
        if rec.rng.random() < .3:
            o.dict
        del CALLS[:]
        if kind == 't':
            args = (disp.NM.b[q['to']],)
            f = o.translate
        else:
            args = (disp.NM.e[q['eft']], disp.NM.b[q['to']])
            f = o.match
        kw = {} if par is None and rec.rng.random() < .5 else {'parameters': par}
        r = vlib.outcome(f, *args, **kw)
        want = q['r']
        if not want['ok']:
            rec.check(r[0] == 'raise' and r[1] == 'ValueError' and not CALLS,
                      'a missing conversion is refused', query=q, got=repr(r), calls=len(CALLS))
            return
        if not rec.check(r[0] == 'ok', 'a registered conversion runs', query=q, got=repr(r)):
            return
        out = r[1]
        rec.check(len(CALLS) == 1, 'the function is called exactly once', query=q, calls=len(CALLS))
        name, C, sc, pa = CALLS[0]
        rec.check(name == want['fn'], 'the registered function is called', query=q, got=name)
        rec.check(same(C, {k: NUM[v] for k, v in disp.norm(want['given']).items()}),
                  'it receives the numbers of the object', query=q, got=repr(C))
        rec.check(sc == float(scale) and isinstance(sc, float), 'it receives the scale', got=repr(sc))
        rec.check(pa is par or pa == par, 'it receives the parameters', got=repr(pa))
        rec.check(isinstance(out, w.WC) and (out.eft, out.basis) == (disp.NM.e[want['eft']], disp.NM.b[want['basis']]),
                  'labels of the result', query=q, got=repr(out))
        rec.check(out.scale == float(scale), 'scale of the result', got=repr(out.scale))
        rec.check(same(out.dict, {k: NUM[v] for k, v in disp.norm(want['values']).items()}),
                  'values of the result', query=q, got=repr(out.dict))
        rec.check(same(o.dict, {k: NUM[v] for k, v in vals.items()}), 'the input is unchanged')

    def do_state(rec, v):
        disp.build(w, v['trans'], v['match'], rec.rng)
        tq, mq = v['tq'], v['mq']
        if not ctx.thorough:
            tq = [q for q in tq if q['r']['ok'] or rec.rng.random() < .3]
            mq = [q for q in mq if q['r']['ok'] or rec.rng.random() < .2]
        for q in tq:
            query(rec, q, 't')
        for q in mq:
            query(rec, q, 'm')
        rec.traces += 1

    vlib.parallel(ctx, do_state, states)
    ctx.sample({'registry': states[-1]['trans'], 'query': states[-1]['tq'][:2]})

    def do_beh(rec, steps):
        disp.build(w, [], [], rec.rng)
        for l in steps:
            disp.act(w, rec.rng, l['act'])
            for q in rec.rng.sample(l['v']['tq'], 6):
                query(rec, q, 't')
            for q in rec.rng.sample(l['v']['mq'], 6):
                query(rec, q, 'm')
        rec.traces += 1

    vlib.parallel(ctx, do_beh, behs)

    # the numbers returned by a function: all kinds and magnitudes, zeros of any type dropped
    def do_nums(rec, k):
        rng = rec.rng
        odd = rng.random() < .1         # not a number, infinity

        def num():
            m = rng.choice([0, 0, 1, 1e-300, 5e-324, 1e308, 1e-16, 3.3, -2] + [float('nan'), float('inf')] * odd)
            x = m * rng.choice([1, -1, 0.7])
            y = rng.choice([0, 0, 1, 5e-324, -1e-20, 1e300])
            t = rng.choice(['int', 'float', 'complex', 'np64', 'npc', 'imag', 'npi', 'np32', 'npc64'])
            # (single precision numbers: those that double precision has, too)
            f32 = lambda z: float(np.float32(max(-1e38, min(1e38, z)))) if z == z else z
            return {'int': int(max(-5, min(5, x if x == x else 0))), 'float': float(x), 'complex': complex(x, y),
                    'np64': np.float64(x), 'npc': np.complex128(complex(x, y)),
                    'imag': complex(0, y), 'npi': np.int64(max(-5, min(5, x if x == x else 0))),
                    'np32': np.float32(f32(x)), 'npc64': np.complex64(complex(f32(x), f32(y)))}[t]
        ret = {'c%d' % i: num() for i in range(rng.randint(0, 12))}
        snap = dict(ret)
        calls = []

        def fun(C, scale, parameters):
            calls.append((dict(C), scale, parameters))
            return ret
        w.Translator.clear_all()
        w.Matcher.clear_all()
        w.translator('A', 'x', 'y')(fun)
        w.matcher('A', 'x', 'B', 'z')(fun)
        o = w.WC('A', 'x', 10 ** rng.uniform(0, 4), {'p': 1.0})
        for out, eft, basis in [(o.translate('y'), 'A', 'y'), (o.match('B', 'z', None), 'B', 'z'),
                                (w.Translator['A', 'x', 'y'].translate(o), 'A', 'y'),
                                (w.Matcher['A', 'x', 'B', 'z'].match(o, parameters={}), 'B', 'z')]:
            want = {c: v for c, v in snap.items() if v != 0}
            rec.check(same(out.dict, want), 'exactly the non-zero numbers', returned=repr(snap),
                      got=repr(out.dict))
            rec.check(out.scale == o.scale and (out.eft, out.basis) == (eft, basis), 'labels and scale')
            rec.check(same(ret, snap), "the function's own result is not modified")
            txt = out.dump(fmt=rng.choice(['json', 'yaml']))
            back = w.WC.load(txt)
            rec.check(odd or same(back.dict, want), 'the result can be written and read', got=txt[:300])
        rec.check(len(calls) == 4, 'one call per conversion', calls=len(calls))
        rec.traces += 1

    # errors of the function are the caller's
    class Own(Exception):
        pass

    ERRORS = (KeyError, AttributeError, ValueError, TypeError, ZeroDivisionError, Own, IndexError)

    def do_raise(rec, n):
        calls = []
        err = ERRORS[n]('text')

        def fun(C, scale, parameters):
            calls.append(1)
            raise err
        w.Translator.clear_all()
        w.Matcher.clear_all()
        w.translator('A', 'x', 'y')(fun)
        w.matcher('A', 'x', 'B', 'z')(fun)
        o = w.WC('A', 'x', 5, {'p': 1.0})
        for f in (lambda: o.translate('y'), lambda: o.match('B', 'z'), lambda: w.Translator['A', 'x', 'y'].translate(o),
                  lambda: w.Matcher['A', 'x', 'B', 'z'].match(o)):
            try:
                r = f()
            except Exception as e:
                r = e
            rec.check(r is err, 'an error of the function reaches the caller', error=repr(err), got=repr(r))
        rec.check(len(calls) == 4, 'one call per conversion, also a failing one', calls=len(calls), error=repr(err))

    vlib.parallel(ctx, do_raise, range(len(ERRORS)))

    vlib.parallel(ctx, do_nums, range(4000 if ctx.thorough else 600))
    ctx.extra['states_replayed'] = len(states)
    ctx.extra['behaviours_replayed'] = len(behs)
