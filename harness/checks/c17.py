"""C17: user parameters override the defaults, and only for that call (Params.tla, with the formulas of Wet and Match)."""
import collections
import types

import numpy as np
import vlib
import smeft
import wet
import match
from physics import DEFAULT, ckm

SYMBOL = {'gs': {'alpha_s'}, 'mb': {'m_b', 'alpha_s'}, 'ms': {'m_s', 'alpha_s'}, 'D': {'m_b', 'm_s', 'alpha_s'}, 'e': {'alpha_e'},
          'GF': {'GF'}, 'me': {'m_e'}, 'mmu': {'m_mu'}, 'mtau': {'m_tau'}, 'r2': set(), 'pi': set()}
OTHER = {'m_W': (80.1, 81.0), 'm_Z': (91.0, 90.6), 'GF': (1.2e-5, 1.1e-5), 'alpha_e': (.0075, 1 / 130.), 'alpha_s': (.117, .1203),
         'Vus': (.22, .3), 'Vub': (3.9e-3, 2e-3), 'Vcb': (4.1e-2, .06), 'gamma': (1.1, 4.2), 'm_b': (4.2, 4.0), 'm_s': (.1, .085),
         'm_e': (5e-4, 6e-4), 'm_mu': (.106, .2), 'm_tau': (1.777, 1.9)}
OTHER = {n: v + (0.0, {'m_W': 80, 'm_Z': 91, 'gamma': 1, 'm_b': 4, 'm_tau': 2}.get(n, np.float64(v[0] * 1.01)))
         for n, v in OTHER.items()}
FAR = {'m_W': (74., 190.), 'm_Z': (30., 300.), 'GF': (9.5e-6, 8e-5), 'alpha_e': (2e-4, .013), 'alpha_s': (.1055, .126), 'm_b': (2.1, 7.5),
       'm_s': (.012, .9), 'm_e': (2e-5, .8), 'm_mu': (.002, 9.), 'm_tau': (.15, 90.), 'Vus': (.02, .7), 'Vub': (1e-4, .3), 'Vcb': (1e-3, .5),
       'gamma': (-2.5, 5.9)}


class Mine(dict):
    """A user's own kind of dictionary."""


START = {'Warsaw': 'SMEFT', 'Warsaw up': 'SMEFT'}
TO_SMEFT = ('Warsaw', 'Warsaw up', 'Warsaw mass')


def run(ctx):
    w = vlib.import_wcxf()
    from wcxf.parameters import p as defaults
    M = match.Model(ctx)
    M.register(w)
    lines, _ = ctx.emit_lines('Params')
    sim, _ = ctx.emit_lines('Params', 'ParamsSim.cfg', simulate=150 if ctx.thorough else 16, depth=40)
    calls = [l for l in lines if l['c']]
    ctx.extra['calls'] = len(calls)
    ctx.sample(calls[len(calls) // 2])
    first = dict(defaults)
    ctx.check(first == DEFAULT, 'the documented default parameters', got=first, want=DEFAULT)
    names = sorted(OTHER)
    far = dict(OTHER)
    for n, (a, b) in sorted(FAR.items()):       # the two other values: near ones, or far from anything measured
        pick = ctx.rng.choice(['far', 'far', 'far', 'mixed'])
        lo, hi = (x * ctx.rng.uniform(.95, 1.05) for x in (a, b))
        far[n] = {'far': (hi, lo), 'mixed': (hi, OTHER[n][1])}[pick] + OTHER[n][2:]
    value = lambda n, x: first[n] if x == 0 else far[n][x - 1]

    # the specification's table of dependences is that of its formulas
    dep = {l['c']: set(l['dep']) for l in calls}
    for c, ds in dep.items():
        a, b = c.split('-')
        if (a, b) in M.W.forms:
            got = set()
            for ts in M.W.forms[a, b].values():
                for _, _, _, m in ts:
                    for s, _ in m:
                        got |= SYMBOL[s] if s in SYMBOL else {'Vus', 'Vub', 'Vcb', 'gamma'}
            if got != ds:
                raise vlib.MachineryError('Params.tla and Wet.tla disagree on %s: %s' % (c, sorted(got ^ ds)))

    rng = ctx.rng
    inputs = {}
    for b in ('Warsaw', 'Warsaw up'):
        inputs[b] = match.random_smeft(M.S, rng, .15)
        inputs[b].update({k: 1e-7 * M.W.number(rng, b, k) if not M.S.keys[k][2] else 1e-7 * rng.uniform(.3, 1)
                          for k in M.S.keys if (k[:3] == 'phi' or k[:2] in ('dW', 'dB', 'dG', 'uG', 'uB')) and '_' in k})
        inputs[b].update({'phiWB': 1e-7, 'phil3_11': 2e-7, 'll_1221': 1e-7, 'uG_12': 1e-7, 'uB_33': 1e-7j})
    for b in ('JMS', 'Bern', 'flavio', 'FlavorKit'):
        inputs[b] = {k: M.W.number(rng, b, k) for k in M.W.keys[b] if rng.random() < .3 or k[:3] == 'K2R' or '_2' in k}
    scale = 91.1876
    objs = {b: w.WC(START.get(b, 'WET'), b, scale, w.WC.dict2values(d)) for b, d in inputs.items()}
    dumps = {b: o.dump() for b, o in objs.items()}

    def reference(c, eff):
        """(numbers, tolerance) of the conversion with these parameters."""
        a, b = c.split('-')
        d = inputs[a]
        if b in TO_SMEFT:
            r = M.S.mass_reference(d, ckm(eff)) if b == 'Warsaw mass' else M.rotate(d, ckm(eff), 'up' if b == 'Warsaw up' else 'down')
            return r, {k: 1e-12 * 1e-6 for k in r}
        if a in START:
            done = (['up'] if a == 'Warsaw' else []) + ['match']
            r = M.steps(d, done, scale, eff)
            t = {k: 1e-16 for k in r}
            if b == 'JMS':
                return r, t
        else:
            r = d
        mat = M.W.matrix(('JMS' if a in START else a, b), M.W.symbols(scale, eff))
        m = max(abs(v) for v in r.values())
        return wet.apply(mat, r), {k: 1e-10 * m * sum(abs(x) for _, _, x in ts) for k, ts in mat.items()}

    cache = {}

    def ref(c, eff):
        key = (c, repr(sorted(eff.items())))
        if key not in cache:
            if len(cache) > 300:
                cache.clear()
            cache[key] = reference(c, eff)
        return cache[key]

    def same(a, b, tol, rel=1e-7):
        return [k for k in set(a) | set(b) if not abs(complex(a.get(k, 0)) - complex(b.get(k, 0)))
                <= rel * abs(complex(b.get(k, 0))) + tol.get(k, 0)]

    def call(rec, l, user=None):
        """One call as described; `user` is the user's own mapping if it lives on."""
        a, b = l['c'].split('-')
        given = {x['n']: value(x['n'], x['x']) for x in l['user']}
        if user is None:
            user = dict(given)
            items = list(user.items())
            rec.rng.shuffle(items)
            user = dict(items)
        elif user != given:
            raise vlib.MachineryError('the mapping is not in the state of the specification')
        mode = l['mode']
        if mode == 'none':
            arg = None
        elif mode == 'empty':
            arg = {}
        elif mode == 'user':
            arg = user
        elif mode == 'full':
            arg = dict(first, **user)
        else:
            arg = dict({n: first[n] for n in rec.rng.sample(names, rec.rng.randint(1, 5))}, **user)
        if arg is not None and rec.rng.random() < .3:       # any kind of mapping will do
            arg = rec.rng.choice([collections.OrderedDict, types.MappingProxyType, Mine])(arg)
        before = dict(arg) if arg is not None else None
        kw = {} if arg is None and rec.rng.random() < .5 else {'parameters': arg}
        o = objs[a]
        r = o.translate(b, **kw) if b in TO_SMEFT or o.eft == 'WET' else o.match('WET', b, **kw)
        eff = {x['n']: value(x['n'], x['x']) for x in l['eff']}
        want, tol = ref(l['c'], eff)
        bad = same(r.dict, want, tol)
        rec.check(not bad, 'the result for these parameters', conversion=l['c'], mode=mode, given=before,
                  wrong={k: [repr(r.dict.get(k, 0)), repr(want.get(k, 0))] for k in sorted(bad)[:4]}, number=len(bad))
        rec.check((None if arg is None else dict(arg)) == before, "the user's mapping is unchanged", conversion=l['c'], before=before, after=arg)
        rec.check(dict(defaults) == first, 'the defaults are unchanged', conversion=l['c'], mode=mode,
                  changed={k: v for k, v in defaults.items() if first.get(k) != v})
        rec.check(o.dump() == dumps[a], 'the input is unchanged')
        return r.dict

    # every conversion, every way of passing parameters, every single parameter
    byname = {}
    for l in calls:
        byname.setdefault((l['c'], repr(sorted((x['n'], x['x']) for x in l['user']))), []).append(l)

    def group(rec, ls):
        ls = list(ls)
        if not ctx.thorough and ls[0]['user'] and ls[0]['user'][0]['x'] == 2 and rec.rng.random() < .6:
            return
        if not ctx.thorough and len(ls[0]['user']) and ls[0]['user'][0]['x'] == 0:
            ls = [rec.rng.choice(ls)]
        elif not ctx.thorough and ls[0]['user']:
            ls = [l for l in ls if l['mode'] == 'user'] + [rec.rng.choice([l for l in ls if l['mode'] not in ('user', 'empty')])] + \
                 ([l for l in ls if l['mode'] == 'none'] if rec.rng.random() < .5 else [])
        out = []
        for l in ls:
            out.append((l['eff'], call(rec, l)))
        for e1, r1 in out:
            for e2, r2 in out:
                if e1 == e2:
                    rec.check(not same(r1, r2, ref(ls[0]['c'], {})[1], 1e-11), 'equal parameters, equal results',
                              conversion=ls[0]['c'], eff=e1)
        # parameters that enter have an effect, the others have none
        x = ls[0]['user']
        if x and x[0]['x'] and 'none' not in {l['mode'] for l in ls}:
            d0 = call(rec, {'c': ls[0]['c'], 'user': [], 'mode': 'none', 'eff': []})
            e, r = out[0]
            if e:
                tol = ref(ls[0]['c'], {})[1]
                changed = bool(same(r, d0, tol, 1e-10))
                depends = x[0]['n'] in dep[ls[0]['c']]
                exp = {n: value(n, y) for n, y in [(x[0]['n'], x[0]['x'])]}
                if depends and not same(ref(ls[0]['c'], exp)[0], ref(ls[0]['c'], {})[0], {k: 10 * v for k, v in tol.items()}, 1e-9):
                    return                  # this input does not show the dependence
                rec.check(changed == depends, 'exactly the results that depend on it follow a parameter',
                          conversion=ls[0]['c'], parameter=x[0])
        rec.traces += 1

    vlib.parallel(ctx, group, sorted(byname.values(), key=lambda ls: ls[0]['c']))

    # histories: one mapping that the user changes between calls
    def history(rec, b):
        user = {}
        for s in b:
            new = {x['n']: value(x['n'], x['x']) for x in s['user']}
            for n in list(user):
                if n not in new:
                    del user[n]
            user.update(new)
            if s['c']:
                call(rec, s, user)
        rec.traces += 1

    vlib.parallel(ctx, history, vlib.behaviours(sim))
