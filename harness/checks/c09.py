"""C09: conversions have no side effects and no memory (Conv.tla)."""
import copy
import io
import json
import os
import multiprocessing as mp

import vlib
import wet
import match

SCALES = {'SMEFT': 160.0, 'WET': 4.8, 'WET-4': 2.0, 'WET-3': 2.0}
EXTRA = {'metadata': {'generator': 'x', 'list': [1, 2], 'nested': {'a': {'b': 1.0}}}, 'tags': ['a']}
PARAMS = {('none', 0): None}


def tup(x):
    return tuple(tup(y) for y in x) if isinstance(x, list) else x


def freeze(x, depth=0):
    """Deep, comparable picture of registries and objects."""
    if isinstance(x, dict):
        return ('d', tuple((repr(k), freeze(v, depth + 1)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return ('l', tuple(freeze(v, depth + 1) for v in x))
    if isinstance(x, (set, frozenset)):
        return ('s', tuple(sorted(repr(v) for v in x)))
    return (type(x).__name__, repr(x) if not callable(x) else id(x))


def registries(w):
    from wcxf.parameters import p
    return {'parameters': freeze(p),
            'EFT': freeze({k: {a: b for a, b in vars(v).items() if a[0] != '_'} for k, v in w.EFT.instances.items()}),
            'Basis': freeze({k: {a: b for a, b in sorted(vars(v).items()) if a[0] != '_'} for k, v in w.Basis.instances.items()}),
            'Basis coefficients': freeze({k: list(v.all_wcs) for k, v in w.Basis.instances.items()}),
            'Translator': freeze({k: v.function for k, v in w.Translator.instances.items()}),
            'Matcher': freeze({k: v.function for k, v in w.Matcher.instances.items()})}


def differ(a, b):
    m = max([abs(v) for v in a.values()] + [abs(v) for v in b.values()] + [0])
    return [k for k in set(a) | set(b)
            if not abs(complex(a.get(k, 0)) - complex(b.get(k, 0))) <= 1e-9 * abs(complex(b.get(k, 0))) + 1e-12 * m]


def run(ctx):
    global _STEP
    w = vlib.import_wcxf()
    M = match.Model(ctx)
    M.register(w, ctx.rng)
    for b in list(w.Basis.instances.values()):          # definitions of every kind
        for k in b.sectors['all']:
            b.sectors['all'][k] = ctx.rng.choice([None, {}, {'real': True}, {'tex': 'x'}, {'real': False, 'tex': r'C_{12}'}])
        b.metadata = {'description': 'text', 'list': [1, {'a': None}]}
    ctx.tlc('Conv', 'ConvFull.cfg' if ctx.thorough else 'Conv.cfg', workers=8, timeout=1500)
    sim, _ = ctx.emit_lines('Conv', 'ConvSim.cfg', simulate=400 if ctx.thorough else 60, depth=26)
    behs = vlib.behaviours(sim)
    # long ones without anything but conversions of many objects
    sim, _ = ctx.emit_lines('Conv', 'ConvLong.cfg', simulate=160 if ctx.thorough else 24, depth=92)
    behs += vlib.behaviours(sim)
    # one object, one parameter after the other
    twin, _ = ctx.emit_lines('ConvTwin')
    groups = {}
    for l in twin:
        groups.setdefault(tup(l['edge']), []).append(l)
    behs += [sorted(ls, key=lambda l: l['lvl']) for _, ls in sorted(groups.items())]
    ctx.extra['behaviours'] = len(behs)
    ctx.sample([s['last'] for s in behs[0]][:12])
    rng = ctx.rng
    mappings = {}
    for m in ('m1', 'm2'):
        cur = wet.random_parameters(rng)
        for v in range(4):
            mappings[m, v] = dict(cur)
            PARAMS[m, v] = dict(cur)
            if rng.random() < .3 and len(cur) > 1:
                del cur[rng.choice(sorted(cur))]
            else:
                cur.update(wet.random_parameters(rng, rng.random() < .2))
            full = wet.random_parameters(rng, True)
            cur.update({k: full[k] for k in ('alpha_s', 'm_b', 'm_s', 'Vcb', 'gamma', 'alpha_e', 'm_W', 'm_mu') if rng.random() < .4})
    full, cur = wet.random_parameters(rng, True), {}
    order = rng.sample(sorted(full), len(full))
    # (first one more each time, then other values of the same ones)
    full2 = wet.random_parameters(rng, True)
    for v in range(19):
        mappings['m3', v] = dict(cur)
        PARAMS['m3', v] = dict(cur)
        if v < len(order):
            cur[order[v]] = full[order[v]]
        elif v < 18:
            cur.update({k: full2[k] for k in order[v % 4::4]})
    assert len(order) <= 14
    start = {}
    for node, kind in sorted({tup(s['last'][1:]) for b in behs for s in b if s['last'][0] == 'make'}):
        eft, basis = node
        dens = {'many': .7, 'few': .02, 'none': 0}[kind]
        if eft == 'SMEFT':
            d = match.random_smeft(M.S, rng, dens)
        else:
            d = {k: M.W.number(rng, basis, k) for k in sorted(M.bases[eft, basis]) if rng.random() < dens}
        start[node, kind] = w.WC.dict2values(d)

    def fresh_object(node, kind):
        return w.WC(node[0], node[1], SCALES[node[0]], copy.deepcopy(start[node, kind]),
                    **copy.deepcopy(EXTRA))

    def convert(o, node, par):
        kw = {} if par is None else {'parameters': par}
        return o.translate(node[1], **kw) if node[0] == o.eft else o.match(node[0], node[1], **kw)

    # what every provenance gives in a process that has done nothing else: step by step, one process for each
    provs = {tup(s['prov']) for b in behs for s in b if s['prov']}
    provs |= {p[:k] for p in list(provs) for k in range(1, len(p) + 1)}
    pure = {}
    ctx.extra['provenances'] = len(provs)
    for n in sorted({len(p) for p in provs}):
        todo = sorted(p for p in provs if len(p) == n)
        if n == 1:
            for p in todo:
                pure[p] = (p[0][1], SCALES[p[0][1][0]], start[p[0][1:]], EXTRA)
            continue
        def step(p):
            node, scale, values, extra = pure[p[:-1]]
            o = w.WC(node[0], node[1], scale, copy.deepcopy(values), **copy.deepcopy(extra))
            par = PARAMS[p[-1][1]]
            r = convert(o, p[-1][0], None if par is None else dict(par))
            return p[-1][0], r.scale, r.values, {k: v for k, v in vars(r).items() if k[0] != '_' and k not in ('eft', 'basis', 'scale', 'values')}
        _STEP = step
        with mp.get_context('fork').Pool(8, maxtasksperchild=1) as pool:
            for p, r in zip(todo, pool.map(_step, todo, chunksize=1)):
                if isinstance(r, Exception):
                    ctx.fail('a conversion failed in a fresh process', provenance=p, error=repr(r))
                    return
                pure[p] = r

    def numbers(values):
        return {k: complex(v.get('Re', 0), v.get('Im', 0)) if isinstance(v, dict) else complex(float(v)) for k, v in values.items()}

    targets = {}
    for k in w.Translator.instances:
        targets.setdefault(tuple(k[:2]), []).append((k[0], k[2]))
    for k in w.Matcher.instances:
        targets.setdefault(tuple(k[:2]), []).append(tuple(k[2:]))

    def detour(rng, node, o=None):
        """Other definitions for a while; what conversions give meanwhile is left open."""
        b = w.Basis[node]
        doc = {k: v for k, v in vars(b).items() if k[0] != '_'}
        names = list(b.sectors['all'])
        # at least one of each operator, other ones in addition
        keep = {n.split('_')[0]: n for n in rng.sample(names, len(names))}
        some = [n for n in names if rng.random() < .5 or keep[n.split('_')[0]] == n] if rng.random() < .8 else []
        w.Basis(node[0], node[1], {'all': {n: None for n in some + rng.choice([[], ['nonsense_1', 'nonsense_1111']])}})
        o = o or w.WC(node[0], node[1], SCALES.get(node[0], 2.0), {n: 1.0 for n in some[:3]})
        for t in rng.sample(targets.get(node, []), min(2, len(targets.get(node, [])))):
            vlib.outcome(convert, o, t, rng.choice([None, {}, {'Vus': .3}]))
        w.Basis(**doc)

    def look(rec, o, how):
        if how == 'detour':
            return detour(rec.rng, (o.eft, o.basis), o)
        if how == 'dump':
            return o.dump()
        if how == 'yaml':
            return o.dump(fmt='yaml')
        if how == 'validate':
            # (the smaller bases are arbitrary here, so objects need not fit them)
            return vlib.outcome(o.validate)
        if how == 'text':
            return str(o), repr(o), o._repr_markdown_()
        if how == 'numbers':
            return dict(o.dict)
        if how == 'names':
            return w.EFT[o.eft].known_bases, list(w.Basis[o.eft, o.basis].all_wcs)
        if how == 'translators':
            return w.Basis[o.eft, o.basis].known_translators, w.EFT[o.eft].known_translators
        b, e = w.Basis[o.eft, o.basis], w.EFT[o.eft]
        return b.dump(), e.dump(fmt='yaml'), repr(b), b._repr_markdown_(), b._markdown_tables(), repr(e), vlib.outcome(b.validate)

    def poke(o, how):
        if how == 'values':
            for k in list(o.values)[::2]:
                o.values[k] = 12345.0
        elif how == 'nested':
            for v in o.values.values():
                if isinstance(v, dict):
                    v['Re'] = 777.0
                    v['Im'] = -1.0
        elif how == 'dict':
            d = o.dict
            for k in list(d):
                d[k] = 99.0
            d['nonsense'] = 1
        else:
            o.values['nonsense_11'] = {'Re': 1.0}
            o.scale = 17.0
            o.eft = 'other'
            if hasattr(o, 'metadata'):
                o.metadata['list'].append(3)
                o.metadata['nested']['a']['b'] = 2.0
                o.tags[:] = ['changed']

    # what the user has from outside: the values of an EOS installation
    eosnames = sorted({n for n in M.W.keys['EOS'] if rng.random() < .5})[:60]
    install = {}
    for n in eosnames:
        a, b = n.rsplit('::', 1)
        for x in rng.choice([[n], [a + '::Re{' + b + '}', a + '::Im{' + b + '}']]):
            install[x] = {'central': rng.uniform(-1, 1), 'min': -2.0, 'max': 3.0}
    install0 = copy.deepcopy(install)

    def export(o, how):
        from wcxf.converters import eos, smeftsim, yamljson
        if how == 'eos':
            return eos.wcxf2eos(o, install)
        if how in ('cardA', 'cardB'):
            return smeftsim.smeftsim_card_fill(smeftsim.initialize_smeftsim_card(how[-1]), o, how[-1], 1000.0, 'alpha')
        s = io.StringIO()
        if how == 'json':
            st = yamljson.convert_json(io.StringIO(o.dump(fmt='yaml')), s)
        else:
            st = yamljson.convert_yaml(io.StringIO(o.dump()), s)
        return [st, s.getvalue()]

    def spoil(x):
        """Change everything that can be changed in what a converter returned."""
        if isinstance(x, dict):
            for v in list(x.values()):
                spoil(v)
            for k in list(x):
                if not isinstance(x[k], (dict, list)):
                    x[k] = 4711
            x['nonsense'] = 1
        elif isinstance(x, list):
            for v in x:
                spoil(v)
            x[:] = ['nonsense']

    # exports in processes that have done nothing else
    wanted = sorted({(tup(s['out']['of']), s['out']['how']) for b in behs for s in b if s['out']['of']}, key=repr)
    ctx.extra['exports'] = len(wanted)

    def step(x):
        node, scale, values, extra = pure[x[0]]
        return freeze(export(w.WC(node[0], node[1], scale, copy.deepcopy(values), **copy.deepcopy(extra)), x[1]))
    _STEP = step
    exported = {}
    with mp.get_context('fork').Pool(8, maxtasksperchild=1) as pool:
        for x, r in zip(wanted, pool.map(_step, wanted, chunksize=1)):
            if isinstance(r, Exception):
                ctx.fail('a converter failed in a fresh process', provenance=x, error=repr(r))
                return
            exported[x] = r
    # (in a process of its own: nothing is computed here before the replays)
    _STEP = lambda _: registries(w)
    with mp.get_context('fork').Pool(1, maxtasksperchild=1) as pool:
        reg0 = pool.map(_step, [0])[0]
    if isinstance(reg0, Exception):
        raise reg0

    def replay(rec, b):
        objs, snaps = [], []
        if rec.rng.random() < .3:      # the definitions may have been others before
            for node in list(w.Basis.instances):
                detour(rec.rng, node)
        user = {m: dict(mappings[m, 0]) for m in ('m1', 'm2', 'm3')}
        outs, osnaps = [], []
        hist = []
        for n, s in enumerate(b):
            act = s['last']
            hist.append(act if act[0] != 'convert' else [act[0], act[1], '/'.join(act[2]), act[3]])
            before = {m: dict(u) for m, u in user.items()}
            if act[0] == 'make':
                objs.append(fresh_object(*tup(act[1:])))
                snaps.append(objs[-1].dump())
            elif act[0] == 'convert':
                i, node, par = act[1] - 1, tup(act[2]), act[3]
                r = convert(objs[i], node, None if par == 'none' else user[par])
                prov = tup(s['prov'])
                pnode, pscale, pvalues = pure[prov][:3]
                want, got = numbers(pvalues), dict(r.dict)
                bad = differ(got, want)
                rec.check(not bad and r.scale == pscale and (r.eft, r.basis) == pnode,
                          'the same result as in a fresh process', provenance=prov[1:], history=hist,
                          wrong={k: [repr(got.get(k, 0)), repr(want.get(k, 0))] for k in sorted(bad)[:4]}, number=len(bad))
                rec.check(r is not objs[i] and r.values is not objs[i].values, 'the result is a new object')
                objs.append(r)
                snaps.append(r.dump())
            elif act[0] == 'look':
                look(rec, objs[act[1] - 1], act[2])
            elif act[0] == 'export':
                r = vlib.outcome(export, objs[act[1] - 1], act[2])
                x = s['out']
                outs.append(r[1])
                osnaps.append(freeze(r[1]))
                # (rounding may differ from process to process; exports are compared where the objects are the very same)
                exact = freeze(objs[act[1] - 1].values) == freeze(pure[tup(x['of'])][2])
                rec.check(r[0] == 'ok' and (not exact or osnaps[-1] == exported[tup(x['of']), x['how']]), 'the same export as in a fresh process',
                          how=act[2], history=hist, provenance=x['of'], got=repr(r)[:300])
            elif act[0] == 'spoil':
                spoil(outs[act[1] - 1])
                osnaps[act[1] - 1] = None
            elif act[0] == 'poke':
                poke(objs[act[1] - 1], act[2])
                snaps[act[1] - 1] = None
            else:
                m = act[1]
                user[m].clear()
                user[m].update(mappings[m, s['ver'][m]])
                before[m] = dict(user[m])
            if len(b) > 26 and n < len(b) - 1 and rec.rng.random() > .1:
                continue                     # long history: not after every step
            for k, (o, t) in enumerate(zip(objs, snaps)):
                if t is not None:
                    rec.check(o.dump() == t, 'an object is left alone', object=k + 1, action=act, history=hist)
                    if rec.rng.random() < .1:
                        rec.check(not differ(dict(o.dict), numbers(json.loads(t)['values'])), 'its numbers are left alone',
                                  object=k + 1, action=act)
            for k, (o, t) in enumerate(zip(outs, osnaps)):
                rec.check(t is None or freeze(o) == t, 'an export is left alone', export=k + 1, action=act, history=hist)
            rec.check(install == install0, "the EOS installation's values are left alone", action=act)
            rec.check(user == before, "the user's parameters are left alone", action=act, before=before, after=user)
            reg = registries(w) if act[0] != 'look' or rec.rng.random() < .3 else reg0
            rec.check(reg == reg0, 'the registries and default parameters are left alone', action=act,
                      changed=[k for k in reg0 if reg[k] != reg0[k]])
        rec.traces += 1

    vlib.parallel(ctx, replay, behs)

    # objects that come and go (ConvPass.tla)
    seqs, _ = ctx.emit_lines('ConvPass', workers=1)
    edges = sorted(groups)
    start2, names = {}, ['base', 'other', 'exchanged', 'digits', 'conjugate', 'near', 'nearer']
    for node in sorted({e[0] for e in edges}):
        a = start[node, 'many']
        ks = sorted(a)
        def conj(v):
            return {'Re': v['Re'], 'Im': -v['Im']} if isinstance(v, dict) else v
        def times(v, x):
            return {k: y * x for k, y in v.items()} if isinstance(v, dict) else v * x
        cplx = [k for k in ks if isinstance(a[k], dict)]       # (the numbers may all be real)
        i, j = rng.sample(cplx if len(cplx) > 1 else ks, 2)
        d = rng.choice(ks)
        other = match.random_smeft(M.S, rng, 1) if node[0] == 'SMEFT' else {k: M.W.number(rng, node[1], k) for k in ks}
        other = w.WC.dict2values({k: other.get(k, 1.0) for k in ks})
        sc = SCALES[node[0]]
        start2[node] = {'base': (sc, a), 'other': (sc, other), 'exchanged': (sc, dict(a, **{i: a[j], j: a[i]})), 'digits': (sc, dict(a, **{d: times(a[d], 1 + 1e-6)})),
                        'conjugate': (sc, {k: conj(v) for k, v in a.items()}), 'near': (sc * (1 + 1e-4), a), 'nearer': (sc * (1 + 1e-6), a)}

    def once(e, v, par):
        sc, values = start2[e[0]][v]
        o = w.WC(e[0][0], e[0][1], sc, values)
        return o, convert(o, e[1], None if par == 'none' else dict(mappings['m1', 0]))

    def step(x):
        r = once(*x)[1]
        return r.eft, r.basis, r.scale, numbers(r.values)
    todo = [(e, v, par) for e in edges for v in names for par in ('none', 'm1')]
    _STEP, alone = step, {}
    with mp.get_context('fork').Pool(8, maxtasksperchild=1) as pool:
        for x, r in zip(todo, pool.map(_step, todo, chunksize=1)):
            if isinstance(r, Exception):
                ctx.fail('a conversion failed in a fresh process', conversion=x, error=repr(r))
                return
            alone[x] = r

    def passing(rec, job):
        e, runs = job
        held, hist = [], []
        for run_ in runs:
            for (v, fate), res in zip(run_['seq'], run_['res']):
                hist.append([v, fate, res[1]])
                o, r = once(e, v, res[1])
                want = alone[e, res[0], res[1]]
                got = dict(r.dict)
                bad = differ(got, want[3])
                rec.check(not bad and (r.eft, r.basis, r.scale) == want[:3], 'the same result as in a fresh process, whatever became of objects before', conversion=e,
                          history=hist, wrong={k: [repr(got.get(k, 0)), repr(want[3].get(k, 0))] for k in sorted(bad)[:4]}, number=len(bad))
                if fate == 'keep':
                    held.append((o, r))
                del o, r
        # one after the other, nothing kept in between
        for v in ['base', 'other', 'conjugate', 'exchanged'] * 2:
            bad = differ(once(e, v, 'none')[1].dict, alone[e, v, 'none'][3])
            rec.check(not bad, 'the same result as in a fresh process, with nothing kept', conversion=e, input=v, number=len(bad))
        rec.traces += len(runs)
    vlib.parallel(ctx, passing, [(e, rng.sample(seqs, 60 if ctx.thorough else 8 if e[0][0] != 'SMEFT' else 5)) for e in edges])


def _step(p):
    try:
        return _STEP(p)
    except Exception as e:
        return RuntimeError(repr(e)[:500])
