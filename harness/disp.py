"""Binding of spec/Dispatch.tla to the implementation (C05 C08)."""
import vlib
from reg import Names

NUM = {'0': 0.0, '0c': 0j, 'r': 0.25, 'n': -3.5e-7, 'c': 1.5 - 2.25j, 'i': 7j, 'tiny': 5e-324}
TK = [('A', 'x', 'y'), ('A', 'y', 'x'), ('B', 'x', 'y')]
MK = [('A', 'x', 'B', 'x'), ('A', 'y', 'B', 'x'), ('A', 'x', 'A', 'y')]
CALLS = []
NM = Names()


def ckey(k):
    """Concrete key for the abstract <<eft, from, to>> or <<eft, from, eft2, to>>."""
    if len(k) == 3:
        return (NM.e[k[0]], NM.b[k[1]], NM.b[k[2]])
    return (NM.e[k[0]], NM.b[k[1]], NM.e[k[2]], NM.b[k[3]])


def keep(C, scale, parameters):
    CALLS.append(('keep', dict(C), scale, parameters))
    return dict(C)


def mix(C, scale, parameters):
    CALLS.append(('mix', dict(C), scale, parameters))
    return {'m1': C.get('q', 0), 'm2': C.get('p', 0), 'z': 0}


FUN = {'keep': keep, 'mix': mix}


def norm(m):
    return m if isinstance(m, dict) else {}


def reg(trans, match):
    return {'t': {tuple(x['key']): x['fn'] for x in trans},
            'm': {tuple(x['key']): x['fn'] for x in match}}


def generate(ctx, simulate=None, depth=30):
    lines, _ = ctx.emit_lines('Dispatch', 'Dispatch.cfg')
    states = [l['v'] for l in lines if l['t'] == 'state']
    edges = [l for l in lines if l['t'] == 'edge']
    behs = []
    if simulate:
        sl, _ = ctx.emit_lines('Dispatch', 'DispatchSim.cfg', simulate=simulate, depth=depth)
        behs = vlib.behaviours(sl)
    return states, edges, behs


def define(w, kind, key, fn):
    f = FUN[fn]
    key = ckey(key)
    if kind == 'trans':
        r = w.translator(*key)(f)
    else:
        r = w.matcher(*key)(f)
    if r is not f:
        raise AssertionError('decorator does not return the function')


def build(w, trans, match, rng=None):
    global NM
    NM = Names(rng)
    w.Translator.clear_all()
    w.Matcher.clear_all()
    for x in trans:
        if rng is not None and rng.random() < .5:
            w.Translator(*ckey(x['key']), FUN[x['fn']])
        else:
            define(w, 'trans', x['key'], x['fn'])
    for x in match:
        define(w, 'match', x['key'], x['fn'])


def observe(w):
    out = {'t': {}, 'm': {}}
    for k in TK + [('B', 'y', 'x'), ('A', 'x', 'x'), ('C', 'x', 'y'), ('A', 'w', 'y')]:
        try:
            out['t'][k] = w.Translator[ckey(k)].function.__name__
        except (KeyError, AttributeError):
            pass
    for k in MK + [('B', 'x', 'A', 'x'), ('A', 'y', 'A', 'x'), ('A', 'w', 'B', 'x')]:
        try:
            out['m'][k] = w.Matcher[ckey(k)].function.__name__
        except (KeyError, AttributeError):
            pass
    return out


def act(w, rng, a):
    k = tuple(a['key'])
    op = a['op']
    if op in ('trans', 'match'):
        C = w.Translator if op == 'trans' else w.Matcher
        if rng.random() < .5:       # the object defined is the one found, also if another one just like it was there
            x = C(*(ckey(k) + (FUN[a['fn']],)))
            y = C[ckey(k)]
            return 'ok' if x is y and C.get_instance(ckey(k)) is x else 'another object is found'
        f = rng.choice([lambda: define(w, op, k, a['fn']), lambda: C(*(ckey(k) + (FUN[a['fn']],)))])
    else:
        C = w.Translator if op == 'deltrans' else w.Matcher
        f = rng.choice([lambda: C.del_instance(ckey(k)), lambda: type(C).__delitem__(C, ckey(k))])
    r = vlib.outcome(f)
    return 'ok' if r[0] == 'ok' else r[1]


def known(w, rec, v, held=None):
    """Listings of known translators; `held`: objects the user has kept from before."""
    held = {} if held is None else held
    w.EFT.clear_all()
    w.Basis.clear_all()
    # the listings do not depend on which bases and EFTs are registered
    rng = rec.rng
    if rng.random() < .4:
        for e in rng.sample(('A', 'B', 'C'), rng.randint(0, 3)):
            w.EFT(NM.e[e], {'s': {}})
        for e, b in rng.sample([(e, b) for e in 'ABC' for b in 'xyw'], rng.randint(0, 4)):
            w.Basis(NM.e[e], NM.b[b], {'s': {}})
    alone = rng.random() < .5
    for e in rng.sample(v['kt'], len(v['kt'])):
        if alone:
            w.EFT.clear_all()
        eft = held.get(e['eft'])
        if eft is None or rng.random() < .2:
            eft = held[e['eft']] = w.EFT(NM.e[e['eft']], {'s': {}})
        got = sorted(tuple(t) for t in eft.known_translators)
        rec.check(got == sorted(ckey(k) for k in e['all']), 'known translators of an EFT',
                  eft=e['eft'], got=got, expected=e['all'])
        for d in rng.sample(('from', 'to'), 2):
            for b in rng.sample(e[d], len(e[d])):
                if alone:
                    w.Basis.clear_all()
                bas = held.get((e['eft'], b['b']))
                if bas is None or rng.random() < .2:
                    bas = held[e['eft'], b['b']] = w.Basis(NM.e[e['eft']], NM.b[b['b']], {'s': {}})
                kt = bas.known_translators
                got = sorted(tuple(t) for t in kt[d])
                rec.check(got == sorted(ckey(k) for k in b['k']) and set(kt) == {'from', 'to'},
                          'known translators of a basis', eft=e['eft'], basis=b['b'],
                          direction=d, got=got, expected=b['k'])
