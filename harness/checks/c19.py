"""C19: the SMEFTsim card states every coefficient once, at its place (Smeftsim.tla, Cards.tla)."""
import copy
import io
import json
import math
import os
import re

import vlib
import cliutil
import smeft

PREC = 5.2e-7          # the card has seven significant digits


def parse(text):
    """Entries of a card: {(block, code): (value text, label)}, and the places that occur twice."""
    out, twice, bad = {}, [], []
    block = None
    for line in text.split('\n'):
        body, _, comment = line.partition('#')
        p = body.split()
        if not p:
            continue
        if p[0].upper() == 'BLOCK':
            block = ' '.join(p[1:]).upper()
            continue
        if p[0].upper() == 'DECAY':
            key, val = ('DECAY', tuple(p[1:-1])), p[-1]
        else:
            if block is None or len(p) < 2:
                bad.append(line)
                continue
            key, val = (block, tuple(p[:-1])), p[-1]
        try:
            key = (key[0], tuple(int(x) for x in key[1]))
        except ValueError:
            bad.append(line)
            continue
        if key in out:
            twice.append(key)
        out[key] = (val, comment.strip())
    return out, twice, bad


def run(ctx):
    w = vlib.import_wcxf()
    from wcxf.converters import smeftsim as sim
    import pylha
    d, _ = ctx.emit('Smeftsim')
    base = os.path.join(ctx.scratch, [f for f in os.listdir(ctx.scratch) if f.startswith('emit_Smeftsim') and f.endswith('A')][0][:-1])
    cards = {}
    for s in 'AB':
        with open(base + s) as f:
            cards[s] = json.load(f)['card']
    std = {(s, i): {(x['block'].upper(), tuple(x['code'])): float(x['v']) for x in d['standard'][s][i]}
           for s in 'AB' for i in ('alpha', 'mw')}
    keys = {}
    for e in cards['A']:
        if e['part'] != 'Scale':
            k = e['op'] + ('_' + ''.join(map(str, e['t'])) if e['t'] else '')
            keys[k] = keys.get(k, False) or e['part'] == 'Real'
    M = smeft.Model(ctx)
    for k in keys:
        assert M.keys[k][2] == keys[k]
    M.register(w)
    ctx.extra['coefficients'] = len(keys)
    ctx.extra['entries'] = {s: len(cards[s]) for s in cards}
    ctx.sample(cards['A'][100])
    names = sorted(keys)

    def entry_name(e):
        return e['op'] + ('_' + ''.join(map(str, e['t'])) if e['t'] else '')

    def judge(rec, text, s, i, values, lam, **what):
        """Compare the text of a card with what it should state for {key: complex}."""
        got, twice, bad = parse(text)
        what = dict(what, set=s, scheme=i, cutoff=lam)
        ok = rec.check(not twice, 'no entry twice', places=twice[:5], **what)
        ok &= rec.check(not bad, 'every line is an entry', lines=bad[:5], **what)
        exp = set(std[s, i])
        for e in cards[s]:
            place = (e['block'].upper(), tuple(e['code']))
            exp.add(place)
            rec.cases += 1
            if place not in got:
                rec.fail('entry present', entry=e, **what)
                return False
            val, lab = got[place]
            try:
                x = float(val)
            except ValueError:
                rec.fail('entry is a number', entry=e, value=val, **what)
                return False
            if lab != e['label']:
                rec.fail('entry carries its name', entry=e, label=lab, **what)
                return False
            if e['part'] == 'Scale':
                good, z = abs(x - lam) <= PREC * abs(lam), lam
            else:
                z = complex(values.get(entry_name(e), 0))
                if e['part'] == 'Real':
                    r = z.real * lam ** 2
                    good = abs(x - r) <= PREC * abs(r)
                elif e['part'] == 'Abs':
                    r = abs(z) * lam ** 2
                    good = abs(x - r) <= PREC * abs(r)
                elif z == 0:
                    good = entry_name(e) in values or x == 0
                else:
                    r = math.atan2(z.imag, z.real)
                    dx = (x - r) % (2 * math.pi)
                    good = min(dx, 2 * math.pi - dx) <= PREC * abs(r) + 1e-14
            if not good:
                rec.fail('entry states the coefficient', entry=e, written=val, coefficient=repr(z), **what)
                return False
        for place, v in std[s, i].items():
            rec.cases += 1
            if place not in got:
                rec.fail('standard entry present', place=place, **what)
                return False
            try:
                x = float(got[place][0])
            except ValueError:
                x = None
            if x is None or abs(x - v) > 1e-9 * abs(v):
                rec.fail('standard entry', place=place, written=got[place][0], standard=v, **what)
                return False
        ok &= rec.check(set(got) <= exp, 'no other entry', places=sorted(set(got) - exp)[:5], **what)
        return ok

    def number(rng, k):
        x = rng.choice([1, -1]) * 10 ** rng.uniform(-13, 1)
        if rng.random() < .05:
            x = rng.choice([0.0, 1.0, -1.0, 1e-6, 0.5, 2.0])
        if keys[k]:
            return x
        kind = rng.choice(['cplx', 'cplx', 'real', 'imag', 'skew'])
        y = rng.choice([1, -1]) * abs(x) * rng.uniform(.1, 10)
        return {'cplx': complex(x, y), 'real': x, 'imag': complex(0, y), 'skew': complex(x, y * 1e-8)}[kind]

    def as_value(rng, z):
        if isinstance(z, complex):
            return {'Re': z.real, 'Im': z.imag} if z.real or rng.random() < .5 else {'Im': z.imag}
        return rng.choice([z, {'Re': z}, {'Re': z, 'Im': 0.0}, {'Re': z, 'Im': 0}]) if z != 1 else rng.choice([1, z])

    def instance(rng, dens):
        ks = [k for k in names if rng.random() < dens]
        rng.shuffle(ks)
        d = {k: number(rng, k) for k in ks}
        vals = {k: as_value(rng, z) for k, z in d.items()}
        return d, vals

    def cutoff(rng):
        return rng.choice([1000, 1000., 1, 91.1876, 246.22, 4.5e3, 1e5, round(rng.uniform(1, 1e4), 2)])

    def text_of(s, i, card):
        pre, post = sim.smeftsim_card_text(s, i)
        f = io.StringIO()
        f.write(pre)
        pylha.dump(card, fmt='lha', stream=f)
        f.write(post)
        return f.getvalue()

    # single cards, dense to sparse
    def single(rec, k):
        rng = rec.rng
        s, i = 'AB'[k % 2], ('alpha', 'mw')[k // 2 % 2]
        dens = [1, .5, .05, 0, 1, .9][k // 4 % 6]
        dd, vals = instance(rng, dens)
        lam = cutoff(rng)
        keep = copy.deepcopy(vals)
        o = w.WC('SMEFT', 'Warsaw mass', rng.choice([1000, 91.1876, 160.0]), vals)
        before = dict(o.dict)
        r = vlib.outcome(lambda: text_of(s, i, sim.smeftsim_card_fill(sim.initialize_smeftsim_card(s), o, s, lam, i)))
        if rec.check(r[0] == 'ok', 'a card can be filled', set=s, scheme=i, error=r[1:]):
            judge(rec, r[1], s, i, dd, lam, density=dens)
            rec.check(vals == keep and o.dict == before and o.basis == 'Warsaw mass', 'input unaffected')
        rec.traces += 1

    vlib.parallel(ctx, single, range(960 if ctx.thorough else 120))

    # histories
    r = ctx.tlc('Cards', workers=8)
    lines, _ = ctx.emit_lines('Cards', 'CardsSim.cfg', simulate=240 if ctx.thorough else 32, depth=14)
    behs = vlib.behaviours(lines)
    ctx.extra['histories'] = len(behs)

    def history(rec, beh):
        rng = rec.rng
        inst = {}
        for n in range(1, 5):
            dd, vals = instance(rng, rng.choice([1, .5, .02, .01, 0]))
            inst[n] = (dd, vals, copy.deepcopy(vals), w.WC('SMEFT', 'Warsaw mass', 91.2, vals))
        lam = {n: cutoff(rng) for n in (1, 2, 3)}
        objs = {}
        for step in beh:
            a = step['last']
            if a['op'] == 'new':
                objs[a['card']] = sim.initialize_smeftsim_card(a['set'])
            elif a['op'] == 'fill':
                c = step['cards'][a['card'] - 1]
                objs[a['card']] = sim.smeftsim_card_fill(objs[a['card']], inst[a['wc']][3], c['set'], lam[a['scale']], a['scheme'])
            elif a['op'] == 'command':
                dd, vals = inst[a['wc']][:2]
                doc = json.dumps({'eft': 'SMEFT', 'basis': 'Warsaw mass', 'scale': 91.2, 'values': vals})
                argv = []
                if a['set'] == 'B' or rng.random() < .5:
                    argv += ['--model-set', a['set']]
                if a['scheme'] == 'mw' or rng.random() < .5:
                    argv += ['--input-scheme', a['scheme']]
                if lam[a['scale']] != 1000 or rng.random() < .5:
                    argv += ['--cutoff-scale', repr(lam[a['scale']])]
                named = rng.random() < .5
                res = cliutil.fork_cli(ctx.scratch, 'smeftsim', argv, doc, mode='fileout' if named else 'file')
                if rec.check(res.status == 0, 'the command succeeds', argv=argv, err=res.err[-300:]):
                    if named:
                        text = res.outfile
                    else:
                        with open(os.path.join(res.work, 'wcxf2smeftsim_param_card.dat')) as f:
                            text = f.read()
                    judge(rec, text, a['set'], a['scheme'], dd, lam[a['scale']], by='command')
            if a['op'] in ('write', 'fill'):
                # the cards that are not touched say what they said before: all are read now and then
                which = objs if a['op'] == 'fill' and rng.random() < .2 else {a['card']: 0}
                for c in which:
                    st = step['cards'][c - 1]
                    if st['kind'] == 'filled':
                        judge(rec, text_of(st['set'], st['scheme'], objs[c]), st['set'], st['scheme'],
                              inst[st['wc']][0], lam[st['scale']], by='history')
        for n in inst:
            rec.check(inst[n][1] == inst[n][2], 'instances unaffected')
        rec.traces += 1

    vlib.parallel(ctx, history, behs)
