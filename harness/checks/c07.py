"""C07: numbers and WCxf values describe each other exactly (Values.tla)."""
import json
import math
import struct
from collections import OrderedDict, defaultdict
import vlib

REAL = {'0': 0.0, '-0': -0.0, '1': 1.0, '-1': -1.0, 'third': 1 / 3., 'int7': 7, '-int3': -3, 'bigint': 10 ** 18,
        'tiny': 1e-300, 'min': 5e-324, '-min': -5e-324, 'eps': 1 + 2.0 ** -52, 'max': 1.7976931348623157e308,
        '-max': -1.7976931348623157e308, 'pi': math.pi, '1e-3': 1e-3, '1e16': 1e16}
TEXT = {'0': '0', '-0': '-0.0', '1': '1', '-1': '-1', '1e-3': '1e-3', '1e16': '1E16', 'third': repr(1 / 3.)}


def run(ctx):
    w = vlib.import_wcxf()
    import numpy as np
    lines, _ = ctx.emit_lines('Values')
    reads = [l for l in lines if l['t'] == 'read']
    writes = [l for l in lines if l['t'] == 'write']
    ctx.extra['value_forms'] = len(reads)
    ctx.extra['numbers'] = len(writes)
    ctx.sample(reads[7])
    ctx.sample(writes[7])

    def same(z, re, im):
        return complex(z).real == re and complex(z).imag == im

    def form(v, rng, kinds):
        if v['f'] == 'plain':
            return REAL[v['re']]
        def text(r):
            x = float(REAL[r])
            return rng.choice([TEXT.get(r, repr(REAL[r]))] * 3 + ['%.17e' % x, ('%.17E' % x), '%+.17e' % x, ' ' + repr(x), repr(x) + ' ', repr(x) + '\n'])
        if v['f'] == 'text':
            return text(v['re'])
        m = {k: text(v[p]) if p in v['txt'] else REAL[v[p]] for k, p in (('Re', 're'), ('Im', 'im')) if v[p] != 'absent'}
        return m if not kinds else rng.choice([dict, OrderedDict, lambda m: defaultdict(int, m)])(m)

    # reading: single coefficients and whole files with all forms at once
    def read(rec, batch):
        again = rec.rng.random() < .5
        # names of all kinds: texts, and what YAML makes of 1: or null:
        kind = rec.rng.choice(['c%d', 'c%d', ' c%d ', 'C_%d', '\u00e9%d', '%d', 'Re%d'] + [int, float] * (not again))
        names = [kind(i) if callable(kind) else kind % i for i in range(len(batch))]
        vals = {names[i]: form(l['v'], rec.rng, not again) for i, l in enumerate(batch)}
        snap = json.dumps(vals)
        o = w.WC('A', 'x', 1, vals)
        if again:
            o = w.WC.load(o.dump(fmt=rec.rng.choice(['json', 'yaml'])))
        d = o.dict
        rec.check(list(d) and set(d) == set(vals) and set(map(type, d)) == set(map(type, vals)), 'same names', got=sorted(map(repr, d)), expected=sorted(map(repr, vals)))
        for i, l in enumerate(batch):
            c = names[i]
            re, im = (float(REAL[x]) for x in l['number'])
            rec.check(c in d and same(d[c], re, im), 'the number a value denotes', value=vals[c],
                      got=repr(d.get(c)), expected=[re, im])
        rec.check(json.dumps(vals) == snap, 'reading leaves the values unchanged')
        rec.check(o.dict == d, 'asking again gives the same')
        rec.traces += len(batch)

    n = 12 if ctx.thorough else 4
    for _ in range(n):
        ctx.rng.shuffle(reads)
        k = ctx.rng.choice([1, 2, 5, 9])
        vlib.parallel(ctx, read, [reads[i:i + k] for i in range(0, len(reads), k)])

    # writing
    def types(rng, re, im):
        out = [complex(re, im), np.complex128(complex(re, im))]
        with np.errstate(all='ignore'):
            if float(np.float32(re)) == re and float(np.float32(im)) == im:
                out += [np.complex64(complex(re, im))]
                out += [np.float32(re)] if im == 0 else []
        if im == 0:
            out += [float(re), np.float64(re)]
            if float(re).is_integer() and abs(re) < 2 ** 62:
                out += [int(re), np.int64(int(re))]
        return out

    def check_write(rec, z, re, im, plain):
        d = {'a': z, 'b': 1.0}
        v = w.WC.dict2values(d)
        rec.check(set(v) == {'a', 'b'}, 'same names')
        x = v['a']
        if plain:
            rec.check(type(x) is float and x == re, 'a real number becomes a plain float', z=repr(z), got=repr(x))
        else:
            rec.check(isinstance(x, dict) and set(x) == {'Re', 'Im'} and type(x['Re']) is float and
                      type(x['Im']) is float and x['Re'] == re and x['Im'] == im,
                      'a complex number becomes a Re/Im mapping of floats', z=repr(z), got=repr(x))
        o = w.WC('A', 'x', 1, v)
        rec.check(same(o.dict['a'], re, im), 'number -> value -> number', z=repr(z), got=repr(o.dict['a']))
        t = w.WC.load(o.dump(fmt=rec.rng.choice(['json', 'yaml'])))
        rec.check(same(t.dict['a'], re, im), 'number -> file -> number', z=repr(z), got=repr(t.dict['a']))
        rec.check(d['a'] is z and set(d) == {'a', 'b'}, 'the numbers are unchanged')

    def write(rec, l):
        re, im = (float(REAL[x]) for x in l['z'])
        for z in types(rec.rng, re, im):
            check_write(rec, z, re, im, l['value']['f'] == 'plain')
        rec.traces += 1

    vlib.parallel(ctx, write, writes)

    # the named reals stand for all floats: sample bit patterns
    def bits(rng):
        while True:
            x = struct.unpack('<d', struct.pack('<Q', rng.getrandbits(64)))[0]
            if math.isfinite(x):
                return x

    def randomised(rec, _):
        for _ in range(20):
            re, im = bits(rec.rng), rec.rng.choice([0.0, 1, 1]) * bits(rec.rng)
            check_write(rec, rec.rng.choice(types(rec.rng, re, im)), re, im, im == 0)
            v = rec.rng.choice([re, {'Re': re, 'Im': im}, {'Im': im}, {'Re': re}, repr(re)])
            want = (re, 0.0) if not isinstance(v, dict) else (v.get('Re', 0.0), v.get('Im', 0.0))
            o = w.WC('A', 'x', 1, {'p': v, 'q': 2})
            rec.check(same(o.dict['p'], *want), 'the number a random value denotes', value=repr(v),
                      got=repr(o.dict['p']))
        rec.traces += 20

    vlib.parallel(ctx, randomised, range(800 if ctx.thorough else 80))
    ctx.assumptions += ['finite numbers; the sign of zero is not significant']
