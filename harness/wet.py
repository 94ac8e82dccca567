"""Binding of spec/Wet.tla: linear forms of the translations within WET (C09 C12 C13 C14 C17)."""
import math

import numpy as np
import vlib
import qcdref
from physics import params, ckm

EFTS = ('WET', 'WET-4', 'WET-3')
# translators of the weak effective theory: (from, to) -> EFTs that have it
ALL, ONE = EFTS, ('WET',)
TRANSLATORS = {('JMS', 'flavio'): ALL, ('Bern', 'flavio'): ALL, ('flavio', 'Bern'): ALL, ('JMS', 'Bern'): ALL,
               ('JMS', 'EOS'): ONE, ('JMS', 'formflavor'): ONE, ('FlavorKit', 'JMS'): ONE,
               ('JMS', 'FlavorKit'): ONE, ('FlavorKit', 'flavio'): ONE}
SCALES = [4.8, 4.18, 2.0, 91.1876, 160.0, 1.7, 10, 300.0, 1, 1.0, 1.2, 1000, 1e4]
# sizes of coefficients: all conversions are linear
SIZES = [1, 1, 1, 1e-9, 1e-18, 1e-33, 1e-60, 1e12]


def random_scale(rng):
    return rng.choice(SCALES + [round(rng.uniform(1.0, 500), 3), round(10 ** rng.uniform(0, 5), 3)])


class Model(object):
    def __init__(self, ctx):
        lines, _ = ctx.emit_lines('Wet', timeout=600, heap='6g')
        self.qcd = qcdref.Model(ctx)
        forms, keys = {}, {}
        for l in lines:
            if not l['path']:
                self.jms, self.real = set(l['keys']), set(l['real'])
                self.content = {c['op']: ([(x['f'], x['bar']) for x in c['f']], [tuple(t) for t in c['reps']])
                                for c in l['content']}
                continue
            if len(l['path']) == 1:
                for x in l['keys']:
                    keys.setdefault(x['b'], set()).update(x['k'])
                continue
            f = forms.setdefault(tuple(l['path']), {})
            for x in l['forms']:
                t = sorted(((y['k'], bool(y['c']), y['n'] / float(y['d']), tuple(sorted(dict(y['m'] or {}).items())))
                            for y in x['t']), key=repr)
                if f.setdefault(x['k'], t) != t:
                    raise vlib.MachineryError('sectors disagree on %s for %s' % (x['k'], l['path']))
        keys['JMS'] = self.jms
        self.forms, self.keys = forms, {b: sorted(k) for b, k in keys.items()}
        self.sources = {}                     # path -> source keys that contribute
        for p, f in forms.items():
            self.sources[p] = {t[0] for ts in f.values() for t in ts}
        # FlavorKit coefficients that stand for real JMS coefficients take real values only
        self.real_of = {'JMS': self.real, 'FlavorKit': {ts[0][0] for k, ts in forms['FlavorKit', 'JMS'].items()
                                                        if k in self.real}}
        self._mono = {}

    def register(self, w, efts=EFTS):
        for e in efts:
            w.EFT(e, {'all': {}})
            for b, ks in self.keys.items():
                re = self.real_of.get(b, set())
                w.Basis(e, b, {'all': {k: ({'real': True} if k in re else {}) for k in ks}})

    def symbols(self, scale, par=None):
        p = params(par)
        V = ckm(par)
        s = {'r2': math.sqrt(2), 'GF': p['GF'], 'pi': math.pi, 'e': math.sqrt(4 * math.pi * p['alpha_e']),
             'me': p['m_e'], 'mmu': p['m_mu'], 'mtau': p['m_tau']}
        a = p['alpha_s']
        s['gs'] = math.sqrt(4 * math.pi * self.qcd.value('alpha_s', 5, scale, a))
        s['mb'] = self.qcd.value('m_b', 5, scale, a, p['m_b'])
        s['ms'] = self.qcd.value('m_s', 5, scale, a, p['m_s'])
        s['D'] = s['mb'] ** 2 - s['ms'] ** 2
        for i, u in enumerate('uct'):
            for j, d in enumerate('dsb'):
                for n, x in (('V', V[i, j]), ('W', V[i, j].conj())):
                    s[n + u + d] = x
                    s['%s%d%d' % (n, i + 1, j + 1)] = x
        return s

    @staticmethod
    def mono(m, s):
        x = 1.0
        for k, e in m:
            x = x * s[k] ** e
        return x

    def matrix(self, path, s):
        """{out: [(source, conj, number)]} for the values of the symbols."""
        cache = {}
        out = {}
        for k, ts in self.forms[tuple(path)].items():
            r = []
            for src, c, q, m in ts:
                if m not in cache:
                    cache[m] = self.mono(m, s)
                r.append((src, c, q * cache[m]))
            out[k] = r
        return out

    def number(self, rng, basis, key, kind=None):
        x = rng.choice([-1, 1]) * rng.uniform(.3, 1)
        y = rng.choice([-1, 1]) * rng.uniform(.3, 1)
        if key in self.real_of.get(basis, ()):
            return x
        return {'1': 1.0, 'i': 1j, None: complex(x, y)}[kind]

    def numbers(self, rng, basis, keys):
        """Values of coefficients: generic ones, all real, all imaginary, round ones, all equal."""
        style = rng.choice(['generic'] * 5 + ['real', 'real', 'imaginary', 'round', 'round', 'equal'])
        real = self.real_of.get(basis, ())
        if style == 'generic':
            return {k: self.number(rng, basis, k) for k in keys}
        if style == 'equal':
            x, y = rng.uniform(-1, 1), rng.uniform(-1, 1)
            return {k: x if k in real else complex(x, y) for k in keys}
        out = {}
        for k in keys:
            x = rng.choice([-1., 1.]) * (rng.choice([1., 1., .5, 2.]) if style == 'round' else rng.uniform(.3, 1))
            out[k] = x if k in real or style == 'real' or (style == 'round' and rng.random() < .7) else complex(0, x)
        return out


def apply(mat, d):
    want = {}
    for k, ts in mat.items():
        z = 0
        for src, c, x in ts:
            v = d.get(src)
            if v is not None:
                z += x * (np.conj(v) if c else v)
        want[k] = z
    return want


def compare(rec, clause, got, mat, d, rel=1e-9, **kw):
    """Coefficients agree with the forms; tolerance relative to the coefficients of each form."""
    want = apply(mat, d)
    m = max([abs(v) for v in d.values()] + [0])
    bad = {}
    for k in set(got) | set(want):
        # (running couplings and masses agree to 1e-8 only)
        tol = rel * m * sum(abs(x) for _, _, x in mat.get(k, ())) + 1e-7 * abs(want.get(k, 0))
        if k not in mat:
            tol = 1e-13 * max([abs(complex(v)) for v in got.values()])
        g = complex(got.get(k, 0))
        if not abs(g - complex(want.get(k, 0))) <= tol:
            bad[k] = [repr(g), repr(complex(want.get(k, 0)))]
    return rec.check(not bad, clause, wrong=dict(sorted(bad.items())[:4]), number=len(bad),
                     input={k: repr(v) for k, v in list(d.items())[:3]}, inputs=len(d), **kw)


def random_parameters(rng, full=False):
    from physics import random_ckm_parameters
    p = random_ckm_parameters(rng)
    p.update({'GF': rng.uniform(1e-5, 2e-5), 'alpha_e': rng.uniform(.006, .01), 'alpha_s': rng.uniform(.112, .122),
              'm_b': rng.uniform(3.9, 4.4), 'm_s': rng.uniform(.08, .12), 'm_e': rng.uniform(4e-4, 6e-4),
              'm_mu': rng.uniform(.09, .12), 'm_tau': rng.uniform(1.5, 2), 'm_W': rng.uniform(79., 81.),
              'm_Z': rng.uniform(90.5, 92.)})
    if rng.random() < .35:      # values nobody has measured
        wild = {'GF': (1e-5, 1e-4), 'alpha_e': (1e-4, .014), 'alpha_s': (.1, .13), 'm_b': (2., 8.), 'm_s': (.01, 1.),
                'm_e': (1e-5, 1.), 'm_mu': (.001, 10.), 'm_tau': (.1, 100.), 'm_W': (72., 200.), 'm_Z': (20., 400.)}
        for k, (a, b) in sorted(wild.items()):
            if rng.random() < .6:
                p[k] = a * (b / a) ** rng.random()
    if full:
        return p
    ks = rng.sample(sorted(p), rng.choice([1, 1, 2, 5]))
    return {k: p[k] for k in ks}
