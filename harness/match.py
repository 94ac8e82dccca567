"""Binding of spec/Match.tla: reference matching of SMEFT onto WET JMS, and routes (C12, also C09 C17)."""
import itertools
import math

import numpy as np
import smeft
import wet
from physics import ckm, params

FIELDS = ['q', 'u', 'd', 'l', 'e']
SUB = {'WET': 0, 'WET-4': 1, 'WET-3': 2, 'WET-2': 3}


class Model(object):
    def __init__(self, ctx):
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(3) as ex:     # independent TLC runs
            s, x = ex.submit(smeft.Model, ctx), ex.submit(wet.Model, ctx)
            m = ex.submit(ctx.emit_lines, 'Match', timeout=600)
            self.S, self.W, (lines, _) = s.result(), x.result(), m.result()
        self.routes = []
        for l in lines:
            if l['kind'] == 'route':
                if len(l['route']) > 1:
                    self.routes.append(([tuple(x) for x in l['route']], l['done'], l['normal']))
                continue
            self.formula = {x['op']: x['t'] for x in l['formula']}
            self.couplings = {x['m']: x['t'] for x in l['couplings']}
            self.scalar = l['scalar']
        self.bases = {}

    # ---- bases -----------------------------------------------------------
    def flavours(self, eft, key):
        """Does a JMS coefficient exist with fewer flavours (b, c, s removed)?"""
        if '_' not in key:
            return True
        op, ind = key.split('_')
        cont = self.W.content[op][0]
        heavy = {1: {('dL', 3), ('dR', 3)}, 2: {('uL', 2), ('uR', 2)}, 3: {('dL', 2), ('dR', 2)}}
        gone = set().union(*[heavy[i] for i in range(1, SUB[eft] + 1)]) if SUB[eft] else set()
        return not any((f, int(i)) in gone for (f, _), i in zip(cont, ind))

    def register(self, w, rng=None):
        """EFTs and bases; the bases with fewer flavours of flavio and Bern are arbitrary subsets."""
        self.S.register(w)
        for e in SUB:
            w.EFT(e, {'all': {}})
            for b, ks in self.W.keys.items():
                if b == 'JMS':
                    ks = [k for k in ks if self.flavours(e, k)]
                elif SUB[e] and rng is not None:
                    prev = self.bases[['WET', 'WET-4', 'WET-3'][SUB[e] - 1], b]
                    ks = [k for k in sorted(prev) if rng.random() < .7]
                self.bases[e, b] = set(ks)
                w.Basis(e, b, {'all': {k: {} for k in ks}})

    # ---- elementary steps ---------------------------------------------------
    def rotate(self, d, V, way):
        U = {f: np.eye(3) for f in FIELDS}
        U['q'] = V.conj().T if way == 'up' else V
        out = {}
        for o in {self.S.keys[k][0] for k in d}:
            if o in self.S.bosonic:
                out[o] = d[o]
            else:
                out.update(self.S.coefficients(o, self.S.rotate(o, self.S.array(o, d), U)))
        return out

    def evaluate(self, arrays, scalars, p):
        """Scalars of the specification for given SMEFT arrays."""
        env = {'pi': math.pi}

        def ev(x):
            o = x['o']
            if o == 'num':
                return x['n'] / float(x['d'])
            if o == 'sym':
                return env[x['s']] if x['s'] in env else p[x['s']]
            if o == 'el':
                return scalars.get(x['s'], 0) if not x['i'] else np.real(arrays(x['s'])[tuple(i - 1 for i in x['i'])])
            a = [ev(y) for y in x['a']]
            if o == 'add':
                return sum(a)
            if o == 'mul':
                z = 1.0
                for y in a:
                    z = z * y
                return z
            if o == 'div':
                return a[0] / a[1]
            return {'sqrt': math.sqrt, 'abs': abs}[o](a[0])
        for name, x in self.scalar:
            env[name] = ev(x)
        return env

    def formulas(self, d, par):
        """All JMS arrays (before the rotation of the down quarks) for SMEFT coefficients d."""
        p = params(par)
        cache = {}

        def arrays(o):
            if o not in cache:
                cache[o] = self.S.array(o, d)
            return cache[o]
        sc = {b: np.real(d.get(b, 0)) for b in self.S.bosonic}
        env = self.evaluate(arrays, sc, p)
        mats = {}
        for m, ts in self.couplings.items():
            z = np.zeros((3, 3), dtype=complex)
            for t in ts:
                z = z + t['n'] / float(t['d']) * env[t['sc']] * (np.eye(3) if t['m'] == 'I' else arrays(t['m']))
            mats[m] = z
        out = {}
        for o, ts in self.formula.items():
            n = len(self.W.content[o][0])
            a = np.zeros((3,) * n, dtype=complex)
            for t in ts:
                fac, sub = [], []
                for x in t['fac']:
                    y = mats[x['m']] if x['m'] in mats else arrays(x['m'])
                    fac.append(y.conj() if x['c'] else y)
                    sub.append(''.join('abcd'[i - 1] for i in x['i']))
                a = a + t['n'] / float(t['d']) * env[t['sc']] * np.einsum(','.join(sub) + '->' + 'abcd'[:n], *fac)
            out[o] = a
        return out, sc

    def match(self, d, par, keys=None):
        """JMS coefficients; `keys` are names to be given instead of the independent ones."""
        new, sc = self.formulas(d, par)
        sm, _ = self.formulas({}, par)
        V = ckm(par)
        out = {b: sc[b] for b in ('G', 'Gtilde')}
        for o, a in new.items():
            a = a - sm[o]
            content, reps = self.W.content[o]
            for k, (f, bar) in enumerate(content):
                if f == 'dL':
                    a = np.moveaxis(np.tensordot(a, V.conj() if bar else V, axes=(k, 0)), -1, k)
            for t in reps if keys is None else [tuple(map(int, k.split('_')[1])) for k in keys if k.split('_')[0] == o]:
                out[o + '_' + ''.join(map(str, t))] = a[tuple(i - 1 for i in t)]
        return out

    def steps(self, d, done, scale, par):
        """Reference result of a sequence of elementary steps."""
        sym = None
        for s in done:
            if s in ('up', 'down'):
                d = self.rotate(d, ckm(par), s)
            elif s == 'match':
                d = self.match(d, par)
                basis = 'JMS'
            elif s.startswith('only '):
                d = {k: v for k, v in d.items() if k in self.bases[s[5:], basis]}
            else:
                basis = s.split('-', 1)[1]
                sym = sym or self.W.symbols(scale, par)
                d = wet.apply(self.W.matrix(('JMS', basis), sym), d)
        return d


def random_smeft(S, rng, density, size=1e-6):
    d = S.random(rng, density=density)
    return {k: v * size / 5 for k, v in d.items()}
