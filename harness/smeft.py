"""Binding of spec/Smeft.tla: reference arrays, independent coefficients, bases (C10 C11 C12 C23)."""
import json
import os

import numpy as np
import vlib


class Model(object):
    def __init__(self, ctx):
        d, _ = ctx.emit('Smeft')
        self.bosonic = sorted(d['bosonic'])
        self.content = {o: [(x['f'], x['bar']) for x in c] for o, c in d['content'].items()}
        self.rows = d['table']
        self.mass = d['mass']                # what the translation to Warsaw mass does
        self.ops = sorted(self.content)
        self.indep, self.real = {}, {}
        for o in self.ops:
            self.indep[o] = sorted(tuple(r['t']) for r in self.rows[o] if r['indep'])
            self.real[o] = {tuple(r['t']): r['real'] for r in self.rows[o]}
        self.keys = {}                       # independent coefficient name -> (op, index, real)
        for b in self.bosonic:
            self.keys[b] = (b, None, True)
        for o in self.ops:
            for t in self.indep[o]:
                self.keys[o + '_' + ''.join(map(str, t))] = (o, t, self.real[o][t])
        self.lin = {}
        for o in self.ops:
            n = 3 ** len(self.content[o])
            ix = {t: i for i, t in enumerate(self.indep[o])}
            A = np.zeros((n, len(ix)))
            Bc = np.zeros((n, len(ix)))
            re = np.zeros(n, dtype=bool)
            for r in self.rows[o]:
                k = self.flat(r['t'])
                re[k] = r['real']
                for e in r['e']:
                    (Bc if e['conj'] else A)[k, ix[tuple(e['t'])]] += e['c']
            self.lin[o] = (A, Bc, re)

    @staticmethod
    def flat(t):
        k = 0
        for x in t:
            k = 3 * k + x - 1
        return k

    def shape(self, o):
        return (3,) * len(self.content[o])

    def array(self, o, d):
        """Reference: the full array of operator o from independent coefficients."""
        v = np.array([d.get(o + '_' + ''.join(map(str, t)), 0) for t in self.indep[o]], dtype=complex)
        A, Bc, re = self.lin[o]
        a = A @ v + Bc @ v.conj()
        a[re] = a[re].real
        return a.reshape(self.shape(o))

    def rotate(self, o, a, U):
        """Reference flavour rotation: every index with the matrix of its field."""
        n = a.ndim
        for k, (f, bar) in enumerate(self.content[o]):
            u = U[f].conj() if bar else U[f]
            a = np.moveaxis(np.tensordot(a, u, axes=(k, 0)), -1, k)
        return a

    def coefficients(self, o, a):
        return {o + '_' + ''.join(map(str, t)): a[tuple(x - 1 for x in t)] for t in self.indep[o]}

    def mass_reference(self, d, V):
        """Reference of the translation from Warsaw to Warsaw mass."""
        out = {}
        for o in {self.keys[k][0] for k in d}:
            act = self.mass.get(o, 'keep')
            if act == 'keep':
                out.update({k: v for k, v in d.items() if self.keys[k][0] == o})
                continue
            a = self.array(o, d)
            if act == 'rotate':
                a = V @ a
                out.update({'%s_%d%d' % (o, i + 1, j + 1): a[i, j] for i in range(3) for j in range(3)})
            else:
                s = sorted(np.linalg.svd(a, compute_uv=False))
                out.update({'%s_%d%d' % (o, i + 1, i + 1): s[i] for i in range(3)})
        return out

    def random(self, rng, density=1.0, ops=None, imag=True):
        out = {}
        style = rng.choice(['generic'] * 6 + ['real', 'real', 'imaginary', 'round', 'round'])
        for k, (o, t, re) in self.keys.items():
            if ops is not None and o not in ops:
                continue
            if rng.random() < density:
                x = rng.uniform(-1, 1) * 10 ** rng.uniform(-3, 1)
                if style == 'round':
                    x = rng.choice([-1., 1.]) * rng.choice([1., 1., .5, 2.])
                if re or not imag or style == 'real' or (style == 'round' and rng.random() < .7):
                    out[k] = x
                else:
                    out[k] = complex(0 if style in ('imaginary', 'round') else x, rng.uniform(-1, 1) if style != 'round' else x)
        return out

    def register(self, w, names=('Warsaw', 'Warsaw up', 'Warsaw mass')):
        """Define the SMEFT EFT and its bases (this checkout ships no definition files)."""
        w.EFT('SMEFT', {'all': {}})
        for n in names:
            w.Basis('SMEFT', n, {'all': {k: {'real': r} for k, (o, t, r) in self.keys.items()}})


def wc(w, basis, d, scale=1e3, eft='SMEFT'):
    return w.WC(eft, basis, scale, w.WC.dict2values({k: complex(v) for k, v in d.items()}))


def compare(rec, clause, got, want, rel=1e-10, **kw):
    """Two coefficient dictionaries agree (absent = 0) relative to the largest entry."""
    m = max([abs(v) for v in want.values()] + [abs(v) for v in got.values()] + [0])
    bad = [k for k in set(got) | set(want)
           if not abs(complex(got.get(k, 0)) - complex(want.get(k, 0))) <= rel * m]
    return rec.check(not bad, clause, wrong={k: [repr(got.get(k, 0)), repr(want.get(k, 0))] for k in sorted(bad)[:4]},
                     number=len(bad), **kw)


def random_unitary(rng, n=3):
    r = np.random.RandomState(rng.randrange(2 ** 31))
    q, _ = np.linalg.qr(r.normal(size=(n, n)) + 1j * r.normal(size=(n, n)))
    return q


def special_unitary(rng, n=3):
    """Real matrices, reflections, permutations, signs, phases, small rotations, integers."""
    r = np.random.RandomState(rng.randrange(2 ** 31))
    real, _ = np.linalg.qr(r.normal(size=(n, n)))
    perm = np.eye(n)[r.permutation(n)]
    t = rng.choice([1e-9, 1e-3, .2, 3.0])
    small = np.eye(n)
    i, j = rng.sample(range(n), 2)
    small[i, i] = small[j, j] = np.cos(t)
    small[i, j], small[j, i] = np.sin(t), -np.sin(t)
    return rng.choice([real, -real, real * np.array([1, 1, -1]), perm, perm.astype(int), np.diag(r.choice([-1, 1], n)),
                       np.diag(np.exp(1j * r.uniform(0, 6.3, n))), small, 1j * real, perm * 1j])
