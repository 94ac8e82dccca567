"""Reference values of the physical parameters used by the specifications' symbols."""
import numpy as np

# the documented default parameters
DEFAULT = {'m_W': 80.385, 'm_Z': 91.1876, 'GF': 1.1663787e-5, 'alpha_e': 1 / 127.9, 'alpha_s': 0.1185,
           'Vus': 0.2243, 'Vub': 3.62e-3, 'Vcb': 4.221e-2, 'gamma': 1.27, 'm_b': 4.18, 'm_s': 0.095,
           'm_e': 0.0005109989461, 'm_mu': 0.1056583745, 'm_tau': 1.77686}


def params(par=None):
    """The package's default parameters overridden by the user's."""
    from wcxf.parameters import p
    d = dict(p)
    d.update(par or {})
    return d


def ckm(par=None):
    """CKM matrix from |Vus|, |Vub|, |Vcb| and gamma (standard parametrisation, all orders)."""
    d = params(par)
    import ckmutil.ckm
    return ckmutil.ckm.ckm_tree(d['Vus'], d['Vub'], d['Vcb'], d['gamma'])


def random_ckm_parameters(rng):
    return {'Vus': rng.uniform(.1, .4), 'Vub': rng.uniform(1e-3, 1e-2), 'Vcb': rng.uniform(.02, .1),
            'gamma': rng.choice([rng.uniform(.5, 2.5), rng.uniform(-3, 6.2)])}


def usable(pars):
    """The parameter sets for which the CKM library gives a unitary matrix (its formula is singular at some points)."""
    out = []
    for p in pars:
        with np.errstate(all='ignore'):
            V = ckm(p)
        if np.all(np.isfinite(V)) and np.max(np.abs(V @ V.conj().T - np.eye(3))) < 1e-13:
            out.append(p)
    return out
