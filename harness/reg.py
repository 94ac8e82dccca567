"""Binding of spec/Registry.tla to the implementation (C03 C04 C05 C06).

The abstract state is  efts: name -> sectors,  bases: "eft:basis" -> sector ->
coefficients.  States are built through the public interface (constructors or
loading of JSON/YAML text) and observed through look-ups, listings, validation.
"""
import copy
import json
import vlib

SLOTS = [('A', 'x'), ('A', 'y'), ('B', 'x')]
NAMES = ['p', 'q', 'r']
ABSENT = (KeyError, AttributeError)

# concrete names for the abstract ones: pools of names that are easily confused
EFT_POOLS = [('A', 'B', 'C', 'a'), ('WET', 'WET-4', 'WET-', 'wet'), ('SMEFT', 'SMEF', 'SMEFT ', 'smeft'),
             ('WET-4', 'WET-3', 'WET', 'WET-'), ('1', '1.0', '01', 'x')]
BASIS_POOLS = [('x', 'y', 'w', 'X'), ('Warsaw', 'Warsaw up', 'Warsaw mass', 'warsaw'), ('JMS', 'J', 'JMS ', 'jms'),
               ('flavio', 'flavi', 'FlavorKit', 'Flavio'), ('1', '2', '12', '21')]


EXTRA = ['hidden', 'deprecated', 'private', 'version', 'abstract', 'alias', 'name', 'parents', 'children', 'disabled', 'doi', 'wcs', 'internal', 'status']


class Names(object):
    """A choice of concrete names; e/b map abstract names to concrete ones."""

    def __init__(self, rng=None):
        ep = EFT_POOLS[0] if rng is None else rng.choice(EFT_POOLS)
        bp = BASIS_POOLS[0] if rng is None else rng.choice(BASIS_POOLS)
        if rng is not None:
            ep = rng.sample(ep, 4)
            bp = rng.sample(bp, 4)
        self.e = dict(zip(('A', 'B', 'C', 'a'), ep))
        self.b = dict(zip(('x', 'y', 'w', 'X'), bp))
        self.b['z'] = 'another one'
        self.e['Z'] = 'another one'
        self.b[''] = ''
        self.e['x'] = 'nothing'
        self.b['A'] = 'nothing'


NM = Names()


def use(rng):
    """Choose new concrete names."""
    global NM
    NM = Names(rng)
    return NM


def basis(w, k):
    """Look up by the abstract key."""
    e, b = k.split(':') if isinstance(k, str) else k
    return w.Basis[NM.e[e], NM.b[b]]


def norm(m):
    """JSON of an empty TLA+ function is [] ."""
    return m if isinstance(m, dict) else {}


def nstate(s):
    return {'efts': {k: frozenset(v) for k, v in norm(s['efts']).items()},
            'bases': {k: {s_: frozenset(c) for s_, c in norm(m).items()}
                      for k, m in norm(s['bases']).items()}}


def generate(ctx, full=False, simulate=None, depth=30):
    """Run TLC on the specification: (states, edges, behaviours)."""
    lines, _ = ctx.emit_lines('Registry', 'RegistryFull.cfg' if full else 'Registry.cfg')
    states = [l['v'] for l in lines if l['t'] == 'state']
    edges = [l for l in lines if l['t'] == 'edge']
    behs = []
    if simulate:
        sl, _ = ctx.emit_lines('Registry', 'RegistrySim.cfg', simulate=simulate, depth=depth)
        behs = vlib.behaviours(sl)
    return states, edges, behs


# ---- concrete definition files ------------------------------------------------
def coef_defs(rng, names):
    """Definitions of coefficients: with, without, and with partial attributes."""
    out = {}
    for n in sorted(names):
        out[n] = rng.choice([None, {}, {'real': True}, {'real': False},
                             {'tex': 'O_{%s}' % n}, {'real': True, 'tex': '\\alpha'}])
    return out


def sector_defs(rng, m):
    secs = list(m)
    rng.shuffle(secs)
    return {s: coef_defs(rng, m[s]) for s in secs}


def make(w, rng, cls, doc):
    """Define through the constructor or by loading JSON or YAML text."""
    how = rng.choice(['new', 'new', 'json', 'yaml'])
    c = getattr(w, cls)
    if how == 'new':
        return c(**copy.deepcopy(doc))
    if how == 'json':
        return c.load(json.dumps(doc))
    return c.load(yaml_text(doc))


def yaml_text(doc):
    import yaml
    return yaml.safe_dump(doc, default_flow_style=False)


def define_eft(w, rng, e, sectors):
    secs = sorted(sectors)
    rng.shuffle(secs)
    doc = {'eft': NM.e[e], 'sectors': {s: rng.choice([{}, {'dB': '1'}]) for s in secs}}
    return make(w, rng, 'EFT', doc)


def basis_doc(rng, e, b, parent, m):
    doc = {'eft': NM.e[e], 'basis': NM.b[b], 'sectors': sector_defs(rng, m)}
    if parent:
        doc['parent'] = NM.b[parent]
    if rng.random() < .3:
        doc['metadata'] = {'description': 'text'}
    if rng.random() < .3:      # further fields of a file, whatever they are called
        doc[rng.choice(EXTRA)] = rng.choice([True, False, None, '', 'text', 1, [], {}])
    return doc


def clear(w, rng=None):
    if rng is not None:
        use(rng)
    w.EFT.clear_all()
    w.Basis.clear_all()


def build(w, rng, st):
    clear(w)
    use(rng)
    objs = {}
    for e in sorted(st['efts']):
        define_eft(w, rng, e, st['efts'][e])
    for k in sorted(st['bases']):
        e, b = k.split(':')
        objs[k] = make(w, rng, 'Basis', basis_doc(rng, e, b, None, st['bases'][k]))
    return objs


def observe(w):
    """Project the implementation's registries onto the abstract state."""
    efts, bases = {}, {}
    for e in ('A', 'B'):
        try:
            efts[e] = frozenset(w.EFT[NM.e[e]].sectors)
        except ABSENT:
            pass
    for e, b in SLOTS + [('B', 'y'), ('A', 'w'), ('A', 'X'), ('C', 'x')]:
        try:
            o = basis(w, (e, b))
        except ABSENT:
            continue
        bases['%s:%s' % (e, b)] = {s: frozenset(c) for s, c in o.sectors.items()}
    return {'efts': efts, 'bases': bases}


def show(st):
    return {'efts': {k: sorted(v) for k, v in st['efts'].items()},
            'bases': {k: {s: sorted(c) for s, c in m.items()} for k, m in st['bases'].items()}}


def act(w, rng, a):
    """Perform the specification's action; returns (outcome name, document)."""
    op, e, b = a['op'], a['eft'], a['basis']
    sec = {s: frozenset(c) for s, c in norm(a['sec']).items()}
    doc = None
    if op == 'eft':
        f = lambda: define_eft(w, rng, e, sec)
    elif op == 'basis':
        doc = basis_doc(rng, e, b, a['parent'], sec)
        f = lambda: make(w, rng, 'Basis', doc)
    elif op == 'deleft':
        f = rng.choice([lambda: w.EFT.del_instance(NM.e[e]), lambda: w.EFT.__class__.__delitem__(w.EFT, NM.e[e])])
    elif op == 'delbasis':
        f = rng.choice([lambda: w.Basis.del_instance((NM.e[e], NM.b[b])),
                        lambda: w.Basis.__class__.__delitem__(w.Basis, (NM.e[e], NM.b[b]))])
    elif op == 'clearefts':
        f = w.EFT.clear_all
    elif op == 'clearbases':
        f = w.Basis.clear_all
    else:
        raise vlib.MachineryError('unknown action ' + op)
    r = vlib.outcome(f)
    if r[0] == 'ok' and op in ('eft', 'basis'):     # the object defined is the one found, also if an equal one was there
        C = w.EFT if op == 'eft' else w.Basis
        key = NM.e[e] if op == 'eft' else (NM.e[e], NM.b[b])
        if C[key] is not r[1] or C.get_instance(key) is not r[1]:
            return 'another object is found', doc
    return ('ok' if r[0] == 'ok' else r[1]), doc


def same(rec, clause, got, want, **kw):
    return rec.check(got == want, clause, got=show(got), expected=show(want), **kw)
