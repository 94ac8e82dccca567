"""Executes the plans of spec/Qcd.tla with the elementary operations of rundec."""
import math

MZ, LOOPS = 91.1876, 3


class Model(object):
    def __init__(self, ctx):
        lines, _ = ctx.emit_lines('Qcd')
        self.plans = {(l['q'], l['f']): l for l in lines}

    def defined(self, q, f):
        return (q, f) in self.plans and self.plans[q, f]['ok']

    def value(self, q, f, scale, alphas=0.1185, mass=None):
        """Reference value of quantity q with f flavours at the scale."""
        import rundec
        c = rundec.CRunDec()
        plan = self.plans[q, f]
        mu = {'MZ': MZ, 'mq': mass, '2': 2.0}[plan['start']]
        a = alphas if q == 'alpha_s' else self.value('alpha_s', plan['startnf'], mu, alphas)
        m = mass
        for s in plan['steps']:
            nf = s['nf']
            if s['do'] == 'run':
                new = s['th'] / 10. if s['mu'] == 'th' else scale
                if new != mu:
                    b = c.AlphasExact(a, mu, new, nf, LOOPS)
                    if m is not None:
                        m = c.mMS2mMS(m, a, b, nf, LOOPS)
                    a, mu = b, new
            elif s['do'] == 'anchor':
                a = self.value('alpha_s', nf, mu, alphas)
            else:
                th = s['th'] / 10.
                nl = nf - 1 if s['do'] == 'down' else nf
                if m is not None:
                    m = (c.DecMqDownOS if s['do'] == 'down' else c.DecMqUpOS)(m, a, th, th, nl, LOOPS)
                a = (c.DecAsDownOS if s['do'] == 'down' else c.DecAsUpOS)(a, th, th, nl, LOOPS)
        return a if q == 'alpha_s' else m


def tolerance(scale, mass):
    """rundec's integrator has a smallest step: between scales closer than 1e-4 it is good to 2e-5 only."""
    pts = sorted({MZ, 2.0, 1.3, 4.8, 170.0, float(scale)} | (set() if mass is None else {float(mass)}))
    near = any(b / a - 1 < 2e-2 for a, b in zip(pts, pts[1:]))
    return 1e-4 if near else 1e-7


def same(a, b, rel=1e-7):
    if isinstance(a, complex) or isinstance(b, complex):
        return False
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    return abs(a - b) <= rel * max(abs(a), abs(b))
