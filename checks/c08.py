import math
from core import Check, Scenario

PINS = ['CARTESIAN', 'RUSIN_TH_TD_PD', 'ISOTROPIC_TV_TL_DPHI', 'COS_TH', 'RUSIN_VH', 'STARK_2D', 'SPHERICAL_TL_PL_TV_PV', 'COS_TLV']
DIMS = dict(zip(PINS, [6, 3, 3, 1, 3, 2, 4, 1]), UNKNOWN_INPUT=2)


class CHECK(Check):
    prop = 'C08'
    models = {'quick': [('MCLayout', 'MCLayout', 4)], 'thorough': [('MCLayout', 'MCLayoutL', 8)]}
    trace = 'TraceLayout'
    driver = 'h_layout'
    chunk = 150
    assumptions = ['parts are test functions linear in their parameters with integer coefficients; all parts have the same number of outputs',
                   'functions without a parametrization are only combined with functions without one']

    def mktree(self, pins, dy, depth, leaves):
        rng = self.rng
        I = lambda a, b: rng.randint(a, b)
        if depth == 0 or rng.random() < .2:
            n = rng.choice([0, 1, 1, 2, 3, 4])
            pin = rng.choice(pins)
            p = [I(-3, 3) for _ in range(n)]
            t = dict(k='leaf', id=len(leaves) + 1, n=n, lo=[I(-90, -10) for _ in range(n)], up=[I(10, 90) for _ in range(n)],
                     a=[[I(-2, 2) for _ in range(n)] for _ in range(dy)], b=[[I(-1, 1) for _ in range(n)] for _ in range(dy)],
                     pin=pin, dx=DIMS[pin], dy=dy)
            leaves.append(p)
            s = 'L %s %d %d ' % (pin, n, dy) + ' '.join(str(v) for v in p + t['lo'] + t['up'] + sum(t['a'], []) + sum(t['b'], []))
            return t, s
        if rng.random() < .55:
            m = rng.choice([1, 2, 2, 3, 4])
            fl = [rng.random() < .3 for _ in range(m)]
            parts = [self.mktree(pins, dy, depth - 1, leaves) for _ in range(m)]
            return (dict(k='sum', parts=[x for x, _ in parts], fixed=fl),
                    'S %d %s %s' % (m, ' '.join('%d' % f for f in fl), ' '.join(s for _, s in parts)))
        fl, fr = rng.random() < .3, rng.random() < .3
        l = self.mktree(pins, dy, min(depth - 1, 1), leaves)
        r = self.mktree(pins, dy, min(depth - 1, 1), leaves)
        return dict(k='prod', l=l[0], r=r[0], fl=fl, fr=fr), 'P %d %d %s %s' % (fl, fr, l[1], r[1])

    def nb(self, t):
        if t['k'] == 'leaf':
            return t['n']
        if t['k'] == 'sum':
            return sum(0 if f else self.nb(p) for p, f in zip(t['parts'], t['fixed']))
        return (0 if t['fl'] else self.nb(t['l'])) + (0 if t['fr'] else self.nb(t['r']))

    def scenarios(self):
        rng, res = self.rng, []
        for k in range(500 if self.quick else 8000):
            o = rng.random()
            pins = ['UNKNOWN_INPUT'] if o < .3 else [rng.choice(PINS)] if o < .5 else PINS
            leaves = []
            dy = rng.choice([1, 1, 2, 3, 4])
            t, s = self.mktree(pins, dy, rng.choice([1, 2, 2, 3]), leaves)
            nb = self.nb(t)
            ops = ['tree ' + s]
            for _ in range(rng.randint(4, 12)):
                o = rng.random()
                if pins[0] == 'UNKNOWN_INPUT':
                    x = '%d %d' % (rng.randint(-1, 1), rng.randint(0, 1))
                else:
                    x = '%r %r %r %r' % (rng.uniform(.02, 1.5), rng.uniform(-3, 3), rng.uniform(.02, 1.5), rng.uniform(-3, 3))
                if o < .35:
                    ops.append(('boot ' if nb and rng.random() < .25 else 'set ') + ' '.join(str(rng.randint(-3, 3)) for _ in range(nb)))
                elif o < .5:
                    ops.append('get')
                elif o < .7:
                    ops.append('value ' + x)
                elif o < .75:
                    ops.append('call ' + x)
                else:
                    ops.append('jac ' + x)
            res.append(Scenario('t%d' % k, dict(tree=t, par=leaves), ops))
        return res
