from fractions import Fraction
from core import Check, Scenario
from textload import esc
from c08 import DIMS

POINTS = [(0, 0, 1), (.6, 0, .8), (0, .6, .8), (-.6, 0, .8), (.8, 0, .6), (0, .8, .6), (0, -.8, .6), (.48, .36, .8), (.64, .48, .6), (-.64, .48, .6), (.36, -.48, .8)]
PINS = ['CARTESIAN', 'RUSIN_TH_TD_PD', 'ISOTROPIC_TV_TL_DPHI', 'COS_TH', 'RUSIN_VH', 'SPHERICAL_TL_PL_TV_PV', 'COS_TLV']
FULL = ['CARTESIAN', 'SPHERICAL_TL_PL_TV_PV']       # data parametrizations: nothing is lost
MODELS = ['abc', 'beckmann', 'blinn', 'diffuse', 'lafortune', 'spherical_gaussian', 'ward', 'retrobeckmann', 'retroblinn']


class CHECK(Check):
    prop = 'C15'
    models = {'quick': [('MCNLFit', 'MCNLFit', 6)], 'thorough': [('MCNLFit', 'MCNLFitL', 8)]}
    trace = 'TraceNLFit'
    driver = 'h_nlfit'
    chunk = 60
    driver_timeout = 30
    assumptions = ['the minimiser is decided for test functions linear in their free parameters; for products of free parts and for the shipped models the bounds, the domain, the verdict and the descent of the squared error are checked',
                   'the IPOPT fitter is not built here (no IPOPT)']

    def prepare(self):
        super().prepare()
        self.tree.targets('nonlinear_fitter_eigen', 'nonlinear_fitter_ceres', 'nonlinear_fitter_nlopt',
                          *['nonlinear_function_' + m for m in MODELS])

    def driver_env(self):
        return {'ALTA_PLUGIN_PATH': self.tree.plugins}

    def leaf(self, pins, dy, leaves, n=None, wide=True, const=False):
        r = self.rng
        I = lambda a, b: r.randint(a, b)
        n = r.choice([0, 1, 1, 2, 2, 3]) if n is None else n
        pin = r.choice(pins)
        p = [I(-3, 3) for _ in range(n)]
        if wide:
            lo, up = [I(-3000, -2000) for _ in range(n)], [I(2000, 3000) for _ in range(n)]
        else:
            lo, up = [v - I(0, 3) for v in p], [v + I(0, 3) for v in p]
        t = dict(k='leaf', id=len(leaves) + 1, n=n, lo=lo, up=up, a=[[I(-2, 2) for _ in range(n)] for _ in range(dy)],
                 b=[[0 if const else I(-1, 1) for _ in range(n)] for _ in range(dy)], pin=pin, dx=DIMS[pin], dy=dy)
        leaves.append(p)
        return t, 'L %s %d %d ' % (pin, n, dy) + ' '.join(str(v) for v in p + lo + up + sum(t['a'], []) + sum(t['b'], []))

    def mktree(self, pins, dy, depth, leaves, wide):
        r = self.rng
        o = r.random()
        if depth == 0 or o < .25:
            return self.leaf(pins, dy, leaves, wide=wide)
        if o < .7:
            m = r.choice([1, 2, 2, 3])
            fl = [r.random() < .35 for _ in range(m)]
            parts = [self.mktree(pins, dy, depth - 1, leaves, wide) for _ in range(m)]
            return (dict(k='sum', parts=[x for x, _ in parts], fixed=fl),
                    'S %d %s %s' % (m, ' '.join('%d' % f for f in fl), ' '.join(s for _, s in parts)))
        free = r.random() < .25        # both sides free: not linear
        fl = not free and r.random() < .5
        fr = not free and not fl
        a = self.leaf(pins, dy, leaves, n=1 if fl else None, wide=wide, const=fl)
        b = self.leaf(pins, dy, leaves, n=1 if fr else None, wide=wide, const=fr)
        return dict(k='prod', l=a[0], r=b[0], fl=fl, fr=fr), 'P %d %d %s %s' % (fl, fr, a[1], b[1])

    def nb(self, t):
        if t['k'] == 'leaf':
            return t['n']
        if t['k'] == 'sum':
            return sum(0 if f else self.nb(p) for p, f in zip(t['parts'], t['fixed']))
        return (0 if t['fl'] else self.nb(t['l'])) + (0 if t['fr'] else self.nb(t['r']))

    def rows(self, dy, n, top=4):
        r, out = self.rng, []
        for _ in range(n):
            L, V = r.choice(POINTS), r.choice(POINTS)
            base, e = [r.randint(-top, top) for _ in range(dy)], [r.choice([0, 0, 1, 2]) for _ in range(dy)]
            for s in ((1, -1) if any(e) else (1,)):
                out.append('row %s %s' % (' '.join(map(str, L + V)), ' '.join(str(b + s * q) for b, q in zip(base, e))))
        return out

    def options(self, fitter, nb, boot):
        r, o = self.rng, []
        if fitter == 'ceres':
            if r.random() < .2:
                o.append('--ceres-max-num-iterations %d' % r.choice([0, 1, 2, 5]))
            if r.random() < .2:
                o.append('--ceres-factorization normal-cholesky')
        if fitter == 'nlopt':
            if r.random() < .15:
                o.append('--nlop-max-num-iterations %d' % r.choice([1, 2, 3, 5]))
        if boot and nb:
            o.append('--bootstrap [%s]' % ', '.join(map(str, boot)))
        return ' '.join(o)

    def scenarios(self):
        r, out = self.rng, []
        FIT = ['eigen', 'ceres', 'nlopt']
        for i in range(300 if self.quick else 5000):
            wide = r.random() < .6
            dy = r.choice([1, 1, 1, 2, 3])
            leaves = []
            pins = PINS if r.random() < .6 else [r.choice(PINS)]
            t, s = self.mktree(pins, dy, r.choice([0, 1, 1, 2]), leaves, wide)
            nb = self.nb(t)
            if nb > 5:
                continue
            cosine = r.random() < .25
            ls = ['data %s %d' % (r.choice(FULL), dy), 'tree ' + s] + self.rows(dy, r.randint(2, 7)) + ['made']
            for _ in range(r.randint(1, 3)):
                f = 'eigen' if cosine else r.choice(FIT)
                boot = None
                if r.random() < (.5 if wide else .25):
                    k = 3 if wide else r.choice([3, 8])
                    boot = [r.randint(-k, k) for _ in range(nb)]
                ls.append('fit %s %s' % (f, esc(self.options(f, nb, boot) + (' --fit-with-cosine' if cosine else ''))))
            out.append(Scenario('t%d' % i, dict(kind='tree', wide=wide, cosine=cosine, tree=t, par=leaves), ls))
        # logarithmic distance
        for i in range(40 if self.quick else 400):
            dy = r.choice([1, 1, 2, 3])
            leaves = []
            t = dict(k='leaf', id=1, n=dy, lo=[0] * dy, up=[2000] * dy, a=[[int(a == b) for a in range(dy)] for b in range(dy)],
                     b=[[0] * dy] * dy, pin='CARTESIAN', dx=6, dy=dy)
            s = 'L CARTESIAN %d %d ' % (dy, dy) + ' '.join(str(v) for v in [1] * dy + t['lo'] + t['up'] + sum(t['a'], []) + sum(t['b'], []))
            ls = ['data CARTESIAN %d' % dy, 'tree ' + s]
            n = r.choice([1, 2, 3, 4])
            cols = []
            for _ in range(dy):
                while True:
                    e = [r.randint(0, 4) for _ in range(n)]
                    if sum(e) % n == 0 and sum(e):
                        break
                cols.append(e)
            for k in range(n):
                ls.append('row %s %s' % (' '.join(map(str, r.choice(POINTS) + r.choice(POINTS))), ' '.join(str(2 ** c[k] - 1) for c in cols)))
            ls += ['made', 'fit ceres ' + esc('--log-fit --bootstrap [%s]' % ', '.join(str(r.randint(1, 6)) for _ in range(dy)))]
            out.append(Scenario('l%d' % i, dict(kind='tree', wide=True, cosine=False, tree=t, par=[[1] * dy]), ls))
        # shipped models
        for i in range(100 if self.quick else 2000):
            dy = r.choice([1, 3])
            m = r.choice(MODELS)
            o = '--func nonlinear_function_' + m
            if m == 'lafortune' and r.random() < .5:
                o += ' --lafortune-lobes %d' % r.choice([1, 2])
            ls = ['data %s %d' % (r.choice(FULL), dy), 'model ' + esc(o)] + self.rows(dy, r.randint(4, 12), 0) + ['made %r' % r.uniform(.05, .95)]
            if r.random() < .8:
                ls.append('start %r' % r.uniform(.05, .95))
            for _ in range(r.randint(1, 2)):
                f = r.choice(FIT)
                ls.append('fit %s %s' % (f, esc(self.options(f, 0, None))))
            out.append(Scenario('m%d-%s' % (i, m), dict(kind='model', wide=False, cosine=False), ls))
        return out
