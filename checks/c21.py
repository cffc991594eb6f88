import itertools, math
from core import Check, Scenario
from textload import esc

FULL = dict(CARTESIAN=6, SPHERICAL_TL_PL_TV_PV=4, RUSIN_TH_PH_TD_PD=4, STEREOGRAPHIC=4)
ISO = dict(ISOTROPIC_TV_TL_DPHI=3, RUSIN_TH_TD_PD=3, ISOTROPIC_TV_PROJ_DPHI=2, RUSIN_TH_TD=2, COS_TH_TD=2, COS_TH=1, STARK_2D=2)
GRIDS = dict(COS_TH=1, RUSIN_TH_TD=2, RUSIN_TH_TD_PD=3, COS_TH_TD=2)


class CHECK(Check):
    prop = 'C21'
    models = {'quick': [('MCMetrics', 'MCMetrics', 4)], 'thorough': [('MCMetrics', 'MCMetricsL', 8)]}
    trace = 'TraceMetrics'
    driver = 'h_metrics'
    chunk = 60
    assumptions = ['the metrics of an empty selection are not constrained',
                   'a configuration with both directions below the hemisphere counts as a sample without difference',
                   'values are small integers, so that sums are exact']

    def prepare(self):
        super().prepare()
        self.tree.targets('data_grid', 'data2stats', 'brdf2stats')

    def driver_env(self):
        return {'ALTA_PLUGIN_PATH': self.tree.plugins, 'ALTA_SOFTS': self.tree.softs}

    def vals(self, dy, m=50):
        r = self.rng
        return [r.choice([0, r.randint(-m, m), r.randint(0, 9)]) for _ in range(dy)]

    def rows(self, nc, dy, inp, n=None, among=None):
        r, out = self.rng, []
        equal = r.random() < .1
        for _ in range(n or r.choice([1, 2, 3, 5, 9, 12])):
            c = r.choice(among) if among else r.randint(1, nc)
            out.append(dict(c=c, y=list(inp[c - 1]) if equal or r.random() < .3 else self.vals(dy)))
        return out

    def data_lines(self, ref, inp, mask=None):
        ls = ['val %d %s' % (c + 1, ' '.join(map(str, v))) for c, v in enumerate(inp)] if inp else []
        ls += ['row %d %s' % (x['c'], ' '.join(map(str, x['y']))) for x in ref]
        if mask:
            ls.append('mask ' + ' '.join(map(str, mask)))
        return ls

    def maskof(self, n):
        r = self.rng
        k = r.random()
        m = [r.choice([0, 1]) if k < .5 else r.choice([0, 1, 1, 1, 2, -1, 0.5]) for _ in range(n)]
        if k > .9:
            m = [1] * n
        return m

    def begin(self, ref, inp, up, mask, cl=(), cv=()):
        i = lambda v: 1 if v not in (0, 1, 2, -1) else v
        return dict(ref=ref, inp=inp, up=up, mask=[i(v) for v in mask or []], cl=list(cl), cv=list(cv))

    def history(self, ref, mask, dy, nc, table):
        r, ls = self.rng, ['compute']
        on = bool(mask)
        for _ in range(r.randint(0, 5)):
            k = r.random()
            if k < .35:
                ls.append('poke %d %d %d' % (r.randint(1, len(ref)), r.randint(1, dy), r.randint(-50, 50)))
            elif k < .5 and table:
                ls.append('pokein %d %d %d' % (r.randint(1, nc), r.randint(1, dy), r.randint(-50, 50)))
            elif k < .9 and on:
                ls.append('flip %d %d' % (r.randint(1, len(ref)), r.choice([0, 0, 1, 2])))
            elif on:
                ls.append('unmask')
                on = False
            ls.append('compute')
        return ls

    def table(self, name):
        r = self.rng
        dy, nc = r.choice([1, 1, 2, 3]), r.randint(1, 8)
        inp = [self.vals(dy) for _ in range(nc)]
        ref = self.rows(nc, dy, inp)
        mask = self.maskof(len(ref)) if r.random() < .7 else None
        ls, up = [], [True] * nc
        if r.random() < .2:
            dx = r.randint(1, 3)
            pts = r.sample([(a, b, c) for a in range(-3, 4) for b in range(-3, 4) for c in range(-3, 4)], nc)
            pts = [(7 * i + a, b, c) for i, (a, b, c) in enumerate(pts)]
            ls += ['ref UNKNOWN %d %d' % (dx, dy), 'inp UNKNOWN %d' % dx]
            ls += ['at %d %s' % (i + 1, ' '.join(map(str, p[:dx]))) for i, p in enumerate(pts)]
        else:
            rin = r.choice(list(FULL) + ['ISOTROPIC_TV_TL_DPHI', 'RUSIN_TH_TD_PD'])
            pin = r.choice((list(FULL) if rin in FULL else []) + list(ISO))
            if r.random() < .2:
                pin = rin
            D = dict(FULL, **ISO)
            ls += ['ref %s %d %d' % (rin, D[rin], dy), 'inp %s %d' % (pin, D[pin])]
            up = []
            for i in range(nc):
                below = r.random() < .25
                th = [r.uniform(.05, 1.5), r.uniform(.05, 1.5)]
                if below:
                    k = r.choice([0, 1, 2])
                    th = [r.uniform(1.65, 2.5) if k in (0, 2) else th[0], r.uniform(1.65, 2.5) if k in (1, 2) else th[1]]
                ph = [r.uniform(-3, 3), r.uniform(-3, 3)]
                up.append(th[0] < 1.57 or th[1] < 1.57)
                ls.append('conf %d %r %r %r %r' % (i + 1, th[0], ph[0], th[1], ph[1]))
        ls += self.data_lines(ref, inp, mask)
        return Scenario(name, self.begin(ref, inp, up, mask), ls + self.history(ref, mask, dy, nc, True))

    def grid(self, name):
        r = self.rng
        pin = r.choice(list(GRIDS))
        sizes = [r.choice([3, 4, 5]) for _ in range(GRIDS[pin])]
        n = math.prod(sizes)
        # configurations at the bounds are degenerate in some parametrizations
        inner = [i + 1 for i, k in enumerate(itertools.product(*map(range, sizes))) if all(0 < a < b - 1 for a, b in zip(k, sizes))]
        dy = r.choice([1, 2, 3])
        inp = [self.vals(dy) for _ in range(n)]
        ref = self.rows(n, dy, inp, among=inner)
        rin = pin if GRIDS[pin] < 3 or r.random() < .4 else r.choice(['CARTESIAN', 'SPHERICAL_TL_PL_TV_PV', 'ISOTROPIC_TV_TL_DPHI'])
        D = dict(FULL, **ISO)
        ls = ['ref %s %d %d' % (rin, D[rin], dy),
              'grid %s ~5b%s~5d %s' % (pin, ','.join(map(str, sizes)), ' '.join(str(v) for y in inp for v in y))]
        ls += self.data_lines(ref, None)
        return Scenario(name, self.begin(ref, inp, [True] * n, None), ls + ['compute', 'stats'])

    def func(self, name):
        r = self.rng
        dy, nc = r.choice([1, 1, 2, 3]), r.randint(1, 6)
        kind = r.choice(['unknown', 'unknown', 'cart', 'cart', 'th'])
        cl, cv, confs = [0] * nc, [0] * nc, []
        if kind == 'unknown':
            dx, pin, rin = r.randint(1, 3), 'UNKNOWN', 'UNKNOWN'
            w = [[r.randint(-3, 3) for _ in range(dx + 1)] for _ in range(dy)]
            pts = [[r.randint(-4, 4) for _ in range(dx)] for _ in range(nc)]
            inp = [[a[0] + sum(b * x for b, x in zip(a[1:], p)) for a in w] for p in pts]
            confs = ['at %d %s' % (i + 1, ' '.join(map(str, p))) for i, p in enumerate(pts)]
            coef = w
        elif kind == 'cart':
            dx, pin, rin = 6, 'CARTESIAN', r.choice(['CARTESIAN', 'CARTESIAN', 'SPHERICAL_TL_PL_TV_PV'])
            w = [[r.randint(-20, 20), r.randint(-2, 2), r.randint(-2, 2)] for _ in range(dy)]
            coef = [[a, 0, 0, 10 * b, 0, 0, 10 * c] for a, b, c in w]
            inp = []
            for i in range(nc):
                cl[i], cv[i] = r.randint(1, 10), r.randint(1, 10)
                inp.append([a + b * cv[i] + c * cl[i] for a, b, c in w])
                confs.append('conf %d %r %r %r %r' % (i + 1, math.acos(cl[i] / 10), r.uniform(-3, 3), math.acos(cv[i] / 10), r.uniform(-3, 3)))
        else:
            dx, pin, rin = 1, 'COS_TH', 'RUSIN_TH_TD'
            w = [[r.randint(-20, 20), 8 * r.randint(-3, 3)] for _ in range(dy)]
            coef, inp = w, []
            for i in range(nc):
                k = r.randint(1, 7)
                inp.append([a + b * k // 8 for a, b in w])
                confs.append('at %d %r %r' % (i + 1, math.acos(k / 8), r.uniform(0.1, 1.2)))
        ref = self.rows(nc, dy, inp, r.choice([1, 2, 3, 6, 10]))
        for x in ref:
            x['y'] = [f + r.choice([0, r.randint(-20, 20)]) for f in inp[x['c'] - 1]]
        E = lambda v: '%.10e' % v
        t = ['#ALTA FUNC HEADER', '#CMD --func rational_function', '#DIM %d %d' % (dx, dy), '#PARAM_IN  %s' % (pin if pin != 'UNKNOWN' else 'UNKNOWN_INPUT'),
             '#PARAM_OUT UNKNOWN_OUTPUT', '#ALTA HEADER END', '', '#FUNC rational_function', '#MIN ' + ' '.join([E(-1)] * dx) + ' ', '#MAX ' + ' '.join([E(1)] * dx) + ' ']
        zero = '\t'.join('0' for _ in range(dx))
        for a in coef:
            t += ['#NP %d' % len(a), '#NQ 1'] + [zero + '\t' + E(v) for v in a] + [zero + '\t' + E(1), '']
        D = dict(FULL, **ISO)
        ls = ['ref %s %d %d' % (rin, D.get(rin, dx), dy)] + confs + self.data_lines(ref, None)
        return Scenario(name, self.begin(ref, inp, [True] * nc, None, cl, cv), ls + ['func %s %d' % (esc('\n'.join(t) + '\n'), kind == 'cart')])

    def scenarios(self):
        q = self.quick
        return [self.table('table%d' % i) for i in range(300 if q else 5000)] + \
               [self.grid('grid%d' % i) for i in range(80 if q else 1000)] + \
               [self.func('func%d' % i) for i in range(80 if q else 1000)]
