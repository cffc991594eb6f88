import math
from core import Check, Scenario


class CHECK(Check):
    prop = 'C22'
    models = {'quick': [('MCParams', 'MCParams', 2)], 'thorough': [('MCParams', 'MCParams', 2)]}
    trace = 'TraceParams'
    driver = 'h_params'
    chunk = 60
    assumptions = ['quantities are compared to 4e-5; those whose definition degenerates (azimuths within 0.01 of the normal) are skipped',
                   'conversions into or through a configuration below the hemisphere promise nothing further']

    def angles(self):
        rng = self.rng
        T = [0, 0, 1e-9, 1e-4, .3, math.pi / 4, 1.2, math.pi / 2 - 1e-4, math.pi / 2, math.pi / 2]
        F = [0, math.pi / 6, math.pi / 2, 2.5, math.pi, -math.pi / 2, -3, -.2]
        t = lambda: rng.choice(T) if rng.random() < .4 else math.acos(rng.random())
        f = lambda: rng.choice(F) if rng.random() < .4 else rng.uniform(-math.pi, math.pi)
        a = [t(), f(), t(), f()]
        o = rng.random()
        if o < .06:
            a[2:] = a[:2]                      # view = light
        elif o < .12:
            a[2], a[3] = a[0], a[1] + math.pi  # mirror
        elif o < .2:
            a[3] = a[1] + rng.choice([0, math.pi])   # coplanar
        elif o < .25:
            a[2], a[3] = a[0] + rng.uniform(-1e-5, 1e-5), a[1] + rng.uniform(-1e-5, 1e-5)
            a[2] = min(max(a[2], 0), math.pi / 2)
        return 'cfg angles ' + ' '.join(repr(x) for x in a)

    def scenarios(self):
        rng, res = self.rng, []
        chains = [b['h'] for b in self.behaviours('MCParams', 'GenParams2' if self.quick else 'GenParams3', simulate=False)]
        per = 8 if self.quick else 4
        chains = chains * per
        chains += [b['h'] for b in self.behaviours('MCParams', 'GenParams6', num=500 if self.quick else 20000, depth=8)]
        rng.shuffle(chains)
        for k in range(0, len(chains), 20):
            lines = []
            for c in chains[k:k + 20]:
                lines.append(self.angles())
                for p in c:
                    lines.append('conv ' + p)
                    if rng.random() < .1:
                        lines.append('above')
            res.append(Scenario('chain%d' % k, {}, lines))
        res.append(Scenario('registry', {}, ['registry']))
        names = ['COS_TH', 'CARTESIAN', 'NEUMANN_2D', 'STARK_3D', 'RUSIN_TH_TD', 'RUSIN_TH_TD_PD', 'COS_TH_TD']
        lines = []
        for n in names:
            lines += ['name ' + n] + ['name ' + x for x in (n.lower(), n + '_', n[:-1], '_' + n, n + '~20', '~20' + n)]
        lines += ['name ~', 'name UNKNOWN_INPUT', 'name UNKNOWN', 'name COS_T', 'name RUSIN_TH', 'name STARK', 'name ISOTROPIC_TV_TL_DPH']
        res.append(Scenario('names', {}, lines))
        lines = []
        for i, o in [(n, n) for n in range(1, 7)] + [(1, n) for n in range(2, 7)] + [(n, 1) for n in (2, 3, 4, 6)]:
            for _ in range(3):
                lines.append('outconv %d %s' % (o, ' '.join(str(rng.randint(-800, 800)) for _ in range(i))))
        res.append(Scenario('outputs', {}, lines))
        return res
