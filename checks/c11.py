from core import Check, Scenario

PLUG = dict(monomial='core', legendre='rational_function_legendre', chebychev='rational_function_chebychev', cosine='rational_function_cosine')


class CHECK(Check):
    prop = 'C11'
    models = {'quick': [('MCRational', 'MCRational', 4)], 'thorough': [('MCRational', 'MCRationalL', 8)]}
    trace = 'TraceRational'
    driver = 'h_rational'
    chunk = 60
    assumptions = ['coefficients are multiples of a quarter and the points have integer normalised coordinates between -2 and 2, so that values are exact fractions',
                   'a changed domain applies to the outputs created after the next change of size']

    def prepare(self):
        super().prepare()
        self.tree.targets(*[p for p in PLUG.values() if p != 'core'])

    def driver_env(self):
        return {'ALTA_PLUGIN_PATH': self.tree.plugins}

    def domain(self, o, flat=True):
        lo, hi = [], []
        for _ in range(o['dx']):
            if self.rng.random() < .4:
                a, h = -1, 1
            else:
                a, h = self.rng.randint(-4, 3), self.rng.choice([0, 1, 1, 2, 3] if flat and o['par'] != 'CARTESIAN' else [1, 1, 2, 3])
            lo.append(a)
            hi.append(a + 2 * h)
        o['lo'], o['hi'] = lo, hi
        return ' '.join(map(str, lo + hi))

    def point(self, lo, hi, big):
        # normalised coordinates of small magnitude when the degrees are high
        return [a + (b - a) // 2 * (1 + self.rng.choice([-2, -1, 0, 1, 2] if big else [-1, 0, 1, 1])) for a, b in zip(lo, hi)]

    def coefs(self, n, first=False):
        r = self.rng
        c = [r.choice([0, 0, 4, -4, 8, 12, -8, 4, 16]) for _ in range(n)]
        return c

    def ab(self, np, nq):
        r = self.rng
        b0 = r.choice([4, 4, 4, -4, 8, 2, 1, 16, 0, -2])
        a, b = self.coefs(np), [b0] + self.coefs(nq - 1)
        if b0 in (8, 16):
            a, b = [4 * (v // 4) for v in a], [b0] + [4 * (v // 4) for v in b[1:]]
        return a, b

    def size(self, o):
        r = self.rng
        m = {1: 8, 2: 15, 3: 20, 4: 15, 6: 12}[o['dx']]
        return r.choice([0, 1, 2, r.randint(0, m), r.randint(1, m)])

    def history(self, k):
        rng, ops, os_ = self.rng, [], []

        def create():
            basis = rng.choice(list(PLUG))
            par = 'UNKNOWN_INPUT'
            dx = rng.choice([1, 1, 2, 2, 3, 4])
            if basis == 'cosine' and rng.random() < .6 or rng.random() < .1:
                par, dx = rng.choice([('CARTESIAN', 6), ('SPHERICAL_TL_PL_TV_PV', 4)])
            o = dict(basis=basis, par=par, dx=dx, dy=rng.choice([1, 2, 3, 3, 4]))
            dom = self.domain(o)
            o['np'], o['nq'] = self.size(o), max(1, self.size(o))
            o['rs'] = [None] * o['dy']
            ops.append('create %s %s %d %d %s %d %d %s' % (basis, PLUG[basis], dx, o['dy'], par, o['np'], o['nq'], dom))
            os_.append(o)

        def have(o, y):
            if o['rs'][y] is None:
                o['rs'][y] = dict(np=o['np'], nq=o['nq'], lo=o['lo'], hi=o['hi'])
            return o['rs'][y]
        create()
        for _ in range(rng.randint(8, 25)):
            i = rng.randrange(len(os_))
            o = os_[i]
            y = rng.randrange(o['dy'])
            t = rng.random()
            if t < .05 and len(os_) < 3:
                create()
            elif t < .1:
                have(o, y)
                ops.append('get %d %d' % (i + 1, y + 1))
            elif t < .14:
                o['np'], o['nq'] = self.size(o), max(1, self.size(o))
                o['rs'] = [None] * o['dy']
                if rng.random() < .6:
                    ops.append('domain %d %s' % (i + 1, self.domain(o)))
                ops.append('size %d %d %d' % (i + 1, o['np'], o['nq']))
            elif t < .27:
                r = have(o, y)
                r['np'], r['nq'] = self.size(o), max(1, self.size(o))
                ops.append('resize %d %d %d %d' % (i + 1, y + 1, r['np'], r['nq']))
            elif t < .55:
                r = have(o, y)
                if rng.random() < .5:
                    r['np'], r['nq'] = self.size(o), max(1, self.size(o))
                a, b = self.ab(r['np'], r['nq'])
                ops.append('update %d %d %d %d %s' % (i + 1, y + 1, len(a), len(b), ' '.join(map(str, a + b))))
            elif t < .6:
                c = [(j, m) for j, p in enumerate(os_) for m in range(p['dy']) if p['rs'][m] and p['basis'] == o['basis'] and p['dx'] == o['dx']]
                if c:
                    j, m = rng.choice(c)
                    r = have(o, y)
                    r['np'], r['nq'] = os_[j]['rs'][m]['np'], os_[j]['rs'][m]['nq']
                    ops.append('copy %d %d %d %d' % (i + 1, y + 1, j + 1, m + 1))
            elif t < .63:
                c = [j for j, p in enumerate(os_) if j != i and all(p[z] == o[z] for z in ('basis', 'dx', 'dy'))]
                if c:
                    j = rng.choice(c)
                    for m in range(o['dy']):
                        s = have(os_[j], m)
                        r = have(o, m)
                        r['np'], r['nq'] = s['np'], s['nq']
                    ops.append('copyall %d %d' % (i + 1, j + 1))
            elif t < .67:
                dom = self.domain(o)
                s = []
                for m in range(o['dy']):
                    a, b = self.ab(self.size(o), max(1, self.size(o)))
                    o['rs'][m] = dict(np=len(a), nq=len(b), lo=o['lo'], hi=o['hi'])
                    s += [len(a), len(b)] + a + b
                ops.append('load %d %s %s' % (i + 1, dom, ' '.join(map(str, s))))
            else:
                for m in range(o['dy']):
                    if o['rs'][m] is None:
                        have(o, m)
                        ops.append('get %d %d' % (i + 1, m + 1))
                r = have(o, y)
                big = max(r['np'], r['nq']) <= {1: 7, 2: 15, 3: 20, 4: 15, 6: 12}[o['dx']] and rng.random() < .5
                n1 = all(x and x['lo'] == o['rs'][0]['lo'] and x['hi'] == o['rs'][0]['hi'] for x in o['rs'])
                if t < .8 and n1:
                    x = self.point(o['rs'][0]['lo'], o['rs'][0]['hi'], big)
                    ops.append('%s %d %s' % (rng.choice(['value', 'value', 'call']), i + 1, ' '.join(map(str, x))))
                else:
                    x = self.point(r['lo'], r['hi'], big)
                    ops.append('pq %d %d %s' % (i + 1, y + 1, ' '.join(map(str, x))))
        return Scenario('h%d' % k, {}, ops)

    def scenarios(self):
        res = [self.history(k) for k in range(600 if self.quick else 8000)]
        # the sequence of multi-degrees
        n = 1 if self.quick else 6
        for d, m in ((1, 3), (2, 12), (3, 16), (4, 16), (5, 12), (6, 16), (7, 6), (8, 6)):
            res.append(Scenario('degrees%d' % d, {}, ['table %d 60' % d] * (m * n)))
        return res
