from core import Check, Scenario


def s8(k):
    """a value given in thousandths, as text"""
    return repr(k / 1000.0)


class CHECK(Check):
    prop = 'C05'
    models = {'quick': [('MCStorage', 'MCStorage', 4)], 'thorough': [('MCStorage', 'MCStorageL', 8)]}
    trace = 'TraceStorage'
    driver = 'h_storage'
    assumptions = ['sample values are multiples of 1/8 (exact in thousandths)',
                   'sample indices are within the data set']

    def scen(self, name, cfg, content, ops, newz=False):
        lines = []
        if newz:
            lines.append('newz %d %d %d' % (cfg['n'], cfg['dx'], cfg['dy']))
        else:
            lines.append('new %d %d %d %d ' % (cfg['n'], cfg['dx'], cfg['dy'], cfg['kind']) +
                         ' '.join(s8(x) for r in content for x in r))
        return Scenario(name, dict(cfg=cfg, content=content), lines + ops)

    def scenarios(self):
        res, rng = [], self.rng
        stride = lambda c: c['dx'] + c['dy'] + c['kind'] * c['dy']
        # behaviours generated from the specification
        for k, b in enumerate(self.behaviours('MCStorage', 'GenStorage', num=300 if self.quick else 3000, depth=16)):
            c = b['cfg']
            ops = []
            for a in b['h']:
                if a['a'] == 'Set':
                    ops.append('set %d %s' % (a['i'], ' '.join(s8(125 * x) for x in a['v'])))
                elif a['a'] == 'Get':
                    ops.append('get %d' % a['i'])
                elif a['a'] == 'Interval':
                    ops.append('ci %d' % a['i'])
                else:
                    ops.append('view')
            z = [[0] * stride(c) for _ in range(c['n'])]
            res.append(self.scen('gen%d' % k, c, z, ops + ['view'], newz=(c['kind'] == 2 and k % 2 == 0)))
        # seeded random histories over larger stores
        for k in range(250 if self.quick else 4000):
            c = dict(n=rng.randint(1, 9), dx=rng.randint(1, 7), dy=rng.randint(1, 4), kind=rng.randint(0, 2))
            val = lambda: 125 * rng.randint(-4000, 4000)
            content = [[val() for _ in range(stride(c))] for _ in range(c['n'])]
            ops = []
            for _ in range(rng.randint(4, 40)):
                i = rng.randint(0, c['n'] - 1)
                o = rng.random()
                if o < 0.4:
                    m = c['dx'] + c['dy'] if rng.random() < .6 else stride(c)
                    ops.append('set %d %s' % (i, ' '.join(s8(val()) for _ in range(m))))
                elif o < 0.6:
                    ops.append('get %d' % i)
                elif o < 0.8:
                    ops.append('ci %d' % i)
                elif o < 0.9:
                    ops.append('view')
                elif o < 0.94:
                    ops.append('save text')
                elif o < 0.98:
                    ops.append('save binary')
                else:
                    ops.append('equals')
            res.append(self.scen('rnd%d' % k, c, content, ops + ['view'] + ['ci %d' % i for i in range(c['n'])]))
        return res
