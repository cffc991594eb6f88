import copy
from core import Check, Scenario
import dataval

NAN = [999999, 0]


class CHECK(Check):
    prop = 'C24'
    models = {'quick': [('MCDataEq', 'MCDataEq', 4)], 'thorough': [('MCDataEq', 'MCDataEqL', 8)]}
    trace = 'TraceDataEq'
    driver = 'h_equal'
    chunk = 300
    assumptions = ['values are multiples of 1/8 up to a few units plus at most a few dozen 1e-15',
                   'the default tolerance is 1e-14 in magnitude; differences between 5e-15 and 1.9e-14 are not asked for']

    def scenarios(self):
        rng, res = self.rng, []

        def mk(n):
            dx, dy = rng.randint(1, 4), rng.randint(1, 3)
            pin = rng.choice(['UNKNOWN_INPUT'] + [p for p, d in dataval.IN_NAMES.items() if d == dx])
            pout = rng.choice(['UNKNOWN_OUTPUT'] + [p for p, d in dataval.OUT_NAMES.items() if d == dy])
            return dict(dx=dx, dy=dy, pin=pin, pout=pout,
                        rows=[[[rng.randint(-16, 16), 0] for _ in range(dx + dy)] for _ in range(n)])

        def val(v):
            return 'nan' if v == NAN else '%d:%d' % tuple(v) if v[1] else '%d' % v[0]

        def line(name, d, kind):
            vals = []
            for r in d['rows']:
                vals += [val(v) for v in r] + ['%d' % rng.randint(-9, 9) for _ in range(kind * d['dy'])]
            return 'ds %s %d %d %s %s %d %d %s' % (name, d['dx'], d['dy'], d['pin'], d['pout'], kind, len(d['rows']), ' '.join(vals))

        for k in range(900 if self.quick else 12000):
            a = mk(rng.choice([0, 1, 1, 2, 3, 5, 20]))
            b = copy.deepcopy(a)
            o = rng.random()
            n = len(a['rows'])
            small = rng.random() < .5
            if n and o < .45:      # one cell differs
                i, j = rng.choice([0, n - 1, rng.randrange(n)]), rng.randrange(a['dx'] + a['dy'])
                if rng.random() < .3:
                    j = rng.choice([0, a['dx'] + a['dy'] - 1])
                if small:
                    a['rows'][i][j][0] = b['rows'][i][j][0] = rng.choice([0, 0, 1, -4])
                    b['rows'][i][j][1] = rng.choice([3, -4, 4, 20, -24, 60, -90, 1])
                else:
                    b['rows'][i][j][0] += rng.choice([1, -1, 4, -4, 5, -5, 8])
            elif o < .55:
                if rng.random() < .5 or not n:
                    b['rows'].append([[0, 0]] * (a['dx'] + a['dy']))
                else:
                    b['rows'].pop(rng.choice([0, n - 1]))
            elif o < .65:          # another split of the same columns
                if a['dx'] > 1:
                    b['dx'] -= 1; b['dy'] += 1
                else:
                    b['dx'] += 1
                    for r in b['rows']:
                        r.append([0, 0])
                b['pin'] = a['pin'] = 'UNKNOWN_INPUT'
                b['pout'] = a['pout'] = 'UNKNOWN_OUTPUT'
            elif o < .75:
                b['pin'] = rng.choice([p for p, d in dataval.IN_NAMES.items() if d == b['dx']])
            elif o < .85:
                b['pout'] = rng.choice(['UNKNOWN_OUTPUT', 'INV_STERADIAN', 'RGB_COLOR', 'XYZ_COLOR'])
            elif n and o < .92:
                i, j = rng.randrange(n), rng.randrange(a['dx'] + a['dy'])
                x = rng.choice([a, b])
                x['rows'][i][j] = NAN
                if rng.random() < .3:
                    b['rows'][i][j] = NAN; a['rows'][i][j] = NAN
            ops = []
            for l, r in (('a', 'b'), ('b', 'a'), ('a', 'a'), ('b', 'b')):
                ops.append('eq %s %s default' % (l, r))
                if not (small and o < .45):
                    ops.append('eq %s %s %d 0' % (l, r, rng.choice([0, 1, 4, 8])))
            res.append(Scenario('r%d' % k, dict(a=a, b=b), [line('a', a, rng.randint(0, 2)), line('b', b, rng.randint(0, 2))] + ops))
        return res
