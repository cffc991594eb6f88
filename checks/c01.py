from core import Check, Scenario
import dataval


class DataFileCheck(Check):
    models = {'quick': [('MCDataFile', 'MCDataFile', 4)], 'thorough': [('MCDataFile', 'MCDataFileL', 8)]}
    trace = 'TraceDataFile'
    driver = 'h_data'
    chunk = 150

    def chains(self, num, text):
        """operation chains generated from the specification"""
        out = []
        for b in self.behaviours('MCDataFile', 'GenDataFile', num=num, depth=9):
            ops, ok = [], True
            for a in b['h']:
                f = a['f']
                if a['a'] == 'SaveText':
                    ops.append('savetext ' + f)
                elif a['a'] == 'SaveBin':
                    ops.append('savebin ' + f)
                elif a['a'] == 'Cut':
                    ops.append('cut %s %s %r' % (f, self.rng.choice(['pay', 'hdr', 'pay', 'early']),
                                                 self.rng.choice([0, .999999, self.rng.random()])))
                else:
                    ops.append('load ' + f)
            out.append(ops)
        return out


class CHECK(DataFileCheck):
    prop = 'C01'
    assumptions = ['values are finite and below 1e300 in magnitude', 'the interval columns are not part of the text format']

    def scenarios(self):
        rng, res = self.rng, []
        for k, ops in enumerate(self.chains(150 if self.quick else 1500, True)):
            res.append(Scenario('gen%d' % k, {}, [dataval.dataset(rng)[0]] + ops))
        for k in range(400 if self.quick else 6000):
            ds, n = dataval.dataset(rng, nmax=rng.choice([0, 1, 5, 12]))
            ops = []
            for _ in range(rng.randint(1, 3)):
                f = rng.choice('fg')
                ops += ['savetext ' + f, 'load ' + f]
                if rng.random() < .2:
                    ops += ['savebin ' + f, 'load ' + f]
            res.append(Scenario('rnd%d' % k, {}, [ds] + ops + ['load missing']))
        # every parametrization name once
        for a in dataval.IN_NAMES:
            for b in dataval.OUT_NAMES:
                dx, dy = dataval.IN_NAMES[a], dataval.OUT_NAMES[b]
                vals = [dataval.value(rng) for _ in range(2 * (dx + dy))]
                res.append(Scenario('names-%s-%s' % (a, b), {}, [
                    'ds %d %d %s %s 0 2 %s' % (dx, dy, a, b, ' '.join(v.hex() for v in vals)),
                    'savetext f', 'load f', 'savetext g', 'load g']))
        return res
