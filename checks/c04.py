from core import Scenario
from c01 import DataFileCheck
import dataval


class CHECK(DataFileCheck):
    prop = 'C04'
    assumptions = ['truncation is considered between the format declaration and the end of the file']

    def scenarios(self):
        rng, res = self.rng, []
        for k, ops in enumerate(self.chains(150 if self.quick else 1500, False)):
            res.append(Scenario('gen%d' % k, {}, [dataval.dataset(rng)[0]] + ops))
        for k in range(300 if self.quick else 5000):
            ds, n = dataval.dataset(rng, nmax=rng.choice([0, 1, 5, 12, 40]))
            ops = []
            for _ in range(rng.randint(1, 4)):
                f = rng.choice('fg')
                ops += ['savebin ' + f, 'load ' + f]
            res.append(Scenario('rnd%d' % k, {}, [ds] + ops + ['load f vertical_segment', 'load missing']))
        # every truncation point of small files, all kinds
        for k in range(12 if self.quick else 150):
            ds, n = dataval.dataset(rng, nmax=2, nmin=1, kinds=(k % 3,))
            res.append(Scenario('cut%d' % k, {}, [ds, 'savebin f', 'load f', 'cutall f']))
        # files larger than any buffer on the way
        for k in range(6 if self.quick else 60):
            n, dx, dy, kind = rng.choice([9000, 20000, 70000]), rng.randint(1, 6), rng.randint(1, 3), k % 3
            res.append(Scenario('big%d' % k, {}, ['big %d %d %d %d %d %d' % (n, dx, dy, kind, rng.randint(1, 9999), rng.choice([1, 7, 8, 4096, 65536, 10 ** 6]))]))
        # headers that declare something else
        for k in range(40 if self.quick else 600):
            ds, n = dataval.dataset(rng, nmax=rng.choice([1, 5, 12]), nmin=1)
            ops = []
            for key, v in rng.sample([('ENDIAN', 'big'), ('ENDIAN', 'middle'), ('PRECISION', 'ieee754-single'), ('PRECISION', 'ieee754-doubles'), ('VERSION', '1'),
                                      ('VERSION', '-1'), ('VERSION', '2'), ('SAMPLE_COUNT', str(n + rng.choice([1, 2, 7, 1000]))), ('SAMPLE_COUNT', '-1'),
                                      ('DIM', '0 1'), ('DIM', '1'), ('DIM', '-1 1')], 3):
                ops += ['savebin f', 'foreign f %s %s' % (key, v.replace(' ', '~20')), 'load f']
            res.append(Scenario('foreign%d' % k, {}, [ds] + ops))
        return res
