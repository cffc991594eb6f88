from core import Scenario
from tables import TableCheck, merl, utia


class CHECK(TableCheck):
    prop = 'C16'

    def history(self, k, n):
        r, ls = self.rng, []
        touched = [k.index(r) for _ in range(4)]
        pick = lambda: r.choice(touched) if r.random() < .5 else k.index(r)
        for _ in range(n):
            x = r.random()
            if x < .3:
                i = pick()
                touched.append(i)
                y = [r.choice([r.randint(0, 1000), r.randint(0, 9)]) for _ in range(3)]
                if k.plugin == 'data_merl' and r.random() < .2:
                    y[r.randrange(3)] = -r.randint(1, 50)
                ls.append('set %d %d %d %d' % (i, *y))
                j = i + r.choice([-1, 1, r.choice([-1, 1]) * k.axes[-1]['n']])
                if 0 <= j < k.size and r.random() < .5:
                    touched.append(j)
            elif x < .6:
                ls.append('get %d' % pick())
            elif x < .8:
                ls.append('self %d %d' % (k.m, pick()))
            elif x < .97:
                ls.append(k.query(r))
            else:
                ls.append('range')
        return ls

    def scenario(self, name, k, n, sweep):
        r = self.rng
        ls = list(k.lines) + [k.new(r), 'range']
        ls += self.history(k, n // 4)
        step = r.choice([1, 1, 7919, 104729])
        while k.size > 1 and any(k.size % p == 0 and step % p == 0 for p in (2, 3, 5, 7, 7919, 104729)):
            step = r.choice([1, 11, 7919, 104729])
        salt = r.randint(1, 900)
        ls.append('fill %d %d' % (salt, step))
        if sweep:
            ls.append('sweep %d' % salt)
        ls += self.history(k, n)
        return Scenario(name, dict(tab=k.tab), ls)

    def scenarios(self):
        q, out = self.quick, []
        for i in range(2 if q else 12):
            out.append(self.scenario('merl%d' % i, merl(), 600 if q else 3000, True))
        for i in range(6 if q else 40):
            out.append(self.scenario('utia%d' % i, utia(self.rng.choice(['bin', 'exr'])), 250 if q else 1500, True))
        for i in range(10 if q else 60):
            out.append(self.scenario('slice%d' % i, self.slices(False), 250 if q else 1000, True))
        for i in range(60 if q else 1000):
            out.append(self.scenario('grid%d' % i, self.grids(), 80, True))
        return out
