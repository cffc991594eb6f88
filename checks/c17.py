import random
from core import Scenario
from tables import TableCheck, merl, utia, slice2
from textload import esc


class CHECK(TableCheck):
    prop = 'C17'

    def edits(self, k, n):
        r, ls = self.rng, []
        for _ in range(n):
            ls.append('set %d %d %d %d' % (k.index(r), r.randint(0, 1000), r.randint(0, 1000), r.randint(0, 9)))
        return ls

    def looks(self, k, n):
        r = self.rng
        return ['get %d' % k.index(r) for _ in range(n)] + [k.query(r) for _ in range(n // 3)]

    def rawlook(self, k):
        return ['raw ' + ' '.join(str(k.index(self.rng)) for _ in range(8))] if k.raw != 'none' else []

    def scenario(self, name, k, forge, n):
        r = self.rng
        ls = list(k.lines)
        cuts = lambda: ['cut ' + r.choice(['0', '-1', '-%d' % r.randint(1, 16), '-%d' % r.randint(1, 3000), str(r.randint(1, 999)), str(r.randint(980, 999)), str(r.randint(1, 20))])
                        for _ in range(r.randint(1, 3) if n < 6 else 4)]
        ls.append('missing')
        if forge:
            s = r.randint(1, 900)
            ls += ['forge %d' % s, 'load', 'sweep %d' % s] + self.looks(k, n) + cuts() + self.rawlook(k)
        else:
            s = r.randint(1, 900)
            ls += [k.new(r), 'fill %d 1' % s]
        for _ in range(r.randint(1, 3)):
            ls += self.edits(k, r.randint(0, 8)) + ['save good'] + self.rawlook(k)
            if r.random() < .5:
                ls += self.edits(k, 2) + self.looks(k, 3)
            ls += cuts() + self.looks(k, 2) + ['load'] + self.looks(k, n)
            if r.random() < .4:
                ls.append('save bad')
            if n < 60 and r.random() < .4:
                ls.append('precise %d' % k.index(r))
            if k.plugin == 'data_grid' and r.random() < .5:
                ls += ['save good', 'extra']
            if r.random() < .3 and k.ext != 'exr':
                ls.append('save full')
        if k.fdims:
            for _ in range(5):
                d = list(k.fdims)
                if k.plugin == 'data_merl':
                    d = r.choice([[180, 90, 90], [90, 180, 90], [90, 90, 179], [45, 180, 180], [0, 90, 180], [-90, -90, 180], [90, 90, 360], [1, 8100, 180], [90, 91, 180], [90, 45, 180], [90, 90, 181], [89, 90, 180], [91, 90, 180]])
                elif k.plugin == 'data_utia':
                    d = r.choice([[288, 287], [576, 144], [144, 576], [1, 1], [96, 96], [289, 288]])
                else:
                    continue
                ls.append('other %d %s' % (s, ' '.join(map(str, d))))
        ls.append('junk ' + r.choice(['~', esc('this is not it\n'), 'v', '~76~2f~31~01', '~76~2f~31~01~02~00~00~00abc', esc('#ALTA HEADER BEGIN\n#DIM 2 3\n#ALTA HEADER END\n1 2 3 4 5\n')]))
        return Scenario(name, dict(tab=k.tab), ls)

    def astm(self, name):
        r = self.rng
        xs = r.choice([['theta_i', 'phi_i', 'theta_s', 'phi_s'], ['theta_i', 'theta_s', 'phi_s'], ['theta_i', 'theta_s']])
        ys = r.choice([['R', 'G', 'B'], ['Integrated'], ['Integrated_300_700']])
        ls = []
        for _ in range(r.randint(1, 4)):
            n = r.choice([0, 1, 2, 3, 8])
            rows = [[r.randint(-3000, 3000) for _ in xs + ys] for _ in range(n)]
            text = ''.join('%s %s\n' % (k, v) for k, v in r.sample([('ASTM_E1392', '1.0'), ('SAMPLE', 'blue paint'), ('DATE', '2001'), ('EMPTY', '')], r.randint(0, 4)))
            text += 'NUM_POINTS %d\n' % n
            text += 'VARS ' + ','.join(xs + ys) + '\n'
            body = [','.join(r.choice(['%.3f', '%g', '%.3e' if True else '']) % (v / 1000.) for v in row) + '\n' for row in rows]
            if r.random() < .3 and body:
                body.insert(r.randrange(len(body)), '\n')
            what = r.choice(['whole', 'whole', 'cut'])
            full = text + ''.join(body)
            if what == 'cut':
                if n and r.random() < .5:
                    full = full[:full.rstrip().rfind(',') + r.choice([0, 1])]      # the last number is missing
                    if r.random() < .5:
                        full += '\n'
                elif n and r.random() < .6:
                    full = text + ''.join(body)[:r.randrange(0, len(''.join(body[:-1])) + 1)]
                elif r.random() < .5:
                    full = text[:r.randrange(0, text.index('NUM_POINTS'))] if text.index('NUM_POINTS') else ''
                else:
                    full = text[:text.index('VARS')]
            ls.append('list %s %d %d %s %s' % (what, len(xs), len(ys), str(rows).replace(' ', ''), esc(full)))
        k = slice2('STARK_2D', 2, 2)
        return Scenario(name, dict(tab=k.tab), ls)

    def scenarios(self):
        q, r, out = self.quick, self.rng, []
        for i in range(2 if q else 10):
            out.append(self.scenario('merl%d' % i, merl(), i % 2 == 0, 10 if q else 60))
        for i in range(12 if q else 80):
            out.append(self.scenario('utia%d' % i, utia(['bin', 'exr'][i % 2]), i % 4 < 2, 20))
        for i in range(4 if q else 30):
            out.append(self.scenario('slice%d' % i, self.slices(False), i % 2 == 0, 20))
        for i in range(80 if q else 1200):
            out.append(self.scenario('small%d' % i, self.slices(True), True, 6))
        for i in range(80 if q else 1200):
            out.append(self.scenario('grid%d' % i, self.grids(), False, 6))
        for i in range(60 if q else 1000):
            out.append(self.astm('astm%d' % i))
        return out
