from core import Scenario
from fits import FitCheck
from textload import esc


def walk(a, b, c, d):
    c, d = max(a, c), max(b, d)
    res = [(a, b)]
    while (a, b) != (c, d):
        a, b = min(a + 1, c), min(b + 1, d)
        res.append((a, b))
    return res


class CHECK(FitCheck):
    prop = 'C12'
    models = {'quick': [('MCFitSearch', 'MCFitSeq', 3), ('MCFeasible', 'MCFeasible', 3)],
              'thorough': [('MCFitSearch', 'MCFitSeq', 3), ('MCFeasible', 'MCFeasibleL', 4)]}

    def seq_options(self, a, b, c, d):
        r = self.rng
        o = '--np %d --nq %d' % (c, d)
        if (a, b) != (c, d) or r.random() < .5:
            o += ' --min-np %d --min-nq %d' % (a, b)
        key = 'seq %d %d %d %d' % (a, b, c, d)
        if r.random() < .3:
            v = r.choice(['0.5', '10', '0.01', '100'])
            o += ' --delta ' + v
            key += ' delta'
        if r.random() < .15:
            o += ' --add-ls-energy'
            key += ' ls'
        if 'ls' in key and 'delta' in key:
            key += v
        m = r.choice(['SlidingWindows', 'WorstSetFirst', 'WorstFirst', '', ''])
        if m:
            o += ' --scheduling-mode ' + m
        if r.random() < .6:
            o += ' --scheduling-chunk-size %d' % r.randint(1, 9)
        if r.random() < .3:
            o += ' --scheduling-grow-factor %s' % r.choice(['1', '1.1', '1.5', '2', '3'])
        return key, o

    def scenarios(self):
        r, out = self.rng, []
        for i in range(500 if self.quick else 7000):
            big = r.random() < .25
            while True:
                a, b = r.randint(1, 3), r.randint(1, 3)
                c, d = r.randint(1, 4), r.randint(1, 4)
                C, D = max(a, c), max(b, d)
                if C + D <= (5 if big else 4):
                    break
            sizes = walk(a, b, c, d)
            N = r.choice([None, (2, 4), (2, 5), (3, 4)]) if r.random() < .35 else None
            if N and N[1] == 5 and not big:
                N = (2, 4)
            if N:
                sizes += [(n - j, j) for n in range(N[0], N[1] + 1) for j in range(1, n)]
            x = self.data(sizes)
            f = r.choice(self.FUNCS)
            ls = [self.data_line(*x), 'func ' + f]
            for _ in range(r.randint(1, 4)):
                key, o = self.seq_options(a, b, c, d)
                ls.append('fit seq %s %s' % (esc(key), esc(o)))
                if N and r.random() < .5:
                    sp, k = r.choice([1, 2, 3, 100]), r.choice([1, 2, 4])
                    ls.append('fit par %s %s' % (esc('par %d' % sp), esc('--min-np %d --np %d --nb-starting-points %d --nb-cores %d' % (N[0], N[1], sp, k))))
                if r.random() < .2:
                    ls.append('fresh')
            out.append(Scenario('s%d' % i, self.begin(*x, sizes), ls))
        # samples with symmetric intervals, or without: they are then a proportion of the value
        for i in range(60 if self.quick else 800):
            N = r.choice([(2, 3), (2, 4), (3, 4), (3, 5)])
            sizes = [(n - j, j) for n in range(N[0], N[1] + 1) for j in range(1, n)]
            kind = r.choice(['none', 'none', 'sym'])
            d, y, D = self.data(sizes, plain=kind == 'none')
            if kind == 'sym':
                D = [(x, [2 * a for a in lo], [2 * b for b in hi]) for x, lo, hi in D]
            ls = [self.data_line(d, y, D, kind), 'func ' + r.choice(self.FUNCS)]
            for _ in range(r.randint(1, 3)):
                sp, k = r.choice([1, 2, 3, 100]), r.choice([1, 2, 4])
                ls.append('fit par %s %s' % (esc('par %d' % sp), esc('--min-np %d --np %d --nb-starting-points %d --nb-cores %d' % (N[0], N[1], sp, k)
                                                                      + (' --dt 0.5' if kind == 'none' else ''))))
            out.append(Scenario(kind + '%d' % i, self.begin(d, y, D, sizes), ls))
        for i in range(3):
            out.append(Scenario('empty%d' % i, dict(dx=1, dy=1, D=[], sizes=[[1, 1], [2, 1]]),
                                ['data asym 1 1 0', 'func core', 'fit seq e ' + esc('--np 2 --nq 1 --min-np 1 --min-nq 1' + ['', ' --scheduling-mode WorstSetFirst', ' --scheduling-mode WorstFirst'][i])]))
        return out
