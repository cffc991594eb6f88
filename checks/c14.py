from core import Scenario
from fits import FitCheck
from textload import esc


class CHECK(FitCheck):
    prop = 'C14'
    models = {'quick': [('MCFitSearch', 'MCFitPar', 4)], 'thorough': [('MCFitSearch', 'MCFitParL', 8)]}
    reruns = 8
    assumptions = FitCheck.assumptions + ['interleavings of the workers are forced where a candidate is compared and stored; within the solver they are those of the machine']

    def scenarios(self):
        r, out = self.rng, []
        # forced orders: all candidates fit, and their grades are made up
        for i, b in enumerate(self.behaviours('MCFitSearch', 'GenFit', num=150 if self.quick else 2500, depth=60)):
            cost, order, N = b['cost'], [j for j in b['h'] if j], len(b['cost']) + 1
            sizes = [(N - j, j) for j in range(1, N)]
            D = [([x], [1] * 3, [6] * 3) for x in r.sample(range(4), r.randint(1, 2))]
            dy = r.choice([1, 1, 3])
            D = [(x, lo[:dy], hi[:dy]) for x, lo, hi in D]
            if not self.decidable([x for x, _, _ in D], sizes):
                D = D[:1]
            ls = [self.data_line(1, dy, D), 'func traced',
                  'script %d %s %s' % (len(cost), ' '.join(map(str, cost)), ' '.join(map(str, order))),
                  'fit par %s %s' % (esc('a'), esc('--min-np %d --np %d --nb-cores %d' % (N, N, b['W'])))]
            out.append(Scenario('f%d' % i, self.begin(1, dy, D, sizes), ls))
        # the same fit with more and fewer workers
        for i in range(250 if self.quick else 4000):
            N = r.choice([(2, 3), (2, 4), (3, 4), (2, 5), (3, 5), (5, 5), (4, 4), (1, 3)])
            step = r.choice([1, 1, 1, 2])
            sizes = [(n - j, j) for n in range(N[0], N[1] + 1) for j in range(1, n)]
            kind = r.choice(['asym'] * 5 + ['none', 'sym'])
            d, y, D = self.data(sizes, plain=kind == 'none')
            if kind == 'sym':
                D = [(x, [2 * a for a in lo], [2 * b for b in hi]) for x, lo, hi in D]
            f = r.choice(['traced', 'traced', 'core', 'rational_function_legendre', 'rational_function_chebychev'])
            ls = [self.data_line(d, y, D, kind), 'func ' + f]
            for _ in range(r.randint(1, 2)):
                sp, delta = r.choice([1, 2, 3, 100]), r.random() < .3
                o = '--min-np %d --np %d --nb-starting-points %d' % (N[0], N[1], sp)
                o += ' --np-step %d' % step if step > 1 else ''
                o += ' --use_delta' if delta else ''
                o += ' --dt 0.5' if kind == 'none' else ''
                for k in r.sample([1, 2, 3, 4, 6, 8], r.randint(2, 4)):
                    ls.append('fit par %s %s' % (esc(o), esc(o + ' --nb-cores %d' % k)))
                    if r.random() < .3:
                        ls.append('fresh')
            out.append(Scenario('w%d' % i, self.begin(d, y, D, sizes), ls))
        return out
