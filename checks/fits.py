"""Data sets and options for the interval-constrained rational fitters (C12, C14)."""
from fractions import Fraction
from core import Check, Scenario
from textload import esc


def degrees(d, n):
    res, t = [], 0
    while len(res) < n:
        if d == 1:
            res.append((t,))
        elif d == 2:
            res += [(t - r, r) for r in range(t + 1)]
        else:
            res += [(t - r - s, r, s) for s in range(t + 1) for r in range(t - s + 1)]
        t += 1
    return res[:n]


def rank(rows):
    m = [[Fraction(x) for x in r] for r in rows]
    rk = 0
    for c in range(len(m[0]) if m else 0):
        for r in range(rk, len(m)):
            if m[r][c]:
                m[rk], m[r] = m[r], m[rk]
                for k in range(rk + 1, len(m)):
                    f = m[k][c] / m[rk][c]
                    m[k] = [a - f * b for a, b in zip(m[k], m[rk])]
                rk += 1
                break
    return rk


class FitCheck(Check):
    trace = 'TraceFit'
    driver = 'h_fit'
    chunk = 40
    driver_timeout = 30
    assumptions = ['samples and intervals are small integers, up to five coefficients in all; values are compared to 1e-4',
                   'the size search is decided for data on which the monomials are independent or interpolate']
    FUNCS = ['core', 'core', 'rational_function_legendre', 'rational_function_chebychev']

    def prepare(self):
        super().prepare()
        import os, subprocess, build
        self.tree.targets('rational_fitter_quadprog', 'rational_fitter_parallel', 'rational_function_legendre', 'rational_function_chebychev')
        self.pdir = os.path.join(self.scratch, 'plugins')
        os.makedirs(self.pdir)
        src = os.path.join(build.VERIF, 'harness', 'tplug.cpp')
        if subprocess.call(['g++', '-O1', '-w', '-shared', '-fPIC', '-DHAVE_FUNC', src, '-o', os.path.join(self.pdir, 'libtraced.so')], env=build._env()):
            raise build.BuildError('test plugin')

    def driver_env(self):
        return {'ALTA_PLUGIN_PATH': self.tree.plugins + ':' + self.pdir, 'MALLOC_PERTURB_': '85', 'OMP_THREAD_LIMIT': '16', 'OMP_DYNAMIC': 'false'}

    def mono(self, deg, x):
        v = 1
        for d, t in zip(deg, x):
            v *= t ** d
        return v

    def decidable(self, xs, sizes):
        d, M = len(xs[0]), len(xs)
        rk = {}
        for n in {s for t in sizes for s in t}:
            dg = degrees(d, n)
            rk[n] = rank([[self.mono(g, x) for g in dg] for x in xs])
        return all((a >= M and rk[a] == M) or (rk[a] == a and rk[b] == b) for a, b in sizes)

    def data(self, sizes, dx=None, dy=None, M=None, plain=False):
        """[(x, lo, hi)] such that every size is decidable."""
        r = self.rng
        while True:
            d = dx or r.choice([1, 1, 1, 2])
            y = dy or r.choice([1, 1, 1, 2, 3])
            m = M or r.randint(1, 5 if max(a + b for a, b in sizes) > 4 else 6)
            pool = [(i,) for i in range(-1 if r.random() < .4 else 0, 4)] + ([(4,), (5,)] if m > 4 else []) if d == 1 else \
                   [(i, j) for i in range(3) for j in range(3)]
            if len(pool) < m:
                continue
            xs = r.sample(pool, m)
            if self.decidable(xs, sizes):
                break
        cols = []
        for _ in range(y):
            t = r.random()
            if plain:            # intervals from values: half to three halves of an even value
                s = r.choice([1, 1, 1, -1])
                col = [(min(v // 2, 3 * v // 2), max(v // 2, 3 * v // 2)) for v in [2 * s * r.randint(1, 3) for _ in xs]]
            elif t < .55:        # around a rational function
                np, nq = r.choice(sizes)
                P = [r.randint(-2, 3) for _ in range(np)]
                Q = [r.choice([1, 1, 2])] + [r.randint(0, 1) for _ in range(nq - 1)]
                dp, dq = degrees(d, np), degrees(d, nq)
                col = []
                for x in xs:
                    q = sum(c * self.mono(g, x) for c, g in zip(Q, dq))
                    v = Fraction(sum(c * self.mono(g, x) for c, g in zip(P, dp)), q if q > 0 else 1)
                    v = max(Fraction(-4), min(Fraction(7), v))
                    f = v.numerator // v.denominator
                    col.append((f - r.randint(0, 1), f + r.randint(1, 2)))
                col = [(a if a < b else b - 1, b) for a, b in col]
            elif t < .9:         # anything
                col = [(a, a + r.randint(1, 3)) for a in [r.randint(-2, 4) for _ in xs]]
            else:                # some intervals reduced to a point
                col = [(a, a + r.choice([0, 1, 2])) for a in [r.randint(0, 3) for _ in xs]]
            cols.append(col)
        D = [(list(x), [c[i][0] for c in cols], [c[i][1] for c in cols]) for i, x in enumerate(xs)]
        if not plain and r.random() < .15:      # the same places again, most often with wider intervals
            for _ in range(r.choice([1, 3, 8, 120])):
                x, lo, hi = r.choice(D[:m])
                n = r.random() < .02
                D.append((x, [a - (0 if n else r.randint(0, 2)) for a in lo], [b + (1 if n else r.randint(0, 3)) for b in hi]))
            r.shuffle(D)
        return d, y, D

    def data_line(self, d, y, D, kind='asym', mid=None):
        ws = [kind, d, y, len(D)]
        for x, lo, hi in D:
            ys = [(a + b) / 2 for a, b in zip(lo, hi)]
            ws += x + ys + ([(b - a) / 2 for a, b in zip(lo, hi)] * 2 if kind == 'sym' else lo + hi)
        return 'data ' + ' '.join(map(str, ws))

    def begin(self, d, y, D, sizes):
        return dict(dx=d, dy=y, D=[dict(x=x, lo=lo, hi=hi) for x, lo, hi in D], sizes=[list(s) for s in sorted(set(sizes))])
