from fractions import Fraction
from core import Check, Scenario
from fits import degrees


def eigenvalues(M):
    """of a symmetric matrix (Jacobi)"""
    n = len(M)
    A = [r[:] for r in M]
    for _ in range(60):
        off = sum(A[i][j] ** 2 for i in range(n) for j in range(n) if i != j)
        if off < 1e-26 * (sum(A[i][i] ** 2 for i in range(n)) or 1):
            break
        for p in range(n):
            for q in range(p + 1, n):
                if A[p][q] == 0:
                    continue
                th = (A[q][q] - A[p][p]) / (2 * A[p][q])
                t = (1 if th >= 0 else -1) / (abs(th) + (th * th + 1) ** .5)
                c = 1 / (t * t + 1) ** .5
                s = t * c
                for k in range(n):
                    a, b = A[k][p], A[k][q]
                    A[k][p], A[k][q] = c * a - s * b, s * a + c * b
                for k in range(n):
                    a, b = A[p][k], A[q][k]
                    A[p][k], A[q][k] = c * a - s * b, s * a + c * b
    return sorted(A[i][i] for i in range(n))


def gram(rows):
    n = len(rows[0])
    return [[sum(r[i] * r[j] for r in rows) for j in range(n)] for i in range(n)]


class CHECK(Check):
    prop = 'C26'
    models = {'quick': [('MCLinFit', 'MCLinFit', 4)], 'thorough': [('MCLinFit', 'MCLinFitL', 8)]}
    trace = 'TraceLinFit'
    driver = 'h_linfit'
    chunk = 60
    assumptions = ['rational functions of one to three inputs with small integer coefficients, denominators of at least 1/2 at the samples; values compared to 2e-4',
                   'exact recovery is required where the generator finds the sample matrix well conditioned (eigenvalue ratio above 1e-6)',
                   'optimality on other data is judged against unit vectors and perturbed solutions (eigen) and by orthogonality (leastsquare)']

    def prepare(self):
        super().prepare()
        self.tree.targets('rational_fitter_eigen', 'rational_fitter_leastsquare', 'rational_function_legendre', 'rational_function_chebychev', 'nonlinear_function_diffuse')

    def driver_env(self):
        return {'ALTA_PLUGIN_PATH': self.tree.plugins, 'MALLOC_PERTURB_': '85'}

    def mono(self, d, t):
        v = Fraction(1)
        for e, x in zip(d, t):
            v *= Fraction(x, 4) ** e
        return v

    def val(self, c, dx, t):
        return sum(a * self.mono(d, t) for a, d in zip(c, degrees(dx, len(c))))

    def det(self, fitter, np, nq, dx, ts, ps, qs, ys):
        """the samples determine what the fitter looks for, with room to spare"""
        for k, (p, q) in enumerate(zip(ps, qs)):
            P = [[float(self.mono(d, t)) for d in degrees(dx, np)] for t in ts]
            Q = [[float(self.mono(d, t)) for d in degrees(dx, nq)] for t in ts]
            y = [float(v[k]) for v in ys]
            if fitter == 'eigen':
                e = eigenvalues(gram([a + [-v * z for z in b] for a, b, v in zip(P, Q, y)]))
                if len(e) < 2 or e[1] < 1e-6 * e[-1]:
                    return False
            else:
                d = [float(self.val(q, dx, t)) for t in ts]
                e = eigenvalues(gram([[z / w for z in a] for a, w in zip(P, d)]))
                f = eigenvalues(gram([[z * v * v for z in b] for b, v in zip(Q, y)]))
                if e[0] < 1e-6 * e[-1] or f[0] < 1e-6 * f[-1] or min(map(abs, y)) < 1 / 16:
                    return False
        return True

    def scenarios(self):
        r, out = self.rng, []
        N = 400 if self.quick else 6000
        while len(out) < N:
            dx, dy = r.choice([1, 1, 1, 2, 2, 3]), r.choice([1, 1, 2, 3])
            lim = {1: 4, 2: 6, 3: 4}[dx]
            np, nq = r.randint(1, lim), r.randint(1, 4 if dx < 3 else 3)
            mode = r.choice(['any', 'any', 'poly', 'recip'])
            if mode == 'poly':
                nq = r.choice([1, 1, nq])
            ps, qs = [], []
            for _ in range(dy):
                a, b = r.randint(1, np) if r.random() < .3 else np, r.randint(1, nq) if r.random() < .3 else nq
                p = [r.choice([-3, -2, -1, 0, 1, 2, 3]) for _ in range(a)]
                q = [r.choice([2, 3, 4, 5, -3, -4])] + [r.choice([-1, 0, 1, 1, 2]) for _ in range(b - 1)]
                if mode == 'poly':
                    q = q[:1]
                if mode == 'recip':
                    p = [r.choice([1, 2, -3])]
                ps.append(p)
                qs.append(q)
            M = r.randint(max(2, np + nq - 1), np + nq + 8)
            ts = {tuple(r.randint(-4, 4) for _ in range(dx)) for _ in range(M)}
            ts = list(ts | {(-4,) * dx, (4,) * dx})
            r.shuffle(ts)
            if any(abs(self.val(q, dx, t)) < Fraction(1, 2) for q in qs for t in ts) or all(not any(p) for p in ps):
                continue
            ys = [[self.val(p, dx, t) / self.val(q, dx, t) for p, q in zip(ps, qs)] for t in ts]
            noise = r.random() < .25
            if noise:
                ys = [[v + Fraction(r.randint(-8, 8), 16) for v in row] for row in ys]
            c, h = [r.choice([0, 0, 1, -3, 10]) for _ in range(dx)], [r.choice([1, 1, 2, 4, 0.5]) for _ in range(dx)]
            kind = r.choice(['asym'] * 9 + ['sym', 'none'])
            xs = [[repr(c[k] + h[k] * t[k] / 4.0) for k in range(dx)] for t in ts]
            data = 'data %s %d %d %d ' % (kind, dx, dy, len(ts)) + ' '.join(' '.join(x + [repr(float(v)) for v in y]) for x, y in zip(xs, ys))
            ls, used = [data], False
            for _ in range(r.randint(1, 4)):
                fn = r.choice(['core'] * 6 + ['rational_function_legendre', 'rational_function_chebychev', 'nonlinear_function_diffuse'])
                if not used or r.random() < .4:
                    ls.append('func ' + fn)
                    used, cur = True, fn
                fitter = r.choice(['eigen', 'leastsquare'])
                a, b = (np, nq) if r.random() < .7 else (r.randint(1, lim), r.randint(1, 4 if dx < 3 else 3))
                suitable = kind == 'asym' and cur != 'nonlinear_function_diffuse'
                exact = all(len(p) <= a and len(q) <= b for p, q in zip(ps, qs))
                det = suitable and not noise and cur == 'core' and exact and self.det(fitter, a, b, dx, ts, ps, qs, ys)
                ls.append('fit %s %d %d %d %d' % (fitter, a, b, suitable, bool(det)))
            out.append(Scenario('s%d' % len(out), dict(dx=dx, kind=kind, ts=[list(t) for t in ts], P=ps, Q=qs), ls))
        return out
