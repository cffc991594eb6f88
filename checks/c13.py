from core import Check, Scenario


class CHECK(Check):
    prop = 'C13'
    models = {'quick': [('MCQP', 'MCQP', 4)], 'thorough': [('MCQP', 'MCQPL', 8)]}
    trace = 'TraceQP'
    driver = 'h_qp'
    libs = ('core', 'quadprog')
    chunk = 150
    driver_timeout = 3
    assumptions = ['programs have two or three unknowns, small integer coefficients, at most two independent equalities',
                   'solutions are compared to 2e-4; a solver that gives up counts as one that reports no solution']

    def driver_env(self):
        return {'MALLOC_PERTURB_': '85'}

    def program(self):
        r = self.rng
        n = r.choice([2, 2, 2, 3])
        k = r.choice([0] * 8 + ([1] if n == 2 else [1, 2]))
        c = 2 if n == 3 else r.choice([1, 2, 3])
        m = r.randint(0, 5 if n == 3 else 8)
        if r.random() < .25:
            m = r.randint(6, 9 if n == 3 else 14)
        G = [[int(i == j) for j in range(n)] for i in range(n)]
        g = [0] * n
        if r.random() < .35:
            g = [r.randint(-1, 1) for _ in range(n)]
            if n == 2 and c < 3:
                G = r.choice([G, [[2, 1], [1, 1]], [[1, 0], [0, 2]], [[1, -1], [-1, 2]], [[2, -1], [-1, 1]]])
            elif n == 3:
                G = r.choice([G, [[1, 0, 0], [0, 2, 0], [0, 0, 1]]])

        def row():
            while True:
                v = [r.randint(-c, c) for _ in range(n)]
                if any(v):
                    return v
        z = [r.randint(-2, 2) for _ in range(n)]     # a point most rows accept
        slack = r.random() < .75
        A, b = [], []
        for _ in range(m):
            if A and r.random() < .1:
                a = list(r.choice(A))
            else:
                a = row()
            v = sum(x * y for x, y in zip(a, z))
            A.append(a)
            b.append(max(-3, min(3, v - r.choice([0, 0, 1, 2]))) if slack and r.random() < .97 else r.randint(-2, 3))
        E, e = [], []
        while len(E) < k:
            a = row()
            if E and all(a[i] * E[0][j] == a[j] * E[0][i] for i in range(n) for j in range(n)):
                continue
            E.append(a)
            e.append(max(-3, min(3, sum(x * y for x, y in zip(a, z)))))
        return n, G, g, E, e, A, b

    def text(self, p):
        n, G, g, E, e, A, b = p
        ws = [n, len(E), len(A)] + [x for r in G for x in r] + g
        for a, v in list(zip(E, e)) + list(zip(A, b)):
            ws += a + [v]
        return 'prog ' + ' '.join(map(str, ws))

    def begin(self, p):
        n, G, g, E, e, A, b = p
        return dict(n=n, G=G, g=g, E=E, e=e, A=A, b=b)

    def solve_lines(self, p):
        r = self.rng
        m = len(p[5])
        ls = ['solve plain 0 0 0', 'solve worst 0 0 0', 'solve window 0 0 0', 'solve set 0 0 0']
        for c in r.sample(range(1, m + 3), min(3, m + 2)):
            ls.append('solve window %d %d 0' % (c, r.choice([0, 0, 110, 150, 200, 300])))
            ls.append('solve set %d 0 0' % c)
        for _ in range(2 if m else 0):
            q = r.sample(range(1, m + 1), r.randint(1, m))
            ls.append('solve %s %d %d %d %s' % (r.choice(['worst', 'window', 'set']), r.choice([0, 1, 2, m]), r.choice([0, 0, 150]), len(q), ' '.join(map(str, q))))
        r.shuffle(ls)
        for u in ['1'] if r.random() < .5 else ['1', '100', '0.01', '1000'][:r.choice([2, 3, 4])]:
            if u != '1':
                ls.append('scale ' + u)
                ls += [r.choice(ls[:8]) for _ in range(4)]
        return ls

    # rows with integer norms: for these the incremental program asks for a.z >= |a|
    N2 = [(1, 0), (0, 1), (3, 4), (4, 3), (2, 0), (0, 3)]
    N3 = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 2, 2), (2, 1, 2), (2, 2, 1)]

    def incremental(self):
        r = self.rng
        n = r.choice([2, 2, 3])
        m = r.randint(1, 6)
        A = []
        pos = r.random() < .7
        sg = [r.choice([1, -1]) for _ in range(n)]
        for _ in range(m):
            v = r.choice(self.N2 if n == 2 else self.N3)
            v = [x * (sg[i] if pos and r.random() < .85 else r.choice([1, -1])) for i, x in enumerate(v)]
            if A and r.random() < .1:
                v = list(r.choice(A))
            A.append(v)
        b = [int(round(sum(x * x for x in v) ** .5)) for v in A]
        p = (n, [[int(i == j) for j in range(n)] for i in range(n)], [0] * n, [], [], A, b)
        np = r.randint(1, n - 1)
        ls = [self.text(p)]
        for _ in range(2):
            cond = r.random() < .25
            ls.append('inc %d %d %d' % (np, n - np, cond))
            o = r.sample(range(1, m + 1), m)
            for i in o:
                ls.append('add %d' % i)
                if r.random() < .5 or i == o[-1]:
                    ls.append('isolve %d %d' % (r.choice([1, 1, 1, 2, 3]), np))
            if r.random() < .3:
                ls.append('clear')
                for i in r.sample(range(1, m + 1), r.randint(1, m)):
                    ls.append('add %d' % i)
                ls.append('isolve 1 %d' % np)
        return p, ls

    def scenarios(self):
        out = []
        for i in range(900 if self.quick else 12000):
            p = self.program()
            out.append(Scenario('q%d' % i, self.begin(p), [self.text(p)] + self.solve_lines(p)))
        for i in range(500 if self.quick else 6000):
            p, ls = self.incremental()
            out.append(Scenario('i%d' % i, self.begin(p), ls))
        return out
