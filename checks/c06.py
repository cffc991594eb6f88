from core import Check, Scenario
from textload import esc


class ArgsCheck(Check):
    models = {'quick': [('MCArgs', 'MCArgs', 4)], 'thorough': [('MCArgs', 'MCArgsL', 8)]}
    trace = 'TraceArgs'
    driver = 'h_args'
    chunk = 150

    NUMS = ['0', '1', '2.5', '-3', '-0.125', '+7', '.5', '12.25', '100', '0.001', '-17.75', '3.', 'abc', '1.5x', '']

    # many characters, more digits than a float holds: read as double (or as text) only, under keys of their own
    LONG = ['1234567.891', '-1234567.125', '000000012.25', '98765.432', '0000000000000.125', '+1000000.001', '-0000999999.999']

    def number(self):
        return self.rng.choice(self.NUMS)

    def vector(self, words=False, closed=True):
        rng = self.rng
        n = rng.randint(1, 5) if rng.random() < .93 else rng.randint(6, 24)
        pool = self.NUMS[:-3] if rng.random() < .7 else self.NUMS[:-1] + ['fn_a', 'fn_b --fixed', 'x']
        items = [rng.choice(pool) if rng.random() < .96 else '' for _ in range(n)]
        return '[' + rng.choice([', ', ',']).join(items) + (']' if closed else '')

    def optname(self):
        return self.rng.choice(['a', 'b', 'min', 'max', 'func', 'np', 'dt-max', 'x', 'a1', 'input', 'output', 'zz'])

    # characters the grammar (or a plausible variant of it) gives a meaning to
    CHARS = '[]][,,--##ab1.=:;/\\"\'_%$&@!*?(){}<>|~^`0+'

    def odd(self, blanks=False):
        """a word of significant characters"""
        rng = self.rng
        cs = self.CHARS + ('   \t' if blanks else '')
        return ''.join(rng.choice(cs) for _ in range(rng.randint(1, 7)))

    def plain(self):
        if self.rng.random() < .15:
            return self.odd()
        return self.rng.choice(['v', 'file.txt', 'a-b', '5', '2.5', 'x]', ']', 'p=q', '/tmp/x_y.dat', 'a,b', '1.0', '3'])

    def argv(self):
        """mostly sensible command lines, some odd ones"""
        rng, ws = self.rng, ['prog'] if self.rng.random() < .8 else []
        for _ in range(rng.randint(0, 7)):
            r = rng.random()
            if r < .75:
                ws.append('--' + self.optname())
                q = rng.random()
                if q < .35:
                    ws.append(self.plain())
                elif q < .65:
                    v = self.vector(closed=rng.random() < .95)
                    v = v.split(' ') if rng.random() < .8 else [v]
                    if rng.random() < .2:
                        v[rng.randint(1, len(v)):0] = [self.odd()]
                    if rng.random() < .15:
                        k = rng.randrange(len(v))
                        v[k] = v[k] + rng.choice(['x', ',', ']', '[', '-'])
                    ws += v
                elif q < .72:
                    ws.append(rng.choice(['-1', '-x', '-', '-0.5']))
            elif r < .85:
                ws.append(rng.choice(['-x', '-', '--', '---a', '-1.5', 'stray', '[s]', 'q]', 'w']))
            else:
                ws.append(self.plain())
        return ws


class CHECK(ArgsCheck):
    prop = 'C06'
    assumptions = ['words without control characters; numbers with at most three decimals',
                   'numeric readers without a numeric prefix are asked only where they are specified (0), not get_double']

    def scenarios(self):
        rng, res = self.rng, []
        for k in range(900 if self.quick else 15000):
            ops = []
            for _ in range(rng.randint(1, 3)):
                ws = self.argv()
                ops.append('args ' + ' '.join(esc(w) for w in ws))
                for _ in range(rng.randint(0, 3)):
                    if rng.random() < .4:
                        ops.append('update %s %s' % (self.optname(), esc(rng.choice([self.plain(), self.vector(), self.number(), '3 4', ' 5\t6 ', '7']))))
                ops += self.reads(rng.randint(2, 10))
                ops.append('map')
            res.append(Scenario('r%d' % k, {}, ops))
        # every word list of a small alphabet, exhaustively
        al = ['--a', '-x', 'v', '[p', 'q]', '[s]', '--r]', 'b]c', '[d]e']
        import itertools
        n, ops = 0, []
        for ln in range(0, 5 if self.quick else 6):
            for ws in itertools.product(al, repeat=ln):
                ops.append('args ' + ' '.join(esc(w) for w in ws))
                if len(ops) == 60:
                    res.append(Scenario('all%d' % n, {}, ops))
                    n, ops = n + 1, []
        res.append(Scenario('all%d' % n, {}, ops))
        return res

    def reads(self, n):
        rng, ops = self.rng, []
        for _ in range(n):
            k = self.optname()
            r = rng.choice(['has', 'isvec', 'op', 'str', 'int', 'float', 'vec', 'vec', 'vec', 'reals', 'list', 'pair', 'double'])
            d = rng.choice(['0', '1', '-2', '0.5']) if r in ('float', 'double', 'vec') else rng.choice(['0', '7', '-2'])
            if r == 'str':
                d = rng.choice(['~', 'dflt'])
            if r == 'double':
                # defined numeric values only: read what an update put there
                v = rng.choice(['0.5', '-3', '12.25', '1000'])
                if rng.random() < .7:
                    ops.append('update %s %s' % (k, v))
                else:
                    k = 'never'
            if r == 'reals':
                v = '[' + ', '.join(rng.choice(self.NUMS[:-3]) for _ in range(rng.randint(1, 4))) + ']'
                if rng.random() < .8:
                    ops.append('update %s %s' % (k, esc(v)))
                else:
                    k = 'never'
            if r in ('double', 'reals', 'vec', 'list') and rng.random() < .3:
                k = 'long' + r
                n = rng.randint(1, 24) if r != 'double' else 1
                v = [rng.choice(self.LONG) for _ in range(n)]
                ops.append('update %s %s' % (k, esc(v[0] if r == 'double' else '[' + rng.choice([', ', ',']).join(v) + ']')))
                ops.append('get %s %s %s %d' % (r, k, d, rng.choice([1, 5, n, n, n + 2])))
                continue
            ops.append('get %s %s %s %d' % (r, k, d, rng.randint(1, 5)))
        return ops
