import os
from core import Check, Scenario
from textload import esc
from c09 import build_plugins

HAS = {'full': ['FUNC', 'DATA', 'LOAD', 'FIT'], 'func': ['FUNC'], 'data': ['DATA', 'LOAD'], 'fit': ['FIT'], 'none': []}


class CHECK(Check):
    prop = 'C18'
    models = {'quick': [('MCPlugins', 'MCPlugins', 4)], 'thorough': [('MCPlugins', 'MCPluginsL', 8)]}
    trace = 'TracePlugins'
    driver = 'h_plugins'
    chunk = 150
    assumptions = ['the installation directory is a scratch directory: plugins_manager.cpp is compiled into the driver with that directory; library files are added, never replaced']

    def prepare(self):
        super().prepare()
        self.kinds = build_plugins(self.tree, os.path.join(self.scratch, 'kinds'))

    def put(self, d, f, kind):
        src = self.kinds.get(kind, kind if kind in ('junk', 'empty', 'dir') else 'cut:' + self.kinds['full'])
        return 'put %s %s %s %s' % (d, esc(f), src, ' '.join(HAS.get(kind, [])))

    def query(self, kind, n):
        return 'query %s %s%s' % (kind, esc(n), ' opt' if kind == 'function' and n not in ('rational_function', '') and self.rng.random() < .3 else '')

    def scenarios(self):
        rng, res = self.rng, []
        for k, b in enumerate(self.behaviours('MCPlugins', 'GenPlugins', num=200 if self.quick else 3000, depth=13)):
            ops = ['dir d1', 'dir d2', 'dir sys']
            for a in b['h']:
                if a[0] == 'path':
                    ops.append('%s %s' % (rng.choice(['path', 'apath']) if 'sys' not in a[1] else 'path', esc(a[1] or rng.choice(['', 'unset']))))
                elif a[0] == 'put':
                    has = sorted(a[3])
                    kind = {4: 'full', 1: 'func', 2: 'data', 0: rng.choice(['none', 'junk', 'empty', 'cut', 'dir'])}[len(has)]
                    ops.append(self.put(a[1], a[2], kind))
                else:
                    ops.append(self.query(a[1], a[2]))
            res.append(Scenario('gen%d' % k, dict(dirs=['d1', 'd2', 'sys']), ops))
        names = ['p', 'q1', 'also', 'a', 'plugin_long', 'libp.so', 'x.so', 'so', '.so', 'data_merl', 'P', 'p.so.1']
        for k in range(300 if self.quick else 6000):
            dirs = ['d%d' % i for i in range(1, rng.randint(2, 5))] + ['sys', 'd1/sub']
            ops = ['dir ' + d for d in dirs]
            files = set()
            ns = rng.sample(names, rng.randint(2, 4))
            for _ in range(rng.randint(8, 25)):
                r = rng.random()
                if r < .3:
                    es = [rng.choice(dirs + ['', '', 'missing', './d1', 'd1/']) for _ in range(rng.randint(0, 5))]
                    es = [e for e in es if e not in ('./d1', 'd1/')]
                    p = ':'.join(es)
                    ops.append('%s %s' % (rng.choice(['path', 'apath']) if 'sys' not in es else 'path', esc(p) if p else rng.choice(['~', 'unset'])))
                elif r < .6:
                    n = rng.choice(ns)
                    f = n if n.endswith('.so') else 'lib%s.so' % n
                    d = rng.choice(dirs)
                    if (d, f) not in files:
                        files.add((d, f))
                        ops.append(self.put(d, f, rng.choice(['full', 'full', 'func', 'data', 'fit', 'none', 'junk', 'empty', 'cut', 'dir'])))
                else:
                    ops.append(self.query(rng.choice(['function', 'data', 'load', 'fitter']), rng.choice(ns + ns + ns + ['', 'vertical_segment', 'rational_function'])))
            res.append(Scenario('r%d' % k, dict(dirs=dirs), ops))
        return res
