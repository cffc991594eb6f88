"""Scenarios of tool runs (C19, C20)."""
import json, math, os, subprocess
import build
from core import Check, Scenario
from textload import esc

FULL = ['CARTESIAN', 'SPHERICAL_TL_PL_TV_PV', 'RUSIN_TH_PH_TD_PD', 'STEREOGRAPHIC']
LOSSY = ['ISOTROPIC_TV_TL_DPHI', 'RUSIN_TH_TD_PD', 'COS_TH_TD', 'RUSIN_TH_TD', 'ISOTROPIC_TV_PROJ_DPHI']
NODE = ['COS_TH', 'CARTESIAN', 'SPHERICAL_TL_PL_TV_PV']
NOY = -9999
JUNK = ['', 'this is not a file of this kind\n', '#DIM 6 1\n#PARAM_IN CARTESIAN\n0 0 1 0 0 1\n', '#DIM 6 1\n#PARAM_IN CARTESIAN\n0 0 1 0 0 one 3\n',
        '#ALTA FUNC HEADER\n#CMD --func rational_function\n#DIM 6 1\n#PARAM_IN CARTESIAN\n#ALTA HEADER END\n\n#FUNC rational_function\n#MIN 0 0 0\n',
        '#ALTA FUNC HEADER\n#CMD --func nosuchfunction\n#DIM 6 1\n#PARAM_IN CARTESIAN\n#ALTA HEADER END\n\n#FUNC nosuchfunction\n', '\x00\xff\x10\n\n']


class Tools(Check):
    models = {'quick': [('MCTools', 'MCTools', 4), ('MCRegrid', 'MCRegrid', 3)], 'thorough': [('MCTools', 'MCToolsL', 8), ('MCTools', 'MCToolsL2', 8), ('MCRegrid', 'MCRegridL', 8)]}
    trace = 'TraceTools'
    driver = 'h_tools'
    chunk = 50
    assumptions = ['values are small integers and configurations known by their numbers, so that results are exact',
                   'a function of known parametrization is affine in the cosines of the directions']

    def prepare(self):
        super().prepare()
        self.pdir = os.path.join(self.scratch, 'fitters')
        os.makedirs(self.pdir)
        for name, ok in (('yes', 1), ('no', 0)):
            src = os.path.join(build.VERIF, 'harness', 'tfit.cpp')
            if subprocess.call(['g++', '-std=c++11', '-O1', '-w', '-shared', '-fPIC', '-DTFIT_OK=%d' % ok, '-DALTA_PLUGIN_DIRECTORY="/nonexistent"',
                                '-I' + os.path.join(build.REPO, 'sources'), '-I' + os.path.join(build.REPO, 'external'), '-I/opt/vp/include', '-I/usr/include/eigen3',
                                src, '-o', os.path.join(self.pdir, 'libfit_%s.so' % name)], env=build._env()):
                raise build.BuildError('test fitter')
        self.tree.targets('data_grid', 'rational_fitter_quadprog', 'nonlinear_fitter_eigen', 'nonlinear_function_diffuse', 'brdf2brdf', 'brdf2data', 'brdf2gnuplot', 'brdf2stats',
                          'data2brdf', 'data2data', 'data2moments', 'data2stats')

    def driver_env(self):
        return {'ALTA_PLUGIN_PATH': self.tree.plugins + ':' + self.pdir, 'ALTA_SOFTS': self.tree.softs}

    # -- worlds
    def world(self):
        r = self.rng
        self.ls, self.fs, self.meta = [], {}, {}
        self.dy = r.choice([1, 1, 2, 3])
        self.cos = {}
        self.up, self.wgt = [True] * 113, [0] * 113
        n = r.randint(2, 7)
        for c in list(range(1, n + 1)) + [99]:
            cl, cv = (10, 5) if c == 99 else (r.randint(1, 9), r.randint(1, 9))
            if c > 2 and c != 99 and r.random() < .3:
                cl, cv = r.choice([(-cl, cv), (cl, -cv), (-cl, -cv)])
            self.cos[c] = (cl, cv)
            self.up[c - 1] = cl > 0 and cv > 0
            self.wgt[c - 1] = cl * cv
            pl, pv = (0.3, 0.8 if c != 99 else 0.3) if c == 99 else (r.uniform(-3, 3), r.uniform(-3, 3))
            # first angles of the spherical parametrization: light
            self.ls.append('conf %d %r %r %r %r' % (c, math.acos(cl / 10), pl, math.acos(cv / 10), pv))
        self.confs = list(range(1, n + 1))
        for name in 'abghkuop':
            self.none(name)
            self.ls.append('name ' + name)
        if r.random() < .3:
            self.ls.append('env OMP_NUM_THREADS=%d' % r.choice([1, 2, 3, 5, 8]))

    def none(self, n):
        self.fs[n], self.meta[n] = dict(k='none'), dict(k='none')

    def val(self, node):
        r = self.rng
        return [12 * r.randint(-5, 9) if node else r.randint(-60, 60) for _ in range(self.dy)]

    def data(self, name, node=False, par=None):
        r = self.rng
        binf = r.random() < .3
        same = r.random() < .25
        if par is None:
            par = r.choice(NODE if node else FULL + (['UNKNOWN_INPUT'] if r.random() < .3 else []))
        free = par in ('CARTESIAN', 'SPHERICAL_TL_PL_TV_PV') and not node
        among = list(range(102, 114)) if node else [c for c in self.confs if free or self.up[c - 1]]
        v = self.val(node)
        rows = [dict(c=r.choice(among), y=v if same else self.val(node)) for _ in range(r.choice([0 if par != 'UNKNOWN_INPUT' else 4, 1, 2, 3, 5, 8, 8]))]
        self.fs[name] = dict(k='data', par=par, bin=binf, dy=self.dy, rows=rows)
        self.meta[name] = dict(k='data', par=par, node=node, graz=False, up=not free, lossy=False, bin=binf)
        self.ls.append('data %s %s %d %d %s' % (name, par, binf, self.dy, ' '.join('%d %s' % (x['c'], ' '.join(map(str, x['y']))) for x in rows)))

    def grid(self, name):
        r = self.rng
        n = r.choice([2, 3, 4, 5, 7, 13])
        y = [self.val(True) for _ in range(n)]
        self.fs[name] = dict(k='grid', dy=self.dy, y=y)
        self.meta[name] = dict(k='grid', par='COS_TH', node=True, graz=True, up=True, lossy=False, bin=False)
        self.ls.append('grid %s %d %d %s' % (name, n, self.dy, ' '.join(str(v) for x in y for v in x)))

    def func(self, name, kind=None, dy=None):
        r = self.rng
        dy = dy or self.dy
        kind = kind or r.choice(['CARTESIAN', 'CARTESIAN', 'COS_TH', 'UNKNOWN_INPUT'])
        f = [[] for _ in range(113)]
        coef = []
        for _ in range(dy):
            a, b, c = r.randint(-40, 40), r.randint(-3, 3), r.randint(-3, 3)
            if kind == 'CARTESIAN':
                # b, c: tenths of a cosine; both even multiples of 6
                b, c = 6 * b, 6 * c
                for i, (cl, cv) in self.cos.items():
                    f[i - 1].append(a + b * cv + c * cl)
                for k in range(13):
                    f[100 + k].append(a + 10 * (b + c) * k // 12)
                coef += [a, 0, 0, 10 * b, 0, 0, 10 * c]
            elif kind == 'COS_TH':
                for k in range(13):
                    f[100 + k].append(a + b * k)
                coef += [a, 12 * b]
            else:
                for i in self.cos:
                    f[i - 1].append(a + 2 * b * i - c * i)
                coef += [a, 2 * b, 2 * c]
        self.fs[name] = dict(k='func', par=kind, dy=dy, f=f)
        self.meta[name] = dict(k='func', par=kind)
        self.ls.append('func %s %s %d %d %s' % (name, kind, dict(CARTESIAN=6, COS_TH=1, UNKNOWN_INPUT=2)[kind], dy, ' '.join(map(str, coef))))

    def junk(self, name):
        r = self.rng
        if self.meta[name]['k'] in ('data', 'func', 'grid') and self.meta[name].get('bin') and r.random() < .7 and self.fs[name]['rows']:
            self.ls.append('cut %s half' % name)
        else:
            self.ls.append('raw %s %s' % (name, esc(r.choice(JUNK))))
        self.fs[name] = dict(k='junk')
        self.meta[name] = dict(k='junk')

    def regrid(self):
        """a table over half and difference angles made from another"""
        r = self.rng
        def shape(d):
            return [r.choice([1, 2, 3, 4, 7]), r.choice([1, 2, 3, 4, 7])] + [r.choice([2, 3, 5])] * (d == 3)
        n = shape(r.choice([2, 3]))
        splat = r.random() < .35
        m = list(n) if splat or r.random() < .2 else shape(r.choice([2, 3]))
        if len(n) == 3 and not splat:
            # a physical table: the azimuth is immaterial when an angle is null, and its ends are the same
            same = lambda i, j, k: (i, j, 0) if i == 0 or j == 0 or k == n[2] - 1 else (i, j, k)
        else:
            same = lambda *k: k
        vals, ys = {}, []
        for i in range(n[0]):
            for j in range(n[1]):
                for k in range(n[2] if len(n) == 3 else 1):
                    q = same(i, j, k)
                    if q not in vals:
                        vals[q] = [144 * r.randint(-5, 9) for _ in range(self.dy)]
                    ys += vals[q]
        name = {2: 'RUSIN_TH_TD', 3: 'RUSIN_TH_TD_PD'}
        self.ls.append('regrid %s %s %d %s %s %d %d %s %s' % (name[len(n)], ','.join(map(str, n)), self.dy, name[len(m)], ','.join(map(str, m)), splat,
                                                              r.random() < .4, r.choice(['-', '-', '--verbose']), ' '.join(map(str, ys))))

    def moments(self):
        """moments of a table over two dimensions"""
        r = self.rng
        n = [r.choice([1, 2, 3, 4, 5]), r.choice([1, 2, 3, 4, 5])]
        s = [r.randint(1, 5), r.randint(1, 5)]
        dx, dy, bad = r.randint(1, 2), r.randint(1, 2), 0
        dims, smp = '%d,%d' % (dx - 1, dy - 1), '%d,%d' % tuple(s)
        if r.random() < .25:
            bad = 1
            k = r.randint(0, 7)
            if k < 4:
                dims = ['%d,2' % (dx - 1), '2,%d' % (dy - 1), '0,-1', '-1,0'][k]
            else:
                smp = ['%d,0' % s[0], '0,%d' % s[1], '%d' % s[0], '%d,%d,2' % tuple(s)][k - 4]
        ys = [r.choice([0, r.randint(-5, 15)]) for _ in range(n[0] * n[1] * self.dy)]
        self.ls.append('moments COS_TH_TD %s %d %s %s %d %d %d %s' % (','.join(map(str, n)), self.dy, smp, dims, dx, dy, bad, ' '.join(map(str, ys))))

    # -- commands
    def pick(self, *ks, **m):
        """a file of one of these kinds"""
        c = [n for n, x in self.meta.items() if x['k'] in ks and all(x.get(k) == v for k, v in m.items())]
        return self.rng.choice(c) if c else None

    def issue(self, c, argv, kind, fault='-', meta=None, out=None):
        """argv: list of option groups; a fault removes or changes some"""
        r = self.rng
        full = dict(infmt='', outfmt='', par='', all=False, ymin=NOY, diff=False, err=False, lin=False, cos=False, n=4, start='', fault='' if fault == '-' else fault)
        full.update(c)
        tool = {'polar': 'brdf2gnuplot'}.get(c['t'], c['t'])
        r.shuffle(argv)
        self.ls.append('cmd %s %s %s %s %s' % (esc(json.dumps(full, separators=(',', ':'))), kind, c['out'], fault,
                                               ' '.join([tool] + [esc(str(a)) for g in argv for a in g])))
        if fault == '-' and meta != 'keep':
            self.meta[c['out']] = meta or dict(k='report')

    def command(self, kinds, fault=None, bad=None):
        """one command of these kinds; fault: one of FAULTS or None; bad: also inputs of a wrong kind"""
        r = self.rng
        t = r.choice(kinds)
        out = r.choice('oopp' + 'ab' + 'hk')
        c = dict(t=t, out=out, data='a')
        c['in'] = 'a'
        av, kind, meta = [], None, None
        usebad = bad and any(m['k'] in bad for m in self.meta.values())
        if t == 'data2data':
            c['in'] = self.pick('data', 'grid')
            if c['in'] is None:
                return False
            m = self.meta[c['in']]
            isg = m['k'] == 'grid'
            if isg and r.random() < .7:
                c['infmt'] = 'data_grid'
                av.append(['--in-data', 'data_grid'])
            if c.get('infmt') and r.random() < .5:
                c['outfmt'] = 'data_grid'
                c['n'] = r.choice([2, 3, 4, 5, 7, 13])
                c['par'] = r.choice(['', 'COS_TH'])
                av += [['--out-data', 'data_grid'], ['--grid-size', '[%d]' % c['n']]]
                kind, meta = 'grid', dict(m, k='grid')
            else:
                par = r.choice(['', m['par']] + (([] if m['lossy'] or m['par'] == 'UNKNOWN_INPUT' else NODE if m['node'] else
                               ['CARTESIAN', 'SPHERICAL_TL_PL_TV_PV'] + (FULL + LOSSY if m['up'] else [])) * 2))
                if m['par'] == 'UNKNOWN_INPUT' and r.random() < .5:
                    par = r.choice(FULL)
                c['par'] = par
                # whether a grazing configuration is above the hemisphere is left to round-off
                # and what stands for the directions of some parametrizations may be below it
                c['all'] = m['graz'] or par in ('COS_TH_TD', 'RUSIN_TH_TD') or r.random() < .5
                if c['all']:
                    av.append(['--all-values'])
                binf = r.random() < .3
                if binf:
                    c['outfmt'] = 'alta-binary'
                    av.append(['--out-data', 'alta-binary'])
                if not c.get('infmt') and r.random() < .25:
                    c['ymin'] = r.randint(-40, 40)
                    av.append(['--ymin', '[%s]' % ', '.join([str(c['ymin'])] * self.dy)])
                kind, meta = 'data', dict(m, k='data', par=par or m['par'], lossy=m['lossy'] or par in LOSSY, bin=binf,
                                          graz=m['graz'] or par in ('COS_TH_TD', 'RUSIN_TH_TD'))
                if not c['all']:
                    meta['up'] = True
                if m['par'] == 'UNKNOWN_INPUT':
                    meta = 'keep'       # refused
            if c['par']:
                av.append(['--param', c['par']])
            if r.random() < .3:
                av.append(['--verbose'])
            av += [['--input', c['in']], ['--output', out]]
        elif t in ('brdf2data', 'brdf2gnuplot', 'brdf2stats'):
            c['in'] = self.pick('func')
            if c['in'] is None:
                return False
            f = self.meta[c['in']]
            def fits(m):
                if m['par'] == 'UNKNOWN_INPUT' or f['par'] == 'UNKNOWN_INPUT':
                    return m['par'] == f['par'] or bad is not None and f['par'] == 'CARTESIAN'
                return f['par'] == 'CARTESIAN' or m['node']
            ok = [n for n, m in self.meta.items() if m['k'] in ('data', 'grid') and not m['lossy'] and fits(m)]
            if not ok:
                return False
            c['data'] = r.choice(ok)
            m = self.meta[c['data']]
            if t != 'brdf2stats' and m['k'] == 'grid' and r.random() < .6:
                c['infmt'] = 'data_grid'
                av.append(['--data', 'data_grid'])
            if t == 'brdf2data':
                c['diff'] = r.random() < .3
                if c['diff']:
                    av.append(['--export-diff'])
                if c.get('infmt'):
                    kind, meta = 'grid', dict(m, k='grid')
                else:
                    kind, meta = 'data', dict(m, k='data', bin=False)
                # values of nodes stay multiples of 12 only for some functions
                if m['par'] != f['par'] and 'UNKNOWN_INPUT' in (m['par'], f['par']):
                    meta = 'keep'       # refused
                elif m['node']:
                    meta = dict(meta, k='report')
            elif t == 'brdf2gnuplot':
                c['err'] = r.random() < .4
                c['lin'] = not c['err'] and r.random() < .25
                av += [['--linear_error']] * c['lin']
                c['cos'] = not c['lin'] and not m['node'] and f['par'] == 'CARTESIAN' and r.random() < .4
                av += [['--error']] * c['err'] + [['--cos-plot']] * c['cos']
                kind = 'linear' if c['lin'] else 'plot:' + m['par']
            else:
                kind = 'stats'
            av += [['--output', out]] + ([['--brdf', c['in']], ['--input', c['data']]] if t == 'brdf2stats' else
                                         [['--input', c['in']], ['--data-file', c['data']]])
        elif t == 'brdf2brdf':
            c['in'] = self.pick('func')
            if c['in'] is None:
                return False
            kind, meta = 'func', dict(self.meta[c['in']])
            av += [['--input', c['in']], ['--output', out]]
            if r.random() < .3:
                av.append(['--export', 'alta'])
        elif t == 'data2brdf':
            c['in'] = self.pick('data', bin=False)
            if c['in'] is None:
                return False
            c['n'] = 1
            kind = 'fit:' + c['in']
            if out == c['in']:
                c['out'] = out = 'o' if c['in'] != 'o' else 'p'
            av += [['--input', c['in']], ['--output', out]]
            if not fault and r.random() < .4:
                c['start'] = r.choice(['yes', 'no'])
                f = 'nonlinear_fitter_eigen' if c['start'] == 'yes' and r.random() < .3 else 'fit_' + c['start']
                kind, meta = 'func', 'keep' if c['start'] == 'no' else dict(k='report')
                av += [['--fitter', f], ['--func', 'nonlinear_function_diffuse']]
                # data of unknown directions cannot be compared with the function
                if self.meta[c['in']]['par'] == 'UNKNOWN_INPUT':
                    meta = 'keep'
            else:
                av += [['--fitter', 'rational_fitter_quadprog'], ['--np', '1'], ['--nq', '1'], ['--dt', '0.1']]
            if not c.get('start') and r.random() < .3:
                av.append(['--func', 'rational_function'])
        elif t == 'polar':
            c['in'] = self.pick('func', par='CARTESIAN') if not bad else self.pick('func', par=r.choice(['CARTESIAN', 'UNKNOWN_INPUT']))
            if c['in'] is None:
                return False
            c['n'] = r.choice([2, 6, 12, 24, 7, 60])
            kind = 'polar'
            av += [['--input', c['in']], ['--output', out], ['--polar-plot'], ['--samples', c['n']]]
        elif t == 'data2stats':
            c['in'] = self.pick('grid')
            c['data'] = self.pick('data', node=True, lossy=False) if r.random() < .7 else self.pick('grid')
            if c['in'] is None or c['data'] is None:
                return False
            c['infmt'] = 'data_grid'
            kind = 'stats'
            av += [['--input', c['in']], ['--in-data', 'data_grid'], ['--ref', c['data']], ['--output', out]]
        elif t == 'data2moments':
            c['in'] = self.pick('grid')
            if c['in'] is None:
                return False
            c['infmt'] = 'data_grid'
            c['n'] = r.choice([2, 3, 4, 6, 12])
            kind = 'moments'
            av += [['--input', c['in']], ['--data', 'data_grid'], ['--output', out], ['--dim', '[0, 0]'], ['--samples', '[%d]' % c['n']]]
        if usebad and r.random() < .8:
            which = 'data' if c['t'] in ('brdf2data', 'brdf2gnuplot', 'brdf2stats', 'data2stats') and r.random() < .5 else 'in'
            legit = ('data', 'grid') if which == 'data' or t in ('data2data', 'data2brdf') else ('grid',) if t in ('data2stats', 'data2moments') else ('func',)
            w = [n for n, m in self.meta.items() if m['k'] in bad and m['k'] not in legit]
            if not w:
                return False
            w = r.choice(w)
            for g in av:
                if g[-1] == c[which] and g[0] in ('--input', '--brdf', '--data-file', '--ref'):
                    g[-1] = w
                    break
            # the other input may have had the same name
            c[which] = w
            if not self.consistent(c, av):
                return False
            if kind.startswith('fit:'):
                kind = 'fit:' + w
            meta = dict(k='report')
        if fault:
            return self.faulty(c, av, kind, fault)
        self.issue(c, av, kind, meta=meta)
        return True

    def consistent(self, c, av):
        opt = {g[0]: g[-1] for g in av}
        if c['t'] == 'brdf2stats':
            return opt['--brdf'] == c['in'] and opt['--input'] == c['data']
        if c['t'] == 'data2stats':
            return opt['--input'] == c['in'] and opt['--ref'] == c['data']
        return opt['--input'] == c['in'] and opt.get('--data-file', c['data']) == c['data']

    def faulty(self, c, av, kind, fault):
        r = self.rng
        opts = {g[0]: g for g in av}
        if fault == 'missing':
            must = [o for o in ('--input', '--output', '--brdf', '--ref', '--fitter', '--polar-plot') if o in opts]
            if c['t'] == 'data2stats' or c['t'] == 'brdf2stats':
                must.remove('--output')
            if c['t'] == 'data2moments':
                must.append('--data')
            if c['t'] == 'brdf2data' and '--data' not in opts or c['t'] == 'brdf2gnuplot' and '--data' not in opts:
                must.append('--data-file')
            av.remove(opts[r.choice(must)])
        elif fault == 'noplugin':
            o = {'data2data': ['--in-data', '--out-data'], 'brdf2data': ['--data'], 'brdf2gnuplot': ['--data'], 'data2brdf': ['--fitter', '--func', '--data'],
                 'data2stats': ['--in-data', '--ref-data'], 'data2moments': ['--data']}.get(c['t'])
            if not o:
                return False
            o = r.choice(o)
            bad = r.choice(['nosuchplugin', './nosuch', 'rational_fitter_quadprog' if o not in ('--fitter',) else 'data_grid'])
            if o in opts:
                opts[o][-1] = bad
            else:
                av.append([o, bad])
        elif fault == 'badparam':
            if c['t'] != 'data2data' or '--out-data' in opts and opts['--out-data'][1] == 'data_grid':
                return False
            if '--param' in opts:
                av.remove(opts['--param'])
            av.append(['--param', r.choice(['NOSUCH', 'cartesian', 'CARTESIAN2', 'COS'])])
        elif fault == 'badvalue':
            o, vs = r.choice([('--samples', ['[0]', '[-3]', '[2, 2]', '[x]', '[]']), ('--dim', ['[0, 1]', '[0]', '[-1, 0]', '[0, 0, 0]', '[1, 1]'])]) if c['t'] == 'data2moments' else \
                ('--grid-size', ['[0]', '[-2]', '[x]', '[4, 4]', '[]']) if '--grid-size' in opts else \
                r.choice([('--np', ['0', '-1', 'x']), ('--nq', ['0', '-1', 'x'])]) if c['t'] == 'data2brdf' else (None, None)
            if o is None:
                return False
            opts[o][-1] = r.choice(vs)
        elif fault == 'noinput':
            o = r.choice([o for o in ('--input', '--brdf', '--ref', '--data-file') if o in opts])
            opts[o][-1] = r.choice(['nosuchfile', 'nosuchdir/a', '.'])
        elif fault in ('nodir', 'isdir', 'full', 'limit'):
            opts['--output'][-1] = {'nodir': 'missing/o', 'isdir': 'dir', 'full': '/dev/full', 'limit': 'limited'}[fault]
        self.issue(c, av, kind, fault=fault)
        return True

    def help(self):
        r = self.rng
        t = r.choice(['brdf2brdf', 'brdf2data', 'brdf2gnuplot', 'brdf2stats', 'data2brdf', 'data2data', 'data2moments', 'data2stats'])
        extra = [['--input', 'a'], ['--output', 'o']] if r.random() < .5 else []
        self.ls.append('help {} x x - %s' % ' '.join([t] + [x for g in extra for x in g] + ['--help']))

    def scenario(self, name):
        return Scenario(name, dict(fs=self.begin, up=self.up, wgt=self.wgt), self.ls)

    def fill(self):
        r = self.rng
        self.data('a', node=r.random() < .3)
        if r.random() < .7:
            self.data('b', node=r.random() < .5)
        self.func('h', r.choice(['CARTESIAN', 'CARTESIAN', 'COS_TH']))
        if r.random() < .6:
            self.func('k')
        if r.random() < .7:
            self.grid('g')
        if r.random() < .25:
            self.data('u', par='UNKNOWN_INPUT')
            self.func('k', 'UNKNOWN_INPUT')

    def seal(self):
        self.begin = json.loads(json.dumps(self.fs))
