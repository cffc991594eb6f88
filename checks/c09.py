import os, subprocess
from core import Check, Scenario
from textload import esc
import build
from c08 import PINS, DIMS


def build_plugins(tree, out):
    """the kinds of test plugin; {kind: path}"""
    os.makedirs(out, exist_ok=True)
    src = os.path.join(build.VERIF, 'harness', 'tplug.cpp')
    kinds = {'full': ['FUNC', 'DATA', 'LOAD', 'FIT'], 'func': ['FUNC'], 'data': ['DATA', 'LOAD'], 'fit': ['FIT'], 'none': []}
    ps = []
    for k, have in kinds.items():
        cmd = ['g++', '-O1', '-w', '-shared', '-fPIC', src, '-o', os.path.join(out, k + '.so')] + ['-DHAVE_' + h for h in have]
        ps.append(subprocess.Popen(cmd, env=build._env()))
    for p in ps:
        if p.wait():
            raise build.BuildError('test plugin')
    return {k: os.path.join(out, k + '.so') for k in kinds}


class CHECK(Check):
    prop = 'C09'
    models = {'quick': [('MCDescribe', 'MCDescribe', 4)], 'thorough': [('MCDescribe', 'MCDescribeL', 8)]}
    trace = 'TraceDescribe'
    driver = 'h_describe'
    chunk = 100
    assumptions = ['plugins are test plugins whose functions are linear in their parameters with integer coefficients; a sum is not a member of a sum (the option syntax has no way to write it)',
                   'a Fresnel option without a function option is not described']
    NAMES = ['p', 'q1', 'lobe_a', 'lobe_b', 'zero', 'fr', 'fr_b', 'pl', 'nu', 'also', 'long_name_of_a_plugin']

    def prepare(self):
        super().prepare()
        ks = build_plugins(self.tree, os.path.join(self.scratch, 'kinds'))
        self.pdir = os.path.join(self.scratch, 'plugins')
        os.makedirs(self.pdir)
        import shutil
        for n in self.NAMES:
            shutil.copy(ks['func' if n not in ('fr', 'pl') else 'full'], os.path.join(self.pdir, 'lib%s.so' % n))
        shutil.copy(ks['data'], os.path.join(self.pdir, 'libdataonly.so'))
        open(os.path.join(self.pdir, 'libjunk.so'), 'w').write('not a library\n')

    def driver_env(self):
        return {'ALTA_PLUGIN_PATH': self.pdir}

    def registry(self, dy):
        rng = self.rng
        I = lambda a, b: rng.randint(a, b)
        reg, cmds = [], []
        for n in self.NAMES:
            if n in ('pl', 'nu'):
                reg.append([n, dict(kind='plain' if n == 'pl' else 'null')])
                cmds.append('plugin %s %s given 0 %d' % (n, 'plain' if n == 'pl' else 'null', dy))
                continue
            k = 0 if n == 'zero' else rng.choice([0, 1, 2, 3])
            pin = 'given' if rng.random() < .6 else rng.choice(PINS)
            p = [I(-3, 3) for _ in range(k)]
            d = dict(kind='leaf', pin=pin, n=k, p=p, lo=[I(-90, -10) for _ in range(k)], up=[I(10, 90) for _ in range(k)],
                     a=[[I(-2, 2) for _ in range(k)] for _ in range(dy)], b=[[I(-1, 1) for _ in range(k)] for _ in range(dy)],
                     dx=DIMS.get(pin, 0))
            reg.append([n, d])
            cmds.append('plugin %s leaf %s %d %d ' % (n, pin, k, dy) +
                        ' '.join(str(v) for v in p + d['lo'] + d['up'] + sum(d['a'], []) + sum(d['b'], [])))
        return reg, cmds

    def fname(self):
        rng = self.rng
        r = rng.random()
        if r < .85:
            return rng.choice([n for n in self.NAMES if n not in ('pl', 'nu')])
        return rng.choice(['pl', 'nu', 'rational_function', 'missing', 'dataonly', 'junk', 'z', 'libp.so'])

    def part(self, depth=0):
        """one member of a sum (or a whole description), as words"""
        rng = self.rng
        ws = [self.fname()]
        o = []
        if rng.random() < .3:
            o.append(['--fixed'])
        if rng.random() < .3 and depth < 2:
            r = rng.random()
            if r < .5:
                o.append(['--fresnel', self.fname()])
            elif r < .8:
                o.append(['--fresnel', '[' + self.fname() + rng.choice(['', ' --fixed', ' --other 3']) + ']'])
            else:
                o.append(['--fresnel'])
            if rng.random() < .4:
                o.append(['--fixed-lobe'])
            if rng.random() < .4:
                o.append(['--fixed-fresnel'])
        if rng.random() < .15:
            o.append([rng.choice(['--x', '--dt', '--bootstrap']), rng.choice(['1', 'v', ''])])
        rng.shuffle(o)
        return ' '.join(ws + [w for x in o for w in x if w])

    def words(self):
        rng = self.rng
        r = rng.random()
        if r < .04:
            v = rng.choice(['', '[]', '[ ]', '[,]'])
            ws = ['--func'] + ([v] if v else [])
        elif r < .4:
            ws = ['--func', self.fname()]
        else:
            ws = ['--func'] + ('[' + rng.choice([', ', ', ', ',', ' , ']).join(self.part() for _ in range(rng.choice([1, 2, 2, 3, 4]))) + ']').split(' ')
        ws = [w for w in ws if w]
        opt = []
        if rng.random() < .4:
            r = rng.random()
            if r < .35:
                opt.append(['--fresnel', self.fname()])
            elif r < .6:
                opt.append(['--fresnel', '[' + self.fname() + ']'])
            elif r < .75:
                opt.append(['--fresnel'] + ('[' + self.fname() + ' --fresnel ' + self.fname() + rng.choice(['', ' --fixed-lobe', ' --fixed-fresnel']) + ']').split(' '))
            elif r < .9:
                opt.append(['--fresnel'] + ('[[' + ', '.join(self.part(2) for _ in range(rng.choice([1, 2, 3]))) + ']]').split(' '))
            else:
                opt.append(['--fresnel'] + rng.choice([[], ['[]'], ['nope']]))
            if rng.random() < .3:
                opt.append(['--fixed-lobe'])
            if rng.random() < .3:
                opt.append(['--fixed-fresnel'])
        if rng.random() < .2:
            opt.append([rng.choice(['--fixed', '--param', '--a']), 'q'])
        opt.append(ws)
        rng.shuffle(opt)
        if rng.random() < .03:
            return ['prog']
        return ['prog'] + [w for o in opt for w in o]

    def scenarios(self):
        rng, res = self.rng, []
        for k in range(500 if self.quick else 8000):
            dy = rng.choice([1, 1, 2, 3])
            reg, ops = self.registry(dy)
            for _ in range(rng.randint(1, 3)):
                pin = rng.choice(PINS)
                g = '%s %d %d ' % (pin, DIMS[pin], dy)
                if rng.random() < .1:
                    ops.append('byname ' + g + esc(rng.choice([self.fname(), self.fname(), ''])))
                else:
                    ops.append('describe ' + g + ' '.join(esc(w) for w in self.words()))
                for _ in range(rng.randint(1, 5)):
                    x = ' %r %r %r %r' % (rng.uniform(.02, 1.5), rng.uniform(-3, 3), rng.uniform(.02, 1.5), rng.uniform(-3, 3))
                    o = rng.random()
                    ops.append('set %d' % rng.randint(0, 999) if o < .4 else 'get' if o < .5 else rng.choice(['value', 'call', 'jac']) + x)
            res.append(Scenario('d%d' % k, dict(reg=reg), ops))
        return res
