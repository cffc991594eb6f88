from core import Check, Scenario
from textload import esc

# what a file of each model looks like, written here independently of the specification:
# block name, labels per output, leading line
MODELS = {
    'nonlinear_fresnel_normalized_schlick': ('nonlinear_fresnel_normalized_schlick', ['R'], ''),
    'nonlinear_fresnel_retroschlick': ('nonlinear_fresnel_retro_schlick', ['R'], ''),
    'nonlinear_fresnel_schlick': ('nonlinear_fresnel_schlick', ['R'], 'param'),
    'nonlinear_function_abc': ('nonlinear_function_abc', ['a', 'b', 'c'], 'param1'),
    'nonlinear_function_beckmann': ('nonlinear_function_beckmann', ['Ks', 'a'], ''),
    'nonlinear_function_blinn': ('nonlinear_function_blinn', ['Ks', 'N'], ''),
    'nonlinear_function_diffuse': ('nonlinear_function_diffuse', ['kd'], ''),
    'nonlinear_function_lafortune': ('nonlinear_function_lafortune', ['Cx', 'Cx', 'Cz', 'N'], 'lobes'),
    'nonlinear_function_retrobeckmann': ('nonlinear_function_retrobeckmann', ['Ks', 'a'], 'back'),
    'nonlinear_function_retroblinn': ('nonlinear_function_retroblinn', ['Ks', 'N'], 'param'),
    'nonlinear_function_retroyoo': ('nonlinear_function_retroyoo', ['Kr', 'Lt'], ''),
    'nonlinear_function_sgd': ('nonlinear_function_sgd', ['x'] * 11, ''),
    'nonlinear_function_spherical_gaussian': ('nonlinear_function_spherical_gaussian', ['Ks', 'N'], 'lobe'),
    'nonlinear_function_ward': ('nonlinear_function_ward', ['Ks', 'ax', 'ay'], ''),
    'nonlinear_shadowing_schlick': ('nonlinear_masking_schlick', ['K'], ''),
    'nonlinear_shadowing_smith': ('nonlinear_fresnel_smith', ['R'], ''),
    'nonlinear_shadowing_walter_smith': ('nonlinear_shadowing_walter_smith', ['alpha'], ''),
}
RATIONAL = ['rational_function', 'rational_function_legendre', 'rational_function_chebychev', 'rational_function_cosine']
VALUES = ['0', '1', '0.5', '-0.25', '2', '10', '0.125', '1e-05', '12.375', '0.1', '3.14159', '-7.5e-07', '0.3333333333', '123456.5', '9.5', '-3', '1e+12']
DIMS = dict(COS_TH=1, COS_TK=1, COS_TLV=1, COS_TLR=1, RUSIN_TH_TD=2, STARK_2D=2, RUSIN_VH=3, RUSIN_TH_TD_PD=3, ISOTROPIC_TV_TL_DPHI=3,
            SPHERICAL_TL_PL_TV_PV=4, CARTESIAN=6)
POUTS = ['INV_STERADIAN', 'INV_STERADIAN_COSINE_FACTOR', 'RGB_COLOR', 'UNKNOWN_OUTPUT', 'ENERGY']


class CHECK(Check):
    prop = 'C10'
    models = {'quick': [('MCFuncFile', 'MCFuncFile', 4)], 'thorough': [('MCFuncFile', 'MCFuncFileL', 8)]}
    trace = 'TraceFuncFile'
    driver = 'h_funcfile'
    chunk = 60
    assumptions = ['values have at most ten significant digits; the denominators of rational functions start with 1',
                   'the names in parametrization lines are not altered, and only the description of a single function may lack one; the shifted-gamma model, which has no writer, is only read']

    def prepare(self):
        super().prepare()
        self.tree.targets(*(list(MODELS) + RATIONAL[1:]))

    def driver_env(self):
        return {'ALTA_PLUGIN_PATH': self.tree.plugins}

    def val(self):
        r = self.rng
        if r.random() < .5:
            return r.choice(VALUES)
        return '%.10g' % float('%.*g' % (r.randint(1, 10), r.uniform(-10, 10) * 10 ** r.randint(-6, 6)))

    def block(self, name, dy, pin):
        rng = self.rng
        f, labels, opt = MODELS[name]
        ls = ['#FUNC ' + f]
        V = lambda lab: lab + ' ' + self.val()
        if opt == 'param':
            if rng.random() < .85:
                ls.append('#PARAM ' + (pin if rng.random() < .6 else rng.choice(list(DIMS))))
        elif opt == 'param1':
            ls.append('#PARAM ' + (rng.choice([p for p in DIMS if DIMS[p] == 1]) if rng.random() < .8 else rng.choice(list(DIMS))))
        elif opt == 'back':
            ls.append('#TYPE ' + rng.choice(['BACK', 'RETRO']))
        if opt == 'lobes':
            n = rng.choice([0, 1, 1, 2, 3])
            ls.append('#NB_LOBES %d' % n)
            if rng.random() < .8:
                ls.append('#DIFFUSE ' + ' '.join(self.val() for _ in range(dy)))
            for _ in range(n):
                ls += [V(x) for _ in range(dy) for x in labels] + ['']
            return ls
        ty = ''
        if opt == 'lobe' and rng.random() < .85:
            ty = rng.choice(['mirror', 'half', 'retro', 'back', 'moment'])
            ls.append('#TYPE ' + ty)
        if name == 'nonlinear_function_sgd':
            ls += [V(x) for x in labels for _ in range(dy)]
        else:
            ls += [V(x) for _ in range(dy) for x in labels]
        if ty == 'moment':
            ls.append(V('a'))
        return ls + ([''] if rng.random() < .9 else [])

    def desc(self, depth=0):
        """(words of the description, leaf names in order)"""
        rng = self.rng
        names = [m for m in MODELS]
        r = rng.random()
        if r < .35 or depth > 1:
            n = rng.choice(names)
            w, leaves = [n], [n]
        else:
            ps = [self.part(names) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
            w, leaves = ('[' + ', '.join(p[0] for p in ps) + ']').split(' '), sum([p[1] for p in ps], [])
        o = []
        if rng.random() < .4:
            r = rng.random()
            if r < .6:
                n = rng.choice(names)
                o.append(['--fresnel', n])
                leaves = leaves + [n]
            else:
                ps = [self.part(names, False) for _ in range(rng.choice([1, 2]))]
                o.append(['--fresnel'] + ('[[' + ', '.join(p[0] for p in ps) + ']]').split(' '))
                leaves = leaves + sum([p[1] for p in ps], [])
            if rng.random() < .3:
                o.append(['--fixed-lobe'])
            if rng.random() < .3:
                o.append(['--fixed-fresnel'])
        o.append(['--func'] + w)
        if rng.random() < .2:
            o.append(['--bootstrap'])
        rng.shuffle(o)
        return [x for y in o for x in y], leaves

    def part(self, names, fr=True):
        rng = self.rng
        n = rng.choice(names)
        w, leaves = n, [n]
        if fr and rng.random() < .25:
            m = rng.choice(names)
            w += ' --fresnel ' + m + rng.choice(['', '', ' --fixed-lobe', ' --fixed-fresnel'])
            leaves.append(m)
        if rng.random() < .3:
            w += ' --fixed'
        return w, leaves

    def header(self, ws, pin, dx, dy, pout):
        rng = self.rng
        h = ['#CMD ' + rng.choice(['', ' ']) + ' '.join(ws), '#DIM %d %d' % (dx, dy), '#PARAM_IN  ' + pin, '#PARAM_OUT ' + pout]
        if rng.random() < .2:
            rng.shuffle(h)
        if rng.random() < .1:
            h.insert(rng.randint(0, len(h)), '# a comment')
        return ['#ALTA FUNC HEADER'] + h + ['#ALTA HEADER END', '']

    def rational(self):
        rng = self.rng
        name = rng.choice(RATIONAL)
        ws = ['--func', name] if rng.random() < .9 else []
        pin = rng.choice(['UNKNOWN_INPUT'] * 3 + list(DIMS))
        dx = DIMS.get(pin) or rng.randint(1, 4)
        dy = rng.choice([1, 1, 2, 3])
        E = lambda v: '%.10e' % float(v)
        V = lambda: E(self.val())
        ls = self.header(ws, pin, dx, dy, rng.choice(POUTS))
        ls += ['#FUNC rational_function', '#MIN ' + ' '.join(E(rng.choice(['-1', '0', '-2.5'])) for _ in range(dx)) + ' ',
               '#MAX ' + ' '.join(E(rng.choice(['1', '1.5', '1.570796327', '0', '-1'])) for _ in range(dx)) + ' ']
        for _ in range(dy):
            np, nq = rng.randint(0, 6), rng.randint(1, 5)
            ls += ['#NP %d' % np, '#NQ %d' % nq]
            for n, first in ((np, None), (nq, '1')):
                for j in range(n):
                    ls.append('\t'.join('0' for _ in range(dx)) + '\t' + (E(1) if j == 0 and first else V()))
            ls.append('')
        return ws, ls

    def nonlinear(self):
        rng = self.rng
        ws, leaves = self.desc()
        # the parametrization the function has, as a writer would record it
        given = {'nonlinear_fresnel_schlick', 'nonlinear_function_abc', 'nonlinear_function_retroblinn'}
        rest = set(leaves) - given
        pin = rng.choice(list(DIMS)) if not rest else 'COS_TH' if rest == {'nonlinear_function_blinn'} else 'CARTESIAN'
        dy = rng.choice([1, 1, 2, 3])
        ls = self.header(ws, pin, DIMS[pin], dy, rng.choice(POUTS))
        for n in leaves:
            ls += self.block(n, dy, pin)
        return ws, ls, leaves

    def spoil(self, ls):
        """a file that is not what was written any more"""
        rng, ls = self.rng, list(ls)
        for _ in range(rng.choice([1, 1, 1, 2])):
            r = rng.random()
            i = rng.randrange(len(ls))
            if r < .2:
                ls = ls[:i]
            elif r < .4:
                del ls[i]
            elif r < .5:
                ls.insert(i, ls[rng.randrange(len(ls))])
            elif r < .6:
                ls.insert(i, rng.choice(['', 'x', '#', '# note', '0.5', '#FUNC', '#PARAM', ' #FUNC nonlinear_function_blinn', '#ALTA FUNC HEADER']))
            elif r < .8 and ls[i]:
                if rng.random() < .1:
                    i = next((j for j, l in enumerate(ls) if l.startswith('#DIM')), i)
                ws = ls[i].split()
                if not ws:
                    continue
                if ws[0] in ('#PARAM', '#PARAM_IN', '#PARAM_OUT'):
                    continue
                k = rng.randrange(len(ws))
                if ws[0] == '#DIM':
                    ws[rng.choice([1, 2]) if len(ws) > 2 else -1] = rng.choice(['0', '0', '', '-1'])
                    ls[i] = ' '.join(w for w in ws if w)
                    continue
                if ws[0] in ('#NB_LOBES', '#NP', '#NQ'):
                    ws[k] = rng.choice(['x', '2', '0', ''])
                else:
                    ws[k] = rng.choice(['x', '', '--', 'nonlinear_function', '#'])
                ls[i] = ' '.join(w for w in ws if w)
            elif r < .9:
                j = rng.randrange(len(ls))
                ls[i], ls[j] = ls[j], ls[i]
            else:
                ls = [l.replace(*rng.choice([('#DIM ', '#DIM 0 '), ('#CMD', '#CM'), ('nonlinear_function_blinn', 'nonlinear_function_phong'),
                                             ('#FUNC', '#FUN'), ('#ALTA FUNC', '#ALTA'), ('#PARAM_IN', '#PARM'), ('#TYPE', '#PARAM'), ('#MIN', '#LO')])) for l in ls]
            if not ls:
                break
        return ls

    @staticmethod
    def sane(ls):
        """text whose reading depends on what this check does not decide"""
        if any(not l.isascii() or '~' in l for l in ls):
            return False
        # descriptions with unbalanced brackets
        if any('#CMD' in l and l.count('[') != l.count(']') for l in ls):
            return False
        # combinations of functions with and without a parametrization
        if not any(l.startswith('#PARAM_IN') for l in ls) and any('[' in l or '--fresnel' in l for l in ls):
            return False
        ps = [l.split()[1:] for l in ls if l.startswith('#PARAM')]
        return all(len(p) == 1 and p[0][0] != '#' for p in ps)

    def scenarios(self):
        rng, res = self.rng, []
        J = lambda ls: ' '.join(esc(l) for l in ls)
        for k in range(700 if self.quick else 12000):
            if rng.random() < .25:
                ws, ls = self.rational()
                leaves = []
            else:
                ws, ls, leaves = self.nonlinear()
            ops = ['load ' + J(ls)]
            keep = 'nonlinear_function_sgd' not in leaves
            save = ['prog'] + ws + (['--output', 'f.brdf'] if rng.random() < .5 else [])
            for _ in range(rng.randint(1, 3)):
                if rng.random() < .6:
                    ops.append('set %d' % rng.randint(0, 9999))
                if keep:
                    ops += ['save ' + J(save), 'same %d' % rng.randint(0, 9999)]
            res.append(Scenario('f%d' % k, {}, ops))
            ops = []
            for _ in range(rng.randint(3, 6)):
                bad = self.spoil(ls)
                if bad and self.sane(bad):
                    ops.append(rng.choice(['load ', 'load ', 'cut ']) + J(bad))
            if ops:
                res.append(Scenario('s%d' % k, {}, ops))
            if k % 10 == 0:        # every cut
                res.append(Scenario('c%d' % k, {}, [('load ' if rng.random() < .5 else 'cut ') + J(ls[:i]) for i in range(1, len(ls) + 1)]))
        return res
