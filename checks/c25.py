import math, os, subprocess
import build
from core import Check, Scenario

# model: (plugin, parametrization, kinds)
MODELS = {
    'blinn': ('nonlinear_function_blinn', 'COS_TH', ['-']),
    'retroblinn': ('nonlinear_function_retroblinn', 'COS_TLV', ['-']),
    'abc': ('nonlinear_function_abc', 'COS_TH', ['-']),
    'retroyoo': ('nonlinear_function_retroyoo', 'COS_TLV', ['-']),
    'lafortune': ('nonlinear_function_lafortune', 'CARTESIAN', ['-']),
    'isotropic_lafortune': ('nonlinear_function_isotropic_lafortune', 'CARTESIAN', ['-']),
    'beckmann': ('nonlinear_function_beckmann', 'CARTESIAN', ['-']),
    'retrobeckmann': ('nonlinear_function_retrobeckmann', 'CARTESIAN', ['-', 'retro']),
    'ward': ('nonlinear_function_ward', 'CARTESIAN', ['-']),
    'spherical_gaussian': ('nonlinear_function_spherical_gaussian', 'CARTESIAN', ['moment', 'mirror', 'half', 'moment', 'retro', 'back', 'moment']),
    'sgd': ('nonlinear_function_sgd', 'CARTESIAN', ['-']),
    'diffuse': ('nonlinear_function_diffuse', 'CARTESIAN', ['-']),
    'schlick': ('nonlinear_fresnel_schlick', 'CARTESIAN', ['-']),
    'normalized_schlick': ('nonlinear_fresnel_normalized_schlick', 'CARTESIAN', ['-']),
    'retroschlick': ('nonlinear_fresnel_retroschlick', 'CARTESIAN', ['-']),
    'shadowing_schlick': ('nonlinear_shadowing_schlick', 'CARTESIAN', ['-']),
    'shadowing_smith': ('nonlinear_shadowing_smith', 'CARTESIAN', ['-']),
    'shadowing_walter': ('nonlinear_shadowing_walter_smith', 'CARTESIAN', ['-']),
}
ONED = ('blinn', 'retroblinn', 'abc', 'retroyoo')
PER = dict(blinn=2, retroblinn=2, beckmann=2, retrobeckmann=2, spherical_gaussian=2, retroyoo=2, abc=3, ward=3,
           isotropic_lafortune=3, lafortune=4, sgd=11, diffuse=0)


def dirs():
    base = [(0, 0, 1, 1), (3, 4, 0, 5), (1, 2, 2, 3), (2, 3, 6, 7), (1, 4, 8, 9), (4, 4, 7, 9), (2, 6, 9, 11), (6, 6, 7, 11), (3, 4, 12, 13), (5, 0, 12, 13)]
    res = set()
    for a, b, c, d in base:
        for x, y, z in {(a, b, c), (a, c, b), (b, c, a), (b, a, c), (c, a, b), (c, b, a)}:
            if z * 4 >= d:
                for sx in (1, -1):
                    for sy in (1, -1):
                        res.add((sx * x, sy * y, z, d))
    return sorted(res)


DIRS = dirs()


class CHECK(Check):
    prop = 'C25'
    models = {'quick': [('MCModels', 'MCModels', 4)], 'thorough': [('MCModels', 'MCModelsL', 4), ('MCModels', 'MCModelsL2', 4)]}
    trace = 'TraceModels'
    driver = 'h_models'
    chunk = 60
    assumptions = ['exponents are whole numbers and directions rational unit vectors; the exponential is evaluated to four digits, so a wrong value is seen when it is off by more than 0.7 % (0.05 % to 0.3 % for the models without exponential)',
                   'Smith shadowing is decided for views above the horizon and lights off the normal; the shifted gamma model is decided without shadowing, the moment lobe at the skew it starts from',
                   'derivatives are compared with central difference quotients of the reported values, away from the kinks of a model']

    def prepare(self):
        super().prepare()
        self.tree.targets(*[v[0] for m, v in MODELS.items() if m != 'isotropic_lafortune'])
        # not part of the CMake build
        self.extra = os.path.join(self.scratch, 'plugins')
        os.makedirs(self.extra)
        src = os.path.join(build.REPO, 'sources')
        if subprocess.call(['g++', '-std=c++11', '-O1', '-w', '-shared', '-fPIC', '-I' + src, '-I/usr/include/eigen3',
                            os.path.join(src, 'plugins/nonlinear_function_isotropic_lafortune/function.cpp'),
                            '-o', os.path.join(self.extra, 'libnonlinear_function_isotropic_lafortune.so')], env=build._env()):
            raise build.BuildError('nonlinear_function_isotropic_lafortune')

    def driver_env(self):
        return {'ALTA_PLUGIN_PATH': self.tree.plugins + ':' + self.extra}

    def nb(self, m, ny, lobes, kind):
        return PER.get(m, 1) * ny * lobes + (kind == 'moment')

    def slot(self, m, ny, kind, nb, j):
        if m == 'sgd':
            return j // ny
        if kind == 'moment' and j == nb - 1:
            return -1
        return j % PER.get(m, 1)

    def parval(self, m, s):
        r = self.rng
        I = r.randint
        if m in ('blinn', 'retroblinn'):
            return I(0, 40) if s == 0 else 8 * I(m == 'retroblinn', 6)
        if m == 'abc':
            return I(0, 40) if s < 2 else 8 * I(0, 4)
        if m == 'retroyoo':
            return I(1, 24)
        if m in ('lafortune', 'isotropic_lafortune'):
            return 8 * I(1, 4) if s == PER[m] - 1 else I(-11, 11)
        if m in ('beckmann', 'retrobeckmann', 'ward'):
            return I(0, 40) if s == 0 else I(4, 16)
        if m == 'spherical_gaussian':
            return (8 if r.random() < .35 else I(5, 12)) if s == -1 else I(0, 40) if s == 0 else I(0, 40)
        if m == 'sgd':
            # c theta0 k lambda p F0 F1 K rho_d rho_s alpha
            return [I(1, 16), I(1, 9), I(9, 20), I(0, 8) if r.random() < .4 else 0, 8 * I(0, 2), I(0, 8), I(-2, 2), I(1, 16), I(0, 8), I(0, 16), I(4, 12)][s]
        if m == 'shadowing_schlick':
            return I(0, 12)
        if m in ('shadowing_smith', 'shadowing_walter'):
            return I(2, 14)
        return I(1, 8)

    def place(self, m, kind):
        r = self.rng
        if m in ONED:
            lo = 1 if m == 'retroyoo' else 0 if m == 'abc' else -3
            hi = 7 if m == 'abc' else 8      # 1 - x = 0 is the edge of the abc domain
            if m == 'abc' and r.random() < .1:
                return str(r.choice([-3, -1, 11, 12]))
            return str(r.randint(max(lo, 1) if m == 'abc' else lo, hi))
        for _ in range(1000):
            l, v = r.choice(DIRS), r.choice(DIRS)
            if r.random() < .15:
                v = (-l[0], -l[1], l[2], l[3])
            elif r.random() < .1:
                v = l
            if m not in ('shadowing_schlick', 'shadowing_smith', 'sgd') and r.random() < .08:
                if r.random() < .5:
                    l = l[:2] + (-l[2], l[3])
                else:
                    v = v[:2] + (-v[2], v[3])
            if m == 'sgd' and (l == (0, 0, 1, 1) or v == (0, 0, 1, 1)):
                continue
            f = lambda d: [d[0] / d[3], d[1] / d[3], d[2] / d[3]]
            a, b = f(l), f(v)
            d = sum(x * y for x, y in zip(a, b))
            mi = a[2] * b[2] - a[0] * b[0] - a[1] * b[1]
            sz = a[2] + b[2]
            if 1 + d < .1 or 1 + mi < .1 or sz < .25:
                continue
            if m == 'retrobeckmann' and kind == 'retro' and 0 <= d < .45:
                continue
            if m in ('beckmann', 'sgd') and sz * sz / (2 + 2 * d) < .3:
                continue
            if m == 'retrobeckmann' and kind != 'retro' and sz * sz / (2 + 2 * mi) < .3:
                continue
            if m == 'ward' and a[2] * b[2] > 0 and ((a[0] + b[0]) ** 2 + (a[1] + b[1]) ** 2) / sz ** 2 > 3:
                continue
            return '%d %d %d %d %d %d %d %d' % (l + v)
        raise AssertionError(m)

    def kink(self, m, p, ny, lobes, x):
        """on the border between two pieces of a model"""
        w = [int(t) for t in x.split()]
        l, v = w[:4], w[4:]
        if m == 'shadowing_walter':     # the approximation is cut at a = 1.6
            tan = [math.sqrt(d[3] ** 2 - d[2] ** 2) / d[2] for d in (l, v)]
            return any(abs(a / 8 * t - .625) < .01 for a in p for t in tan)
        if m not in ('lafortune', 'isotropic_lafortune'):
            return False
        dx, dy, dz = [l[i] * v[i] / (l[3] * v[3]) for i in range(3)]
        k = PER[m]
        for b in range(0, len(p), k):
            q = p[b:b + k]
            d = q[0] * dx + q[1] * dy + q[2] * dz if m == 'lafortune' else q[0] * (dx + dy) + q[1] * dz
            if abs(d) < .05:
                return True
        return False

    def scenarios(self):
        rng, res = self.rng, []
        names = sorted(MODELS)
        for k in range(40 * len(names) if self.quick else 200 * len(names)):
            m = names[k % len(names)]
            plug, pin, kinds = MODELS[m]
            kind = kinds[(k // len(names)) % len(kinds)]
            ny = rng.choice([1, 1, 2, 3, 3])
            lobes = rng.choice([1, 2, 3]) if 'lafortune' in m else 1
            nb = self.nb(m, ny, lobes, kind)
            ops = ['new %s %s %s %d %d %s ' % (m, plug, pin, ny, lobes, kind) + ' '.join(str(rng.randint(0, 12)) for _ in range(ny))]
            p = None
            for _ in range(rng.randint(6, 14)):
                if p is None or rng.random() < .3:
                    p = [self.parval(m, self.slot(m, ny, kind, nb, j)) for j in range(nb)]
                    ops.append('set ' + ' '.join(map(str, p)))
                    if rng.random() < .5:
                        ops.append('get')
                    continue
                x = self.place(m, kind)
                r = rng.random()
                if r < .5:
                    ops.append('value ' + x)
                elif not self.kink(m, p, ny, lobes, x):
                    ops.append('jac ' + x)
                    if r > .9:
                        ops.append('get')
            res.append(Scenario('m%d-%s' % (k, m), {}, ops))
        return res
