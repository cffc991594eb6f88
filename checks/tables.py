"""Scenarios for the tabulated data sets (C16, C17)."""
import math
from core import Check, Scenario
from textload import esc

PI = math.pi
RANGES = {'STARK_2D': [(0, 1)] * 2, 'COS_TH_TD': [(0, 1)] * 2, 'RUSIN_TH_TD': [(0, PI / 2)] * 2,
          'ISOTROPIC_TV_PROJ_DPHI': [(-PI / 2, PI / 2)] * 2, 'COS_TH': [(0, 1)], 'COS_TK': [(0, 1)],
          'COS_TLV': [(-1, 1)], 'COS_TLR': [(-1, 1)], 'RUSIN_TH_TD_PD': [(0, PI / 2), (0, PI / 2), (0, 2 * PI)],
          'STARK_3D': [(0, 1), (0, 1), (0, 2 * PI)]}
S2 = {'STARK_2D': (0, 1), 'COS_TH_TD': (0, 1), 'RUSIN_TH_TD': (0, PI / 2)}
S3 = {'RUSIN_TH_TD_PD': ((0, PI / 2), False), 'ISOTROPIC_TV_TL_DPHI': ((-PI / 2, PI / 2), False),
      'ISOTROPIC_TL_TV_PROJ_DPHI': ((-PI / 2, PI / 2), True), 'SCHLICK_TL_TK_PROJ_DPHI': ((-PI / 2, PI / 2), True),
      'RETRO_TL_TVL_PROJ_DPHI': ((-PI / 2, PI / 2), True)}


def cell(n, fold=False):
    return dict(n=n, node=False, wrap=False, fold=fold)


def node(n, wrap=False):
    return dict(n=n, node=True, wrap=wrap, fold=False)


class Kind:
    """a table: its description for the specification, and how the driver makes it"""

    def __init__(self, plugin, ext, raw, axes, perm, coords, pin, layout, fix=0, opts='', fdims=(), measured=False, approx=False):
        self.axes, self.perm, self.coords, self.pin = axes, perm, coords, pin
        self.plugin, self.ext, self.raw, self.fdims, self.opts = plugin, ext, raw, fdims, opts
        self.size = 1
        for a in axes:
            self.size *= a['n']
        self.m = 4 ** len(axes)
        self.tab = dict(axes=axes, perm=perm, fix=fix, layout=layout, measured=measured, approx=approx, params=[pin, 'RGB_COLOR'])
        self.lines = ['table %s %s %d %s %s' % (plugin, ext, self.size, raw, ' '.join(esc(w) for w in opts.split()))]
        if fdims:
            self.lines.append('dims ' + ' '.join(map(str, fdims)))
        self.lines += ['coord %r %r %d' % c for c in coords]

    def new(self, rng):
        return 'new %s %d' % (self.pin, rng.choice([1, 7, self.size, 3 * self.size, 1000]))

    def query(self, rng):
        """coordinates away from the borders between cells"""
        q = []
        for c, a in enumerate(self.perm):
            if a == 0:
                q.append(self.tab['fix'])
                continue
            ax, root = self.axes[a - 1], self.coords[c][2]
            n = ax['n']
            if ax['fold']:
                k = rng.choice([rng.randrange(0, 4 * n), rng.randrange(0 - 8 * n, 8 * n), rng.choice([8 * n + 2, -8 * n - 2])])
            elif ax['wrap']:
                k = rng.choice([rng.randrange(0, 4 * n), rng.randrange(-4 * n, 4 * n + 1), 4 * n - rng.randrange(5)])
            elif ax['node']:
                k = rng.choice([rng.randrange(0, 4 * (n - 1) + 1), 4 * rng.randrange(n), max(0, 4 * (n - 1) - rng.randrange(5))])
                if self.plugin == 'data_utia' and rng.random() < .05:
                    k = rng.randrange(25, 30)
            else:
                k = rng.randrange(0, 4 * n)
                if rng.random() < .05:
                    k = 4 * n + 1 + rng.randrange(4 * n)
                elif rng.random() < .05 and not root and self.plugin == 'data_brdf_slice':
                    k = -1 - rng.randrange(4 * n)
            if not ax['node'] and k % 4 == 0:
                k += rng.choice([-1, 1]) if k else 1
            q.append(k)
        return 'at %d %s' % (self.m, ' '.join(map(str, q)))

    def index(self, rng):
        r = rng.random()
        if r < .5:
            return rng.randrange(self.size)
        i = 0
        for a in self.axes:                # corners and their neighbours
            n = a['n']
            i = i * n + rng.choice([0, n - 1, min(1, n - 1), max(0, n - 2), rng.randrange(n)])
        return i


def merl():
    return Kind('data_merl', 'binary', 'planar', [cell(90), cell(90), cell(180, True)], [1, 2, 3],
                [(0.0, math.sqrt(PI / 2) / 360, 1), (0.0, PI / 720, 0), (0.0, PI / 720, 0)], 'RUSIN_TH_TD_PD', 'planar',
                fdims=(90, 90, 180), measured=True)


def utia(ext):
    return Kind('data_utia', ext, 'exr' if ext == 'exr' else 'planar', [node(6), node(48, True), node(6), node(48, True)], [1, 2, 3, 4],
                [(0.0, PI / 48, 0), (0.0, PI / 96, 0)] * 2, 'SPHERICAL_TL_PL_TV_PV', 'planar',
                fdims=(288, 288) if ext == 'exr' else (), approx=True)


def slice2(pin, W=512, H=512, default=False):
    lo, hi = S2[pin]
    return Kind('data_brdf_slice', 'exr', 'exr', [cell(H), cell(W)], [2, 1],
                [(float(lo), (hi - lo) / (4. * W), 0), (float(lo), (hi - lo) / (4. * H), 0)], pin, 'interleaved',
                opts='' if default else '--param ' + pin, fdims=(W, H))


def slice3(pin, phi, W=512, H=512):
    (lo, hi), rev = S3[pin]
    c = [(float(lo), (hi - lo) / (4. * W), 0), (float(lo), (hi - lo) / (4. * H), 0), (0.0, PI / 180, 0)]
    perm = [2, 1, 0]
    if rev:
        c.reverse()
        perm.reverse()
    return Kind('data_brdf_slice', 'exr', 'exr', [cell(H), cell(W)], perm, c, pin, 'interleaved',
                fix=90 if phi is None else phi, opts='--param %s%s' % (pin, '' if phi is None else ' --phi %d' % phi), fdims=(W, H))


def grid(pin, sizes=None, by='param'):
    rs = RANGES[pin]
    ns = sizes or [10] * len(rs)
    o = []
    if sizes:
        o.append('--grid-size [%s]' % ','.join(map(str, sizes)))
    if by == 'param':
        o.append('--param ' + pin)
    return Kind('data_grid', 'grid', 'none', [node(n) for n in ns], list(range(1, len(ns) + 1)),
                [(float(lo), (hi - lo) / (4. * max(n - 1, 1)), 0) for (lo, hi), n in zip(rs, ns)], pin, 'interleaved',
                opts=' '.join(o))


class TableCheck(Check):
    models = {'quick': [('MCTable', 'MCTable', 3)], 'thorough': [('MCTable', 'MCTableL', 8)]}
    trace = 'TraceTable'
    driver = 'h_table'
    chunk = 12
    driver_timeout = 120
    kinds_targets = ('data_merl', 'data_utia', 'data_brdf_slice', 'data_grid', 'data_astm')
    assumptions = ['coordinates of evaluations stay a quarter of a cell away from the borders between cells, where rounding decides',
                   'UTIA tables are not evaluated between 75 and 90 degrees of elevation, where they hold no samples',
                   'the sweep over all samples of a table is compared by the driver, with the fill formula of the specification']

    def prepare(self):
        super().prepare()
        self.tree.targets(*self.kinds_targets)

    def driver_env(self):
        return {'ALTA_PLUGIN_PATH': self.tree.plugins, 'MALLOC_PERTURB_': '85'}

    def grids(self):
        r = self.rng
        pin = r.choice(list(RANGES))
        d = len(RANGES[pin])
        sizes = None if r.random() < .2 else [r.choice([1, 2, 2, 3, 4, 5, 7, 12] if d < 3 else [1, 2, 3, 5]) for _ in range(d)]
        if d == 2 and r.random() < .15:
            sizes = r.choice([[10, r.randint(1, 12)], [r.randint(1, 12), 10]])
        return grid(pin, sizes, r.choice(['param', 'param', 'type']))

    def slices(self, small):
        r = self.rng
        W, H = (r.choice([1, 2, 3, 5, 8, 17]), r.choice([1, 2, 3, 4, 9])) if small else (512, 512)
        if r.random() < .4:
            pin = r.choice(list(S2))
            return slice2(pin, W, H, pin == 'STARK_2D' and r.random() < .5)
        pin = r.choice(list(S3))
        rev = S3[pin][1]
        return slice3(pin, r.choice([None, 90, 0, 30, 45] + ([] if rev else [180, 270, 359])), W, H)
