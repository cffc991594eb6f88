import json, os

import build
from core import Check, Scenario


class CHECK(Check):
    prop = 'C23'
    models = {'quick': [('MCPyAll', None, 4)], 'thorough': [('MCPyAll', 'MCPyAllL', 6)]}
    trace = 'TracePy'
    assumptions = ['Values are integers (parameters 0 to 2, exponents too; data up to 1000), configurations are along the normal where conversions are exact.',
                   'Functions: blinn, diffuse, rational, sums and products; data: vertical_segment and data_grid; fitter: rational_fitter_leastsquare on constant data.',
                   'A created function is given parameters at once: blinn has none that are defined.']

    def prepare(self):
        self.tree = build.Tree()
        self.tree.targets('alta', 'nonlinear_function_blinn', 'nonlinear_function_diffuse', 'data_grid', 'rational_fitter_leastsquare')
        self.exe = os.path.join(build.VERIF, 'harness', 'py_driver.py')

    def driver_env(self):
        return {'ALTA_PYTHON': self.tree.python, 'ALTA_PLUGIN_PATH': self.tree.plugins, 'PYTHONDONTWRITEBYTECODE': '1', 'OMP_NUM_THREADS': '1'}

    def scenarios(self):
        scs = []
        for b in self.behaviours('MCPy', num=900 if self.quick else 12000, depth=41, parts=6, timeout=800):
            scs.append(Scenario('script-%d' % len(scs), {}, [json.dumps(o, separators=(',', ':')) for o in b['h']]))
        # numbers that only the full precision holds
        par = dict(op='par', dx=6, dy=2, **{'in': 'CARTESIAN', 'out': 'RGB_COLOR'})
        for big in (16777217, 123456789):
            for name, n in (('nonlinear_function_diffuse', 2), ('nonlinear_function_blinn', 4)):
                ops = [dict(op='vec', v=[big, 1]), dict(op='copy', a=1), dict(op='put', a=2, i=1, v=big), dict(op='at', a=2, i=1), dict(op='list', a=2), dict(op='list', a=1),
                       dict(op='sub', a=1, b=2), dict(op='vec', v=([big, 1, 1, 1])[:n] if name.endswith('diffuse') else [big, 1, 1, 1]), par,
                       dict(op='func', name=name, par=5, v=[big - 1, 0, 1, 1][:n]), dict(op='get', a=6), dict(op='set', a=6, b=4), dict(op='get', a=6),
                       dict(op='vec', v=[0, 0, 1, 0, 0, 1]), dict(op='value', a=6, b=9), dict(op='save', a=6, file='one.func', args=0), dict(op='loadf', file='one.func')]
                scs.append(Scenario('script-%d' % len(scs), {}, [json.dumps(o, separators=(',', ':')) for o in ops]))
        return scs
