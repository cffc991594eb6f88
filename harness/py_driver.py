#!/usr/bin/env python3.12
"""Runs scripts (one JSON operation per line) with the real Python module and
records the result of every operation and all that can be seen of every object."""
import json, os, select, shutil, signal, sys, time

KEYS = ['np', 'nq', 'func', 'grid-size', 'other']
PROBES = [[1], [2], [0, 0], [1, 2], [0, 0, 1, 0, 0, 1], [0, 0, -1, 0, 0, -1]]
CREATE = {'vec', 'copy', 'add', 'sub', 'mul', 'args', 'par', 'func', 'funca', 'get', 'data', 'dget', 'dload', 'd2d', 'fitter', 'loadf'}


def num(x):
    """integers, as everything a script computes here is one"""
    try:
        r = round(x)
    except (ValueError, OverflowError):
        return 987654321
    return int(r) if abs(x - r) <= 1e-6 * max(1, abs(r)) and abs(r) < 2000000000 else 987654321


def elements(v):
    return [num(x) for x in v]


def header(o, kind, dx, plugin):
    return ('#ALTA FUNC HEADER\n#CMD %s\n#DIM %d %d\n#PARAM_IN  %s\n#PARAM_OUT ENERGY\n#ALTA HEADER END\n\n' %
            ('--func ' + plugin, dx, len(o['p']), kind))


def rational(o):
    dx = o['dx']
    t = header(o, dict(UNKNOWN='UNKNOWN_INPUT').get(o['in'], o['in']), dx, 'rational_function')
    t += '#FUNC rational_function\n#MIN ' + '-1 ' * dx + '\n#MAX ' + '1 ' * dx + '\n'
    for p in o['p']:
        t += '#NP %d\n#NQ 1\n' % len(p) + ''.join('0\t' * dx + '%d\n' % c for c in p) + '0\t' * dx + '1\n\n'
    return t


def diffuse(o):
    return header(o, 'CARTESIAN', 6, 'nonlinear_function_diffuse') + '#FUNC nonlinear_function_diffuse\n' + ''.join('Kd %d\n' % c for c in o['p']) + '\n'


class Script:
    def __init__(self, alta):
        self.a, self.v, self.n = alta, [], 0

    def ref(self, o, k):
        i = o[k]
        return self.v[i - 1] if 1 <= i <= len(self.v) else None

    def run(self, o):
        a, op = self.a, o['op']
        alt = self.n % 2 == 1      # where there are two ways to say the same
        r = lambda k: self.ref(o, k)
        val = lambda v: dict(t='val', v=v)
        if op == 'vec': return a.vec([float(x) for x in o['v']])
        if op == 'copy':
            if not isinstance(r('a'), a.vec): raise TypeError
            return a.vec(r('a'))
        if op == 'put': r('a')[o['i']] = float(o['v'])
        elif op == 'at': return val(num(r('a')[o['i']]))
        elif op == 'list':
            if alt and isinstance(r('a'), a.vec) and all(abs(x) < 1000 for x in r('a')):
                return val([num(float(x)) for x in str(r('a')).strip('[]').split(',') if x.strip()])
            return val([elements(x) if isinstance(x, a.vec) else num(x) for x in r('a')])
        elif op == 'len': return val(r('a').size() if alt and isinstance(r('a'), a.data) else len(r('a')))
        elif op == 'norm2':
            n = a.norm(r('a'))
            return val(num(n * n))
        elif op == 'add': return r('a') + r('b')
        elif op == 'sub': return r('a') - r('b')
        elif op == 'mul': return r('a') * r('b')
        elif op == 'args': return a.arguments({k: v for k, v in zip(KEYS, o['m']) if v})
        elif op == 'aput': r('a').update(o['key'], o['v'])
        elif op == 'aget':
            if not isinstance(r('a'), a.arguments): raise TypeError
            return val(r('a')[o['key']])
        elif op == 'par':
            return a.parameters(o['dx'], o['dy'], getattr(a.input_parametrization, dict(UNKNOWN='UNKNOWN_INPUT').get(o['in'], o['in'])),
                                getattr(a.output_parametrization, o['out']))
        elif op in ('func', 'funca'):
            f = a.get_function(o['name'] if op == 'func' else r('a'), r('par'))
            if f is not None and o['v']: f.set(a.vec([float(x) for x in o['v']]))
            return f
        elif op == 'value':
            return val(elements(r('a').value(r('b'))))
        elif op == 'get': return r('a').get()
        elif op == 'set':
            if not isinstance(r('a'), a.function): raise TypeError
            r('a').set(r('b'))
        elif op == 'save':
            if o['args'] == 0: r('a').save(o['file'])
            else: r('a').save(o['file'], r('args'))
        elif op == 'rat': open(o['file'], 'w').write(rational(o))
        elif op == 'diff': open(o['file'], 'w').write(diffuse(o))
        elif op == 'load':
            if alt: r('a').load(o['file'], a.arguments())
            else: r('a').load(o['file'])
        elif op == 'loadf': return a.load_function(o['file'], a.arguments({'other': 'x'})) if alt else a.load_function(o['file'])
        elif op == 'data':
            if o['args'] == 0: return a.get_data(o['name'], o['n'], r('par'))
            return a.get_data(o['name'], o['n'], r('par'), r('args'))
        elif op == 'dget':
            if not isinstance(r('a'), a.data): raise TypeError
            return r('a').get(o['i']) if alt else r('a')[o['i']]
        elif op == 'dset':
            if not isinstance(r('a'), a.data): raise TypeError
            if alt: r('a').set(o['i'], r('b'))
            else: r('a')[o['i']] = r('b')
        elif op == 'dload': return a.load_data(o['name'], o['file'])
        elif op == 'd2d': return a.data2data(r('a'), r('par'))
        elif op == 'b2d': a.brdf2data(r('a'), r('b'))
        elif op == 'stats':
            s = a.data2stats(r('a'), r('b'))
            return val(dict(l1=elements(s['L1']), ss=[num(x * x) for x in s['L2']], linf=elements(s['LInf'])))
        elif op == 'fitter': return a.get_fitter(o['name'])
        elif op == 'fit':
            ok = r('fi').fit_data(r('a'), r('b')) if o['args'] == 0 else r('fi').fit_data(r('a'), r('b'), r('args'))
            return dict(t='ok' if ok else 'fail')
        return None

    def step(self, o):
        self.n += 1
        try:
            x = self.run(o)
        except Exception:
            if o['op'] in CREATE: self.v.append(None)
            return dict(t='fail')
        if isinstance(x, dict): return x
        if o['op'] not in CREATE: return dict(t='ok')
        self.v.append(x)
        return dict(t='ok' if x is not None else 'fail')

    def view(self, x):
        a = self.a
        if isinstance(x, a.vec): return dict(k='vec', v=elements(x))
        if isinstance(x, a.arguments): return dict(k='args', m=[x[k] for k in KEYS])
        if isinstance(x, a.function):
            ys = []
            for p in PROBES:
                try: ys.append(elements(x.value(a.vec([float(c) for c in p]))))
                except Exception: ys.append([])
            return dict(k='func', p=elements(x.get()), y=ys)
        if isinstance(x, a.data): return dict(k='data', rows=[elements(r) for r in x])
        return dict(k='par' if isinstance(x, a.parameters) else 'fit' if isinstance(x, a.fitter) else 'none')


def child(alta, begin, ops, f, scratch):
    os.makedirs(scratch)
    os.chdir(scratch)
    f.write(begin + '\n')
    f.flush()
    s = Script(alta)
    for l in ops:
        o = json.loads(l)
        r = s.step(o)
        f.write(json.dumps(dict(ev='Op', o=o, r=r, view=[s.view(x) for x in s.v]), separators=(',', ':')) + '\n')
        f.flush()


def main():
    scen, events, scratch, timeout = sys.argv[1:5]
    sys.path.insert(0, os.environ['ALTA_PYTHON'])
    import alta
    f = open(events, 'a')
    scs = []
    for l in open(scen):
        if l.startswith('scenario '): scs.append((l[9:].strip(), []))
        elif l.strip(): scs[-1][1].append(l)
    kills = 0
    for n, (begin, ops) in enumerate(scs):
        if kills == 4:      # the code hangs: that is known by now
            f.write('\n{"ev":"Stopped"}\n')
            f.flush()
            break
        d = os.path.join(scratch, 's%d' % n)
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                child(alta, begin, ops, f, d)
                code = 0
            except BaseException as e:
                sys.stderr.write('%s: %s\n' % (type(e).__name__, e))
            finally:
                f.flush()
                os._exit(code)
        end, st = time.time() + float(timeout), None
        while True:
            p, st = os.waitpid(pid, os.WNOHANG)
            if p: break
            if time.time() > end:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                st = None
                break
            time.sleep(0.002)
        f.seek(0, 2)
        if st is None:
            kills, timeout = kills + 1, min(float(timeout), 10)
            f.write('\n{"ev":"Crash","how":"timeout"}\n')
        elif st: f.write('\n{"ev":"Crash","how":"%s"}\n' % ('signal %d' % os.WTERMSIG(st) if os.WIFSIGNALED(st) else 'exit %d' % os.WEXITSTATUS(st)))
        f.flush()
        shutil.rmtree(d, ignore_errors=True)


main()
