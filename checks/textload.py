"""Rendering of abstract text files (TextLoad.tla) as real files, many ways."""
from core import Check, Scenario

NONE = 1000000000


def esc(s):
    return ''.join(c if c.isalnum() or c in '.,[]-+#_' else '~%02x' % ord(c) for c in s) or '~'


def fmt(rng, u):
    """units of 1/640 as decimal text in one of several spellings"""
    v = u / 640.0
    o = rng.random()
    if u % 640 == 0 and o < .7:
        return '%d' % v
    if o < .6:
        t = repr(v)
    elif o < .8:
        t = '%.12e' % v
    elif o < .9:
        t = '%+.9f' % v
    else:
        t = '%.10f' % v
    if float(t) * 640 != u:
        t = repr(v)
    return t


def optval(rng, bs, n):
    """option words for per-component bounds; None if all absent"""
    if all(b == NONE for b in bs):
        return None
    k = n
    while k > 0 and bs[k - 1] == NONE:
        k -= 1
    if any(b == NONE for b in bs[:k]):
        raise ValueError
    vals = [repr(b / 640.0) for b in bs[:k]]
    if n == 1 and rng.random() < .5 and bs[0] >= 0:
        return [vals[0]]
    if n > 1 and k == n and len(set(bs)) == 1 and bs[0] >= 0 and rng.random() < .6:
        return [vals[0]]
    o = rng.random()
    if o < .4:
        return ['[' + ','.join(vals) + ']']
    if o < .7:
        return ['[' + ', '.join(vals) + ']']
    return ('[' + ', '.join(vals) + ']').split(' ')


class TextLoadCheck(Check):
    models = {'quick': [('MCTextLoad', 'MCTextLoad', 6)], 'thorough': [('MCTextLoad', 'MCTextLoadL', 8)]}
    trace = 'TraceTextLoad'
    driver = 'h_data'
    chunk = 150
    aspect = None
    assumptions = ['values, bounds and half-widths are multiples of 1/80 (exact in the units of the specification)',
                   'interval columns describe the first output (as the loader documents); values are finite',
                   'bounds are given as text the option grammar accepts (negative bounds in brackets)']

    def validate(self, scs, tag):
        self.trace_cfg = 'TraceTextLoad-' + self.aspect
        return super().validate(scs, tag)

    def render(self, name, o, file):
        rng = self.rng
        L = []
        hdr = []
        hdr.append('#DIM %d %d' % (o['dx'], o['dy']))
        if o['cos']:
            hdr.append('#PARAM_IN CARTESIAN')
        if o['kind'] or rng.random() < .3:
            hdr.append('#VS %d' % o['kind'])
        if not o['cos'] and rng.random() < .3:
            hdr.append(rng.choice(['#PARAM_IN UNKNOWN', '#PARAM_IN RUSIN_TH_TD', '# a comment', '#', '#CMD --x y']))
        if rng.random() < .4:
            rng.shuffle(hdr)
        eol = rng.choice(['\n', '\n', '\n', '\r\n'])
        if eol == '\r\n' and any('#PARAM' in h for h in hdr):
            eol = '\n'
        body = []
        for i, ln in enumerate(file):
            if ln['t'] == 'comment':
                c = rng.choice(['# comment', '#', '#1 2 3 4 5 6', '#DIM 3 3', '## 0.5 0.5', '#VS 2'])
                body.append(c)
            elif ln['t'] == 'blank':
                b = rng.choice(['', ' ', '\t', '  \t ', ''])
                # a blank line directly after the header is part of the body
                body.append(b)
            else:
                sep = rng.choice([' ', '\t', '  ', ' \t'])
                t = sep.join(fmt(rng, u) for u in ln['v'])
                t = rng.choice(['', '', ' ', '\t']) + t + rng.choice(['', '', ' ', '\t'])
                body.append(t)
        text = ''.join(h + eol for h in hdr)
        # comment lines right after the header read as header lines: keep keys out of it
        first = True
        for b in body:
            if first and b.startswith('#'):
                b = '# comment'
            elif b.strip(' \t'):
                first = False
            elif b == '' or b.strip() == '':
                first = False
            text += b + eol
        if rng.random() < .3 and text.endswith(eol):
            text = text[:-len(eol)]
        args = []
        for k, n in (('min', 'dx'), ('max', 'dx'), ('ymin', 'dy'), ('ymax', 'dy')):
            w = optval(rng, o[k], o[n])
            if w:
                args.append(['--' + k] + w)
        if o['dt'] != 64 or rng.random() < .2:
            args.append(['--dt', repr(o['dt'] / 640.0)])
        if o['mode'] == 'rel':
            args.append(['--dt-relative'])
        elif o['mode'] == 'max':
            args.append(['--dt-max'])
        if o['pos']:
            args.append(['--dt-positive'])
        if o['cos']:
            args.append(['--data-correct-cosine'])
        rng.shuffle(args)
        words = ['prog'] + [w for a in args for w in a]
        lines = ['put ' + esc(l + '\n') for l in text.split('\n')[:-1]]
        if text.split('\n')[-1]:
            lines.append('put ' + esc(text.split('\n')[-1]))
        lines.append('textload 640 ' + ' '.join(esc(w) for w in words))
        return Scenario(name, dict(o=o, file=file), lines)

    def random_case(self, nmax=40):
        rng = self.rng
        dx, dy = rng.choice([1, 1, 2, 2, 3, 4, 6]), rng.choice([1, 1, 2, 3, 3])
        kind = rng.randint(0, 2)
        cos = rng.random() < .15
        if cos:
            dx = 6
        off = 640 * rng.choice([2000, -2000]) if not cos and rng.random() < .08 else 0     # all samples far from 0
        val = lambda: off + 80 * rng.randint(-24, 40)
        dt = 8 * rng.choice([8, 8, 8, 10, 20, 40, 0, 1, 3])
        file = []
        short, single = rng.random() < .08, rng.random() < .5
        for _ in range(rng.randint(0, nmax)):
            r = rng.random()
            if r < .1:
                file.append(dict(t='comment', v=[]))
            elif r < .2:
                file.append(dict(t='blank', v=[]))
            else:
                v = [val() for _ in range(dx + dy)] + [8 * rng.randint(0, 60) for _ in range(kind)]
                if short and rng.random() < .2:
                    file.append(dict(t='short', v=v[:rng.randint(1, len(v) - 1)] if not single else [640 * rng.randint(0, 5)]))
                else:
                    if cos:
                        v[2], v[5] = (rng.choice([640, 640, 320, 160, 80, 0, -320]) for _ in '12')
                    file.append(dict(t='data', v=v))
        data = [l['v'] for l in file if l['t'] == 'data']

        def bound(n, off, lower):
            if rng.random() < .5:
                return [NONE] * n
            k = rng.choice([n, n, rng.randint(1, n)])
            res = []
            for j in range(n):
                if j >= k:
                    res.append(NONE)
                elif data and rng.random() < .5:
                    # a value that occurs: the bounds are closed
                    res.append(sorted(d[off + j] for d in data)[(len(data) // 5) if lower else -1 - len(data) // 5])
                else:
                    res.append(80 * (rng.randint(-24, 0) if lower else rng.randint(15, 40)))
            return res
        if rng.random() < .15:
            b = 80 * rng.randint(0, 12)
            mn = [b] * dx
        else:
            mn = bound(dx, 0, True)
        o = dict(dx=dx, dy=dy, kind=kind, dt=dt, mode=rng.choice(['abs', 'rel', 'max']), pos=rng.random() < .3, cos=[3, 6] if cos else [],
                 min=mn, max=bound(dx, 0, False), ymin=bound(dy, dx, True), ymax=bound(dy, dx, False))
        return o, file

    def adapt(self, o):
        pass

    def scenarios(self):
        res = []
        for k, b in enumerate(self.behaviours('MCTextLoad', 'GenTextLoad', num=250 if self.quick else 3000, depth=3)):
            o, f = b['o'], b['file']
            self.adapt(o)
            try:
                res.append(self.render('gen%d' % k, o, f))
            except ValueError:
                pass
        for k in range(500 if self.quick else 8000):
            o, f = self.random_case(nmax=self.rng.choice([3, 12, 40]) if self.quick else self.rng.choice([3, 12, 40, 120]))
            self.adapt(o)
            res.append(self.render('rnd%d' % k, o, f))
        return res
