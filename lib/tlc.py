"""Running TLC."""
import json, os, re, shutil, subprocess, tempfile, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class TlcError(Exception):
    pass


class Result:
    pass


def run(module, cfg=None, env=None, args=(), timeout=600, workers=None, mem='2g', constants=None):
    """Run TLC on spec/<module>.tla; returns Result(ok, out, distinct, generated)."""
    meta = tempfile.mkdtemp(prefix='tlc-', dir=os.environ.get('ALTA_SCRATCH') or None)
    try:
        cfgp = os.path.join(SPEC, (cfg or module) + '.cfg')
        if constants:
            base = open(cfgp).read()
            cfgp = os.path.join(meta, 'gen.cfg')
            open(cfgp, 'w').write(base + '\nCONSTANTS\n' + '\n'.join('  ' + c for c in constants) + '\n')
        e = dict(os.environ)
        e.update(env or {})
        e.pop('JAVA_TOOL_OPTIONS', None)
        w = str(workers or 1)
        gc = '-XX:+UseParallelGC' if w != '1' else '-XX:+UseSerialGC'
        cmd = ['java', gc, '-Xmx' + mem, '-Xss64m', '-XX:TieredStopAtLevel=' + ('4' if w != '1' else '4'),
               '-cp', CP, 'tlc2.TLC', '-metadir', meta, '-noGenerateSpecTE',
               '-workers', w, '-config', cfgp] + list(args) + [module + '.tla']
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout)
            out = p.stdout.decode(errors='replace')
            rc = p.returncode
        except subprocess.TimeoutExpired as ex:
            out = (ex.stdout or b'').decode(errors='replace')
            rc = -9
        r = Result()
        r.rc, r.out = rc, out
        r.ok = rc == 0 and 'Error:' not in out
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
        r.generated = int(m[-1][0]) if m else 0
        r.distinct = int(m[-1][1]) if m else 0
        if not m:
            m = re.findall(r'The number of states generated: (\d+)', out)
            r.generated = int(m[-1]) if m else 0
            r.distinct = 0
        m = re.findall(r'depth of the complete state graph search is (\d+)', out)
        r.depth = int(m[-1]) if m else 0
        return r
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def printed(out, tag):
    """Values printed by PrintT(<<"tag", ...json strings...>>)."""
    res = []
    pat = re.compile(r'^<<"' + re.escape(tag) + r'", (.*)>>$')
    for line in out.splitlines():
        m = pat.match(line.strip())
        if m:
            res.append(m.group(1))
    return res


def unquote(s):
    """TLC prints strings with backslash escapes for quotes."""
    assert s[0] == '"' and s[-1] == '"', s
    return s[1:-1].replace('\\"', '"').replace('\\\\', '\\')


def behaviours(module, cfg=None, num=100, depth=10, seed=1, timeout=300, simulate=True, workers=1, constants=None):
    """Behaviours (JSON) that the generator module prints with tag BEH."""
    args = []
    if simulate:
        args = ['-simulate', 'num=%d' % num, '-depth', str(depth), '-seed', str(seed)]
    r = run(module, cfg, args=args, timeout=timeout, workers=workers, constants=constants)
    if r.rc != 0:
        raise TlcError('generator %s failed:\n%s' % (module, r.out[-3000:]))
    seen, res = set(), []
    for s in printed(r.out, 'BEH'):
        b = json.loads(unquote(s))
        # simulation prints every candidate last step: keep one per prefix
        key = s if not simulate else json.dumps(
            [{k: v for k, v in b.items() if k != 'h'}, b['h'][:-1]], sort_keys=True)
        if key in seen:
            continue
        seen.add(key)
        res.append(b)
    return res, r
