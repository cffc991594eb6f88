"""The check runner: models, generated behaviours, scenarios, replay into the real
code, trace validation with TLC, evidence, verdict."""
import concurrent.futures as cf
import hashlib, json, os, random, shutil, subprocess, sys, tempfile, time, traceback

import build, tlc

VERIF = build.VERIF
NCPU = os.cpu_count() or 4


class Scenario:
    """lines: commands for the driver.  begin: fields of the Begin event.  known: name
    under which the known-findings file may list this scenario."""

    def __init__(self, name, begin, lines):
        self.name, self.begin, self.lines = name, begin, lines
        self.events = None

    def text(self):
        b = dict(self.begin)
        b['ev'] = 'Begin'
        b['sc'] = self.name
        return 'scenario ' + json.dumps(b, separators=(',', ':')) + '\n' + ''.join(l + '\n' for l in self.lines)


def known_findings(prop):
    """{scenario name: text} for the 'known:' lines of a property."""
    res = {}
    try:
        for l in open(os.path.join(VERIF, 'known_findings.txt')):
            l = l.strip()
            if l.startswith('known: property=%s ' % prop):
                rest = l.split(' ', 2)[2]
                name, _, text = rest.partition(' ')
                assert name.startswith('scenario=')
                res[name[len('scenario='):]] = text
    except FileNotFoundError:
        pass
    return res


class Check:
    prop = None            # property id
    models = {}            # tier -> [(module, cfg, workers)]
    trace = None           # trace module
    trace_cfg = None       # its configuration, if not named like it
    driver = None          # driver source name
    libs = ('core',)
    driver_timeout = 60    # seconds per scenario
    chunk = 400            # scenarios per TLC run
    reruns = 1             # times a rejected scenario is run again to see it rejected
    assumptions = []

    def __init__(self):
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.rng = random.Random('%s/%d' % (self.prop, self.seed))
        self.scratch = tempfile.mkdtemp(prefix='alta-%s-' % self.prop)
        os.chmod(self.scratch, 0o755)
        os.environ['ALTA_SCRATCH'] = self.scratch
        self.states = self.transitions = 0
        self.notes = {}
        self.t0 = time.time()
        self.quick = self.tier == 'quick'

    # -- to be overridden --------------------------------------------------
    def prepare(self):
        """Build; set self.tree and self.exe."""
        self.tree = build.Tree()
        if self.driver:
            self.exe = self.tree.driver(self.driver, self.libs)

    def scenarios(self):
        raise NotImplementedError

    def driver_env(self):
        return {}

    def execute(self, scs, workdir):
        """Run scenarios on the real code; fill in sc.events (list of JSON strings)."""
        n = max(1, min(NCPU, (len(scs) + 19) // 20))
        parts = [scs[i::n] for i in range(n)]

        def one(k):
            d = os.path.join(workdir, 'p%d' % k)
            os.makedirs(d, exist_ok=True)
            sf, ef = os.path.join(d, 'scen.txt'), os.path.join(d, 'events.ndjson')
            open(sf, 'w').write(''.join(s.text() for s in parts[k]))
            env = dict(os.environ)
            env['OMP_NUM_THREADS'] = env.get('OMP_NUM_THREADS', '2')
            env.update(self.driver_env())
            p = subprocess.run([self.exe, sf, ef, d, str(self.driver_timeout)], env=env, cwd=d,
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            self.split_events(parts[k], ef, p.returncode)

        with cf.ThreadPoolExecutor(n) as ex:
            list(ex.map(one, range(n)))

    def split_events(self, scs, ef, rc):
        cur, by, stopped = None, {}, False
        try:
            data = open(ef, errors='replace').read().split('\n')
        except FileNotFoundError:
            data = []
        for l in data:
            if not l.strip():
                continue
            try:
                j = json.loads(l)
            except ValueError:
                j = None
            if j is None:
                if cur is not None:
                    by[cur].append('{"ev":"Garbled"}')
                continue
            if j.get('ev') == 'Stopped':
                stopped = True
                continue
            if j.get('ev') == 'Begin':
                cur = j['sc']
                by[cur] = []
            if cur is not None:
                by[cur].append(l)
        for s in scs:
            if stopped and s.name not in by:
                s.events = None     # not run, after others had hung
                continue
            s.events = by.get(s.name) or [json.dumps(dict(s.begin, ev='Begin', sc=s.name)),
                                          '{"ev":"Crash","how":"driver died"}']

    # -- trace validation --------------------------------------------------
    def trace_env(self):
        return {}

    def _validate(self, scs, tag):
        """One TLC run.  Returns {scenario: (event index, event)} of the rejections."""
        path = os.path.join(self.scratch, 'trace-%s.ndjson' % tag)
        idx = []
        with open(path, 'w') as f:
            for s in scs:
                for k, e in enumerate(s.events):
                    f.write(e + '\n')
                    idx.append((s, k))
        env = {'TRACE': path}
        env.update(self.trace_env())
        r = tlc.run(self.trace, self.trace_cfg, env=env, timeout=850, mem='3g')
        end = tlc.printed(r.out, 'TRACE-END')
        if not r.ok or not end:
            if len(scs) == 1:
                return {scs[0]: (-1, 'TLC cannot evaluate this trace: ' +
                                 ' | '.join([l for l in r.out.splitlines() if l.strip()][-12:]))}, r
            rej = {}
            half = len(scs) // 2
            a, r1 = self._validate(scs[:half], tag + 'a')
            b, r2 = self._validate(scs[half:], tag + 'b')
            a.update(b)
            r.generated, r.distinct = r1.generated + r2.generated, r1.distinct + r2.distinct
            return a, r
        if int(end[0]) != len(idx):
            raise tlc.TlcError('trace consumed %s of %d lines' % (end[0], len(idx)))
        rej = {}
        for x in tlc.printed(r.out, 'REJECT'):
            s, k = idx[int(x) - 1]
            rej.setdefault(s, (k, s.events[k]))
        os.unlink(path)
        return rej, r

    def validate(self, scs, tag):
        chunks = [scs[i:i + self.chunk] for i in range(0, len(scs), self.chunk)]
        rej = {}
        with cf.ThreadPoolExecutor(min(6, max(1, len(chunks)))) as ex:
            for a, r in ex.map(lambda t: self._validate(t[1], '%s-%d' % (tag, t[0])), list(enumerate(chunks))):
                rej.update(a)
                self.states += r.distinct
                self.transitions += r.generated
        return rej

    # -- design models -----------------------------------------------------
    def run_models(self):
        ms = self.models.get(self.tier) or self.models.get('quick') or []

        def one(m):
            mod, cfg, workers = m
            r = tlc.run(mod, cfg, workers=workers, timeout=800, mem='6g')
            if not r.ok:
                raise tlc.TlcError('design model %s/%s failed:\n%s' % (mod, cfg, r.out[-4000:]))
            return (mod, cfg, r)

        with cf.ThreadPoolExecutor(3) as ex:
            for mod, cfg, r in ex.map(one, ms):
                self.states += r.distinct
                self.transitions += r.generated
                self.notes.setdefault('design_models', []).append(
                    dict(module=mod, cfg=cfg, distinct=r.distinct, generated=r.generated, depth=r.depth))

    def behaviours(self, module, cfg=None, **kw):
        parts = kw.pop('parts', 1)      # generated at the same time, from different seeds
        if parts > 1:
            kw['num'] = (kw['num'] + parts - 1) // parts
        with cf.ThreadPoolExecutor(parts) as ex:
            res = list(ex.map(lambda k: tlc.behaviours(module, cfg, seed=self.seed + 1000 * k, **kw), range(parts)))
        bs = []
        for b, r in res:
            bs += b
            self.transitions += r.generated
            self.states += r.distinct
        self.notes.setdefault('generated_behaviours', []).append(dict(module=module, cfg=cfg, behaviours=len(bs)))
        return bs

    # -- verdict -------------------------------------------------------------
    def conclude(self, scs, rej):
        """Re-run rejections, print verdict, write evidence; returns exit code."""
        confirmed = {}
        if rej:
            byname = {s.name: s for s in rej}
            for n in range(self.reruns):
                todo = [o for o in list(rej)[:60] if o not in confirmed]
                if not todo or (confirmed and time.time() - self.t0 > 500):
                    break
                again = [Scenario(o.name, o.begin, o.lines) for o in todo]
                for s, o in zip(again, todo):
                    for a in vars(o):
                        if a not in ('events',):
                            setattr(s, a, getattr(o, a))
                d = os.path.join(self.scratch, 'again%d' % n)
                os.makedirs(d)
                self.execute(again, d)
                again = [s for s in again if s.events is not None]
                rej2 = self.validate(again, 'again%d' % n)
                for s in rej2:
                    confirmed[byname[s.name]] = (rej2[s], s)
        known = known_findings(self.prop)
        rc = 0
        nviol = 0
        reps = os.path.join(VERIF, 'replays')
        printed = 0
        for s, ((k, e), s2) in confirmed.items():
            if s.name in known:
                print('KNOWN-FINDING: property=%s scenario=%s %s' % (self.prop, s.name, known[s.name]))
                continue
            nviol += 1
            rc = 1
            if printed < 10:
                os.makedirs(reps, exist_ok=True)
                path = os.path.join(reps, '%s-%s.json' % (self.prop, hashlib.sha1(s.name.encode()).hexdigest()[:8]))
                json.dump(dict(property=self.prop, scenario=s.name, begin=s.begin, commands=s.lines,
                               trace_module=self.trace, rejected_event_index=k, rejected_event=e,
                               events=s2.events), open(path, 'w'), indent=1)
                print('VIOLATION property=%s replay=%s' % (self.prop, path))
                print('  scenario %s: event %s not allowed by %s: %s' % (s.name, k, self.trace, str(e)[:600]))
                printed += 1
        flaky = [s.name for s in list(rej)[:60] if s not in confirmed][:20]
        if flaky:
            print('note: %d rejections did not repeat: %s' % (len(flaky), flaky[:3]))
        self.write_evidence(scs, nviol, flaky)
        return rc

    def write_evidence(self, scs, nviol, flaky):
        samples = []
        for s in scs[:1] + scs[len(scs) // 2:len(scs) // 2 + 1] + scs[-1:]:
            samples.append(dict(scenario=s.name, commands=[l[:200] for l in s.lines[:8]],
                                events=[e[:300] for e in (s.events or [])[:6]]))
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level='model_checking',
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=len(scs),
                                events_validated=sum(len(s.events or []) for s in scs),
                                samples=samples, not_repeated=flaky, **self.notes),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=nviol)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w'), indent=1)

    def run(self):
        try:
            with cf.ThreadPoolExecutor(2) as ex:
                fm = ex.submit(self.run_models)
                fb = ex.submit(self.prepare)
                fm.result()
                fb.result()
            t1 = time.time()
            scs = self.scenarios()
            names = set()
            for s in scs:
                assert s.name not in names, s.name
                names.add(s.name)
            t2 = time.time()
            d = os.path.join(self.scratch, 'run')
            os.makedirs(d)
            self.execute(scs, d)
            t3 = time.time()
            left = [s.name for s in scs if s.events is None]
            if left:
                self.notes['not_run_after_hangs'] = len(left)
                scs = [s for s in scs if s.events is not None]
            rej = self.validate(scs, 'v')
            rc = self.conclude(scs, rej)
            print('%s %s: %d scenarios, %d events, %d states, %d transitions, %.1fs (prep %.1f gen %.1f exec %.1f check %.1f) exit %d' % (
                self.prop, self.tier, len(scs), sum(len(s.events) for s in scs), self.states, self.transitions,
                time.time() - self.t0, t1 - self.t0, t2 - t1, t3 - t2, time.time() - t3, rc))
            return rc
        finally:
            if not os.environ.get('ALTA_KEEP'):
                shutil.rmtree(self.scratch, ignore_errors=True)
