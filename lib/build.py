"""Out-of-tree builds of /repo's current working tree (keyed by content) and of the
/verif harness drivers that link against it."""
import fcntl, hashlib, os, shutil, subprocess, sys, time

REPO = os.environ.get('ALTA_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, '.build')
JOBS = str(os.cpu_count() or 4)


class BuildError(Exception):
    pass


def _files():
    out = []
    for top in ('sources', 'external/quadprog++', 'external/pybind11', 'configs', 'CMakeLists.txt'):
        p = os.path.join(REPO, top)
        if os.path.isfile(p):
            out.append(p)
            continue
        for d, dn, fn in os.walk(p):
            dn.sort()
            if 'tests' in dn and d.endswith('sources'):
                pass
            for f in sorted(fn):
                out.append(os.path.join(d, f))
    return out


def tree_hash():
    h = hashlib.sha256()
    for f in _files():
        try:
            with open(f, 'rb') as fh:
                h.update(f.encode() + b'\0' + fh.read() + b'\0')
        except OSError:
            h.update(f.encode() + b'?')
    return h.hexdigest()[:16]


def _run(cmd, log, **kw):
    with open(log, 'ab') as fh:
        r = subprocess.run(cmd, stdout=fh, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        tail = open(log, errors='replace').read()[-3000:]
        raise BuildError('command failed: %s\n%s' % (' '.join(cmd), tail))


def _env():
    e = {'HOME': os.environ.get('HOME', '/root'), 'LANG': 'C.UTF-8', 'CC': 'gcc', 'CXX': 'g++',
         'CCACHE_DISABLE': '1',
         'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'}
    return e


class Tree:
    """A configured build of the current tree; targets are built on demand."""

    def __init__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.hash = tree_hash()
        self.dir = os.path.join(BUILD, self.hash)
        self.lock = open(os.path.join(BUILD, self.hash + '.lock'), 'w')
        fcntl.flock(self.lock, fcntl.LOCK_EX)
        try:
            self._prune()
            os.makedirs(self.dir, exist_ok=True)
            os.utime(self.dir)
            self.log = os.path.join(self.dir, 'build.log')
            if not os.path.exists(os.path.join(self.dir, 'cmake', 'build.ninja')):
                _run(['cmake', '-S', REPO, '-B', os.path.join(self.dir, 'cmake'), '-G', 'Ninja', '-Wno-dev',
                      '-DCMAKE_CXX_COMPILER=/usr/bin/g++', '-DCMAKE_BUILD_TYPE=RelWithDebInfo',
                      '-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=-O1 -g', '-DPYTHON_EXECUTABLE=/usr/bin/python3.12',
                      '-DCMAKE_CXX_STANDARD_INCLUDE_DIRECTORIES=/opt/vp/include',
                      '-DCMAKE_CXX_STANDARD_LIBRARIES=-lz -llz4'], self.log, env=_env())
        finally:
            fcntl.flock(self.lock, fcntl.LOCK_UN)
        self.cmake = os.path.join(self.dir, 'cmake')
        self.plugins = os.path.join(self.cmake, 'plugins')
        self.softs = os.path.join(self.cmake, 'softs')
        self.python = os.path.join(self.cmake, 'python')

    def _prune(self):
        """Keep the most recent few trees (disk space)."""
        ds = []
        for n in os.listdir(BUILD):
            p = os.path.join(BUILD, n)
            if os.path.isdir(p) and n != self.hash:
                ds.append((os.path.getmtime(p), p))
        ds.sort(reverse=True)
        for t, p in ds[3:]:
            if time.time() - t > 1800:
                shutil.rmtree(p, ignore_errors=True)
                try:
                    os.unlink(p + '.lock')
                except OSError:
                    pass

    def targets(self, *names):
        fcntl.flock(self.lock, fcntl.LOCK_EX)
        try:
            if names:
                _run(['ninja', '-C', self.cmake, '-j', JOBS] + list(names), self.log, env=_env())
        finally:
            fcntl.flock(self.lock, fcntl.LOCK_UN)

    def driver(self, name, libs=('core',), extra=()):
        """Compile /verif/harness/<name>.cpp against the freshly built libraries."""
        self.targets(*libs)
        fcntl.flock(self.lock, fcntl.LOCK_EX)
        try:
            src = os.path.join(VERIF, 'harness', name + '.cpp')
            h = hashlib.sha256()
            for f in sorted(os.listdir(os.path.join(VERIF, 'harness'))):
                if f.endswith('.h') or f == name + '.cpp':
                    h.update(open(os.path.join(VERIF, 'harness', f), 'rb').read())
            out = os.path.join(self.dir, name + '-' + h.hexdigest()[:10])
            if not os.path.exists(out):
                _run(['g++', '-std=c++11', '-O1', '-g', '-w', '-fopenmp', '-fPIC', '-rdynamic',
                      '-DALTA_PLUGIN_DIRECTORY="/nonexistent/alta"',
                      '-I' + os.path.join(REPO, 'sources'), '-I' + os.path.join(REPO, 'external'),
                      '-I' + os.path.join(REPO, 'external/quadprog++'), '-I/opt/vp/include',
                      '-I/usr/include/eigen3', '-I' + os.path.join(VERIF, 'harness'), src,
                      '-o', out + '.tmp'] + list(extra) +
                     ['-L' + os.path.join(self.cmake, 'lib')] + ['-l' + l for l in libs] +
                     ['-ldl', '-lz', '-llz4'], self.log, env=_env())
                os.rename(out + '.tmp', out)
            return out
        finally:
            fcntl.flock(self.lock, fcntl.LOCK_UN)
