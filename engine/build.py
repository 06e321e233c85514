"""Build steps: IR for the symbolic executor, native binaries for replay."""
import os, subprocess, tempfile, shutil, glob, atexit
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARN = os.path.join(HERE, 'harness')


class BuildError(Exception):
    pass


def run(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout.decode(errors='replace')[-4000:]))
    return r.stdout.decode(errors='replace')


def sources():
    return sorted(glob.glob(REPO + '/src/*.cpp') + glob.glob(REPO + '/src/**/*.cpp', recursive=True) and
                  set(glob.glob(REPO + '/src/**/*.cpp', recursive=True)))


CXX = ['-std=c++14', '-include', 'cstdint', '-I' + REPO + '/include', '-I' + HARN]


class Build:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='lexiv.')
        atexit.register(self.close)
        self.pid = os.getpid()
        self.bins = {}

    def close(self):
        if os.getpid() == self.pid:
            shutil.rmtree(self.dir, ignore_errors=True)

    def obj(self, src):
        return src.replace('/', '_')

    def ir(self, harness, defs=(), tag='ir'):
        """Compile library + harness + C models to one optimised-for-analysis module; returns .ll text path."""
        d = os.path.join(self.dir, tag)
        os.makedirs(d, exist_ok=True)
        base = ['-O1', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-w',
                '-fno-strict-aliasing', '-emit-llvm', '-c', '-fgnuc-version=6.4.0']
        if '-Uport' in defs:
            base.remove('-fgnuc-version=6.4.0')
        jobs = []
        outs = []
        for s in sources() + [os.path.join(HARN, h) for h in list(harness) + ['inst.cpp']]:
            o = os.path.join(d, self.obj(s) + '.bc')
            outs.append(o)
            jobs.append(['clang++'] + CXX + list(defs) + base + [s, '-o', o])
        o = os.path.join(d, 'cmodels.bc')
        outs.append(o)
        jobs.append(['clang', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-builtin', '-fno-discard-value-names', '-w', '-emit-llvm', '-c',
                     os.path.join(HARN, 'cmodels.c'), '-o', o])
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(run, jobs))
        allbc = os.path.join(d, 'all.bc')
        run(['llvm-link'] + outs + ['-o', allbc])
        out = os.path.join(d, 'all.ll')
        run(['opt', '-passes=cgscc(inline),function(sroa,simplifycfg,early-cse,simplifycfg)', '-S', allbc, '-o', out])
        return out

    def native(self, harness, defs=(), tag='nat', cc='g++', flags=('-O0', '-g')):
        """Native executable; tag names the variant."""
        if tag in self.bins:
            return self.bins[tag]
        if '-Uport' in defs:
            cc = 'clang++'
        d = os.path.join(self.dir, tag)
        os.makedirs(d, exist_ok=True)
        jobs, outs = [], []
        for s in sources() + [os.path.join(HARN, h) for h in list(harness) + ['native_rt.cpp']]:
            o = os.path.join(d, self.obj(s) + '.o')
            outs.append(o)
            jobs.append([cc] + CXX + list(defs) + list(flags) + ['-w', '-c', s, '-o', o])
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(run, jobs))
        exe = os.path.join(d, 'run')
        run([cc] + list(flags) + outs + ['-o', exe, '-ldl', '-lpthread', '-rdynamic'])
        self.bins[tag] = exe
        return exe


def parse_native(out):
    """-> list of dict(status, outs, msg)"""
    cases = []
    cur = None
    for L in out.split('\n'):
        if L == 'case':
            cur = {'status': 'crash', 'outs': [], 'msg': ''}
            cases.append(cur)
        elif cur is None:
            continue
        elif L.startswith('out'):
            cur['outs'].append([int(x, 16) for x in L.split()[1:]])
        elif L.startswith('fail '):
            cur['status'], cur['msg'] = 'fail', L[5:]
        elif L.startswith('exc'):
            cur['status'], cur['msg'] = 'exc', L[4:]
        elif L == 'ok':
            if cur['status'] == 'crash':
                cur['status'] = 'ok'
        elif L in ('skip', 'nosym'):
            cur['status'] = L
    return cases
