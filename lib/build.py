"""Builds what a check needs from /repo's working tree into a scratch directory."""
import os, subprocess, hashlib, shutil, sys, fcntl
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('BF_REPO', '/repo')
OUT = os.path.join(VERIF, 'build')
SRC = os.path.join(REPO, 'src')

class BuildError(Exception):
    pass

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout[-4000:]))
    return r.stdout

def key(files, extra=''):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode())
        with open(f, 'rb') as fp: h.update(fp.read())
    return h.hexdigest()[:16]

def csources():
    return [os.path.join(SRC, f) for f in sorted(os.listdir(SRC)) if f.endswith(('.c', '.h'))]

CFLAGS = ['-g', '-O1', '-fPIC', '-w', '-std=gnu11', '-I', SRC]

def _cached(name, files, extra, make):
    """make(tmp) builds into tmp; the result is kept under a name that depends on content"""
    k = key(files, extra)
    os.makedirs(OUT, exist_ok=True)
    final = os.path.join(OUT, '%s-%s' % (name, k))
    with open(os.path.join(OUT, name + '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(final):
            for old in os.listdir(OUT):        # only the latest build of each kind is kept
                if old.startswith(name + '-') and len(old) == len(name) + 17:
                    p = os.path.join(OUT, old)
                    shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) else os.unlink(p)
            tmp = final + '.tmp%d' % os.getpid()
            make(tmp)
            os.rename(tmp, final)
    return final

def serial_lib(asan=False):
    shim = os.path.join(VERIF, 'harness', 'shim.c')
    src = [os.path.join(SRC, 'bigfile.c'), os.path.join(SRC, 'bigfile-record.c')]
    flags = CFLAGS + (['-fsanitize=address'] if asan else [])
    def make(out):
        sh(['gcc'] + flags + ['-shared', '-o', out, shim] + src + ['-lm', '-lpthread'])
    return _cached('libshim' + ('-asan' if asan else ''), csources() + [shim], ' '.join(flags), make)

WRAPS = ['fopen', 'fopen64', 'fileno', 'mkdir', 'open', 'creat', 'read', 'write', 'pread', 'pwrite', 'lseek', 'rename', 'unlink',
         'truncate', 'ftruncate', 'fsync', 'close', 'scandir']
def fault_lib():
    shim = os.path.join(VERIF, 'harness', 'shim.c')
    vfs = os.path.join(VERIF, 'harness', 'vfs.c')
    src = [os.path.join(SRC, 'bigfile.c'), os.path.join(SRC, 'bigfile-record.c')]
    bulk = os.path.join(VERIF, 'harness', 'bulk.c')
    wl = ','.join(['-Wl'] + ['--wrap=' + w for w in WRAPS])
    def make(out):
        sh(['gcc'] + CFLAGS + ['-shared', '-o', out, shim, vfs, bulk] + src + ['-lm', '-lpthread', wl])
    return _cached('libfault', csources() + [shim, vfs, bulk], wl, make)

def sim_lib(asan=False, defs=()):
    """the collective library on simulated ranks"""
    H = os.path.join(VERIF, 'harness')
    own = [os.path.join(H, f) for f in ('shim.c', 'vfs.c', 'bulk.c', 'mpishim.c', 'simpi.c')]
    src = [os.path.join(SRC, f) for f in ('bigfile.c', 'bigfile-record.c', 'bigfile-mpi.c', 'mp-mpiu.c')]
    flags = ['-I', os.path.join(H, 'simpi')] + CFLAGS + (['-fsanitize=address'] if asan else []) + ['-D' + d for d in defs]
    wl = ','.join(['-Wl'] + ['--wrap=' + w for w in WRAPS])
    def make(out):
        sh(['gcc'] + flags + ['-shared', '-o', out] + own + src + ['-lm', '-lpthread', wl])
    return _cached('libsim' + ('-asan' if asan else '') + ('-' + defs[0][:3].lower() if defs else ''), csources() + own + [os.path.join(H, 'simpi', 'mpi.h')], ' '.join(flags) + wl, make)

UTILS = os.path.join(REPO, 'utils')
TOOLS = ['cat', 'ls', 'create', 'copy', 'get-attr', 'set-attr']
SCRIPTS = ['check', 'rename', 'repartition', 'rm']
MPITOOLS = ['copy-mpi', 'sample-mpi']
NRANKS = 8
def tools():
    """the command-line tools: the serial ones with the fault injector linked in, the scripts beside
    them, and the parallel ones as libraries (one per simulated rank)"""
    H = os.path.join(VERIF, 'harness')
    own = [os.path.join(H, f) for f in ('shim.c', 'vfs.c', 'toolenv.c', 'simpi.c', 'simtool.c')]
    hh = own + [os.path.join(H, 'simpi', 'mpi.h')]
    files = csources() + hh + [os.path.join(UTILS, f) for f in sorted(os.listdir(UTILS)) if f.startswith('bigfile-')]
    wl = ','.join(['-Wl'] + ['--wrap=' + w for w in WRAPS])
    lib = [os.path.join(SRC, f) for f in ('bigfile.c', 'bigfile-record.c')]
    plib = lib + [os.path.join(SRC, f) for f in ('bigfile-mpi.c', 'mp-mpiu.c')]
    asan = ['-fsanitize=address']
    isolate = ['-Dmain=tool_main', '-Dexit=sim_exit', '-Dgetopt=sim_getopt', '-Doptind=(*sim_optind())', '-Doptopt=(*sim_optopt())',
               '-Dopterr=(*sim_opterr())', '-Doptarg=(*sim_optarg())']
    def make(out):
        os.makedirs(out)
        o = lambda n: os.path.join(out, n)
        jobs = []
        for s in lib + [os.path.join(H, f) for f in ('vfs.c', 'toolenv.c')]:
            jobs.append(['gcc'] + CFLAGS + asan + ['-c', '-o', o(os.path.basename(s) + '.o'), s])
        jobs.append(['gcc'] + CFLAGS + ['-shared', '-o', o('libshim.so'), os.path.join(H, 'shim.c')] + lib + ['-lm', '-lpthread'])
        jobs.append(['gcc', '-I', os.path.join(H, 'simpi')] + CFLAGS + ['-shared', '-o', o('libsim.so')] +
                    [os.path.join(H, f) for f in ('vfs.c', 'toolenv.c', 'simpi.c', 'simtool.c')] + plib + ['-lm', '-lpthread', '-ldl', wl])
        for t in MPITOOLS:
            jobs.append(['gcc', '-I', os.path.join(H, 'simpi')] + CFLAGS + isolate + ['-shared', '-o', o(t + '.so'), os.path.join(UTILS, 'bigfile-' + t + '.c')] +
                        (['-lgsl', '-lgslcblas', '-lm'] if t == 'sample-mpi' else []))
        par(jobs)
        objs = [o(os.path.basename(s) + '.o') for s in lib] + [o('vfs.c.o'), o('toolenv.c.o')]
        par([['gcc'] + CFLAGS + asan + ['-o', o('bigfile-' + t), os.path.join(UTILS, 'bigfile-' + t + '.c')] + objs + ['-lm', '-lpthread', wl] for t in TOOLS])
        for t in SCRIPTS:
            shutil.copyfile(os.path.join(UTILS, 'bigfile-' + t), o('bigfile-' + t)); os.chmod(o('bigfile-' + t), 0o755)
        for t in MPITOOLS:
            for k in range(NRANKS): shutil.copyfile(o(t + '.so'), o('%s-%d.so' % (t, k)))
    return _cached('tools', files, ' '.join(CFLAGS + isolate) + wl, make)

def par(jobs):
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex: list(ex.map(sh, jobs))

VENV = '/opt/bigfile-venv'
SITE = os.path.join(VENV, 'lib', 'python3.12', 'site-packages')
def pyext():
    """the Python package, built in a copy; returns the directory that holds it"""
    def walk(d):
        return [os.path.join(p, f) for p, ds, fs in os.walk(d) for f in fs
                if f.endswith(('.py', '.pyx', '.pxd', '.c', '.h')) and not f.startswith('pyxbigfile.c') and os.sep + 'tests' not in p]
    files = walk(os.path.join(REPO, 'bigfile')) + walk(SRC) + [os.path.join(REPO, 'setup.py')]
    def make(out):
        for f in files:
            to = os.path.join(out, os.path.relpath(f, REPO))
            os.makedirs(os.path.dirname(to), exist_ok=True)
            shutil.copyfile(f, to)
        env = dict(os.environ, PATH=VENV + '/bin:' + os.environ.get('PATH', '/usr/bin:/bin'), CC='gcc', CXX='g++', CFLAGS='-w')
        for k in ('PYTHONPATH', 'PYTHONHOME'): env.pop(k, None)
        sh([VENV + '/bin/python', 'setup.py', '-q', 'build_ext', '--inplace'], cwd=out, env=env)
        for d in ('build', 'src'): shutil.rmtree(os.path.join(out, d), ignore_errors=True)
    return _cached('pyext', files, '', make)
