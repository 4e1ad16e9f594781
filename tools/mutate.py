#!/usr/bin/env python3
"""Development aid: small mechanical changes to the code, each judged by a thinned-out version of the checks.
tools/mutate.py FILE N SEED CHECK[,CHECK...] [jobs]     (FILE relative to /repo)
Prints the changes that compile and that none of the checks noticed.  Works on scratch copies only."""
import json, os, pickle, random, re, shutil, subprocess, sys, tempfile, hashlib, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = '/tmp/mutate-cache'

def mutants(path):
    out = []
    comment = False
    for i, l in enumerate(open(path, encoding='utf8').read().split('\n')):
        s = l.strip()
        if path.endswith(('.c', '.h')):
            if s.startswith('/*') and '*/' not in s: comment = True
            if comment:
                if '*/' in s: comment = False
                continue
            if s.startswith(('//', '#', '/*', '*')) or '_raise(' in s or 'RAISE' in s or 'printf(' in s: continue
        elif s.startswith(('#', '"', "'", 'def ', 'cdef ', 'import', 'from', 'cimport')): continue
        def sub(pat, rep):
            for m in re.finditer(pat, l):
                if l[:m.start()].count('"') % 2: continue
                n = l[:m.start()] + m.expand(rep) + l[m.end():]
                if n != l: out.append((i, l, n))
        sub(r' < ', ' <= '); sub(r' <= ', ' < '); sub(r' > ', ' >= '); sub(r' >= ', ' > ')
        sub(r' == ', ' != '); sub(r' != ', ' == '); sub(r' \+ ', ' - '); sub(r' - ', ' + '); sub(r' \* (?=\w)', ' + ') if '=' in l and not re.match(r'^\s*(const |static )?\w+ \* ', l) else None
        sub(r'&&', '||'); sub(r'\|\|', '&&'); sub(r'\band\b', 'or'); sub(r'\bor\b', 'and')
        sub(r'\b0\b(?!x)', '1'); sub(r'\b1\b', '0'); sub(r'\b1\b', '2')
        sub(r'\+=', '-='); sub(r'\+= ', '= '); sub(r'\bTrue\b', 'False'); sub(r'\bFalse\b', 'True')
        sub(r'\bif\s*\((.*)\)\s*(\{?)$', r'if(0 \&\& (\1)) \2'.replace('\\&', '&')); 
        if path.endswith(('.c',)) and re.match(r'^\s*[\w\->\.\[\]\* ]+(\(.*\)|\s*[\+\-]?=.*|\+\+|--)\s*;\s*$', l) and not re.match(r'^\s*(return|\w+ +\*? *\w+ *(=|;|\[)|struct|goto\b)', l):
            out.append((i, l, re.match(r'^\s*', l).group(0) + ';'))
        if s in ('break;', 'continue;') or s.startswith('goto '): out.append((i, l, re.match(r'^\s*', l).group(0) + ';'))
        if path.endswith('.pyx') and re.match(r'^\s+(self\.\w+\s*=|rt\.\w+|\w+\(.*\)$|self\.\w+\(.*\)$|raise )', l): out.append((i, l, re.match(r'^\s*', l).group(0) + 'pass'))
    return out

def smoke(repo, checks, k, seed):
    """runs in a process of its own: exit 1 if a check notices"""
    out = tempfile.mkdtemp(prefix='mut')
    os.environ['BF_REPO'] = repo; os.environ['VERIF_SEED'] = str(seed); os.environ['VERIF_TIER'] = 'quick'
    sys.path[:0] = [V + '/lib', V + '/checks']
    import build, checklib, mc, faultworld
    build.OUT = out
    os.makedirs(CACHE, exist_ok=True)
    def cached(f):
        def g(ck, *a, **kw):
            kk = hashlib.sha1(repr((f.__name__, ck.id, a, sorted((x, repr(y)) for x, y in kw.items() if x != 'prep'))).encode()).hexdigest()
            p = os.path.join(CACHE, kk)
            if not os.path.exists(p):
                r = f(ck, *a, **kw)
                t = p + '.%d' % os.getpid(); pickle.dump(r, open(t, 'wb')); os.rename(t, p)
            return pickle.load(open(p, 'rb'))
        return g
    mc.emit, mc.calls = cached(mc.emit), cached(mc.calls)
    oc = faultworld.counts
    def counts(ck, scen, *a, **kw):
        random.Random(seed).shuffle(scen)
        del scen[4 * k:]
        return oc(ck, scen, *a, **kw)
    faultworld.counts = counts
    orig = checklib.Check.run_core
    def run_core(self, scen, *a, **kw):
        scen = list(scen)
        n = 3 * k if len(scen) > 20 * k else k
        if len(scen) > n: scen = random.Random(seed).sample(scen, n)
        kw['shards'] = 1
        orig(self, scen, *a, **kw)
        if self.viol: print('NOTICED by', self.id); sys.stdout.flush(); raise SystemExit(1)
    checklib.Check.run_core = run_core
    checklib.Check.model = lambda *a, **kw: None
    checklib.REPLAY = os.path.join(out, 'replay')
    try:
        for c in checks:
            m = __import__(c)
            m.run(checklib.Check(c))
    except build.BuildError as e: print('NOCOMPILE'); raise SystemExit(2)
    finally: shutil.rmtree(out, ignore_errors=True)

def main():
    f, n, seed, checks = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4].split(',')
    jobs = int(sys.argv[5]) if len(sys.argv) > 5 else 4
    k = int(os.environ.get('MUT_K', '40'))
    ms = mutants(os.path.join('/repo', f))
    lo, hi = [int(x) for x in os.environ.get('MUT_LINES', '0-99999').split('-')]
    ms = [m for m in ms if lo <= m[0] + 1 <= hi]
    print(len(ms), 'possible', flush=True)
    ms = random.Random(seed).sample(ms, min(n, len(ms)))
    base = tempfile.mkdtemp(prefix='mutw')
    run, stat = {}, dict(noticed=0, nocompile=0, survived=0, odd=0, timeout=0)
    def finish(p):
        m, d, log, t = run.pop(p)
        o = open(log).read(); os.unlink(log); shutil.rmtree(d)
        if p.returncode == 1 and 'NOTICED' in o: stat['noticed'] += 1; print('.', end='', flush=True); return
        if p.returncode == 2: stat['nocompile'] += 1; return
        key = 'survived' if p.returncode == 0 else 'timeout' if p.returncode == -9 else 'odd'
        stat[key] += 1
        print('\n%s %s:%d\n  - %s\n  + %s%s' % (key.upper(), f, m[0] + 1, m[1].strip(), m[2].strip(), '' if p.returncode == 0 else '\n' + o[-600:]), flush=True)
    def reap(block):
        while True:
            for p in list(run):
                if p.poll() is not None: finish(p); return
                if time.time() - run[p][3] > 600: os.killpg(p.pid, 9); p.wait()
            if not block: return
            time.sleep(.2)
    try:
        for j, m in enumerate(ms):
            while len(run) >= jobs: reap(True)
            d = os.path.join(base, str(j)); os.makedirs(d)
            for x in ('src', 'bigfile', 'utils', 'setup.py', 'README.rst', 'CMakeLists.txt', 'MANIFEST.in'):
                s = os.path.join('/repo', x)
                if os.path.isdir(s): shutil.copytree(s, os.path.join(d, x), ignore=shutil.ignore_patterns('*.so', 'pyxbigfile.c', '__pycache__', 'tests'))
                elif os.path.exists(s): shutil.copy(s, d)
            p = os.path.join(d, f)
            L = open(p, encoding='utf8').read().split('\n')
            L[m[0]] = m[2]
            open(p, 'w', encoding='utf8').write('\n'.join(L))
            log = d + '.log'
            pr = subprocess.Popen(['nice', '-n', '10', sys.executable, os.path.abspath(__file__), '--smoke', d, ','.join(checks), str(k), str(seed)],
                                  stdout=open(log, 'w'), stderr=subprocess.STDOUT, start_new_session=True)
            run[pr] = (m, d, log, time.time())
        while run: reap(True)
    finally: shutil.rmtree(base, ignore_errors=True)
    print('\n', stat)

if __name__ == '__main__':
    if sys.argv[1] == '--smoke': smoke(sys.argv[2], sys.argv[3].split(','), int(sys.argv[4]), int(sys.argv[5]))
    else: main()
