"""Runs TLC and reads its verdict."""
import os, re, subprocess, shutil, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
JAR = '/opt/veriftools/tla/tla2tools.jar'

class TLCError(Exception): pass

def classpath():
    d = os.path.dirname(JAR)
    jars = [JAR] + sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith('.jar') and f != 'tla2tools.jar')
    return ':'.join(jars)

class Result:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.search(r'(\d+) states generated, (\d+) distinct states found, (\d+) states left', out)
        self.generated, self.distinct = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        m = re.search(r'depth of the complete state graph search is (\d+)', out)
        self.depth = int(m.group(1)) if m else 0
        self.ok = rc == 0 and 'No error has been found' in out
        self.violated = ('is violated' in out or 'Temporal properties were violated' in out or 'Deadlock reached' in out
                         or 'Evaluating assumption' in out or 'Assumption' in out and 'is false' in out)
        self.postfail = 'POSTCONDITION' in out.upper() and rc != 0 and 'violated' in out

def run(module, cfg=None, env=None, workers=1, timeout=600, mem='2g', args=(), cwd=None, simulate=None, seed=None,
        deadlock=True):
    meta = tempfile.mkdtemp(prefix='tlc-', dir='/dev/shm' if os.access('/dev/shm', os.W_OK) else None)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-Xss64m', '-Xmx' + mem, '-DTLA-Library=' + SPEC, '-cp', classpath(), 'tlc2.TLC',
           '-config', cfg or module + '.cfg', '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE']
    if simulate: cmd += ['-simulate', simulate]
    if seed is not None: cmd += ['-seed', str(seed)]
    cmd += list(args) + [module + '.tla']
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout,
                           cwd=cwd or SPEC, env=e)
        return Result(r.stdout, r.returncode)
    except subprocess.TimeoutExpired as ex:
        raise TLCError('TLC timed out on %s' % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
