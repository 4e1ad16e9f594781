"""Common part of all checks: counting, evidence, violations, replay."""
import json, os, random, shutil, sys, time, traceback, multiprocessing, hashlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import bf, tlc, build, mc
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAY = os.path.join(VERIF, 'build', 'replay')

class Check:
    def __init__(self, pid):
        self.id = pid
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.budget = 60 if self.tier == 'quick' else 780
        self.states = self.transitions = self.traces = self.events = 0
        self.samples = []
        self.notes = {}
        self.viol = []
        self.assumptions = []
        self.quick = self.tier != 'thorough'
        self.scratch = bf.scratch()

    def rng(self, *tag):
        return random.Random('%s/%d/%s' % (self.id, self.seed, '/'.join(map(str, tag))))

    def left(self): return self.budget - (time.time() - self.t0)

    # --- the specification by itself
    def model(self, module, cfg=None, workers=4, timeout=300, over=None, **kw):
        """exhaustive check of a specification; it does not depend on the code"""
        c = mc.override(cfg or module + '.cfg', over)
        try: r = tlc.run(module, c, workers=workers, timeout=timeout, **kw)
        finally:
            if over: os.unlink(c)
        if not r.ok:
            raise RuntimeError('specification %s/%s fails its own check:\n%s' % (module, cfg, r.out[-3000:]))
        self.count(r)
        self.notes.setdefault('models', []).append(dict(module=module, cfg=cfg, over=over, distinct=r.distinct, generated=r.generated))
        return r

    def count(self, r):
        self.states += r.distinct
        self.transitions += r.generated

    # --- executions against the specification
    def sample(self, x):
        if len(self.samples) < 5: self.samples.append(x)

    def violation(self, what, replay=None):
        os.makedirs(REPLAY, exist_ok=True)
        k = len(self.viol)
        path = os.path.join(REPLAY, '%s-%d.json' % (self.id, k))
        with open(path, 'w') as f: json.dump(dict(property=self.id, what=what, seed=self.seed, **(replay or {})), f, indent=1)
        self.viol.append(what)
        if k >= 4: return
        print('VIOLATION property=%s replay=%s' % (self.id, path))
        print('  ' + str(what)[:700])
        sys.stdout.flush()

    def finish(self, extra=None):
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   events_validated=self.events, samples=self.samples)
        cov.update(self.notes)
        cov.update(extra or {})
        ev = dict(property=self.id, tier=self.tier, seed=self.seed, level='model_checking', coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.viol))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.id + '.json'), 'w') as f: json.dump(ev, f, indent=1)
        print('%s: %d traces (%d events) validated, %d states, %d violations, %.1f s' % (
            self.id, self.traces, self.events, self.states, len(self.viol), time.time() - self.t0))
        return 1 if self.viol else 0

    # --- core scenarios on the serial library
    def run_core(self, scen, comps, attrs, facets, shards=8, module='BigFileTrace', raw=False, world='bf:World', lib='serial',
                 label='', timeout=12, asan=False):
        """executes the scenarios on the real library, validates the recorded traces"""
        if not scen: return
        if self.quick and self.viol: return       # already decided
        libpath = getlib(lib, asan)
        shards = max(1, min(shards, len(scen)))
        parts = [scen[i::shards] for i in range(shards)]
        jobs = [dict(n=i, scen=p, comps=comps, attrs=attrs, facets=facets, module=module, raw=raw, world=world, lib=libpath, asan=asan,
                     base=os.path.join(self.scratch, 'j%s%d' % (label, i)), timeout=timeout) for i, p in enumerate(parts)]
        with multiprocessing.get_context('fork').Pool(min(8, shards)) as pool:
            for r in pool.imap_unordered(core_job, jobs):
                self.states += r['states']; self.transitions += r['transitions']
                self.traces += r['traces']; self.events += r['events']
                for s in r['bad']: self.violation(s['what'], dict(kind='core', facets=sorted(facets), comps=comps, attrs=attrs,
                                                                  module=module, raw=raw, world=world, asan=asan, libname=lib, scenario=s['scenario']))
        self.sample(scen[0]['ops'][:8])

def getlib(name, asan):
    if name == 'fault': return build.fault_lib()
    if name == 'sim': return build.sim_lib(asan)
    if name == 'simsr': return build.sim_lib(asan, ('NO_ISEND_IRECV_IN_DOMAIN',))
    if name == 'py': return build.pyext()
    if name == 'tools': return build.tools()
    return build.serial_lib(asan)

def cls(spec):
    m, c = spec.split(':')
    return getattr(__import__(m), c)

def validate(trace, module, facets, mem='2g', timeout=600, env=None):
    e = {'TRACE': trace}
    for f in facets: e['F_' + f] = '1'
    e.update(env or {})
    r = tlc.run(module, env=e, mem=mem, timeout=timeout)
    if 'semantic analysis failed' in r.out or 'Could not find or load' in r.out or 'OutOfMemoryError' in r.out:
        raise RuntimeError('TLC: ' + r.out[-1500:])
    return r

def split_trace(path):
    """lines of each scenario (a scenario begins with a reset)"""
    out = []
    with open(path) as f:
        for l in f:
            if '"op": "reset"' in l[:20]: out.append([])
            out[-1].append(l)
    return out

def mismatches(out):
    ls = [l for l in out.split('\n') if l.startswith('"MISMATCH')]
    if ls: return ' | '.join(l[:900] for l in ls[-3:])
    i = out.find('Error:')
    return out[i:i + 600] if i >= 0 else out[-600:]

def core_job(j):
    os.makedirs(j['base'], exist_ok=True)
    trace = os.path.join(j['base'], 't.ndjson')
    res = dict(states=0, transitions=0, traces=0, events=0, bad=[])
    def once(scen, timeout):
        execute(j, scen, trace, timeout)
        parts = split_trace(trace)
        assert len(parts) == len(scen) or len(parts) > 0 and '"res": "hang"' in parts[-1][-1], (len(parts), len(scen))
        return parts
    try:
        parts = once(j['scen'], j['timeout'])
        done = 0
        while done < len(parts):
            with open(trace, 'w') as f:
                for p in parts[done:]: f.writelines(p)
            r = validate(trace, j['module'], j['facets'])
            res['states'] += r.distinct; res['transitions'] += r.generated
            if r.ok:
                res['traces'] += len(parts) - done; res['events'] += sum(map(len, parts[done:]))
                break
            # which scenario was rejected: the deepest line matched plus one
            line, k = max(r.depth, 1), done
            while k < len(parts) - 1 and line > len(parts[k]): line -= len(parts[k]); k += 1
            res['traces'] += k - done
            res['events'] += sum(map(len, parts[done:k]))
            what = confirm(j, j['scen'][k], parts[k], trace, once)
            if what:
                ev = parts[k][min(line, len(parts[k])) - 1][:600]
                res['bad'].append(dict(what=what + '\n  at event ' + ev, scenario=j['scen'][k]))
                if len(res['bad']) >= (1 if '"res": "hang"' in parts[k][-1] else 2): break
            done = k + 1
        return res
    finally:
        shutil.rmtree(j['base'], ignore_errors=True)

def execute(j, scen, trace, timeout):
    if not j.get('asan'):
        bf.run_scenarios(j['lib'], scen, trace, j['comps'], j['attrs'], timeout=timeout, raw=j['raw'],
                         worldcls=cls(j['world']), base=j['base'])
        return
    # the sanitizer has to be there from the start of the process
    import subprocess
    job = os.path.join(j['base'], 'job.json')
    with open(job, 'w') as f: json.dump(dict(j, scen=scen, trace=trace, timeout=timeout), f)
    so = subprocess.run(['gcc', '-print-file-name=libasan.so'], stdout=subprocess.PIPE, text=True).stdout.strip()
    env = dict(os.environ, LD_PRELOAD=so, PYTHONMALLOC='malloc',
               ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=0:log_path=' + trace + '.asan')
    r = subprocess.run([sys.executable, os.path.abspath(__file__), job], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0: raise RuntimeError('execution failed: ' + r.stdout[-2000:])

def confirm(j, scen, lines, trace, once):
    """a rejection counts if the recorded trace is rejected again; a hang must happen again with much more time"""
    if any('"res": "hang"' in l or '"res": "harness' in l for l in lines):
        lines = once([scen], 45)[0]
    with open(trace, 'w') as f: f.writelines(lines)
    r = validate(trace, j['module'], j['facets'])
    return None if r.ok else mismatches(r.out)

def replay(path):
    with open(path) as f: d = json.load(f)
    if d.get('kind') == 'core':
        base = os.path.join(bf.scratch(), 'replay'); os.makedirs(base)
        trace = os.path.join(base, 't.ndjson')
        ik = lambda m: {int(k): v for k, v in m.items()}
        asan = d.get('asan', False)
        execute(dict(d, comps=ik(d['comps']), attrs=ik(d['attrs']), lib=getlib(d.get('libname', 'serial'), asan), asan=asan, base=base), [d['scenario']], trace, 60)
        r = validate(trace, d['module'], d['facets'])
        print(open(trace).read()[-3000:])
        if r.ok: print('accepted'); return 0
        print(mismatches(r.out)); print('VIOLATION property=%s replay=%s' % (d['property'], path))
        return 1
    mod = __import__(d['property'])
    return mod.replay(d)

if __name__ == '__main__':
    with open(sys.argv[1]) as f: j = json.load(f)
    ik = lambda m: {int(k): v for k, v in m.items()}
    j['comps'], j['attrs'] = ik(j['comps']), ik(j['attrs'])
    execute(dict(j, asan=False), j['scen'], j['trace'], j['timeout'])
