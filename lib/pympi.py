"""Python programs on several ranks (threads that switch in communication calls, see pysim), and a generator of them."""
import os, gc, resource, bf, gen, pygen, pyworld, pysim
from enc import split, norm
from gen import values_for, partners

COLL = ('mfile', 'mrefresh', 'mcreate', 'marr', 'mopen', 'mflush', 'mappend', 'mdsopen', 'msync')
HARD = resource.getrlimit(resource.RLIMIT_NOFILE)

class Local(dict):
    """the objects of one rank under the ids the events use"""

class PyMpiWorld(pyworld.PyWorld):
    def reset(self, nested=()):
        import shutil
        self.drop_all()
        shutil.rmtree(self.root, ignore_errors=True); os.makedirs(self.fbase)
        self.fp = {0: ()}; self.show = set(); self.hazy = set()       # columns that a failed call was about
        self.nfiles, self.lastn = {}, {}
        self.snap = bf.snapshot(self.root)
        self.emit(dict(op='reset', chg=[]))
    def drop_all(self):
        super().drop_all(); self.fr = {}; self.dr = {}

    def op_prog(self, prog):
        n, steps = prog['n'], prog['steps']
        self.n = n; self.blind = [False] * n
        out, coll = [], {}
        def hook(i): resource.setrlimit(resource.RLIMIT_NOFILE, (0 if i is not None and self.blind[i] else HARD[0], HARD[1]))
        def sees():
            hook(None)
            try: return self.changes()
            finally: hook(sim.cur)
        sim = pysim.Sim(n, prog['seed'], prog['pol'], prog.get('strict', False), hook)
        self.busy = None
        def body(r, comm):
            for k, s in enumerate(steps):
                if s['op'] in COLL:
                    if k not in coll: coll[k] = dict(s, n=n, ress=['none'] * n, descs=[None] * n); self.busy = coll[k]
                    ev = coll[k]
                    self.blind[r] = r in s.get('fail', [])
                    hook(r)
                    mine = dict(s)
                    getattr(self, 'c_' + s['op'])(mine, r, comm)
                    self.blind[r] = False; hook(r)
                    ev['ress'][r] = mine['res']; ev['descs'][r] = mine.get('desc')
                    if 'why' in mine: ev['why'] = mine['why']
                    if mine.get('mem', 'ok') != 'ok': ev['mem'] = mine['mem']
                    ev.setdefault('mem', 'ok')
                    if 'chg' not in ev: self.busy = None; self.settled(ev, mine['res']); ev['wrote'] = r == 0; ev['chg'] = sees(); out.append(ev)
                    elif ev['op'] == 'mappend' and r == 0 and mine['res'] == 'ok' and ev['rows']:
                        # the rows are stored when the first rank is back
                        w = dict(op='pywrite', r=0, h=10 * ev['h'], start=mine['desc']['size'] - len(ev['rows']), mdt=ev['mdt'], rows=ev['rows'], left=0, res='ok')
                        w['chg'] = sees(); out.append(w)
                elif s['r'] == r:
                    sim.wait(r)
                    ev = dict(s); self.local(ev, r); ev['chg'] = sees(); out.append(ev)
        why = sim.run(body)
        hook(None)
        for ev in out:
            if ev.get('descs') and None in ev['descs']: del ev['descs']
            self.emit(ev)
        if why:
            stuck = [ev for ev in coll.values() if 'none' in ev['ress']]
            if not stuck: self.emit(dict(op='hang', why=why, chg=[]))
            for ev in stuck:
                if ev not in out: ev['descs'] = []; ev['chg'] = []; ev['stuck'] = why; self.emit(ev)
    def execute(self, op):
        if self.intent is not None: self.intent(op)
        self.op_prog(op)

    def column(self, ev):
        if 'b' in ev: return tuple(ev['b'])
        if ev['op'] == 'mflush': return self.bof.get(10 * ev['h'])
    def changes(self):
        """what a collective call that is under way does to its column is seen when it is done"""
        self.show |= self.hazy
        b = self.busy and self.busy['op'] in ('mcreate', 'marr', 'mappend', 'mflush') and self.column(self.busy)
        if not b: return super().changes()
        d = 'F/' + self.path(b[:-1] if b[-1] == 0 else b); old = self.snap; n = self.nfiles.get(b, 0)
        whole = self.busy['op'] in ('mcreate', 'marr')
        new = bf.snapshot(self.root)
        for f in set(new) | set(old):
            x, name = os.path.split(f)
            if new.get(f) != old.get(f) and os.path.normpath(x) == os.path.normpath(d) and (whole or not bf.DATAFILE.match(name) or int(name, 16) >= n):
                if f in old: new[f] = old[f]
                else: del new[f]
        real = bf.snapshot
        bf.snapshot = lambda root: new
        try: return super().changes()
        finally: bf.snapshot = real
    def settled(self, ev, res):
        """how many files the column of a call has now"""
        if ev.get('fail') and self.column(ev): self.hazy.add(tuple(self.column(ev)))
        if ev['op'] not in ('mcreate', 'marr', 'mappend'): return
        b = tuple(ev['b']); k = self.files_of(ev)
        if res == 'ok': self.nfiles[b] = k
        elif ev['fail']: self.nfiles[b] = max(self.nfiles.get(b, 0), k)
    def files_of(self, ev):
        if ev['b'][-1] == 0: return 0
        if ev['op'] == 'mcreate': return max(ev['nfile'], 0)
        if ev['op'] == 'mappend': return self.onheader(tuple(ev['b']))
        return max(ev['nfile'][0], 0) if ev['nfile'] else 1 if any(ev['parts']) else 0
    def local(self, ev, r):
        if ev['op'] == 'mnames':
            f = self.fr[ev['f'], r]; p = list(self.fp[ev['f']]); how = ev['how']
            x = self.attempt(ev, lambda: list(f) if how == 'iter' else f.blocks if how == 'blocks' else f.keys())
            ev['names'] = []
            for m in x or []:
                t = self.unpath(m); ev['names'].append(p + t if t is not None else [-1])
        elif ev['op'] == 'dsget':
            self.ds[ev['d']] = self.dr[ev['d'], r]; self.op_dsget(ev)
        else: getattr(self, 'op_' + ev['op'])(ev)

    # --- collective calls, on one rank
    hazy = frozenset()
    def c_mfile(self, ev, r, comm):
        p = ev['p']; path = os.path.join(self.fbase, self.path(p)) if p else self.fbase
        if not ev['agree'] and r: path = path + 'x%d' % r
        if ev.get('how') == 'sub':
            up = ev['up']; x = self.attempt(ev, lambda: self.fr[up, r][('/' if ev.get('lead') else '') + self.path(p[len(self.fp[up]):]) + '/'])
        else: x = self.attempt(ev, lambda: self.m.FileMPI(comm, path, create=ev['create']))
        if x is not None: self.fr[ev['f'], r] = x; self.fp[ev['f']] = tuple(p)
    def c_msync(self, ev, r, comm): comm.barrier(); ev['res'] = 'ok'
    def c_mrefresh(self, ev, r, comm): self.attempt(ev, self.fr[ev['f'], r].refresh)
    def took(self, ev, r, c):
        if c is None: return
        h = 10 * ev['h'] + r
        self.h[h] = c; self.bof[h] = tuple(ev['b'])
        if ev['b'][-1] != 0: self.mdesc(ev, h)
    def mdesc(self, ev, h): self.pdesc(ev, h)
    def name(self, ev, r):
        n = self.rel(ev['f'], tuple(ev['b']))
        return n if ev.get('agree', True) or r == 0 else n + 'x%d' % r
    def c_mcreate(self, ev, r, comm):
        f, n, b = self.fr[ev['f'], r], self.name(ev, r), ev['b']
        if b[-1] == 0: fn = lambda: f.create(n)
        else:
            dt = self.np.dtype((ev['dtype'], (ev['nmemb'],))) if ev['nmemb'] != 1 or ev.get('sub') else self.np.dtype(ev['dtype'])
            fn = lambda: f.create(n, dt, ev['size'], ev['nfile'])
        self.took(ev, r, self.attempt(ev, fn))
    def c_marr(self, ev, r, comm):
        rows = ev['parts'][r]
        a, mem = self.lay(self.arr(ev['dtype'], rows, [len(rows)] + ([ev['nmemb']] if ev['nmemb'] != 1 or ev.get('sub') else [])), ev.get('lay', 'c') if rows else 'c')
        m0 = mem.tobytes(); kw = {}
        if 'limit' in ev: kw['memorylimit'] = ev['limit']
        if ev['nfile']: kw['Nfile'] = ev['nfile'][0]
        c = self.attempt(ev, lambda: self.fr[ev['f'], r].create_from_array(self.name(ev, r), a, **kw))
        ev['mem'] = 'ok' if mem.tobytes() == m0 else 'source changed'
        self.took(ev, r, c)
    def c_mopen(self, ev, r, comm):
        f, n = self.fr[ev['f'], r], self.name(ev, r)
        self.took(ev, r, self.attempt(ev, lambda: f[n] if ev.get('how') == 'get' else f.open(n)))
    def c_mflush(self, ev, r, comm):
        h = 10 * ev['h'] + r; c = self.h[h]
        def ctx():
            with c: pass
        def exc():
            try:
                with c: raise KeyError('x')
            except KeyError: pass
        self.attempt(ev, {'flush': c.flush, 'close': c.close, 'with': ctx, 'raise': exc}[ev['how']])
        if self.bof[h][-1] != 0: self.mdesc(ev, h)
    def c_mappend(self, ev, r, comm):
        h = 10 * ev['h'] + r; c = self.h[h]
        ev['left'] = 0
        mine = ev if r == 0 else dict(ev, rows=[])
        mine['nm'] = self.nm(h)
        if r: v = mem = self.np.empty([0] + ([mine['nm']] if mine['nm'] != 1 else []), ev['mdt'])
        else: v, mem = self.value(mine)
        m0 = mem.tobytes()
        kw = {} if ev['nfile'] == 1 else dict(Nfile=ev['nfile'])
        self.attempt(ev, lambda: c.append(v, **kw))
        ev['mem'] = 'ok' if mem.tobytes() == m0 else 'source changed'
        self.mdesc(ev, h)
    def c_mdsopen(self, ev, r, comm):
        names = [self.path(b) for b in ev['cols']]
        x = self.attempt(ev, lambda: self.m.Dataset(self.fr[0, r], names))
        if x is not None: self.dr[ev['d'], r] = x

class MCfg(pygen.PyCfg):
    def __init__(self, **kw):
        super().__init__()
        self.n = None
        self.cols = [(1,), (2,), (3, 1)]
        self.fail = .1
        self.w = dict(create=3, arr=3, open=4, flush=5, drop=2, append=2, refresh=1, file=1, names=5, ds=1, dsget=3,
                      get=8, set=10, read=4, write=10, attrs=4, getattr=3, desc=2)
        self.__dict__.update(kw)

class MGen:
    """programs in which a column is modified through one shared object at a time"""
    def __init__(self, rng, cfg):
        self.r, self.c = rng, cfg
        self.n = cfg.n or rng.choice([1, 2, 2, 3, 4, 5])
        self.steps = []
        self.disk = {}      # b -> (dt, nm, size)
        self.h = {}         # h -> dict(b, dirty, stale)
        self.fo = {0: ()}; self.nh = self.nf = self.nd = 0
        self.ds = {}; self.neg = {}; self.attrs = {}
    def add(self, **op): self.steps.append(op); return op
    def ffor(self, b): return self.r.choice([f for f, p in self.fo.items() if b[:len(p)] == p and len(b) > len(p)])
    def nfile(self, n):
        x = self.r.random()
        if x < .03: return -1
        if n == 0 or x < .06: return self.r.choice([0, 0, 1, 3])
        return self.r.choice([1, 1, 2, 3, 5, n, n + 2])
    def failing(self):
        if self.r.random() > self.c.fail: return []
        x = self.r.random()
        if x < .4: return [self.r.randrange(self.n)]
        if x < .6: return list(range(self.n))
        return sorted(self.r.sample(range(self.n), self.r.randint(1, self.n)))
    def forget(self, b):
        for h in [h for h in self.h if self.h[h]['b'] == b]: self.dropit(h)
        for d in [d for d in self.ds if b in self.ds[d]]: del self.ds[d]
        self.add(op='msync')
    def settle(self, h):
        if self.h[h]['dirty']: self.add(op='mflush', h=h, how=self.r.choice(['flush', 'close', 'with']), fail=[]); self.h[h]['dirty'] = False; self.saved(h)
    def saved(self, h):
        b = self.h[h]['b']
        for k in self.h:
            if k != h and self.h[k]['b'] == b: self.h[k]['stale'] = True
    def dropit(self, h): self.settle(h); [self.add(op='pydrop', r=r, h=10 * h + r) for r in range(self.n)]; del self.h[h]
    def newh(self, b, h): self.h[h] = dict(b=b, dirty=False, stale=False, size=self.disk.get(b, (0, 0, 0))[2])
    def vals(self, n, nm, mdt, dt, b):
        v = values_for(self.r, mdt, dt, not self.neg.get(b, False))
        return [[v() for _ in range(nm)] for _ in range(n)]
    def room(self):
        while len(self.h) >= 4: self.dropit(self.r.choice(sorted(self.h)))

    def g_create(self, b=None, fail=None):
        b = b or self.r.choice(self.c.cols + [(0,)])
        self.room(); self.forget(b)
        dt = self.r.choice(self.c.dtypes); nm = self.r.choice(self.c.nmemb); n = self.r.randint(0, self.c.maxsize); k = self.nfile(n)
        if fail is not None and (k < 0 or (k == 0 and n)): k = 1
        self.nh += 1; f = self.ffor(b)
        again = fail is not None; fail = self.failing() if fail is None else fail
        agree = self.n == 1 or again or bool(fail) or self.r.random() > .03
        self.add(op='mcreate', f=f, h=self.nh, b=list(b), dtype=dt, nmemb=nm, size=n, nfile=k, agree=agree, fail=fail)
        if b[-1] != 0 and (k < 0 or (k == 0 and n)) or not agree: return
        if fail: self.made(b, dt, nm, n); del self.h[self.nh]; return self.g_create(b, [])
        self.made(b, dt, nm, n)
    def made(self, b, dt, nm, n):
        if b[-1] != 0: self.disk[b] = (dt, nm, n); self.neg[b] = dt[1] not in 'ub' and self.r.random() < .5
        self.newh(b, self.nh); self.attrs[b] = set()
    def g_arr(self):
        b = self.r.choice(self.c.cols); self.room(); self.forget(b)
        dt = self.r.choice(self.c.dtypes); nm = self.r.choice(self.c.nmemb)
        top = self.r.choice([1, 3, self.c.maxsize])
        neg = dt[1] not in 'ub' and self.r.random() < .5
        v = values_for(self.r, dt, None, not neg)
        parts = [[[v() for _ in range(nm)] for _ in range(self.r.choice([0, 1, self.r.randint(0, top)]))] for _ in range(self.n)]
        n = sum(map(len, parts)); k = [] if self.r.random() < .4 else [self.nfile(n)]
        self.nh += 1; f = self.ffor(b); fail = self.failing()
        op = self.add(op='marr', f=f, h=self.nh, b=list(b), dtype=dt, nmemb=nm, parts=parts, nfile=k, fail=fail, lay=self.r.choice(self.c.lays))
        if self.r.random() < .7: op['limit'] = self.r.choice([0, 1, 7, 16, 40, 100, 4096])
        if k and (k[0] < 0 or (k[0] == 0 and n)):
            op['fail'] = []; return
        if fail: self.made(b, dt, nm, n); del self.h[self.nh]; return self.g_create(b, [])
        self.made(b, dt, nm, n); self.neg[b] = neg
    def g_open(self):
        b = self.r.choice(self.c.cols + [(0,)]); self.room(); self.nh += 1
        fail = self.failing(); agree = self.n == 1 or self.r.random() > .03
        self.add(op='mopen', f=self.ffor(b), h=self.nh, b=list(b), how=self.r.choice(['get', 'open']), agree=agree, fail=fail)
        if (b in self.disk or b[-1] == 0) and not fail and agree: self.newh(b, self.nh); self.attrs.setdefault(b, set())
    def canmod(self, h):
        x = self.h[h]
        return not x['stale'] and not any(k != h and v['b'] == x['b'] and v['dirty'] for k, v in self.h.items())
    def pick(self, mod=False, col=True):
        hs = [h for h in sorted(self.h) if (not mod or self.canmod(h)) and (not col or self.h[h]['b'][-1] != 0)]
        return self.r.choice(hs) if hs else None
    def g_flush(self):
        h = self.pick(True, False)
        if h is None: return
        fail = self.failing()
        if fail and (0 in fail or self.r.random() < .5):
            self.add(op='mflush', h=h, how=self.r.choice(['flush', 'close']), fail=fail)
            fail = []
        self.add(op='mflush', h=h, how=self.r.choice(['flush', 'close', 'with', 'raise']), fail=[])
        if self.h[h]['dirty']: self.saved(h)
        self.h[h]['dirty'] = False
    def g_drop(self):
        h = self.pick(False, False)
        if h is not None: self.dropit(h)
    def g_append(self):
        h = self.pick(True)
        if h is None: return
        b = self.h[h]['b']; dt, nm, size = self.disk[b]
        n = self.r.choice([0, 1, 2, self.r.randint(0, self.c.maxsize)]); k = max(self.nfile(n), 1)
        mdt = partners(dt, self.r, 0)
        self.add(op='mappend', h=h, b=list(b), mdt=mdt, rows=self.vals(n, nm, mdt, dt, b), nfile=k, lay=self.r.choice(self.c.lays), **{'as': 'rows'})
        self.disk[b] = (dt, nm, size + n); self.h[h]['size'] += n; self.h[h]['dirty'] = n > 0; self.saved(h)
        for d in [d for d in self.ds if b in self.ds[d]]: del self.ds[d]
    def g_refresh(self): self.add(op='mrefresh', f=self.r.choice(sorted(self.fo)), fail=self.failing())
    def g_file(self):
        if len(self.fo) > 4: return
        self.nf += 1
        p = self.r.choice([(), (), (3,)])
        ok = p == () or any(b[:1] == (3,) for b in self.disk)
        fail = self.failing(); agree = self.n == 1 or self.r.random() > .1
        how = 'sub' if p and self.r.random() < .5 and agree else 'open'
        self.add(op='mfile', f=self.nf, p=list(p), how=how, up=0, create=p == () and self.r.random() < .5, agree=agree, fail=fail, lead=self.r.random() < .4)
        if ok and not fail and agree: self.fo[self.nf] = p
    def rank(self): return self.r.randrange(self.n)
    def some(self): return self.r.sample(range(self.n), self.r.randint(1, self.n))
    def g_names(self):
        f = self.r.choice(sorted(self.fo))
        for r in self.some(): self.add(op='mnames', f=f, r=r, how=self.r.choice(['keys', 'iter', 'blocks']))
    def g_desc(self):
        h = self.pick()
        if h: r = self.rank(); self.add(op='pydesc', r=r, h=10 * h + r)
    def ix(self, n):
        x = self.r.random()
        if x < .2: return dict(k='all')
        if x < .3: return dict(k='int', i=self.r.randint(-n - 1, n))
        o = lambda: [self.r.randint(-n - 2, n + 2)] if self.r.random() < .7 else []
        return dict(k='slice', a=o(), o=o(), s=[])
    def g_get(self):
        h = self.pick()
        if h: r = self.rank(); self.add(op='pyget', r=r, h=10 * h + r, ix=self.ix(self.h[h]['size']))
    def g_read(self):
        h = self.pick()
        if h: r = self.rank(); n = self.h[h]['size']; self.add(op='pyread', r=r, h=10 * h + r, start=self.r.randint(0, n), n=self.r.randint(-1, n))
    def spans(self, n):
        """every rank has its part"""
        x = self.r.random()
        if x < .5: return [(n * i // self.n, n * (i + 1) // self.n) for i in range(self.n)]
        cuts = sorted(self.r.randint(0, n) for _ in range(self.n - 1))
        c = [0] + cuts + [n]
        s = [(c[i], c[i + 1]) for i in range(self.n)]
        if x < .8: self.r.shuffle(s)
        return s
    def g_write(self):
        h = self.pick(True)
        if h is None: return
        b = self.h[h]['b']; dt, nm, _ = self.disk[b]; n = self.h[h]['size']
        mdt = partners(dt, self.r, 0)
        s = self.spans(n)
        for r in self.some() if self.r.random() < .4 else range(self.n):
            lo, hi = s[r]
            if lo == hi and self.r.random() < .7: continue
            self.h[h]['dirty'] = self.h[h]['dirty'] or hi > lo
            rows = self.vals(hi - lo, nm, mdt, dt, b)
            self.add(op='pywrite', r=r, h=10 * h + r, start=lo, mdt=mdt, rows=rows, left=0, nm=nm, lay=self.r.choice(self.c.lays) if rows else 'c', **{'as': 'rows'})
        if self.r.random() < .4:
            self.add(op='mflush', h=h, how=self.r.choice(['flush', 'with']), fail=[])
            if self.h[h]['dirty']: self.saved(h)
            self.h[h]['dirty'] = False
    def g_set(self):
        h = self.pick(True)
        if h is None: return
        b = self.h[h]['b']; dt, nm, _ = self.disk[b]; n = self.h[h]['size']; r = self.rank()
        lo = self.r.randint(0, n); hi = self.r.randint(lo, n)
        mdt = partners(dt, self.r, 0)
        self.h[h]['dirty'] = self.h[h]['dirty'] or hi > lo
        rows = self.vals(hi - lo, nm, mdt, dt, b)
        self.add(op='pyset', r=r, h=10 * h + r, ix=dict(k='slice', a=[lo], o=[hi], s=[]), mdt=mdt, rows=rows, left=0, nm=nm, lay=self.r.choice(self.c.lays) if rows else 'c', **{'as': 'rows'})
    def g_attrs(self):
        h = self.pick(True, False)
        if h is None: return
        b = self.h[h]['b']
        name = self.r.choice(self.c.attrs)
        who = range(self.n) if self.r.random() < .7 else [0]
        self.h[h]['dirty'] = True
        if name in self.attrs[b] and self.r.random() < .3:
            for r in who: self.add(op='pydelattr', r=r, h=10 * h + r, name=name)
            self.attrs[b].discard(name); return
        x = self.r.random(); op = {}
        if x < .4: v = dict(k='str', s=list(self.r.choice(pygen.TEXTS).encode()))
        elif x < .6: v = dict(k='strs', l=[list(self.r.choice(pygen.WORDS).encode()) for _ in range(self.r.randint(1, 3))]); op['as'] = 'list'
        else:
            dt = self.r.choice(['<i4', '>f8', '<u2']); k = self.r.choice([0, 1, 3]); v = dict(k='arr', dt=dt, n=k, raw=[self.r.choice([0, 1, 255, 10]) for _ in range(k * split(dt)[2])]); op['as'] = 'array'
        for r in who: self.add(op='pysetattr', r=r, h=10 * h + r, name=name, badname=False, v=v, **op)
        self.attrs[b].add(name)
    def g_getattr(self):
        h = self.pick(False, False)
        if h is None: return
        r = self.rank(); ns = self.c.attrs
        if self.r.random() < .3: self.add(op='pyattrs', r=r, h=10 * h + r, how='keys', ask=self.r.sample(ns, min(2, len(ns))))
        else: self.add(op='pygetattr', r=r, h=10 * h + r, name=self.r.choice(ns))
    def g_ds(self):
        cs = sorted(self.disk)
        if not cs: return
        b0 = self.r.choice(cs); cols = [b for b in cs if self.disk[b][2] == self.disk[b0][2]]
        cols = self.r.sample(cols, self.r.randint(1, len(cols)))
        self.nd += 1
        fail = self.failing()
        self.add(op='mdsopen', d=self.nd, cols=[list(b) for b in cols], fail=fail)
        if not fail: self.ds[self.nd] = cols
    def g_dsget(self):
        if not self.ds: return
        d = self.r.choice(sorted(self.ds)); cols = self.ds[d]; r = self.rank()
        self.add(op='dsget', r=r, d=d, cols=[list(c) for c in cols], form=['all'], ix=self.ix(self.disk[cols[0]][2]))
    def run(self):
        self.add(op='mfile', f=0, p=[], how='open', up=0, create=self.r.random() < .5, agree=True, fail=[])
        ws = sorted(self.c.w.items())
        while len(self.steps) < self.c.nops:
            k = self.r.choices([a for a, _ in ws], [b for _, b in ws])[0]
            if not self.disk and k not in ('create', 'arr'): continue
            getattr(self, 'g_' + k)()
        for h in sorted(self.h): self.dropit(h)
        return prog(self.r, self.n, self.steps)

def prog(rng, n, steps):
    return dict(ops=[dict(op='prog', n=n, seed=rng.randrange(1 << 30), pol=rng.choice(['random', 'random', 'low', 'high', 'rootlast', 'sticky']), strict=rng.random() < .3, steps=steps)])
