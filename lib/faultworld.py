"""Histories in which one operating-system operation of one call fails, is cut short, or is the
last of the process.  The failures are placed by harness/vfs.c."""
import ctypes as C, os, random, bf
from bf import Bad, dlen, chunk
from enc import split, dec, GARB
TORN = 99997

FAIL, CUT, KILLB, KILLA, KILLP, SHORT = 1, 2, 3, 4, 5, 6
ENOSPC, EIO, EACCES, EMFILE, EINTR, ENOENT = 28, 5, 13, 24, 4, 2
TARGETS = {'create', 'open', 'close', 'flush', 'grow', 'write', 'read', 'readsimple', 'list'}

XFER = ('write', 'read', 'cwrite', 'cread')

class FaultWorld(bf.World):
    def __init__(self, lib, *a, **k):
        super().__init__(lib, *a, **k)
        lib.vfs_arm.argtypes = [C.c_long, C.c_int, C.c_int]; lib.vfs_disarm.restype = C.c_long
        lib.vfs_kinds.restype = C.c_char_p; lib.vfs_fired.restype = C.c_int
    def reset(self, nested=()):
        self.known, self.weak, self.dirty, self.force = {}, set(), set(), set()
        self.nh = 10000
        super().reset(nested)
    def rows(self, b, i, data, dt, nmemb):
        w = split(dt)[2]; rb = w * nmemb
        if data is None: return []
        if rb == 0: return []
        data = data if isinstance(data, bytes) else chunk(data, 0, dlen(data))
        part = len(data) % rb
        full = data[:len(data) - part]
        r = super().rows(b, i, full, dt, nmemb)
        return r + [[TORN] * nmemb] if part else r
    def readable(self, d, snap):
        """when the description is damaged, the last good one is used to look at the data"""
        ev = super().readable(d, snap)
        b = tuple(ev['b'])
        if b and b[-1] == 0 and b[:-1] in self.weak: return dict(b=list(b[:-1]), bad='no header')
        if 'bad' not in ev:
            # an unfinished description has fewer lines: it parses only if it is complete
            if b in self.weak: self.known.setdefault(b, (ev['dtype'], ev['nmemb'], ev['fsize'], ev['sum'], ev['attrs']))
            else: self.known[b] = (ev['dtype'], ev['nmemb'], ev['fsize'], ev['sum'], ev['attrs'])
            if b not in self.weak: return ev
        if b not in self.weak: return ev
        if b not in self.known:
            if b[-1] != 0: return ev
            self.known[b] = ('####', 0, [], [], [])
        dt, nm, fs, sm, at = self.known[b]
        N = max(self.nfiles.get(b, 0), len(fs)) if dt != '####' else 0
        return dict(b=list(b), dtype=dt, nmemb=nm, fsize=fs, sum=sm, attrs=at,
                    data=[self.rows(b, i, snap.get('%s/%06X' % (d, i)), dt, nm) for i in range(N)])
    def settled(self, b):
        """a successful save ends the doubt: the column is looked at even if nothing changed"""
        if b in self.weak:
            self.weak.discard(b)
            self.force.add(b)
    def changes(self):
        chg = super().changes()
        have = {tuple(c['b']) for c in chg}
        for b in self.force - have:
            d = 'F/' + self.path(b) if b != (0,) else 'F'
            d = d[:-2] if d.endswith('/.') else d
            if d + '/header' in self.snap or d + '/attr-v2' in self.snap: chg.append(self.readable(d, self.snap))
        self.force = set()
        return chg
    def execute(self, op):
        L = self.L
        if op['op'] == 'survey': return self.survey()
        if op['op'] == 'die':
            self.drop_all(); self.dirty.clear()
            ev = dict(op='crash', inner=dict(op='nop'), res='killed', chg=self.changes())
            self.last = ev
            return self.emit(ev)
        if op['op'] == 'seekback': op = dict(op='seek', h=op['h'], off=self.mark)
        if op['op'] == 'again':
            if self.last['res'] != 'err' or not self.last.get('fired'): return
            if self.last['op'] in XFER: self.execute(dict(op='seek', h=op['inner']['h'], off=self.mark))
            op = op['inner']
        if 'h' in op and op['op'] not in ('open', 'create') and op['h'] not in self.h: return     # its column is gone
        b = tuple(op['b']) if op['op'] in ('create', 'open') else self.bof.get(op.get('h'))
        if 'fault' not in op:
            if op['op'] == 'open' and b in self.weak: return self.tryopen(op)
            if self.intent is not None: self.intent(op)
            ev = dict(op)
            getattr(self, 'op_' + op['op'])(ev)
            return self.done(op, ev, b)
        if self.intent is not None: self.intent(op)
        k, m, err = op['fault']
        if op['op'] in XFER: self.mark = L.vs_pos(self.h[op['h']])
        if m in (KILLB, KILLA, KILLP): return self.kill(op, b)
        ev = dict(op)
        L.vfs_arm(k, m, err)
        try: getattr(self, 'op_' + op['op'])(ev)
        finally:
            ev['nops'] = L.vfs_disarm()
        f = L.vfs_fired()
        ev['fired'] = f != 0
        ev['kinds'] = L.vfs_kinds().decode()
        if ev['res'] == 'err' and ev['fired']:
            if op['op'] in ('flush', 'close') and op['h'] in self.dirty: self.weak.add(b)
            if op['op'] == 'create': self.nfiles[b] = max(self.nfiles.get(b, 0), len(op['fsize'])); self.weak.add(b); self.h.pop(op['h'], None)
        return self.done(op, ev, b)
    def done(self, op, ev, b):
        if ev['res'] == 'ok':
            if op['op'] in ('flush', 'close') and op['h'] in self.dirty: self.settled(b)
            if op['op'] == 'create': self.weak.discard(b); self.known.pop(b, None); self.force.add(b)
        self.touched(op, 'ok' if op['op'] in ('write', 'cwrite', 'grow') and ev.get('fired') else ev['res'])
        if 'chg' not in ev: ev['chg'] = self.changes()
        self.emit(ev)
        self.last = ev
        return ev
    def touched(self, op, res):
        """which handles have something to save"""
        if res != 'ok': return
        if op['op'] in ('grow', 'setattr', 'rmattr') or op['op'] == 'write' and op['rows']: self.dirty.add(op['h'])
        if op['op'] in ('flush', 'close', 'drop', 'open', 'create'): self.dirty.discard(op['h'])
    def kill(self, op, b):
        L = self.L; k, m, err = op['fault']
        if op['op'] == 'grow': n = L.vs_Nfile(self.h[op['h']]) + len(op['fsize'])
        pid = os.fork()
        if pid == 0:
            try:
                L.vfs_arm(k, m, err)
                getattr(self, 'op_' + op['op'])(dict(op))
            except BaseException: os._exit(98)
            os._exit(97)
        _, st = os.waitpid(pid, 0)
        code = os.WEXITSTATUS(st) if os.WIFEXITED(st) else -1
        inner = {a: v for a, v in op.items() if a != 'fault'}
        ev = dict(op='crash', inner=inner, fault=op['fault'], res='killed' if code in (99, 97) else 'died of signal %d' % os.WTERMSIG(st) if code < 0 else 'exit %d' % code)
        if op['op'] == 'create' or op['op'] in ('flush', 'close') and op['h'] in self.dirty: self.weak.add(b)
        if op['op'] == 'create' and b[-1] != 0: self.nfiles[b] = max(self.nfiles.get(b, 0), len(op['fsize']))
        if op['op'] == 'grow': self.nfiles[b] = max(n, self.nfiles.get(b, 0))
        self.drop_all(); self.dirty.clear()
        ev['chg'] = self.changes()
        self.emit(ev)
        self.last = ev
        return ev
    def tryopen(self, op):
        h = self.L.vs_h_new()
        rt = self.L.vs_open(self.f, h, os.fsencode(self.path(tuple(op['b']))))
        ev = dict(op='tryopen', b=op['b'], got=rt)
        ev['chg'] = self.changes()
        self.emit(ev)
    def survey(self):
        """a fresh look at everything: every column opened, described, its attributes and rows read"""
        for d in sorted({os.path.dirname(f) for f in self.snap if f.endswith('/header')}):
            b = self.unpath(d[2:])
            if b is None: continue
            self.nh += 1; h = self.nh
            self.execute(dict(op='open', b=b, h=h))
            if h not in self.h: continue
            self.execute(dict(op='lsattr', h=h))
            n = self.L.vs_size(self.h[h])
            for st, k in ((0, n), (0, n // 2), (n // 2, n)):
                self.execute(dict(op='readsimple', h=h, start=st, n=k, mdt=self.L.vs_dtype(self.h[h]).decode()))
            self.execute(dict(op='close', h=h))
        self.execute(dict(op='list', p=[]))

class CountWorld(FaultWorld):
    """how many operations each call takes, and which"""
    def execute(self, op):
        if self.intent is not None: self.intent(op)
        ev = dict(op)
        self.L.vfs_arm(-1, 0, 0)
        getattr(self, 'op_' + op['op'])(ev)
        n = self.L.vfs_disarm()
        self.emit(dict(op=op['op'], n=n, kinds=self.L.vfs_kinds().decode(), res=ev.get('res')))

def counts(ck, scen, lib, comps, attrs, world=CountWorld):
    """for every scenario the operations of each of its calls"""
    import multiprocessing, checklib
    parts = [scen[i::8] for i in range(8)]
    jobs = [(lib, p, os.path.join(ck.scratch, 'cnt%d' % i), comps, attrs, world) for i, p in enumerate(parts)]
    with multiprocessing.get_context('fork').Pool(8) as pool: res = pool.map(_count, jobs)
    out = [None] * len(scen)
    for i, r in enumerate(res):
        for k, x in enumerate(r): out[i + 8 * k] = x
    return out
def _count(j):
    import json
    lib, scen, base, comps, attrs, world = j
    os.makedirs(base, exist_ok=True)
    bf.run_scenarios(lib, scen, base + '/t', comps, attrs, worldcls=world, base=base)
    out = []
    for l in open(base + '/t'):
        e = json.loads(l)
        if e['op'] == 'reset': out.append([])
        else: out[-1].append(e.get('kinds', ''))
    return out

def place(ck, scen, cnt, rng, limit, modes, cont, targets=TARGETS, per=4):
    """scenarios with one failure each"""
    out = []
    cand = [(i, t) for i, c in enumerate(cnt) for t in range(len(c or [])) if c[t] and scen[i]['ops'][t]['op'] in targets]
    rng.shuffle(cand)
    # every kind of call and operation gets its share
    groups = {}
    for i, t in cand: groups.setdefault((scen[i]['ops'][t]['op'], cnt[i][t][:6]), []).append((i, t))
    order = []
    while any(groups.values()):
        for g in list(groups):
            if groups[g]: order.append(groups[g].pop())
    for i, t in order:
        ks = cnt[i][t]; ops = scen[i]['ops']
        for k in rng.sample(range(len(ks)), min(per, len(ks))):
            for m in modes(ks[k], rng):
                o = dict(ops[t], fault=[k, m, rng.choice([ENOSPC, EIO, EACCES, EMFILE] if ks[k] not in 'MD' else [ENOSPC, EIO])])
                out.append(dict(ops=ops[:t] + [o] + cont(ops, t, m, rng)))
        if len(out) >= limit: break
    return out
