"""The collective library on simulated ranks (harness/simpi.c): the same calls as bf.World, made
by all ranks together; every rank's result, message, position and description is recorded."""
import ctypes as C, os, signal, bf
from bf import SZ, PD, View, layout
from faultworld import FaultWorld, CountWorld
from recworld import RecWorld
from enc import enc, dec, split

class Call(C.Structure):
    _fields_ = [(n, C.c_int) for n in ('op', 'null', 'conc', 'nmemb', 'nfile', 'ndim')] + \
        [('f', C.c_void_p), ('h', C.c_void_p), ('name', C.c_char_p), ('dtype', C.c_char_p), ('mode', C.c_char_p),
         ('fsize', C.c_void_p), ('size', SZ), ('buf', C.c_void_p), ('dims', C.c_void_p), ('strides', C.c_void_p), ('off', PD), ('rt', C.c_void_p)] + \
        [(n, C.c_void_p) for n in 'abcd'] + [('out', C.c_void_p), ('res', C.c_int), ('rank', C.c_int), ('msg', C.c_char * 600)]
OPS = dict((n, i) for i, n in enumerate('FOPEN FCREATE FCLOSE OPEN CREATE CREATE_EVEN GROW GROW_EVEN FLUSH CLOSE WRITE READ RECCREATE RECWRITE RECREAD LWRITE LREAD ALLTOALLV GATHER SCATTER GETLOC BYTES'.split()))

def even(size, n): return [size * (i + 1) // n - size * i // n for i in range(n)]

class CollWorld(FaultWorld, RecWorld):
    def __init__(self, lib, *a, **k):
        super().__init__(lib, *a, **k)
        lib.vs_mpi.argtypes = [C.c_int, C.c_void_p, C.c_ulong, C.c_int, C.c_int]
        lib.vs_threshold.argtypes = [SZ]; lib.vs_wrote.restype = C.c_long
        assert lib.vs_call_size() == C.sizeof(Call)
        self.P, self.sched, self.extra = 2, [0, 0], 0
        self.cf = None
        lib.vs_threshold(0)
    def reset(self, nested=()):
        self.hs = {}
        self.P, self.sched, self.extra, self.calls = 2, [0, 0], 0, 0
        self.L.vs_threshold(0)
        super().reset(nested)
        self.cf = None
    def drop_all(self):
        super().drop_all(); self.hs = {}
    def opened(self):
        """the open file of every rank"""
        if self.cf is None or len(self.cf) < self.P + self.extra:
            self.cf = [self.L.vs_file_new() for _ in range(self.P + self.extra)]
            for c in self.run('FOPEN', None, lambda r, c: (setattr(c, 'f', self.cf[r]), setattr(c, 'name', os.fsencode(self.fbase)))):
                assert c.null or c.res == 0, c.msg
        return self.cf
    # the ranks of the communicator are not the first ones: those outside come first and last
    def isnull(self, r): return self.extra > 0 and (r == 0 or self.extra == 2 and r == self.P + 1)
    def world(self): return self.P + self.extra
    def ranks(self): return [r for r in range(self.world()) if not self.isnull(r)]

    def run(self, op, ev, fill, keep=None):
        n = self.world()
        calls = (Call * n)()
        for r in range(n):
            calls[r].op = OPS[op]; calls[r].null = self.isnull(r)
            fill(r, calls[r])
        self.calls += 1
        seed, pol = self.sched
        rt = self.L.vs_mpi(n, calls, seed * 1000 + self.calls, pol, self.calls % 3 == 0)
        if rt != 0:             # the ranks wait for each other: told as a hang
            signal.alarm(0)
            os.kill(os.getpid(), signal.SIGALRM); signal.pause()
        self.last_calls = calls
        if ev is not None: self.agree(ev, calls)
        return calls
    def agree(self, ev, calls):
        rs = []
        for r in self.ranks():
            c = calls[r]
            d = dict(res='ok' if c.res == 0 else 'err')
            if c.res != 0:
                m = c.msg
                d['msg'] = 'none' if not m else 'stale' if m.startswith(b'stale message') else m.decode('latin1')
            rs.append(d)
        ev['ranks'] = rs
        ev['null'] = ['ok' if calls[r].res == 0 else 'err' for r in range(self.world()) if self.isnull(r)]
        ev['res'] = rs[0]['res']
        if ev['res'] == 'err' and rs[0]['msg'] in ('none',): ev['msg'] = 'none'
    def look(self, ev, h, pos=True, desc=False, attrs=False):
        """what every rank knows of a handle afterwards"""
        for d, p in zip(ev['ranks'], self.hs[h]):
            if pos:
                a, b = self.L.vs_pos(p), self.L.vs_aoff(p)
                d['pos'] = a if a == b else -7
            if desc:
                t = dict(h=h); b = self.bof.get(h, ())
                self.bof.setdefault(h, b)
                self.desc(t, p); d['desc'] = t['desc']
            if attrs:
                save = self.h.get(h); self.h[h] = p
                x = dict(h=h); bf.World.op_lsattr(self, x); d['attrs'] = x['attrs']
                self.h[h] = save
    def op_nop(self, ev):
        if 'P' in ev: self.P, self.extra, self.sched = ev['P'], ev.get('extra', 0), ev.get('sched', [0, 0]); self.cf = None
        if 'thr' in ev: self.L.vs_threshold(ev['thr'])
        super().op_nop(ev)

    # --- blocks
    def handles(self): return [self.L.vs_h_new() for _ in range(self.P)]
    def rk(self, r): return self.ranks().index(r)
    def op_create(self, ev):
        hs = self.handles(); b = tuple(ev['b']); fs = ev['fsize']
        arr = (SZ * max(1, len(fs)))(*fs)
        name = os.fsencode(ev.get('text') or self.apiname(b))
        self.bof[ev['h']] = b
        before = self.nfiles.get(b, 0)
        self.nfiles[b] = max(before, len(fs)) if b[-1] != 0 else 0
        F = self.opened()
        ev_even = len(fs) > 0 and even(sum(fs), len(fs)) == fs
        ev['even'] = ev_even
        def fill(r, c):
            c.f = F[r]; c.name = name; c.dtype = ev['dtype'].encode(); c.nmemb = ev['nmemb']; c.nfile = len(fs); c.fsize = C.addressof(arr); c.size = sum(fs)
            if not self.isnull(r): c.h = hs[self.rk(r)]
            else: c.h = self.L.vs_h_new()
        self.run('CREATE_EVEN' if ev_even else 'CREATE', ev, fill)
        if ev['res'] == 'ok':
            self.h[ev['h']] = hs[0]; self.hs[ev['h']] = hs
            self.nfiles[b] = len(fs)
            self.desc(ev, hs[0]); self.look(ev, ev['h'], True, True, True)
        else:
            self.nfiles[b] = before
            self.bof.pop(ev['h'], None)
    def op_open(self, ev):
        hs = self.handles(); b = tuple(ev['b']); F = self.opened()
        name = os.fsencode(ev.get('text') or self.apiname(b))
        def fill(r, c):
            c.f = F[r]; c.name = name
            c.h = self.L.vs_h_new() if self.isnull(r) else hs[self.rk(r)]
        self.run('OPEN', ev, fill)
        if ev['res'] == 'ok':
            self.h[ev['h']] = hs[0]; self.hs[ev['h']] = hs; self.bof[ev['h']] = b
            self.desc(ev, hs[0]); self.look(ev, ev['h'], True, True, True)
    def each(self, op, ev, more=None):
        hs = self.hs[ev['h']]
        def fill(r, c):
            if self.isnull(r): c.h = self.L.vs_h_new()
            else: c.h = hs[self.rk(r)]
            if more: more(r, c)
        return self.run(op, ev, fill)
    def op_flush(self, ev):
        self.each('FLUSH', ev)
        self.look(ev, ev['h'], True, True, ev['res'] == 'ok')
    def op_close(self, ev):
        self.each('CLOSE', ev)
        for p in self.hs.pop(ev['h']): self.L.vs_free(p)
        self.h.pop(ev['h']); self.bof.pop(ev['h'], None)
    def op_drop(self, ev):
        self.hs.pop(ev['h'], None); super().op_drop(ev)
    def op_grow(self, ev):
        h = self.h[ev['h']]; b = self.bof[ev['h']]; fs = ev['fsize']
        base = self.L.vs_Nfile(h)
        arr = (SZ * max(1, len(fs)))(*fs)
        self.nfiles[b] = max(self.nfiles.get(b, 0), base + len(fs))
        e = len(fs) > 0 and even(sum(fs), len(fs)) == fs
        def more(r, c): c.nfile = len(fs); c.fsize = C.addressof(arr); c.size = sum(fs)
        self.each('GROW_EVEN' if e else 'GROW', ev, more)
        self.desc(ev, h); self.look(ev, ev['h'], True, True, ev['res'] == 'ok')
    def local(self, ev, f):
        """a call every rank makes by itself"""
        rs = []
        for p in self.hs[ev['h']]:
            x = dict(ev); save = self.h[ev['h']]
            self.h[ev['h']] = p
            try: f(x)
            finally: self.h[ev['h']] = save
            rs.append(x)
        for k in ('res', 'pos', 'eof', 'msg', 'mem', 'raw', 'found', 'dt', 'n', 'attrs'):
            if k in rs[0]: ev[k] = rs[0][k]
        ev['ranks'] = [{k: x[k] for k in ('res', 'pos', 'eof', 'raw', 'found', 'dt', 'n', 'attrs') if k in x} for x in rs]
    def op_seek(self, ev): self.local(ev, super().op_seek)
    def op_seekrel(self, ev): self.local(ev, super().op_seekrel)
    def op_eof(self, ev): self.local(ev, super().op_eof)
    def op_setattr(self, ev): self.local(ev, super().op_setattr)
    def op_rmattr(self, ev): self.local(ev, super().op_rmattr)
    def op_getattr(self, ev): self.local(ev, super().op_getattr)
    def op_lookup(self, ev): self.local(ev, super().op_lookup)
    def op_lsattr(self, ev): self.local(ev, super().op_lsattr)

    # --- data: parts = [{mdt, rows | n, lay}], one for every rank
    def views(self, ev, write):
        nm = ev.get('nm') or self.L.vs_nmemb(self.h[ev['h']]) or 1
        vs = []
        for p in ev['parts']:
            n = len(p['rows']) if write else p['n']
            dims, st = layout(p['mdt'], n, nm, p.get('lay', 'c'))
            v = View(p['mdt'], dims, st)
            if write: v.fill([x for r in p['rows'] for x in r])
            else: v.before = v.buf.raw
            vs.append(v)
        return nm, vs
    def data(self, op, ev, vs):
        args = [v.cargs() for v in vs]
        hs = self.hs[ev['h']]; keep = []
        dummy = View('<i4', [0, 1], None); dummy.before = dummy.buf.raw
        def fill(r, c):
            null = self.isnull(r)
            k = None if null else self.rk(r)
            a, n, d, s = dummy.cargs() if null else args[k]
            c.h = self.L.vs_h_new() if null else hs[k]
            c.buf, c.ndim, c.dims, c.strides = a, n, C.addressof(d), C.addressof(s) if s is not None else None
            keep.append((d, s))
            c.dtype = b'<i4' if null else ev['parts'][k]['mdt'].encode()
            c.conc = ev.get('conc', 0)
            if 'off' in ev: c.off = 0 if null else ev['parts'][k]['at']
        self.run(op, ev, fill)
        ev['maxopen'] = self.L.vs_maxheld()
    def op_cwrite(self, ev):
        nm, vs = self.views(ev, True)
        self.data('WRITE', ev, vs)
        ev['wrote'] = self.L.vs_wrote()
        self.look(ev, ev['h'])
        ev['pos'] = ev['ranks'][0]['pos']
        ev['mem'] = 'ok' if all(v.same() for v in vs) else 'source changed'
    def op_cread(self, ev):
        nm, vs = self.views(ev, False)
        self.data('READ', ev, vs)
        self.look(ev, ev['h'])
        ev['pos'] = ev['ranks'][0]['pos']
        if ev['res'] == 'ok':
            ev['got'] = []
            for v in vs:
                x = v.values(); ev['got'].append([x[i:i + nm] for i in range(0, len(x), nm)])
        ev['mem'] = 'ok' if all(v.outside_ok() for v in vs) else 'outside of view changed'
    # every rank by itself, at the same time
    def op_lwrite(self, ev):
        nm, vs = self.views(ev, True)
        ev['off'] = 1
        self.data('LWRITE', ev, vs)
        self.look(ev, ev['h'])
        ev['mem'] = 'ok' if all(v.same() for v in vs) else 'source changed'
    def op_lread(self, ev):
        nm, vs = self.views(ev, False)
        ev['off'] = 1
        self.data('LREAD', ev, vs)
        self.look(ev, ev['h'])
        ev['got'] = []
        for v in vs:
            x = v.values(); ev['got'].append([x[i:i + nm] for i in range(0, len(x), nm)])
        ev['mem'] = 'ok' if all(v.outside_ok() for v in vs) else 'outside of view changed'

    # --- the file itself
    def op_cfile(self, ev):
        path = dict(there=self.fbase, absent=self.fbase + '/none/x', blocked=os.path.join(self.root, 'plain', 'x'), new=os.path.join(self.root, 'N%d' % self.calls, 'y'))[ev['kind']]
        if ev['kind'] == 'blocked':
            with open(os.path.join(self.root, 'plain'), 'w') as f: f.write('x')
        self.snap = bf.snapshot(self.root)
        fs = [self.L.vs_file_new() for _ in range(self.world())]
        def fill(r, c): c.f = fs[r]; c.name = os.fsencode(path)
        self.run('FOPEN' if ev['mode'] == 'open' else 'FCREATE', ev, fill)
        ev['isdir'] = os.path.isdir(path)
        if ev['res'] == 'ok':
            t = {}
            self.run('FCLOSE', t, fill); ev['closed'] = [d['res'] for d in t['ranks']]

    # --- records: ns rows on every rank
    def op_reccreate(self, ev):
        rs = [self.rt(ev) for _ in range(self.P)]; fs = ev['fsize']
        before = dict(self.nfiles)
        for f in ev['rt']:
            b = tuple(f['b'])
            if ev['mode'] == 'w+': self.nfiles[b] = len(fs)
            elif b in before: self.nfiles[b] = max(before[b], self.onheader(b) + len(fs))
        arr = (SZ * max(1, len(fs)))(*fs)
        F = self.opened(); nullrt = self.rt(dict(ev)) if self.extra else None
        def fill(r, c):
            c.f = F[r]; c.rt = nullrt if self.isnull(r) else rs[self.rk(r)]; c.mode = ev['mode'].encode(); c.nfile = len(fs); c.fsize = C.addressof(arr)
        self.run('RECCREATE', ev, fill)
        if ev['res'] != 'ok':
            for f in ev['rt']:
                b = tuple(f['b']); self.nfiles[b] = self.onheader(b)
                if b in before: self.nfiles[b] = max(self.nfiles.get(b, 0), before[b])
    def recbufs(self, ev, write):
        fs = ev['rt']; off, item = self.packed(fs); pad = 24
        bufs, at = [], 0
        for n in ev['ns']:
            buf = C.create_string_buffer(b'\xee' * (n * item + 2 * pad), n * item + 2 * pad)
            if write:
                for i, f in enumerate(fs):
                    for k in range(n):
                        s = b''.join(enc(f['dtype'], v) for v in ev['vals'][i][at + k])
                        o = pad + k * item + off[i]
                        buf[o:o + len(s)] = s
            at += n; bufs.append(buf)
        return bufs, off, item, pad
    def rectransfer(self, op, ev, bufs, pad):
        rs = [self.rt(ev) for _ in range(self.P)]; F = self.opened(); nullrt = self.rt(dict(ev)) if self.extra else None
        def fill(r, c):
            c.f = F[r]; c.off = ev['off']; c.conc = ev.get('conc', 0)
            if self.isnull(r): c.rt = nullrt; c.size = 0; c.buf = C.addressof(bufs[0])
            else:
                k = self.rk(r); c.rt = rs[k]; c.size = ev['ns'][k]; c.buf = C.addressof(bufs[k]) + pad
        self.run(op, ev, fill)
        ev['maxopen'] = self.L.vs_maxheld()
    def op_recwrite(self, ev):
        bufs, off, item, pad = self.recbufs(ev, True)
        before = [b.raw for b in bufs]
        self.rectransfer('RECWRITE', ev, bufs, pad)
        ev['mem'] = 'ok' if before == [b.raw for b in bufs] else 'source changed'
    def op_recread(self, ev):
        bufs, off, item, pad = self.recbufs(ev, False)
        self.rectransfer('RECREAD', ev, bufs, pad)
        fs = ev['rt']
        if ev['res'] == 'ok':
            ev['vals'] = []
            for i, f in enumerate(fs):
                w = split(f['dtype'])[2]; col = []
                for buf, n in zip(bufs, ev['ns']):
                    for k in range(n):
                        o = pad + k * item + off[i]; s = buf.raw[o:o + w * f['nmemb']]
                        col.append([dec(f['dtype'], s[j:j + w]) for j in range(0, len(s), w)])
                ev['vals'].append(col)
        ev['mem'] = 'ok' if all(b.raw[:pad] == b'\xee' * pad and b.raw[-pad:] == b'\xee' * pad for b in bufs) else 'outside changed'
    def kill(self, op, b): raise NotImplementedError
    # weakness bookkeeping of FaultWorld knows the serial names
    def touched(self, op, res):
        if res == 'ok' and op['op'] in ('cwrite', 'lwrite') and any(p['rows'] for p in op['parts']): self.dirty.add(op['h'])
        else: super().touched(op, res)

class CollCount(CollWorld):
    execute = CountWorld.execute
