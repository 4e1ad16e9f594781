"""The exchange helpers on simulated ranks."""
import ctypes as C, os, signal, struct, bf
from bf import SZ
from collworld import CollWorld, OPS
I = C.c_int

class ExchWorld(CollWorld):
    def reset(self, nested=()):
        self.calls = 0
        self.emit(dict(op='reset'))
    def execute(self, op):
        if self.intent is not None: self.intent(op)
        ev = dict(op, ranks=[dict(r) for r in op['ranks']], res='ok')
        self.P, self.extra, self.sched = len(op['ranks']), 0, op['sched']
        self.keep = []
        getattr(self, 'x_' + op['op'])(ev)
        self.emit(ev)
    def go(self, op, fill):
        return self.run(op, None, fill)
    # an item is its number in the first bytes (as many as there are), then a pattern that depends on it
    def items(self, xs, el):
        return b''.join(struct.pack('<i', x)[:el] + bytes((x * 7 + k) & 255 for k in range(4, el)) for x in xs)
    def values(self, raw, el):
        out = []
        for i in range(0, len(raw), el):
            s = raw[i:i + el]
            if s == b'\xee' * el: out.append(-1); continue
            x = struct.unpack('<i', s[:4].ljust(4, b'\0'))[0]
            out.append(x if s == self.items([x], el) else -2)
        return out
    def buf(self, xs, el):
        s = self.items(xs, el); b = C.create_string_buffer(s + b'\xdd' * 8, len(s) + 8); self.keep.append(b); return b
    def room(self, n, el):
        b = C.create_string_buffer(b'\xee' * (n * el) + b'\xdd' * 8, n * el + 8); self.keep.append(b); return b
    def ints(self, xs):
        a = (I * max(1, len(xs)))(*xs); self.keep.append(a); return C.addressof(a), a
    def x_alltoallv(self, ev):
        n = self.P; el = ev['el']; rs = ev['ranks']
        send = [self.buf(r['send'], el) for r in rs]; before = [b.raw for b in send]
        recv = [self.room(r['len'], el) for r in rs]
        def fill(r, c):
            x = rs[r]
            c.size = el; c.conc = ev['policy']; c.buf = C.addressof(send[r])
            c.a = self.ints(x['cnt'])[0]
            c.b = self.ints(x['sd'])[0] if 'sd' in x else None
            c.c = self.ints([rs[s]['cnt'][r] for s in range(n)])[0] if ev['rc'] else None
            c.d = self.ints(x['rd'])[0] if 'rd' in x else None
            c.out = None if ev['ask'] else C.addressof(recv[r])
        calls = self.go('ALLTOALLV', fill)
        for r in range(n):
            rs[r]['ret'] = calls[r].res
            rs[r]['kept'] = send[r].raw == before[r]
            rs[r]['got'] = self.values(recv[r].raw[:-8], el)
            if recv[r].raw[-8:] != b'\xdd' * 8: ev['res'] = 'overrun'
    def finish(self, ev, calls, given, tot, full):
        el = ev['el']
        for r, x in enumerate(ev['ranks']):
            out = calls[r].out
            x['place'] = given[r] is None or out == C.addressof(given[r])
            if given[r] is not None: raw = given[r].raw[:-8]
            else: raw = C.string_at(out, full[r] * el) if out and full[r] else b''
            if given[r] is not None and given[r].raw[-8:] != b'\xdd' * 8: ev['res'] = 'overrun'
            x['got'] = self.values(raw, el)
            if tot[r] is not None: x['tot'] = tot[r][0]
    def x_gather(self, ev):
        el = ev['el']; rs = ev['ranks']; total = sum(len(r['send']) for r in rs)
        send = [self.buf(r['send'], el) for r in rs]
        given = [self.room(r['len'], el) if r['given'] else None for r in rs]
        tot = [self.ints([-77])[1] if r['wanttot'] else None for r in rs]
        def fill(r, c):
            c.nfile = ev['root']; c.size = el; c.nmemb = len(rs[r]['send']); c.buf = C.addressof(send[r])
            c.out = C.addressof(given[r]) if given[r] is not None else None
            c.a = C.addressof(tot[r]) if tot[r] is not None else None
        calls = self.go('GATHER', fill)
        self.finish(ev, calls, given, tot, [total if r == ev['root'] else 0 for r in range(self.P)])
    def x_scatter(self, ev):
        el = ev['el']; rs = ev['ranks']
        send = [self.buf(r.get('send', []), el) for r in rs]
        given = [self.room(r['len'], el) if r['given'] else None for r in rs]
        tot = [self.ints([-77])[1] if r['wanttot'] else None for r in rs]
        def fill(r, c):
            c.nfile = ev['root']; c.size = el; c.nmemb = rs[r]['n']; c.buf = C.addressof(send[r]) if r == ev['root'] else None
            c.out = C.addressof(given[r]) if given[r] is not None else None
            c.a = C.addressof(tot[r]) if tot[r] is not None else None
        calls = self.go('SCATTER', fill)
        self.finish(ev, calls, given, tot, [r['n'] for r in rs])
    TYPES = [('int', I, 1), ('long', C.c_long, 1 << 33), ('double', C.c_double, .1), ('float', C.c_float, 1.5), ('ulong', C.c_ulong, 1 << 33)]
    def x_getloc(self, ev):
        t = [x[0] for x in self.TYPES].index(ev['type']); _, ct, f = self.TYPES[t]
        ret = [(I * 1)(-9) for _ in range(self.P)]
        vs = [ct(r['val'] * f) for r in ev['ranks']]
        def fill(r, c):
            c.nmemb = t; c.conc = ev['max']; c.buf = C.addressof(vs[r]); c.a = C.addressof(ret[r])
        self.go('GETLOC', fill)
        for r in range(self.P): ev['ranks'][r]['ret'] = ret[r][0]
