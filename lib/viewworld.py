"""Transfers through arbitrary memory views; the buffer is recorded before and after."""
import ctypes as C, bf
from bf import SZ, PD
from enc import enc, dec, split

class ViewWorld(bf.World):
    def _buf(self, ev, vals=None):
        w = split(ev['mdt'])[2]
        mn = mx = 0
        for d, s in zip(ev['dims'], ev['strides']):
            if d > 0:
                if s < 0: mn += (d - 1) * s
                else: mx += (d - 1) * s
        pad = ev.get('pad', 9)
        ev['base'] = base = pad - mn
        total = mx - mn + w + 2 * pad
        buf = C.create_string_buffer(bytes((i * 37 + 11) % 251 for i in range(total)), total)
        if vals is not None:
            offs = [base]
            for d, s in zip(ev['dims'], ev['strides']): offs = [o + k * s for o in offs for k in range(d)]
            for o, x in zip(offs, vals): buf[o:o + w] = enc(ev['mdt'], x)
            # elements may overlap: the values are what is in memory now
            ev['vals'] = [dec(ev['mdt'], buf.raw[o:o + w]) for o in offs]
        ev['mem0'] = list(buf.raw)
        nd = len(ev['dims'])
        d = (SZ * max(nd, 1))(*ev['dims'])
        s = None if ev.get('nullst') else (PD * max(nd, 1))(*ev['strides'])
        return buf, C.addressof(buf) + base, nd, d, s
    def op_vwrite(self, ev):
        h = self.h[ev['h']]
        buf, a, nd, d, s = self._buf(ev, ev['vals'])
        self.res(ev, self.L.vs_write(h, a, ev['mdt'].encode(), nd, d, s)); self.pos(ev)
        ev['mem1'] = list(buf.raw)
    def op_vread(self, ev):
        h = self.h[ev['h']]
        buf, a, nd, d, s = self._buf(ev)
        self.res(ev, self.L.vs_read(h, a, ev['mdt'].encode(), nd, d, s)); self.pos(ev)
        ev['mem1'] = list(buf.raw)
