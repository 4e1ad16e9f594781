"""Record operations on the real library; memory is laid out by hand, packed."""
import ctypes as C, os, bf
from bf import SZ
from enc import enc, dec, split

class RecWorld(bf.World):
    def rt(self, ev):
        L = self.L; r = L.vs_rt_new(); fs = ev['rt']
        name = lambda f: os.fsencode(self.path(f['b']))
        how = ev.get('how', 'add')
        if how == 'add':
            for f in fs: L.vs_rt_add(r, name(f), f['dtype'].encode(), f['nmemb'])
        else:                       # filled from the back, the first one twice
            L.vs_rt_set(r, 0, b'nothing', b'i8', 9)
            for i in reversed(range(len(fs))): L.vs_rt_set(r, i, name(fs[i]), fs[i]['dtype'].encode(), fs[i]['nmemb'])
        L.vs_rt_complete(r)
        ev['itemsize'] = L.vs_rt_itemsize(r)
        ev['offsets'] = [L.vs_rt_offset(r, i) for i in range(len(fs))]
        return r
    def onheader(self, b):
        try: return len(bf.parse_header(open(os.path.join(self.fbase, self.path(b), 'header'), 'rb').read())[2])
        except (OSError, bf.Bad, IndexError, ValueError): return 0
    def packed(self, fs):
        off, o = [], 0
        for f in fs: off.append(o); o += split(f['dtype'])[2] * f['nmemb']
        return off, o
    def op_reccreate(self, ev):
        r = self.rt(ev); fs = ev['fsize']
        before = dict(self.nfiles)
        for f in ev['rt']:
            b = tuple(f['b'])
            if ev['mode'] == 'w+': self.nfiles[b] = len(fs)
            elif b in before: self.nfiles[b] = max(before[b], self.onheader(b) + len(fs))
        arr = (SZ * max(1, len(fs)))(*fs)
        ok = self.res(ev, self.L.vs_rec_create(self.f, r, ev['mode'].encode(), len(fs), arr))
        if not ok:                  # how many files each column has now is on disk
            for f in ev['rt']:
                b = tuple(f['b'])
                self.nfiles[b] = self.onheader(b)
                if b in before: self.nfiles[b] = max(self.nfiles.get(b, 0), before[b])
        self.L.vs_rt_clear(r); self.L.vs_free(r)
    def op_recwrite(self, ev):
        fs = ev['rt']; r = self.rt(ev)
        off, item = self.packed(fs); n = ev['n']; pad = 24
        if ev.get('viaset') and item == ev['itemsize']:
            buf = C.create_string_buffer(b'\xee' * (n * item + 2 * pad), n * item + 2 * pad)
            for i, f in enumerate(fs):
                for k in range(n):
                    self.L.vs_rec_set(r, C.addressof(buf) + pad, k, i, b''.join(enc(f['dtype'], v) for v in ev['vals'][i][k]))
        else:
            buf = C.create_string_buffer(b'\xee' * (n * item + 2 * pad), n * item + 2 * pad)
            for i, f in enumerate(fs):
                for k in range(n):
                    s = b''.join(enc(f['dtype'], v) for v in ev['vals'][i][k])
                    o = pad + k * item + off[i]
                    buf[o:o + len(s)] = s
        before = buf.raw
        self.res(ev, self.L.vs_rec_write(self.f, r, ev['off'], n, C.addressof(buf) + pad))
        ev['mem'] = 'ok' if buf.raw == before else 'source changed'
        self.L.vs_rt_clear(r); self.L.vs_free(r)
    def op_recread(self, ev):
        fs = ev['rt']; r = self.rt(ev)
        off, item = self.packed(fs); n = ev['n']; pad = 24
        buf = C.create_string_buffer(b'\xee' * (n * item + 2 * pad), n * item + 2 * pad)
        if self.res(ev, self.L.vs_rec_read(self.f, r, ev['off'], n, C.addressof(buf) + pad)):
            ev['vals'] = []
            for i, f in enumerate(fs):
                w = split(f['dtype'])[2]; col = []
                for k in range(n):
                    o = pad + k * item + off[i]
                    s = buf.raw[o:o + w * f['nmemb']]
                    if ev.get('viaget') and item == ev['itemsize']:
                        t = C.create_string_buffer(len(s) + 1)
                        self.L.vs_rec_get(r, C.addressof(buf) + pad, k, i, t)
                        s = t.raw[:len(s)]
                    col.append([dec(f['dtype'], s[j:j + w]) for j in range(0, len(s), w)])
                ev['vals'].append(col)
        raw = buf.raw
        ev['mem'] = 'ok' if raw[:pad] == b'\xee' * pad and raw[-pad:] == b'\xee' * pad else 'outside changed'
        self.L.vs_rt_clear(r); self.L.vs_free(r)
