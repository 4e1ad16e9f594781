"""Conversions of single elements, recorded as bytes."""
import ctypes as C, os, bf
from bf import SZ, PD
from enc import split

class Refused(Exception): pass

class ConvWorld(bf.World):
    def changes(self): return []
    def op_conv(self, ev):
        ev['mem'] = 'ok'; ev['kept'] = 'ok'; ev['outb'] = []
        try: self.conv(ev)
        except Refused as ex: ev['res'] = 'preparation: ' + str(ex)
    def conv(self, ev):
        L = self.L
        src, dst, inb = ev['src'], ev['dst'], [bytes(x) for x in ev['inb']]
        ws, wd, n, nm = split(src)[2], split(dst)[2], len(ev['inb']), ev['nm']
        L.vs_bufsize(ev['bufsize'])
        raw = b''.join(inb)
        h = L.vs_h_new()
        name = b'c'
        fs = (SZ * 2)(n // nm // 3, n // nm - n // nm // 3)
        def files():
            d = b''
            for i in range(2):
                p = os.path.join(self.fbase, 'c', '%06X' % i)
                d += open(p, 'rb').read()
            return d
        st = ev.get('stride', 1)
        def view(w, data=None):
            buf = C.create_string_buffer(bytes((i * 37 + 11) % 251 for i in range(n * w * st + 32)), n * w * st + 32)
            if data:
                for k in range(n): buf[16 + k * w * st:16 + k * w * st + w] = data[k]
            return buf, C.addressof(buf) + 16, (SZ * 2)(n // nm, nm), (PD * 2)(w * st * nm, w * st)
        def outs(buf, w): return [list(buf.raw[16 + k * w * st:16 + k * w * st + w]) for k in range(n)]
        def outside(buf, before, w):
            a, b = bytearray(buf.raw), bytearray(before)
            for k in range(n): a[16 + k * w * st:16 + k * w * st + w] = b[16 + k * w * st:16 + k * w * st + w]
            return a == b
        sp = ev.get('spell', {})
        S, D = sp.get('src', src).encode(), sp.get('dst', dst).encode()
        def must(x):
            if x: raise Refused(repr(L.vs_err()))
        if ev['via'] == 'write':
            must(L.vs_create(self.f, h, name, D, nm, 2, fs))
            buf, a, d, s = view(ws, inb)
            before = buf.raw
            rt = L.vs_write(h, a, S, 2, d, s)
            if buf.raw != before: ev['mem'] = 'source changed'
            f = files()
            if rt == 0: ev['outb'] = [list(f[i * wd:i * wd + wd]) for i in range(len(f) // wd)]
            elif f: ev['kept'] = 'no'
            L.vs_close(h)
        elif ev['via'] == 'read':
            must(L.vs_create(self.f, h, name, S, nm, 2, fs))
            must(L.vs_close(h))
            pos = 0
            for i in range(2):
                with open(os.path.join(self.fbase, 'c', '%06X' % i), 'wb') as f: f.write(raw[pos:pos + fs[i] * ws * nm])
                pos += fs[i] * ws * nm
            must(L.vs_open(self.f, h, name))
            buf, a, d, s = view(wd)
            before = buf.raw
            rt = L.vs_read(h, a, D, 2, d, s)
            if not outside(buf, before, wd): ev['mem'] = 'outside changed'
            if rt == 0: ev['outb'] = outs(buf, wd)
            elif buf.raw != before: ev['kept'] = 'no'
            L.vs_close(h)
        else:
            must(L.vs_create(self.f, h, name, b'<i4', 1, 0, fs))
            b0 = C.create_string_buffer(raw, len(raw))
            must(L.vs_set_attr(h, b'v', b0, S, n))
            if b0.raw != raw: ev['mem'] = 'source changed'
            if ev['via'] == 'attr2':
                must(L.vs_close(h)); must(L.vs_open(self.f, h, name))
            buf = C.create_string_buffer(b'\xaa' * (n * wd + 32), n * wd + 32)
            rt = L.vs_get_attr(h, b'v', C.addressof(buf) + 16, D, n)
            r = buf.raw
            if r[:16] + r[16 + n * wd:] != b'\xaa' * 32: ev['mem'] = 'outside changed'
            if rt == 0: ev['outb'] = [list(r[16 + i * wd:16 + i * wd + wd]) for i in range(n)]
            elif r != b'\xaa' * len(r): ev['kept'] = 'no'
            # the stored value is still what was set
            out = C.create_string_buffer(len(raw))
            must(L.vs_get_attr(h, b'v', out, S, n))
            if out.raw != raw: ev['kept'] = 'no'; ev['mem'] = 'stored value changed'
            L.vs_close(h)
        ev['res'] = 'ok' if rt == 0 else 'err'
        L.vs_free(h)
