"""Columns whose description files were damaged."""
import ctypes as C, os, shutil, bf
from bf import I, P, SZ
from enc import split

class MetaWorld(bf.World):
    def reset(self):
        self.drop_all()
        shutil.rmtree(self.root, ignore_errors=True); os.makedirs(self.root)
        if self.f is None: self.f = self.L.vs_file_new()
        assert self.L.vs_file_create(self.f, os.fsencode(self.fbase)) == 0
        h = self.L.vs_h_new(); fs = (SZ * 2)(1, 2)
        assert self.L.vs_create(self.f, h, b'good', b'<i4', 1, 2, fs) == 0
        self.goodrow = (C.c_int32 * 3)(5, 6, 7)
        d = (SZ * 1)(3)
        assert self.L.vs_write(h, self.goodrow, b'<i4', 1, d, None) == 0
        assert self.L.vs_close(h) == 0
        self.emit(dict(op='reset', chg=[]))
    def execute(self, op):
        if self.intent is not None: self.intent(op)
        ev = dict(op)
        getattr(self, 'op_' + op['op'])(ev)
        self.emit(ev)
    def put(self, name, what):
        p = os.path.join(self.fbase, 'bad', name)
        if what[0] == 'dir': os.makedirs(p)
        elif what[0] == 'file':
            data = bytes(what[1]) if isinstance(what[1], list) else what[1].encode('latin1')
            with open(p, 'wb') as f: f.write(data)
    def good(self):
        L = self.L
        h = L.vs_h_new()
        if L.vs_open(self.f, h, b'good') != 0: return 'cannot be opened'
        data = C.c_void_p(); dims = (SZ * 2)(); odt = C.create_string_buffer(9)
        if L.vs_read_simple(h, 0, 3, b'<i4', C.byref(data), dims, odt) != 0: return 'cannot be read'
        x = list((C.c_int32 * 3).from_address(data.value)); L.vs_free(data)
        if x != [5, 6, 7]: return 'has changed'
        if L.vs_close(h) != 0: return 'cannot be closed'
        L.vs_free(h)
        return 'ok'
    def op_meta(self, ev):
        L = self.L
        d = os.path.join(self.fbase, 'bad')
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        self.put('header', ev['header']); self.put('attr-v2', ev['attr2']); self.put('attr', ev['attr1'])
        for i in range(3):
            with open(os.path.join(d, '%06X' % i), 'wb') as f: f.write(bytes(range(40)))
        h = L.vs_h_new()
        rt = L.vs_open(self.f, h, b'bad')
        ev['res'] = 'ok' if rt == 0 else 'err'
        m = L.vs_err() if rt else b''
        ev['msg'] = 'ok' if m else 'none'
        if rt == 0:
            n = L.vs_Nfile(h)
            ev['desc'] = dict(dtype=L.vs_dtype(h).decode('latin1'), nmemb=str(L.vs_nmemb(h)),
                              files=[[str(L.vs_fsize(h, i)), str(L.vs_sum(h, i))] for i in range(min(n, 50))])
            if n > 50: ev['desc']['files'] = [['%d files' % n, '']]
            ev['attrs'] = []
            for i in range(L.vs_nattr(h)):
                nm = I(); dt = C.create_string_buffer(9); data = C.c_void_p()
                name = L.vs_attr(h, i, C.byref(nm), dt, C.byref(data))
                k = L.vs_itemsize(dt.value) * nm.value
                ev['attrs'].append(dict(name=name.decode('latin1'), nameb=list(name), dtype=dt.value.decode('latin1'), dtypeb=list(dt.value),
                                        n=nm.value, raw=list(C.string_at(data, k)) if 0 < k < 100000 else [] if k == 0 else [-1]))
            # use it: nothing to compare, it must only come back
            if 0 < L.vs_nmemb(h) < 1000:
                for st in (0, -1, 1):
                    data = C.c_void_p(); dims = (SZ * 2)(); odt = C.create_string_buffer(9)
                    if L.vs_read_simple(h, st, 2, None, C.byref(data), dims, odt) == 0: L.vs_free(data)
            L.vs_close(h)
        L.vs_free(h)
        lst = C.c_void_p(); ev['names'] = []
        n = L.vs_list(self.f, C.byref(lst))
        for i in range(max(n, 0)): ev['names'].append(os.fsdecode(L.vs_list_get(lst, i)))
        if n >= 0: L.vs_list_free(lst, n)
        else: ev['names'] = ['listing failed']
        ev['other'] = self.good()
