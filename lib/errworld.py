"""Failing calls, and the messages they leave, in several threads."""
import ctypes as C, os, queue, shutil, threading, bf
from bf import I, P, SZ

class Worker(threading.Thread):
    def __init__(self):
        super().__init__(daemon=True)
        self.q, self.a = queue.Queue(), queue.Queue()
    def run(self):
        while True:
            f = self.q.get()
            if f is None: return
            try: self.a.put((f(), None))
            except BaseException as ex: self.a.put((None, ex))
    def do(self, f): self.q.put(f)
    def wait(self):
        r, ex = self.a.get()
        if ex: raise ex
        return r

class ErrWorld(bf.World):
    NT = 8
    def reset(self):
        L = self.L
        for w in getattr(self, 'workers', {}).values(): w.do(None)
        self.workers = {}
        shutil.rmtree(self.root, ignore_errors=True); os.makedirs(self.root)
        self.f = L.vs_file_new()
        assert L.vs_file_create(self.f, os.fsencode(self.fbase)) == 0
        self.hh = {}
        open(self.root + '/plain', 'w').close()
        self.seq = 0
        self.emit(dict(op='reset'))
    def worker(self, t):
        if t not in self.workers:
            w = self.workers[t] = Worker(); w.start()
        return self.workers[t]
    def path(self, n): return self.fbase + '/' + n
    def column(self, t, name=None):
        """a column of this thread's own, with 3 rows and an attribute A"""
        L = self.L
        name = name or 'c%d' % t
        if name in self.hh: return self.hh[name]
        h = L.vs_h_new(); fs = (SZ * 2)(1, 2)
        if L.vs_create(self.f, h, os.fsencode(name), b'<i4', 1, 2, fs) != 0: raise RuntimeError('create ' + name[:80])
        buf = C.create_string_buffer(64)
        L.vs_write(h, buf, b'<i4', 1, (SZ * 1)(3), None)
        L.vs_set_attr(h, b'A', buf, b'<i4', 1)
        L.vs_flush(h); L.vs_seek(h, 0)
        self.hh[name] = h
        return h
    def execute(self, op):
        if self.intent is not None: self.intent(op)
        if op['op'] == 'par':
            # every thread works through its own list; the recorded lists are put one after another
            start = threading.Barrier(len(op['lists']))
            def job(ops):
                start.wait()
                return [self.step(o) for o in ops]
            for ops in op['lists']:
                t = ops[0]['t']; self.column(t)
            for ops in op['lists']: self.worker(ops[0]['t']).do(lambda ops=ops: job(ops))
            for ops in op['lists']:
                for ev in self.workers[ops[0]['t']].wait(): self.emit(ev)
            return
        w = self.worker(op['t'])
        w.do(lambda: self.step(op))
        self.emit(w.wait())
    def step(self, op):
        L = self.L; t = op['t']; ev = dict(op)
        if op['op'] == 'set': L.vs_seterr(op['text'].encode('latin1')); ev['res'] = 'done'
        elif op['op'] == 'clear': L.vs_seterr(None); ev['res'] = 'done'
        elif op['op'] == 'get': pass
        else:
            rt, parts = getattr(self, 'k_' + op['kind'])(t, op.get('name', 'x'))
            ev['res'] = 'ok' if rt == 0 else 'err'
            ev['parts'] = [os.fsencode(p).decode('latin1') for p in parts]
        m = L.vs_err()
        ev['has'] = m is not None
        ev['msg'] = m.decode('latin1') if m is not None else ''
        ev.pop('name', None)
        return ev
    def why(self, path):
        try: os.stat(path)
        except OSError as ex: return os.strerror(ex.errno)
        return ''
    # --- each returns the result and the parts of the cause that the message must contain
    def k_missing(self, t, n):
        return self.L.vs_open(self.f, self.L.vs_h_new(), os.fsencode(n)), [self.path(n), self.why(self.path(n) + '/header')]
    def k_badname(self, t, n):
        return self.L.vs_create(self.f, self.L.vs_h_new(), os.fsencode('c%d/' % t + ' x'), b'<i4', 1, 0, None), []
    def k_dtype(self, t, n):
        d = '<q' + n.replace('/', '_')
        return self.L.vs_create(self.f, self.L.vs_h_new(), b'new%d' % t, os.fsencode(d), 1, 0, None), [d]
    def k_getattr(self, t, n):
        return self.L.vs_get_attr(self.column(t), os.fsencode(n), C.create_string_buffer(8), b'<i4', 1), []
    def k_rmattr(self, t, n): return self.L.vs_remove_attr(self.column(t), os.fsencode(n)), [n]
    def k_setattr(self, t, n):
        return self.L.vs_set_attr(self.column(t), os.fsencode(n + ' '), C.create_string_buffer(8), b'<i4', 1), []
    def k_setdtype(self, t, n):
        d = '<i4' + n.replace('/', '_')
        return self.L.vs_set_attr(self.column(t), b'B', C.create_string_buffer(8), os.fsencode(d), 1), [d[:7]]
    def k_conv(self, t, n):
        h = self.column(t); self.L.vs_seek(h, 0)
        return self.L.vs_write(h, C.create_string_buffer(64), b'<c8', 1, (SZ * 1)(2), None), ['c8', 'i4']
    def k_attrconv(self, t, n):
        return self.L.vs_get_attr(self.column(t), b'A', C.create_string_buffer(64), b'<c8', 1), ['c8', 'i4']
    def k_seek(self, t, n): return self.L.vs_seek(self.column(t), 98761), ['98761']
    def k_simple(self, t, n):
        data = C.c_void_p(); dims = (SZ * 2)(); odt = C.create_string_buffer(9)
        return self.L.vs_read_simple(self.column(t), 98762, 1, None, C.byref(data), dims, odt), ['98762']
    def k_beyond(self, t, n):
        h = self.column(t); self.L.vs_seek(h, 0)
        return self.L.vs_read(h, C.create_string_buffer(64), b'<i4', 1, (SZ * 1)(4), None), [self.path('c%d' % t)]
    def k_wbeyond(self, t, n):
        h = self.column(t); self.L.vs_seek(h, 0)
        return self.L.vs_write(h, C.create_string_buffer(64), b'<i4', 1, (SZ * 1)(4), None), [self.path('c%d' % t)]
    def k_nodata(self, t, n):
        """a column of that name whose data file is gone"""
        n = 'd%d/' % t + n
        h = self.column(t, n); p = self.path(n) + '/000001'
        if os.path.exists(p): os.unlink(p)
        self.L.vs_seek(h, 0)
        return self.L.vs_read(h, C.create_string_buffer(64), b'<i4', 1, (SZ * 1)(3), None), [p, self.why(p)]
    def k_noattrs(self, t, n):
        """a column of that name whose attribute file says nonsense"""
        n = 'e%d/' % t + n; self.column(t, n)
        with open(self.path(n) + '/attr-v2', 'w') as f: f.write('%s%n nonsense\n')
        return self.L.vs_open(self.f, self.L.vs_h_new(), os.fsencode(n)), [self.path(n)]
    def k_noheader(self, t, n):
        n = 'g%d/' % t + n; self.column(t, n)
        with open(self.path(n) + '/header', 'w') as f: f.write('DTYPE: <i4\nNMEMB: x%s\n')
        return self.L.vs_open(self.f, self.L.vs_h_new(), os.fsencode(n)), [self.path(n)]
    def k_unsaved(self, t, n):
        """changed attributes of a column whose directory is gone"""
        n = 'u%d/' % t + n; h = self.column(t, n)
        self.L.vs_set_attr(h, b'B', C.create_string_buffer(8), b'<i4', 1)
        shutil.rmtree(self.path(n), ignore_errors=True)
        return self.L.vs_flush(h), [self.path(n), os.strerror(2)]
    def k_closing(self, t, n):
        self.seq += 1
        n = 'v%d/%d/' % (t, self.seq) + n; h = self.column(t, n)
        self.L.vs_set_attr(h, b'B', C.create_string_buffer(8), b'<i4', 1)
        shutil.rmtree(self.path(n), ignore_errors=True)
        self.hh.pop(n)
        return self.L.vs_close(h), [self.path(n), os.strerror(2)]
    def k_fileopen(self, t, n):
        p = self.root + '/no/' + n
        return self.L.vs_file_open(self.L.vs_file_new(), os.fsencode(p)), [p, self.why(p)]
    def k_filecreate(self, t, n):
        p = self.root + '/plain/' + n
        return self.L.vs_file_create(self.L.vs_file_new(), os.fsencode(p)), [self.root + '/plain/' + n.split('/')[0], os.strerror(20)]
    def rt(self, n):
        r = self.L.vs_rt_new(); self.L.vs_rt_add(r, os.fsencode(n), b'<i4', 1); self.L.vs_rt_complete(r)
        return r
    def k_recmode(self, t, n):
        m = n.replace('/', '_')
        return self.L.vs_rec_create(self.f, self.rt('r'), os.fsencode(m), 0, None), [m]
    def k_reccol(self, t, n):
        return self.L.vs_rec_read(self.f, self.rt('no%d/' % t + n), 0, 1, C.create_string_buffer(64)), [self.path('no%d/' % t + n)]
    def k_openok(self, t, n):
        self.column(t)
        h = self.L.vs_h_new(); rt = self.L.vs_open(self.f, h, b'c%d' % t)
        if rt == 0: self.L.vs_close(h)
        return rt, []
    def k_readok(self, t, n):
        h = self.column(t); self.L.vs_seek(h, 0)
        return self.L.vs_read(h, C.create_string_buffer(64), b'<i4', 1, (SZ * 1)(3), None), []
KINDS = [k[2:] for k in dir(ErrWorld) if k.startswith('k_') and not k.endswith('ok')]
