"""Histories carried out by several threads of one process at once, each on its own handles and columns."""
import ctypes as C, hashlib, io, json, os, shutil, threading, bf

class Mine(bf.World):
    """the columns below one name, as seen by one thread"""
    def __init__(self, lib, root, comps, attrs, f, prefix):
        super().__init__(lib, root, comps, attrs, io.StringIO())
        self.f, self.prefix = f, prefix
    def apiname(self, b): return self.prefix + '/F/' + self.path(b)
    def reset(self):
        shutil.rmtree(self.root, ignore_errors=True); os.makedirs(self.fbase)
        self.nfiles, self.lastn, self.snap = {}, {}, bf.snapshot(self.root)
        self.emit(dict(op='thread', chg=[]))
    def op_nop(self, ev): ev['res'] = 'ok'; ev['chg'] = []

class ThreadWorld(bf.World):
    def reset(self, nested=()):
        if not hasattr(self, 'armed'):
            self.L.vs_bulk.restype = C.c_uint64
            self.L.vs_bulk.argtypes = [C.c_char_p, C.c_uint, C.c_int, C.c_int]
            self.armed = True
        super().reset(nested)
    def execute(self, op):
        if self.intent is not None: self.intent({k: op[k] for k in ('op', 'seed') if k in op})
        getattr(self, 'op_' + op['op'])(op)
    def par(self, jobs):
        out = [None] * len(jobs); start = threading.Barrier(len(jobs)); errs = []
        def run(i):
            start.wait()
            try: out[i] = jobs[i]()
            except BaseException as ex: errs.append(ex)
        ts = [threading.Thread(target=run, args=(i,)) for i in range(len(jobs))]
        for t in ts: t.start()
        for t in ts: t.join()
        if errs: raise errs[0]
        return out
    def op_threads(self, op):
        L = self.L
        L.vs_bufsize(op['bufsize'])
        ws = [Mine(L, os.path.join(self.fbase, 't%d' % i), self.comps, self.attrs, self.f, 't%d' % i) for i in range(len(op['lists']))]
        for w in ws: w.reset()
        def job(w, ops):
            def go():
                for o in ops: w.execute(o)
                for h in list(w.h): w.execute(dict(op='close', h=h))
                return True
            return go
        L.vfs_yield(op['yield'])
        try: self.par([job(w, ops) for w, ops in zip(ws, op['lists'])])
        finally: L.vfs_yield(0)
        for w in ws: self.trace.write(w.trace.getvalue())
        self.trace.flush()
        stray = sorted(set(os.listdir(self.fbase)) - {'t%d' % i for i in range(len(ws))}) + sorted(set(os.listdir(self.root)) - {'F'})
        self.emit(dict(op='joined', stray=stray))
    def digest(self, d):
        m = hashlib.sha256()
        for f, b in sorted(bf.snapshot(d).items()): m.update(repr((f, b)).encode())
        shutil.rmtree(d, ignore_errors=True)
        return m.hexdigest()[:16]
    def op_bulk(self, op):
        """the same pieces of work one after another, then at the same time"""
        L = self.L; L.vs_bufsize(op['bufsize'])
        dirs = [os.path.join(self.root, 'k%d' % i) for i in range(op['n'])]
        work = lambda i: '%016x' % L.vs_bulk(os.fsencode(dirs[i]), op['seed'] + i, op['rows'], op['rounds'])
        alone = [[work(i), self.digest(dirs[i])] for i in range(op['n'])]
        for _ in range(op['times']):
            L.vfs_yield(op['yield'])
            try: got = self.par([lambda i=i: work(i) for i in range(op['n'])])
            finally: L.vfs_yield(0)
            for i, g in enumerate(got):
                self.emit(dict(op='bulk', k=i, alone=alone[i], got=[g, self.digest(dirs[i])]))
