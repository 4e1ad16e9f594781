"""Ranks of a Python program as threads of one process, of which one runs at a time.  They switch only in
communication calls, so an execution is fixed by its seed, and ranks that wait for one another for ever are seen
at once.  The calls move pickled copies, as between processes."""
import threading, pickle, random

class Abort(BaseException): """the run is over: leave the rank"""
class Mismatch(Exception): pass

class Sim:
    def __init__(self, n, seed, policy='random', strict=False, hook=None):
        self.n, self.r, self.policy, self.strict, self.hook = n, random.Random(seed), policy, strict, hook
        self.go = [threading.Semaphore(0) for _ in range(n)]
        self.main = threading.Semaphore(0)
        self.blocked = [None] * n       # a condition under which the rank goes on
        self.done = [False] * n
        self.why = None
        self.slots = {}                 # call number -> what the ranks brought
        self.count = [0] * n
        self.exc = [None] * n
        self.cur = -1
        self.mail = {}

    def run(self, body):
        def rank(i):
            self.go[i].acquire()
            try:
                if self.why is None: body(i, Comm(self, i))
            except Abort: pass
            except BaseException as ex: self.exc[i] = ex
            self.done[i] = True
            self.main.release()
        ts = [threading.Thread(target=rank, args=(i,), daemon=True) for i in range(self.n)]
        for t in ts: t.start()
        while not all(self.done):
            ready = [i for i in range(self.n) if not self.done[i] and (self.blocked[i] is None or self.blocked[i]())]
            if not ready or self.why:
                if self.why is None:
                    self.why = 'ranks %s wait for ever' % [i for i in range(self.n) if not self.done[i]]
                ready = [i for i in range(self.n) if not self.done[i]]
            i = self.choose(ready)
            self.blocked[i] = None
            self.cur = i
            if self.hook: self.hook(i)
            self.go[i].release(); self.main.acquire()
            if self.hook: self.hook(None)
        for t in ts: t.join()
        for x in self.exc:
            if x is not None: raise x
        return self.why

    def choose(self, ready):
        p = self.policy
        if p == 'low': return ready[0]
        if p == 'high': return ready[-1]
        if p == 'rootlast': return next((i for i in ready if i), ready[0])
        if p == 'sticky' and self.cur in ready: return self.cur
        return self.r.choice(ready)

    def wait(self, i, cond=None):
        """lets others run, until cond holds"""
        if self.why: raise Abort()
        self.blocked[i] = cond
        self.main.release(); self.go[i].acquire()
        if self.why: raise Abort()

    def call(self, i, kind, val, need):
        """one communication call of rank i; need: the ranks it waits for.  Returns what was brought."""
        self.wait(i)
        k = self.count[i]; self.count[i] += 1
        s = self.slots.setdefault(k, dict(kind=kind, v={}, left=0))
        if s['kind'] != kind:
            self.why = 'rank %d calls %s where another rank calls %s' % (i, kind, s['kind']); raise Abort()
        s['v'][i] = val
        need = set(range(self.n)) if self.strict else set(need) | {i}
        if not need <= set(s['v']): self.wait(i, lambda: need <= set(s['v']))
        v = dict(s['v'])
        s['left'] += 1
        if s['left'] == self.n: del self.slots[k]
        self.wait(i)
        return v

def buf(b):
    import numpy
    if isinstance(b, (list, tuple)): b = b[0]
    return numpy.asarray(b)
def opfn(op):
    """the function of a reduction"""
    if op is None: return lambda a, b: a + b
    return lambda a, b: op(a, b)
def bufop(op, a, b):
    import numpy
    name = 'SUM' if op is None else getattr(op, 'Get_name', None) and op.Get_name().replace('MPI_', '') or str(op)
    import sys
    MPI = sys.modules.get('mpi4py.MPI')         # where the caller's operation comes from, if it is one of those
    for n in ('SUM', 'MAX', 'MIN', 'BOR', 'LOR', 'BAND', 'LAND', 'PROD'):
        if MPI and op is getattr(MPI, n): name = n
    f = dict(SUM=numpy.add, MAX=numpy.maximum, MIN=numpy.minimum, BOR=numpy.bitwise_or, BAND=numpy.bitwise_and, PROD=numpy.multiply,
             LOR=lambda x, y: numpy.logical_or(x, y).astype(x.dtype), LAND=lambda x, y: numpy.logical_and(x, y).astype(x.dtype))[name]
    return f(a, b)

class Comm:
    def __init__(self, sim, rank): self.sim, self.rank, self.size = sim, rank, sim.n
    def Get_rank(self): return self.rank
    def Get_size(self): return self.size
    def __reduce__(self): raise TypeError('cannot pickle a communicator')
    def all(self): return range(self.size)
    def _objs(self, kind, obj, need):
        v = self.sim.call(self.rank, kind, pickle.dumps(obj), need)
        return {i: pickle.loads(x) for i, x in v.items() if i in set(need) | {self.rank}}
    # objects
    def barrier(self): self.sim.call(self.rank, 'barrier', None, self.all())
    Barrier = barrier
    def bcast(self, obj=None, root=0):
        v = self.sim.call(self.rank, ('bcast', root), pickle.dumps(obj) if self.rank == root else None, [root])
        return obj if self.rank == root else pickle.loads(v[root])
    def allgather(self, obj): v = self._objs('allgather', obj, self.all()); return [v[i] for i in self.all()]
    def gather(self, obj, root=0):
        v = self._objs(('gather', root), obj, self.all() if self.rank == root else [])
        return [v[i] for i in self.all()] if self.rank == root else None
    def scatter(self, objs=None, root=0):
        return self._objs(('scatter', root), objs if self.rank == root else None, [root])[root][self.rank]
    def alltoall(self, objs): v = self._objs('alltoall', objs, self.all()); return [v[i][self.rank] for i in self.all()]
    def _fold(self, xs, op):
        f = opfn(op); r = xs[0]
        for x in xs[1:]: r = f(r, x)
        return r
    def allreduce(self, obj, op=None): v = self._objs('allreduce', obj, self.all()); return self._fold([v[i] for i in self.all()], op)
    def reduce(self, obj, op=None, root=0):
        v = self._objs(('reduce', root), obj, self.all() if self.rank == root else [])
        return self._fold([v[i] for i in self.all()], op) if self.rank == root else None
    def scan(self, obj, op=None): v = self._objs('scan', obj, self.all()); return self._fold([v[i] for i in range(self.rank + 1)], op)
    def exscan(self, obj, op=None):
        v = self._objs('exscan', obj, self.all()); return self._fold([v[i] for i in range(self.rank)], op) if self.rank else None
    # buffers
    def _bufs(self, kind, b, need): return self.sim.call(self.rank, kind, None if b is None else buf(b).copy(), need)
    def _inplace(self, send, recv): return recv if type(send).__name__ in ('InPlace', 'InPlaceType') or (isinstance(send, int) and not hasattr(send, 'shape')) else send
    def _reduced(self, v, op):
        r = v[0]
        for i in range(1, self.size):
            if v[i].shape != r.shape or v[i].dtype != r.dtype: raise Mismatch('buffers of different sizes')
            r = bufop(op, r, v[i])
        return r
    def Allreduce(self, send, recv, op=None):
        v = self._bufs('Allreduce', self._inplace(send, recv), self.all()); buf(recv)[...] = self._reduced(v, op)
    def Reduce(self, send, recv, op=None, root=0):
        v = self._bufs(('Reduce', root), self._inplace(send, recv), self.all() if self.rank == root else [])
        if self.rank == root: buf(recv)[...] = self._reduced(v, op)
    def Bcast(self, b, root=0):
        v = self._bufs(('Bcast', root), b if self.rank == root else None, [root])
        if self.rank != root: x = buf(b); x[...] = v[root].view(x.dtype).reshape(x.shape)
    def Allgather(self, send, recv):
        import numpy
        v = self._bufs('Allgather', send, self.all()); x = buf(recv)
        x[...] = numpy.concatenate([v[i].reshape(-1) for i in self.all()]).reshape(x.shape)
    def Gather(self, send, recv, root=0):
        import numpy
        v = self._bufs(('Gather', root), send, self.all() if self.rank == root else [])
        if self.rank == root: x = buf(recv); x[...] = numpy.concatenate([v[i].reshape(-1) for i in self.all()]).reshape(x.shape)
    def Scatter(self, send, recv, root=0):
        v = self._bufs(('Scatter', root), send if self.rank == root else None, [root])
        x = buf(recv); n = x.size; x[...] = v[root].reshape(-1)[self.rank * n:(self.rank + 1) * n].reshape(x.shape)
    # messages
    def send(self, obj, dest, tag=0):
        self.sim.mail.setdefault((self.rank, dest), []).append((tag, pickle.dumps(obj))); self.sim.wait(self.rank)
    def recv(self, source, tag=-1):
        def find():
            q = self.sim.mail.get((source, self.rank), [])
            return next((i for i, m in enumerate(q) if tag in (-1, m[0])), None)
        self.sim.wait(self.rank, lambda: find() is not None)
        return pickle.loads(self.sim.mail[(source, self.rank)].pop(find())[1])
    def isend(self, obj, dest, tag=0):
        self.send(obj, dest, tag)
        class R:
            def wait(self, *a): return None
            def test(self, *a): return (True, None)
        return R()
    def Dup(self): return self
    def Free(self): pass
