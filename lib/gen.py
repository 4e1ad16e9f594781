"""Random operation histories for the real library.  The generator follows a rough model only
to aim well; whether results are right is decided by the specification."""
import random
from enc import split, norm

NUM = ['i4', 'i8', 'u4', 'u8', 'f4', 'f8']
CPLX = ['c8', 'c16']
PASS = ['i1', 'i2', 'u1', 'u2', 'b1', 'S1', 'S3', 'S7', 'S16']
def both(ts): return [o + t for t in ts for o in '<>']
ALL = both(NUM + CPLX + PASS[:4]) + ['<b1', '<S1', '<S3', '<S7', '<S16']

def values_for(rng, a, b=None, nonneg=False):
    """a generator of values representable in both types"""
    lo, hi = 0 if nonneg else -50000, 50000
    for d in (a, b):
        if d is None: continue
        _, k, w = split(d)
        if k == 'u': lo = max(lo, 0)
        if k in 'iu' and w == 1: lo, hi = max(lo, -128), min(hi, 127)
        if k in 'iu' and w == 2: lo, hi = max(lo, -32768), min(hi, 32767)
        if k == 'b': lo, hi = 0, 1
        if k == 'S': lo, hi = max(lo, 1), min(hi, 200)
    return lambda: rng.randint(lo, hi) if rng.random() < .8 else rng.choice([lo, hi, min(hi, max(lo, rng.randint(-2, 2)))])

def partners(d, rng, same, signed=False):
    """types that convert to/from d; signed: only those that hold negative values"""
    o, k, w = split(d)
    if rng.random() < same: return d
    t = '%s%d' % (k, w)
    if t in NUM: c = both(NUM)
    elif t in CPLX: c = both(CPLX)
    elif k == 'S': c = [d]
    else: c = both([t]) if k != 'b' else ['<b1']
    if signed: c = [x for x in c if x[1] not in 'ub']
    return rng.choice(c or [d])

class Cfg:
    none = 0                # how often a column is created without a type
    own = 0                 # how often an attribute is set from the memory of another
    def __init__(self, **kw):
        self.nops = 40
        self.cols = [(1,), (2,), (1 + 2, 1)]
        self.dtypes = ['<i4', '<f8', '<i8', '>i4', '<f4', '<u1']
        self.lays = ['c']
        self.srclays = []
        self.nmemb = [1, 1, 1, 2, 3]
        self.maxfiles, self.maxfsize = 5, 6
        self.fsz = None
        self.same = .6
        self.bad = .05
        self.bufs = [64 << 20]
        self.attrs = [1, 2, 3, 4, 5]
        self.adts = ALL
        self.alens = [0, 1, 1, 2, 3, 7]
        self.badnames = ['', 'a b', 'a\tb', 'a\nb', ' ', 'x ']
        self.w = dict(create=2, open=4, close=3, drop=1, flush=3, grow=2, seek=10, seekrel=3, eof=2, write=14, read=12,
                      readsimple=4, setattr=2, rmattr=1, getattr=1, lookup=1, lsattr=1, list=1, describe=1, buf=1)
        self.maxh = 5
        self.fresh = True       # begin with a create
        self.exact = .3         # transfers that fill the rest of the column
        self.meta = 0           # probability that an opened block is the meta block
        self.__dict__.update(kw)

class H:
    pass

class Gen:
    def __init__(self, rng, cfg):
        self.r, self.c = rng, cfg
        self.ops = []
        self.neg = {}       # col -> may hold negative values
        self.disk = {}      # col -> (dtype, nmemb, fsize) as on disk
        self.h = {}
        self.nh = 0
        self.ver = {}       # col -> number of saves
        self.writer = {}    # col -> handle id

    def add(self, **k):
        self.ops.append(k)

    def fsizes(self, grow=False):
        if self.c.fsz: return list(self.r.choice(self.c.fsz))
        n = self.r.choice([0, 1, 1, 2, 2, 3, self.c.maxfiles]) if not grow else self.r.choice([0, 1, 1, 2, 3])
        return [self.r.choice([0, 1, 1, 2, 3, self.c.maxfsize]) for _ in range(n)]

    def pick(self, f=lambda h: True):
        c = [h for h in self.h.values() if f(h)]
        return self.r.choice(c) if c else None

    def size(self, h): return sum(h.fs)

    def newh(self, b, d):
        self.nh += 1
        h = H(); h.id = self.nh; h.b = b; h.dt, h.nm, h.fs = d[0], d[1], list(d[2]); h.pos = 0; h.attrs = {}; h.mod = False; h.ver = self.ver.get(b, 0)
        self.h[h.id] = h
        return h

    def canwrite(self, h):
        # one modifying handle at a time, and none that missed another one's changes
        return self.writer.get(h.b, h.id) == h.id and h.ver == self.ver.get(h.b, 0)
    def claim(self, h): self.writer[h.b] = h.id; h.mod = True
    def gone(self, h):
        del self.h[h.id]
        if self.writer.get(h.b) == h.id: del self.writer[h.b]
    def save(self, h):
        if h.mod:
            if h.b[-1] != 0: self.disk[h.b] = (h.dt, h.nm, list(h.fs))
            self.ver[h.b] = h.ver = self.ver.get(h.b, 0) + 1
            h.mod = False
            if self.writer.get(h.b) == h.id: del self.writer[h.b]

    def op(self, k): getattr(self, 'g_' + k)()

    def g_create(self, b=None):
        b = b or self.r.choice(self.c.cols)
        for h in [h for h in self.h.values() if h.b == b]:
            if self.r.random() < .5 and h.mod: self.add(op='close', h=h.id)
            else: self.add(op='drop', h=h.id)
            self.gone(h)
        self.writer.pop(b, None)
        dt = self.r.choice(self.c.dtypes); nm = self.r.choice(self.c.nmemb); fs = self.fsizes()
        if b[-1] == 0:
            dt, nm, fs = '<i4', 1, []
        if b[-1] != 0 and self.r.random() < self.c.none:
            # no type is given: for attributes alone
            ask = dict(dtype='none', nmemb=self.r.choice([0, 0, 1, 2]), fsize=fs)
            dt, nm, fs = '<i8', ask['nmemb'], []
        else: ask = dict(dtype=dt, nmemb=nm, fsize=fs)
        h = self.newh(b, (dt, nm, fs))
        self.ver[b] = h.ver = self.ver.get(b, 0) + 1
        self.neg[b] = dt[1] not in 'ub' and self.r.random() < .5
        self.disk[b] = (dt, nm, list(fs))
        self.add(op='create', b=list(b), h=h.id, badname=False, **ask)
        return h

    def g_open(self, b=None):
        if b is None:
            if self.r.random() < self.c.bad: b = self.r.choice(self.c.cols)
            elif self.disk: b = self.r.choice(sorted(self.disk))
            else: return
        if len(self.h) >= self.c.maxh: return
        # the meta block of a directory that may not exist can be opened, but not saved
        if b[-1] == 0 and len(b) > 1 and b not in self.disk: return
        if b in self.disk or b[-1] == 0:
            h = self.newh(b, self.disk.get(b, ('####', 0, [])))
            self.add(op='open', b=list(b), h=h.id)
            return h
        self.nh += 1
        self.add(op='open', b=list(b), h=self.nh)

    def g_close(self):
        h = self.pick()
        if h: self.add(op='close', h=h.id); self.save(h); self.gone(h)
    def g_drop(self):
        h = self.pick()
        if h: self.add(op='drop', h=h.id); self.gone(h)
    def g_flush(self):
        h = self.pick()
        if h:
            self.add(op='flush', h=h.id); self.save(h)
    def g_grow(self):
        h = self.pick(lambda h: self.canwrite(h) and h.b[-1] != 0 and len(h.fs) < 12)
        if h:
            # other handles on the column are dropped: growing claims new file numbers
            fs = self.fsizes(True)
            self.claim(h); h.fs += fs
            self.add(op='grow', h=h.id, fsize=fs)
    # (what rows without elements are is left open, but there may be none of them)
    def fit(self, h): return h.b[-1] != 0 and (h.nm > 0 or self.size(h) == 0)
    def data(self): return self.pick(self.fit)
    def g_seek(self):
        h = self.data()
        if not h: return
        n = self.size(h); x = self.r.random()
        if x < .65: off = self.r.randint(0, n)
        elif x < .85: off = -self.r.randint(0, n)
        else: off = self.r.choice([n, n + 1, -n, -n - 1, n + self.r.randint(1, 9), -n - self.r.randint(1, 9), 1000000, -1000000])
        p = off + n if off < 0 else off
        if 0 <= p <= n: h.pos = p
        self.add(op='seek', h=h.id, off=off)
    def g_seekrel(self):
        h = self.data()
        if not h: return
        n = self.size(h)
        if self.r.random() < .7: p = self.r.randint(0, n)
        else: p = self.r.choice([-1, n + 1, -3, n + 5, 0, n])
        self.add(op='seekrel', h=h.id, off=p - h.pos)
        if 0 <= p <= n: h.pos = p
    def g_eof(self):
        h = self.data()
        if h: self.add(op='eof', h=h.id)

    def count(self, h):
        left = self.size(h) - h.pos
        if h.nm == 0: return 0
        x = self.r.random()
        if x < self.c.exact: return left
        if x < .92: return self.r.randint(0, left)
        return left + self.r.choice([1, 1, 2, 5])
    def mdt(self, h, bad=None):
        if self.r.random() < self.c.bad:
            m = self.r.choice(ALL)
            if not (convertible(m, h.dt) or convertible(h.dt, m)): return m
        return partners(h.dt, self.r, self.c.same, self.neg[h.b])

    def g_write(self):
        h = self.pick(lambda h: self.fit(h) and self.canwrite(h))
        if not h: return
        n = self.count(h); mdt = self.mdt(h)
        conv = convertible(mdt, h.dt)
        v = values_for(self.r, mdt, h.dt if conv else None, not self.neg[h.b])
        src = self.c.lays + self.c.srclays
        lay = self.r.choice(src)
        rows = [[v() for _ in range(h.nm)] for _ in range(n)]
        if lay == 'bcast' and rows: rows = [rows[0]] * n
        if lay == 'bcast2': rows = [[r[0]] * h.nm for r in rows]
        if lay in ('ovl',) and rows:
            flat = [v() for _ in range(n + h.nm)]
            rows = [[flat[i + k] for k in range(h.nm)] for i in range(n)]
        if n > 0: self.claim(h)
        if conv and h.pos + n <= self.size(h): h.pos += n
        self.add(op='write', h=h.id, mdt=mdt, rows=rows, lay=lay)
    def g_read(self):
        h = self.data()
        if not h: return
        n = self.count(h); mdt = self.mdt(h)
        self.add(op='read', h=h.id, mdt=mdt, n=n, lay=self.r.choice(self.c.lays))
        if h.pos + n <= self.size(h) and convertible(h.dt, mdt):
            # may fail when never written: the specification then leaves the position open
            h.pos += n
    def g_readsimple(self):
        h = self.data()
        if not h: return
        n = self.size(h)
        st = self.r.choice([0, self.r.randint(0, n), -self.r.randint(0, n), n, n + 1, -n - 1, self.r.randint(0, n)])
        k = self.r.choice([0, 1, self.r.randint(0, n + 1), n, n + 7, 1 << 20])
        self.add(op='readsimple', h=h.id, start=st, n=k, mdt=self.mdt(h))

    def g_setattr(self):
        h = self.pick(self.canwrite)
        if not h: return
        self.claim(h)
        dt = self.r.choice(self.c.adts); n = self.r.choice(self.c.alens)
        v = values_for(self.r, dt)
        o, k, w = split(dt)
        if self.r.random() < self.c.bad:
            self.add(op='setattr', h=h.id, name=-1, badname=True, text=self.r.choice(self.c.badnames), dt=dt, n=n, vals=[v() for _ in range(n)])
            return
        name = self.r.choice(self.c.attrs)
        if self.r.random() < self.c.own:
            g = self.r.choice([h, h, self.pick()])
            if g.attrs:
                src = self.r.choice(sorted(g.attrs))
                if self.r.random() < .3: name = src
                h.attrs[name] = g.attrs[src]
                self.add(op='setattr', h=h.id, g=g.id, own=src, name=name, badname=False, vals=[], plain=not h.attrs[name][2])
                return
        op = dict(op='setattr', h=h.id, name=name, badname=False, dt=dt, n=n, vals=[v() for _ in range(n)])
        if self.r.random() < .4:
            # arbitrary bytes; such values are only read back in the same kind
            op['raw'] = [self.r.choice([0, 10, 13, 32, 35, 34, 92, 255, self.r.randint(0, 255)]) for _ in range(n * w)]
            op['vals'] = []
        h.attrs[name] = (dt, n, 'raw' in op, any(x < 0 for x in op['vals']))
        self.add(**op)
    def g_rmattr(self):
        h = self.pick(self.canwrite)
        if not h: return
        self.claim(h)
        name = self.r.choice(sorted(h.attrs)) if h.attrs and self.r.random() < .7 else self.r.choice(self.c.attrs)
        h.attrs.pop(name, None)
        self.add(op='rmattr', h=h.id, name=name)
    def g_getattr(self):
        h = self.pick()
        if not h: return
        if h.attrs and self.r.random() < .85:
            name = self.r.choice(sorted(h.attrs)); dt, n, raw, neg = h.attrs[name]
            o, k, w = split(dt)
            if raw: dt = dt if k in 'Sb' or self.r.random() < .5 else self.r.choice('<>') + dt[1:]
            else: dt = partners(dt, self.r, .3, neg)
            if self.r.random() < .1: n = self.r.choice([n + 1, max(n - 1, 0), 0])
        else: name, dt, n = self.r.choice(self.c.attrs), '<i4', 1
        self.add(op='getattr', h=h.id, name=name, dt=dt, n=n)
    def g_lookup(self):
        h = self.pick()
        if h: self.add(op='lookup', h=h.id, name=self.r.choice(self.c.attrs))
    def g_lsattr(self):
        h = self.pick()
        if h: self.add(op='lsattr', h=h.id)
    def g_list(self):
        self.add(op='list', p=[])
    def g_describe(self):
        h = self.pick()
        if h: self.add(op='describe', h=h.id)
    def g_buf(self):
        self.add(op='nop', bufsize=self.r.choice(self.c.bufs))

    def run(self):
        ks, ws = list(self.c.w), list(self.c.w.values())
        if self.c.bufs != [64 << 20]: self.g_buf()
        if self.c.fresh: self.g_create()
        n = 0
        while len(self.ops) < self.c.nops and n < 5 * self.c.nops:
            self.op(self.r.choices(ks, ws)[0]); n += 1
        for h in list(self.h.values()):
            self.add(op='close', h=h.id)
        return dict(ops=self.ops)

def convertible(a, b):
    x, y = '%s%d' % split(a)[1:], '%s%d' % split(b)[1:]
    return x == y or (x in NUM and y in NUM) or (x == 'b1' and y in NUM) or (x in CPLX and y in CPLX)
