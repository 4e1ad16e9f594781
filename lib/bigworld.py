"""Columns whose files are far larger than memory: one row of the abstract file stands for
a huge stretch of rows that is never touched (coordinate compression)."""
import bf, gen
from bf import View, chunk, dlen, Bad
from enc import dec, split

# abstract file size -> (abstract row that is stretched, number of additional real rows)
GAP = {4: (2, (1 << 31) - 3), 5: (1, (1 << 32) - 5), 6: (3, 1 << 31), 7: (3, (1 << 33) + 1), 8: (0, (1 << 32) - 2)}
REAL = {n: n + g[1] for n, g in GAP.items()}
ABS = {v: k for k, v in REAL.items()}

def rsize(n): return REAL.get(n, n)
def asize(n): return ABS.get(n, n if n < 4 else -n % 100000)
def toreal(fs, p):
    """abstract absolute position -> real one"""
    if p < 0: return -1 + p
    o = 0
    for n in fs:
        if p < n:
            k, g = GAP.get(n, (n, 0))
            return o + p + (g if p > k else 0)
        p -= n; o += rsize(n)
    return o + p
def toabs(fs, p):
    o = 0
    for n in fs:
        if p < rsize(n):
            k, g = GAP.get(n, (n, 0))
            if p <= k: return o + p
            if p <= k + g: return 90000 + o
            return o + p - g
        p -= rsize(n); o += n
    return o + p

class BigWorld(bf.World):
    def cfs(self, b, fs): return [asize(n) for n in fs]
    def rfs(self, b, fs): return [rsize(n) for n in fs]
    def rgrow(self, b, fs): return [rsize(n) for n in fs]
    def fs(self, h): return [asize(self.L.vs_fsize(h, i)) for i in range(self.L.vs_Nfile(h))]
    def desc(self, ev, h):
        fs = self.fs(h)
        real = sum(rsize(n) for n in fs)
        ev['desc'] = dict(dtype=self.L.vs_dtype(h).decode('latin1'), nmemb=self.L.vs_nmemb(h), fsize=fs,
                          size=sum(fs) if self.L.vs_size(h) == real else -5)
    def pos(self, ev):
        h = self.h[ev['h']]
        p, a = self.L.vs_pos(h), self.L.vs_aoff(h)
        ev['pos'] = toabs(self.fs(h), p) if p == a else -7
    def rseek(self, b, off, h):
        fs = self.fs(h); n = sum(fs)
        if off >= 0: return toreal(fs, off)
        if off + n < 0: return -sum(map(rsize, fs)) + (off + n)
        return toreal(fs, off + n) - sum(map(rsize, fs))
    def rrel(self, b, off, h):
        fs = self.fs(h)
        cur = self.L.vs_aoff(h)
        return toreal(fs, toabs(fs, cur) + off) - cur
    def rows(self, b, i, data, dt, nmemb):
        if data is None: raise Bad('file %d missing' % i)
        h = self.hdrfs[b][i] if i < len(self.hdrfs[b]) else None
        w = split(dt)[2]; rb = w * nmemb
        if rb == 0: return []
        L = dlen(data)
        if L % rb: raise Bad('file %d has a partial row' % i)
        k, g = GAP.get(h, (1 << 60, 0))
        out = []
        n = L // rb
        if n > k and n <= k + g: raise Bad('file %d ends in the untouched part' % i)
        if n > k + g and not isinstance(data, bytes):
            for o, d in data[1]:
                lo, hi = max(o, k * rb), min(o + len(d), (k + g + 1) * rb)
                if lo < hi and any(d[lo - o:hi - o]): raise Bad('file %d changed in the untouched part' % i)
        for r in range(n):
            if r > k + 100 and r <= k + g: break
            if r == k: out.append([bf.HOLE] * nmemb); continue
            if r > k: break
            x = chunk(data, r * rb, rb)
            out.append([dec(dt, x[j * w:j * w + w]) for j in range(nmemb)])
        for r in range(k + g + 1, n):
            x = chunk(data, r * rb, rb)
            out.append([dec(dt, x[j * w:j * w + w]) for j in range(nmemb)])
        return out
    def readable(self, d, snap):
        # sizes decide how each file is stretched; those in use are the largest set known
        rel = d[2:] if d.startswith('F/') else ''
        b = self.unpath(rel)
        if b is not None: self.hdrfs.setdefault(tuple(b), [])
        return super().readable(d, snap)
    hdrfs = {}
    def reset(self):
        self.hdrfs = {}
        super().reset()
    def op_create(self, ev):
        super().op_create(ev)
    def execute(self, op):
        b = tuple(op['b']) if 'b' in op else self.bof.get(op.get('h'))
        if op['op'] == 'create': self.hdrfs[b] = list(op['fsize'])
        if op['op'] == 'grow': self.hdrfs[b] = self.fs(self.h[op['h']]) + list(op['fsize'])
        return super().execute(op)

class BigGen(gen.Gen):
    """transfers never cover a stretched row"""
    def fsizes(self, grow=False):
        n = self.r.choice([1, 2, 3, 4]) if not grow else self.r.choice([1, 2])
        return [self.r.choice([0, 1, 2, 3, 4, 4, 5, 6, 7, 8]) for _ in range(n)]
    def room(self, h, p):
        """rows from p to the next stretched row or the end"""
        o = 0
        for n in h.fs:
            if n in GAP and o + GAP[n][0] >= p: return o + GAP[n][0] - p
            o += n
        return o - p
    def count(self, h):
        left = self.room(h, h.pos)
        if left == self.size(h) - h.pos: return super().count(h)
        return left if self.r.random() < self.c.exact else self.r.randint(0, left)
    def g_readsimple(self):
        h = self.data()
        if not h: return
        n = self.size(h)
        p = self.r.randint(0, n)
        left = self.room(h, p)
        k = self.r.randint(0, left) if left < n - p else self.r.randint(0, left + 4)
        self.add(op='readsimple', h=h.id, start=p if self.r.random() < .6 or p == n else p - n, n=k, mdt=self.mdt(h))
    def g_read(self):
        # a read of rows that were never written may fail half way; the position is then set again
        k = len(self.ops)
        super().g_read()
        if len(self.ops) > k:
            h = self.h[self.ops[-1]['h']]
            self.add(op='seek', h=h.id, off=h.pos)
