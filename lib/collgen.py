"""Random histories of collective calls."""
import gen
from gen import values_for, partners, convertible, ALL

def split(rng, n, P):
    """n rows over P ranks, some without any"""
    k = rng.random()
    if k < .15:
        x = [0] * P; x[rng.randrange(P)] = n; return x
    if k < .3: return [n * (i + 1) // P - n * i // P for i in range(P)]
    w = [rng.choice([0, 0, 1, 1, 2, 5]) for _ in range(P)]
    if sum(w) == 0: w[rng.randrange(P)] = 1
    cuts = [sum(w[:i]) * n // sum(w) for i in range(P + 1)]
    return [cuts[i + 1] - cuts[i] for i in range(P)]

class CollGen(gen.Gen):
    """ranks: communicator sizes to choose from; the choice is made at the first call"""
    def __init__(self, rng, cfg):
        super().__init__(rng, cfg)
        c = self.c.__dict__
        self.P = rng.choice(c.get('P', [1, 2, 3, 4, 5]))
        self.sched = [rng.randrange(1 << 20), rng.randrange(5)]
        self.extra = rng.choice(c.get('extra', [0, 0, 0, 1, 2]))
        self.add(op='nop', P=self.P, extra=self.extra, sched=self.sched, thr=self.pickthr())
        self.mix = c.get('mix', .15)
    def pickthr(self): return self.r.choice([0, 0, 1, 2, 3, 5, 8, 1000])
    def conc(self): return self.r.choice([-1, 0, 1, 1, 2, 2, 3, self.P, self.P + 1])
    def g_buf(self):
        self.add(op='nop', bufsize=self.r.choice(self.c.bufs), thr=self.pickthr())
    def fsizes(self, grow=False):
        fs = super().fsizes(grow)
        if fs and self.r.random() < .5:         # as create_block(size) and grow_simple(size) divide it
            n, s = len(fs), sum(fs)
            fs = [s * (i + 1) // n - s * i // n for i in range(n)]
        return fs
    def mdts(self, h, ns):
        ms = []
        same = self.mdt(h)
        for n in ns: ms.append(same if self.r.random() > self.mix else self.mdt(h))
        return ms
    def layouts(self, ns): return [self.r.choice(self.c.lays) for _ in ns]
    def g_write(self):
        h = self.pick(lambda h: h.b[-1] != 0 and h.nm > 0 and self.canwrite(h))
        if not h: return
        n = self.count(h); ns = split(self.r, n, self.P); ms = self.mdts(h, ns); ls = self.layouts(ns)
        parts = [dict(mdt=m, rows=self.rows(h, m, k), lay=l) for m, k, l in zip(ms, ns, ls)]
        if n > 0: self.claim(h)
        if all(convertible(m, h.dt) or k == 0 for m, k in zip(ms, ns)) and h.pos + n <= self.size(h): h.pos += n
        self.add(op='cwrite', h=h.id, parts=parts, conc=self.conc())
    def rows(self, h, m, k):
        v = values_for(self.r, m, h.dt if convertible(m, h.dt) else None, not self.neg[h.b])
        return [[v() for _ in range(h.nm)] for _ in range(k)]
    def g_read(self):
        h = self.data()
        if not h: return
        n = self.count(h); ns = split(self.r, n, self.P); ms = self.mdts(h, ns); ls = self.layouts(ns)
        self.add(op='cread', h=h.id, parts=[dict(mdt=m, n=k, lay=l) for m, k, l in zip(ms, ns, ls)], conc=self.conc())
        if h.pos + n <= self.size(h) and all(convertible(h.dt, m) or k == 0 for m, k in zip(ms, ns)): h.pos += n
    def places(self, h):
        """disjoint ranges for the ranks, in any order"""
        cuts = sorted(self.r.randint(0, self.size(h)) for _ in range(2 * self.P))
        p = [(cuts[2 * i], cuts[2 * i + 1] - cuts[2 * i]) for i in range(self.P)]
        self.r.shuffle(p)
        return p
    def g_lwrite(self):
        h = self.pick(lambda h: h.b[-1] != 0 and h.nm > 0 and self.canwrite(h))
        if not h: return
        ps = self.places(h); ms = self.mdts(h, ps)
        self.claim(h)
        self.add(op='lwrite', h=h.id, parts=[dict(mdt=m, at=a, rows=self.rows(h, m, n), lay=self.r.choice(self.c.lays)) for m, (a, n) in zip(ms, ps)])
    def g_lread(self):
        h = self.data()
        if not h: return
        parts = []
        for _ in range(self.P):
            a = self.r.randint(0, self.size(h))
            parts.append(dict(mdt=self.mdt(h), at=a, n=self.r.randint(0, self.size(h) - a), lay=self.r.choice(self.c.lays)))
        self.add(op='lread', h=h.id, parts=parts)
    def g_readsimple(self): self.g_lread()
    def g_cfile(self):
        m = self.r.choice(['open', 'create'])
        self.add(op='cfile', mode=m, kind=self.r.choice(['there', 'absent', 'blocked'] if m == 'open' else ['there', 'blocked', 'new']))

def collective(ops, rng, P, conc=None, extra=(0,)):
    """a serial history made by P ranks together"""
    out = [dict(op='nop', P=P, extra=rng.choice(extra), sched=[rng.randrange(1 << 20), rng.randrange(5)], thr=rng.choice([0, 1, 2, 1000]))]
    for o in ops:
        c = rng.choice([-1, 1, 2, P]) if conc is None else conc
        if o['op'] == 'write':
            ns = split(rng, len(o['rows']), P); parts = []; at = 0
            for n in ns: parts.append(dict(mdt=o['mdt'], rows=o['rows'][at:at + n], lay=o.get('lay', 'c'))); at += n
            out.append(dict(op='cwrite', h=o['h'], parts=parts, conc=c))
        elif o['op'] == 'read':
            out.append(dict(op='cread', h=o['h'], parts=[dict(mdt=o['mdt'], n=n, lay=o.get('lay', 'c')) for n in split(rng, o['n'], P)], conc=c))
        elif o['op'] == 'lwrite':
            ps = o['parts'][:P] + [dict(o['parts'][0], rows=[])] * (P - len(o['parts']))
            out += [dict(op='lwrite', h=o['h'], parts=ps)] + [dict(op='lwrite', h=o['h'], parts=[p] + [dict(p, rows=[])] * (P - 1)) for p in o['parts'][P:]]
        else: out.append(o)
    return out
