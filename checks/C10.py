"""C10: recorded checksums equal the byte sums of the data."""
import bf, gen, mc, collgen
from common import COMPS, ATTRS, W

class Once(gen.Gen):
    """every row is written at most once, in any order, split and number of sessions"""
    def g_create(self, b=None):
        h = super().g_create(b)
        self.todo[h.b] = set(range(sum(h.fs)))
        return h
    def g_grow(self):
        h = self.pick(lambda h: self.canwrite(h) and h.b[-1] != 0 and len(h.fs) < 12)
        if not h: return
        old = sum(h.fs); fs = self.fsizes(True)
        self.claim(h); h.fs += fs
        self.todo[h.b] = {r for r in self.todo[h.b] if r < old} | set(range(old, sum(h.fs)))
        self.add(op='grow', h=h.id, fsize=fs)
    def g_write(self):
        h = self.pick(lambda h: h.b[-1] != 0 and h.nm > 0 and self.canwrite(h) and self.todo[h.b])
        if not h: return
        t = self.todo[h.b]
        p = self.r.choice(sorted(t)) if self.r.random() < .6 else min(t)
        if p >= sum(h.fs): return
        n = 1
        while p + n in t and p + n < sum(h.fs) and self.r.random() < .8: n += 1
        h.pos = p
        self.add(op='seek', h=h.id, off=p)
        mdt = gen.partners(h.dt, self.r, .5, self.neg[h.b])
        v = gen.values_for(self.r, mdt, h.dt, not self.neg[h.b])
        self.claim(h)
        t -= set(range(p, p + n)); h.pos = p + n
        self.add(op='write', h=h.id, mdt=mdt, rows=[[v() for _ in range(h.nm)] for _ in range(n)], lay=self.r.choice(self.c.lays))
    def g_drop(self):
        h = self.pick(lambda h: not h.mod)     # what was written must be saved
        if h: self.add(op='drop', h=h.id); self.gone(h)
    def __init__(self, rng, cfg):
        super().__init__(rng, cfg); self.todo = {}

def run(ck):
    q = ck.quick
    scen = mc.emit(ck, 'MC', 'MCdata.cfg', over=dict(Kinds='{"create","open","close","flush","grow","write"}', MaxOps='6' if q else '7'), limit=2000 if q else 50000)
    ck.run_core(scen, COMPS, ATTRS, ['sum'], label='mc')
    rng = ck.rng('random')
    w = dict(create=1, open=4, close=4, drop=1, flush=4, grow=2, write=16, read=3, readsimple=2, setattr=1, buf=1)
    n = 100 if q else 3000
    scen = []
    for _ in range(n):
        for c in (dict(dtypes=gen.ALL, same=.6), dict(same=.5, maxfiles=10, nops=50), dict(nmemb=[3, 5, 40], lays=bf.LAYOUTS)):
            scen.append(Once(rng, gen.Cfg(**dict(dict(w=w, bufs=[1, 8, 24, 100, 64 << 20], cols=[(1,), (2,)], maxh=3), **c))).run())
    ck.run_core(scen, COMPS, ATTRS, ['sum'], label='once')
    # any history: files touched once by then
    scen = [gen.Gen(rng, gen.Cfg(bufs=[8, 24, 64 << 20])).run() for _ in range(100 if q else 3000)]
    ck.run_core(scen, COMPS, ATTRS, ['sum'], label='rnd')
    # the same on ranks: collective transfers, and rows written by every rank for itself
    scen = []
    for _ in range(50 if q else 1500):
        for c in (dict(dtypes=gen.ALL, same=.6), dict(same=.5, maxfiles=10, nops=50), dict(nmemb=[3, 5])):
            ops = Once(rng, gen.Cfg(**dict(dict(w=dict(w, grow=4, flush=6), bufs=[8, 24, 64 << 20], cols=[(1,), (2,)], maxh=3), **c))).run()['ops']
            scen.append(dict(ops=collgen.collective(alone(ops, rng), rng, rng.choice([1, 2, 3, 4, 5]))))
    ck.run_core(scen, COMPS, ATTRS, ['sum'], module='CollTrace', world='collworld:CollWorld', lib='sim', label='coll')

def alone(ops, rng):
    """some of the writes are made by the ranks by themselves"""
    out = []
    for i, o in enumerate(ops):
        if o['op'] == 'write' and ops[i - 1]['op'] == 'seek' and rng.random() < .5:
            n = len(o['rows']); k = rng.randint(1, 4); cut = sorted(rng.randint(0, n) for _ in range(k - 1)); cut = [0] + cut + [n]
            out.append(dict(op='lwrite', h=o['h'], parts=[dict(mdt=o['mdt'], at=ops[i - 1]['off'] + a, rows=o['rows'][a:b], lay='c') for a, b in zip(cut, cut[1:])]))
        else: out.append(o)
    return out
