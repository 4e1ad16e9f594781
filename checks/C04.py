"""C04: positions and bounds."""
import bf, gen, mc
from common import COMPS, ATTRS, W
HUGE = [10**9, (1 << 31) - 1, 1 << 31, (1 << 32) + 1, 1 << 40, (1 << 62), (1 << 63) - 1, -(1 << 31), -(1 << 33), -(1 << 62), -(1 << 63)]
CLIP = lambda x: max(-10**9, min(10**9, x))

class G(gen.Gen):
    """requests far outside as well"""
    def g_seek(self):
        super().g_seek()
        h = self.data()
        if h and self.r.random() < .2:
            x = self.r.choice(HUGE)
            self.add(op='seek', h=h.id, off=CLIP(x), roff=x)
    def g_seekrel(self):
        super().g_seekrel()
        h = self.data()
        if h and self.r.random() < .2:
            x = self.r.choice([x for x in HUGE if abs(x) < 1 << 62])
            self.add(op='seekrel', h=h.id, off=CLIP(x), roff=x)
    def g_readsimple(self):
        super().g_readsimple()
        h = self.data()
        if h and self.r.random() < .4:
            x = self.r.choice([x for x in HUGE if x > 0]); n = self.size(h)
            st = self.r.choice([0, self.r.randint(0, n), -self.r.randint(0, n), n + 1, -n - 1])
            if self.r.random() < .7: self.add(op='readsimple', h=h.id, start=st, n=CLIP(x), rn=x, mdt=self.mdt(h))
            else:
                x = self.r.choice(HUGE); k = self.r.randint(0, 4)
                self.add(op='readsimple', h=h.id, start=CLIP(x), rstart=x, n=k, mdt=self.mdt(h))
    def g_over(self):
        h = self.pick(lambda h: h.b[-1] != 0 and h.nm > 0 and self.canwrite(h))
        if not h: return
        x = self.r.choice([10000, (1 << 31) - 1, 1 << 31, (1 << 32) + 1, 1 << 33, 1 << 40, 1 << 55])
        self.add(op='overlong', h=h.id, count=str(x), mdt=gen.partners(h.dt, self.r, .8), dir=self.r.choice(['read', 'write']))

def run(ck):
    q = ck.quick
    # all requests around both ends, in all small states
    scen = mc.emit(ck, 'MC', 'MCdata.cfg', over=dict(Kinds='{"create","open","grow","seek","seekrel","eof","write","read","readsimple"}', MaxH='1', MaxOps='6' if q else '7'),
                   limit=2000 if q else 50000)
    ck.run_core(scen, COMPS, ATTRS, ['data', 'pos', 'hdr', 'mem'], label='mc')
    rng = ck.rng('random')
    w = W(setattr=0, rmattr=0, getattr=0, lookup=0, lsattr=0, list=0, describe=2, buf=1, grow=2, seek=14, seekrel=8, eof=6, readsimple=8, over=4)
    n = 200 if q else 6000
    scen = [G(rng, gen.Cfg(w=w, none=.06, bad=.25, exact=.4, **c)).run() for _ in range(n)
            for c in (dict(bufs=[1, 8, 24, 64 << 20]), dict(maxfiles=12, maxfsize=2, nops=50))]
    ck.run_core(scen, COMPS, ATTRS, ['data', 'pos', 'hdr', 'mem'], label='rnd')
