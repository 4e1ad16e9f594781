"""C09: listing shows exactly the columns that exist."""
import gen, mc
from common import ATTRS
COMPS = {1: 'a', 2: 'ab', 3: 'a.c', 4: 'd', 5: '%s%n', 6: "it's", 7: '-n', 8: '#x', 9: '*', 10: '\\', 11: 'x' * 200, 12: '\u00fc', 13: '000000',
         14: 'Header', 15: 'a=b', 16: '~', 17: '0', 18: 'b', 19: 'header', 20: 'attr-v2', 1000: '.hid', 1001: '..x', 1002: '.git'}
TOPONLY = (13, 19, 20)

class G(gen.Gen):
    """many columns at many depths; directories, hidden entries and stray files in between"""
    def name(self):
        if self.made and self.r.random() < .5:
            p = self.r.choice(sorted(self.made)); p = p[:self.r.randint(0, len(p))]
        else: p = ()
        while True:
            c = self.r.choice(self.comps)
            if c in TOPONLY and p: c = 1
            p += (c,)
            if self.r.random() < .55: return p
    def g_create(self, b=None): self.g_create_at(self.name())
    def g_create_at(self, b):
        if len(b) > 6 or any(h.b == b for h in self.h.values()): return
        self.made.add(b)
        h = super().g_create(b)
        if self.r.random() < .8: self.add(op='close', h=h.id); self.save(h); self.gone(h)
    def g_open(self, b=None):
        x = self.r.random()
        if x < .5 and self.disk: return super().g_open(self.r.choice(sorted(self.disk)))
        if x < .8 and self.made:       # the directories on the way, or something inside or beside
            p = self.r.choice(sorted(self.made))
            b = p[:self.r.randint(1, len(p))] if self.r.random() < .6 else p + (self.r.choice([1, 2, 18]),)
        else: b = self.name()
        if b in self.disk: return super().g_open(b)
        self.nh += 1
        self.add(op='open', b=list(b), h=self.nh)
    def g_list(self):
        p = ()
        if self.made and self.r.random() < .5:
            p = self.r.choice(sorted(self.made)); p = p[:self.r.randint(0, len(p) - 1)]
        if any(p[:i] in self.disk for i in range(1, len(p) + 1)): p = ()
        self.add(op='list', p=list(p), slash=bool(p) and self.r.random() < .3)
    def g_stray(self):
        d = self.r.choice(['', 'n1/', 'n2/n3/', '.h/'])
        if self.r.random() < .3:
            b = self.name()
            if len(b) > 5 or any(c >= 1000 for c in b): return
            self.add(op='nop', link=list(b))
            if self.r.random() < .7: self.made.add(b); self.g_create_at(b + ((1,) if self.r.random() < .3 else ()))
        elif self.r.random() < .5: self.add(op='nop', stray=d + self.r.choice(['README', 'x y', '.s', '000001', 'attr', 'headers', 'data.header']))
        else: self.add(op='nop', mkdir=d + self.r.choice(['empty', 'e/m', '.hidden/dir', 'x y']))
    def __init__(self, rng, cfg):
        super().__init__(rng, cfg)
        self.made = set(); self.comps = cfg.comps

def run(ck):
    q = ck.quick
    scen = mc.emit(ck, 'MC', 'MCns.cfg', over=dict(MaxOps='8'), limit=1500 if q else 30000)
    ck.run_core(scen, COMPS, ATTRS, ['list'], label='mc')
    rng = ck.rng('random')
    w = dict(create=12, open=8, close=2, list=6, stray=2, describe=0)
    def cfgs():
        yield dict(comps=[1, 2, 3, 4, 18], nops=50)
        yield dict(comps=list(COMPS), nops=60)
        yield dict(comps=[1, 2, 1000, 1001], nops=40)
        yield dict(comps=[c for c in COMPS if c < 1000], nops=250, w=dict(w, list=2))
    n = 60 if q else 2000
    scen = []
    for _ in range(n):
        for c in cfgs():
            s = G(rng, gen.Cfg(**dict(dict(w=w, fresh=False, maxfiles=1, maxfsize=1, maxh=4), **c))).run()
            s['ops'].append(dict(op='list', p=[]))
            scen.append(s)
    ck.run_core(scen, COMPS, ATTRS, ['list'], label='rnd')
