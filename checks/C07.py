"""C07: a column's description survives reopening and growing."""
import bf, gen, mc
from common import COMPS, ATTRS, W
BAD = ['', 'x', 'hello', '<q4', 'i4 x', '<i4\n', '<i', '<i0', '<O8', '<i999', ' <i4', 'V8', '<\x01', 'i-4']

class G(gen.Gen):
    def g_create(self, b=None):
        if self.ops and self.r.random() < .25:
            b = b or self.r.choice(self.c.cols)
            if b in self.disk or b[-1] == 0 or any(h.b == b for h in self.h.values()): return super().g_create(b)
            # a creation that must be refused and leave nothing
            if any(p in self.disk for p in (b[:i] for i in range(1, len(b)))): return super().g_create(b)
            self.nh += 1
            self.add(op='create', b=list(b), h=self.nh, dtype='bad', dtext=self.r.choice(BAD), nmemb=1, fsize=self.fsizes(), badname=False)
            self.add(op='open', b=list(b), h=self.nh)
            return
        if self.ops and self.r.random() < .08:
            self.nh += 1
            self.add(op='create', b=[9], h=self.nh, dtype='<i4', nmemb=1, fsize=[1], badname=True, text=self.r.choice(['a b', 'x\ty', 'n\nm', ' lead', 'trail ']))
            self.add(op='list', p=[])
            return
        return super().g_create(b)

def run(ck):
    q = ck.quick
    scen = mc.emit(ck, 'MC', 'MCgrow.cfg', over=dict(MaxOps='6' if q else '7'), limit=2200 if q else 50000)
    ck.run_core(scen, COMPS, ATTRS, ['hdr', 'data', 'attrs'], label='mc')
    rng = ck.rng('random')
    w = W(create=5, open=6, close=5, flush=3, grow=8, describe=4, setattr=3, rmattr=1, getattr=0, lookup=0, lsattr=1, list=.5, seek=6, write=10, read=6, readsimple=4, buf=.5)
    def cfgs():
        yield dict(dtypes=gen.ALL, nmemb=[1, 2, 3, 17, 1000], maxfsize=3, same=.9)
        yield dict(dtypes=gen.ALL, maxfiles=20, nops=50, same=1)
        yield dict(dtypes=['<i4', '<S3', '>c16'], cols=[(1,), (1, 2), (3, 4, 1), (2,)], maxh=3)
    n = 80 if q else 3000
    scen = [G(rng, gen.Cfg(**dict(dict(w=w, none=.08), **c))).run() for _ in range(n) for c in cfgs()]
    # many physical files: their numbers need more than one digit
    for n in ((20, 300) if q else (20, 300, 4100)):
        fs = [rng.randint(0, 2) for _ in range(n)]
        rows = [[i % 40000] for i in range(sum(fs))]
        scen.append(dict(ops=[dict(op='create', b=[1], h=1, dtype='<i4', nmemb=1, fsize=fs, badname=False),
                              dict(op='write', h=1, mdt='<i4', rows=rows), dict(op='close', h=1), dict(op='open', b=[1], h=2),
                              dict(op='readsimple', h=2, start=0, n=len(rows), mdt='<i4'), dict(op='grow', h=2, fsize=[1, 0, 2]), dict(op='close', h=2),
                              dict(op='open', b=[1], h=3), dict(op='readsimple', h=3, start=0, n=len(rows), mdt='<i8'), dict(op='close', h=3)]))
    ck.run_core(scen, COMPS, ATTRS, ['hdr', 'data', 'attrs'], label='rnd')
