"""C16: record operations act on each field's column as on separate columns."""
import gen, mc, bf, collgen
from common import COMPS as C0, ATTRS, W
COMPS = {**C0, 7: 'nope'}

class G(gen.Gen):
    def fields(self, existing):
        if existing:
            cs = [b for b in self.disk if b[-1] != 0]
            if not cs: return None
            k = self.r.randint(1, min(len(cs), 4))
            bs = self.r.sample(sorted(cs), k)
            out = []
            for b in bs:
                dt, nm, _ = self.disk[b]
                out.append(dict(b=list(b), dtype=gen.partners(dt, self.r, self.c.same, self.neg[b]), nmemb=nm))
            if self.r.random() < .06: out.insert(self.r.randint(0, k), dict(b=[7], dtype='<i4', nmemb=1))
            if self.r.random() < .05:
                f = self.r.choice(out); f['dtype'] = self.r.choice(gen.ALL)
            return out
        bs = self.r.sample(self.c.cols, self.r.randint(1, min(4, len(self.c.cols))))
        return [dict(b=list(b), dtype=self.r.choice(self.c.dtypes), nmemb=self.r.choice(self.c.nmemb)) for b in bs]
    def clear(self, rt, ro=False):
        """no handle with unsaved changes on these columns; for a creation no handle at all"""
        for f in rt:
            for h in [h for h in self.h.values() if h.b == tuple(f['b'])]:
                if ro and not h.mod: continue
                self.add(op='close', h=h.id); self.save(h); self.gone(h)
    def bump(self, b):
        self.ver[b] = self.ver.get(b, 0) + 1
    def how(self): return self.r.choice(['add', 'set'])
    def g_reccreate(self):
        mode = self.r.choice(['w+', 'w+', 'a+', 'a+', 'a+', 'a+'] + (['r', 'w', '', 'a+ '] if self.r.random() < .1 else []))
        rt = self.fields(mode == 'a+')
        if not rt: return
        self.clear(rt)
        bad = any(tuple(f['b']) not in self.disk for f in rt) and mode == 'a+'
        fs = self.fsizes()
        for f in rt:
            b = tuple(f['b'])
            if bad and self.disk.get(b) is None: break      # fields after it are not reached
            if mode == 'w+':
                self.disk[b] = (f['dtype'], f['nmemb'], list(fs))
                self.neg[b] = f['dtype'][1] not in 'ub' and self.r.random() < .5
            elif mode == 'a+' and len(self.disk[b][2]) < 12:
                self.disk[b] = self.disk[b][:2] + (self.disk[b][2] + fs,)
            elif mode == 'a+': return
            self.bump(b)
        self.add(op='reccreate', rt=rt, mode=mode, fsize=fs, how=self.how())
    def rng(self, rt):
        n = self.r.choice([sum(self.disk.get(tuple(f['b']), (0, 0, [3]))[2]) for f in rt])
        off = self.r.choice([0, self.r.randint(0, n), self.r.randint(0, n), -self.r.randint(0, n), n, n + 1, -n - 1])
        s = off + n if off < 0 else off
        left = max(0, n - s)
        k = self.r.choice([0, left, self.r.randint(0, left), self.r.randint(0, left), left + 1])
        return off, k
    def g_recwrite(self):
        rt = self.fields(True)
        if not rt: return
        self.clear(rt)
        off, n = self.rng(rt)
        vals = []
        for f in rt:
            b = tuple(f['b']); d = self.disk.get(b)
            v = gen.values_for(self.r, f['dtype'], d[0] if d and gen.convertible(f['dtype'], d[0]) else None, not self.neg.get(b))
            vals.append([[v() for _ in range(f['nmemb'])] for _ in range(n)])
            if d: self.bump(b)
        self.add(op='recwrite', rt=rt, off=off, n=n, vals=vals, viaset=self.r.random() < .3, how=self.how())
    def g_recread(self):
        rt = self.fields(True)
        if not rt: return
        self.clear(rt, True)
        off, n = self.rng(rt)
        self.add(op='recread', rt=rt, off=off, n=n, viaget=self.r.random() < .3, how=self.how())

def run(ck):
    q = ck.quick
    ck.model('RecMC', 'RecMC.cfg')
    scen = mc.emit(ck, 'RecMC', 'RecMC.cfg', over=dict(MaxOps='3' if q else '4'), limit=2000 if q else 40000)
    F = ['hdr', 'data', 'sum', 'attrs', 'mem']
    ck.run_core(scen, COMPS, ATTRS, F, module='RecTrace', world='recworld:RecWorld', label='mc')
    rng = ck.rng('random')
    w = W(create=2, open=2, close=2, drop=.5, flush=1, grow=1, seek=2, seekrel=.5, write=2, read=2, readsimple=1, setattr=1, rmattr=.2,
          getattr=0, lookup=0, lsattr=0, list=.5, buf=1)
    w.update(reccreate=5, recwrite=12, recread=10)
    def cfgs():
        yield dict(cols=[(1,), (2,), (3, 1), (4,)], dtypes=gen.ALL, same=.6, bufs=[1, 7, 16, 64 << 20])
        yield dict(cols=[(1,), (1, 2), (2,), (3, 1), (4,)], dtypes=['<i4', '>f8', '<u1', '<S3', '<c8', '<i2'], nmemb=[1, 2, 3, 7], same=.8)
        yield dict(cols=[(1,), (2,)], dtypes=['<i4', '<f8', '<i8'], maxfiles=8, nops=60, same=.9)
    n = 70 if q else 2500
    scen = [G(rng, gen.Cfg(**dict(dict(w=w), **c))).run() for _ in range(n) for c in cfgs()]
    ck.run_core(scen, COMPS, ATTRS, F, module='RecTrace', world='recworld:RecWorld', label='rnd')
    # every operation made by all ranks together
    scen = []
    for _ in range(n // 2):
        for c in cfgs():
            c['w'] = dict(w, buf=1)
            ops = G(rng, gen.Cfg(**dict(dict(bufs=[7, 16, 64 << 20]), **c))).run()['ops']
            P = rng.choice([1, 2, 3, 4])
            for o in ops:
                if o['op'] in ('recwrite', 'recread'):
                    o['ns'] = collgen.split(rng, o['n'], P); o['conc'] = rng.choice([-1, 1, 2, P])
            scen.append(dict(ops=collgen.collective(ops, rng, P, extra=[0, 0, 1])))
    ck.run_core(scen, COMPS, ATTRS, F + ['agree', 'conc'], module='CollTrace', world='collworld:CollWorld', lib='sim', label='coll')
