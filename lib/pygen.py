"""Random Python programs on files, columns, attributes and datasets."""
import gen
from gen import NUM, CPLX, both, values_for, partners, convertible
from enc import split

ALL = [d for d in gen.ALL if not (d[0] == '>' and split(d)[2] == 1)]
LAYS = ['c', 'c', 'f', 'gap', 'rev', 'off', 'part', 'ro']
OUTS = ['c', 'f', 'gap', 'rev', 'off', 'part']
TEXTS = ['', 'a', 'plain text', 'é ü', 'x\0y', '\0', 'end\0\0', '#HUMANE [ x ]', 'a\nb\t', '%s%n', 'z' * 300, '日本', '"\'\\']
WORDS = ['', 'a', 'bcd', 'é', 'x\0y', 'a b', '0123456789abcdef', '%d', '\n']

class PyCfg(gen.Cfg):
    def __init__(self, **kw):
        super().__init__()
        self.dtypes = ['<i4', '<f8', '<i8', '>i4', '<f4', '<u1', '>f8', '<c8', '<S3', '<b1', '>i2']
        self.nmemb = [1, 1, 1, 2, 3]
        self.maxsize = 9
        self.lays, self.outs = LAYS, OUTS
        self.w = dict(create=2, arr=2, open=4, drop=3, flush=3, get=12, set=10, read=3, write=3, append=4, pickle=2, unpickle=3,
                      file=1, fcopy=1, names=3, has=2, desc=1, setattr=2, getattr=2, delattr=1, attrs=1, ds=2, dsget=6, dsset=4, dsappend=2, buf=1)
        self.cols = [(1,), (2,), (3, 1)]
        self.maxds = 3
        self.__dict__.update(kw)

class PyGen(gen.Gen):
    def __init__(self, rng, cfg):
        super().__init__(rng, cfg)
        self.fo = {0: ()}; self.nf = 0
        self.dsets = {}; self.nd = 0
        self.pks = {}; self.np = 0
    def nfile(self, n):
        x = self.r.random()
        if x < .03: return -1
        if n == 0 or x < .06: return self.r.choice([0, 0, 1, 3])
        return self.r.choice([1, 1, 2, 3, 5, n, n + 2])
    def split(self, n, k): return [n * (i + 1) // k - n * i // k for i in range(k)]
    def ffor(self, b):
        return self.r.choice([f for f, p in self.fo.items() if b[:len(p)] == p and len(b) > len(p)])
    def forget(self, b):
        """column b is about to be replaced"""
        for h in [h for h in self.h.values() if h.b == b]: self.drop(h)
        for p in [p for p, k in self.pks.items() if k[0].b == b]: del self.pks[p]
        self.nods(b)
    def nods(self, b):
        for d in [d for d, v in self.dsets.items() if b in v['cols']]: del self.dsets[d]
    def drop(self, h):
        self.add(op='pydrop', h=h.id); self.save(h); self.gone(h)
    def vals(self, n, nm, mdt, dt, b):
        v = values_for(self.r, mdt, dt, not self.neg[b])
        return [[v() for _ in range(nm)] for _ in range(n)]

    def g_create(self, b=None):
        b = b or self.r.choice(self.c.cols)
        dt = self.r.choice(self.c.dtypes); nm = self.r.choice(self.c.nmemb); n = self.r.randint(0, self.c.maxsize); k = self.nfile(n)
        if self.r.random() < .03: n = -self.r.randint(1, 5)
        self.nh += 1
        f = self.ffor(b)
        self.forget(b)
        op = dict(op='pycreate', f=f, h=self.nh, b=list(b), dtype=dt, nmemb=nm, size=n, nfile=k, sub=self.r.random() < .3)
        self.add(**op)
        if n < 0 or k < 0 or (k == 0 and n): return
        self.made(b, dt, nm, self.split(n, k))
    def made(self, b, dt, nm, fs):
        self.disk[b] = (dt, nm, fs); self.neg[b] = dt[1] not in 'ub' and self.r.random() < .5
        self.ver[b] = self.ver.get(b, 0) + 1
        self.nh -= 1
        return self.newh(b, self.disk[b])
    def g_arr(self):
        b = self.r.choice([c for c in self.c.cols if c[-1] != 0])
        dt = self.r.choice(self.c.dtypes); nm = self.r.choice(self.c.nmemb); n = self.r.choice([0, 1, 2, 3, 5, self.c.maxsize, 2 * self.c.maxsize])
        k = [] if self.r.random() < .4 else [self.nfile(n)]
        self.nh += 1
        f = self.ffor(b); self.forget(b)
        neg = dt[1] not in 'ub' and self.r.random() < .5
        v = values_for(self.r, dt, None, not neg)
        op = dict(op='pyarr', f=f, h=self.nh, b=list(b), dtype=dt, nmemb=nm, rows=[[v() for _ in range(nm)] for _ in range(n)], nfile=k,
                  lay=self.r.choice(self.c.lays), sub=self.r.random() < .2)
        if self.r.random() < .7: op['limit'] = self.r.choice([0, 1, 7, 16, 40, 100, 4096])
        self.add(**op)
        if k and (k[0] < 0 or (k[0] == 0 and n)): return
        self.made(b, dt, nm, self.split(n, k[0]) if k else [n] if n else [])
        self.neg[b] = neg
    def g_open(self):
        b = self.r.choice(self.c.cols + [(0,)] if self.r.random() < .9 else [(4,)])
        f = self.ffor(b); how = self.r.choice(['get', 'open'])
        if b[-1] != 0 and b not in self.disk:
            self.nh += 1; self.add(op='pyopen', f=f, b=list(b), h=self.nh, how=how); return
        if len(self.h) >= self.c.maxh: return
        h = self.newh(b, self.disk.get(b, ('####', 0, [])))
        h.attrs = {}
        self.add(op='pyopen', f=f, b=list(b), h=h.id, how=how)
    def g_drop(self):
        h = self.pick()
        if h: self.drop(h)
    def g_flush(self):
        h = self.pick()
        if h: self.add(op='pyflush', h=h.id, how=self.r.choice(['flush', 'close', 'with', 'raise'])); self.save(h)
    def bound(self, n):
        return self.r.choice([[], [0], [n], [-n], [self.r.randint(-n - 2, n + 2)], [self.r.randint(0, n)], [self.r.choice([100000, -100000, -1, 1])]])
    def index(self, n, step=.06):
        x = self.r.random()
        if x < .1: return dict(k='all')
        if x < .35: ix = dict(k='int', i=self.r.randint(-n, n - 1) if n and self.r.random() < .8 else self.r.choice([n, -n - 1, n + 1, 1000000, -1000000, 0, -1]))
        else:
            s = [] if self.r.random() < .7 else [1]
            if self.r.random() < step: s = [self.r.choice([2, -1, 0, 3])]
            ix = dict(k='slice', a=self.bound(n), o=self.bound(n), s=s)
        xs = [ix['i']] if ix['k'] == 'int' else ix['a'] + ix['o'] + ix['s']
        ok = ['py', 'py', 'i8', 'i4'] + (['u8'] if all(v >= 0 for v in xs) else []) + (['u1'] if all(0 <= v < 256 for v in xs) else []) + \
             (['i1'] if all(-128 <= v < 128 for v in xs) else [])
        ix['ty'] = self.r.choice(ok)
        return ix
    def selected(self, ix, n):
        if ix['k'] == 'all': return 0, n
        if ix['k'] == 'int': return (ix['i'] % n, 1) if -n <= ix['i'] < n else (0, None)
        if ix['s'] and ix['s'] != [1]: return 0, None
        a, o, _ = slice(*[x[0] if x else None for x in (ix['a'], ix['o'], ix['s'])]).indices(n)
        return a, max(o - a, 0)
    def col(self, w=False): return self.pick(lambda h: h.b[-1] != 0 and (not w or self.canwrite(h)))
    def g_get(self):
        h = self.col()
        if h: self.add(op='pyget', h=h.id, ix=self.index(self.size(h)))
    def stored(self, h, n, op):
        """the value of a store of about n rows"""
        mdt = self.r.choice(ALL) if self.r.random() < self.c.bad else partners(h.dt, self.r, self.c.same, self.neg[h.b])
        if mdt[0] == '>' and split(mdt)[2] == 1: mdt = '<' + mdt[1:]
        if mdt[1] == 'a': mdt = '<i4'
        if self.r.random() < .07: n = max(0, n + self.r.choice([-1, 1, 2]))
        conv = convertible(mdt, h.dt)
        left = self.r.randint(1, h.nm - 1) if h.nm > 1 and op['op'] != 'pywrite' and self.r.random() < .06 else 0
        v = values_for(self.r, mdt, h.dt if conv else None, not self.neg[h.b])
        op.update(mdt=mdt, rows=[[v() for _ in range(h.nm)] for _ in range(n)], left=left, nm=h.nm, lay=self.r.choice(self.c.lays),
                  **{'as': self.r.choice(['rows', 'rows', '2d', 'flat'] + (['one'] if n == 1 else []))})
        self.add(**op)
        return n > 0
    def g_set(self):
        h = self.col(True)
        if not h: return
        ix = self.index(self.size(h)); s, n = self.selected(ix, self.size(h))
        self.claim(h)
        self.stored(h, self.r.randint(1, 3) if n is None else n, dict(op='pyset', h=h.id, ix=ix))
    def g_write(self):
        h = self.col(True)
        if not h: return
        n = self.size(h); s = self.r.randint(0, n); k = self.r.randint(0, n - s)
        if self.r.random() < .1: k = n - s + self.r.randint(1, 3)
        if self.r.random() < .25 and s < n: st = s - n
        else: st = s
        if self.r.random() < .05: st = self.r.choice([n + 1, -n - 1, 10 ** 6, -10 ** 6])
        self.claim(h)
        self.stored(h, k, dict(op='pywrite', h=h.id, start=st))
    def g_read(self):
        h = self.col()
        if not h: return
        n = self.size(h); s = self.r.randint(0, n); x = self.r.random()
        if x < .2 and s < n: op = dict(start=s - n, n=self.r.randint(0, n - s))
        elif x < .3: op = dict(start=self.r.choice([n + 1, 10 ** 6]), n=self.r.choice([0, 1, 5, -1]))
        elif x < .4: op = dict(start=s, n=-1)
        elif x < .5: op = dict(start=s, n=n - s + self.r.randint(0, 5))
        else: op = dict(start=s, n=self.r.randint(0, n - s))
        if self.r.random() < .5:
            op['lay'] = self.r.choice(self.c.outs)
            m = op['n']
            if m == -1 or op['start'] + m > n: m = n - op['start']
            op['out'] = max(m, 0)
            # an array that does not match what is asked for
            x = self.r.random()
            if x < .12: op['out'] = self.r.choice([j for j in (0, op['out'] - 1, op['out'] + 1, op['out'] + 4) if j >= 0 and j != max(m, 0)])
            elif x < .2:
                w = split(h.dt)[2]
                op['odt'] = self.r.choice([d for d in ('<u1', '<i2', '<i4', '<f8', '<c16', '<S5') if split(d)[2] != w])
        self.add(op='pyread', h=h.id, **op)
    def g_append(self):
        h = self.col(True)
        if not h or len(h.fs) > 12: return
        n = self.r.choice([0, 1, 1, 2, 3, 6]); k = self.nfile(n)
        op = dict(op='pyappend', h=h.id, nfile=k)
        same, bad = self.c.same, self.c.bad
        self.nods(h.b)
        m = len(self.ops)
        self.stored(h, n, op)
        o = self.ops[m]; n = len(o['rows'])
        if (o['as'] == 'flat' and h.nm > 1 and n) or o['as'] == 'one': o['as'] = 'rows' if self.r.random() < .8 or o['as'] == 'one' else 'flat'
        if o['as'] == 'flat' and h.nm > 1 and n and not o['left']: o['left'] = -1
        if o['left'] or k < 0 or (k == 0 and n): return
        if o['left'] == 0:
            self.claim(h); h.fs += self.split(n, k)
            h.mod = True; self.save(h)
            if not convertible(o['mdt'], h.dt) and n:
                # it may or may not have grown: nothing more is done with it
                self.drop(h); self.forget(h.b); self.disk.pop(h.b, None); self.c.cols and self.g_create(h.b)
                return
            if n: self.claim(h)
    def g_pickle(self):
        h = self.pick(lambda h: True)
        if not h: return
        how = self.r.choice([0, 1, 2, 3, 4, 5, 'copy', 'deepcopy'])
        self.np += 1; p = self.np
        self.add(op='pypickle', h=h.id, p=p, how=how)
        if not h.mod:
            self.pks[p] = (h, h.ver, how, dict(h.attrs), list(h.fs)); return
        if not self.canwrite(h): return
        x = self.r.random(); attrs = dict(h.attrs); fs = list(h.fs); dt, nm, b = h.dt, h.nm, h.b
        if x < .2: self.drop(h)
        elif x < .4: self.add(op='pydrop', h=h.id, lost=True); self.gone(h)
        elif x < .6: self.add(op='pyflush', h=h.id, how='flush'); self.save(h)
        g = self.newh(b, (dt, nm, fs)); g.attrs = attrs
        self.add(op='pyunpickle', p=p, h=g.id)
        if x >= .6: self.drop(h)
        g.ver = self.ver.get(b, 0); self.claim(g)
    def g_unpickle(self):
        if not self.pks: return
        p = self.r.choice(sorted(self.pks)); h, ver, how, attrs, fs = self.pks[p]
        if len(self.h) >= self.c.maxh + 2: return
        if not isinstance(how, int): del self.pks[p]
        g = self.newh(h.b, (h.dt, h.nm, fs)); g.ver = ver; g.attrs = dict(attrs)
        self.add(op='pyunpickle', p=p, h=g.id)
    # files
    def g_file(self):
        if len(self.fo) > 5:
            f = self.r.choice([f for f in self.fo if f]); del self.fo[f]
        dirs = [b[:i] for b in self.disk for i in range(1, len(b))]
        self.nf += 1
        x = self.r.random()
        if x < .1: self.add(op='pyfile', f=self.nf, p=[9], how='open'); return
        if x < .5 or not dirs: p, how, up = (), self.r.choice(['open', 'create']), None
        else:
            p = self.r.choice(dirs); how = self.r.choice(['open', 'sub', 'sub']); up = self.r.choice([f for f, q in self.fo.items() if p[:len(q)] == q and len(q) < len(p)])
        op = dict(op='pyfile', f=self.nf, p=list(p), how=how)
        if how == 'sub': op['up'] = up; op['lead'] = self.r.random() < .3
        self.add(**op); self.fo[self.nf] = p
    def g_fcopy(self):
        f = self.r.choice(sorted(self.fo)); self.nf += 1
        self.add(op='pyfcopy', f=f, g=self.nf, how=self.r.choice([0, 1, 2, 3, 4, 5, 'copy', 'deepcopy'])); self.fo[self.nf] = self.fo[f]
    def g_names(self): self.add(op='pylist', f=self.r.choice(sorted(self.fo)), how=self.r.choice(['keys', 'iter', 'blocks', 'now', 'now']))
    def g_has(self):
        b = self.r.choice(self.c.cols + [(4,)]); self.add(op='pyhas', f=self.ffor(b), b=list(b))
    def g_desc(self):
        h = self.col()
        if h: self.add(op='pydesc', h=h.id)
    # attributes
    def g_setattr(self):
        h = self.pick(self.canwrite)
        if not h: return
        self.claim(h)
        x = self.r.random(); op = {}
        if x < .3: v = dict(k='str', s=list(self.r.choice(TEXTS).encode()))
        elif x < .5:
            v = dict(k='strs', l=[list(self.r.choice(WORDS).encode()) for _ in range(self.r.randint(1, 4))]); op['as'] = self.r.choice(['list', 'array'])
        else:
            dt = self.r.choice([d for d in ALL if d[1] != 'S']); n = self.r.choice(self.c.alens); w = split(dt)[2]
            v = dict(k='arr', dt=dt, n=n, raw=[self.r.choice([0, 1, 255, 10, 127]) if dt[1] != 'b' else self.r.randint(0, 1) for _ in range(n * w)])
            op['as'] = self.r.choice(['array', 'scalar', '2d', 'gap', 'rev', 'fort', '3t'])
            if op['as'] == 'scalar' and n == 1 and dt[0] == '>': op['as'] = 'array'
        if self.r.random() < .05: self.add(op='pysetattr', h=h.id, name=-1, badname=True, text=self.r.choice(self.c.badnames), v=v, **op); return
        name = self.r.choice(self.c.attrs); h.attrs[name] = 1
        self.add(op='pysetattr', h=h.id, name=name, badname=False, v=v, **op)
    def aname(self, h): return self.r.choice(sorted(h.attrs)) if h.attrs and self.r.random() < .8 else self.r.choice(self.c.attrs)
    def g_getattr(self):
        h = self.pick()
        if h: self.add(op='pygetattr', h=h.id, name=self.aname(h))
    def g_delattr(self):
        h = self.pick(self.canwrite)
        if h:
            self.claim(h); n = self.aname(h); h.attrs.pop(n, None); self.add(op='pydelattr', h=h.id, name=n)
    def g_attrs(self):
        h = self.pick()
        if h: self.add(op='pyattrs', h=h.id, how=self.r.choice(['iter', 'keys']), ask=self.r.sample(self.c.attrs, min(3, len(self.c.attrs))))
    # datasets
    def g_ds(self):
        cs = sorted(self.disk)
        if not cs: return
        cols = self.r.sample(cs, self.r.randint(1, len(cs)))
        all_ = self.r.random() < .2
        if all_: cols = sorted(cs, key=lambda b: '/'.join({1: 'a', 2: 'ab', 3: 'a.c', 4: 'd'}[c] for c in b))
        size = [sum(self.disk[b][2]) for b in cols]
        if len(set(size)) > 1 and self.r.random() < .8:
            cols = [b for b, s in zip(cols, size) if s == size[0]]; all_ = False
        size = {sum(self.disk[b][2]) for b in cols}
        self.nd += 1
        if self.r.random() < .05: cols = cols + [(4,)]; all_ = False; size = {1, 2}
        self.add(op='dsopen', d=self.nd, cols=[list(b) for b in cols], all=all_)
        if len(size) == 1 and len(self.dsets) < self.c.maxds:
            self.dsets[self.nd] = dict(cols=cols, size=size.pop(), rt=[self.disk[b] for b in cols])
            if self.r.random() < .5: self.add(op='dssize', d=self.nd)
    def dset(self, w=False):
        c = [d for d, v in self.dsets.items() if not w or all(b not in self.writer for b in v['cols'])]
        if not c and w and self.dsets:      # make room
            d = self.r.choice(sorted(self.dsets))
            for h in list(self.h.values()):
                if h.b in self.dsets[d]['cols'] and h.mod: self.drop(h)
            return d
        return self.r.choice(sorted(c)) if c else None
    def g_dsget(self):
        d = self.dset()
        if d is None: return
        v = self.dsets[d]; x = self.r.random()
        if x < .4: cols, form = v['cols'], ['all']
        elif x < .7: cols, form = [self.r.choice(v['cols'])], ['one', self.r.choice(['after', 'before', 'tuple', 'two'])]
        else: cols, form = self.r.sample(v['cols'], self.r.randint(1, len(v['cols']))), ['some', self.r.choice(['after', 'before', 'tuple', 'two'])]
        self.add(op='dsget', d=d, cols=[list(b) for b in cols], form=form, ix=self.index(v['size']))
    def rows(self, v, n):
        out = []
        for b, (dt, nm, _) in zip(v['cols'], v['rt']): out.append(self.vals(n, nm, dt, dt, b))
        return out
    def changed(self, v):
        for b in v['cols']: self.ver[b] = self.ver.get(b, 0) + 1
    def unfit(self, op):
        op['fits'] = self.r.random() >= .06
        op['lay'] = self.r.choice(['c', 'gap', 'rev'])
        if not op['fits']:
            op['unfit'] = self.r.choice(['type', 'dim'])
            if op['unfit'] == 'dim': op['lay'] = '2d'
    def g_dsset(self):
        d = self.dset(True)
        if d is None: return
        v = self.dsets[d]; ix = self.index(v['size'])
        if ix['k'] == 'int': ix = dict(ix) if self.r.random() < .3 else dict(k='all')
        s, n = self.selected(ix, v['size'])
        n = self.r.randint(1, 2) if n is None else n
        if self.r.random() < .07: n = max(0, n + self.r.choice([-1, 1]))
        op = dict(op='dsset', d=d, ix=ix, n=n, vals=self.rows(v, n)); self.unfit(op)
        self.add(**op); self.changed(v)
    def g_dsappend(self):
        d = self.dset(True)
        if d is None: return
        v = self.dsets[d]; n = self.r.choice([0, 1, 2, 4]); k = self.nfile(n)
        if any(len(self.disk[b][2]) > 12 or sum(self.disk[b][2]) != v['size'] for b in v['cols']): return
        op = dict(op='dsappend', d=d, n=n, nfile=k, vals=self.rows(v, n), allcols=[list(b) for b in v['cols']]); self.unfit(op)
        self.add(**op)
        if not op['fits'] or k < 0 or (k == 0 and n): return
        for b in v['cols']:
            dt, nm, fs = self.disk[b]; self.disk[b] = (dt, nm, fs + self.split(n, k))
        v['size'] += n; self.changed(v)
        for e in [e for e, x in self.dsets.items() if e != d and set(x['cols']) & set(v['cols'])]: del self.dsets[e]
        if self.r.random() < .5: self.add(op='dssize', d=d)

    def run(self):
        ks, ws = list(self.c.w), list(self.c.w.values())
        if self.c.fresh: self.g_create() if self.r.random() < .5 else self.g_arr()
        n = 0
        while len(self.ops) < self.c.nops and n < 5 * self.c.nops:
            self.op(self.r.choices(ks, ws)[0]); n += 1
        for h in list(self.h.values()): self.add(op='pydrop', h=h.id)
        return dict(ops=self.ops)
