"""Random histories of the command-line tools."""
import gen
from toolworld import BAK, bak
from enc import split

PRINTED = gen.both(['i4', 'i8', 'u4', 'u8', 'f4', 'f8', 'c8', 'c16']) + ['<b1', '<S1']
BASE = {1: 'a', 2: 'ab', 3: 'a.c', 4: 'd', 5: 'e', 6: 'f-1'}
COMPS = {**BASE, **{c + BAK: t + '-REPBAK' for c, t in BASE.items()}}
NAMES = [(1,), (2,), (5,), (3, 1), (4, 1), (4, 2), (4, 3, 1), (6,)]
NEST = [(1, 2), (4, 1, 5)]
WORDS = ['hello', 'x', '', 'two words', '3.5', 'a,b;c', 'ends with blank ', '#', '[ ]']

class ToolGen:
    def __init__(self, rng, w, **kw):
        self.r, self.w, self.ops, self.cols, self.nh = rng, w, [], {}, 0
        self.ntools, self.dtypes, self.nmemb, self.names = 8, gen.ALL, [1, 1, 1, 2, 3], NAMES
        self.ncols, self.maxrows, self.par, self.short, self.pfault, self.bufs = 3, 12, 0, .1, 0, [None, 8, 24, 100, 40]
        self.adts = PRINTED
        self.__dict__.update(kw)
        self.damaged = {}
        self.unsure = set()
    def add(self, **k): self.ops.append(k)
    # --- setting up
    def newname(self): return self.r.choice(self.names)
    def setup(self, b):
        r = self.r
        dt, nm = r.choice(self.dtypes), r.choice(self.nmemb)
        n = r.choice([0, 1, 1, 2, 3, 5])
        fs = [r.choice([0, 1, 2, 3, 5]) for _ in range(n)] if self.maxrows < 40 or r.random() < .5 else [r.randint(0, self.maxrows) for _ in range(n)]
        self.nh += 1; h = self.nh
        self.add(op='create', b=list(b), h=h, dtype=dt, nmemb=nm, fsize=fs, badname=False)
        size = sum(fs)
        v = gen.values_for(r, dt, nonneg=r.random() < .5)
        if dt == '<S1': v = lambda v=v: {0: 65, 10: 66, 32: 67}.get(x := v(), x)      # text that can be told apart
        attrs = {}
        full = size
        if size:
            k = r.random()
            if k < self.short: full = r.randrange(size)
            rows = [[v() for _ in range(nm)] for _ in range(full)]
            if getattr(self, 'distinct', False): rows = [[(7 * i + j) % 120 for j in range(nm)] for i in range(full)]
            at = 0
            if k > 1 - self.short and full == size:      # a hole: rows left out, the last of every file written
                keep = set()
                o = 0
                for f in fs:
                    if f: keep |= {o + f - 1} | {o + i for i in range(f) if r.random() < .5}
                    o += f
                for i in sorted(keep):
                    self.add(op='seek', h=h, off=i); self.add(op='write', h=h, mdt=dt, rows=[rows[i]], lay='c')
            else:
                while at < full:
                    m = r.randint(1, full - at)
                    self.add(op='write', h=h, mdt=dt, rows=rows[at:at + m], lay='c'); at += m
        for a in r.sample([1, 2, 3, 4, 5], r.choice([0, 1, 2, 3])):
            adt = r.choice(self.adts)
            if r.random() < .3: adt = '<S1'
            av = gen.values_for(r, adt)
            vals = [av() for _ in range(r.choice([0, 1, 1, 2, 5]))]
            if adt == '<S1': vals = list(r.choice(WORDS).encode()) + [0]
            self.add(op='setattr', h=h, name=a, badname=False, dt=adt, n=len(vals), vals=vals)
            attrs[a] = (adt, len(vals))
        self.add(op='close', h=h)
        self.cols[b] = dict(dt=dt, nm=nm, size=size, full=full == size, attrs=attrs, nf=n)
        self.damaged.pop(b, None); self.unsure.discard(b)
    # --- choosing
    def col(self, f=lambda c: True, miss=.04):
        if self.r.random() < miss: return self.r.choice(self.names + [(5, 5)])
        c = sorted(b for b in self.cols if f(b))
        return self.r.choice(c) if c else None
    def pre(self, b):
        """a file that column b may be found in"""
        k = self.r.randint(0, len(b) - 1) if self.r.random() < .4 else 0
        return list(b[:k])
    def nfile(self, bad=.06):
        r = self.r
        return r.choice([0, -1]) if r.random() < bad else r.choice([None, 1, 1, 2, 3, 4, 7, 12])
    def fault(self, ev, who=None, hi=45):
        if self.r.random() < self.pfault:
            ev['fault'] = [self.r.randint(1, hi), self.r.choice([1, 1, 1, 2, 3, 4, 5, 6]), self.r.choice([28, 5, 13])]
            if who: ev['who'] = who
            return True
        return False
    def nested(self):
        al = set(self.cols) | self.unsure
        return any(b[:k] in al for b in al for k in range(1, len(b)))
    def sched(self): return [self.r.randrange(1 << 30), self.r.choice([0, 0, 1, 2, 3, 4]), self.r.choice([0, 1])]
    def made(self, d, c, sure=True):
        if sure: self.cols[d] = c; self.damaged.pop(d, None); self.unsure.discard(d)
        else: self.cols.pop(d, None); self.unsure.add(d)
    # --- tools
    def g_tcopy(self):
        r = self.r
        if r.random() < .04:
            b, d = (0,), (4, 0)
            if any(x[0] == 4 for x in self.cols): self.add(op='tcopy', p=[], q=[4], b=[0], d=[4, 0])
            return
        b = self.col()
        if not b: return
        d = b if r.random() < .04 else r.choice(self.names)
        p = self.pre(b); q = p if list(d[:len(p)]) == p and r.random() < .6 else self.pre(d)
        ev = dict(op='tcopy', p=p, q=q, b=list(b), d=list(d))
        n = self.nfile()
        if n == 0 and r.random() < .3 and b in self.cols and self.cols[b]['nf']: n = -2
        if n is not None: ev['nfile'] = n
        buf = r.choice(self.bufs)
        if buf: ev['buf'] = buf
        if r.random() < self.par: ev['par'] = r.randint(1, 6); ev['sched'] = self.sched(); ev['small'] = r.random() < .5
        if r.random() < .1: ev['f'] = True
        f = self.fault(ev)
        self.add(**ev)
        c = self.cols.get(b)
        if c is None and b not in self.unsure or d == b: return
        if c is None or f or not c['full'] or b in self.damaged or b in self.unsure: self.made(d, None, False); return
        if n is not None and c['nf'] and (n < -1 or n == 0 and c['size']): return
        self.made(d, dict(c, attrs=dict(c['attrs'])))
    def g_tsample(self):
        r = self.r
        b = self.col()
        if not b: return
        d = r.choice(self.names)
        p = self.pre(b); q = p if list(d[:len(p)]) == p and r.random() < .6 else self.pre(d)
        ra = r.choice(['1', '1.0', '0', '.5', '.3', '.9', '3', '.1'])
        ev = dict(op='tsample', p=p, q=q, b=list(b), d=list(d), ratio=ra, chunk=r.choice([1, 2, 3, 5, 1000, 7]), par=r.randint(1, 6), sched=self.sched(),
                  whole=float(ra) == 1, none=float(ra) == 0)
        n = self.nfile()
        if n is not None: ev['nfile'] = n
        f = self.fault(ev)
        self.add(**ev)
        c = self.cols.get(b)
        if c is None and b not in self.unsure or d == b: return
        self.made(d, None, False)     # how many rows is not known
        if r.random() < .5 and not f and d != b:      # once more, on other ranks
            d2 = r.choice([x for x in self.names if x not in (b, d)])
            self.add(**dict(ev, d=list(d2), q=self.pre(d2), par=r.randint(1, 6), sched=self.sched()))
            self.add(op='same', b=list(d), d=list(d2))
            self.made(d2, None, False)
    def below(self, p): return sorted(b for b in self.cols if list(b[:len(p)]) == list(p) and len(b) > len(p))
    def g_trepart(self):
        r = self.r
        if self.nested() or any(x >= BAK for b in set(self.cols) | self.unsure for x in b): return
        b = self.col()
        if not b: return
        p = self.pre(b)
        al = self.below(p)
        # everything below, if it is known what there is
        if r.random() < .3 and al and not any(list(u[:len(p)]) == p for u in self.unsure): bs, S = [], al
        else:
            S = sorted({b} | set(r.sample(al, min(len(al), r.randint(0, 2))))); bs = S
        n = self.nfile()
        if n is None: n = 2
        ev = dict(op='trepart', p=p, nfile=n, bs=[list(x) for x in bs], all=[list(x) for x in S])
        f = self.fault(ev, 'bigfile-copy'[8:])
        self.add(**ev)
        for x in S:
            c = self.cols.get(x)
            if c is None or f or not c['full'] or x in self.damaged or x in self.unsure or bak(x) in self.unsure or (n < -1 or n == 0 and c["size"]):
                self.made(x, None, False); self.unsure.add(bak(x))
                if c is not None: self.cols[bak(x)] = c
            elif c["nf"] and n != -1: c["nf"] = n
    def g_trename(self):
        r = self.r
        b = self.col(lambda b: b not in self.unsure and b not in self.damaged)
        if not b: return
        if r.random() < .25 and len(b) > 1: b = b[:-1]
        if any(u[:len(b)] == b for u in self.unsure | set(self.damaged)): return
        dirs = {()} | {x[:k] for x in self.cols for k in range(1, len(x))}
        d = r.choice([x for x in self.names]) if r.random() < .5 else r.choice(sorted(dirs)) + (r.choice([1, 2, 3, 5, 6]),)
        if d[:len(b)] == b and d != b: return
        k = 0
        while k < min(len(b), len(d)) - 1 and b[k] == d[k]: k += 1
        p = list(b[:r.randint(0, k)])
        self.add(op='trename', p=p, b=list(b), d=list(d))
        ex = {x[:k] for x in set(self.cols) | self.unsure for k in range(1, len(x) + 1)}
        if d[:-1] not in dirs | set(self.cols) and any(u[:len(d) - 1] == d[:-1] for u in self.unsure):
            self.ops.pop(); return      # is there such a directory?
        if d in ex or d == b or d[:-1] not in dirs | set(self.cols): return
        for x in [x for x in self.cols if x[:len(b)] == b]:
            y = d + x[len(b):]
            self.cols[y] = self.cols.pop(x)
    def g_trm(self):
        r = self.r
        b = self.col()
        if not b: return
        p = self.pre(b)
        S = sorted({b} | set(r.sample(self.below(p), min(len(self.below(p)), r.choice([0, 0, 1, 2])))))
        if r.random() < .1: S = [x[:len(p) + 1] for x in S]
        # none inside another one
        S = [x for x in set(S) if not any(x != y and x[:len(y)] == y for y in S)]
        self.add(op='trm', p=p, bs=[list(x) for x in S])
        for x in list(self.cols):
            if any(x[:len(y)] == y for y in S): del self.cols[x]; self.damaged.pop(x, None)
        self.unsure |= {y for y in S if any(z not in self.cols for z in S)} if False else set()
    def g_tls(self):
        r = self.r
        b = self.col() or (1,)
        p = self.pre(b)
        ev = dict(op='tls', p=p, b=list(b) if r.random() < .4 else [], long=r.random() < .7)
        if r.random() < .04: ev['full'] = True
        else: self.fault(ev, hi=12)
        self.add(**ev)
    def g_tcat(self):
        r = self.r
        b = self.col()
        if not b: return
        c = self.cols.get(b)
        bin = c is None or c['dt'] not in PRINTED or r.random() < .4
        ev = dict(op='tcat', p=self.pre(b), b=list(b), bin=bin)
        n = c['size'] if c else 5
        if r.random() < .6: ev['off'] = r.choice([0, n, n + 3, r.randint(0, n + 1), r.randint(0, n)])
        if r.random() < .6: ev['cnt'] = r.choice([0, 1, n, n + 5, r.randint(0, n)])
        buf = r.choice(self.bufs)
        if buf: ev['buf'] = buf
        if r.random() < .04: ev['full'] = True
        else: self.fault(ev, hi=25)
        if not bin and r.random() < .1 and c['dt'][1:] in ('i4', 'i8', 'f8'): ev['fmt'] = dict(i4='%d', i8='%ld', f8='%.17g')[c['dt'][1:]]
        self.add(**ev)
    def g_tgetattr(self):
        r = self.r
        b = self.col()
        if not b: return
        at = sorted(self.cols[b]['attrs']) if b in self.cols else []
        names = r.choice([[], [r.choice(at)] if at else [], r.sample(at, min(len(at), 2)), [r.randint(1, 5)]])
        ev = dict(op='tgetattr', p=self.pre(b), b=list(b), names=names, long=r.random() < .5)
        if r.random() < .04: ev['full'] = True
        else: self.fault(ev, hi=12)
        self.add(**ev)
    def g_tsetattr(self):
        r = self.r
        b = self.col()
        if not b: return
        c = self.cols.get(b)
        at = c['attrs'] if c else {}
        name = r.choice(sorted(at)) if at and r.random() < .6 else r.randint(1, 5)
        force = r.random() < .3 or b in self.unsure
        have = at.get(name) if not force else None
        if have and have[0] == '<b1': return        # no text stands for its values
        ev = dict(op='tsetattr', p=self.pre(b), b=list(b), name=name, force=force)
        dt = None
        if not have or r.random() < .4:
            dt = r.choice([x for x in self.adts if x != '<b1'])
            if r.random() < .3: dt = '<S1'
            if have is None and b not in self.unsure and r.random() < .08: dt = None       # no type at all
        if dt:
            ev['dt'] = dt
            ev['text'] = dt if dt[0] == '>' or r.random() < .7 else dt[1:]
        t = dt or (have[0] if have else '<i4')
        if t == '<S1':
            ev['kind'] = 'S'; ev['str'] = list(r.choice(WORDS).encode())
            given = len(ev['str']) + 1
        else:
            ev['kind'] = 'num'; ev['vdt'] = '<c16' if t[1] == 'c' else '<i8'
            v = gen.values_for(r, t, nonneg=True)
            # a value the type holds exactly in text too
            given = have[1] if have and have[1] and r.random() < .7 else r.choice([1, 1, 2, 3])
            ev['vals'] = [v() for _ in range(given)]
            if t[1] in 'if' and r.random() < .5: ev['vals'] = [-x for x in ev['vals']]; ev['vdt'] = '<i8'
            if r.random() < .06: ev['bad'] = ['zz'] * given if r.random() < .5 else [str(x) for x in ev['vals'][:-1]] + ['q']
        n = None
        if have and have[1] != given and r.random() < .6 or r.random() < .2: n = given
        if r.random() < .05: n = given + r.choice([1, 2])
        if n is not None: ev['n'] = n
        if r.random() < .04: ev['ntext'] = r.choice(['', 'a b', 'x '])
        f = self.fault(ev, hi=14)
        self.add(**ev)
        if c is None: return
        if f: c['attrs'] = {}; self.unsure.add(b)
        elif not ev.get('bad') and 'ntext' not in ev and (dt or have):
            cnt = n if n else (have[1] if have and have[1] else given)
            if cnt == given: c['attrs'][name] = (t, given)
    def g_tcreate(self):
        r = self.r
        b = r.choice(self.names)
        dt = r.choice(self.dtypes); nm = r.choice(self.nmemb)
        if r.random() < .04: nm = r.choice([0, -1])
        v = gen.values_for(r, dt)
        if dt == '<S1': v = lambda v=v: {0: 65, 10: 66, 32: 67}.get(x := v(), x)      # text that can be told apart
        n = r.choice([0, 1, 2, 3, 5, 8, self.maxrows])
        ev = dict(op='tcreate', p=self.pre(b), b=list(b), dtype=dt, nmemb=nm, rows=[[v() for _ in range(nm)] for _ in range(n)] if nm > 0 else [])
        if r.random() < .04: ev['dtype'] = r.choice(['<q4', 'zz']); ev['baddt'] = True
        elif r.random() < .3 and dt[0] == '<': ev['dtext'] = dt[1:]
        if r.random() < .3: ev['nopt'] = False
        buf = r.choice(self.bufs)
        if buf: ev['buf'] = buf
        f = self.fault(ev, hi=30)
        self.add(**ev)
        if f: self.made(b, None, False)
        elif nm > 0 and ev['dtype'] == dt: self.made(b, dict(dt=dt, nm=nm, size=n, full=True, attrs={}, nf=1))
    def g_tcheck(self):
        r = self.r
        b = self.col()
        if not b: return
        p = self.pre(b)
        if any(u[:len(p)] == tuple(p) for u in self.unsure): bs = [b]
        else: bs = [] if r.random() < .5 else r.sample(self.below(p) or [b], min(len(self.below(p) or [b]), r.randint(1, 3)))
        self.add(op='tcheck', p=p, bs=[list(x) for x in bs])
    def g_damage(self):
        r = self.r
        b = self.col(lambda b: self.cols[b]['size'] and b not in self.unsure, miss=0)
        if not b: return
        self.add(op='damage', b=list(b), how=r.choice(['flip', 'flip', 'flip', 'cut', 'remove']), r=[r.randrange(1000), r.randrange(100000), r.randrange(256)])
        self.damaged[b] = True
    def g_look(self): self.add(op='look')
    def g_setup(self):
        b = self.newname()
        self.setup(b)
    def run(self):
        r = self.r
        for _ in range(r.randint(1, self.ncols)): self.setup(self.newname())
        ks, ws = list(self.w), list(self.w.values())
        for _ in range(self.ntools): getattr(self, 'g_' + r.choices(ks, ws)[0])()
        self.add(op='look')
        return dict(ops=self.ops)
