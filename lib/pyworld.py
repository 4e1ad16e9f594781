"""Drives the Python package.  numpy arrays are made from bytes and taken apart into bytes here,
with the independent encoder of enc.py."""
import ctypes as C, os, sys, gc, io, pickle, copy, warnings, bf, build
from enc import enc, dec, split, norm

class Lib:
    """what run_scenarios() expects of a library"""
    def __init__(self, path):
        for p in (build.SITE, path):
            if p not in sys.path: sys.path.insert(0, p)
        warnings.simplefilter('ignore')
        import numpy, bigfile
        if not os.path.abspath(bigfile.__file__).startswith(os.path.abspath(path)): raise RuntimeError('wrong package')
        self.np, self.bf = numpy, bigfile
        gc.collect(); gc.freeze()
        try: C.CDLL(None).mallopt(-6, 0x5a)         # freed memory does not keep what it had
        except Exception: pass
    def vs_bufsize(self, n): self.bf.set_buffer_size(min(n, 1 << 18))     # the whole buffer is filled when it is taken

def npt(dt):
    return dt

class PyWorld(bf.World):
    load = Lib
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.np, self.m = self.L.np, self.L.bf
        self.fo, self.ds, self.pk = {}, {}, {}
    def raname(self, t):
        try: t = t.encode('latin1').decode('utf8')
        except UnicodeError: pass
        return super().raname(t)
    def drop_all(self):
        self.h, self.bof = {}, {}
        self.fo, self.ds, self.pk, self.mine = {}, {}, {}, {}
        gc.collect()
    def reset(self, nested=()):
        import shutil
        self.drop_all()
        shutil.rmtree(self.root, ignore_errors=True); os.makedirs(self.root)
        self.fo[0] = self.makefile(self.fbase)
        self.fp = {0: ()}
        self.nfiles, self.lastn = {}, {}
        self.snap = bf.snapshot(self.root)
        self.emit(dict(op='reset', chg=[]))
        self.emit(dict(op='pyfile', f=0, p=[], res='ok', chg=[]))
    def makefile(self, path): return self.m.File(path, create=True)

    def attempt(self, ev, fn):
        """runs fn; an exception is an error"""
        try: r = fn()
        except Exception as ex:
            ev['res'] = 'err'; ev['why'] = type(ex).__name__ + ': ' + str(ex)[:200]
            del ex
            r = None
        else: ev['res'] = 'ok'
        return r
    def rel(self, f, b): return self.path(b[len(self.fp[f]):])

    # --- arrays
    def arr(self, dt, rows, shape=None):
        """an array of the rows given, of shape [n] or [n, nmemb] or as said"""
        w = split(dt)[2]
        raw = b''.join(enc(dt, v) for r in rows for v in r)
        n = sum(len(r) for r in rows)
        a = self.np.frombuffer(bytearray(raw), dtype='u1').view(self.np.dtype(dt)) if raw else self.np.empty(0, dt)
        if shape is None: shape = [len(rows)] + ([len(rows[0])] if rows and len(rows[0]) != 1 else [])
        return a.reshape(shape)
    def lay(self, a, kind):
        """the same array in another memory layout; returns it and the memory it lies in"""
        np = self.np
        if kind == 'c' or a.ndim == 0: a = a.copy(); return a, a
        if kind == 'f': a = np.asfortranarray(a); return a, a
        if kind == 'gap':
            big = np.zeros([2 * s for s in a.shape], a.dtype); big.view('u1')[...] = 0x77
            v = big[tuple(slice(None, None, 2) for _ in a.shape)]; v[...] = a; return v, big
        if kind == 'rev':
            big = a[::-1].copy(); return big[::-1], big
        if kind == 'off':       # not aligned
            raw = np.zeros(a.nbytes + 1, 'u1'); raw[0] = 0x77
            v = raw[1:].view(a.dtype).reshape(a.shape) if a.nbytes else a.copy(); v[...] = a; return v, raw
        if kind == 'part':
            big = np.zeros([s + 2 for s in a.shape], a.dtype); big.view('u1')[...] = 0x77
            v = big[tuple(slice(1, -1) for _ in a.shape)]; v[...] = a; return v, big
        if kind == 'ro':
            a = a.copy(); a.setflags(write=False); return a, a
        raise ValueError(kind)
    def unarr(self, ev, a, nmemb):
        np = self.np
        a = np.asarray(a)
        ev['shape'] = list(a.shape)
        dt = norm(a.dtype.str) if a.dtype.fields is None else '?'
        ev['rdt'] = dt
        ev['rows'] = self.cut(dt, a, nmemb)
    def cut(self, dt, a, nmemb):
        raw = a.tobytes(); w = split(dt)[2]
        x = [dec(dt, raw[i:i + w]) for i in range(0, len(raw), w)]
        k = max(nmemb, 1)
        return [x[i:i + k] for i in range(0, len(x), k)]
    def value(self, ev):
        """the array that is stored: rows of elements and what does not make up a row"""
        rows = ev['rows'] + ([[1] * ev['left']] if ev['left'] else [])
        if ev['left']: a = self.arr(ev['mdt'], rows, [sum(map(len, rows))])
        else:
            n = len(rows); nm = ev['nm']
            sh = {'rows': [n] + ([nm] if nm != 1 else []), '2d': [n, nm], 'flat': [n * nm], 'one': [] if n * nm == 1 else [nm] if n == 1 else [n, nm]}
            a = self.arr(ev['mdt'], rows, sh[ev.get('as', 'rows')])
        return self.lay(a, ev.get('lay', 'c'))
    def index(self, ix):
        np = self.np
        ty = {None: int, 'py': int, 'i8': np.int64, 'i4': np.int32, 'u1': np.uint8, 'u8': np.uint64, 'i1': np.int8}[ix.get('ty')]
        if ix['k'] == 'all': return Ellipsis
        if ix['k'] == 'int': return ty(ix['i'])
        g = lambda x: ty(x[0]) if x else None
        return slice(g(ix['a']), g(ix['o']), g(ix['s']))
    def pdesc(self, ev, h):
        c = self.h[h]
        dt = c.dtype
        ev['desc'] = dict(dtype=norm(dt.base.str) if dt.base.str != '####' else '####', nmemb=int(self.np.prod(dt.shape)) if dt.shape else 1, nfile=c.Nfile, size=c.size)

    # --- files
    def op_pyfile(self, ev):
        p = ev['p']; path = os.path.join(self.fbase, self.path(p)) if p else self.fbase
        how = ev['how']
        if how == 'sub':
            up = ev['up']; r = self.attempt(ev, lambda: self.fo[up][('/' if ev.get('lead') else '') + self.path(p[len(self.fp[up]):]) + '/'])
        else: r = self.attempt(ev, lambda: self.m.File(path, create=how == 'create'))
        if r is not None: self.fo[ev['f']] = r; self.fp[ev['f']] = tuple(p)
    def op_pyfcopy(self, ev):
        how = ev['how']; f = self.fo[ev['f']]
        r = self.attempt(ev, lambda: pickle.loads(pickle.dumps(f, how)) if isinstance(how, int) else getattr(copy, how)(f))
        if r is not None: self.fo[ev['g']] = r; self.fp[ev['g']] = self.fp[ev['f']]
    def op_pylist(self, ev):
        f = self.fo[ev['f']]; p = list(self.fp[ev['f']])
        how = ev['how']
        r = self.attempt(ev, lambda: f.list_blocks() if how == 'now' else list(f) if how == 'iter' else f.blocks if how == 'blocks' else f.keys())
        ev['names'] = []
        for n in r or []:
            t = self.unpath(n); ev['names'].append(p + t if t is not None else [-1])
    def op_pyhas(self, ev):
        ev['found'] = self.attempt(ev, lambda: self.rel(ev['f'], ev['b']) in self.fo[ev['f']])

    # --- columns
    def have(self, ev, c):
        self.h[ev['h']] = c; self.bof[ev['h']] = tuple(ev['b'])
        if tuple(ev['b'])[-1] != 0: self.pdesc(ev, ev['h'])
    def op_pycreate(self, ev):
        b = tuple(ev['b']); before = self.nfiles.get(b, 0)
        self.nfiles[b] = max(before, ev['nfile']) if b[-1] != 0 else 0
        f, n = self.fo[ev['f']], self.rel(ev['f'], b)
        if b[-1] == 0: fn = lambda: f.create(n)
        else:
            dt = self.np.dtype((ev['dtype'], (ev['nmemb'],))) if ev['nmemb'] != 1 or ev.get('sub') else self.np.dtype(ev['dtype'])
            fn = lambda: f.create(n, dt, ev['size'], ev['nfile'])
        c = self.attempt(ev, fn)
        if c is not None: self.nfiles[b] = ev['nfile'] if b[-1] != 0 else 0; self.have(ev, c)
        else: self.nfiles[b] = before
    def op_pyarr(self, ev):
        b = tuple(ev['b']); before = self.nfiles.get(b, 0); rows = ev['rows']
        nf = ev['nfile'][0] if ev['nfile'] else 1 if rows else 0
        self.nfiles[b] = max(before, nf)
        a, mem = self.lay(self.arr(ev['dtype'], rows, [len(rows)] + ([ev['nmemb']] if ev['nmemb'] != 1 or ev.get('sub') else [])), ev.get('lay', 'c'))
        m0 = mem.tobytes()
        kw = {}
        if 'limit' in ev: kw['memorylimit'] = ev['limit']
        if ev['nfile']: kw['Nfile'] = ev['nfile'][0]
        c = self.attempt(ev, lambda: self.fo[ev['f']].create_from_array(self.rel(ev['f'], b), a, **kw))
        ev['mem'] = 'ok' if mem.tobytes() == m0 else 'source changed'
        if c is not None: self.nfiles[b] = nf; self.have(ev, c)
        else: self.nfiles[b] = before
    def op_pyopen(self, ev):
        f, n = self.fo[ev['f']], self.rel(ev['f'], ev['b'])
        c = self.attempt(ev, lambda: f[n] if ev.get('how') == 'get' else f.open(n))
        if c is not None: self.have(ev, c)
    def op_pydesc(self, ev): ev['res'] = 'ok'; self.pdesc(ev, ev['h'])
    def nm(self, h):
        s = self.h[h].dtype.shape
        return s[0] if s else 1
    def op_pyget(self, ev):
        c = self.h[ev['h']]; i = self.index(ev['ix'])
        r = self.attempt(ev, lambda: c[i])
        if r is not None: self.unarr(ev, r, self.nm(ev['h']))
    def op_pyset(self, ev):
        c = self.h[ev['h']]; i = self.index(ev['ix'])
        v, mem = self.value(ev); m0 = mem.tobytes()
        def do(): c[i] = v
        self.attempt(ev, do)
        ev['mem'] = 'ok' if mem.tobytes() == m0 else 'source changed'
    def op_pyread(self, ev):
        c = self.h[ev['h']]; nm = self.nm(ev['h']); ev['mem'] = 'ok'
        if 'lay' not in ev: r = self.attempt(ev, lambda: c.read(ev['start'], ev['n']))
        else:
            n = ev['out']
            a = self.np.zeros([n] + ([nm] if nm != 1 else []), ev.get('odt', c.dtype.base)); a.view('u1')[...] = 0x33
            v, mem = self.lay(a.copy(), ev['lay']); m0 = mem.copy(); vt = 'V%d' % a.dtype.itemsize
            r = self.attempt(ev, lambda: c.read(ev['start'], ev['n'], v))
            keep = v.copy(); whole = mem.tobytes() == m0.tobytes()
            v.view(vt)[...] = a.view(vt)
            if mem.tobytes() != m0.tobytes(): ev['mem'] = 'outside changed'
            elif r is None: ev['mem'] = 'ok' if whole else 'array changed'
            elif r is not v: ev['mem'] = 'another array'
            if r is not None: r = keep
        if r is not None: self.unarr(ev, r, nm)
    def op_pywrite(self, ev):
        c = self.h[ev['h']]
        v, mem = self.value(ev); m0 = mem.tobytes()
        self.attempt(ev, lambda: c.write(ev['start'], v))
        ev['mem'] = 'ok' if mem.tobytes() == m0 else 'source changed'
    def op_pyappend(self, ev):
        c = self.h[ev['h']]; b = self.bof[ev['h']]
        n0 = c.Nfile; before = self.nfiles.get(b, 0)
        self.nfiles[b] = max(before, n0 + max(ev['nfile'], 0))
        v, mem = self.value(ev); m0 = mem.tobytes()
        kw = {} if ev['nfile'] == 1 else dict(Nfile=ev['nfile'])
        self.attempt(ev, lambda: c.append(v, **kw))
        if ev['res'] == 'err': self.nfiles[b] = max(before, c.Nfile)
        ev['mem'] = 'ok' if mem.tobytes() == m0 else 'source changed'
        self.pdesc(ev, ev['h'])
    def op_pyflush(self, ev):
        c = self.h[ev['h']]; how = ev.get('how', 'flush')
        def ctx():
            with c: pass
        def exc():
            try:
                with c: raise KeyError('x')
            except KeyError: pass
        self.attempt(ev, {'flush': c.flush, 'close': c.close, 'with': ctx, 'raise': exc}[how])
    def op_pydrop(self, ev):
        c = self.h.pop(ev['h']); self.bof.pop(ev['h'])
        ev['res'] = 'ok'
        if 'lost' in ev: C.pythonapi.Py_IncRef(C.py_object(c))       # never deallocated
        del c
        gc.collect()
    def op_pypickle(self, ev):
        how = ev['how']; c = self.h[ev['h']]
        r = self.attempt(ev, lambda: pickle.dumps(c, how) if isinstance(how, int) else getattr(copy, how)(c))
        self.pk[ev['p']] = (r, how, self.bof[ev['h']])
    def op_pyunpickle(self, ev):
        r, how, b = self.pk[ev['p']]
        c = self.attempt(ev, lambda: pickle.loads(r) if isinstance(how, int) else r)
        if not isinstance(how, int): self.pk[ev['p']] = (None, how, b)
        if c is not None:
            self.h[ev['h']] = c; self.bof[ev['h']] = b
            if b[-1] != 0: self.pdesc(ev, ev['h'])

    # --- attributes
    def aname(self, n): return self.attrs[n]
    def pyvalue(self, v, ev):
        np = self.np
        if v['k'] == 'str': return bytes(v['s']).decode()
        if v['k'] == 'strs':
            l = [bytes(s).decode() for s in v['l']]
            return l if ev.get('as') != 'array' else np.array(l)
        a = np.frombuffer(bytearray(bytes(v['raw'])), dtype='u1').view(np.dtype(v['dt'])) if v['raw'] else np.empty(0, v['dt'])
        how = ev.get('as', 'array')
        if how == 'scalar' and v['n'] == 1: return a[0]
        if how == '2d': return a.reshape(1, -1)
        if how in ('fort', '3t'):      # elements in another order in memory
            k = next((k for k in (2, 3, 5) if v['n'] % k == 0), 1)
            return np.asfortranarray(a.reshape(k, -1)) if how == 'fort' else np.ascontiguousarray(a.reshape(1, k, -1).transpose(2, 0, 1)).transpose(1, 2, 0)
        if how in ('gap', 'rev'): return self.lay(a, how)[0] if v['n'] else a
        return a
    def op_pysetattr(self, ev):
        a = self.h[ev['h']].attrs; name = ev['text'] if 'text' in ev else self.aname(ev['name'])
        v = self.pyvalue(ev['v'], ev); np = self.np
        m0 = v.tobytes() if isinstance(v, np.ndarray) else None
        def do(): a[name] = v
        self.attempt(ev, do)
        ev['mem'] = 'ok' if m0 is None or v.tobytes() == m0 else 'source changed'
    def op_pygetattr(self, ev):
        a = self.h[ev['h']].attrs; np = self.np
        r = self.attempt(ev, lambda: a[self.aname(ev['name'])])
        if ev['res'] != 'ok': return
        if isinstance(r, str): ev['v'] = dict(k='str', s=list(r.encode()))
        elif isinstance(r, list): ev['v'] = dict(k='strs', l=[list(s.encode()) for s in r])
        else: ev['v'] = dict(k='arr', dt=norm(r.dtype.str), n=len(r), raw=list(r.tobytes()))
    def op_pydelattr(self, ev):
        a = self.h[ev['h']].attrs
        def do(): del a[self.aname(ev['name'])]
        self.attempt(ev, do)
    def op_pyattrs(self, ev):
        a = self.h[ev['h']].attrs
        r = self.attempt(ev, lambda: list(a) if ev.get('how') == 'iter' else a.keys())
        ev['names'] = sorted(self.raname(n) for n in r or [])
        ev['has'] = [self.aname(n) in a for n in ev['ask']]

    # --- datasets
    def op_dsopen(self, ev):
        f = self.fo[0]; cols = ev['cols']
        names = [self.path(b) for b in cols]
        r = self.attempt(ev, lambda: self.m.Dataset(f) if ev.get('all') else self.m.Dataset(f, names))
        if r is None: return
        self.ds[ev['d']] = r
        ev['size'] = r.size
        ev['fields'] = [[self.unpath(n), norm(r.dtype[n].base.str), int(self.np.prod(r.dtype[n].shape)) if r.dtype[n].shape else 1] for n in r.dtype.names]
        if ev.get('all'): ev['cols'] = [x[0] for x in ev['fields']]
    def op_dssize(self, ev): ev['res'] = 'ok'; d = self.ds[ev['d']]; ev['size'] = d.size; ev['shape'] = list(d.shape)
    def op_dsget(self, ev):
        d = self.ds[ev['d']]; i = self.index(ev['ix']); np = self.np
        cols = [self.path(b) for b in ev['cols']]
        form = ev['form']       # all, one, some; how the index and the names are put together
        sel = cols[0] if form[0] == 'one' else cols
        if form[0] == 'all': fn = lambda: d[i]
        elif form[1] == 'after': fn = lambda: d[i, sel]
        elif form[1] == 'before': fn = lambda: d[sel, i]
        elif form[1] == 'tuple': fn = lambda: d[(sel,)][i]
        else: fn = lambda: d[sel][i]
        r = self.attempt(ev, fn)
        if ev['res'] != 'ok': return
        a = np.asarray(r)
        if form[0] == 'one':
            nm = d.dtype[cols[0]].shape; nm = nm[0] if nm else 1
            ev['names'] = ev['cols']; ev['vals'] = [self.cut(norm(a.dtype.str), a, nm)]
        else:
            ev['names'] = [self.unpath(n) for n in a.dtype.names]
            ev['vals'] = []
            for n in a.dtype.names:
                s = a.dtype[n]
                ev['vals'].append(self.cut(norm(s.base.str), np.ascontiguousarray(a[n]), s.shape[0] if s.shape else 1))
    def table(self, ev, d):
        np = self.np
        dt = d.dtype
        if not ev['fits']:
            if ev.get('unfit') == 'type': dt = np.dtype([('x' + n, d.dtype[n]) for n in d.dtype.names])
        a = np.zeros(ev['n'], dt)
        for k, n in enumerate(dt.names):
            f = a[n]
            f[...] = self.arr(norm(dt[n].base.str), ev['vals'][k], list(f.shape))
        lay = ev.get('lay', 'c')
        if lay == 'gap':
            big = np.zeros(2 * len(a) + 1, a.dtype); v = big[1::2]; v[...] = a; return v, big
        if lay == 'rev': big = a[::-1].copy(); return big[::-1], big
        if lay == '2d' and not ev['fits']: a = a.reshape(1, -1)
        return a, a
    def op_dsset(self, ev):
        d = self.ds[ev['d']]; i = self.index(ev['ix'])
        v, mem = self.table(ev, d); m0 = mem.tobytes()
        def do(): d[i] = v
        self.attempt(ev, do)
        ev['mem'] = 'ok' if mem.tobytes() == m0 else 'source changed'
    def op_dsappend(self, ev):
        d = self.ds[ev['d']]
        v, mem = self.table(ev, d); m0 = mem.tobytes()
        for b in ev['allcols']:
            b = tuple(b); self.nfiles[b] = max(self.nfiles.get(b, 0), self.onheader(b) + max(ev['nfile'], 0))
        kw = {} if ev['nfile'] == 1 else dict(Nfile=ev['nfile'])
        self.attempt(ev, lambda: d.append(v, **kw))
        ev['mem'] = 'ok' if mem.tobytes() == m0 else 'source changed'
        for b in ev['allcols']:
            b = tuple(b)
            if ev['res'] == 'err': self.nfiles[b] = max(self.onheader(b), self.lastn.get(b, 0))
    def onheader(self, b):
        try: return len(bf.parse_header(open(os.path.join(self.fbase, self.path(b), 'header'), 'rb').read())[2])
        except (OSError, bf.Bad, IndexError, ValueError): return 0
    def op_dsdrop(self, ev): self.ds.pop(ev['d']); ev['res'] = 'ok'
