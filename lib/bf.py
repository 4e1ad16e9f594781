"""Drives the real library (through harness/shim.c) and records one event per call.

An operation is a dict; World.execute() runs it and appends the event (operation plus what
was observed) to the trace.  Nothing here decides whether a result is right: TLC does.
"""
import ctypes as C, os, json, re, shutil, sys, signal, time, random
from enc import enc, dec, split, norm, HOLE, GARB

P, I, SZ, PD, S = C.c_void_p, C.c_int, C.c_size_t, C.c_ssize_t, C.c_char_p
PROTO = dict(
    vs_file_new=(P,), vs_file_open=(I, P, S), vs_file_create=(I, P, S), vs_file_close=(I, P), vs_free=(None, P),
    vs_h_new=(P,), vs_open=(I, P, P, S), vs_create=(I, P, P, S, S, I, I, P), vs_grow=(I, P, I, P), vs_flush=(I, P),
    vs_close=(I, P), vs_seek=(I, P, PD), vs_seek_rel=(I, P, PD), vs_eof=(I, P), vs_pos=(PD, P), vs_aoff=(PD, P),
    vs_write=(I, P, P, S, I, P, P), vs_read=(I, P, P, S, I, P, P), vs_read_simple=(I, P, PD, PD, S, P, P, P),
    vs_set_attr=(I, P, S, P, S, I), vs_get_attr=(I, P, S, P, S, I), vs_remove_attr=(I, P, S),
    vs_set_from=(I, P, P, S, S), vs_lookup_attr=(I, P, S, P, P, P), vs_nattr=(I, P), vs_attr=(S, P, I, P, P, P), vs_nmemb=(I, P), vs_Nfile=(I, P),
    vs_size=(SZ, P), vs_fsize=(SZ, P, I), vs_sum=(C.c_uint, P, I), vs_dtype=(S, P), vs_list=(I, P, P),
    vs_list_get=(S, P, I), vs_list_free=(None, P, I), vs_rt_new=(P,), vs_rt_add=(None, P, S, S, I),
    vs_rt_set=(None, P, I, S, S, I), vs_rt_complete=(None, P), vs_rt_clear=(None, P), vs_rt_itemsize=(I, P),
    vs_rt_offset=(I, P, I), vs_rec_set=(None, P, P, PD, I, P), vs_rec_get=(None, P, P, PD, I, P),
    vs_rec_create=(I, P, P, S, I, P), vs_rec_write=(I, P, P, PD, SZ, P), vs_rec_read=(I, P, P, PD, SZ, P),
    vs_bufsize=(None, SZ), vs_err=(S,), vs_seterr=(None, S), vs_fmt=(None, S, S, P, S), vs_parse=(I, S, S, P, S),
    vs_itemsize=(I, S), vs_kind=(I, S), vs_bb=(P, P), vs_ptr=(P, P))

def load(path):
    L = C.CDLL(path)
    for n, t in PROTO.items():
        f = getattr(L, n)
        f.restype, f.argtypes = t[0], list(t[1:])
    return L

DATAFILE = re.compile(r'^[0-9A-F]{6,}$')

# ----------------------------------------------------------------------------- disk
BIG = 1 << 22
def slurp(path):
    try:
        st = os.stat(path)
        if st.st_size <= BIG:
            with open(path, 'rb') as f: return f.read()
        ext = []
        with open(path, 'rb') as f:
            fd = f.fileno(); off = 0
            while True:
                try: off = os.lseek(fd, off, os.SEEK_DATA)
                except OSError: break
                end = os.lseek(fd, off, os.SEEK_HOLE)
                ext.append((off, os.pread(fd, end - off, off)))
                off = end
        return (st.st_size, tuple(ext))
    except OSError as ex:
        return b'!' + str(ex).encode()

def snapshot(root):
    out = {}
    stack = ['']
    while stack:
        d = stack.pop()
        try: it = list(os.scandir(os.path.join(root, d) if d else root))
        except OSError: continue
        for ent in it:
            rel = d + '/' + ent.name if d else ent.name
            if rel == 'L': continue              # where links lead to
            if ent.is_dir(follow_symlinks=False) or ent.is_symlink() and '/L/' in os.readlink(ent.path): stack.append(rel)
            else: out[rel] = slurp(ent.path)
    return out

def chunk(data, off, n):
    """n bytes at off of slurp()'s result"""
    if isinstance(data, bytes): return data[off:off + n]
    size, ext = data
    n = max(0, min(n, size - off))
    b = bytearray(n)
    for o, d in ext:
        lo, hi = max(o, off), min(o + len(d), off + n)
        if lo < hi: b[lo - off:hi - off] = d[lo - o:hi - o]
    return bytes(b)

def dlen(data): return len(data) if isinstance(data, bytes) else data[0]

class Bad(Exception): pass

def parse_header(text):
    lines = text.decode('latin1').split('\n')
    m = [re.match(r'^DTYPE: (\S+)$', lines[0]), re.match(r'^NMEMB: (-?\d+)$', lines[1]),
         re.match(r'^NFILE: (\d+)$', lines[2])]
    if not all(m): raise Bad('header')
    n = int(m[2].group(1))
    fs, sm = [None] * n, [None] * n
    for l in lines[3:]:
        if l == '': continue
        q = re.match(r'^([0-9A-F]+): (\d+) : (\d+) : (\d+)$', l)
        if not q: raise Bad('header line ' + l)
        i = int(q.group(1), 16)
        if i >= n or fs[i] is not None: raise Bad('header file id')
        fs[i], sm[i] = int(q.group(2)), int(q.group(3))
        s = sm[i]; r = (s & 0xffff) + (s >> 16)
        if (r & 0xffff) + (r >> 16) != int(q.group(4)): raise Bad('reduced checksum')
    if None in fs: raise Bad('header misses a file')
    return m[0].group(1), int(m[1].group(1)), fs, sm

def parse_attrs(text, names):
    out = []
    if text is None: return out
    for l in text.split(b'\n'):
        if l == b'': continue
        q = re.match(rb'^(\S+) (\S+) (\d+) ([0-9A-F]*) #HUMANE \[', l)
        if not q: raise Bad('attr line %r' % l[:80])
        nm = q.group(1).decode('latin1')
        raw = bytes.fromhex(q.group(4).decode())
        out.append([names(nm), q.group(2).decode(), int(q.group(3)), list(raw)])
    return out

# ----------------------------------------------------------------------------- memory views
class View:
    """element addresses of a strided view inside a larger buffer filled with a pattern"""
    def __init__(self, dt, dims, strides, lo=0, pad=16):
        self.dt, self.dims = dt, list(dims)
        w = split(dt)[2]; self.w = w
        if strides is None:
            strides = [0] * len(dims)
            if dims: strides[-1] = w
            for i in range(len(dims) - 2, -1, -1): strides[i] = strides[i + 1] * dims[i + 1]
            self.cstr = None
        else: self.cstr = 1
        self.strides = list(strides)
        mn = mx = 0
        self.n = 1
        for d, s in zip(dims, self.strides):
            self.n *= d
            if d > 0:
                if s < 0: mn += (d - 1) * s
                else: mx += (d - 1) * s
        size = mx - mn + w
        self.base = pad - mn
        self.total = size + 2 * pad
        self.buf = C.create_string_buffer(bytes((i * 37 + 11) % 251 for i in range(self.total)), self.total)
        self.addr = C.addressof(self.buf)
        offs = [self.base]
        for d, s in zip(self.dims, self.strides):
            offs = [o + k * s for o in offs for k in range(d)]
        self.offs = offs if self.n else []
    def fill(self, vals):
        for o, v in zip(self.offs, vals): self.buf[o:o + self.w] = enc(self.dt, v)
        self.before = self.buf.raw
    def fillraw(self, raws):
        for o, v in zip(self.offs, raws): self.buf[o:o + self.w] = v
        self.before = self.buf.raw
    def values(self):
        r = self.buf.raw
        return [dec(self.dt, r[o:o + self.w]) for o in self.offs]
    def raws(self):
        r = self.buf.raw
        return [r[o:o + self.w] for o in self.offs]
    def outside_ok(self):
        r = bytearray(self.buf.raw); b = bytearray(self.before)
        for o in self.offs:
            r[o:o + self.w] = b[o:o + self.w]
        return r == b
    def same(self): return self.buf.raw == self.before
    def cargs(self):
        n = len(self.dims)
        d = (SZ * max(n, 1))(*self.dims)
        s = (PD * max(n, 1))(*self.strides) if self.cstr else None
        return self.addr + self.base, n, d, s

def layout(dt, n, nmemb, kind, rng=None):
    """dims and strides (in bytes) of a view of n rows of nmemb elements"""
    w = split(dt)[2]
    if kind == 'c': return [n, nmemb], None
    if kind == 'flat': return [n * nmemb], None
    if kind == 'cs': return [n, nmemb], [w * nmemb, w]
    if kind == 'f': return [n, nmemb], [w, w * max(n, 1)]
    if kind == 'pad': return [n, nmemb], [w * nmemb + 3 * w, w]
    if kind == 'gap': return [n, nmemb], [2 * w * nmemb, 2 * w]
    if kind == 'odd': return [n, nmemb], [(w + 1) * nmemb + 5, w + 1]
    if kind == 'neg': return [n, nmemb], [-w * nmemb, w]
    if kind == 'negneg': return [n, nmemb], [-w * nmemb, -w]
    if kind == 'bcast': return [n, nmemb], [0, w]
    if kind == 'bcast2': return [n, nmemb], [w, 0]
    if kind == 'one': return [n, 1, nmemb], [w * nmemb, 12345, w]
    if kind == 'one1': return [1, n, nmemb, 1], [7, w * nmemb, w, 3]
    if kind == '3d':
        a = 1
        for q in range(2, n):
            if n % q == 0: a = q; break
        return [n // a if a else n, a, nmemb], [w * nmemb * (a + 1), w * nmemb, w]
    raise ValueError(kind)
LAYOUTS = ['c', 'flat', 'cs', 'f', 'pad', 'gap', 'odd', 'neg', 'negneg', 'one', 'one1', '3d']
SRC_ONLY = ['bcast', 'bcast2']

# ----------------------------------------------------------------------------- world
class World:
    def __init__(self, lib, root, comps, attrs, trace, coord=None, raw=False, intent=None):
        """comps: component id -> text; attrs: attribute id -> text (bytewise sorted ids)"""
        self.L, self.root, self.trace = lib, root, trace
        self.comps, self.attrs = comps, attrs
        self.rcomps = {v: k for k, v in comps.items()}
        self.rattrs = {v: k for k, v in attrs.items()}
        self.coord, self.raw = coord, raw
        self.intent = intent
        self.h, self.bof, self.nfiles, self.files = {}, {}, {}, {}
        self.events = 0
        self.snap = {}
        self.fbase = os.path.join(root, 'F')
        self.f = None

    # --- names
    def path(self, b):
        return '/'.join('.' if c == 0 else self.comps[c] for c in b)
    def apiname(self, b): return self.path(b)
    def unpath(self, rel):
        out = []
        for c in rel.split('/') if rel else []:
            if c == '.': out.append(0)
            elif c in self.rcomps: out.append(self.rcomps[c])
            else: return None
        return out
    def aname(self, n): return self.attrs[n]
    def raname(self, t):
        return self.rattrs.get(t, -1)

    # --- recording
    def emit(self, ev):
        self.trace.write(json.dumps(ev) + '\n'); self.trace.flush()
        self.events += 1

    def reset(self, nested=()):
        self.drop_all()
        shutil.rmtree(self.root, ignore_errors=True)
        os.makedirs(self.root)
        if self.f is None: self.f = self.L.vs_file_new()
        if self.L.vs_file_create(self.f, os.fsencode(self.fbase)) != 0:
            raise RuntimeError('cannot create file')
        self.nfiles = {}; self.lastn = {}; self.show = set()
        self.snap = snapshot(self.root)
        self.emit(dict(op='reset', chg=[]))

    def drop_all(self):
        self.h, self.bof = {}, {}

    def readable(self, d, snap):
        """projection of the column in directory d (relative to root)"""
        rel = d[2:] if d.startswith('F/') else ('' if d == 'F' else None)
        if rel is None: return dict(b=[-1], bad='outside %s' % d)
        b = self.unpath(rel)
        if b is None: return dict(b=[-1], bad='stray %s' % d)
        hd = snap.get(d + '/header')
        try:
            at = parse_attrs(snap.get(d + '/attr-v2'), self.raname)
            if hd is None:
                return dict(b=b + [0], dtype='####', nmemb=0, fsize=[], sum=[], attrs=at, data=[])
            dt, nmemb, fs, sm = parse_header(hd)
            N = max(self.nfiles.get(tuple(b), 0), len(fs))
            ev = dict(b=b, dtype=dt, nmemb=nmemb, sum=[s if s < 2**31 else s - 2**32 for s in sm], attrs=at)
            ev['fsize'] = self.cfs(tuple(b), fs)
            ev['data'] = [self.rows(tuple(b), i, snap.get('%s/%06X' % (d, i)), dt, nmemb) for i in range(N)]
            if self.raw:
                ev['raw'] = [list(snap.get('%s/%06X' % (d, i), b'')) for i in range(N)]
            return ev
        except Bad as ex:
            return dict(b=b + ([0] if hd is None else []), bad=str(ex))
        except (ValueError, IndexError) as ex:
            return dict(b=b + ([0] if hd is None else []), bad=repr(ex))

    # coordinates: identity unless a World with compressed coordinates overrides them
    def cfs(self, b, fs): return fs
    def rows(self, b, i, data, dt, nmemb):
        if data is None: raise Bad('file %d missing' % i)
        w = split(dt)[2]; rb = w * nmemb
        if rb == 0: return []
        if dlen(data) % rb: raise Bad('file %d has a partial row' % i)
        data = data if isinstance(data, bytes) else chunk(data, 0, dlen(data))
        return [[dec(dt, data[r + k * w:r + k * w + w]) for k in range(nmemb)] for r in range(0, len(data), rb)]

    show = frozenset()
    maymake = {}      # column -> files that a failed call may have left
    def changes(self):
        new = snapshot(self.root)
        dirs = set()
        chg = []
        for f in set(new) | set(self.snap):
            if new.get(f) != self.snap.get(f):
                d, n = os.path.split(f)
                b = self.unpath(d[2:]) if d.startswith('F/') else ([] if d == 'F' else None)
                if n == 'header' or n == 'attr-v2': dirs.add(d)
                elif DATAFILE.match(n) and b is not None and int(n, 16) < max(self.nfiles.get(tuple(b), 0), self.maymake.get(tuple(b), 0)): dirs.add(d)
                else: chg.append(dict(b=[-1], bad='stray change of %s' % f))
        for b, n in self.nfiles.items():        # stale files that came into use
            if n != self.lastn.get(b, 0) and b[-1] != 0: dirs.add('F/' + self.path(b))
        self.lastn = dict(self.nfiles)
        for b in self.show:                     # shown even if they look as before
            d = os.path.normpath('F/' + self.path(b if b[-1] != 0 else b[:-1]))
            if d + ('/header' if b[-1] != 0 else '/attr-v2') in new: dirs.add(d)
        self.show = set()
        self.snap = new
        for d in sorted(dirs): chg.append(self.readable(d, new))
        return chg

    # --- operations
    def execute(self, op):
        if self.intent is not None:
            self.intent(op)
        ev = dict(op)
        getattr(self, 'op_' + op['op'])(ev)
        if 'chg' not in ev: ev['chg'] = self.changes()
        self.emit(ev)
        return ev

    def res(self, ev, rt):
        ev['res'] = 'ok' if rt == 0 else 'err'
        if rt != 0:
            m = self.L.vs_err()
            if m is None or len(m) == 0: ev['msg'] = 'none'
        return rt == 0

    def desc(self, ev, h):
        n = self.L.vs_Nfile(h)
        fs = [self.L.vs_fsize(h, i) for i in range(n)]
        ev['desc'] = dict(dtype=self.L.vs_dtype(h).decode('latin1'), nmemb=self.L.vs_nmemb(h),
                          fsize=self.cfs(self.bof[ev['h']], fs), size=self.csz(self.bof[ev['h']], self.L.vs_size(h)))
    def csz(self, b, n): return n
    def cpos(self, b, p): return p       # real -> compressed
    def rpos(self, b, p): return p       # compressed -> real
    def rfs(self, b, fs): return fs

    def op_create(self, ev):
        h = self.L.vs_h_new()
        b = tuple(ev['b'])
        fs = self.rfs(b, ev['fsize'])
        arr = (SZ * max(1, len(fs)))(*fs)
        name = ev.get('text') or self.apiname(b)
        self.bof[ev['h']] = b
        dt = ev.get('dtext', ev['dtype'])
        want = len(fs)
        if dt == 'none': dt = None; want = 0
        before = self.nfiles.get(b, 0)
        self.nfiles[b] = max(before, want) if b[-1] != 0 else 0
        if self.res(ev, self.L.vs_create(self.f, h, os.fsencode(name), dt.encode() if dt is not None else None,
                                         ev['nmemb'], len(fs), arr)):
            self.h[ev['h']] = h
            self.nfiles[b] = want
            self.desc(ev, h)
        else:
            self.nfiles[b] = before
            self.bof.pop(ev['h'], None)

    def op_open(self, ev):
        h = self.L.vs_h_new()
        b = tuple(ev['b'])
        name = ev.get('text') or self.apiname(b)
        if self.res(ev, self.L.vs_open(self.f, h, os.fsencode(name))):
            self.h[ev['h']] = h; self.bof[ev['h']] = b
            self.desc(ev, h)

    def op_describe(self, ev):
        ev['res'] = 'ok'
        self.desc(ev, self.h[ev['h']])

    def op_list(self, ev):
        p = ev['p']
        f = self.L.vs_file_new()
        base = self.fbase + ('/' + self.path(p) if p else '') + ('/' if ev.get('slash') else '')
        rt = self.L.vs_file_open(f, os.fsencode(base))
        names = []
        if rt == 0:
            lst = C.c_void_p()
            n = self.L.vs_list(f, C.byref(lst))
            for i in range(max(n, 0)):
                t = self.unpath(os.fsdecode(self.L.vs_list_get(lst, i)))
                names.append(list(p) + t if t is not None else [-1])
            self.L.vs_list_free(lst, max(n, 0))
            if n < 0: rt = -1
            self.L.vs_file_close(f)
        ev['names'] = names
        self.res(ev, rt)

    def op_flush(self, ev): self.res(ev, self.L.vs_flush(self.h[ev['h']]))
    def op_close(self, ev):
        h = self.h.pop(ev['h']); self.bof.pop(ev['h'], None)
        self.res(ev, self.L.vs_close(h))
        self.L.vs_free(h)
    def op_drop(self, ev):
        self.h.pop(ev['h']); self.bof.pop(ev['h'], None)
        ev['res'] = 'ok'
    def op_grow(self, ev):
        h = self.h[ev['h']]; b = self.bof[ev['h']]
        base = self.L.vs_Nfile(h)
        fs = self.rgrow(b, ev['fsize'])
        arr = (SZ * max(1, len(fs)))(*fs)
        self.nfiles[b] = max(self.nfiles.get(b, 0), base + len(fs))
        self.res(ev, self.L.vs_grow(h, len(fs), arr))
        self.desc(ev, h)
    def rgrow(self, b, fs): return fs

    def pos(self, ev):
        h = self.h[ev['h']]
        p, a = self.L.vs_pos(h), self.L.vs_aoff(h)
        ev['pos'] = self.cpos(self.bof[ev['h']], p) if p == a else -7
    def op_seek(self, ev):
        h = self.h[ev['h']]; b = self.bof[ev['h']]
        off = ev['roff'] if 'roff' in ev else self.rseek(b, ev['off'], h)
        self.res(ev, self.L.vs_seek(h, off)); self.pos(ev)
    def rseek(self, b, off, h): return off
    def op_seekrel(self, ev):
        h = self.h[ev['h']]; b = self.bof[ev['h']]
        off = ev['roff'] if 'roff' in ev else self.rrel(b, ev['off'], h)
        self.res(ev, self.L.vs_seek_rel(h, off)); self.pos(ev)
    def rrel(self, b, off, h): return off
    def op_eof(self, ev):
        ev['res'] = 'ok'; ev['eof'] = bool(self.L.vs_eof(self.h[ev['h']]))

    def op_write(self, ev):
        h = self.h[ev['h']]
        rows = ev['rows']; nm = ev.get('nm') or (len(rows[0]) if rows else max(1, self.L.vs_nmemb(h)))
        kind = ev.get('lay', 'c')
        dims, st = layout(ev['mdt'], len(rows), nm, kind)
        v = View(ev['mdt'], dims, st)
        v.fill([x for r in rows for x in r])
        a, n, d, s = v.cargs()
        rt = self.L.vs_write(h, a, ev['mdt'].encode(), n, d, s)
        self.res(ev, rt); self.pos(ev)
        ev['mem'] = 'ok' if v.same() else 'source changed'

    def op_read(self, ev):
        h = self.h[ev['h']]
        nm = self.L.vs_nmemb(h) or 1
        dims, st = layout(ev['mdt'], ev['n'], nm, ev.get('lay', 'c'))
        v = View(ev['mdt'], dims, st)
        v.before = v.buf.raw
        a, n, d, s = v.cargs()
        rt = self.L.vs_read(h, a, ev['mdt'].encode(), n, d, s)
        if self.res(ev, rt):
            x = v.values()
            ev['rows'] = [x[i:i + nm] for i in range(0, len(x), nm)]
        self.pos(ev)
        ev['mem'] = 'ok' if v.outside_ok() else 'outside of view changed'

    def op_overlong(self, ev):
        # a transfer of n rows, many more than the column has (or than there is memory for)
        h = self.h[ev['h']]
        nm = self.L.vs_nmemb(h) or 1
        v = View(ev['mdt'], [1, nm], None); v.before = v.buf.raw
        a, n, d, s = v.cargs()
        d[0] = int(ev['count'])
        rt = (self.L.vs_read if ev['dir'] == 'read' else self.L.vs_write)(h, a, ev['mdt'].encode(), n, d, s)
        self.res(ev, rt); self.pos(ev)
        ev['mem'] = 'ok' if v.same() else 'memory changed'

    def op_readsimple(self, ev):
        h = self.h[ev['h']]; b = self.bof[ev['h']]
        data = C.c_void_p(); dims = (SZ * 2)(); odt = C.create_string_buffer(9)
        start = ev['rstart'] if 'rstart' in ev else self.rseek(b, ev['start'], h)
        rt = self.L.vs_read_simple(h, start, ev.get('rn', ev['n']), ev['mdt'].encode() if not ev.get('nulldt') else None,
                                   C.byref(data), dims, odt)
        if self.res(ev, rt):
            n, nm = dims[0], dims[1]; dt = odt.value.decode(); w = split(dt)[2]
            ev['mdt'] = norm(dt)
            raw = C.string_at(data, n * nm * w)
            x = [dec(dt, raw[i:i + w]) for i in range(0, len(raw), w)]
            ev['rows'] = [x[i:i + nm] for i in range(0, len(x), nm or 1)]
            self.L.vs_free(data)
        self.pos(ev)

    # attributes
    def op_setattr(self, ev):
        h = self.h[ev['h']]
        if 'own' in ev:             # from the value of another attribute, where it lies
            nmemb = I(); dt = C.create_string_buffer(9); data = C.c_void_p()
            src, dst = (self.aname(ev[k]).encode('latin1') for k in ('own', 'name')); g = self.h[ev['g']]
            if not self.L.vs_lookup_attr(g, src, C.byref(nmemb), dt, C.byref(data)): ev['op'] = 'nop'; ev['res'] = 'ok'; return
            _, ev['dt'], ev['n'], raw = self._attr(None, nmemb, dt, data)
            w = split(ev['dt'])[2]
            if ev.pop('plain'): ev['vals'] = [dec(ev['dt'], bytes(raw[i:i + w])) for i in range(0, len(raw), w)]
            else: ev['raw'] = raw
            self.res(ev, self.L.vs_set_from(h, g, src, None if src == dst else dst)); ev['mem'] = 'ok'
            return
        name = ev['text'] if 'text' in ev else self.aname(ev['name'])
        raw = bytes(ev['raw']) if 'raw' in ev else b''.join(enc(ev['dt'], v) for v in ev['vals'])
        buf = C.create_string_buffer(raw + b'\xee' * 8, len(raw) + 8)
        before = buf.raw
        rt = self.L.vs_set_attr(h, name.encode('latin1'), buf, ev.get('dtext', ev['dt']).encode(), ev['n'])
        self.res(ev, rt)
        ev['mem'] = 'ok' if buf.raw == before else 'source changed'
    def op_rmattr(self, ev):
        self.res(ev, self.L.vs_remove_attr(self.h[ev['h']], self.aname(ev['name']).encode('latin1')))
    def op_getattr(self, ev):
        h = self.h[ev['h']]
        sz = split(ev['dt'])[2] * ev['n']
        buf = C.create_string_buffer(b'\xaa' * (sz + 16), sz + 16)
        rt = self.L.vs_get_attr(h, self.aname(ev['name']).encode('latin1'), buf, ev['dt'].encode(), ev['n'])
        if self.res(ev, rt): ev['raw'] = list(buf.raw[:sz])
        if buf.raw[sz:] != b'\xaa' * 16: ev['msg'] = 'overrun'
    def _attr(self, nm, nmemb, dt, data):
        d = dt.value.decode('latin1')
        return [self.raname(nm) if nm is not None else None, d, nmemb.value,
                list(C.string_at(data, split(d)[2] * nmemb.value)) if nmemb.value > 0 else []]
    def op_lookup(self, ev):
        h = self.h[ev['h']]
        nmemb = I(); dt = C.create_string_buffer(9); data = C.c_void_p()
        f = self.L.vs_lookup_attr(h, self.aname(ev['name']).encode('latin1'), C.byref(nmemb), dt, C.byref(data))
        ev['res'] = 'ok'; ev['found'] = bool(f)
        if f: _, ev['dt'], ev['n'], ev['raw'] = self._attr(None, nmemb, dt, data)
    def op_lsattr(self, ev):
        h = self.h[ev['h']]
        out = []
        for i in range(self.L.vs_nattr(h)):
            nmemb = I(); dt = C.create_string_buffer(9); data = C.c_void_p()
            nm = self.L.vs_attr(h, i, C.byref(nmemb), dt, C.byref(data))
            out.append(self._attr(nm.decode('latin1'), nmemb, dt, data))
        ev['res'] = 'ok'; ev['attrs'] = out

    def op_nop(self, ev):
        ev['res'] = 'ok'
        if 'bufsize' in ev: self.L.vs_bufsize(ev['bufsize'])
        if 'mkdir' in ev: os.makedirs(os.path.join(self.fbase, ev['mkdir']), exist_ok=True)
        if 'link' in ev:            # a directory that is elsewhere
            p = os.path.join(self.fbase, self.path(ev['link']))
            if not os.path.lexists(p):
                t = os.path.join(self.root, 'L', str(len(os.listdir(self.root + '/L')) if os.path.isdir(self.root + '/L') else 0))
                os.makedirs(t); os.makedirs(os.path.dirname(p), exist_ok=True)
                os.symlink(t, p)
        if 'stray' in ev:
            p = os.path.join(self.fbase, ev['stray']); os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as f: f.write(b'stray')
        self.snap = snapshot(self.root); ev['chg'] = []

# ----------------------------------------------------------------------------- isolation
def run_scenarios(libpath, scen, tracefile, comps, attrs, timeout=15, raw=False, worldcls=World, setup=None, base=None):
    """Runs every scenario (a list of operations) in child processes.  A child that dies or
    hangs leaves an event with result 'crash...' for the operation in progress."""
    base = base or scratch()
    start = hangs = 0
    open(tracefile, 'w').close()
    while start < len(scen):
        intentf = tracefile + '.intent'
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                fd = os.open(intentf, os.O_RDWR | os.O_CREAT | os.O_TRUNC)
                def intent(i, op):
                    s = json.dumps([i, op]).encode() + b'\n'
                    os.pwrite(fd, s, 0); os.ftruncate(fd, len(s))
                    signal.alarm(timeout)
                L = getattr(worldcls, 'load', load)(libpath)
                with open(tracefile, 'a') as tr:
                    w = worldcls(L, os.path.join(base, 'w%d' % os.getpid()), comps, attrs, tr, raw=raw)
                    for i in range(start, len(scen)):
                        intent(i, dict(op='reset'))
                        if setup: setup(w, scen[i])
                        w.reset()
                        L.vs_bufsize(64 << 20)
                        w.intent = lambda op, i=i: intent(i, op)
                        for op in scen[i]['ops']: w.execute(op)
                    shutil.rmtree(w.root, ignore_errors=True)
                code = 0
            except BaseException as ex:
                import traceback
                with open(tracefile + '.exc', 'w') as f: f.write(repr(ex)[:300]); f.write('\n' + traceback.format_exc())
                code = 3
            finally:
                sys.stdout.flush(); sys.stderr.flush()
                os._exit(code)
        _, st = os.waitpid(pid, 0)
        shutil.rmtree(os.path.join(base, 'w%d' % pid), ignore_errors=True)
        if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0: break
        i, op = json.loads(open(intentf).read())
        why = 'hang' if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGALRM else \
              'crash signal %d' % os.WTERMSIG(st) if os.WIFSIGNALED(st) else 'exit %d' % os.WEXITSTATUS(st)
        if why == 'exit 3': why = 'harness: ' + open(tracefile + '.exc').read()
        op = dict(op); op['res'] = why; op['chg'] = []
        with open(tracefile, 'a') as tr: tr.write(json.dumps(op) + '\n')
        start = i + 1
        hangs += why == 'hang'
        if hangs >= 3: break            # enough to report; the rest is not executed
    for x in ('.intent', '.exc'):
        if os.path.exists(tracefile + x): os.unlink(tracefile + x)

_scratch = None
def scratch():
    """a private scratch directory, removed at exit"""
    global _scratch
    if _scratch is None:
        import tempfile, atexit
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
        _scratch = tempfile.mkdtemp(prefix='bfverif-', dir=base)
        me = os.getpid()
        atexit.register(lambda: os.getpid() == me and shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch
