"""The command-line tools: every event is one run of a tool (a process of its own; the parallel ones
run on simulated ranks in a process), with its exit status, its output read back into values, and
what it changed on disk.  Between them the columns are made and looked at with the library."""
import ctypes as C, os, re, signal, struct, subprocess, sys, time, bf
from bf import Bad, parse_attrs, parse_header
from enc import split, enc, dec, norm

BAK = 500       # component c + BAK is the name of c with the ending of a backup
def bak(b): return tuple(b[:-1]) + (b[-1] + BAK,)
NRANKS = 8
LIMIT = 40

def load(path):
    L = bf.load(path + '/libshim.so')
    L.tools = path
    return L

def totext(dt, raw):
    """an element as an argument of set-attr"""
    o, k, w = split(dt)
    if k in 'iu': return str(int.from_bytes(raw, 'little' if o == '<' else 'big', signed=k == 'i'))
    if k == 'f': return '%.17g' % struct.unpack(o + 'fd'[w == 8], raw)[0]
    if k == 'c': return '%.17g + %.17g I' % struct.unpack(o + ('ff' if w == 8 else 'dd'), raw)
    raise ValueError(dt)
CPL = re.compile(r'^(.+?)\+(-?[0-9.].*)I$')
def fromtext(dt, t):
    """the bytes of a printed element; None if it is none"""
    o, k, w = split(dt)
    try:
        if k in 'iu' or k == 'b': return int(t).to_bytes(w, 'little' if o == '<' else 'big', signed=k == 'i')
        if k == 'f': return struct.pack(o + 'fd'[w == 8], float(t))
        if k == 'c':
            m = CPL.match(t)
            return struct.pack(o + ('ff' if w == 8 else 'dd'), float(m.group(1)), float(m.group(2)))
        if k == 'S' and w == 1: return t.encode('latin1')[:1]
    except (ValueError, OverflowError, AttributeError, struct.error): pass
    return None

class ToolWorld(bf.World):
    load = staticmethod(load)
    def __init__(self, lib, *a, **k):
        super().__init__(lib, *a, **k)
        self.tools = lib.tools
        self.nrun = 0
    def reset(self, nested=()):
        self.maymake = {}; self.last = []
        super().reset(nested)

    # --- running
    def base(self, p): return self.fbase + ''.join('/' + self.comps[c] for c in p)
    def name(self, b, p=()): return self.path(b[len(p):])
    def run(self, ev, tool, args, stdin=b'', full=False):
        """exit status as a result, and the output"""
        self.nrun += 1
        out = os.path.join(os.path.dirname(self.trace.name), 'out%d' % os.getpid())
        rep = out + '.vfs'
        if os.path.exists(rep): os.unlink(rep)
        env = {'PATH': '/usr/bin:/bin', 'LC_ALL': 'C', 'ASAN_OPTIONS': 'detect_leaks=0:exitcode=77:log_path=/dev/null'}
        if 'fault' in ev:
            env['VFS_ARM'] = '%d,%d,%d' % tuple(ev['fault']); env['VFS_OUT'] = rep
            env['VFS_WHO'] = 'bigfile-' + ev.get('who', tool)
        with open('/dev/full' if full else out, 'wb') as fo:
            p = subprocess.Popen([self.tools + '/bigfile-' + tool] + args, stdin=subprocess.PIPE, stdout=fo, stderr=subprocess.DEVNULL, env=env,
                                 cwd=self.root, start_new_session=True)
            try: p.communicate(stdin, timeout=LIMIT); rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = 'hang'
            try: os.killpg(p.pid, signal.SIGKILL)
            except OSError: pass
            p.wait()
        self.status(ev, rc, rep)
        if full: return b''
        with open(out, 'rb') as f: o = f.read()
        os.unlink(out)
        return o
    def status(self, ev, rc, rep):
        ev['res'] = 'hang' if rc == 'hang' else 'ok' if rc == 0 else 'crash (memory)' if rc == 77 else 'crash signal %d' % -rc if rc < 0 else \
                    'crash signal %d' % (rc - 128) if rc in (134, 136, 139) else 'err'
        if 'fault' in ev:
            ev['fired'] = False
            if os.path.exists(rep):
                ls = open(rep).read().split('\n'); os.unlink(rep)
                ev['fired'] = any(l.split()[1:2] not in ([], ['-']) for l in ls)
                ev['kinds'] = ''.join(l.split()[2] for l in ls if len(l.split()) > 2)
    def par(self, ev, tool, args, n, sched, var='', value=0):
        """a parallel tool on n simulated ranks"""
        self.nrun += 1
        rep = os.path.join(os.path.dirname(self.trace.name), 'par%d' % os.getpid())
        if os.path.exists(rep): os.unlink(rep)
        pid = os.fork()
        if pid == 0:
            try:
                null = os.open('/dev/null', os.O_RDWR)
                for fd in (0, 1, 2): os.dup2(null, fd)
                signal.alarm(LIMIT)
                if 'fault' in ev:
                    os.environ['VFS_ARM'] = '%d,%d,%d' % tuple(ev['fault']); os.environ['VFS_OUT'] = rep
                os.environ.pop('VFS_WHO', None)
                S = C.CDLL(self.tools + '/libsim.so', mode=C.RTLD_GLOBAL)
                libs = (C.c_char_p * n)(*[('%s/%s-%d.so' % (self.tools, tool, i)).encode() for i in range(n)])
                argv = [b'bigfile-' + tool.encode()] + [os.fsencode(a) for a in args]
                S.vs_tool.argtypes = [C.c_int, C.c_void_p, C.c_int, C.c_void_p, C.c_ulong, C.c_int, C.c_int, C.c_char_p, C.c_long]
                os._exit(S.vs_tool(n, libs, len(argv), (C.c_char_p * (len(argv) + 1))(*argv, None), sched[0], sched[1], sched[2], var.encode(), value))
            finally: os._exit(9)
        _, st = os.waitpid(pid, 0)
        rc = os.WEXITSTATUS(st) if os.WIFEXITED(st) else -os.WTERMSIG(st)
        if rc in (3, -signal.SIGALRM): rc = 'hang'
        assert rc != 9, 'the tool did not start'
        self.status(ev, rc, rep)
    def count(self, b, n):
        """files of a column that are in use from now on"""
        self.nfiles[tuple(b)] = n
    def onheader(self, b):
        try:
            with open(os.path.join(self.fbase, self.path(b), 'header'), 'rb') as f: return parse_header(f.read())
        except (OSError, Bad, ValueError, IndexError): return None
    def may(self, b, *n):
        b = tuple(b)
        self.maymake[b] = max(self.maymake.get(b, 0), self.nfiles.get(b, 0), *[x or 0 for x in n])
    def took(self, b, ev):
        """a tool may have created column b"""
        if b[-1] == 0: self.nfiles[tuple(b)] = 0; return
        self.show.add(tuple(b))
        h = self.onheader(b)
        if h and ev['res'] == 'ok': self.count(b, len(h[2]))

    # --- the tools
    def tool_args(self, ev, opts):
        a = []
        for k, o in opts:
            if ev.get(k) is not None: a += [o, str(ev[k])]
        return a
    def op_tcopy(self, ev):
        src, dst, p, q = ev['b'], ev['d'], ev['p'], ev['q']
        a = self.tool_args(ev, [('nfile', '-n' if not ev.get('par') or ev.get('small', True) else '-N'), ('buf', '-b' if ev.get('par') else '-B')])
        if q != p or ev.get('f'): a += ['-f', self.base(q)]
        a += [self.base(p), self.name(src, p), self.name(dst, q)]
        self.may(dst, ev.get('nfile'), self.nfiles.get(tuple(src)), len((self.onheader(src) or ([],) * 3)[2]))      # files the copy may make
        if ev.get('par'): self.par(ev, 'copy-mpi', a, ev['par'], ev['sched'])
        else: self.run(ev, 'copy', a)
        self.took(dst, ev)
    def op_tsample(self, ev):
        src, dst, p, q = ev['b'], ev['d'], ev['p'], ev['q']
        a = self.tool_args(ev, [('nfile', '-n')]) + ['-r', ev['ratio']]
        if q != p: a += ['-f', self.base(q)]
        a += [self.base(p), self.name(src, p), self.name(dst, q)]
        self.may(dst, ev.get('nfile'), self.nfiles.get(tuple(src)), len((self.onheader(src) or ([],) * 3)[2]))
        self.par(ev, 'sample-mpi', a, ev['par'], ev['sched'], 'CHUNKSIZE', ev['chunk'])
        self.took(dst, ev)
        self.last.append(ev['res'])
    def op_trepart(self, ev):
        p = ev['p']
        for b in ev['bs'] or ev['all']:
            self.may(bak(b), 1 << 20)
            self.may(b, 1 << 20)
        self.run(ev, 'repartition', [self.base(p), str(ev['nfile'])] + [self.name(b, p) for b in ev['bs']])
        for b in ev['bs'] or ev['all']:
            if not os.path.exists(self.fbase + '/' + self.path(b) + '/header') and b[-1] < BAK: self.nfiles.pop(tuple(b), None)
            for x in (b, bak(b)):
                h = self.onheader(x)
                self.show.add(tuple(x))
                if h: self.nfiles[tuple(x)] = len(h[2])
    def op_trename(self, ev):
        p = ev['p']
        x = lambda n: os.path.lexists(self.base(p) + '/' + n)
        ev['there'], ev['was'], ev['room'] = x(self.name(ev['d'], p)), x(self.name(ev['b'], p)), x(os.path.dirname(self.name(ev['d'], p)))
        self.run(ev, 'rename', [self.base(p), self.name(ev['b'], p), self.name(ev['d'], p)])
        if ev['res'] == 'ok':       # what is below goes along
            f, t = tuple(ev['b']), tuple(ev['d'])
            for m in (self.nfiles, self.maymake):
                for k in [k for k in m if k[:len(f)] == f]: m[t + k[len(f):]] = max(m.get(t + k[len(f):], 0), m[k])
            for k in [k for k in self.nfiles if k[:len(f)] == f and t[:len(f)] != f]: self.may(k, 1 << 20); self.may(t + k[len(f):], 1 << 20); self.nfiles[t + k[len(f):]] = self.nfiles.pop(k)
    def op_trm(self, ev):
        ev['dirs'] = all(os.path.lexists(self.base(ev['p']) + '/' + self.name(b, ev['p'])) for b in ev['bs'])
        self.run(ev, 'rm', [self.base(ev['p'])] + [self.name(b, ev['p']) for b in ev['bs']])
        for k in list(self.nfiles):
            if not os.path.isdir(self.fbase + '/' + self.path(k)): self.may(k, 1 << 20); del self.nfiles[k]
    def op_tls(self, ev):
        p = ev['p']
        a = ['-l'] if ev['long'] else []
        ev['there'] = os.path.isdir(self.base(p))
        a += [self.base(p)] + ([self.name(ev['b'], p)] if ev['b'] else [])
        o = self.run(ev, 'ls', a, full=ev.get('full', False)).decode('latin1')
        ev['out'] = []
        for l in o.split('\n'):
            if l == '': continue
            if not ev['long']: ev['out'].append(dict(b=self.below(p, l))); continue
            w = l.split()
            try: ev['out'].append(dict(b=self.below(p, w[0]), dtype=w[1], nmemb=int(w[2]), size=int(w[3]), sysv=int(w[4]), nfile=int(w[5]),
                                       path=[0] if w[6] != self.base(p) + '/' + w[0] else []))
            except (ValueError, IndexError): ev['out'].append(dict(b=[-1], dtype=l[:60], nmemb=0, size=0, sysv=0, nfile=0, path=[]))
    def below(self, p, t):
        x = self.unpath(t)
        return list(p) + x if x is not None else [-1]
    def op_tcat(self, ev):
        p = ev['p']
        a = ['-b'] if ev['bin'] else []
        a += self.tool_args(ev, [('off', '-o'), ('cnt', '-c'), ('buf', '-B'), ('fmt', '-f')])
        h = self.onheader(ev['b'])
        o = self.run(ev, 'cat', a + [self.base(p), self.name(ev['b'], p)], full=ev.get('full', False))
        ev['off'], ev['cnt'] = ev.get('off') or 0, -1 if ev.get('cnt') is None else ev['cnt']
        if ev['res'] != 'ok' or h is None or ev.get('full'): return
        dt, nm, fs, sm = h; w = split(dt)[2]
        if ev['bin']:
            x = [dec(dt, o[i:i + w]) for i in range(0, len(o) - w + 1, w)]
            ev['rows'] = [x[i:i + nm] for i in range(0, len(x), nm)] if nm else []
            if nm and len(o) % (w * nm): ev['rows'].append([-1])
        else:
            ev['rows'] = []
            ls = o.decode('latin1').split('\n')
            if ls[-1] != '': ev['rows'].append([-1])
            for l in ls[:-1]:
                t = l.split(' ') if nm else ['']
                raw = [fromtext(dt, x) for x in t[:-1]]
                if t[-1] != '' or None in raw: ev['rows'].append([-2]); continue
                ev['rows'].append([dec(dt, r.ljust(w, b'\0')) for r in raw])
            if not nm: ev['rows'] = []
    def diskattrs(self, b):
        try:
            with open(os.path.join(self.fbase, self.path(b) if b[-1] != 0 else self.path(b[:-1]), 'attr-v2'), 'rb') as f: at = parse_attrs(f.read(), lambda n: n)
        except (OSError, Bad): return {}
        return {a[0]: (a[1], a[2]) for a in at}
    def values(self, dt, n, text):
        if dt in ('<S1', '>S1'):
            t = text.encode('latin1')
            return list(t.ljust(n, b'\0')) if len(t) in (n, n - 1) else [-1]
        toks = text.split(' ') if text else []
        raw = [fromtext(dt, t) for t in toks]
        return [x for r in raw for x in r] if None not in raw else [-1]
    def op_tgetattr(self, ev):
        p = ev['p']
        long = ev.get('long') or len(ev['names']) != 1
        known = self.diskattrs(ev['b'])
        o = self.run(ev, 'get-attr', (['-l'] if ev.get('long') else []) + [self.base(p), self.name(ev['b'], p)] + [self.aname(n) for n in ev['names']],
                     full=ev.get('full', False)).decode('latin1')
        if ev.get('full'): return
        ev['out'], ev['missing'] = [], []
        # the text of a string may hold anything but a line end
        for l in o.split('\n')[:-1]:
            m = re.match(r'^(.+), not attr:$', l)
            if m: ev['missing'].append(self.raname(m.group(1))); continue
            if long:
                m = re.match(r'^(\S+)\s+(\S+)\s+(\d+)  \[ (.*) \]$', l)
                if not m: ev['out'].append([-1, '', 0, []]); continue
                ev['out'].append([self.raname(m.group(1)), m.group(2), int(m.group(3)), self.values(m.group(2), int(m.group(3)), m.group(4))])
            else:
                t = self.aname(ev['names'][0])
                if t not in known: ev['out'].append([-1, '', 0, []]); continue
                dt, n = known[t]
                ev['out'].append([ev['names'][0], dt, n, self.values(dt, n, l)])
    def op_tsetattr(self, ev):
        p = ev['p']
        a = (['-f'] if ev['force'] else []) + self.tool_args(ev, [('text', '-t'), ('n', '-n')])
        if ev['kind'] == 'S': v = [bytes(ev['str']).decode('latin1')]
        elif 'bad' in ev: v = ev['bad']
        else: v = [totext(ev['vdt'], enc(ev['vdt'], x)) for x in ev['vals']]
        if any(t.startswith('-') for t in v): a.append('--')
        ev['badname'] = 'ntext' in ev
        name = ev['ntext'] if 'ntext' in ev else self.aname(ev['name'])
        self.run(ev, 'set-attr', a + [self.base(p), self.name(ev['b'], p), name] + v)
    def op_tcreate(self, ev):
        p = ev['p']
        a = self.tool_args(ev, [('buf', '-B')])
        if ev['nmemb'] != 1 or ev.get('nopt', True): a += ['-n', str(ev['nmemb'])]
        data = b''.join(enc(ev['dtype'], x) for r in ev['rows'] for x in r) if not ev.get('baddt') else b'12345678'
        self.may(ev['b'], 1)
        self.run(ev, 'create', a + [self.base(p), self.name(ev['b'], p), ev.get('dtext', ev['dtype'])], stdin=data)
        self.took(ev['b'], ev)
    def op_tcheck(self, ev):
        p = ev['p']
        ev['there'] = os.path.isdir(self.base(p))
        o = self.run(ev, 'check', [self.base(p)] + [self.name(b, p) for b in ev['bs']]).decode('latin1')
        ev['named'] = []
        for w in set(o.split()):
            x = self.unpath(w)
            if x is not None and x: ev['named'].append(list(p) + x)
    def op_damage(self, ev):
        """one byte of a data file is changed, or the file is cut short or removed"""
        ev['res'] = 'ok'; ev['delta'], ev['lost'] = 0, False
        h = self.onheader(ev['b'])
        if h is None: ev['res'] = 'none'; return
        dt, nm, fs, sm = h
        full = [i for i in range(len(fs)) if fs[i] * nm > 0]
        if not full: ev['res'] = 'none'; return
        i = full[ev['r'][0] % len(full)]
        path = os.path.join(self.fbase, self.path(ev['b']), '%06X' % i)
        need = fs[i] * nm * split(dt)[2]
        have = os.path.getsize(path)
        if ev['how'] == 'flip' and have >= need:
            k = ev['r'][1] % need
            with open(path, 'r+b') as f:
                f.seek(k); old = f.read(1)[0]
                new = ev['r'][2] % 256
                f.seek(k); f.write(bytes([new]))
            ev['delta'] = new - old
        elif ev['how'] == 'cut':
            n = ev['r'][1] % need
            if n >= have: ev['res'] = 'none'; return
            os.truncate(path, n); ev['lost'] = True
        elif ev['how'] == 'remove': os.unlink(path); ev['lost'] = True
        else: ev['res'] = 'none'
    def op_survey(self, ev): pass
    def op_same(self, ev): ev['res'] = 'ok'; ev['both'] = self.last[-2:] == ['ok', 'ok']
    def op_look(self, ev):
        """everything is looked at through the library"""
        ev['cols'] = []; ev['res'] = 'ok'
        L = self.L
        for t in sorted(f[2:-7] for f in self.snap if f.startswith('F/') and f.endswith('/header')):
            b = self.unpath(t)
            g = dict(b=b or [-1])
            ev['cols'].append(g)
            h = L.vs_h_new()
            if L.vs_open(self.f, h, os.fsencode(t)) != 0: g['res'] = 'err'; continue
            g['res'] = 'ok'
            g['dtype'], g['nmemb'] = L.vs_dtype(h).decode('latin1'), L.vs_nmemb(h)
            g['fsize'] = [L.vs_fsize(h, i) for i in range(L.vs_Nfile(h))]
            g['attrs'] = []
            for i in range(L.vs_nattr(h)):
                n = C.c_int(); dt = C.create_string_buffer(9); data = C.c_void_p()
                nm = L.vs_attr(h, i, C.byref(n), dt, C.byref(data))
                g['attrs'].append(self._attr(nm.decode('latin1'), n, dt, data))
            r = dict(op='readsimple', h=-1, start=0, n=L.vs_size(h), mdt=g['dtype'])
            self.h[-1], self.bof[-1] = h, tuple(g['b'])
            self.op_readsimple(r)
            g['rres'], g['rows'] = r['res'], r.get('rows', [])
            del self.h[-1], self.bof[-1]
            L.vs_close(h); L.vs_free(h)
