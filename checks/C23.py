"""C23: malformed metadata is refused, never misread or fatal."""
import json, os, struct, tempfile, bf, mc, tlc, random

GOODH = 'DTYPE: <i4\nNMEMB: 2\nNFILE: 2\n000000: 1 : 5 : 5\n000001: 2 : 9 : 9\n'
GOODA = 'a <i4 1 07000000 #HUMANE [ 7 ]\nb |S3 2 414243444546 #HUMANE [ ABCDEF ]\n'
NONE = ['missing']

def texts(ck, q):
    cfg = mc.override('FormatMC.cfg', None)
    r = tlc.run('FormatMC', cfg, env=dict(EMIT='1'), workers=1, mem='4g')
    if not r.ok: raise RuntimeError(r.out[-2000:])
    ck.count(r)
    out = [json.loads(json.loads(l)[5:]) for l in r.out.split('\n') if l.startswith('"TEXT ')]
    ck.notes['single damages'] = len(out)
    c2 = mc.override(cfg, dict(MaxDamage='3', AtRandom='TRUE'))
    n = 1500 if q else 40000
    r = tlc.run('FormatMC', c2, env=dict(EMIT='1'), workers=1, mem='4g', simulate='num=%d' % n, seed=ck.seed, args=['-depth', '4'], timeout=500)
    os.unlink(c2)
    two = [json.loads(json.loads(l)[5:]) for l in r.out.split('\n') if l.startswith('"TEXT ')]
    seen = {t['text'] for t in out}
    for t in two:
        if t['text'] not in seen: seen.add(t['text']); out.append(t)
    ck.notes['texts'] = len(out)
    return out

def flips(rng, t, n):
    """texts with characters changed, inserted and removed at random"""
    alpha = '0123456789ABCDEFabcdef :<>=|#%.-+\n\t\r xS\x00\xff'
    for _ in range(n):
        s = list(t)
        for _ in range(rng.choice([1, 1, 1, 2, 3, 8])):
            if not s: break
            k = rng.randrange(len(s)); x = rng.random()
            if x < .5: s[k] = rng.choice(alpha)
            elif x < .7: del s[k]
            elif x < .9: s.insert(k, rng.choice(alpha))
            elif x < .95: s[k:k] = rng.choice(alpha) * rng.choice([3, 20, 200, 3000])
            else: del s[k:k + rng.randint(1, 30)]
        yield ''.join(s)

def v1(recs):
    return b''.join(struct.pack('<ii', n, len(nm)) + dt.ljust(8, b'\0') + nm + raw for nm, dt, n, raw in recs)
V1S = [[(b'a', b'<i4', 1, b'\7\0\0\0'), (b'bb', b'|S1', 3, b'xyz')], [(b'q', b'>f8', 0, b'')], [(b'n' * 40, b'<u1', 5, b'12345')]]

def legacy(rng, n):
    for r in V1S:
        b = v1(r)
        yield b, True
        for k in range(len(b)): yield b[:k], False
        for _ in range(n):
            s = bytearray(b)
            for _ in range(rng.choice([1, 1, 2, 4])): s[rng.randrange(len(s))] = rng.choice([0, 1, 2, 0x3c, 0x7f, 0x80, 0xff, rng.randrange(256)])
            if rng.random() < .2: s += bytes(rng.randrange(256) for _ in range(rng.randint(1, 40)))
            yield bytes(s), False

def run(ck):
    q = ck.quick
    rng = ck.rng('damage')
    ops = []
    def add(h=('file', GOODH), a2=('file', GOODA), a1=('missing',), sound=False):
        o = dict(op='meta', header=list(h), attr2=list(a2), attr1=list(a1))
        if sound: o['sound'] = True
        ops.append(o)
    for t in texts(ck, q):
        f = ('file', t['text'])
        s = t['damage'] == 0
        if t['kind'] == 'header': add(h=f, sound=s, a2=NONE if rng.random() < .3 else ('file', GOODA))
        else: add(a2=f, sound=s)
    for t in flips(rng, GOODH, 800 if q else 20000): add(h=('file', t))
    for t in flips(rng, GOODA, 800 if q else 20000): add(a2=('file', t))
    for b, s in legacy(rng, 100 if q else 3000): add(a2=NONE, a1=('file', list(b)), sound=s)
    for h in (('file', GOODH), ('file', ''), ('dir',), NONE):
        for a2 in (('file', GOODA), ('file', ''), ('dir',), NONE):
            for a1 in (('file', list(v1(V1S[0]))), ('file', []), ('dir',), NONE): add(h, a2, a1)
    # very large numbers of attributes, words and lines
    for n in (40, 1000):
        add(a2=('file', ''.join('n%d <i4 1 %08X #HUMANE [ ]\n' % (i, i) for i in range(n))), sound=True)
        add(a2=('file', 'x' * n * 10 + ' <u1 %d ' % n + '0A' * n + ' #HUMANE [ ]\n'), sound=True)
        add(h=('file', 'DTYPE: ' + '<i4' * n + '\nNMEMB: 1\nNFILE: 0\n'))
        add(h=('file', 'DTYPE: <i4\nNMEMB: 1\nNFILE: %d\n' % n + ''.join('%06X: 0 : 0 : 0\n' % (n - 1 - i) for i in range(n)))) if n < 50 else None
    ck.run_core([dict(ops=ops[i:i + 40]) for i in range(0, len(ops), 40)], {}, {}, [], module='FormatTrace', world='metaworld:MetaWorld',
                asan=True, label='meta')
