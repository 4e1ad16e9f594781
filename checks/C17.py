"""C17: indexing a Python column or dataset follows sequence rules."""
import bf, gen, mc, pygen
from common import COMPS, ATTRS
COMPS = {**COMPS, 9: 'nothere'}
F = ['data', 'mem', 'hdr']

def ways(ix, rng):
    """the integer types an index can be given in"""
    if ix['k'] == 'all': return ix
    xs = [ix['i']] if ix['k'] == 'int' else ix['a'] + ix['o'] + ix['s']
    return dict(ix, ty=rng.choice(['py', 'i8', 'i4', 'i1'] + (['u8', 'u1'] if all(x >= 0 for x in xs) else [])))

def cases(ck, over, limit):
    """every index of the specification, read and assigned, on columns and datasets of every small length"""
    rng = ck.rng('cases')
    byn = {}
    for c in mc.calls(ck, 'SliceMC', 'SliceMC.cfg', over=over, limit=limit): byn.setdefault(c['n'], []).append(c['ix'])
    out = []
    for n, ixs in sorted(byn.items()):
        rng.shuffle(ixs)
        for i in range(0, len(ixs), 60):
            g = pygen.PyGen(rng, pygen.PyCfg())
            names = rng.sample([(1,), (2,), (3, 1)], 2); nms = [rng.choice([1, 1, 2, 3]) for _ in names]
            dts = [rng.choice(['<i4', '>f8', '<u1', '<S3', '>i2', '<c8']) for _ in names]
            ops, h = [], {}
            for b, dt, nm in zip(names, dts, nms):
                k = rng.choice([1, 2, 3, n]) if n else rng.choice([0, 1, 2])
                h[b] = len(h) + 1
                ops.append(dict(op='pyarr', f=0, h=h[b], b=list(b), dtype=dt, nmemb=nm, nfile=[k], lay='c', rows=[[40 * (r + 1) % 90 + j for j in range(nm)] for r in range(n)]))
            ops.append(dict(op='dsopen', d=1, cols=[list(b) for b in names], all=False))
            val = 0
            for ix in ixs[i:i + 60]:
                ix = ways(ix, rng); j = rng.randrange(2); b, dt, nm = names[j], dts[j], nms[j]
                s, k = g.selected(ix, n)
                ops.append(dict(op='pyget', h=h[b], ix=ix))
                form = rng.choice([['all'], ['one', 'after'], ['one', 'before'], ['some', 'after'], ['some', 'before'], ['some', 'two'], ['one', 'tuple']])
                cols = names if form[0] == 'all' else [b] if form[0] == 'one' else rng.choice([names, names[::-1], [b]])
                ops.append(dict(op='dsget', d=1, cols=[list(c) for c in cols], form=form, ix=ix))
                m = rng.randint(1, 2) if k is None else k if rng.random() < .8 else max(0, k + rng.choice([-1, 1]))
                val = (val + 7) % 60
                mdt = dt if rng.random() < .6 else gen.partners(dt, rng, 0)
                if mdt[0] == '>' and mdt[2:] == '1': mdt = '<' + mdt[1:]
                left = 1 if nm > 1 and rng.random() < .05 else 0
                rows = lambda nm: [[1 + (val + r + q) % 100 for q in range(nm)] for r in range(m)]
                if rng.random() < .6:
                    ops.append(dict(op='pyset', h=h[b], ix=ix, mdt=mdt, rows=rows(nm), left=left, nm=nm, lay=rng.choice(pygen.LAYS), **{'as': rng.choice(['rows', '2d', 'flat'])}))
                    if rng.random() < .1: ops.append(dict(op='pyflush', h=h[b], how='flush'))
                elif ix['k'] != 'int':
                    ops += [dict(op='pydrop', h=h[c]) for c in names]
                    ops.append(dict(op='dsset', d=1, ix=ix, n=m, vals=[rows(x) for x in nms], fits=True, lay=rng.choice(['c', 'gap', 'rev'])))
                    ops += [dict(op='pyopen', f=0, b=list(c), h=h[c]) for c in names]
            ops += [dict(op='pydrop', h=x) for x in h.values()]
            out.append(dict(ops=ops))
    return out

def run(ck):
    q = ck.quick
    kw = dict(module='PyTrace', world='pyworld:PyWorld', lib='py')
    scen = cases(ck, dict(MaxN='4', Bound='6') if q else dict(MaxN='6', Bound='8'), 3500 if q else None)
    ck.run_core(scen, COMPS, ATTRS, F, label='mc', **kw)
    rng = ck.rng('random')
    w = dict(create=1, arr=2, open=3, drop=2, flush=1, get=20, set=16, read=10, write=5, append=2, ds=3, dsget=14, dsset=8, dsappend=1)
    scen = []
    for _ in range(60 if q else 1500):
        for c in (dict(), dict(maxsize=40, nmemb=[1, 2, 7]), dict(dtypes=pygen.ALL, maxsize=4), dict(same=1, dtypes=['<i4', '>f8'])):
            scen.append(pygen.PyGen(rng, pygen.PyCfg(**dict(dict(w=w, nops=50), **c))).run())
    ck.run_core(scen, COMPS, ATTRS, F, label='rnd', **kw)
