"""C02: any memory layout transfers the same rows and touches nothing else."""
import json, bf, gen, mc, tlc
from common import COMPS, ATTRS, W

def views(ck):
    r = tlc.run('ViewMC', env=dict(EMIT='1'), workers=1, mem='6g')
    if not r.ok: raise RuntimeError(r.out[-2000:])
    ck.count(r)
    vs = [json.loads(json.loads(l)[5:]) for l in r.out.split('\n') if l.startswith('"VIEW ')]
    ck.notes['views'] = len(vs)
    return vs

def vol(d):
    n = 1
    for x in d: n *= x
    return n

def scaled(v, w):
    """the same view for elements of another width"""
    return [s * w // 2 if s % 2 == 0 else (s // 2) * w + w + w // 2 for s in v['strides']]

def scenario(rng, v, rd):
    """write through view v, read back through view rd (disjoint, same volume)"""
    n = vol(v['dims'])
    ks = [k for k in (1, 2, 3, 4, 6) if n % k == 0] or [1]
    nm = rng.choice(ks)
    rows = n // nm
    mdt = rng.choice(['<i2', '<i2', '<u2', '>i2'] if not v['disjoint'] or any(s % 2 for s in v['strides']) else
                     ['<i2', '>i2', '<i4', '>f8', '<f4', '<u1', '<i1', '<c8', '>c16', '<S3', '<S7'])
    w = int(mdt[2:])
    st = v['strides'] if w == 2 else scaled(v, w)
    dt = rng.choice(gen.both([mdt[1:]])) if mdt[1] != 'S' else mdt
    if mdt[1:] in gen.NUM and rng.random() < .6: dt = rng.choice(gen.both([t for t in gen.NUM if t[0] != 'u']))
    if mdt[1:] in gen.CPLX: dt = rng.choice(gen.both(gen.CPLX))
    fs, left = [], rows
    while left > 0:
        k = rng.randint(0, left); fs.append(k); left -= k
    fs += [0] * rng.randint(0, 2)
    vals = [rng.randint(0, 120) if mdt[1] in 'uS' or mdt in ('<i1',) else rng.randint(-9999, 9999) for _ in range(n)]
    rst = rd['strides'] if not any(s % 2 for s in rd['strides']) else None
    rmdt = rng.choice(gen.partners(dt, rng, .5, mdt[1] != 'u') and [gen.partners(dt, rng, .5, mdt[1] != 'u')])
    rw = int(rmdt[2:])
    if rst is None:
        if rw == 2: rst = rd['strides']
        else: rst = scaled(rd, rw); 
    elif rw != 2: rst = scaled(rd, rw)
    pad = rng.choice([9, 16, 3])
    return dict(ops=[
        dict(op='nop', bufsize=rng.choice([1, 2, 5, 8, 12, 30, 64 << 20])),
        dict(op='create', b=[1], h=1, dtype=dt, nmemb=nm, fsize=fs, badname=False),
        dict(op='vwrite', h=1, mdt=mdt, dims=v['dims'], strides=st, vals=vals, pad=pad),
        dict(op='seek', h=1, off=0),
        dict(op='vread', h=1, mdt=rmdt, dims=rd['dims'], strides=rst, pad=pad),
        dict(op='close', h=1)])

def disjoint(dims, strides, w):
    offs = [0]
    for d, s in zip(dims, strides): offs = [o + k * s for o in offs for k in range(d)]
    c = set(o + j for o in offs for j in range(w))
    return len(c) == w * len(offs)

def run(ck):
    q = ck.quick
    rng = ck.rng('views')
    vs = views(ck)
    byvol = {}
    for v in vs:
        if v['disjoint'] and vol(v['dims']): byvol.setdefault(vol(v['dims']), []).append(v)
        if not vol(v['dims']): byvol.setdefault(0, []).append(v)
    pick = rng.sample(vs, 2500) if q and len(vs) > 2500 else vs
    scen = []
    for v in pick:
        for _ in range(1 if q else 4):
            for _ in range(20):
                s = scenario(rng, v, rng.choice(byvol[vol(v['dims'])]))
                r = s['ops'][4]
                if disjoint(r['dims'], r['strides'], int(r['mdt'][2:])): scen.append(s); break
    ck.run_core(scen, COMPS, ATTRS, ['data', 'mem', 'pos'], module='ViewTrace', world='viewworld:ViewWorld', label='views')
    # the layouts inside longer histories
    w = W(setattr=0, rmattr=0, getattr=0, lookup=0, lsattr=0, list=0, describe=0, buf=2, grow=1)
    rng = ck.rng('random')
    scen = [gen.Gen(rng, gen.Cfg(w=w, lays=bf.LAYOUTS, srclays=bf.SRC_ONLY, dtypes=gen.ALL, same=.5, nmemb=[1, 2, 3, 7],
                                 bufs=[1, 8, 16, 24, 40, 100, 64 << 20])).run() for _ in range(250 if q else 8000)]
    ck.run_core(scen, COMPS, ATTRS, ['data', 'mem'], label='rnd')
