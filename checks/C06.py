"""C06: attributes survive flush, close and reopen."""
import bf, gen, mc
from common import COMPS
from C05 import ATTRS

def run(ck):
    q = ck.quick
    scen = mc.emit(ck, 'MC', 'MCattr.cfg', over=dict(MaxOps='6' if q else '7', MaxH='1', Kinds='{"create","open","close","flush","drop","setattr","rmattr","lsattr"}'),
                   limit=2000 if q else 50000)
    ck.run_core(scen, COMPS, ATTRS, ['attrs'], label='mc')
    rng = ck.rng('random')
    w = dict(create=.5, open=5, close=5, flush=4, drop=1, setattr=12, rmattr=4, getattr=6, lookup=1, lsattr=5)
    def cfgs():
        yield dict(attrs=list(ATTRS), alens=[0, 1, 1, 2, 3, 7, 20], nops=60)
        yield dict(attrs=[1, 2, 3, 4], alens=[0, 1, 16, 17, 100, 700], nops=40, bad=.15)
        yield dict(attrs=list(ATTRS), alens=[0, 1, 2], nops=80, maxh=2)
    n = 70 if q else 2500
    scen = [gen.Gen(rng, gen.Cfg(**dict(dict(w=w, cols=[(1,), (2,), (0,), (3, 0), (2, 1)], maxfiles=1), **c))).run() for _ in range(n) for c in cfgs()]
    # the bytes of any attribute, all values of a byte
    for i in range(0, 256, 32):
        raw = list(range(i, i + 32)) * 2
        scen.append(dict(ops=[dict(op='create', b=[1], h=1, dtype='<i4', nmemb=1, fsize=[], badname=False)] +
            [dict(op='setattr', h=1, name=k + 1, badname=False, dt=dt, n=64 // w_, vals=[], raw=raw) for k, (dt, w_) in enumerate([('<u1', 1), ('<S1', 1), ('<S16', 16), ('>i4', 4), ('<c16', 16)])] +
            [dict(op='close', h=1), dict(op='open', b=[1], h=2), dict(op='lsattr', h=2), dict(op='close', h=2)]))
    ck.run_core(scen, COMPS, ATTRS, ['attrs'], label='rnd')
