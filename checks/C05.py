"""C05: the attributes of an open column are a map."""
import bf, gen, mc
from common import COMPS, W
NAMES = sorted(['A', 'AB', 'ABC', 'a', 'b-c', 'zz', '%s', '%d%n', '#HUMANE', '[', ']', '0', '~', '_x', 'Z' * 60, 'é', 'a.b/c', 'DTYPE:', 'attr-v2', '-'], key=lambda s: s.encode('latin1'))
ATTRS = {i + 1: n for i, n in enumerate(NAMES)}

def run(ck):
    q = ck.quick
    scen = mc.emit(ck, 'MC', 'MCattr.cfg', over=dict(MaxOps='6' if q else '7'), limit=2000 if q else 50000)
    ck.run_core(scen, COMPS, ATTRS, ['attrs', 'mem'], label='mc')
    rng = ck.rng('random')
    w = dict(create=1, open=2, close=1, flush=2, drop=.5, setattr=20, rmattr=9, getattr=12, lookup=8, lsattr=6)
    def cfgs():
        yield dict(attrs=list(ATTRS), alens=[0, 1, 1, 2, 3, 7, 20, 60], nops=60)
        yield dict(attrs=list(ATTRS), alens=[1, 2, 30], nops=90, adts=['<i4', '<f8', '<S7', '<u1'])
        yield dict(attrs=[1, 2, 3], alens=[0, 1, 2, 40, 130, 300], nops=50, bad=.2)
        yield dict(attrs=list(ATTRS), alens=[1], nops=120, adts=['<i4', '<f8'], w=dict(w, rmattr=2))
    n = 60 if q else 2500
    scen = [gen.Gen(rng, gen.Cfg(**dict(dict(w=w, own=.2, cols=[(1,), (2,), (0,), (3, 0)], maxfiles=0), **c))).run() for _ in range(n) for c in cfgs()]
    ck.run_core(scen, COMPS, ATTRS, ['attrs', 'mem'], label='rnd')
