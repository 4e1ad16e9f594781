"""C08: operations touch only the column they address, and reading touches nothing."""
import bf, gen, mc
from common import COMPS, ATTRS, W
COLS = [(1,), (2,), (1, 2), (1, 2, 1), (3,), (3, 1), (0,), (1, 0), (3, 0)]

def run(ck):
    q = ck.quick
    f = ['hdr', 'data', 'attrs', 'sum']
    scen = mc.emit(ck, 'MC', 'MCiso.cfg', over=dict(MaxOps='6' if q else '7'), limit=2200 if q else 60000)
    ck.run_core(scen, COMPS, ATTRS, f, label='mc')
    rng = ck.rng('random')
    def cfgs():
        yield dict(cols=[c for c in COLS if c != (1, 0) and c != (3, 0)], maxh=9, nops=60)
        # many handles that only look, while others modify
        yield dict(cols=[(1,), (1, 2), (2,)], maxh=12, nops=70, w=W(open=14, close=6, read=14, readsimple=10, lookup=4, lsattr=4, getattr=4, eof=4, describe=4, list=3, write=8))
        yield dict(cols=[(4, 1), (4, 2), (4, 3), (4, 0), (0,), (1,)], nops=60)
    n = 80 if q else 3000
    scen = [gen.Gen(rng, gen.Cfg(**dict(dict(w=W(setattr=4, rmattr=2), bad=.1), **c))).run() for _ in range(n) for c in cfgs()]
    ck.run_core(scen, COMPS, ATTRS, f, label='rnd')
