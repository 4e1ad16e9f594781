"""C01: rows read back as written, whatever the striping, call splits and buffer size."""
import bf, gen, mc, bigworld
from common import COMPS, ATTRS, W
BUFS = [1, 2, 3, 4, 7, 8, 9, 12, 16, 17, 23, 24, 32, 40, 64, 100, 64 << 20]

def run(ck):
    q = ck.quick
    # every transition of the small model (stripes with empty files, two handles, growth)
    def prep(s, rng):
        s['ops'].insert(0, dict(op='nop', bufsize=rng.choice([1, 4, 5, 8, 9, 64 << 20])))
    scen = mc.emit(ck, 'MC', 'MCdata.cfg', over=None if q else dict(MaxOps='7'), limit=2500 if q else 60000, prep=prep)
    ck.run_core(scen, COMPS, ATTRS, ['data'], label='mc')
    # random histories
    rng = ck.rng('random')
    w = W(setattr=0, rmattr=0, getattr=0, lookup=0, lsattr=0, list=0, describe=0, buf=3, grow=3)
    def cfgs():
        yield dict(bufs=BUFS, same=1, cols=[(1,), (2,)])
        yield dict(bufs=BUFS, same=.5, nmemb=[1, 2, 3, 5, 17], dtypes=gen.ALL, lays=['c', 'cs'])
        yield dict(bufs=BUFS, same=.9, maxfiles=30, maxfsize=3, nops=60, dtypes=['<i4', '<i2', '>f8', '<c16'])
        yield dict(bufs=BUFS, same=.9, maxfiles=6, maxfsize=40, nops=50)
    n = 150 if q else 4000
    scen = [gen.Gen(rng, gen.Cfg(w=w, none=.03, **c)).run() for c in cfgs() for _ in range(n)]
    ck.run_core(scen, COMPS, ATTRS, ['data'], label='rnd')
    # offsets beyond 2^31 and 2^32
    w = W(setattr=0, rmattr=0, getattr=0, lookup=0, lsattr=0, list=0, describe=1, buf=1, grow=1, create=1)
    c = dict(w=w, bufs=[7, 16, 64 << 20], dtypes=['<i4', '>f8', '<c16', '<i2'], nmemb=[1, 1, 2], nops=30)
    scen = [bigworld.BigGen(rng, gen.Cfg(**c)).run() for _ in range(80 if q else 2000)]
    ck.run_core(scen, COMPS, ATTRS, ['data', 'pos', 'hdr'], label='big', world='bigworld:BigWorld')
