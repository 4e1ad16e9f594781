"""C13: a collective transfer equals the serial transfer of the ranks' rows in rank order."""
import bf, gen, mc, collgen
from common import COMPS, ATTRS, W
CW = W(write=14, read=12, lwrite=3, lread=3, readsimple=0)
def run(ck):
    q = ck.quick
    rng = ck.rng('random')
    n = 130 if q else 3000
    scen = []
    for _ in range(n):
        for c in (dict(), dict(dtypes=gen.ALL, same=.4, lays=bf.LAYOUTS, nmemb=[1, 2, 3]), dict(maxfiles=9, maxfsize=9, nops=50, exact=.6)):
            scen.append(collgen.CollGen(rng, gen.Cfg(**dict(dict(w=CW, bufs=[8, 24, 64 << 20], cols=[(1,), (2,), (3, 1)], maxh=3, extra=[0]), **c))).run())
    x = mc.emit(ck, 'MC', 'MCdata.cfg', over=dict(Kinds='{"create","open","close","flush","grow","seek","write","read"}', MaxOps='5' if q else '6'), limit=600 if q else 15000)
    for s in x: s['ops'] = collgen.collective(s['ops'], rng, rng.choice([2, 3, 4]))
    ck.run_core(x, COMPS, ATTRS, ['data', 'pos', 'mem', 'hdr'], module='CollTrace', world='collworld:CollWorld', lib='sim', label='mc')
    ck.run_core(scen, COMPS, ATTRS, ['data', 'pos', 'mem', 'hdr'], module='CollTrace', world='collworld:CollWorld', lib='sim', label='rnd')
