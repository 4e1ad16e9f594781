"""C28: sampling takes rows in order, none twice, whatever the ranks."""
import mc, toolgen
from common import ATTRS
from C20 import KW

def run(ck):
    q = ck.quick
    for r in (2, 3): ck.model('CopyWork', over=dict(Ranks=str(r), Chunks='3'))
    scen = []
    for over, lim in ([(dict(Kinds='{"setup", "sample", "ls"}', MaxOps='3'), 250)] if q else
                      [(dict(Kinds='{"setup", "sample", "ls", "copy"}', MaxOps='3'), 12000),
                       (dict(Kinds='{"setup", "sample"}', MaxOps='4', Cols='<- TwoCols'), 8000)]):
        scen += mc.emit(ck, 'ToolsMC', 'ToolsMC.cfg', over=over, limit=lim)
    ck.run_core(scen, toolgen.COMPS, ATTRS, ['all'], label='mc', **KW)
    rng = ck.rng('random')
    scen = []
    for _ in range(70 if q else 2000):
        for w, kw in ((dict(tsample=4, setup=1), dict(distinct=True, maxrows=30)),
                      (dict(tsample=4, setup=1), dict(distinct=True, maxrows=100, ncols=2)),
                      (dict(tsample=4, setup=1, tsetattr=1, tcat=1), dict()),
                      (dict(tsample=4, setup=1, tls=1), dict(pfault=.4))):
            scen.append(toolgen.ToolGen(rng, w, **dict(dict(ntools=6), **kw)).run())
    ck.run_core(scen, toolgen.COMPS, ATTRS, ['all'], label='rnd', **KW)
