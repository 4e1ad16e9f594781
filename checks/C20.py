"""C20: copying and repartitioning preserve a column."""
import mc, toolgen
from common import ATTRS
KW = dict(module='ToolsTrace', world='toolworld:ToolWorld', lib='tools', timeout=60)

def run(ck):
    q = ck.quick
    for r in (1, 2, 3) if q else (1, 2, 3, 4): ck.model('CopyWork', over=dict(Ranks=str(r), Chunks='3' if q or r == 4 else '4'))
    scen = []
    for over, lim in ([(dict(Kinds='{"setup", "copy", "repart", "ls"}', MaxOps='3'), 350)] if q else
                      [(dict(Kinds='{"setup", "copy", "repart", "rename", "ls"}', MaxOps='3'), None),
                       (dict(Kinds='{"setup", "copy", "repart"}', MaxOps='4', Cols='<- TwoCols', Pars='{0, 2}'), 12000)]):
        scen += mc.emit(ck, 'ToolsMC', 'ToolsMC.cfg', over=over, limit=lim)
    ck.run_core(scen, toolgen.COMPS, ATTRS, ['all'], label='mc', **KW)
    rng = ck.rng('random')
    scen = []
    for _ in range(60 if q else 1500):
        for w, kw in ((dict(tcopy=4, trepart=2, setup=1), dict(par=.5)),
                      (dict(tcopy=4, trepart=2, setup=1), dict(maxrows=60, bufs=[8, 16, 24, 40, 100, 1000], par=.4)),
                      (dict(tcopy=3, trepart=3, setup=1, trename=1, trm=1, tsetattr=1), dict(par=.3, pfault=.4)),
                      (dict(trepart=4, setup=2, tcopy=1), dict(pfault=.5, names=[(1,), (2,), (4, 1)]))):
            scen.append(toolgen.ToolGen(rng, w, **dict(dict(ntools=8), **kw)).run())
    ck.run_core(scen, toolgen.COMPS, ATTRS, ['all'], label='rnd', **KW)
