"""C29: renaming and removing affect exactly the columns named."""
import mc, toolgen
from common import ATTRS
from C20 import KW

def run(ck):
    q = ck.quick
    scen = []
    for over, lim in ([(dict(Kinds='{"setup", "rename", "rm", "ls"}', MaxOps='4'), 250)] if q else
                      [(dict(Kinds='{"setup", "rename", "rm", "ls"}', MaxOps='5'), 12000),
                       (dict(Kinds='{"setup", "rename", "rm", "copy", "setattr"}', MaxOps='4', Cols='<- TwoCols', Pars='{0}'), 8000)]):
        scen += mc.emit(ck, 'ToolsMC', 'ToolsMC.cfg', over=over, limit=lim)
    ck.run_core(scen, toolgen.COMPS, ATTRS, ['all'], label='mc', **KW)
    rng = ck.rng('random')
    scen = []
    nested = toolgen.NAMES + toolgen.NEST
    for _ in range(70 if q else 2000):
        for w, kw in ((dict(trename=4, trm=2, setup=2, tls=1, look=.5), dict(ncols=4)),
                      (dict(trename=4, trm=2, setup=2, tls=1), dict(ncols=4, names=nested)),
                      (dict(trename=4, trm=3, setup=2, tcopy=1, tcat=1, tcreate=1), dict(ncols=4))):
            scen.append(toolgen.ToolGen(rng, w, **dict(dict(ntools=10), **kw)).run())
    ck.run_core(scen, toolgen.COMPS, ATTRS, ['all'], label='rnd', **KW)
