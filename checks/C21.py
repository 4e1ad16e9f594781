"""C21: the inspecting and editing tools show and store what the column holds."""
import mc, toolgen
from common import ATTRS
from C20 import KW

def run(ck):
    q = ck.quick
    scen = []
    for over, lim in ([(dict(Kinds='{"setup", "setattr", "make", "ls", "cat", "attrs"}', MaxOps='3'), 350)] if q else
                      [(dict(Kinds='{"setup", "setattr", "make", "ls", "cat", "attrs"}', MaxOps='3'), None),
                       (dict(Kinds='{"setup", "setattr", "make", "attrs", "cat", "copy"}', MaxOps='4', Cols='<- TwoCols', Pars='{0}'), 12000)]):
        scen += mc.emit(ck, 'ToolsMC', 'ToolsMC.cfg', over=over, limit=lim)
    ck.run_core(scen, toolgen.COMPS, ATTRS, ['all'], label='mc', **KW)
    rng = ck.rng('random')
    scen = []
    looks = dict(tls=2, tcat=4, tgetattr=3)
    for _ in range(50 if q else 1500):
        for w, kw in ((dict(looks, setup=1), dict()),
                      (dict(tsetattr=5, tgetattr=4, setup=1, tcopy=.5), dict(ncols=2)),
                      (dict(tcreate=4, tcat=4, tls=2, tsetattr=1), dict(maxrows=40)),
                      (dict(looks, tsetattr=1, setup=3), dict(ncols=5, names=toolgen.NAMES[3:7] + [(4,), (3,)] + toolgen.NEST)),
                      (dict(tcat=6, setup=1), dict(maxrows=60, bufs=[1, 8, 16, 24, 40, 100])),
                      (dict(looks, tsetattr=2, tcreate=2, setup=1, trename=1, tcopy=1), dict(pfault=.4))):
            scen.append(toolgen.ToolGen(rng, w, **dict(dict(ntools=10), **kw)).run())
    ck.run_core(scen, toolgen.COMPS, ATTRS, ['all'], label='rnd', **KW)
