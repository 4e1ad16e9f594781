"""C18: Python create, append, pickle and close keep objects and files in step."""
import bf, gen, mc, pygen
from common import COMPS, ATTRS
COMPS = {**COMPS, 9: 'nothere'}

def run(ck):
    q = ck.quick
    F = ['data', 'hdr', 'sum', 'attrs', 'list', 'mem']
    kw = dict(module='PyTrace', world='pyworld:PyWorld', lib='py')
    one = '<- OneCol'
    scen = []
    for over, lim in ([(dict(MaxOps='4'), 500), (dict(Cols=one, Kinds='{"create", "append", "set", "get"}', MaxH='1', MaxOps='5'), 300)] if q else
                      [(dict(MaxOps='4'), None), (dict(MaxOps='5', Cols=one), 15000),
                       (dict(Cols=one, Kinds='{"arr", "open", "append", "set", "get", "flush"}', MaxOps='6'), 10000),
                       (dict(Cols=one, Kinds='{"create", "open", "append", "pickle", "set", "flush", "drop"}', MaxOps='6'), 10000)]):
        scen += mc.emit(ck, 'PyMC', 'PyMC.cfg', over=over, limit=lim)
    ck.run_core(scen, COMPS, ATTRS, F, label='mc', **kw)
    rng = ck.rng('random')
    scen = []
    for _ in range(60 if q else 1500):
        for c in (dict(), dict(maxsize=30, dtypes=pygen.ALL), dict(maxh=3, w=dict(pygen.PyCfg().w, append=12, pickle=6, unpickle=6)),
                  dict(w=dict(pygen.PyCfg().w, arr=8, file=4, names=8, has=5, fcopy=3)),
                  dict(bufs=[1, 8, 24, 100, 64 << 20], nmemb=[3, 5, 40])):
            scen.append(pygen.PyGen(rng, pygen.PyCfg(**dict(dict(nops=45), **c))).run())
    ck.run_core(scen, COMPS, ATTRS, F, label='rnd', **kw)
