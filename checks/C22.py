"""C22: the verification tool flags exactly the damaged columns."""
import mc, toolgen, gen
from common import ATTRS
from C20 import KW
from enc import split

def everybyte(rng, dt, nm, fs, other):
    """each byte of a column gets other values, one after another, and is looked at each time"""
    v = gen.values_for(rng, dt)
    ops = []
    for h, (b, f) in enumerate((((1,), fs), ((4, 1), [2])), 1):
        n = sum(f)
        ops.append(dict(op='create', b=list(b), h=h, dtype=dt, nmemb=nm, fsize=f, badname=False))
        if n: ops.append(dict(op='write', h=h, mdt=dt, rows=[[v() for _ in range(nm)] for _ in range(n)], lay='c'))
        ops.append(dict(op='close', h=h))
    ops.append(dict(op='tcheck', p=[], bs=[]))
    w = split(dt)[2] * nm
    full = [n for n in fs if n]
    for i, n in enumerate(full):
        for k in range(n * w):
            ops.append(dict(op='damage', b=[1], how='flip', r=[i, k, rng.randrange(256)]))
            ops.append(dict(op='tcheck', p=[], bs=rng.choice([[], [[1]], [[4, 1]], [[1], [4, 1]]])))
    ops.append(dict(op='damage', b=[1], how=rng.choice(['cut', 'remove']), r=[rng.randrange(9), rng.randrange(99), 0]))
    ops += [dict(op='tcheck', p=[], bs=[]), dict(op='tcheck', p=[], bs=[[4, 1]]), dict(op='tcheck', p=[4], bs=[])]
    return dict(ops=ops)

def run(ck):
    q = ck.quick
    scen = []
    for over, lim in ([(dict(Kinds='{"setup", "damage", "check", "copy"}', MaxOps='4', Pars='{0}', Cols='<- TwoCols'), 250)] if q else
                      [(dict(Kinds='{"setup", "damage", "check", "copy", "repart", "make"}', MaxOps='4', Pars='{0}'), 12000),
                       (dict(Kinds='{"setup", "damage", "check", "rename", "rm"}', MaxOps='5', Cols='<- TwoCols'), 8000)]):
        scen += mc.emit(ck, 'ToolsMC', 'ToolsMC.cfg', over=over, limit=lim)
    ck.run_core(scen, toolgen.COMPS, ATTRS, ['all'], label='mc', **KW)
    rng = ck.rng('bytes')
    scen = [everybyte(rng, rng.choice(gen.ALL), rng.choice([1, 1, 2]), rng.choice([[2], [1, 2], [0, 2, 1], [1, 0, 1, 0]]), None)
            for _ in range(8 if q else 300)]
    ck.run_core(scen, toolgen.COMPS, ATTRS, ['all'], label='bytes', **KW)
    rng = ck.rng('random')
    scen = []
    for _ in range(50 if q else 1500):
        for w, kw in ((dict(tcheck=4, damage=2, setup=1, look=.3), dict()),
                      (dict(tcheck=4, damage=2, setup=1, trepart=1, tcopy=1, tcreate=1), dict(ncols=4)),
                      (dict(tcheck=3, damage=1, setup=1), dict(maxrows=300, short=.25)),
                      (dict(tcheck=4, damage=1, setup=1, tcreate=2, tcopy=2, trename=1, trm=1), dict(pfault=.2))):
            scen.append(toolgen.ToolGen(rng, w, **dict(dict(ntools=8), **kw)).run())
    ck.run_core(scen, toolgen.COMPS, ATTRS, ['all'], label='rnd', **KW)
