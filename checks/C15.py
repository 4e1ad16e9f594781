"""C15: all ranks agree on outcomes and descriptions, and the disk is as after the serial calls."""
import bf, gen, mc, build, faultworld, collworld, collgen
from faultworld import *
from common import ATTRS, W
from C09 import COMPS
F = ['agree', 'hdr', 'attrs', 'list', 'data', 'sum', 'pos']
TARGETS = {'create', 'open', 'close', 'flush', 'grow', 'cwrite', 'cread', 'lwrite', 'cfile'} - {'lwrite'}

def modes(kind, rng): return [rng.choice([FAIL, CUT]) if kind in 'RW' else FAIL]
def cont(ops, t, m, rng):
    o = ops[t]
    if o['op'] == 'close': return [dict(op='survey')]
    if o['op'] == 'create' and rng.random() < .5: return [dict(op='survey')]
    return [dict(op='again', inner=o)] + ops[t + 1:] + [dict(op='survey')]

def run(ck):
    q = ck.quick
    rng = ck.rng('random')
    CW = dict(module='CollTrace', world='collworld:CollWorld', lib='sim')
    # the transitions of the serial model, made collectively
    scen = []
    for cfg, n in (('MCdata.cfg', 350), ('MCattr.cfg', 200), ('MCgrow.cfg', 250), ('MCns.cfg', 150)):
        x = mc.emit(ck, 'MC', cfg, over=dict(MaxOps='5') if cfg == 'MCdata.cfg' else None, limit=n if q else 20 * n)
        for s in x: s['ops'] = collgen.collective(s['ops'], rng, rng.choice([1, 2, 3, 4]), extra=[0, 0, 1])
        scen += x
    ck.run_core(scen, COMPS, ATTRS, F, label='mc', **CW)
    w = W(create=4, open=5, close=5, drop=1, flush=6, grow=6, cfile=3, setattr=6, rmattr=2, write=6, read=3, lwrite=3, list=1, getattr=1, lsattr=1, readsimple=1, seek=4, seekrel=1, eof=1, lookup=1, describe=0)
    n = 60 if q else 2500
    scen = []
    def cfgs():
        yield dict(cols=[(1,), (2,), (3, 1)])
        yield dict(cols=[(1,), (1, 2), (0,), (3, 0)], bad=.15)
        yield dict(cols=[(1,), (2,)], dtypes=gen.ALL, nmemb=[1, 2, 3], maxfiles=9, nops=50)
    for _ in range(n):
        for c in cfgs():
            scen.append(collgen.CollGen(rng, gen.Cfg(**dict(dict(w=w, bufs=[8, 24, 64 << 20], maxh=3), **c))).run())
    ck.run_core(scen, COMPS, ATTRS, F, label='rnd', **CW)
    # one operation fails on one rank
    lib = build.sim_lib()
    cnt = faultworld.counts(ck, scen, lib, COMPS, ATTRS, collworld.CollCount)
    x = faultworld.place(ck, scen, cnt, ck.rng('place'), 800 if q else 30000, modes, cont, targets=TARGETS, per=2)
    kinds = {}
    for s in x:
        o = next(o for o in s['ops'] if 'fault' in o); kinds[o['op']] = kinds.get(o['op'], 0) + 1
    ck.notes['failures placed'] = kinds
    ck.run_core(x, COMPS, ATTRS, [f for f in F if f != 'sum'], label='fault', **CW)
    ck.assumptions.append('the ranks are simulated in one process; schedules are chosen at the points where a rank communicates or touches a file')
