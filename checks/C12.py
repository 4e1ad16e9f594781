"""C12: a file-system failure is reported and damages nothing else."""
import bf, gen, mc, build, faultworld
from faultworld import *
from common import COMPS, ATTRS, W
BUFS = [8, 16, 24, 40, 64 << 20]

def histories(ck, q, n):
    scen = mc.emit(ck, 'MC', 'MCdata.cfg', over=dict(MaxOps='5' if q else '6'), limit=n)
    scen += mc.emit(ck, 'MC', 'MCattr.cfg', limit=n // 2)
    scen += mc.emit(ck, 'MC', 'MCgrow.cfg', limit=n // 2)
    rng = ck.rng('histories')
    for s in scen: s['ops'].insert(0, dict(op='nop', bufsize=rng.choice(BUFS)))
    def cfgs():
        yield dict(cols=[(1,), (2,), (3, 1)], nops=25)
        yield dict(cols=[(1,), (1, 2), (0,)], nops=25, w=W(setattr=6, rmattr=2, flush=5, close=5, open=7))
        yield dict(cols=[(1,), (2,)], nops=30, nmemb=[2, 3], maxfiles=7, w=W(grow=5, create=4))
    for _ in range(n):
        for c in cfgs():
            scen.append(gen.Gen(rng, gen.Cfg(**dict(dict(bufs=BUFS, bad=.03, dtypes=['<i4', '>f8', '<u1', '<c8', '<S7'], adts=['<i4', '>f8', '<S3']), **c))).run())
    return scen

def modes(kind, rng):
    if kind == 'R': return [FAIL, CUT, SHORT]
    if kind == 'W': return [FAIL, CUT]
    return [FAIL]

def cont(ops, t, m, rng):
    """the call is repeated, which must succeed; then the history goes on"""
    o = ops[t]
    if o['op'] == 'close': return [dict(op='survey')]
    if o['op'] == 'create' and rng.random() < .5: return [dict(op='survey')]
    if rng.random() < .15: return [dict(op='survey')]
    return [dict(op='again', inner=o)] + ops[t + 1:] + [dict(op='survey')]

def run(ck):
    q = ck.quick
    ck.model('BlockIO', over=dict(MaxOps='3', Chunk='1') if q else dict(MaxOps='4', MaxFaults='2'))
    ck.model('BlockIO', over=dict(Chunk='2'))
    lib = build.fault_lib()
    scen = histories(ck, q, 100 if q else 700)
    cnt = faultworld.counts(ck, scen, lib, COMPS, ATTRS)
    rng = ck.rng('place')
    x = faultworld.place(ck, scen, cnt, rng, 2500 if q else 60000, modes, cont)
    kinds = {}
    for s in x:
        o = next(o for o in s['ops'] if 'fault' in o); kinds[o['op']] = kinds.get(o['op'], 0) + 1
    ck.notes['failures placed'] = kinds
    ck.run_core(x, COMPS, ATTRS, ['data', 'hdr', 'attrs', 'list', 'pos', 'mem'], module='FaultTrace', world='faultworld:FaultWorld', lib='fault', label='fault')
    ck.assumptions.append('a failure is placed at one operation of one call; a short write leaves the disk full until the call returns; a failing close loses what the stream wrote')
