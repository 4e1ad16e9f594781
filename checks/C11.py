"""C11: completed operations survive the death of the process at any later point."""
import build, faultworld
from faultworld import *
from common import COMPS, ATTRS
import C12

def modes(kind, rng):
    m = [rng.choice([KILLB, KILLA])]
    if kind == 'W': m = [KILLP, rng.choice([KILLB, KILLA])]
    if kind == 'R': m = [KILLA]
    return m

def cont(ops, t, m, rng):
    """everything is looked at by a new process; the history goes on with the columns it opens"""
    o = ops[t]
    if rng.random() < .6: return [dict(op='survey')]
    if rng.random() < .5 and o['op'] == 'create': return [dict(o, h=900)] + ops[t + 1:] + [dict(op='survey')]
    return [dict(op='survey')] + ops[t + 1:] + [dict(op='survey')]

def between(scen, rng, n):
    """the process also dies between two calls"""
    out = []
    for s in rng.sample(scen, min(n, len(scen))):
        ops = list(s['ops'])
        for t in sorted(rng.sample(range(1, len(ops)), min(2, len(ops) - 1)), reverse=True):
            ops[t:t] = [dict(op='die'), dict(op='survey')]
        out.append(dict(ops=ops + [dict(op='survey')]))
    return out

def run(ck):
    q = ck.quick
    ck.model('BlockIO', over=dict(MaxOps='3', Chunk='1') if q else dict(MaxOps='4', MaxFaults='1', W='3'))
    ck.model('BlockIO', over=dict(Chunk='2', MaxFaults='0', MaxOps='3' if q else '4'))
    lib = build.fault_lib()
    scen = C12.histories(ck, q, 100 if q else 700)
    cnt = faultworld.counts(ck, scen, lib, COMPS, ATTRS)
    rng = ck.rng('place')
    x = faultworld.place(ck, scen, cnt, rng, 2200 if q else 60000, modes, cont)
    kinds = {}
    for s in x:
        o = next(o for o in s['ops'] if 'fault' in o); kinds[o['op']] = kinds.get(o['op'], 0) + 1
    y = between(scen, rng, 300 if q else 5000)
    kinds['between calls'] = len(y)
    ck.notes['deaths placed'] = kinds
    ck.run_core(x + y, COMPS, ATTRS, ['data', 'hdr', 'attrs', 'list', 'pos', 'mem'], module='FaultTrace', world='faultworld:FaultWorld', lib='fault', label='kill')
    ck.assumptions.append('the process dies at the granularity of file-system operations (before one, after one, or in the middle of a write); what was handed to the operating system survives')
