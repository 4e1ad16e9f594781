"""C19: Python MPI columns behave as one shared column."""
import bf, gen, mc, pympi
from common import COMPS, ATTRS
COMPS = {**COMPS, 9: 'nothere'}
F = ['data', 'hdr', 'sum', 'attrs', 'list', 'mem']

def programs(ck, over, limit, n=2):
    """histories of the specification, as programs of every rank under some schedule"""
    rng = ck.rng('prog', over)
    out = []
    for s in mc.emit(ck, 'PyMpiMC', 'PyMpiMC.cfg', over=over, limit=limit):
        steps = [dict(op='mfile', f=0, p=[], how='open', up=0, create=rng.random() < .5, agree=True, fail=[])] + s['ops']
        if rng.random() < .3: steps.append(dict(op='mnames', f=0, r=rng.randrange(n), how='keys'))
        dirty = {}
        for x in s['ops']:      # what is not saved is not dropped
            if x['op'] in ('pywrite', 'pysetattr'): dirty[x['h'] // 10] = 1
            elif x['op'] == 'mappend': dirty[x['h']] = 1
            elif x['op'] == 'mflush': dirty.pop(x['h'], None)
            elif x['op'] == 'pydrop': dirty.pop(x['h'] // 10, None)
        steps += [dict(op='mflush', h=h, how='flush', fail=[]) for h in dirty]
        out.append(pympi.prog(rng, n, steps))
    return out

def run(ck):
    q = ck.quick
    kw = dict(module='PyMpiTrace', world='pympi:PyMpiWorld', lib='py')
    arr = '{"arr", "write", "flush", "append"}'
    scen = programs(ck, dict(MaxOps='5'), 300 if q else 15000)
    scen += programs(ck, dict(MaxOps='5', MaxH='1', NR='3', Kinds=arr), 100 if q else 5000, 3)
    if not q:
        scen += programs(ck, dict(MaxOps='7', MaxH='1', Kinds='{"create", "write", "flush"}'), 8000)
        scen += programs(ck, dict(MaxOps='7', MaxH='1', Kinds=arr), 8000)
    ck.run_core(scen, COMPS, ATTRS, F, label='mc', **kw)
    rng = ck.rng('random')
    scen = []
    for _ in range(50 if q else 1500):
        for c in (dict(fail=0), dict(), dict(fail=.4), dict(maxsize=30, nmemb=[1, 3], fail=0), dict(n=8)):
            scen.append(pympi.MGen(rng, pympi.MCfg(**dict(dict(nops=40), **c))).run())
    ck.run_core(scen, COMPS, ATTRS, F, label='rnd', **kw)
