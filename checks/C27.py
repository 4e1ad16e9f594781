"""C27: Python attribute values come back as they were stored."""
import bf, gen, mc, pygen
from common import COMPS
NAMES = sorted(['A', 'AB', 'a', 'b-c', 'zz', '%s', 'é', '日本', '#HUMANE', '[x]', 'Z' * 60, '_', 'a.b'], key=lambda s: s.encode())
ATTRS = {i + 1: n for i, n in enumerate(NAMES)}

def cases(ck, over, limit, per=12):
    """every value of the specification: stored, replaced by another one, looked at before and after saving"""
    rng = ck.rng('cases')
    vals = mc.calls(ck, 'PyAttrMC', 'PyAttrMC.cfg', over=over, limit=limit)
    rng.shuffle(vals)
    def put(h, name, v):
        o = dict(op='pysetattr', h=h, name=name, badname=False, v=v)
        if v['k'] == 'strs': o['as'] = rng.choice(['list', 'array'])
        if v['k'] == 'arr':
            o['as'] = rng.choice(['array', '2d', 'gap', 'rev', 'fort', '3t'] + (['scalar'] if v['n'] == 1 and v['dt'][0] != '>' else []))
        return o
    out = []
    for i in range(0, len(vals), per):
        b = rng.choice([[1], [0], [2, 1]]); vs = vals[i:i + per]; prev = rng.sample(vals, len(vs))
        ops = [dict(op='pycreate', f=0, h=1, b=b, dtype='<i4', nmemb=1, size=0, nfile=0, sub=False)]
        h = 1
        for j, (v, w) in enumerate(zip(vs, prev)):
            n = rng.choice(list(ATTRS))
            ops += [put(h, n, w), put(h, n, v), dict(op='pygetattr', h=h, name=n)]
            how = rng.choice(['keep', 'flush', 'drop', 'drop', 'pickle', 'lost', 'other'])
            if how == 'flush': ops.append(dict(op='pyflush', h=h, how=rng.choice(['flush', 'close', 'with'])))
            if how == 'drop':
                ops += [dict(op='pydrop', h=h), dict(op='pyopen', f=0, b=b, h=h + 1, how='open')]; h += 1
            if how == 'pickle':
                ops += [dict(op='pyflush', h=h, how='flush'), dict(op='pypickle', h=h, p=j + 1, how=rng.choice([2, 3, 'copy'])), dict(op='pydrop', h=h), dict(op='pyunpickle', p=j + 1, h=h + 1)]; h += 1
            if how == 'lost':
                ops += [dict(op='pypickle', h=h, p=j + 1, how=rng.choice([2, 3])), dict(op='pydrop', h=h, lost=True), dict(op='pyunpickle', p=j + 1, h=h + 1)]; h += 1
            if how == 'other':
                ops += [dict(op='pyflush', h=h, how='flush'), dict(op='pyopen', f=0, b=b, h=h + 1, how='get'), dict(op='pygetattr', h=h + 1, name=n), dict(op='pydrop', h=h + 1)]
                continue
            ops.append(dict(op='pygetattr', h=h, name=n))
            if rng.random() < .2: ops.append(dict(op='pyattrs', h=h, how='keys', ask=rng.sample(list(ATTRS), 3)))
        ops.append(dict(op='pydrop', h=h))
        out.append(dict(ops=ops))
    return out

def run(ck):
    q = ck.quick
    kw = dict(module='PyTrace', world='pyworld:PyWorld', lib='py')
    ck.run_core(cases(ck, None if q else dict(Chars='{0, 10, 32, 65}', MaxArr='4', MaxRaw='3'), 1200 if q else None), COMPS, ATTRS, ['attrs', 'mem'], label='mc', **kw)
    rng = ck.rng('random')
    scen = []
    w = dict(create=.5, open=3, drop=2, flush=2, setattr=20, getattr=16, delattr=4, attrs=5, pickle=1, unpickle=1)
    for _ in range(70 if q else 2000):
        for c in (dict(attrs=[1, 2, 3]), dict(attrs=list(ATTRS)), dict(attrs=[4, 5, 6, 7], alens=[0, 1, 2, 40, 300])):
            scen.append(pygen.PyGen(rng, pygen.PyCfg(**dict(dict(nops=60, w=w, maxsize=0, cols=[(1,), (0,)]), **c))).run())
    ck.run_core(scen, COMPS, ATTRS, ['attrs', 'mem'], label='rnd', **kw)
