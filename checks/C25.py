"""C25: every failure leaves a faithful, safe error message."""
import errworld, mc
from errworld import KINDS

NAMES = ['x', '%s', '%n%n%n', 'a%', '%d%x', '%%', '%5$s', '%999999d', 'q' * 200, '%s' * 100, 'back\\slash', "quote'`\"", 'h\xf6hle', '#', '\x01\x1b[2J',
         '/'.join(['deep' * 40] * 12), '/'.join(['%n%s' * 50] * 10), '/'.join(['p%c'] * 300), '*', '$(x)', '\x7f%\xff', 'very' * 60,
         'tail%s', '/'.join('%1$s%2$n%3$n')]

def run(ck):
    q = ck.quick
    rng = ck.rng('err')
    scen = mc.emit(ck, 'ErrMC', 'ErrMC.cfg', dict(MaxOps='4' if q else '5'), limit=400 if q else 4000)
    for s in scen:                                   # concrete causes for the abstract ones
        for o in s['ops']:
            if o['op'] == 'fail': o['kind'] = rng.choice(KINDS); o['name'] = rng.choice(NAMES)
            elif o['op'] == 'set': o['text'] = rng.choice(NAMES)
    # every cause with every name, read afterwards, by this thread and with others failing in between
    ops = []
    for k in KINDS:
        for n in NAMES:
            t, u = rng.randint(1, 8), rng.randint(1, 8)
            ops.append([dict(op='fail', t=t, kind=k, name=n), dict(op='get', t=t), dict(op='fail', t=u, kind=rng.choice(KINDS), name=rng.choice(NAMES)),
                        dict(op='get', t=t) , dict(op='good', t=u, kind='openok'), dict(op='fail', t=t, kind=k, name=n)])
    for i in range(0, len(ops), 20): scen.append(dict(ops=sum(ops[i:i + 20], [])))
    # all threads at the same time
    def lst(t, n):
        out = []
        for _ in range(n):
            x = rng.random()
            if x < .65: out.append(dict(op='fail', t=t, kind=rng.choice(KINDS), name=rng.choice(NAMES)))
            elif x < .75: out.append(dict(op='get', t=t))
            elif x < .8: out.append(dict(op='set', t=t, text=rng.choice(NAMES)))
            elif x < .83: out.append(dict(op='clear', t=t))
            else: out.append(dict(op='good', t=t, kind=rng.choice(['openok', 'readok'])))
        return out
    for _ in range(24 if q else 400):
        scen.append(dict(ops=[dict(op='par', lists=[lst(t, 40) for t in range(1, rng.choice([2, 4, 8]) + 1)]) for _ in range(3)]))
    rng.shuffle(scen)
    ck.run_core(scen, {}, {}, [], module='ErrTrace', world='errworld:ErrWorld', asan=True, label='err', timeout=40)
