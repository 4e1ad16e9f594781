"""C14: collective transfers end, and keep to the concurrency limit."""
import bf, gen, mc, collgen
from common import COMPS, ATTRS, W
CW = W(write=16, read=12, readsimple=0, setattr=0, rmattr=0, getattr=0, lookup=0, lsattr=0, list=0, buf=3)

def history(c, rng, extra=0):
    """a call of the model, as a write and as a read, with rows of two numbers in three files"""
    P = len(c['sizes']); total = sum(c['sizes']); room = c['room']
    k = rng.choice([1, 2, 3, 5]); fs = [room * (i + 1) // k - room * i // k for i in range(k)]
    dt = rng.choice(['<i4', '>i2', '<f8'])
    v = lambda: rng.randint(-99, 99)
    def parts(write):
        return [dict(dict(mdt='<S3' if bad else dt, lay=rng.choice(['c', 'c', 'neg'])),
                     **(dict(rows=[[v() if not bad else 65 for _ in range(2)] for _ in range(n)]) if write else dict(n=n))) for n, bad in zip(c['sizes'], c['bad'])]
    good = dict(c, bad=[False] * P)
    ops = [dict(op='nop', bufsize=rng.choice([8, 64 << 20]), P=P, extra=0, sched=[rng.randrange(1 << 20), rng.choice([1, 1, 1, 0, 2, 3, 4])], thr=c['thr']),
           dict(op='create', b=[1], h=1, dtype=dt, nmemb=2, fsize=fs, badname=False)]
    for _ in range(2):
        ops += [dict(op='seek', h=1, off=0), dict(op='cwrite', h=1, parts=parts(True), conc=c['conc'])]
        ops += [dict(op='seek', h=1, off=0), dict(op='cread', h=1, parts=parts(False), conc=c['conc'])]
        c = good
    return dict(ops=ops + [dict(op='close', h=1)])

def run(ck):
    q = ck.quick
    ck.model('Throttle', over=dict(MaxSize='1') if q else None, timeout=600)
    if not q: ck.model('Throttle', over=dict(N='4', MaxSize='1', Concs='{0, 1, 2, 3}', Thrs='{1, 2, 99}', Bads='{{}, {1}, {3}}'), timeout=700, workers=8, mem='12g')
    rng = ck.rng('calls')
    F = ['conc', 'data', 'pos', 'agree']
    calls = mc.calls(ck, 'Throttle', 'Throttle.cfg', over=dict(N='3', IOBads='{{}}'), limit=700 if q else None)
    calls += mc.calls(ck, 'Throttle', 'Throttle.cfg', over=dict(N='5', MaxSize='2', Concs='{0, 1, 2, 3, 4, 5, 7}', Thrs='{0, 1, 2, 3, 5, 99}', IOBads='{{}}', Bads='{{}, {4}, {2}}'), limit=700 if q else 15000)
    ck.run_core([history(c, rng) for c in calls], COMPS, ATTRS, F, module='CollTrace', world='collworld:CollWorld', lib='sim', label='mc')
    n = 60 if q else 1500
    scen = []
    for _ in range(n):
        for c in (dict(P=[2, 3, 4, 5]), dict(P=[6, 8, 11], maxfiles=9, maxfsize=12, exact=.6), dict(P=[16, 24], maxfiles=12, maxfsize=20, nops=15, exact=.7, bad=0)):
            g = collgen.CollGen(rng, gen.Cfg(**dict(dict(w=CW, bufs=[8, 24, 64 << 20], cols=[(1,), (2,)], maxh=3, extra=[0], same=.8), **c)))
            scen.append(g.run())
    for s in scen: s['ops'][0]['sched'][1] = rng.choice([1, 1, 1, 0, 2, 3, 4])
    ck.run_core(scen, COMPS, ATTRS, F, module='CollTrace', world='collworld:CollWorld', lib='sim', label='rnd')
    ck.assumptions.append('schedules are chosen at the points where a rank communicates or touches a file; the ranks are simulated in one process')
