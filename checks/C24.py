"""C24: the exchange helpers deliver the same whichever way they work."""
import mc
ELS = [1, 2, 4, 7, 8, 24]

def alltoall(rng, cnt, policy=None, layout=None):
    """cnt[s][d]; sent and received with or without gaps and in any order of the pieces"""
    P = len(cnt)
    ranks = []
    ask = rng.random() < .12
    allrd = rng.random() < .5
    for s in range(P):
        r = dict(cnt=cnt[s])
        col = [cnt[i][s] for i in range(P)]
        def place(ns):
            order = list(range(P)); rng.shuffle(order); at, pos = [0] * P, 0
            for i in order:
                pos += rng.choice([0, 0, 1, 2]); at[i] = pos; pos += ns[i]
            return at, pos
        total = sum(cnt[s])
        if rng.random() < .5: r['sd'], total = place(cnt[s])
        r['send'] = [rng.randrange(0, 100) for _ in range(total + rng.choice([0, 0, 3]))]
        n = sum(col)
        if rng.random() < .5 if not allrd else True: r['rd'], n = place(col)
        r['len'] = n + rng.choice([0, 0, 2])
        ranks.append(r)
    return dict(op='alltoallv', ranks=ranks, policy=rng.randrange(3) if policy is None else policy, rc=rng.random() < .5, ask=ask, el=rng.choice(ELS),
                sched=[rng.randrange(1 << 20), rng.randrange(5)])
def gather(rng, ns):
    root = rng.randrange(len(ns)); g = rng.random() < .6
    return dict(op='gather', root=root, el=rng.choice(ELS), sched=[rng.randrange(1 << 20), rng.randrange(5)],
                ranks=[dict(send=[rng.randrange(100) for _ in range(n)], given=g if i == root else rng.random() < .5, len=sum(ns) + rng.choice([0, 2]), wanttot=rng.random() < .7) for i, n in enumerate(ns)])
def scatter(rng, ns):
    root = rng.randrange(len(ns))
    return dict(op='scatter', root=root, el=rng.choice(ELS), sched=[rng.randrange(1 << 20), rng.randrange(5)],
                ranks=[dict(n=n, given=rng.random() < .6, len=n + rng.choice([0, 2]), wanttot=rng.random() < .7, **(dict(send=[rng.randrange(100) for _ in range(sum(ns))]) if i == root else {})) for i, n in enumerate(ns)])
def getloc(rng, P):
    t = rng.choice(['int', 'long', 'double', 'float', 'ulong']); k = rng.choice([1, 2, 5, 1000])
    return dict(op='getloc', type=t, max=rng.random() < .5, sched=[rng.randrange(1 << 20), rng.randrange(5)],
                ranks=[dict(val=rng.randint(0 if t == 'ulong' else -k, k)) for _ in range(P)])
def counts(rng, P, top):
    dens = rng.choice([0, .1, .3, .6, 1])
    return [[rng.randint(1, top) if rng.random() < dens else 0 for _ in range(P)] for _ in range(P)]

def run(ck):
    q = ck.quick
    ck.model('ExchMC', workers=8)
    ck.model('ExchMC', over=dict(N='2', MaxCount='2'))
    if not q: ck.model('ExchMC', over=dict(N='4', MaxCount='1', Ways='{"pairs"}'), workers=8, mem='16g', timeout=800)
    calls = mc.calls(ck, 'ExchMC', 'ExchMC.cfg') + mc.calls(ck, 'ExchMC', 'ExchMC.cfg', over=dict(N='2', MaxCount='3'))
    rng = ck.rng('random')
    scen = []
    for c in calls:
        ops = [alltoall(rng, c['cnt'], p) for p in (0, 1, 2)]
        ops += [gather(rng, c['cnt'][0]), scatter(rng, c['cnt'][-1])]
        scen.append(dict(ops=ops))
    for _ in range(200 if q else 6000):
        P = rng.choice([1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 16])
        ops = []
        for _ in range(6):
            x = rng.random()
            if x < .5: ops.append(alltoall(rng, counts(rng, P, rng.choice([1, 2, 9]))))
            elif x < .65: ops.append(gather(rng, rng.choice(counts(rng, P, 5))))
            elif x < .8: ops.append(scatter(rng, rng.choice(counts(rng, P, 5))))
            else: ops.append(getloc(rng, P))
        scen.append(dict(ops=ops))
    # enough partners for the automatic choice to change its mind, on one rank, on some, on all
    for k in range(3 if q else 24):
        P = 132; busy = [1, 5, P][k % 3]
        cnt = [[0] * P for _ in range(P)]
        for s in rng.sample(range(P), busy):
            for d in rng.sample(range(P), 130): cnt[s][d] = 1
        for s in range(P): cnt[s][rng.randrange(P)] += 1
        scen.append(dict(ops=[alltoall(rng, cnt, 0)]))
    for lib in ('sim', 'simsr'):
        ck.run_core(scen, {}, {}, [], module='ExchTrace', world='exchworld:ExchWorld', lib=lib, label=lib, timeout=60)
    ck.assumptions.append('the ranks are simulated in one process; sends are synchronous in a third of the runs')
