"""C26: threads working on different columns do not disturb each other."""
import gen, mc, build
from common import COMPS, ATTRS, W

def run(ck):
    q = ck.quick
    ck.model('Threads', over=None if q else dict(Rows='5'))
    rng = ck.rng('threads')
    BUFS = [8, 16, 24, 64, 4096]
    def hist(k):
        cfgs = [dict(cols=[(1,), (2,), (3, 1)], nops=25), dict(cols=[(1,), (1, 2), (0,)], nops=25, w=W(setattr=6, rmattr=2, flush=5, close=5, open=7)),
                dict(cols=[(1,), (2,)], nops=30, nmemb=[2, 3], maxfiles=7, w=W(grow=5, create=4, read=8, write=8))]
        return gen.Gen(rng, gen.Cfg(**dict(dict(bufs=BUFS, bad=.1, dtypes=['<i4', '>f8', '<u1', '<c8', '<S7', '>i8'], adts=['<i4', '>f8', '<S3']), **cfgs[k % 3]))).run()['ops']
    scen = []
    for _ in range(120 if q else 1500):
        n = rng.choice([2, 3, 4, 4, 6])
        scen.append(dict(ops=[dict(op='threads', lists=[hist(rng.randrange(3)) for _ in range(n)], bufsize=rng.choice(BUFS), **{'yield': rng.choice([0, 5, 50, 200])})]))
    for i in range(24 if q else 200):
        big = i % 3 == 0
        rows = 20000 if big else rng.choice([7, 60, 400])
        scen.append(dict(ops=[dict(op='bulk', n=4, seed=rng.randrange(1 << 30), rows=rows, rounds=4 if big else 8,
                                   times=3, bufsize=rng.choice([4096, 65536]) if big else rng.choice(BUFS[1:]), **{'yield': rng.choice([0, 20]) if rows == 7 else 0})]))
    rng.shuffle(scen)
    ck.run_core(scen, COMPS, ATTRS, ['data', 'hdr', 'sum', 'attrs', 'list', 'pos', 'mem', 'msg'], module='ThreadTrace', world='threadworld:ThreadWorld', lib='fault',
                label='thr', shards=4, timeout=60)
    ck.assumptions.append('interleavings are those that sleeping at file-system operations (recorded histories) and running in parallel (bulk work) produce')
