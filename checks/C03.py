"""C03: conversions between element types and byte orders."""
import struct, bf, gen
from enc import split
from common import COMPS, ATTRS, W

def limits(rng, d, dst, n):
    """interesting elements of type d, as bytes"""
    o, k, w = split(d)
    bo = 'little' if o == '<' else 'big'
    out = []
    if k in 'iu':
        b = 8 * w
        lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if k == 'i' else (0, (1 << b) - 1)
        c = [0, 1, 2, -1, -2, lo, lo + 1, hi, hi - 1] + [s * ((1 << e) + t) for e in (7, 8, 15, 16, 23, 24, 25, 31, 32, 52, 53, 54, 62, 63) for s in (1, -1) for t in (-1, 0, 1)]
        c += [(1 << 24) + 3, (1 << 53) + 3, (1 << 25) + 2, (1 << 25) + 6, (1 << 54) + 2, (1 << 54) + 6, (1 << 60) + (1 << 36), (1 << 60) + (1 << 36) + 1]
        c += [rng.randint(lo, hi) for _ in range(20)] + [rng.randint(lo, hi) >> rng.randint(0, b - 1) for _ in range(20)]
        c = [x for x in c if lo <= x <= hi]
        out = [(x % (1 << b)).to_bytes(w, bo) for x in c]
    elif k == 'f':
        f, p = ('f', 24) if w == 4 else ('d', 53)
        c = [0.0, -0.0, 1.0, -1.0, .5, -.5, 1.5, 2.5, -1.5, -2.5, .999999, -.999999, 127.5, 255.9, 32767.25, 65536.75, 1e9, -1e9, 3e9,
             2147483647.0, 2147483648.0, -2147483648.0, 4294967295.0, 4294967296.0, 9.2e18, -9.2e18, 1.8e19, 16777217.0, 16777219.0,
             33554434.0, 33554438., 9007199254740993.0, 1e30, -1e30, 1e38, 3.4028234663852886e38, 3.40282356e38, 3.4028235677973366e38, 1e39, 1e300,
             1e-30, 1e-40, 1.401298464324817e-45, 7e-46, 7.1e-46, 2.1e-45, 1.17549435e-38, 1.1754943e-38, 5e-324, 1e-310, float('inf'), float('-inf'), float('nan'),
             1 + 2**-24, 1 + 2**-24 + 2**-50, 1 + 3 * 2**-24, 1 + 2**-23]
        c += [rng.uniform(-1, 1) * 2.0 ** rng.randint(-30, 64) for _ in range(20)]
        out = []
        for x in c:
            try: out.append(struct.pack(o + f, x))
            except OverflowError: pass
        out += [bytes(rng.randint(0, 255) for _ in range(w)) for _ in range(10)]
        # a signalling NaN may be made quiet on its way; any NaN will do
    elif k == 'c':
        h = gen_float(rng, o, w // 2)
        out = [rng.choice(h) + rng.choice(h) for _ in range(60)]
    elif k == 'b': out = [bytes([i % 2]) for i in range(8)]
    else: out = [bytes(rng.randint(0, 255) for _ in range(w)) for _ in range(12)]
    # undefined: a float outside of the integer type it goes to
    D = split(dst)
    if k == 'f' and D[1] in 'iu' and gen.convertible(d, dst): out = [x for x in out if fits(struct.unpack(o + ('f' if w == 4 else 'd'), x)[0], D)]
    return [rng.choice(out) for _ in range(n)] if len(out) < n else rng.sample(out, n)

def fits(x, D):
    if x != x or abs(x) == float('inf'): return False
    b = 8 * D[2]
    lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if D[1] == 'i' else (0, (1 << b) - 1)
    return lo <= int(x) <= hi
def gen_float(rng, o, w): return limits(rng, '%sf%d' % (o, w), '<f8', 40)

def spell(rng, d):
    """other ways to write the same type"""
    if d[0] == '<': return rng.choice([d, d, '=' + d[1:], d[1:]] + (['|' + d[1:]] if d[2:] == '1' or d[1] == 'S' else []))
    return d

def run(ck):
    q = ck.quick
    ck.model('ConvertMC', workers=8)
    rng = ck.rng('pairs')
    good, bad = [], []
    types = gen.both(gen.NUM + gen.CPLX + ['i1', 'i2', 'u1', 'u2']) + ['<b1', '>b1', '<S1', '>S1', '<S3', '>S3', '<S7', '<S16', '>S16']
    for s in types:
        for d in types: (good if gen.convertible(s, d) else bad).append((s, d))
    scen = []
    def one(s, d, via, n):
        return dict(op='conv', src=s, dst=d, via=via, inb=[list(x) for x in limits(rng, s, d, n)], nm=rng.choice([1, 2, 3]),
                    bufsize=rng.choice([1, 16, 24, 100, 64 << 20]), stride=rng.choice([1, 1, 2, 3]), spell=dict(src=spell(rng, s), dst=spell(rng, d)))
    vias = ['write', 'read', 'attr', 'attr2']
    for s, d in good:
        for via in vias[:3] if q else vias:
            for _ in range(1 if q else 10): scen.append(dict(ops=[one(s, d, via, 18 if q else 60)]))
    bads = [(p, via) for p in bad for via in vias[:3]]
    for (s, d), via in rng.sample(bads, 900) if q else bads: scen.append(dict(ops=[one(s, d, via, 6)]))
    rng.shuffle(scen)
    ck.notes['pairs'] = dict(convertible=len(good), refused=len(bad))
    ck.run_core(scen, COMPS, ATTRS, [], module='ConvertTrace', world='convworld:ConvWorld', label='conv')
    # conversions inside longer histories, checked against the bytes on disk
    w = W(rmattr=0, lookup=0, lsattr=0, list=0, describe=0, buf=1, grow=1, setattr=4, getattr=6)
    rng = ck.rng('random')
    scen = [gen.Gen(rng, gen.Cfg(w=w, lays=['c', 'cs', 'gap', 'neg'], dtypes=gen.ALL, same=.15, bad=.15, nmemb=[1, 2, 3],
                                 bufs=[8, 16, 24, 64 << 20])).run() for _ in range(150 if q else 6000)]
    ck.run_core(scen, COMPS, ATTRS, ['data', 'raw', 'attrs'], raw=True, label='rnd')
