"""Independent encoder/decoder of small values (mirrors BFTypes.tla; used to fill and
read memory and to decode files, never to decide anything)."""
import struct
HOLE = 99999
GARB = 99998
MACH = '<'

def split(dt):
    """'<i4' -> ('<', 'i', 4) after normalisation"""
    if dt[0] in '=|':
        dt = MACH + dt[1:]
    elif dt[0] not in '<>':
        dt = MACH + dt
    return dt[0], dt[1], int(dt[2:])

def norm(dt):
    o, k, w = split(dt)
    return '%s%s%d' % (o, k, w)

_cache = {}
def enc(dt, v):
    key = (dt, v)
    r = _cache.get(key)
    if r is None:
        r = _cache[key] = _enc(dt, v)
    return r

def _enc(dt, v):
    o, k, w = split(dt)
    bo = 'little' if o == '<' else 'big'
    if k in 'iu':
        return (v % (1 << (8 * w))).to_bytes(w, bo)
    if k == 'f' and w in (4, 8):
        return struct.pack(o + ('f' if w == 4 else 'd'), float(v))
    if k == 'c' and w in (8, 16):
        return struct.pack(o + ('ff' if w == 8 else 'dd'), float(v), float(v + 1))
    return bytes((v + j) % 256 for j in range(w))

def dec(dt, b):
    o, k, w = split(dt)
    bo = 'little' if o == '<' else 'big'
    if k in 'iu':
        v = int.from_bytes(b, bo, signed=(k == 'i'))
        return v if abs(v) < 90000 else GARB
    if k == 'f' and w in (4, 8):
        x = struct.unpack(o + ('f' if w == 4 else 'd'), b)[0]
        return int(x) if abs(x) < 90000 and x == int(x) else GARB
    if k == 'c' and w in (8, 16):
        x, y = struct.unpack(o + ('ff' if w == 8 else 'dd'), b)
        if x == 0 and y == 0: return HOLE
        if abs(x) < 90000 and x == int(x) and y == x + 1: return int(x)
        return GARB
    v = b[0]
    if all(b[j] == (v + j) % 256 for j in range(w)): return v
    if not any(b): return HOLE
    return GARB
