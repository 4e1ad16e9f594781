COMPS = {1: 'a', 2: 'ab', 3: 'a.c', 4: 'd'}
ATTRS = {1: 'A', 2: 'AB', 3: 'a', 4: 'b-c', 5: 'zz'}
DEFW = dict(create=2, open=4, close=3, drop=1, flush=3, grow=2, seek=10, seekrel=3, eof=2, write=14, read=12,
            readsimple=4, setattr=2, rmattr=1, getattr=1, lookup=1, lsattr=1, list=1, describe=1, buf=1)
def W(**kw):
    return {k: v for k, v in dict(DEFW, **kw).items() if v}
