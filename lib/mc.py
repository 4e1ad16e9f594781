"""Turns the transitions of a specification's state graph into histories for the real library."""
import json, os, re, tempfile
import tlc

def override(cfg, over=None):
    """a copy of a configuration with some constants replaced"""
    if not over: return cfg
    t = open(os.path.join(tlc.SPEC, cfg)).read()
    for k, v in over.items():
        t, n = re.subn(r'(?m)^(\s*%s)\s*(<-|=).*$' % re.escape(k), lambda m: '%s %s' % (m.group(1), v if v.startswith('<-') else '= ' + v), t)
        if n != 1: raise ValueError('constant %s in %s' % (k, cfg))
    f = tempfile.NamedTemporaryFile('w', suffix='.cfg', delete=False)
    f.write(t); f.close()
    return f.name

def emit(ck, module, cfg, over=None, limit=None, tag='', timeout=600, mem='6g', prep=None, maxloop=60):
    """explores the model (checking its invariants); returns scenarios covering its transitions.
    limit: at most so many scenarios, chosen at random."""
    c = override(cfg, over)
    try:
        r = tlc.run(module, c, env=dict(EMIT='1'), workers=1, timeout=timeout, mem=mem)
    finally:
        if c != cfg: os.unlink(c)
    if not r.ok: raise RuntimeError('specification %s/%s fails its own check:\n%s' % (module, cfg, r.out[-3000:]))
    ck.count(r)
    seqs, loops = [], {}
    for l in r.out.split('\n'):
        if l.startswith('"OPS '): seqs.append(json.loads(json.loads(l)[4:]))
        elif l.startswith('"LOOP '):
            s = json.loads(json.loads(l)[5:])
            loops.setdefault(json.dumps(s[:-1]), []).append(s[-1])
    # a sequence that continues in another one is covered by it
    pre = set(json.dumps(s[:-1]) for s in seqs)
    out = []
    for s in seqs:
        if json.dumps(s) not in pre and json.dumps(s) not in loops: out.append(s)
    for k, ls in loops.items():
        p = json.loads(k)
        for i in range(0, len(ls), maxloop): out.append(p + ls[i:i + maxloop])
    total = len(out)
    rng = ck.rng('emit', cfg, tag)
    if limit and total > limit: out = rng.sample(out, limit)
    ck.notes.setdefault('models', []).append(dict(module=module, cfg=cfg, over=over, distinct=r.distinct, generated=r.generated,
                                                  histories=total, replayed=len(out)))
    scen = [dict(ops=s) for s in out]
    for s in scen:
        if prep: prep(s, rng)
    return scen

def calls(ck, module, cfg, over=None, limit=None, tag='CALL', timeout=600, mem='6g'):
    """the records a specification prints after `tag`, each once"""
    c = override(cfg, over)
    try: r = tlc.run(module, c, env=dict(EMIT='1'), workers=1, timeout=timeout, mem=mem)
    finally:
        if c != cfg: os.unlink(c)
    if not r.ok: raise RuntimeError('specification %s/%s fails its own check:\n%s' % (module, cfg, r.out[-3000:]))
    ck.count(r)
    out = sorted({json.loads(l)[len(tag) + 1:] for l in r.out.split('\n') if l.startswith('"' + tag + ' ')})
    total = len(out)
    if limit and total > limit: out = ck.rng('calls', module, cfg).sample(out, limit)
    ck.notes.setdefault('models', []).append(dict(module=module, cfg=cfg, over=over, calls=total, replayed=len(out)))
    return [json.loads(x) for x in out]
