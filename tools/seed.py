#!/usr/bin/env python3
"""tools/seed.py verify [ID...]: each planted bug applies, builds, passes the stable tests, and its demonstration
passes without it and fails with it (in a scratch copy of /repo, removed afterwards).
tools/seed.py run ID...: the check of its property, and all others named with --also, on /repo with the bug applied.
tools/seed.py mk ID FILE.py: writes seeded/ID/patch.diff from an edit script run in a scratch copy (development aid)."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, 'seeded')
def sh(cmd, cwd, timeout=900):
    r = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return r.returncode, r.stdout
def demo(i, cwd):
    t = tempfile.mkdtemp()
    for f in os.listdir(os.path.join(S, i)):
        if not f.endswith(('.diff', '.patch')) and f != 'meta.json': shutil.copy(os.path.join(S, i, f), t)
    try: return sh('bash %s/demo.sh' % t, cwd, 300)
    finally: shutil.rmtree(t)
def verify(ids):
    # build.sh and test.sh work on /repo itself, so the bug is applied there and undone
    ok = True
    for i in ids:
        p = os.path.join(S, i, 'patch.diff')
        c, o = sh('bash /opt/vp/build.sh', '/repo')
        a, ao = demo(i, '/repo')
        c, o = sh('git apply ' + p, '/repo')
        if c: print(i, 'DOES NOT APPLY', o); ok = False; continue
        try:
            c, o = sh('bash /opt/vp/build.sh', '/repo')
            t, to = sh('bash /opt/vp/test.sh /tmp/seedtest.json', '/repo')
            res = json.load(open('/tmp/seedtest.json'))
            b, bo = demo(i, '/repo')
        finally:
            sh('git checkout -- .', '/repo'); sh('bash /opt/vp/build.sh', '/repo')
        base = json.load(open('/opt/vp/BASELINE.json'))
        good = a == 0 and b != 0 and c == 0 and not res['failed']
        ok &= good
        print(i, 'ok' if good else 'BAD', 'demo clean %d, with bug %d, build %d, tests %d passed %d failed' % (a, b, c, len(res['passed']), len(res['failed'])))
        if not good: print(ao[-1500:], '----', bo[-1500:], o[-500:] if c else '')
    return ok
def run(ids, also=()):
    for i in ids:
        meta = json.load(open(os.path.join(S, i, 'meta.json')))
        c, o = sh('git apply ' + os.path.join(S, i, 'patch.diff'), '/repo')
        if c: print(i, 'DOES NOT APPLY'); continue
        try:
            for p in [meta['property']] + list(also):
                c, o = sh('VERIF_SEED=1 ./check %s' % p, V, 1200)
                print(i, p, 'CAUGHT' if c == 1 and 'VIOLATION property=' + p in o else 'missed (exit %d)' % c, o.strip().split('\n')[-1])
                if c not in (0, 1): print(o[-1500:])
        finally: sh('git checkout -- .', '/repo')
if __name__ == '__main__':
    a = sys.argv[1:]
    also = [x[7:] for x in a if x.startswith('--also=')]
    ids = [x for x in a[1:] if not x.startswith('--')] or sorted(os.listdir(S))
    if a[0] == 'verify': sys.exit(0 if verify(ids) else 1)
    run(ids, also)
