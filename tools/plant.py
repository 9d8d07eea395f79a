#!/usr/bin/env python3
"""Development helper (no check uses it): confirm planted bugs under seeded/.

plant.py new ID        take /repo's uncommitted change as seeded/ID/patch.diff
plant.py confirm ID..  clean tree: demo exits 0; patched: builds, 613 tests pass, demo non-zero
plant.py catch ID..    run the checks of the bug's property (or --all) against the patched tree
"""
import json, os, subprocess, sys, glob, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, 'seeded')
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def clean(): sh('git -C /repo checkout -- .')
def build(): return sh('bash /opt/vp/build.sh')
def demo(i):
    d = '/tmp/w/demo_%s' % i; shutil.rmtree(d, ignore_errors=True); shutil.copytree(os.path.join(S, i), d)
    for f in glob.glob(d + '/*.diff') + glob.glob(d + '/meta.json'): os.unlink(f)
    r = sh('cd /repo && timeout 300 bash %s/demo.sh' % d); shutil.rmtree(d); return r
def dirty(): return sh('git -C /repo status --porcelain').stdout.strip()
def confirm(i):
    assert not dirty(), dirty()
    build(); r = demo(i)
    ok = r.returncode == 0
    msg = ['clean demo=%d' % r.returncode]
    if not ok: msg.append(r.stdout[-400:])
    a = sh('git -C /repo apply %s/%s/patch.diff' % (S, i))
    if a.returncode: return False, 'patch does not apply ' + a.stdout
    try:
        b = build()
        if b.returncode: return False, 'no build: ' + b.stdout[-600:]
        r = demo(i); msg.append('patched demo=%d %s' % (r.returncode, r.stdout.strip()[-200:])); ok &= r.returncode != 0
        t = sh('bash /opt/vp/test.sh /tmp/w/pt.json'); j = json.load(open('/tmp/w/pt.json'))
        base = json.load(open('/opt/vp/BASELINE.json'))
        names = base.get('stable') or base.get('tests') or base.get('passed') or base
        p = set(j.get('passed', []))
        miss = [n for n in names if n not in p]
        msg.append('tests missing: %d %s' % (len(miss), miss[:3])); ok &= not miss
    finally:
        clean()
    return ok, '; '.join(msg)
def catch(i, allp):
    meta = json.load(open('%s/%s/meta.json' % (S, i)))
    assert not dirty(), dirty()
    assert sh('git -C /repo apply %s/%s/patch.diff' % (S, i)).returncode == 0
    res = []
    try:
        props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')] if allp else [meta['property']]
        for p in props:
            r = sh('cd %s && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py --prop %s' % (V, p))
            res.append('%s%s' % (p, {0: '-', 1: '+'}.get(r.returncode, '?%d' % r.returncode)))
            if r.returncode not in (0, 1): print(r.stdout[-1500:])
    finally:
        clean()
    return meta['property'], res
if __name__ == '__main__':
    cmd, ids = sys.argv[1], [a for a in sys.argv[2:] if not a.startswith('--')]
    if not ids and cmd != 'new': ids = sorted(os.listdir(S))
    for i in ids:
        if cmd == 'new':
            os.makedirs(os.path.join(S, i), exist_ok=True)
            open(os.path.join(S, i, 'patch.diff'), 'w').write(sh('git -C /repo diff').stdout)
        if cmd == 'confirm': print(i, *confirm(i), flush=True)
        if cmd == 'catch': print(i, *catch(i, '--all' in sys.argv), flush=True)
    if cmd in ('confirm', 'catch'): build()
