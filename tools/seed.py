#!/usr/bin/env python3
"""Confirm planted changes: seed.py ID... : applies seeded/ID/patch.diff to /repo, builds, runs the
stable tests, the demonstration and (with --check) the check of its property; always undoes it."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
def sh(cmd, cwd=R, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors='replace')
def stable():
    rc, o = sh('bash /opt/vp/test.sh /tmp/seed.json')
    r = json.load(open('/tmp/seed.json')); b = json.load(open('/opt/vp/BASELINE.json'))['stable']
    return sorted(set(b) - set(r['passed']))
def main():
    ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir(V + '/seeded'))
    chk = '--check' in sys.argv
    assert not sh('git status --porcelain')[1].strip(), 'repo not clean'
    bad = []
    rc, o = sh('bash /opt/vp/build.sh'); assert rc == 0
    for i in ids:
        d = V + '/seeded/' + i
        m = json.load(open(d + '/meta.json'))
        rc0, o0 = sh('bash %s/demo.sh' % d)
        res = ['demo unchanged rc=%d' % rc0]
        ok = rc0 == 0
        try:
            rc, o = sh('git apply %s/patch.diff' % d)
            if rc: res.append('APPLY FAILED ' + o); ok = False
            else:
                rc, o = sh('bash /opt/vp/build.sh')
                if rc: res.append('BUILD FAILED ' + o[-500:]); ok = False
                else:
                    miss = stable()
                    if miss: res.append('TESTS FAIL %d %s' % (len(miss), miss[:3])); ok = False
                    rc1, o1 = sh('bash %s/demo.sh' % d)
                    res.append('demo patched rc=%d %s' % (rc1, o1.strip()[-160:]))
                    if rc1 == 0: ok = False
                    if chk:
                        for p in [m['property']] + m.get('also', []):
                            rc2, o2 = sh('VERIF_SEED=1 python3 check.py %s quick' % p, cwd=V, timeout=1800)
                            vl = [l for l in o2.splitlines() if l.startswith('VIOLATION')]
                            res.append('%s %s' % (p, 'CAUGHT' if rc2 == 1 and vl else 'missed rc=%d' % rc2))
        finally:
            sh('git checkout -- .')
        print(i, m['property'], 'OK' if ok else 'BAD', '; '.join(res), flush=True)
        if not ok: bad.append(i)
    sh('bash /opt/vp/build.sh')
    print('bad:', bad)
main()
