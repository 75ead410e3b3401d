#!/usr/bin/env python3
"""Runs planted bugs: applies each to /repo, builds, tests, demo, the check of its property, undoes it.
usage: seedtest.py [--nocheck] [--notests] ID..."""
import subprocess, sys, json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = '/repo'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def main():
    a = sys.argv[1:]; nocheck = '--nocheck' in a; notests = '--notests' in a
    ids = [x for x in a if not x.startswith('--')] or sorted(os.listdir(V + '/seeded'))
    if sh('git -C /repo status --short').stdout.strip(): sys.exit('/repo not clean')
    base = set(x['id'] if isinstance(x, dict) else x for x in json.load(open('/opt/vp/BASELINE.json')).get('stable', json.load(open('/opt/vp/BASELINE.json')).get('passed', [])))
    for i in ids:
        d = f'{V}/seeded/{i}'; m = json.load(open(d + '/meta.json')); o = []
        if sh(f'git -C {R} apply {d}/patch.diff').returncode: print(i, 'PATCH DOES NOT APPLY'); continue
        try:
            b = sh('bash /opt/vp/build.sh').returncode; o.append(f'build={b}')
            if not notests:
                sh('bash /opt/vp/test.sh /tmp/seed_o.json'); p = set(json.load(open('/tmp/seed_o.json'))['passed'])
                o.append('tests=' + ('ok' if base <= p else 'BROKEN ' + ' '.join(sorted(base - p)[:4])))
            x = sh(f'bash {d}/demo.sh', cwd=R, timeout=300); o.append(f'demo={x.returncode}')
            if not nocheck:
                for pid in [m['property']]:
                    x = sh(f'VERIF_SEED=1 VERIF_TIER=quick python3 {V}/check.py {pid}')
                    v = [l for l in x.stdout.splitlines() if l.startswith('VIOLATION')]
                    o.append(f'{pid}: rc={x.returncode} ' + (v[0][:100] if v else 'NOT CAUGHT'))
        finally:
            sh(f'git -C {R} checkout -- .')
        sh('bash /opt/vp/build.sh')
        x = sh(f'bash {d}/demo.sh', cwd=R, timeout=300); o.append(f'clean demo={x.returncode}' + (' ' + x.stdout[-300:] + x.stderr[-300:] if x.returncode else ''))
        print(i, *o, flush=True)
main()
