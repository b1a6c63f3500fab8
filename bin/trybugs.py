#!/usr/bin/env python3
"""trybugs.py [ID...]: run each planted bug's property check on a patched
scratch clone of /repo; prints whether it was caught (developer tool)."""
import sys, os, json, subprocess, shutil, tempfile, time
V = '/verif'
ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
for b in ids:
    d = f'{V}/seeded/{b}'
    t = tempfile.mkdtemp(prefix='trybug')
    try:
        subprocess.run(['git', 'clone', '-q', '/repo', t + '/r'], check=True)
        subprocess.run(['git', '-C', t + '/r', 'apply', d + '/patch.diff'], check=True)
        p = json.load(open(d + '/meta.json'))['property']
        t0 = time.time()
        x = subprocess.run(['python3', V + '/bin/vp.py', 'check', p], capture_output=True, text=True,
                           env=dict(os.environ, VP_REPO=t + '/r', VP_EVIDENCE='/tmp'))
        v = [l for l in x.stdout.split('\n') if l.startswith('VIOLATION')]
        print('%-24s %s %s rc=%d %.0fs %s' % (b, p, 'CAUGHT' if v and x.returncode == 1 else 'MISSED',
              x.returncode, time.time() - t0, '' if v else x.stdout[-600:]), flush=True)
        for l in x.stdout.split('\n'):
            if 'FAIL' in l or l.startswith('VIOLATION'):
                print('    ', l[:200])
    finally:
        shutil.rmtree(t)
