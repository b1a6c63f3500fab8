#!/usr/bin/env python3
"""mkbug.py ID PROP FILE < JSON{old,new,needs,breaks}  (demo.c must exist in seeded/ID)
Writes seeded/ID/{patch.diff,meta.json,demo.sh,nst.h} from a text replacement on
/repo's FILE (in a scratch copy), and checks the demo on both trees."""
import sys, os, json, subprocess, shutil, tempfile
V = '/verif'


def make(bid, prop, edits, needs, breaks):
    d = f'{V}/seeded/{bid}'
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix='mkbug')
    try:
        subprocess.run(['git', 'clone', '-q', '/repo', t + '/r'], check=True)
        for f, old, new in edits:
            p = f'{t}/r/{f}'
            s = open(p).read()
            assert s.count(old) == 1, (bid, f, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.run(['git', '-C', t + '/r', 'diff'], capture_output=True, text=True).stdout
        open(d + '/patch.diff', 'w').write(diff)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks},
                  open(d + '/meta.json', 'w'), indent=1)
        for f in ('nst.h', 'demo.sh'):
            shutil.copy(f'{V}/lib/demo/{f}', f'{d}/{f}')
        os.chmod(d + '/demo.sh', 0o755)
        r = {}
        for name, cwd in (('clean', '/repo'), ('patched', t + '/r')):
            x = subprocess.run(['bash', d + '/demo.sh'], cwd=cwd, capture_output=True, text=True)
            r[name] = x.returncode
            out = (x.stdout + x.stderr).strip().split('\n')
            if (name == 'clean') != (x.returncode == 0) or x.returncode == 3:
                print('\n'.join(out[:25]))
        ok = r['clean'] == 0 and r['patched'] not in (0, 3)
        print(bid, 'OK' if ok else 'BAD', r)
        return ok
    finally:
        shutil.rmtree(t)


def main():
    """mkbug.py BUGFILE...: each is a python file calling bug(id, prop, edits, needs, breaks)"""
    for f in sys.argv[1:]:
        exec(compile(open(f).read(), f, 'exec'), {'bug': make})


main()
