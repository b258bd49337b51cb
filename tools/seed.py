#!/usr/bin/env python3
"""seed.py [ID ...]: (re)create planted bugs from tools/seeddefs.py in /verif/seeded and
confirm them in a scratch copy: applies, builds, tests pass, demo passes before and fails
after; then run this property's quick check against the scratch copy (VERIF_REPO)."""
import os, sys, json, subprocess, shutil, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import seeddefs
PY = '/opt/venv-pypy/bin/python'
DEMO = '''#!/bin/bash
# run with cwd = the repository
D="$(cd "$(dirname "$0")" && pwd)"
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec timeout 250 /opt/venv-pypy/bin/python "$D/demo.py"
'''
def sh(cmd, cwd, env=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout,
                          env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', **(env or {})))
def stable():
    b = json.load(open('/opt/vp/BASELINE.json'))
    return b
def main():
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    nocheck = '--nocheck' in sys.argv
    for s in seeddefs.SEEDS:
        sid = s['id']
        if args and not any(sid.startswith(a) for a in args): continue
        scratch = tempfile.mkdtemp(prefix='seed_')
        try:
            repo = os.path.join(scratch, 'repo')
            subprocess.check_call(['cp', '-a', '/repo', repo])
            ok = True
            for f, old, new in s['edits']:
                p = os.path.join(repo, f)
                t = open(p).read()
                if t.count(old) < 1: print(sid, 'EDIT DOES NOT APPLY', f, repr(old)); ok = False; break
                if t.count(old) != 1: print(sid, 'EDIT AMBIGUOUS', f, repr(old)); ok = False; break
                open(p, 'w').write(t.replace(old, new))
            if not ok: continue
            diff = sh('git diff', repo).stdout
            d = os.path.join(HERE, 'seeded', sid)
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, 'patch.diff'), 'w').write(diff)
            open(os.path.join(d, 'demo.sh'), 'w').write(DEMO); os.chmod(os.path.join(d, 'demo.sh'), 0o755)
            open(os.path.join(d, 'demo.py'), 'w').write(s['demo'].lstrip('\n'))
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                      open(os.path.join(d, 'meta.json'), 'w'), indent=1)
            t = sh(PY + ' -m pytest -q --tb=line -p no:cacheprovider test 2>&1 | tail -4', repo, {'PYTHONPATH': repo})
            tests = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else '?'
            a = sh('bash ' + os.path.join(d, 'demo.sh'), '/repo')
            b = sh('bash ' + os.path.join(d, 'demo.sh'), repo)
            good = a.returncode == 0 and b.returncode != 0 and 'failed' not in tests and 'error' not in tests
            print('%-26s %s tests[%s] demo %d/%d' % (sid, 'ok ' if good else 'BAD', tests, a.returncode, b.returncode), flush=True)
            if not good:
                print(t.stdout[-600:], a.stdout[-600:] if a.returncode else '', b.stdout[-300:])
                shutil.rmtree(d); continue
            if nocheck: continue
            for prop in [s['property']] + s.get('also', []):
                t0 = time.time()
                c = sh('python3 check.py ' + prop, HERE, {'VERIF_REPO': repo, 'VERIF_EVIDENCE': os.path.join(scratch, 'ev')})
                v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
                print('    %s rc=%d %.0fs %s' % (prop, c.returncode, time.time() - t0, v[:1] or 'NOT CAUGHT ' + c.stdout[-300:]), flush=True)
        finally:
            shutil.rmtree(scratch)
main()
