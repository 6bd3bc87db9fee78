"""mkseed.py SPEC.py [ID...] : build and confirm planted bugs.
SPEC.py calls seed(id, prop, edits=[(file, old, new)], demo=str, needs=str, breaks=str)."""
import json, os, shutil, subprocess, sys
SEEDS = []
def seed(id, prop, edits, demo, needs, breaks):
    SEEDS.append((id, prop, edits, demo, needs, breaks))
V = '/verif'; S = '/tmp/seed'; R = S + '/repo'
def sh(cmd, **k): return subprocess.run(cmd, capture_output=True, text=True, **k)
def main():
    spec = sys.argv[1]; only = sys.argv[2:]
    exec(open(spec).read(), {'seed': seed})
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable']) if True else None
    for id, prop, edits, demo, needs, breaks in SEEDS:
        if only and id not in only: continue
        os.makedirs(S, exist_ok=True)
        shutil.rmtree(R, ignore_errors=True)
        sh(['cp', '-a', '/repo', R])
        d = f'{V}/seeded/{id}'
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        for f, old, new in edits:
            p = f'{R}/{f}'; s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        open(f'{d}/patch.diff', 'w').write(sh(['git', '-C', R, 'diff']).stdout)
        shutil.copy(f'{V}/tools/seedlib/h.py', d)
        open(f'{d}/demo.py', 'w').write('from h import *\n' + demo.lstrip('\n'))
        open(f'{d}/demo.sh', 'w').write('#!/bin/bash\nexec timeout 250 /opt/venv/bin/python -B "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
        os.chmod(f'{d}/demo.sh', 0o755)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(f'{d}/meta.json', 'w'), indent=1)
        for f, old, new in edits:
            base = sh(['git', '-C', '/repo', 'show', 'b0079da:' + f]).stdout.split('\n')
            diff = sh(['git', '-C', R, 'diff', '-U0', f]).stdout.split('\n')
            rem = [l[1:] for l in diff if l.startswith('-') and not l.startswith('---')]
            if not rem or any(l.strip() and l not in base for l in rem): print('   NOT ORIGINAL LINES', f, [l for l in rem if l not in base])
        a = sh(['bash', f'{d}/demo.sh'], cwd='/repo'); b = sh(['bash', f'{d}/demo.sh'], cwd=R)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
        shutil.rmtree(R + '/tests/generated_files', ignore_errors=True)
        t = sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--rootdir=' + R, '--timeout=60', '--disable-warnings',
                '-o', 'junit_family=xunit2', '--junitxml=' + S + '/junit.xml'], cwd=R, env=dict(env, PYTHONHASHSEED='0', MPLBACKEND='Agg', PYTHONPATH=R))
        sh(['python3', '/opt/vp/results.py', S + '/o.json', 'junit:' + S + '/junit.xml'])
        o = json.load(open(S + '/o.json'))
        tail = 'BROKEN ' + str(sorted(stable - set(o['passed']))[:3]) if stable - set(o['passed']) else 'ok'
        c = sh(['true'] if os.environ.get('NOCHECK') else ['./check', prop, 'quick'], cwd=V, env=dict(env, PYFILECONF_REPO=R))
        print(id, prop, 'clean', a.returncode, 'patched', b.returncode, '| tests', tail, '| check rc', c.returncode,
              c.stdout.strip().split('\n')[-1][:230], flush=True)
        if a.returncode: print('   CLEAN:', (a.stdout + a.stderr)[-600:])
        if not b.returncode: print('   PATCHED PASSES')
        v = [l for l in c.stdout.split('\n') if 'VIOLATION' in l]
        if v: print('   ', v[0][:200])
        sh(['git', '-C', R, 'checkout', '--', '.'])
main()
