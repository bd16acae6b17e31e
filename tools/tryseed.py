#!/usr/bin/env python3
"""tryseed.py ID [--checks C10,C11] : validates a planted bug in a scratch copy of /repo
and reports which checks catch it."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid = sys.argv[1]
d = f'{V}/seeded/{sid}'
meta = json.load(open(d + '/meta.json'))
checks = [meta['property']]
if '--checks' in sys.argv:
    checks = sys.argv[sys.argv.index('--checks') + 1].split(',')
t = tempfile.mkdtemp(prefix='seed-')
try:
    r = t + '/repo'
    subprocess.run(['git', 'clone', '-q', '/repo', r], check=True)
    dd = t + '/demo'
    shutil.copytree(d, dd, ignore=shutil.ignore_patterns('*.diff', '*.patch', 'meta.json'))
    run = lambda c, **k: subprocess.run(c, cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
    p = run(['bash', dd + '/demo.sh'])
    ok = p.returncode == 0
    print('demo clean rc', p.returncode, '' if ok else p.stdout[-1500:])
    p = run(['git', 'apply', d + '/patch.diff'])
    print('apply', p.returncode, p.stdout[:300])
    ok &= p.returncode == 0
    # official build and tests on a copy of the recipe
    b = t + '/b'
    sh = f'sed "s#/repo#{r}#g" /opt/vp/build.sh > {t}/build.sh; cp -r /opt/vp/cmake {t}/cmake; grep -rl /repo {t}/cmake | xargs -r sed -i "s#/repo#{r}#g"; sed -i "s#/opt/vp/cmake#{t}/cmake#" {t}/build.sh; bash {t}/build.sh'
    p = run(['bash', '-c', sh])
    print('build', p.returncode, p.stdout[-300:] if p.returncode else '')
    ok &= p.returncode == 0
    p = run(['bash', dd + '/demo.sh'])
    print('demo patched rc', p.returncode, p.stdout[-300:])
    ok &= p.returncode != 0
    for c in checks:
        p = subprocess.run([sys.executable, V + '/check.py', c], env=dict(os.environ, VERIF_REPO=r), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        print(c, 'rc', p.returncode, ' '.join(p.stdout.splitlines()[-2:])[:300])
    print('SEED', sid, 'valid' if ok else 'INVALID')
finally:
    shutil.rmtree(t)
