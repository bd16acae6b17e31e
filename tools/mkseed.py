"""mk(id, prop, edits, needs, breaks, lang, main, srcs, sbp): writes /verif/seeded/<id>/ from edits of /repo."""
import json, os, shutil, subprocess, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DIRS = ['librtcm', 'libubx', 'libixcom', 'gnss_converters', 'gnss_converters_extra']


def mk(sid, prop, edits, needs, breaks, main, srcs, sbp=False, lang='c', extra='', flags=''):
    d = f'{V}/seeded/{sid}'
    if os.path.exists(d):
        shutil.rmtree(d)
    os.makedirs(d + '/shim')
    t = tempfile.mkdtemp()
    try:
        subprocess.run(['git', 'clone', '-q', '/repo', t + '/r'], check=True)
        for f, old, new in edits:
            p = f'{t}/r/c/{f}'
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.run(['git', '-C', t + '/r', 'diff'], stdout=subprocess.PIPE, text=True, check=True).stdout
        open(d + '/patch.diff', 'w').write(diff)
    finally:
        shutil.rmtree(t)
    shutil.copytree(V + '/shim/include/swiftnav', d + '/shim/include/swiftnav')
    os.makedirs(d + '/shim/src')
    shutil.copy(V + '/shim/src/swiftnav.c', d + '/shim/src')
    if sbp:
        shutil.copytree(V + '/shim/include/libsbp', d + '/shim/include/libsbp')
        shutil.copy(V + '/shim/src/sbp.c', d + '/shim/src')
        shutil.copy(V + '/shim/src/sbp_gen.c', d + '/shim/src')
    ext = 'cc' if lang == 'cc' else 'c'
    open(f'{d}/demo.{ext}', 'w').write(main)
    incs = ' '.join(f'-I"$R/c/{x}/include" -I"$R/c/{x}/src"' for x in DIRS) + ' -I"$R/c/nov2sbp" -I"$R/c/nov2sbp/src" -I"$R/c/gnss_converters/src/ubx_ephemeris"'
    cs = [s for s in srcs if not s.endswith('.cc')]
    ccs = [s for s in srcs if s.endswith('.cc')]
    q = lambda l: ' '.join('"$R"/c/' + s for s in l)
    sh = f'''#!/bin/bash
# exit 0: the behaviour is right; non-zero: it is broken (or cannot be shown)
set -e
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
I="-I$D/shim/include"
cd "$T"
for f in "$D"/shim/src/*.c {q(cs)}; do
  gcc -std=gnu11 -O1 -w -D_GNU_SOURCE {flags} $I {incs} -c "$f" -o "$T/$(echo "$f" | tr '/' '_').o"
done
'''
    if ccs or lang == 'cc':
        sh += f'''for f in {q(ccs)} "$D"/demo.{ext}; do
  g++ -std=gnu++14 -O1 -w {flags} $I {incs} -c "$f" -o "$T/$(echo "$f" | tr '/' '_').o"
done
'''
    if lang == 'c':
        sh += f'gcc -std=gnu11 -O1 -w -D_GNU_SOURCE {flags} $I {incs} -c "$D/demo.c" -o "$T/demo_c.o"\n'
    sh += f'g++ {flags} "$T"/*.o -o "$T/demo" -lm -lpthread\ntimeout 60 "$T/demo" {extra}\n'
    open(d + '/demo.sh', 'w').write(sh)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    print(sid, 'written')
