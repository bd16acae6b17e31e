#!/usr/bin/env python3
"""Builds the code under test from /repo's working tree together with the
harness of one property, runs the generated-input search and writes
evidence/<id>.json.

  check.py <ID> [--tier quick|thorough]     exit 0 / exit 1 + VIOLATION line
  check.py --replay <file>                  re-run one saved case
  check.py --setup                          build every harness
"""
import concurrent.futures as cf, glob, hashlib, json, os, re, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get('VERIF_REPO', '/repo')
B = os.environ.get('PBT_BUILD') or os.path.join(V, 'build')
S = os.path.join(V, 'shim')
C = os.path.join(R, 'c')
sys.path.insert(0, os.path.join(V, 'tools'))
from groups import GROUPS, PROPS  # noqa

INCS = [S + '/include', C + '/librtcm/include', C + '/librtcm/src', C + '/libubx/include', C + '/libixcom/include',
        C + '/gnss_converters/include', C + '/gnss_converters/src', C + '/gnss_converters/src/ubx_ephemeris',
        C + '/gnss_converters_extra/include', C + '/gnss_converters_extra/src', C + '/nov2sbp', C + '/nov2sbp/src',
        C + '/rtcm3tosbp/src', C + '/ubx2sbp/src', C + '/ixcom2sbp/src', V + '/harness']
SAN = ['-fsanitize=address,bounds,null,return,unreachable,integer-divide-by-zero,vla-bound', '-fno-sanitize-recover=all']
COMMON = ['-gline-tables-only', '-fno-omit-frame-pointer', '-fwrapv', '-w', '-D_GNU_SOURCE'] + SAN
REPO_ONLY = ['-fno-sanitize-address-use-odr-indicator', '-fsanitize-coverage=inline-8bit-counters', '-ftrivial-auto-var-init=pattern']
if os.environ.get('PBT_COV'):  # source coverage, see tools/cov.sh
    REPO_ONLY += ['-fprofile-instr-generate', '-fcoverage-mapping']
ALT = ['-ftrivial-auto-var-init=zero']
# the copy that runs under the deterministic scheduler (harness/turns.h defines the callbacks)
SCHED = ['-O1', '-gline-tables-only', '-fwrapv', '-w', '-D_GNU_SOURCE', '-fsanitize=thread', '-ftrivial-auto-var-init=pattern']
SCHED_CALLS = ('pthread_mutex_lock=sched_mutex_lock', 'mtx_lock=sched_mtx_lock', 'sched_yield=sched_yield_now', 'thrd_yield=sched_thrd_yield')
GCC_NOT = {'-gline-tables-only': '-g1', '-fno-sanitize-address-use-odr-indicator': None, '-fsanitize-coverage=inline-8bit-counters': None,
           '-fprofile-instr-generate': None, '-fcoverage-mapping': None}


def sources(dirs):
    out, named = [], []
    for d in dirs:
        if d.endswith(('.c', '.cc')):
            named.append(f'{C}/{d}')
        for ext in ('c', 'cc', 'cpp'):
            out += glob.glob(f'{C}/{d}/**/*.{ext}', recursive=True)
    out = sorted({f for f in out if '/test' not in f[len(C):] and '/catch/' not in f and not f.endswith('_main.c') and not f.endswith('/main.cc')
                  and not f.endswith('_main.cc')} | set(named))
    return out


_hdr = None


def header_hash():
    global _hdr
    if _hdr is None:
        h = hashlib.sha256()
        fs = []
        for root in (C, S + '/include', V + '/harness'):
            for dp, dn, fn in os.walk(root):
                if '/test' in dp[len(root):]:
                    continue
                fs += [os.path.join(dp, f) for f in fn if f.endswith(('.h', '.hpp', '.inc'))]
        for f in sorted(fs):
            h.update(f.encode())
            h.update(open(f, 'rb').read())
        _hdr = h.hexdigest()
    return _hdr


def contents(src):
    t = open(src, 'rb').read()
    for m in re.findall(rb'^#include "(\w+\.cc)"', t, re.M):
        f = os.path.join(os.path.dirname(src), m.decode())
        t += open(f, 'rb').read() if os.path.exists(f) else b''
    return t


def compile_one(job):
    src, flags, post = job
    lang_c = src.endswith('.c')
    cmd = ['clang' if lang_c else 'clang++'] + (['-std=gnu11', '-fexceptions'] if lang_c else []) + flags + ['-I' + i for i in INCS]
    key = hashlib.sha256((header_hash() + repr(cmd) + repr(post) + src).encode() + contents(src)).hexdigest()[:24]
    obj = f'{B}/obj/{os.path.basename(src)}.{key}.o'
    if not os.path.exists(obj):
        tmp = obj + f'.{os.getpid()}.tmp'
        p = subprocess.run(cmd + ['-c', src, '-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode and src.startswith(C):  # what clang cannot compile, the official compiler may
            gcc = ['gcc' if lang_c else 'g++'] + [x for x in (GCC_NOT.get(f, f) for f in cmd[1:]) if x]
            q = subprocess.run(gcc + ['-c', src, '-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            p = p if q.returncode else q
        if p.returncode:
            return None, f'{src}:\n{p.stdout[:1500]}'
        if isinstance(post, tuple):  # silence diagnostics printed by the code under test
            subprocess.run(['objcopy'] + [f'--redefine-sym={r}' for r in post] + [tmp], check=True)
        os.rename(tmp, obj)
    return obj, None


def prefixed(group, prefix, objs):
    o = f'{B}/obj/{prefix}-{group}-{os.getpid()}.o'
    subprocess.run(['ld', '-r', '-o', o] + objs, check=True)
    nm = subprocess.run(['nm', '--defined-only', '-g', o], stdout=subprocess.PIPE, text=True, check=True).stdout
    syms = sorted({l.split()[-1] for l in nm.splitlines() if len(l.split()) == 3})
    sf = o + '.syms'
    open(sf, 'w').write(''.join(f'{s} {prefix}_{s}\n' for s in syms if not s.startswith(('__', 'asan', '_ZTS', '_ZTI'))))
    subprocess.run(['objcopy', '--redefine-syms', sf, o], check=True)
    os.unlink(sf)
    return o


def build(group, wide=False):
    g = GROUPS[group]
    os.makedirs(B + '/obj', exist_ok=True)
    os.makedirs(B + '/bin', exist_ok=True)
    jobs = []
    for h in g['harness']:
        jobs.append((f'{V}/harness/{h}', ['-std=gnu++17', '-O1'] + COMMON + [f'-DPBT_GROUP_{group}'], None))
    jobs.append((f'{V}/harness/pbt.cc', ['-std=gnu++17', '-O1'] + COMMON, None))
    for s in sorted(glob.glob(S + '/src/*.c')):
        jobs.append((s, ['-O1'] + COMMON, None))
    repo = sources(g['repo'] + (['librtcm/src', 'libubx/src', 'libixcom/src', 'gnss_converters/src'] if wide else []))
    for s in repo:
        std = [] if s.endswith('.c') else ['-std=gnu++14']
        jobs.append((s, std + ['-O1'] + COMMON + REPO_ONLY + g.get('flags', []), tuple(g['redef']) if 'redef' in g else None))
    nfirst = len(jobs)
    if g.get('alt'):
        for s in repo:
            std = [] if s.endswith('.c') else ['-std=gnu++14']
            jobs.append((s, std + ['-O1'] + COMMON + ALT + g.get('flags', []), 'alt'))
    nalt = len(jobs)
    for s in repo if g.get('sched') else []:
        jobs.append((s, ([] if s.endswith('.c') else ['-std=gnu++14']) + SCHED + g.get('flags', []), SCHED_CALLS))
    # biggest first
    order = sorted(range(len(jobs)), key=lambda i: -os.path.getsize(jobs[i][0]) * (4 if '/harness/' in jobs[i][0] else 1))
    objs = [None] * len(jobs)
    errs = []
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        futs = {ex.submit(compile_one, jobs[i]): i for i in order}
        for f in cf.as_completed(futs):
            o, e = f.result()
            objs[futs[f]] = o
            if e:
                errs.append(e)
    if errs:
        sys.stderr.write('BUILD FAILED\n' + '\n'.join(errs)[:5000] + '\n')
        return None
    # further copies of the code under test, with every global symbol prefixed
    alt = [prefixed(group, 'alt', objs[nfirst:nalt])] if g.get('alt') else []
    alt += [prefixed(group, 'sch', objs[nalt:])] if g.get('sched') else []
    binf = f'{B}/bin/{group}'
    tmp = binf + f'.{os.getpid()}'
    p = subprocess.run(['clang++'] + SAN + (['-fprofile-instr-generate'] if os.environ.get('PBT_COV') else []) + objs[:nfirst] + alt + ['-o', tmp, '-lpthread', '-lm'],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    for o in alt:
        os.unlink(o)
    if p.returncode and not wide and group not in ('nov', 't_nov'):
        return build(group, True)  # the code under test may have grown a new file: take in everything
    if p.returncode:
        sys.stderr.write('LINK FAILED\n' + p.stdout[:6000] + '\n')
        return None
    os.rename(tmp, binf)
    return binf


def prune():
    # keep the object cache small
    fs = sorted(glob.glob(B + '/obj/*'), key=os.path.getmtime)
    tot = sum(os.path.getsize(f) for f in fs)
    for f in fs:
        if tot < 600e6:
            break
        tot -= os.path.getsize(f)
        os.unlink(f)


def known_findings():
    """known_findings.txt: 'finding: property=<id> key=<key> :: <what fails>' lines
    (the engine matches the key) and 'fixed: property=<id> <commit> <what failed>'
    lines, which suppress nothing."""
    out = []
    p = V + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=(.*?) :: (.*)', l.strip())
            if m:
                out.append({'property': m.group(1), 'key': m.group(2), 'what': m.group(3)})
    return out


def main():
    a = sys.argv[1:]
    if a and a[0] == '--setup':
        ok = True
        for g in GROUPS:
            t = time.time()
            b = build(g)
            print(g, 'ok' if b else 'FAILED', f'{time.time()-t:.1f}s', flush=True)
            ok &= bool(b)
        return 0 if ok else 2
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--tier' in a:
        i = a.index('--tier')
        tier = a[i + 1]
        del a[i:i + 2]
    if a and a[0] == '--replay':
        pid = re.search(r'^property (\S+)', open(a[1]).read(), re.M).group(1)
        sub = re.search(r'^sub (\S+)', open(a[1]).read(), re.M).group(1)
        for g in PROPS[pid]:
            b = build(g)
            if not b:
                return 2
            if f'{pid} {sub} ' in subprocess.run([b, '--list'], stdout=subprocess.PIPE, text=True).stdout:
                return subprocess.run([b, '--replay', a[1]]).returncode
        return 2
    pid = a[0]
    extra = a[1:]
    # how many times the sub-check's own number of cases a quick run makes
    scale = 1 if tier != 'quick' else 1.5 if pid in ('C32', 'C36', 'C39') else 3
    seed = int(os.environ.get('VERIF_SEED') or 1)
    t0 = time.time()
    tb = 0
    os.makedirs(V + '/evidence', exist_ok=True)
    os.makedirs(V + '/replays', exist_ok=True)
    kn = [k for k in known_findings() if k['property'] == pid]
    kf = f'{B}/known-{pid}'
    r = None
    for g in PROPS[pid]:
        t1 = time.time()
        b = build(g)
        if not b:
            return 2
        tb += time.time() - t1
        open(kf, 'w').write(''.join(k['key'] + '\n' for k in kn))
        out = f'{B}/result-{pid}-{g}.json'
        if os.path.exists(out):
            os.unlink(out)
        rc = subprocess.run([b, '--prop', pid, '--tier', tier, '--seed', str(seed), '--out', out, '--replaydir', V + '/replays',
                             '--known', kf, '--scale', str(scale)] + extra).returncode
        if rc not in (0, 1) or not os.path.exists(out):
            sys.stderr.write(f'harness error rc={rc}\n')
            return 2
        q = json.load(open(out))
        if r is None:
            r = q
        else:
            r['subs'] += q['subs']
            for k in ('evaluations', 'distinct_nontrivial', 'violations'):
                r[k] += q[k]
            for k in ('sub', 'message', 'replay'):
                if k in q:
                    r[k] = q[k]
        if q['violations']:
            break
    samples = []
    for s in r['subs']:
        for x in s['samples']:
            samples.append({'sub': s['name'], 'case': x})
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': r['evaluations'], 'distinct_nontrivial': r['distinct_nontrivial'],
            'rule': ' | '.join(f"{s['name']}: {s['rule']}" for s in r['subs']),
            'samples': samples[:12],
            'per_check': [{k: s[k] for k in ('name', 'planned', 'evaluations', 'discarded', 'nontrivial', 'distinct_nontrivial',
                                             'corpus', 'secs', 'labels')} for s in r['subs']],
            'build_s': round(tb, 1),
        },
        'assumptions': ['libswiftnav and libsbp are absent from this sandbox (empty submodules); the stand-ins in /verif/shim '
                        'replace them and pass the repository\'s own converter tests (see DESIGN.md)'],
        'wall_s': round(time.time() - t0, 2), 'violations': r['violations'],
    }
    json.dump(ev, open(f'{V}/evidence/{pid}.json', 'w'), indent=1)
    for k in kn:
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    if r['violations']:
        print(f"{r['sub']}: {r['message']}".encode('ascii', 'backslashreplace').decode())
        print(f"VIOLATION property={pid} replay={r['replay']}")
        return 1
    print(f"OK property={pid} cases={r['evaluations']} distinct_nontrivial={r['distinct_nontrivial']} wall={time.time()-t0:.1f}s")
    return 0


sys.exit(main())
