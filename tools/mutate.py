#!/usr/bin/env python3
"""Mutation testing of the checks (a development tool, not a check):
tools/mutate.py WORKDIR N SEED FILE_GLOB PROP[,PROP...]
makes N random small changes to files under WORKDIR/repo/c matching FILE_GLOB (never to /repo), runs the quick
checks of the properties on each, and prints the ones nothing noticed."""
import fnmatch, json, os, random, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
work, n, seed, globs, props = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4].split(','), sys.argv[5].split(',')
os.makedirs(work, exist_ok=True)
R = work + '/repo'
if os.path.exists(R):
    shutil.rmtree(R)
subprocess.run(['git', 'clone', '-q', '/repo', R], check=True)
covered = None
if len(sys.argv) > 6:  # lines.txt of tools/cov.sh: only mutate executed lines
    covered, cur = {}, None
    for l in open(sys.argv[6], errors='replace'):
        m = re.match(r'^(/\S+):$', l)
        if m:
            cur = m.group(1).replace('/repo/c/', '')
            continue
        m = re.match(r'^\s*(\d+)\|\s*([\d.]+[kMG]?)\|', l)
        if m and cur and m.group(2) not in ('0',):
            covered.setdefault(cur, set()).add(int(m.group(1)))
rnd = random.Random(seed)
REL = {'<': ['<=', '>'], '>': ['>=', '<'], '<=': ['<', '>='], '>=': ['>', '<='], '==': ['!='], '!=': ['=='], '&&': ['||'], '||': ['&&'],
       '+': ['-'], '-': ['+'], '*': ['/'], '<<': ['>>'], '>>': ['<<'], '&': ['|'], '|': ['&'], '+=': ['-='], '-=': ['+='], '++': ['--']}
OPS = re.compile(r'(?<=[\s\w\)\]])\s(<=|>=|==|!=|&&|\|\||<<|>>|\+=|-=|<|>|\+|-|\*|&|\|)\s(?=[\w\(\-!~&*])')
NUM = re.compile(r'(?<![\w.])(\d+|0x[0-9A-Fa-f]+)(?![\w.xX])')


def candidates():
    out = []
    for dp, dn, fn in os.walk(R + '/c'):
        if '/test' in dp or '/catch' in dp:
            continue
        for f in fn:
            p = os.path.join(dp, f)
            rel = p[len(R + '/c/'):]
            if not any(fnmatch.fnmatch(rel, g) for g in globs):
                continue
            s = open(p).read()
            incom = False
            for i, l in enumerate(s.split('\n')):
                t = l.strip()
                if incom:
                    incom = '*/' not in t
                    continue
                if t.startswith('/*'):
                    incom = '*/' not in t
                    continue
                if not t or t.startswith(('//', '#', '*')) or 'assert' in t or 'log_' in t or 'fprintf' in t or 'static_assert' in t:
                    continue
                if covered is not None and (i + 1) not in covered.get(rel, ()):
                    continue
                for m in OPS.finditer(l):
                    for r in REL.get(m.group(1), []):
                        out.append((rel, i, l[:m.start(1)] + r + l[m.end(1):]))
                for m in NUM.finditer(l):
                    if '//' in l[:m.start()] or '/*' in l[:m.start()] or '"' in l:
                        continue
                    v = int(m.group(1), 0)
                    for d in (1, -1):
                        if v + d >= 0:
                            out.append((rel, i, l[:m.start(1)] + str(v + d) + l[m.end(1):]))
                if re.match(r'if \(.*\) \{$', t):
                    out.append((rel, i, l.replace('if (', 'if (!(', 1)[:-3] + ')) {'))
                if re.match(r'^[\w\->.\[\]\*&]+(\(.*\)| [-+|&*]?= .*);$', t) and not t.startswith(('return', 'const', 'static')):
                    out.append((rel, i, '  ;'))
                if re.match(r'^(return|continue|break)\b.*;$', t) and t in ('continue;', 'break;', 'return;'):
                    out.append((rel, i, '  ;'))
                for a, b in (('true', 'false'), ('false', 'true')):
                    if re.search(r'\b%s\b' % a, l):
                        out.append((rel, i, re.sub(r'\b%s\b' % a, b, l, count=1)))
    return out


cand = sorted(set(candidates()))
rnd.shuffle(cand)
print(len(cand), 'candidates', flush=True)
env = dict(os.environ, VERIF_REPO=R, PBT_BUILD=work + '/build')
# an own copy, so that /verif can be edited meanwhile
VC = work + '/v'
if os.path.exists(VC):
    shutil.rmtree(VC)
shutil.copytree(V, VC, ignore=shutil.ignore_patterns('build', '.git', 'seeded', 'evidence', 'replays'))
perline = {}
done = 0
res = open(work + '/results.jsonl', 'a')
for rel, i, new in cand:
    if done >= n:
        break
    if perline.get((rel, i), 0) >= 1:
        continue
    perline[(rel, i)] = 1
    p = f'{R}/c/{rel}'
    s = open(p).read()
    ls = s.split('\n')
    old = ls[i]
    ls[i] = new
    open(p, 'w').write('\n'.join(ls))
    killed = None
    try:
        for c in props:
            q = subprocess.run([sys.executable, VC + '/check.py', c], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=900)
            if q.returncode == 1:
                killed = c
                break
            if q.returncode == 2:
                killed = 'BUILD' if 'BUILD FAILED' in q.stderr or 'LINK' in q.stderr else 'ERR'
                break
    except subprocess.TimeoutExpired:
        killed = 'TIMEOUT'
    open(p, 'w').write(s)
    if killed == 'BUILD':
        continue
    done += 1
    res.write(json.dumps({'file': rel, 'line': i + 1, 'old': old.strip(), 'new': new.strip(), 'killed': killed}) + '\n')
    res.flush()
    if killed is None or killed in ('ERR', 'TIMEOUT'):
        print(f'{killed or "SURVIVED"} {rel}:{i+1}\n   - {old.strip()}\n   + {new.strip()}', flush=True)
print('done', done, flush=True)
