#!/usr/bin/env python3
"""Do the lines each planted bug removes stem from the original repository (not from our own commits)?"""
import glob, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H %s'], stdout=subprocess.PIPE, text=True).stdout.splitlines()
base = next(l.split()[0] for l in log if not l.split(' ', 1)[1].startswith('fix:'))
for d in sorted(glob.glob(V + '/seeded/*')):
    bad, f = [], None
    for l in open(d + '/patch.diff'):
        if l.startswith('--- a/'):
            f = l[6:].strip()
            orig = subprocess.run(['git', '-C', '/repo', 'show', f'{base}:{f}'], stdout=subprocess.PIPE, text=True).stdout.splitlines()
        elif l.startswith('-') and not l.startswith('---') and l[1:].rstrip('\n') not in orig:
            bad.append(l[1:].strip())
    print(os.path.basename(d), 'NOT ORIGINAL ' + repr(bad) if bad else 'ok')
