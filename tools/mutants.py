#!/usr/bin/env python3
"""mutants.py DIR LOG: give every DIR/*.diff (tools/mutate.py) to the checks, cheap ones first, until one reports it.
Run inside tools/lab.sh. Writes one line per mutant: what caught it, or MISSED."""
import sys, os, subprocess, glob, time
D, LOG = sys.argv[1:3]
ORDER = {'repodata': 'D01 D03 D02 D04', 'python': 'P01', 'comp_op': 'O01 V05 S01', 'spec_trees': 'T02 T01 T03 T04 T05 T06 S05 S04', 'matching': 'S04 S05 S03 S02 S01 T04 T06',
         'conda': 'V04 V01 V02 T06', 'pep440': 'V04 V02 T06 V03', 'version_part': 'V04 T06 V02 V03 V05', 'version/version': 'V04 V05 T06 V02 V03 S02', 'errors': 'T06 V01 S04 D02 P01'}
done = {l.split()[0] for l in open(LOG)} if os.path.exists(LOG) else set()
for f in sorted(glob.glob(D + '/*.diff')):
    n = os.path.basename(f)[:-5]
    if n in done: continue
    t = open(f).read(); path = [l for l in t.splitlines() if l.startswith('+++')][0]
    order = next(v for k, v in ORDER.items() if k in path).split()
    subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'], check=True)
    subprocess.run(['git', '-C', '/repo', 'apply', '--whitespace=nowarn', f], check=True)
    got = []
    for c in order:
        s = time.time(); r = subprocess.run(['./check.sh', c, 'quick'], capture_output=True, text=True)
        got.append(f'{c}={r.returncode}({time.time()-s:.0f}s)')
        if r.returncode == 1: break
    ch = ' / '.join(l.strip() for l in t.splitlines() if l[:1] in '+-' and l[:3] not in ('+++', '---'))
    open(LOG, 'a').write(f"{n} {'caught' if r.returncode == 1 else 'MISSED'} {' '.join(got)} {os.path.basename(path)} {ch[:200]}\n")
subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
open(LOG, 'a').write('END\n')
