#!/usr/bin/env python3
"""Regenerates sim/data/ucd16.txt (the oracle's Unicode 16.0.0 data) without reading /repo.
Sources: ICU 78 through node (decompositions, composites, categories), CPython's unicodedata 15.0 (combining classes).
Run by hand only; checks read the committed file."""
import json, subprocess, unicodedata as ud, os
here = os.path.dirname(os.path.abspath(__file__))
assert ud.unidata_version == '15.0.0'
reps, seen, C = [], set(), {}
for u in range(0x110000):
    if 0xD800 <= u < 0xE000: continue
    c = chr(u)
    if ud.category(c) == 'Cn':
        continue
    k = ud.combining(c)
    if k:
        C[u] = k
        if k not in seen and not ud.decomposition(c):
            seen.add(k); reps.append((u, k))
def icu(cand):
    return subprocess.run(['node', os.path.join(here, 'gen_ucd.js'), json.dumps(reps), json.dumps(cand)],
                          capture_output=True, text=True, check=True).stdout.splitlines()
out = icu([])
# second pass: candidates are the marks of 16.0 unknown to Python
marks = []
for l in out:
    t = l.split()
    if t[0] == 'M':
        marks += [u for u in range(int(t[1], 16), int(t[2], 16) + 1) if ud.category(chr(u)) == 'Cn']
out = icu(marks)
for l in out:
    t = l.split()
    if t[0] == 'C': C[int(t[1], 16)] = int(t[3])
out = [l for l in out if not l.startswith('C ')]
runs = []
for u in sorted(C):
    if runs and runs[-1][1] == u - 1 and runs[-1][2] == C[u]: runs[-1][1] = u
    else: runs.append([u, u, C[u]])
out += ['C %x %x %d' % tuple(r) for r in runs]
open(os.path.join(here, '..', 'sim', 'data', 'ucd16.txt'), 'w').write('\n'.join(out) + '\n')
